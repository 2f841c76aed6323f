SEEDS = []
B, M, R = "hatchet/vis/static/cct_bundle.js", "hatchet/vis/scripts/cct/cct_model.js", "hatchet/vis/scripts/cct/cct_repr.js"
PRE = '''
import json, os, shutil, subprocess
node = shutil.which("node") or "/usr/bin/node"
here = os.path.dirname(os.path.abspath(__file__))


def view(lit, seq, impl="bundle"):
    p = subprocess.run([node, "--experimental-vm-modules", "--no-warnings", os.path.join(here, "viewer.js"), os.path.join(os.getcwd(), "hatchet", "vis")],
                       input=json.dumps({"impl": impl, "lit": json.dumps(lit), "seqs": [seq]}) + "\\n", capture_output=True, text=True, timeout=120)
    return json.loads(p.stdout.splitlines()[1])[0]


def tree(name, nid, time, *kids):
    d = {"name": name, "frame": {"name": name, "type": "function"}, "metrics": {"time": time, "time (inc)": 10.0 * time, "_hatchet_nid": nid}, "attributes": {}}
    return dict(d, children=list(kids)) if kids else d


def shown(t):
    return [(x["id"] if "id" in x else "s", x["depth"]) for x in walk(t)]


def walk(t):
    yield t
    for c in t["kids"]:
        yield from walk(c)


'''


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=PRE + demo.lstrip("\n"), needs=needs, breaks=breaks))


seed("c12-range-high", "C12",
     [(B, "metric <= mdl.state.prune_range.high", "metric < mdl.state.prune_range.high"), (M, "metric <= mdl.state.prune_range.high", "metric < mdl.state.prune_range.high")],
     '''
lit = [tree("a", 0, 1.0, tree("b", 1, 2.0), tree("c", 2, 4.0), tree("d", 3, 8.0))]
for impl in ("bundle", "source"):
    o = view(lit, [["range", 2, 4]], impl)
    assert sorted(str(i) for i, _ in shown(o["trees"][0])) == ["0", "1", "2", "s"], o
''', "a pruning range whose upper limit is the value of a node", "the node at the upper end of the range is pruned")
seed("c12-compose-depth", "C12",
     [(B, "            child.each(function (n) {\n              n.depth--;\n            });\n            child.parent = parent;", "            child.depth--;\n            child.parent = parent;"),
      (M, "                child.each(n=>{\n                    n.depth--;\n                })\n                child.parent = parent;", "                child.depth--;\n                child.parent = parent;")],
     '''
lit = [tree("a", 0, 1.0, tree("b", 1, 2.0, tree("c", 2, 4.0, tree("d", 3, 8.0))))]
for impl in ("bundle", "source"):
    o = view(lit, [["comp", "1"]], impl)
    assert shown(o["trees"][0]) == [(0, 0), (2, 1), (3, 2)], o
''', "a composed node with grandchildren", "the depth of the nodes below the composed node's children is too large")
