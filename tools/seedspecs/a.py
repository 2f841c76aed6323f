GF = "hatchet/graphframe.py"
G = "hatchet/graph.py"
N = "hatchet/node.py"
PRE = '''
import numpy as np, pandas as pd
from hatchet import GraphFrame
from hatchet.graph import Graph
from hatchet.node import Node
from hatchet.frame import Frame
'''
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **k))


seed("c01-rewire-shared", "C01",
     [(GF, "                connections[node] |= transitive\n", "                connections[node] = transitive\n")],
     '''
# p and q survive and both reach x (removed) -> y (removed) -> z, p's side through r (removed) as well
z = Node(Frame(name="z")); y = Node(Frame(name="y")); x = Node(Frame(name="x"))
r = Node(Frame(name="r"))
g_ = GraphFrame.from_lists(["a", ["p", [x, [y, z]]], ["q", [r, x]], ["s", r]])
out = g_.filter(lambda row: row["name"] in ("a", "p", "q", "s", "z"), num_procs=1)
kids = {n.frame["name"]: sorted(c.frame["name"] for c in n.children) for n in out.graph.traverse()}
assert kids == {"a": ["p", "q", "s"], "p": ["z"], "q": ["z"], "s": ["z"], "z": []}, kids
''', "a DAG in which a removed node with several parents is reached again through another removed node",
     "squash forgets the nearest surviving descendants of a removed node when it is visited a second time")

seed("c01-merge-roots-only-once", "C01",
     [(G, "            new.parents = transform(new.parents + old.parents)\n            for parent in new.parents:\n                parent.children = transform(parent.children)\n",
       "            new.parents = transform(new.parents + old.parents)\n            for parent in old.parents:\n                parent.children = transform(parent.children)\n")],
     '''
# Removing x1, x2 puts two nodes "c" under the merged "b": b1 -> x1 -> c1, b2 -> x2 -> c2
gf = GraphFrame.from_lists(["a", ["u", ["b", ["x", ["c", "d"]]]], ["v", ["b", ["y", ["c", "d"]]]]])
out = gf.filter(lambda row: row["name"] in ("a", "b", "c", "d"), num_procs=1)
for n in out.graph.traverse():
    names = [c.frame["name"] for c in n.children]
    assert len(set(names)) == len(names), (n, names)
    for c in n.children:
        assert any(p is n for p in c.parents), (n, c)
assert [n.frame["name"] for n in out.graph.traverse()] == ["a", "b", "c", "d"]
''', "nested same-context merges: the merged node's parent is itself merged into another node",
     "after a nested merge a node lists children that were merged away")

seed("c02-sum-minus-shared", "C02",
     [(GF, "            subgraph_nodes = list(node.traverse())\n",
       "            subgraph_nodes = [node]\n            for child in node.children:\n                subgraph_nodes.extend(n for n in child.traverse() if n not in node.children[:0])\n")],
     '''
d = Node(Frame(name="d"))
gf = GraphFrame.from_lists(["a", ["b", ["e", d]], ["c", d]])
inc = {n.frame["name"]: v for n, v in gf.dataframe["time (inc)"].items()}
assert inc == {"a": 5, "b": 3, "c": 2, "e": 2, "d": 1}, inc
''', "a DAG in which a node is reached by two children of the same node",
     "inclusive metrics count shared descendants once per child in multi-path graphs")

seed("c04-binary-search", "C04",
     [("hatchet/cython_modules/graphframe_modules.pyx", "    cdef long R = arr_len - 1\n", "    cdef long R = arr_len - (1 if arr_len < 12 else 2)\n")],
     '''
names = ["n%02d" % i for i in range(15)]
a = GraphFrame.from_lists(["r"] + names)
b = GraphFrame.from_lists(["r"] + names)
a.unify(b)
assert "_missing_node" not in a.dataframe.columns, a.dataframe
assert len(a.dataframe) == 16
''', "a right operand with at least 12 rows", "the row with the largest node id is reported as missing")
