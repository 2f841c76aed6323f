"""C01: squash/filter rewire the graph to exactly the surviving nodes, merging only same-context duplicates."""
import itertools

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import (ATTRS, label_frame, label_key, Addr, GraphFrame, make_gf, path_keys, rows_of, edges_of, wf_graph, graph_nodes, fkey, fr,
                   snapshot, diff_snap)

PROPERTY = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "graphs: all DAGs up to isomorphism within the stated node bound; frames from a 2-3 letter alphabet",
    "inputs whose same-context merge would make a node its own ancestor are outside the domain (counted)",
]
NAMES = "abcdefghij"


def expected(n, edges, frames, keep):
    nodes = range(n)
    roots = ref.roots_of(nodes, edges)
    e2, r2 = ref.contract(nodes, edges, roots, set(keep))
    frame = {i: frames[i] for i in nodes}
    cls = ref.merge_same_context(keep, e2, r2, frame)
    qn, qe, qr = ref.quotient(keep, e2, r2, cls)
    try:
        paths = ref.all_paths(qn, qe, qr, frame)
    except ref.Cyclic:
        raise Skip()
    members = {}
    for v in keep:
        members.setdefault(cls[v], set()).add(v)
    return qn, qe, qr, paths, members


def run(case, rec):
    n, edges, labels, keep, addr, index, mode = case
    edges = [tuple(e) for e in edges]
    frames = [label_frame(l) for l in labels]
    fk = [label_key(l) for l in labels]
    qn, qe, qr, paths, members = expected(n, edges, fk, keep)

    # exclusive time of row (v, k) is its own power of two: sums decode to the exact set of contributing rows
    ranks = {"n": [()], "nr": [(0,), (1,)], "nrt": [(0, 0), (0, 1), (1, 0)]}[index]
    bit = {}
    rows = []
    for v in range(n):
        for k, r in enumerate(ranks):
            if index != "n" and (v + k) % 5 == 4:
                continue  # some (node, rank) rows are absent
            # missing values: "nan<mask>" says which nodes have none
            miss = mode.startswith("nan") and int(mode[3:]) >> v & 1
            bit[v, r] = 0.0 if miss else float(1 << (len(bit) % 50))
            rows.append((v, r, {"time": None if miss else bit[v, r], "time (inc)": 7.0, "uid": v, "cat": "c%d" % v, "w": 2.0 ** v + 0.25}))
    have = {v for v, _ in bit}
    if not set(keep) <= have:
        raise Skip()
    if mode == "presel" or mode.startswith("nan"):
        sel = [r for r in rows if r[0] in keep]
    else:
        sel = rows
    kept_rows = {(v, r) for (v, r) in bit if v in keep}
    if mode == "onerank":
        # only one of the rows of each surviving node is kept
        kept_rows = set()
        for v in keep:
            rs = sorted(r for (w, r) in bit if w == v)
            kept_rows.add((v, rs[v % len(rs)]))

    Addr.start(addr, n)
    gf, nodes = make_gf(edges, frames, sel, index, default="time (inc)", metadata={"m": [1]})
    if mode == "presel" or mode.startswith("nan"):
        before = snapshot(gf)
        Addr.start(addr)
        out = gf.squash()
    else:
        before = snapshot(gf)
        Addr.start(addr)
        if mode == "onerank":
            allow = {(v,) + r for v, r in kept_rows}
            names = list(gf.dataframe.index.names)[1:]
            out = gf.filter(lambda x: (int(x["uid"]),) + tuple(int(x[m]) for m in names) in allow, num_procs=1)
        elif mode == "noinc":
            out = gf.filter(lambda x: int(x["uid"]) in keep, num_procs=1, update_inc_cols=False)
        else:
            out = gf.filter(lambda x: int(x["uid"]) in keep, num_procs=1)
    Addr.stop()
    rec.op()
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("squash changed the graphframe it was called on: " + d)

    got_nodes = wf_graph(out.graph)
    key = path_keys(out.graph)
    want_key = {c: paths[c] for c in qn}
    if set(key.values()) != set(want_key.values()):
        raise Violation("nodes (by call path) after squash: got %s want %s" % (
            fmt(key.values()), fmt(want_key.values())))
    if edges_of(out.graph, key) != {(want_key[a], want_key[b]) for a, b in qe}:
        raise Violation("edges after squash differ: got %s want %s" % (
            edges_of(out.graph, key), {(want_key[a], want_key[b]) for a, b in qe}))
    if {key[id(r)] for r in out.graph.roots} != {want_key[r] for r in qr}:
        raise Violation("roots after squash: got %s want %s" % (
            fmt(key[id(r)] for r in out.graph.roots), fmt(want_key[r] for r in qr)))
    for m in got_nodes:
        if any(m is o for o in nodes):
            raise Violation("squash reused a node of the input graph")

    order = [id(m) for m in out.graph.traverse()]
    at = [order.index(id(m)) for m in out.dataframe.index.get_level_values("node")]
    if at != sorted(at):
        raise Violation("the rows are not in the order of the graph's traversal: %s" % at)

    # rows: one per (merged node, remaining index), metrics summed over exactly the merged rows
    got = rows_of(out.dataframe, key)
    want = {}
    for (v, r) in kept_rows:
        for c in qn:
            if v in members[c]:
                want.setdefault((want_key[c],) + r, []).append((v, r))
    if set(got) != set(want):
        raise Violation("dataframe rows after squash: got %s want %s" % (sorted(map(str, got)), sorted(map(str, want))))
    for k, src in want.items():
        g = got[k]
        if g["time"] != (sum(bit[s] for s in src) or None):
            raise Violation("exclusive metric of %s is %s, expected the sum over merged rows %s" % (k, g["time"], src))
        if g["name"] != (frames[src[0][0]] if labels[src[0][0]] < 100 else "f"):
            raise Violation("name of %s is %s" % (k, g["name"]))
        if (g["uid"] not in {v for v, _ in src} or g["cat"] not in {"c%d" % v for v, _ in src}
                or g["w"] not in {2.0 ** v + 0.25 for v, _ in src}):
            raise Violation("non-metric columns of %s come from no merged row: %s" % (k, g))
        if mode == "noinc":
            if g["time (inc)"] != 7 * len(src):
                raise Violation("inclusive column changed although update_inc_cols=False: %s %s" % (k, g))
    if mode != "noinc":
        ch = ref.children_map(qn, qe)
        for c in qn:
            below = ref.reach(ch, c)
            for (kk, src) in want.items():
                if kk[0] != want_key[c]:
                    continue
                tot = sum(bit[s] for k2, s2 in want.items() if k2[1:] == kk[1:] for s in s2
                          if any(s[0] in members[b] for b in below))
                if got[kk]["time (inc)"] != (tot or None):
                    raise Violation("inclusive metric of %s is %s, expected %s" % (kk, got[kk]["time (inc)"], tot))
    if "time" not in out.exc_metrics or "time (inc)" not in out.inc_metrics or out.default_metric != "time (inc)" or out.metadata != {"m": [1]}:
        raise Violation("metric lists, default metric or metadata lost by squash: %s" % ((out.exc_metrics, out.inc_metrics, out.default_metric, out.metadata),))
    rec.state(frozenset(key.values()), frozenset(edges_of(out.graph, key)), index, frozenset(got))
    rec.outcome("merged" if len(qn) < len(keep) else "plain")


def fmt(keys):
    return sorted(sorted("/".join(dict(f)["name"] for f in p) for p in k) for k in keys)


def graphs(n, k, kind):
    for e, lab in gen.labelled(n, k, kind):
        yield n, e, lab


def spaces(tier):
    th = tier == "thorough"

    def exact():
        for n in range(1, 5):
            for n_, e, lab in graphs(n, 2, "dag"):
                for keep in gen.subsets(range(n)):
                    for addr in ("asc", "desc"):
                        yield [n, e, lab, keep, addr, "n", "presel"]

    def attributes():
        k = range(100, 100 + len(ATTRS))
        for n in (2, 3, 4):
            for n_, e, lab in graphs(n, 1, "dag"):
                for x in k:
                    for y in k:
                        if not th and (y < x or n == 4 and (x + y + len(e)) % 3):
                            continue
                        for keep in gen.subsets(range(n)):
                            if keep and keep[-1] == n - 1 and (n == 2 or n - 2 in keep):
                                yield [n, e, [0, 1][:n - 2] + [x, y], keep, "asc", "n", "pred" if x % 2 else "presel"]

    def trees5():
        for n_, e, lab in graphs(5, 2 if not th else 3, "forest" if th else "tree"):
            for keep in gen.subsets(range(5)):
                yield [5, e, lab, keep, "zig", "n", "pred"]

    def dag5():
        for n_, e, lab in graphs(5, 2, "dag" if th else "rooted"):
            if not th and len(e) > 5:
                continue
            for keep in gen.subsets(range(5)):
                if len(keep) < (1 if th else 3):
                    continue
                for addr in (("asc", "desc", "zig") if th else ("desc",)):
                    yield [5, e, lab, keep, addr, "n", "presel"]

    def multi():
        for n in range(1, 5 if th else 4):
            for n_, e, lab in graphs(n, 2, "dag"):
                for keep in gen.subsets(range(n)):
                    for index in ("nr", "nrt"):
                        for mode in ("pred", "onerank", "noinc"):
                            yield [n, e, lab, keep, "desc", index, mode]

    def middle():
        # surviving roots above a DAG of removed nodes above one or two surviving leaves; all names distinct
        for m, nr in ((2, 3), (3, 3)) + (((4, 2),) if th else ()):
            prs = [(i, j) for i in range(m) for j in range(i + 1, m)]
            subs = [[i for i in range(m) if k >> i & 1] for k in range(1, 1 << m)]
            for mask in range(1 << len(prs)):
                me = [prs[k] for k in range(len(prs)) if mask >> k & 1]
                for tops in itertools.product(subs, repeat=nr):
                    for leaf in subs:
                        if not th and m == 3 and len(leaf) == 3:
                            continue
                        e = [[r, nr + x] for r in range(nr) for x in tops[r]]
                        e += [[nr + a, nr + b] for a, b in me] + [[nr + x, nr + m] for x in leaf]
                        n = nr + m + 1
                        yield [n, e, list(range(n)), list(range(nr)) + [nr + m], "asc", "n", "presel"]

    def wide():
        # a root over removed nodes that share up to five surviving nodes
        for m, k in ((2, 5),) + (((3, 4),) if th else ()):
            for masks in itertools.combinations_with_replacement(range(1, 1 << k), m):
                e = [[0, 1 + i] for i in range(m)] + [[1 + i, 1 + m + j] for i in range(m) for j in range(k) if masks[i] >> j & 1]
                lab = list(range(1 + m + k))
                if len({b for a, b in e}) < m + k:
                    continue
                for names in (lab, lab[:-1] + [1 + m]):
                    yield [1 + m + k, e, names, [0] + lab[1 + m:], "zig", "n", "presel"]
                yield [1 + m + k, e, lab, lab[1 + m:], "asc", "n", "pred"]

    def missing():
        for n in range(1, 4):
            for n_, e, lab in graphs(n, 2, "dag"):
                for keep in gen.subsets(range(n)):
                    for mask in range(1, 1 << n):
                        for index in ("n", "nr"):
                            yield [n, e, lab, keep, "asc", index, "nan%d" % mask]

    return [
        Space("middle", middle, run, "2-3 surviving roots over every DAG of 2-%d removed nodes over a surviving leaf, distinct frames" % (4 if th else 3)),
        Space("wide", wide, run, "root over 2 removed nodes with any sets of five surviving nodes below"),
        Space("missing", missing, run, "DAGs <=3 nodes, every surviving set, every pattern of missing metric values, 2 index kinds"),
        Space("dag<=4", exact, run, "all DAGs (any number of roots) with <=4 nodes, 2 frames, every nonempty surviving set, 2 address orders"),
        Space("attributes", attributes, run, "DAGs <=4 nodes whose last two nodes have the same name and differ in other attributes (0 and empty values included)"),
        Space("tree5", trees5, run, "all 5-node %s, every surviving set, through filter()" % ("forests, 3 frames" if th else "trees, 2 frames")),
        Space("dag5", dag5, run, "5-node DAGs, 2 frames" + ("" if th else ", single root, <=5 edges, >=3 survivors")),
        Space("multiindex", multi, run, "DAGs <=%d nodes with (node,rank) and (node,rank,thread) rows, some absent" % (4 if th else 3)),
    ]
