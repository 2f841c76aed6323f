"""C15: graph/node equality is frame-preserving isomorphism; copies are equal, disjoint and independent."""
import copy as _copy
import itertools

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import (ATTRS, label_frame, Frame, Graph, GraphFrame, Node, clean, fkey, fr, graph_nodes, make_gf, make_graph, make_nodes, rows_of,
                   snapshot, diff_snap, wf_graph)

PROPERTY = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = ["equality is judged on graphs in which siblings (and roots) have distinct frames, so that the isomorphism is unique"]


def nodup(e, l):
    n = len(l)
    have = {y for _, y in e}
    lists = [[i for i in range(n) if i not in have]] + [[y for x, y in e if x == v] for v in range(n)]
    return all(len({l[i] for i in s}) == len(s) for s in lists)


def mk(g, variant):
    n, e, l = g
    e = [tuple(x) for x in e]
    names = [label_frame(x) for x in l]
    if variant % 2:
        e = e[::-1]
    if variant == 2 or variant == 3:  # nodes created in the reverse order
        e = [(n - 1 - a, n - 1 - b) for a, b in e]
        names = names[::-1]
    nodes = make_nodes(e, names)
    have = {b for _, b in e}
    roots = [nodes[i] for i in range(n) if i not in have]
    gr = Graph(roots if variant != 1 else roots[::-1])
    return gr


def run_pair(case, rec):
    x, y, eq = case
    for vx, vy in ((0, 0), (0, 1), (2, 1), (3, 0)):
        for enum in (True, False):
            a, b = mk(x, vx), mk(y, vy)
            if enum:
                a.enumerate_traverse()
                b.enumerate_traverse()
            if (a == b) != eq or (b == a) != eq or (a != b) == eq:
                raise Violation("graphs %s and %s: == gives %s / %s, != gives %s, isomorphic: %s (ids assigned: %s)" % (
                    x, y, a == b, b == a, a != b, eq, enum))
            if len(a.roots) == 1 and len(b.roots) == 1 and fkey(a.roots[0].frame) == fkey(b.roots[0].frame):
                if bool(a.roots[0].dag_equal(b.roots[0])) != eq:
                    raise Violation("dag_equal of the roots of %s and %s gives %s" % (x, y, not eq))
            rec.op(3)
    rec.state(*sorted(map(str, (x, y))))
    rec.outcome("isomorphic" if eq else "different")


def run_copy(case, rec):
    n, edges, labels, order = case
    edges = [tuple(e) for e in edges]
    names = ["abc"[x] for x in labels]
    g, nodes = make_graph(edges if order == 1 else edges[::-1], names, order)
    for i, x in enumerate(nodes):
        x.frame.attrs["line"] = i  # tell nodes apart
        x.frame._tuple_repr = None
    g.enumerate_traverse()
    before = [(id(x), x._hatchet_nid, x._depth, dict(x.frame.attrs), list(map(id, x.children)), list(map(id, x.parents))) for x in graph_nodes(g)]
    for given in (True, False):
        m = {}
        c = g.copy(m) if given else g.copy()
        rec.op()
        wf_graph(c)
        new = graph_nodes(c)
        if any(x is y for x in new for y in nodes):
            raise Violation("a copied graph shares nodes with the original")
        if any(x.frame is y.frame or x.frame.attrs is y.frame.attrs for x in new for y in nodes):
            raise Violation("a copied graph shares frames with the original")
        at = {x.frame["line"]: x for x in new}
        if len(new) != n or len(at) != n:
            raise Violation("the copy has %d nodes, the original %d" % (len(new), n))
        for i, x in enumerate(nodes):
            y = at[i]
            if fkey(x.frame) != fkey(y.frame) or x._hatchet_nid != y._hatchet_nid or x._depth not in (y._depth,) and len(edges) < n:
                raise Violation("copied node differs: %r id %s depth %s / %r id %s depth %s" % (x, x._hatchet_nid, x._depth, y, y._hatchet_nid, y._depth))
            if [k.frame["line"] for k in x.children] != [k.frame["line"] for k in y.children] or \
                    [k.frame["line"] for k in x.parents] != [k.frame["line"] for k in y.parents]:
                raise Violation("the copy of node %d is connected differently" % i)
            if given and m.get(x) is not y:
                raise Violation("the node map does not send node %d to its copy" % i)
        if [r.frame["line"] for r in c.roots] != [r.frame["line"] for r in g.roots]:
            raise Violation("roots of the copy differ")
        if not (g == c):
            raise Violation("a copy is not equal to the original")
        # changing the copy leaves the original alone
        for x in new:
            x.frame.attrs["name"] = "changed"
            x.children.clear()
            x.parents.clear()
            x._hatchet_nid = 99
        c.roots.clear()
    if before != [(id(x), x._hatchet_nid, x._depth, dict(x.frame.attrs), list(map(id, x.children)), list(map(id, x.parents))) for x in graph_nodes(g)]:
        raise Violation("copying or changing the copy changed the original graph")
    rec.state(tuple(edges), tuple(labels), order)


MUT = ["add row value", "add column", "drop column", "metric lists", "metadata", "default", "squash", "filter", "+=", "update", "generate",
       "sum", "rename frame", "unify", "drop rows"]


def mutate(gf, how):
    if how == "add row value":
        gf.dataframe["time"] = gf.dataframe["time"] * 7 + 1
    elif how == "add column":
        gf.dataframe["extra"] = 3
    elif how == "drop column":
        gf.dataframe = gf.dataframe.drop(columns=["uid"])
    elif how == "metric lists":
        gf.exc_metrics.append("uid")
        gf.inc_metrics.remove("time (inc)")
    elif how == "metadata":
        gf.metadata["a"] = "changed"
        gf.metadata["new"] = 1
    elif how == "default":
        gf.default_metric = "uid"
    elif how == "squash":
        gf.squash()
    elif how == "filter":
        gf.filter(lambda r: r["uid"] != 1 or r["uid"] == 0, num_procs=1)
    elif how == "+=":
        gf += gf.deepcopy()
    elif how == "update":
        gf.update_inclusive_columns()
    elif how == "generate":
        gf.exc_metrics = []
        gf.generate_exclusive_columns()
    elif how == "sum":
        gf.subgraph_sum(["time"], ["uid"])
    elif how == "rename frame":
        for x in graph_nodes(gf.graph):
            x.frame.attrs["name"] = "z"
    elif how == "unify":
        gf.unify(GraphFrame.from_lists(["q", "r"]))
    elif how == "drop rows":
        gf.dataframe.drop(index=gf.dataframe.index[0], inplace=True)


def contents(gf, key):
    df = gf.dataframe
    return rows_of(df, key), list(df.columns), {c: str(df[c].dtype) for c in df.columns}, list(df.index.names), \
        [ix if not isinstance(ix, tuple) else ix[1:] for ix in []]


def run_gfcopy(case, rec):
    n, edges, labels, index, deep, how, side = case
    edges = [tuple(e) for e in edges]
    ranks = {"n": [()], "nr": [(0,), (1,)], "nrt": [(0, 0), (1, 0)]}[index]
    rows = [(v, r, {"time": float(v * 2 + i + 1), "time (inc)": 1.0, "uid": v * 10 + i, "cat": "c%d" % v})
            for v in range(n) for i, r in enumerate(ranks)]
    gf, nodes = make_gf(edges, ["abc"[x] for x in labels], rows, index, metadata={"a": "b", "nest": {"k": [1]}}, sort=(len(edges) % 2 == 0))
    nodes = list(nodes)
    before = snapshot(gf)
    c = gf.deepcopy() if deep else gf.copy()
    rec.op()
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("copying changed the original: " + d)
    if not deep:
        if c.graph is not gf.graph:
            raise Violation("copy() does not share the graph")
        d = diff_snap(before, snapshot(c))
        if d:
            raise Violation("copy() differs from the original: " + d)
    else:
        wf_graph(c.graph)
        new = graph_nodes(c.graph)
        old = graph_nodes(gf.graph)
        if any(x is y for x in new for y in old):
            raise Violation("deepcopy() shares nodes")
        if len(new) != len(old) or not c.graph == gf.graph and nodup(edges, labels):
            raise Violation("deepcopy() has a different graph")
        key = {id(x): x._hatchet_nid for x in old}
        key2 = {id(x): x._hatchet_nid for x in new}
        if contents(gf, key) != contents(c, key2):
            raise Violation("deepcopy() dataframe differs: %s vs %s" % (contents(c, key2), contents(gf, key)))
        ids = [key[id(ix[0] if isinstance(ix, tuple) else ix)] for ix in gf.dataframe.index]
        if ids != [key2[id(ix[0] if isinstance(ix, tuple) else ix)] for ix in c.dataframe.index]:
            raise Violation("deepcopy() changes the row order")
        for x, y in zip(old, new):
            if fkey(x.frame) != fkey(y.frame) or x._hatchet_nid != y._hatchet_nid:
                raise Violation("deepcopy() node %r vs %r" % (x, y))
        if c.metadata != gf.metadata or c.exc_metrics != gf.exc_metrics or c.inc_metrics != gf.inc_metrics or c.default_metric != gf.default_metric:
            raise Violation("deepcopy() loses metrics, default metric or metadata")
        if c.metadata["nest"] is gf.metadata["nest"]:
            raise Violation("deepcopy() shares metadata values")
    if not deep and how in ("rename frame", "sum", "update", "drop rows"):
        return  # the graph and the column data are documented to be shared
    a, b = (gf, c) if side == 0 else (c, gf)
    keep = snapshot(b)
    mutate(a, how)
    rec.op()
    d = diff_snap(keep, snapshot(b))
    if d:
        raise Violation("after %s, '%s' on the %s changes the %s: %s" % (
            "deepcopy" if deep else "copy", how, ("original", "copy")[side], ("copy", "original")[side], d))
    rec.state(tuple(edges), index, deep, how, side)
    rec.outcome(how)


def spaces(tier):
    th = tier == "thorough"

    def pairs():
        gs = [(n, e, l) for n in (1, 2, 3) for e, l in gen.labelled(n, 3, "dag") if nodup(e, l)]
        for i, x in enumerate(gs):
            for j, y in enumerate(gs):
                if i <= j:
                    yield [x, y, i == j]

    def attributes():
        k = range(100, 100 + len(ATTRS))
        gs = [(1, [], (x,)) for x in k] + [(2, [(0, 1)], (x, y)) for x in k for y in k] + [(3, [(0, 1), (0, 2)], (0, x, y)) for x in k for y in k if x < y]
        for i, x in enumerate(gs):
            for j, y in enumerate(gs):
                if i <= j and x[0] == y[0]:
                    yield [x, y, i == j]

    def pairs4():
        gs = [(4, e, l) for e, l in gen.labelled(4, 3, "dag") if nodup(e, l)]
        # only pairs that agree on node labels and edge count can be confused
        by = {}
        for i, g in enumerate(gs):
            by.setdefault((tuple(sorted(g[2])), len(g[1]) if not th else 0), []).append((i, g))
        for k in by:
            for i, x in by[k]:
                for j, y in by[k]:
                    if i <= j:
                        yield [x, y, i == j]

    def pairs5():
        # graphs in which the same frame occurs under several parents: who shares what must be noticed
        gs = [(5, e, l) for e, l in gen.labelled(5, 1, "dag") for l in [(0, 1, 2, 3, 3), (0, 1, 2, 2, 3), (0, 1, 1, 2, 3), (0, 1, 2, 3, 1)] if nodup(e, l)]
        by = {}
        for g in gs:
            by.setdefault((tuple(sorted(g[2])), len(g[1]), len(ref.roots_of(range(5), g[1]))), []).append((canon(g), g))
        for k in by:
            v = by[k]
            for i in range(len(v)):
                for j in range(i, len(v)):
                    yield [v[i][1], v[j][1], v[i][0] == v[j][0]]

    def copies():
        for n in range(1, 5):
            for e, l in gen.labelled(n, 2, "dag"):
                for order in (1, -1):
                    yield [n, e, l, order]
        for e, l in gen.labelled(5, 1, "dag"):
            yield [5, e, l, -1]

    def gfcopies():
        for n in range(1, 4):
            for e, l in gen.labelled(n, 2, "dag"):
                for index in ("n", "nr", "nrt"):
                    for deep in (False, True):
                        for how in MUT:
                            for side in (0, 1):
                                if n == 3 and not th and (sum(l) + len(e) + MUT.index(how)) % 3:
                                    continue
                                yield [n, e, l, index, deep, how, side]

    return [
        Space("equality<=3", pairs, run_pair, "all unordered pairs of <=3-node DAGs over 3 frames (siblings distinct) x 4 build orders x ids assigned or not"),
        Space("attributes", attributes, run_pair, "pairs of graphs whose frames have the same name and differ in other attributes (0 and empty values included)"),
        Space("equality-4", pairs4, run_pair, "all pairs of 4-node DAGs over 3 frames with the same frames%s" % ("" if th else " and edge count")),
        Space("equality-5", pairs5, run_pair, "pairs of 5-node DAGs with one frame occurring twice"),
        Space("graph-copy", copies, run_copy, "all DAGs <=4 nodes over 2 frames, 5-node DAGs"),
        Space("graphframe-copy", gfcopies, run_gfcopy, "DAGs <=3 nodes x 3 index kinds x copy/deepcopy x 15 later changes to either side"),
    ]


def canon(g):
    """Canonical form of a graph with distinct siblings: reachability as an automaton, numbered in preorder."""
    n, e, l = g
    ch = {v: sorted([b for a, b in e if a == v], key=lambda b: l[b]) for v in range(n)}
    num, out = {}, []

    def go(v):
        if v in num:
            return
        num[v] = len(num)
        for c in ch[v]:
            go(c)

    for r in sorted([v for v in range(n) if v not in {b for _, b in e}], key=lambda v: l[v]):
        go(r)
    return str([(num[v], l[v], [num[c] for c in ch[v]]) for v in sorted(num, key=num.get)])
