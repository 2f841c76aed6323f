"""C16: groupby_aggregate is the quotient graph with aggregated rows; drop_index_levels aggregates per node."""
import itertools
import math

import numpy as np

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import diff_snap, graph_nodes, make_gf, snapshot, wf_graph

PROPERTY = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "domain of groupby_aggregate: one row per node, no missing key, every metric is aggregated, the quotient is acyclic and a class with a root node has no parent outside the class",
]
KEYS = {"asc": "pqrst", "desc": "tsrqp", "mix": "rtpsq", "int": [3, 20, 1, 100, 7]}
AGG = {"sum": math.fsum, "max": max, "min": min, "mean": lambda v: math.fsum(v) / len(v), "first": lambda v: v[0]}


def quotient(n, edges, cls):
    """Edges and roots of the quotient, or None outside the domain."""
    have = {b for _, b in edges}
    qe = {(cls[a], cls[b]) for a, b in edges if cls[a] != cls[b]}
    roots = {cls[v] for v in range(n) if v not in have}
    if any(b in roots for _, b in qe):
        return None
    deg = {c: sum(1 for e in qe if e[1] == c) for c in set(cls)}
    todo, done = [c for c in deg if not deg[c]], 0
    while todo:
        c = todo.pop()
        done += 1
        for a, b in qe:
            if a == c:
                deg[b] -= 1
                if not deg[b]:
                    todo.append(b)
    return (qe, roots) if done == len(deg) else None


def judge(out, gf, keys, cls, qe, roots, want, typ, case):
    wf_graph(out.graph)
    nodes = graph_nodes(out.graph)
    names = [x.frame.get("name") for x in nodes]
    if len(names) != len(set(names)) or set(names) != set(want):
        raise Violation("nodes %s, expected %s (%s)" % (names, sorted(want, key=str), case))
    for x in nodes:
        if x.frame.get("type") != typ:
            raise Violation("frame %s (%s)" % (x.frame, case))
    got = {(x.frame.get("name"), c.frame.get("name")) for x in nodes for c in x.children}
    if got != qe:
        raise Violation("edges %s, expected %s (%s)" % (sorted(got, key=str), sorted(qe, key=str), case))
    got = [r.frame.get("name") for r in out.graph.roots]
    if len(got) != len(set(got)) or set(got) != roots:
        raise Violation("roots %s, expected %s (%s)" % (got, roots, case))
    df = out.dataframe
    if list(df.index.names) != ["node"] or len(df) != len(nodes) or len(set(map(id, df.index))) != len(nodes):
        raise Violation("index %s of %s (%s)" % (list(df.index.names), list(df.index), case))
    if sorted(df.columns) != sorted({c for r in want.values() for c in r} | {"name", "nid"}):
        raise Violation("columns %s (%s)" % (list(df.columns), case))
    ids = {id(x) for x in nodes}
    for i in range(len(df)):
        x = df.index[i]
        if id(x) not in ids:
            raise Violation("a row belongs to no node of the graph (%s)" % (case,))
        row = df.iloc[i]
        if row["name"] != x.frame.get("name") or row["nid"] != x._hatchet_nid:
            raise Violation("row %s of node %s (%s)" % (dict(row), x, case))
        for c, w in want[x.frame.get("name")].items():
            if not (row[c] == w or isinstance(w, float) and abs(row[c] - w) <= 1e-9 * max(1.0, abs(w))):
                raise Violation("%s of %s is %r, expected %r (%s)" % (c, x, row[c], w, case))
    if out.exc_metrics != gf.exc_metrics or out.inc_metrics != gf.inc_metrics or out.default_metric != gf.default_metric:
        raise Violation("metric lists %s %s %s (%s)" % (out.exc_metrics, out.inc_metrics, out.default_metric, case))
    if out.metadata != gf.metadata or out.metadata is gf.metadata:
        raise Violation("metadata %s (%s)" % (out.metadata, case))


def run_group(case, rec):
    n, edges, part, kk, by, aggs, order = case
    edges = [tuple(e) for e in edges]
    keys = KEYS[kk]
    q = quotient(n, edges, part)
    if q is None:
        raise Skip()
    cls = [keys[p] for p in part]
    qe = {(keys[a], keys[b]) for a, b in q[0]}
    roots = {keys[c] for c in q[1]}
    names = [str(c) for c in cls] if by == "name" else list("abcab"[:n])
    if by == "name" and kk == "int":
        raise Skip()
    rows = []
    for v in range(n):
        rows.append((v, (), {"time": 1.5 * 2 ** v, "time (inc)": float((7 * v + 3) % 5), "mod": cls[v], "extra": "e%d" % v}))
    if order:
        rows.reverse()
    gf, nodes = make_gf(edges, names, rows, "n", metadata={"k": 1}, sort=not order)
    fn, fi = aggs[0], aggs[1]
    agg = {"time": fn, "time (inc)": fi}
    if fn == "np":
        agg, fn, fi = {"time": np.sum, "time (inc)": np.max}, "sum", "max"
    for a in aggs[2:]:
        agg[a] = "first"
    arg = {"mod": "mod", "list": ["mod"], "name": "name", "function": None}[by]
    typ = "name" if by == "name" else "mod"
    if by == "function":
        m = dict(zip(nodes, cls))
        arg, typ = (lambda x: m[x]), "node"
    want = {}
    mult = {}
    for v in range(n):
        mult.setdefault(cls[v], []).append(v)
    dfrows = [nodes.index(x) for x in gf.dataframe.index]
    for c, vs in mult.items():
        vs = [v for v in dfrows if v in vs]
        want[c] = {"time": AGG[fn]([1.5 * 2 ** v for v in vs]), "time (inc)": AGG[fi]([float((7 * v + 3) % 5) for v in vs])}
        if "extra" in agg:
            want[c]["extra"] = "e%d" % vs[0]
        if "mod" in agg and by in ("name", "function"):
            want[c]["mod"] = c
    if "mod" in agg and by not in ("name", "function"):
        raise Skip()
    before = snapshot(gf)
    out = gf.groupby_aggregate(arg, agg)
    rec.op()
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("groupby_aggregate changed its operand: %s (%s)" % (d, case))
    judge(out, gf, keys, cls, qe, roots, want, typ, case)
    if {id(x) for x in graph_nodes(out.graph)} & {id(x) for x in nodes}:
        raise Violation("the result shares nodes with the operand (%s)" % (case,))
    rec.state(n, edges, cls, by)
    rec.outcome("classes=%d" % len(set(part)))


def run_multi(case, rec):
    n, edges, p1, p2 = case
    edges = [tuple(e) for e in edges]
    pairs = list(zip(p1, p2))
    q = quotient(n, edges, pairs)
    if q is None:
        raise Skip()
    key = lambda p: ("rtpsq"[p[0]], 10 - p[1])
    cls = [key(p) for p in pairs]
    rows = [(v, (), {"time": float(2 ** v), "time (inc)": float(v % 3), "mod": cls[v][0], "file": cls[v][1]}) for v in range(n)]
    gf, nodes = make_gf(edges, list("abcab"[:n]), rows, "n")
    before = snapshot(gf)
    out = gf.groupby_aggregate(["mod", "file"], {"time": "sum", "time (inc)": "max"})
    rec.op()
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("groupby_aggregate changed its operand: %s (%s)" % (d, case))
    want = {}
    for c in set(cls):
        vs = [v for v in range(n) if cls[v] == c]
        want[c] = {"time": math.fsum(2 ** v for v in vs), "time (inc)": max(float(v % 3) for v in vs)}
    judge(out, gf, None, cls, {(key(a), key(b)) for a, b in q[0]}, {key(c) for c in q[1]}, want, None, case)
    rec.state(n, edges, cls)


FUNCS = {"default": None, "np.max": np.max, "np.sum": np.sum, "np.min": np.min, "min": "min", "lambda": lambda s: s.iloc[-1]}


def run_drop(case, rec):
    n, edges, index, mask, fn, order, vals = case
    edges = [tuple(e) for e in edges]
    combos = {"n": [()], "nr": [(0,), (1,), (2,)], "nt": [(0,), (1,)], "nrt": [(0, 0), (0, 1), (1, 0)]}[index]
    rows = []
    k = 0
    for v in range(n):
        any_ = False
        for j, c in enumerate(combos):
            if mask[v] >> j & 1:
                t = {"plain": float(3 * v + j * j + 1), "nan": None if (v + j) % 2 else float(2 * v + j), "neg": float((5 * v + 7 * j) % 4 - 2)}[vals]
                rows.append((v, c, {"time": t, "time (inc)": float(50 - k), "note": None if vals == "nan" and j == 0 else "n%d" % k, "level": k}))
                k += 1
                any_ = True
        if not any_:
            raise Skip()
    if order:
        rows.reverse()
    gf, nodes = make_gf(edges, list("abcd"[:n]), rows, index, sort=not order)
    per = {}
    df = gf.dataframe
    cols = list(df.columns)
    vals_ = df.to_dict("list")
    pos = df.index.get_level_values("node") if index != "n" else df.index
    for i, x in enumerate(pos):
        per.setdefault(nodes.index(x), []).append({c: vals_[c][i] for c in cols})
    g0 = gf.graph
    before = snapshot(gf)
    if FUNCS[fn] is None:
        gf.drop_index_levels()
    else:
        gf.drop_index_levels(function=FUNCS[fn])
    rec.op()
    after = snapshot(gf)
    if gf.graph is not g0 or list(gf.dataframe.index.names) != ["node"] or sorted(gf.dataframe.columns) != sorted(cols):
        raise Violation("index %s, columns %s (%s)" % (gf.dataframe.index.names, list(gf.dataframe.columns), case))
    wf_graph(gf.graph)
    if gf.exc_metrics != ["time"] or gf.inc_metrics != ["time (inc)"] or gf.default_metric != "time":
        raise Violation("metric lists (%s)" % (case,))
    if len(gf.dataframe) != n or {id(x) for x in gf.dataframe.index} != {id(x) for x in nodes}:
        raise Violation("rows %s (%s)" % (list(gf.dataframe.index), case))
    nan = lambda x: x is None or x != x
    for i in range(n):
        v = nodes.index(gf.dataframe.index[i])
        row = gf.dataframe.iloc[i]
        for c in cols:
            vs = [r[c] for r in per[v]]
            if c in ("time", "time (inc)"):
                ok = [x for x in vs if not nan(x)]
                if fn == "lambda":
                    w = vs[-1]
                elif not ok:
                    w = 0.0 if fn == "np.sum" else None
                else:
                    w = {"default": AGG["mean"], "np.max": max, "np.sum": math.fsum, "np.min": min, "min": min}[fn](ok)
            else:
                w = vs[0]
            g = row[c]
            if nan(w) != nan(g) or not nan(w) and g != w and not (isinstance(w, float) and abs(g - w) < 1e-9 * max(1, abs(w))):
                raise Violation("%s of node %d is %r, expected %r (%s)" % (c, v, g, w, case))
    rec.state(case)


def spaces(tier):
    th = tier == "thorough"

    def parts(n):
        return gen.restricted_growth(n, n)

    def group():
        for n in range(1, 6):
            for e, _ in gen.labelled(n, 1, "dag"):
                for p in parts(n):
                    p = list(p)
                    if n == 5:
                        yield [n, e, p, "mix", "list", ["sum", "max"], 0]
                        continue
                    for kk in KEYS:
                        for by in ("mod", "list", "name", "function"):
                            yield [n, e, p, kk, by, ["np", None], 0]
                    for aggs in (["sum", "min"], ["first", "mean"], ["max", "sum", "extra"], ["sum", "max", "mod"]):
                        for by in ("list", "name", "function"):
                            yield [n, e, p, "mix", by, aggs, 1 if aggs[0] == "first" else 0]

    def group6():
        for e, _ in gen.labelled(6, 1, "forest"):
            for p in parts(6):
                yield [6, e, list(p), "mix", "mod", ["sum", "max"], 0]

    def multi():
        for n in range(1, 5 if not th else 6):
            for e, _ in gen.labelled(n, 1, "dag" if n < 5 else "forest"):
                for p1 in parts(n):
                    for p2 in parts(n):
                        yield [n, e, list(p1), list(p2)]

    def drop():
        for n in range(1, 4):
            for e, _ in gen.labelled(n, 1, "dag"):
                for index, k in (("n", 1), ("nr", 3), ("nt", 2), ("nrt", 3)):
                    for mask in itertools.product(range(1, 2 ** k), repeat=n):
                        if n == 3 and k == 3 and not th and mask[1] not in (1, 6, 7):
                            continue
                        for vals in ("plain", "nan", "neg"):
                            for fn in FUNCS if n < 3 else ("default", "np.max"):
                                yield [n, e, index, list(mask), fn, 1 if vals == "neg" else 0, vals]

    out = [
        Space("groupby", group, run_group, "all DAGs <=5 nodes x all partitions x key orders x key kinds x aggregations"),
        Space("multi-key", multi, run_multi, "all DAGs <=4 nodes x all pairs of partitions as two key columns"),
        Space("drop", drop, run_drop, "all DAGs <=3 nodes x indexes x row presence x values x functions"),
    ]
    if th:
        out.append(Space("groupby-6", group6, run_group, "all 6-node forests x all partitions"))
    return out
