"""C09: object-dialect filters select exactly the nodes whose attributes satisfy every condition (single and multi-index)."""
import itertools
import math
import operator
import re

import numpy as np

from mc import gen
from mc.core import Space, Violation
from mc.hx import graph_nodes, make_gf
from hatchet.query import InvalidQueryFilter, ObjectQuery, QueryEngine
from hatchet.query.errors import MultiIndexModeMismatch
from hatchet.graphframe import EmptyFilter

PROPERTY = "C09"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "a numeric attribute is an int or float column, a string attribute a column of strings",
    "comparisons with np.nan other than == and !=, and regular expressions with a top-level alternation, are not judged",
]
NAN, INF = float("nan"), float("inf")
VALS = [0.0, 1.0, 2.5, -1.0, INF, -INF, NAN, 1.0000000001]
INTS = [0, 1, 2, -1, 7, 3, 1, 2**53 + 1]
V = len(VALS)
NAMES = ["a", "ab", "b", "abc", "A", "a.b", "ba", "ab\n"]
MODS = ["libx.so", "libx", "x", "libx.so", "", "lib x", "é", 'say "it\'s x"\n']
OPS = {"<": operator.lt, ">": operator.gt, "==": operator.eq, ">=": operator.ge, "<=": operator.le, "!=": operator.ne,
       "<>": operator.ne}
CONST = {"0": 0.0, "1": 1.0, "2.5": 2.5, "-1": -1.0, "1e0": 1.0, "np.inf": INF, "-np.inf": -INF}


def holds(value, cond):
    """cond: ('num', x) | ('cmp', op, const text, spacing) | ('re', pattern)."""
    if cond[0] == "num":
        return value == cond[1]
    if cond[0] == "cmp":
        if cond[2] == "np.nan":
            return {"==": math.isnan(value), "!=": not math.isnan(value), "<>": not math.isnan(value)}[cond[1]]
        return OPS[cond[1]](value, CONST[cond[2]])
    return re.fullmatch(cond[1], value) is not None


def text(cond):
    if cond[0] == "num":
        return cond[1]
    if cond[0] == "cmp":
        return cond[1] + cond[3] + cond[2]
    return cond[1]


NUM = [("num", 0), ("num", 1.0), ("num", 2.5), ("num", -1), ("num", INF), ("num", 9), ("num", 2**53)]
CMP = [("cmp", o, c, s) for o in OPS for c in CONST for s in (" ", "")]
CMPN = [("cmp", o, "np.nan", " ") for o in ("==", "!=", "<>")]
RES = [("re", p) for p in ("a", "a.*", ".*b", "[ab]+", r"a\.b", "", "ab?", "(a|b)", "(a|b)+c?", "[^a].*", "A", r"\w+", "abc|zz".replace("|", "?"))]
CORE = [("num", 1.0), ("cmp", ">", "0", " "), ("cmp", "<=", "1", " "), ("cmp", "!=", "2.5", " "), ("cmp", "<", "np.inf", " "),
        ("cmp", ">", "-np.inf", " "), ("cmp", "==", "np.nan", " ")]
COREI = [("num", 1), ("cmp", ">", "0", ""), ("cmp", "<=", "1", " ")]
CORES = [("re", "a.*"), ("re", ".*b"), ("re", "a")]
STATE = {}


def base_gf():
    if "gf" not in STATE:
        edges = [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (5, 6), (5, 7)]
        rows = [(v, (), {"time": VALS[v], "count": INTS[v], "module": MODS[v]}) for v in range(V)]
        STATE["gf"] = make_gf(edges, NAMES, rows, inc=())
    return STATE["gf"]


def multi_gf(index):
    """One node per combination of values over its rows: 1 row (each value) or 2 rows (each ordered pair)."""
    if index not in STATE:
        combos = [(x,) for x in range(V)] + list(itertools.product(range(V), repeat=2))
        n = len(combos)
        edges = [(0, i) for i in range(1, n)]
        rows = []
        for v, c in enumerate(combos):
            for r, x in enumerate(c):
                idx = (r,) if index == "nr" else (r, r + 1)
                rows.append((v, idx, {"time": VALS[x], "count": INTS[x], "module": MODS[x]}))
        gf, nodes = make_gf(edges, ["n%02d" % i for i in range(n)], rows, index, inc=())
        pos = {id(x): i for i, x in enumerate(nodes)}
        names = [NAMES[combos[pos[id(ix[0])]][ix[1]]] for ix in gf.dataframe.index]
        gf.dataframe["name"] = names
        STATE[index] = (gf, nodes, combos)
    return STATE[index]


COLS = {"time": VALS, "count": INTS, "name": NAMES, "module": MODS}


def filter_dict(filt):
    d = {}
    for k, conds in filt:
        d[k] = text(conds[0]) if len(conds) == 1 else (list, tuple)[len(k) % 2](text(c) for c in conds)
    return d


def norm(filt):
    return tuple((k, tuple(tuple(c) for c in conds)) for k, conds in filt)


def via_filter(gf, ix, query, mode):
    """The nodes of which GraphFrame.filter keeps rows; all of the node's rows are kept."""
    try:
        out = gf.filter(query, squash=False, multi_index_mode=mode)
    except EmptyFilter:
        return []
    kept = [ix[id(n)] for n in out.dataframe.index.get_level_values("node")]
    all_ = [ix[id(n)] for n in gf.dataframe.index.get_level_values("node")]
    if any(kept.count(v) != all_.count(v) for v in set(kept)):
        raise Violation("filter(%s, multi_index_mode=%r) keeps only some rows of a node" % (query, mode))
    return sorted(set(kept))


def run_single(case, rec):
    gf, nodes = base_gf()
    ix = {id(x): i for i, x in enumerate(nodes)}
    for filt in GROUPS[case] if isinstance(case, str) else [case]:
        filt = norm(filt)
        want = {v for v in range(V) if all(k in COLS and holds(COLS[k][v], c) for k, cs in filt for c in cs)}
        got = sorted(ix[id(x)] for x in QueryEngine().apply(ObjectQuery([filter_dict(filt)]), gf.graph, gf.dataframe))
        if got != sorted(want):
            raise Violation("filter %s selects %s, expected %s (values %s)" % (
                filter_dict(filt), got, sorted(want), {k: COLS.get(k) for k, _ in filt}))
        rec.state(filt, tuple(got))
        rec.op()


def run_multi(case, rec):
    index, mode, group = case
    gf, nodes, combos = multi_gf(index)
    ix = {id(x): i for i, x in enumerate(nodes)}
    agg = any if mode == "any" else all
    for i, filt in enumerate(GROUPS[group] if isinstance(group, str) else [group]):
        filt = norm(filt)
        want = {v for v, c in enumerate(combos)
                if all(k in COLS and agg(holds(COLS[k][x], cd) for x in c) for k, cs in filt for cd in cs)}
        got = sorted(ix[id(x)] for x in QueryEngine().apply(ObjectQuery([filter_dict(filt)], mode), gf.graph, gf.dataframe))
        if got != sorted(want):
            bad = sorted(set(got) ^ want)[0]
            raise Violation("%s-mode filter %s %s the node with rows %s" % (
                mode, filter_dict(filt), "misses" if bad in want else "wrongly selects",
                [{k: COLS[k][x] for k, _ in filt if k in COLS} for x in combos[bad]]))
        if i % 8 == 0:
            via = via_filter(gf, ix, [filter_dict(filt)], mode)
            if via != got:
                raise Violation("filter(%s, multi_index_mode=%r) keeps rows of the nodes %s, the query engine selects %s" % (filter_dict(filt), mode, via, got))
        rec.state(index, mode, filt, tuple(got))
        rec.op()


def run_pos(case, rec):
    """depth and node_id on every small tree, single and multi-index."""
    n, edges, index, key, cond = case
    edges = [tuple(e) for e in edges]
    cond = tuple(cond)
    idxs = [()] if index == "n" else [(0,), (1,)]
    rows = [(v, i, {"time": float(v)}) for v in range(n) for i in idxs]
    gf, nodes = make_gf(edges, ["abcd"[v] for v in range(n)], rows, index, inc=())
    ch = [[b for a, b in edges if a == v] for v in range(n)]
    depth, order = {}, []

    def go(v, d):
        depth[v] = d
        order.append(v)
        for c in sorted(ch[v]):
            go(c, d + 1)
    for r in range(n):
        if all(b != r for _, b in edges):
            go(r, 0)
    val = depth if key == "depth" else {v: i for i, v in enumerate(order)}
    if key == "depth" and cond == ("num", -1):
        want = {v for v in range(n) if not ch[v]}
    else:
        want = {v for v in range(n) if holds(val[v], cond)}
    ix = {id(x): i for i, x in enumerate(nodes)}
    modes = ("off",) if index == "n" else ("any", "all")
    for m in modes:
        got = {ix[id(x)] for x in QueryEngine().apply(ObjectQuery([{key: text(cond)}], m), gf.graph, gf.dataframe)}
        if got != want:
            raise Violation("{%s: %r} on the tree %s selects %s, expected %s" % (key, text(cond), edges, sorted(got), sorted(want)))
        rec.op()
    rec.state(n, tuple(edges), index, key, cond)


def run_reject(case, rec):
    index, mode, key, value = case
    if index == "n":
        gf, nodes = base_gf()
    else:
        gf, nodes, _ = multi_gf(index)
    exc = MultiIndexModeMismatch if index != "n" and mode == "off" else InvalidQueryFilter
    try:
        QueryEngine().apply(ObjectQuery([{key: value}], mode), gf.graph, gf.dataframe)
    except exc:
        rec.outcome(exc.__name__)
    except Exception as e:
        raise Violation("filter {%s: %r} raised %s instead of %s" % (key, value, type(e).__name__, exc.__name__))
    else:
        raise Violation("filter {%s: %r} (%s, %s) was accepted" % (key, value, index, mode))
    rec.state(case)
    rec.op()


GROUPS = {
    "time1": [[("time", [c])] for c in NUM[:-1] + CMP + CMPN],
    "count1": [[("count", [c])] for c in NUM + CMP],
    "name1": [[("name", [c])] for c in RES],
    "module1": [[("module", [("re", p)])] for p in ("libx.*", r"libx\.so", "", ".*x", r"lib\s.*", "[é]", "LIBX")],
    "none": [[("nosuch", [c])] for c in CORE] + [[("time", [CORE[1]]), ("nosuch", [CORE[0]])]],
}
for i, a in enumerate(CMP + NUM + CMPN):
    GROUPS["pair%d" % i] = [[("time", [a, b])] for b in CORE]
GROUPS["lists"] = [[("time", list(t))] for k in (2, 3) for t in itertools.product(CORE, repeat=k)]
GROUPS["namelists"] = [[("name", list(t))] for k in (1, 2) for t in itertools.product(RES, repeat=k)]
GROUPS["dicts2"] = [[("time", [a]), ("count", [b])] for a in CORE for b in COREI] + \
                   [[("name", [a]), ("time", [b])] for a in RES for b in CORE] + \
                   [[("count", [a]), ("name", [b])] for a in COREI for b in CORES]
GROUPS["dicts3"] = [[("count", list(a)), ("name", [b]), ("time", [c])]
                    for a in itertools.product(COREI, repeat=2) for b in CORES for c in CORE]


def spaces(tier):
    th = tier == "thorough"
    multi_groups = [g for g in GROUPS if th or not g.startswith("pair") and g not in ("dicts3",)]
    multi = []
    for g in multi_groups:
        for f in GROUPS[g] if th else GROUPS[g][:: 1 if g.endswith("1") or g == "none" else 4]:
            for index in ("nr", "nrt"):
                if index == "nrt" and not th and g not in ("time1", "name1"):
                    continue
                if index == "nrt" and not th and f[0][1][0][0] == "cmp" and f[0][1][0][3] == "":
                    continue
                for mode in ("any", "all"):
                    multi.append([index, mode, f])

    def pos():
        conds = [("num", x) for x in (-1, 0, 1, 2, 5, -2, -1.0, 0.5, 1.0)] + [("cmp", o, c, " ") for o in OPS for c in ("0", "1", "-1")]
        for n in (1, 2, 3, 4):
            for e, auts in gen.dags(n):
                if any(sum(b == v for _, b in e) > 1 for v in range(n)):
                    continue
                for key in ("depth", "node_id"):
                    for c in conds:
                        if key == "node_id" and c[1] == -1 and c[0] == "num":
                            continue
                        for index in ("n", "nr"):
                            yield [n, e, index, key, c]

    def reject():
        for index in ("n", "nr"):
            for mode in ("off",) if index == "n" else ("any", "all", "off"):
                for key in ("time", "count", "depth", "node_id"):
                    for value in ("hello", "5", "=1", [1, "x"]) if mode != "off" or index == "n" else (1,):
                        yield [index, mode, key, value]
                for value in (1, 2.5, ["a.*", 1]) if mode != "off" or index == "n" else ("a",):
                    # the list is only rejected if its first condition lets some node through to the second
                    yield [index, mode, "name", value]

    return [
        Space("attributes", lambda: iter(GROUPS), run_single, "every comparison operator x constant x spelling, numbers, regular "
              "expressions, all lists of <=3 core conditions and dicts of <=3 attributes, on values 0, 1, 2.5, -1, inf, -inf, nan"),
        Space("multi-index", lambda: iter(multi), run_multi, "the same on a multi-index dataframe with one node per 1-row and 2-row combination of values, any and all mode"),
        Space("position", pos, run_pos, "depth and node_id conditions on every forest of <=4 nodes, single and multi-index"),
        Space("rejects", reject, run_reject, "ill-typed filters raise the documented errors"),
    ]
