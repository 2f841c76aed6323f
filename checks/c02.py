"""C02: inclusive columns are sums over distinct reachable nodes; exclusive columns are their inverse."""
import itertools

import pandas as pd

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import make_gf, path_keys, rows_of, wf_graph, snapshot, diff_snap, clean

PROPERTY = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "metric values are distinct powers of two or missing, so equality of a sum is equality of the set of summed rows",
    "subtree_sum and generate-then-recompute are judged on trees/forests only, as their documentation says",
]
RANKS = {"n": [()], "nr": [(0,), (1,)], "nt": [(0,), (1,)], "nrt": [(0, 0), (0, 1), (1, 0)]}
NAMES = ["n0", "n1", "n2", "n3", "n4"]


def layout(n, index, hole):
    """Row keys; `hole` removes one (node, rank) row, or the rows of the listed nodes on the last rank."""
    keys = [(v, r) for v in range(n) for r in RANKS[index]]
    if isinstance(hole, (list, tuple)):
        return [k for k in keys if k[1] != RANKS[index][-1] or k[0] not in hole]
    if hole is not None and index != "n":
        keys = [k for i, k in enumerate(keys) if i != hole]
    return keys


def below(n, edges, v):
    return ref.reach(ref.children_map(range(n), edges), v)


def check_graph_same(gf, snap_graph):
    from mc.hx import snapshot
    s = snapshot(gf)
    if s[0] != snap_graph:
        raise Violation("the graph was modified by a column operation")


def build(n, edges, index, hole, nanmask, cols, exc, inc):
    keys = layout(n, index, hole)
    bit = {}
    rows = []
    for i, (v, r) in enumerate(keys):
        val = None if nanmask >> (i % n if index == "n" else v) & 1 else float(1 << i)
        bit[v, r] = val
        rows.append((v, r, {c: f(v, r, val) for c, f in cols}))
    gf, nodes = make_gf(edges, NAMES[:n], rows, index, exc=exc, inc=inc)
    return gf, nodes, bit


def get(gf, nodes, col):
    key = {id(nd): i for i, nd in enumerate(nodes)}
    got = rows_of(gf.dataframe, key)
    return {(k[0], tuple(k[1:])): r.get(col, "ABSENT") for k, r in got.items()}


def expect_sum(n, edges, bit, fn=ref.nsum):
    want = {}
    for (v, r) in bit:
        want[v, r] = fn([bit[w, r] for w in below(n, edges, v) if (w, r) in bit])
    return want


def cmp(what, got, want):
    for k in want:
        w = want[k]
        if got.get(k, "NOROW") != w:
            raise Violation("%s: row %s is %s, expected %s (all: %s vs %s)" % (what, k, got.get(k, "NOROW"), w, got, want))
    if set(got) != set(want):
        raise Violation("%s: rows changed: %s vs %s" % (what, got, want))


def vmax(vals):
    vals = [v for v in vals if v is not None]
    return max(vals) if vals else None


def run_sum(case, rec):
    n, edges, index, hole, nanmask, meth, mode = case
    edges = [tuple(e) for e in edges]
    keys = layout(n, index, hole)
    if {v for v, _ in keys} != set(range(n)):
        raise Skip()
    cols = [("x", lambda v, r, b: b), ("y", lambda v, r, b: None if b is None else b * 0.5),
            ("keep", lambda v, r, b: 100 + v)]
    gf, nodes, bit = build(n, edges, index, hole, nanmask, cols, ("x", "y"), ())
    g0 = snapshot(gf)[0]
    half = {k: None if b is None else clean(b * 0.5) for k, b in bit.items()}
    kw = {}
    fn = ref.nsum
    if mode == "max":
        kw["function"] = lambda s: s.max()
        fn = vmax
    f = getattr(gf, meth)
    if mode == "inplace":
        f(["x", "y"])
        outs = ("x", "y")
    else:
        f(["x", "y"], ["x out", "y out"], **kw)
        outs = ("x out", "y out")
    rec.op()
    check_graph_same(gf, g0)
    cmp(meth + " x", get(gf, nodes, outs[0]), expect_sum(n, edges, bit, fn))
    cmp(meth + " y", get(gf, nodes, outs[1]), {k: clean(v) for k, v in expect_sum(n, edges, half, fn).items()})
    if mode != "inplace":
        cmp("source column", get(gf, nodes, "x"), {k: clean(b) for k, b in bit.items()})
    cmp("unrelated column", get(gf, nodes, "keep"), {k: 100 + k[0] for k in bit})
    rec.state(meth, mode, index, tuple(sorted(map(str, get(gf, nodes, outs[0]).items()))))


def run_update(case, rec):
    n, edges, index, hole, nanmask, style = case
    edges = [tuple(e) for e in edges]
    keys = layout(n, index, hole)
    if {v for v, _ in keys} != set(range(n)):
        raise Skip()
    half = lambda v, r, b: None if b is None else b * 0.5
    styles = {
        "plain": (("time",), ("time (inc)",), {"time": "time (inc)"}),
        "exc": (("time (exc)",), ("time",), {"time (exc)": "time"}),
        "noinc": (("time",), (), {"time": "time (inc)"}),
        "two": (("time", "y (exc)"), ("time (inc)", "y", "lonely (inc)"), {"time": "time (inc)", "y (exc)": "y"}),
        "none": ((), ("time (inc)",), {}),
    }
    exc, inc, pairs = styles[style]
    cols = []
    for e in exc:
        cols.append((e, (lambda v, r, b: b) if e.startswith("time") else half))
    for i in inc:
        cols.append((i, lambda v, r, b: 1000 + v))
    cols.append(("other", lambda v, r, b: 55 + v))
    gf, nodes, bit = build(n, edges, index, hole, nanmask, cols, exc, inc)
    g0 = snapshot(gf)[0]
    gf.update_inclusive_columns()
    rec.op()
    check_graph_same(gf, g0)
    for rep in range(2):
        for e, i in pairs.items():
            b = bit if e.startswith("time") else {k: None if x is None else x * 0.5 for k, x in bit.items()}
            cmp("inclusive %s" % i, get(gf, nodes, i), {k: clean(x) for k, x in expect_sum(n, edges, b).items()})
            cmp("exclusive %s" % e, get(gf, nodes, e), {k: clean(x) for k, x in b.items()})
        for i in inc:
            if i not in pairs.values():
                cmp("unpaired " + i, get(gf, nodes, i), {k: 1000 + k[0] for k in bit})
        cmp("other column", get(gf, nodes, "other"), {k: 55 + k[0] for k in bit})
        if set(gf.inc_metrics) != set(inc) | set(pairs.values()) or len(set(gf.inc_metrics)) != len(gf.inc_metrics):
            raise Violation("inclusive metric list: %s" % gf.inc_metrics)
        if sorted(gf.exc_metrics) != sorted(exc):
            raise Violation("exclusive metric list: %s" % gf.exc_metrics)
        if rep == 0:
            gf.update_inclusive_columns()  # must be idempotent
            rec.op()
    rec.state(style, index, tuple(sorted((k, str(get(gf, nodes, c))) for c in pairs.values() for k in [c])))


def run_generate(case, rec):
    n, edges, index, hole, nanmask, style, tree = case
    edges = [tuple(e) for e in edges]
    keys = layout(n, index, hole)
    if {v for v, _ in keys} != set(range(n)):
        raise Skip()
    ch = ref.children_map(range(n), edges)
    if any(ch[v] and (v, r) not in keys for v in range(n) for r in RANKS[index]):
        raise Skip()  # an inner node without a row: what its parent's exclusive value should be is not defined
    inc, exc0, arg, want_pairs = {
        "suffix": (("time (inc)",), (), None, {"time (inc)": "time"}),
        "bare": (("time",), (), None, {"time": "time (exc)"}),
        "has": (("time (inc)", "z"), ("time",), None, {"z": "z (exc)"}),
        "nothing": (("time (inc)", "label"), ("time", "q"), None, {}),
        "selhas": (("z (inc)", "time (inc)"), ("time",), ["time (inc)"], {}),
        "selall": (("z (inc)", "time (inc)"), ("q",), ["time (inc)", "z (inc)", "unknown"], {"time (inc)": "time", "z (inc)": "z"}),
        "select": (("time (inc)", "z (inc)"), (), ["z (inc)"], {"z (inc)": "z"}),
        "selectstr": (("time (inc)", "time"), (), "time (inc)", {"time (inc)": "time"}),
        "both": (("time (inc)", "z (inc)", "label"), (), None, {"time (inc)": "time", "z (inc)": "z"}),
    }[style]
    if style == "selectstr":
        inc, want_pairs = ("time (inc)", "me"), {"time (inc)": "time"}

    def f(c):
        if c == "label":
            return lambda v, r, b: "L%d" % v
        return lambda v, r, b: None if b is None else b * (3 if c[0] == "z" else 1)

    cols = [(c, f(c)) for c in inc] + [(c, lambda v, r, b: 500 + v) for c in exc0] + [("other", lambda v, r, b: 7)]
    gf, nodes, bit = build(n, edges, index, hole, nanmask, cols, exc0, inc)
    g0 = snapshot(gf)[0]
    gf.generate_exclusive_columns(arg) if arg is not None else gf.generate_exclusive_columns()
    rec.op()
    check_graph_same(gf, g0)
    for i, e in want_pairs.items():
        vals = {k: clean(f(i)(k[0], k[1], b)) for k, b in bit.items()}
        want = {}
        for (v, r), x in vals.items():
            kids = sum((vals[c, r] or 0) for c in ch[v] if (c, r) in vals)
            want[v, r] = None if x is None else x - kids
        cmp("generated %s" % e, get(gf, nodes, e), want)
        cmp("source %s" % i, get(gf, nodes, i), vals)
    if set(gf.exc_metrics) != set(exc0) | set(want_pairs.values()) or len(set(gf.exc_metrics)) != len(gf.exc_metrics):
        raise Violation("exclusive metric list after generation: %s" % gf.exc_metrics)
    if sorted(gf.inc_metrics) != sorted(inc):
        raise Violation("inclusive metric list after generation: %s" % gf.inc_metrics)
    for e in exc0:
        cmp("existing exclusive column", get(gf, nodes, e), {k: 500 + k[0] for k in bit})
    newcols = set(gf.dataframe.columns) - {c for c, _ in cols} - {"name"}
    if newcols != set(want_pairs.values()):
        raise Violation("generated columns: %s" % newcols)
    if tree and not nanmask and hole is None:
        # recomputing inclusive from the generated exclusive gives back the original
        gf.update_inclusive_columns()
        rec.op()
        for i in want_pairs:
            cmp("recomputed %s" % i, get(gf, nodes, i), {k: clean(f(i)(k[0], k[1], b)) for k, b in bit.items()})
    rec.state(style, index, tuple(sorted(str(get(gf, nodes, e)) for e in want_pairs.values())))


def run_names(case, rec):
    """Pairing of exclusive and inclusive metrics by name, for every base name over the characters of the suffixes."""
    base, style = case
    e, i = {"exc": (base + " (exc)", base), "exc0": (base + "(exc)", base), "inc": (base, base + " (inc)")}.get(style, (None, None))
    if e is not None:
        if style == "inc" and (e.endswith("(exc)")):
            raise Skip()
        gf, nodes = make_gf([(0, 1)], NAMES[:2], [(0, (), {e: 1.0, "other": 5.0}), (1, (), {e: 2.0, "other": 6.0})], exc=(e,), inc=())
        gf.update_inclusive_columns()
        rec.op()
        if sorted(gf.inc_metrics) != [i] or list(gf.exc_metrics) != [e]:
            raise Violation("metric lists for %r: %s / %s" % (e, gf.exc_metrics, gf.inc_metrics))
        if set(gf.dataframe.columns) != {e, i, "other", "name"}:
            raise Violation("columns for %r: %s" % (e, list(gf.dataframe.columns)))
        cmp("inclusive %r" % i, get(gf, nodes, i), {(0, ()): 3, (1, ()): 2})
    else:
        i, e = {"ginc": (base + " (inc)", base), "ginc0": (base + "(inc)", base), "gbare": (base, base + " (exc)")}[style]
        if style == "gbare" and i.endswith("(inc)"):
            raise Skip()
        gf, nodes = make_gf([(0, 1)], NAMES[:2], [(0, (), {i: 3.0, "other": 5.0}), (1, (), {i: 2.0, "other": 6.0})], exc=(), inc=(i,))
        gf.generate_exclusive_columns()
        rec.op()
        if list(gf.inc_metrics) != [i] or list(gf.exc_metrics) != [e]:
            raise Violation("metric lists for %r: %s / %s" % (i, gf.exc_metrics, gf.inc_metrics))
        if set(gf.dataframe.columns) != {e, i, "other", "name"}:
            raise Violation("columns for %r: %s" % (i, list(gf.dataframe.columns)))
        cmp("exclusive %r" % e, get(gf, nodes, e), {(0, ()): 1, (1, ()): 2})
    rec.state(style, e, i)


def run_columns(case, rec):
    """Columns that are both read and written, in every combination."""
    n, edges, index, meth, src, out = case
    edges = [tuple(e) for e in edges]
    mult = {"x": 1, "y": 0.5, "w": 4}
    cols = [(c, (lambda m: lambda v, r, b: b * m)(m)) for c, m in mult.items()]
    gf, nodes, bit = build(n, edges, index, None, 0, cols, tuple(mult), ())
    g0 = snapshot(gf)[0]
    getattr(gf, meth)(list(src), list(out) if out is not None else None)
    rec.op()
    check_graph_same(gf, g0)
    if list(gf.exc_metrics) != list(mult) or gf.inc_metrics:
        raise Violation("metric lists: %s %s" % (gf.exc_metrics, gf.inc_metrics))
    done = {}
    for c, o in zip(src, src if out is None else out):
        done[o] = c
        want = expect_sum(n, edges, {k: clean(b * mult[c]) for k, b in bit.items()})
        cmp("%s %s -> %s: %s" % (meth, src, out, o), get(gf, nodes, o), {k: clean(v) for k, v in want.items()})
    for c in mult:
        if c not in done:
            cmp("%s %s -> %s: %s" % (meth, src, out, c), get(gf, nodes, c), {k: clean(b * mult[c]) for k, b in bit.items()})
    if set(gf.dataframe.columns) != set(mult) | set(done) | {"name"}:
        raise Violation("columns: %s" % list(gf.dataframe.columns))
    rec.state(meth, index, src, out, edges)


def run_levels(case, rec):
    """Column labels of several levels: the last level carries the '(inc)' / '(exc)' mark."""
    n, edges, index, labels = case
    edges = [tuple(e) for e in edges]
    mult = {k: float(3 ** k) for k in range(len(labels))}
    cols = [("m%d" % k, (lambda m: lambda v, r, b: b * m)(mult[k])) for k in mult] + [("other", lambda v, r, b: 55 + v)]
    gf, nodes, bit = build(n, edges, index, None, 0, cols, (), ())
    labels = [tuple(t) for t in labels]
    depth = len(labels[0])
    df = gf.dataframe
    new = [labels[int(c[1])] if c[0] == "m" else (c,) + ("",) * (depth - 1) for c in df.columns]
    df.columns = pd.MultiIndex.from_tuples(new)
    gf.exc_metrics = list(labels)
    want = {}
    for k, t in enumerate(labels):
        last = t[-1]
        want[t[:-1] + ((last[:-5].strip() if last.endswith("(exc)") else last + " (inc)"),)] = k
    for rep in range(2):
        gf.update_inclusive_columns()
        rec.op()
        if sorted(gf.inc_metrics) != sorted(want) or list(gf.exc_metrics) != labels:
            raise Violation("metric lists: %s %s (%s)" % (gf.inc_metrics, gf.exc_metrics, case))
        if set(gf.dataframe.columns) != set(new) | set(want) or len(gf.dataframe.columns) != len(set(new) | set(want)):
            raise Violation("columns: %s (%s)" % (list(gf.dataframe.columns), case))
        for i, k in want.items():
            w = expect_sum(n, edges, {q: clean(b * mult[k]) for q, b in bit.items()})
            cmp("inclusive %s" % (i,), get(gf, nodes, i), {q: clean(v) for q, v in w.items()})
            cmp("exclusive %s" % (labels[k],), get(gf, nodes, labels[k]), {q: clean(b * mult[k]) for q, b in bit.items()})
        cmp("other column", get(gf, nodes, next(x for x in new if x[0] == "other")), {q: 55 + q[0] for q in bit})
    rec.state(n, edges, index, labels)


def unl(n, kind):
    for e, lab in gen.labelled(n, 1, kind):
        yield e


def spaces(tier):
    th = tier == "thorough"
    N = 5 if th else 4

    def holes(n, index, full):
        if index == "n":
            return [None]
        k = n * len(RANKS[index])
        return [None] + list(range(k if full else min(k, 6)))

    def sums():
        for n in range(1, N + 1):
            for e in unl(n, "dag"):
                for nm in range(1 << n):
                    for mode in ("out", "inplace", "max"):
                        yield [n, e, "n", None, nm, "subgraph_sum", mode]
            for e in unl(n, "forest"):
                for nm in range(1 << n):
                    for mode in ("out", "inplace"):
                        yield [n, e, "n", None, nm, "subtree_sum", mode]

    def sums_multi():
        for e in unl(4, "dag"):
            yield [4, e, "nr", None, 0, "subgraph_sum", "inplace"]
            yield [4, e, "nrt", 5, 0, "subgraph_sum", "inplace"]
        for n in range(1, N):
            for kind, meth in (("dag", "subgraph_sum"), ("forest", "subtree_sum")):
                for e in unl(n, kind):
                    for index in ("nr", "nt", "nrt"):
                        for hole in holes(n, index, True):
                            for nm in (0, 1, 1 << (n - 1)):
                                for mode in ("out", "inplace"):
                                    yield [n, e, index, hole, nm, meth, mode]

    def sums_holes():
        for n in range(2, 6):
            for kind, meth in (("forest", "subtree_sum"), ("dag", "subgraph_sum")):
                if kind == "dag" and n > N:
                    continue
                for e in unl(n, kind):
                    for k in range(1, 1 << n):
                        hole = [v for v in range(n) if k >> v & 1]
                        yield [n, e, "nrt" if n == 3 else "nr", hole, 0, meth, "out"]
                        if kind == "forest":
                            yield [n, e, "nr", hole, 0, "subgraph_sum", "inplace"]

    def columns():
        for n in range(1, 4):
            for kind, meth in (("dag", "subgraph_sum"), ("forest", "subtree_sum")):
                for e in unl(n, kind):
                    for index in ("n", "nr"):
                        for k in (1, 2, 3):
                            for src in itertools.permutations("xyw", k):
                                yield [n, e, index, meth, src, None]
                                for out in itertools.permutations(("x", "y", "w", "u", "v")[: 5 if th else 4], k):
                                    yield [n, e, index, meth, src, out]

    def upd():
        for n in range(1, N + 1):
            for e in unl(n, "dag"):
                for nm in (range(1 << n) if n < N else (0, 1, 2, 6)):
                    for style in ("plain", "exc", "noinc", "two", "none"):
                        yield [n, e, "n", None, nm, style]

    def levels():
        pool = [("A", "time"), ("B", "y (exc)"), ("A", "y"), ("B", "time(exc)"), ("(exc)", "q")]
        deep = [t[:1] + ("mid (exc)",) + t[1:] for t in pool]
        for n in range(1, 4):
            for e in unl(n, "dag"):
                for index in ("n", "nr"):
                    for p in (pool, deep):
                        for k in (1, 2, 3):
                            for labels in itertools.combinations(p, k):
                                yield [n, e, index, list(labels)]

    def upd_multi():
        for n in range(1, N):
            for e in unl(n, "dag"):
                for index in ("nr", "nrt"):
                    for hole in holes(n, index, False):
                        for style in ("plain", "two"):
                            yield [n, e, index, hole, 0, style]

    def gens():
        for n in range(1, N + 1):
            forest = set(unl(n, "forest"))
            for e in unl(n, "dag"):
                for nm in (range(1 << n) if n < N else (0, 1, 2, 6)):
                    for style in ("suffix", "bare", "has", "nothing", "selhas", "selall", "select", "selectstr", "both"):
                        yield [n, e, "n", None, nm, style, e in forest]

    def gens_multi():
        for n in range(1, N):
            forest = set(unl(n, "forest"))
            for e in unl(n, "dag"):
                for index in ("nr", "nt", "nrt"):
                    for hole in holes(n, index, True):
                        for style in ("suffix", "both") + (("nothing", "selall") if hole is None else ()):
                            yield [n, e, index, hole, 0, style, e in forest]

    def names():
        for k in range(1, 4 if th else 3):
            for t in itertools.product("x(exc)in m" if th else "(exc)in", repeat=k):
                base = "".join(t)
                if base.strip() != base:
                    continue
                for style in ("exc", "exc0", "inc", "ginc", "ginc0", "gbare"):
                    yield [base, style]
        for base in ("time (ns)", "max", "exc", "(exc) x", "(inc) y", "i (inc) j", "e (exc) c", "sum(x)", "PAPI_TOT_INS", "a(exc)b"):
            for style in ("exc", "exc0", "inc", "ginc", "ginc0", "gbare"):
                yield [base, style]

    return [
        Space("names", names, run_names, "every metric base name of length <=%d over the characters of the suffixes x 6 pairing styles" % (3 if th else 2)),
        Space("sums", sums, run_sum, "all DAGs/forests <=%d nodes x every missing-value pattern x in-place/out/custom function" % N),
        Space("sums-multiindex", sums_multi, run_sum, "DAGs/forests <=%d nodes x 3 multi-indexes x every single absent row" % (N - 1)),
        Space("sums-holes", sums_holes, run_sum, "forests <=5 nodes, DAGs <=%d nodes x every set of nodes without a row on one of the ranks" % N),
        Space("columns", columns, run_columns, "every choice of up to 3 source and output columns, overlapping or not, x all DAGs/forests <=3 nodes"),
        Space("update", upd, run_update, "all DAGs <=%d nodes x metric naming styles x missing values, applied twice" % N),
        Space("update-levels", levels, run_levels, "DAGs <=3 nodes x up to 3 of 5 column labels of 2 and 3 levels"),
        Space("update-multiindex", upd_multi, run_update, "DAGs <=%d nodes, multi-index, absent rows" % (N - 1)),
        Space("generate", gens, run_generate, "all DAGs <=%d nodes x naming styles x missing values; inverse law on forests" % N),
        Space("generate-multiindex", gens_multi, run_generate, "DAGs <=%d nodes, multi-index, absent rows" % (N - 1)),
    ]
