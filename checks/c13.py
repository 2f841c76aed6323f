"""C13: literal, JSON and HDF5 round trips, and the literal format itself, for every small graphframe."""
import copy
import itertools
import os
import shutil
import tempfile

from mc import gen, ops
from mc.core import Skip, Space, Violation
from mc.hx import (Frame, GraphFrame, clean, diff_snap, fkey, fr, graph_nodes, make_gf, path_keys, snapshot, wf_graph)

PROPERTY = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = ["not judged: metadata (no format keeps it), default metric in literals and JSON, non-metric columns in literals",
               "the dataframe holds a row for every node"]
NAN, INF = None, float("inf")
VALS = [3, 2.5, NAN, INF]


def frames_of(names, kind):
    if kind == "plain":
        return [{"name": x, "type": "function"} for x in names]
    return [{"type": "statement", "file": "f" + x, "line": 7} if i % 2 else {"name": x, "type": "function", "module": "m"} for i, x in enumerate(names)]


def build(case):
    n, edges, names, kind, index, seed = case
    edges = [tuple(e) for e in edges]
    frames = frames_of(names, kind)
    combos = {"n": [()], "nr": [(0,), (1,)], "nt": [(0,), (2,)], "nrt": [(0, 0), (0, 1), (1, 0)]}[index]
    rows = []
    for v in range(n):
        for k, c in enumerate(combos):
            if index != "n" and k == len(combos) - 1 and (v + seed) % 3 == 2:
                continue  # an absent row
            val = VALS[(v + k + seed) % 4] if seed < 4 else float(2 ** v)
            if val == INF and v % 2:
                val = -INF
            rows.append((v, c, {"time": val, "time (inc)": float(10 * v + k), "mod": "mod%d" % (v % 2), "line": v + k}))
    gf, nodes = make_gf(edges, frames, rows, index)
    nm = {id(nodes[v]): names[v] for v in range(n)}
    gf.dataframe["name"] = [nm[id(ix[0] if isinstance(ix, tuple) else ix)] for ix in gf.dataframe.index]
    return gf, nodes


def judge(got, want, what, drop=(), default=True, zero=False, anyorder=False, lists=True):
    """Compare two graphframes by content."""
    try:
        wf_graph(got.graph)
        a, b = ops.observe(got), ops.observe(want)
    except Violation as v:
        raise Violation("%s: %s" % (what, v.message))
    for o in (a, b):
        o["meta"] = ""
        if not default:
            o["default"] = ""
        if not lists:
            o["exc"] = o["inc"] = []
    b["rows"] = [(k, {c: (0 if zero and (x is None or x in (INF, -INF)) and c.startswith("time") else x)
                      for c, x in r.items() if c not in drop}) for k, r in b["rows"]]
    if anyorder:
        for o in (a, b):
            o["rows"] = sorted(o["rows"], key=lambda r: r[0])
    ops.compare(a, b, what)
    key = path_keys(got.graph)
    for x in graph_nodes(got.graph):
        if x._depth not in {len(p) - 1 for p in key[id(x)]}:
            raise Violation("%s: depth of %s is %s" % (what, x, x._depth))
    return a


def uniq(gf):
    try:
        path_keys(gf.graph)
    except Violation:
        raise Skip()


def via_hdf(gf):
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        gf.to_hdf(os.path.join(d, "x.h5"), key="k")
        return GraphFrame.from_hdf(os.path.join(d, "x.h5"), key="k")
    finally:
        shutil.rmtree(d)


FORMATS = {
    "literal": lambda g: GraphFrame.from_literal(g.to_literal()),
    "json": lambda g: GraphFrame.from_json(g.to_json()),
    "hdf": via_hdf,
}


def run_round(case, rec):
    *spec, chain = case
    gf, _ = build(spec)
    uniq(gf)
    before = snapshot(gf)
    want, cur, drop, default, zero = gf, gf, (), True, False
    for f in chain:
        cur = FORMATS[f](cur)
        rec.op()
        if f == "literal":
            drop, zero, default = ("mod", "line", "nid"), True, False
        if f == "json":
            default = False
        judge(cur, want, "%s of %s" % ("-".join(chain), spec), drop, default, zero)
        d = diff_snap(before, snapshot(gf))
        if d:
            raise Violation("%s changed the graphframe: %s" % (chain, d))
        for c in ("time", "time (inc)"):
            if str(cur.dataframe[c].dtype) not in ("float64", "int64") and gf.dataframe[c].notna().any():
                raise Violation("%s: column %s comes back as %s" % (chain, c, cur.dataframe[c].dtype))
    rec.state(spec, chain[-1], ops.observe(cur)["rows"])
    rec.outcome("-".join(chain))


def run_order(case, rec):
    """Round trips of dataframes whose rows are in any order."""
    *spec, perm, f = case
    gf, _ = build(spec)
    uniq(gf)
    gf.dataframe = gf.dataframe.iloc[[i for i in perm if i < len(gf.dataframe)]]
    before = snapshot(gf)
    cur = FORMATS[f](gf)
    rec.op()
    judge(cur, gf, "%s of %s with rows in order %s" % (f, spec, perm), ("mod", "line", "nid") if f == "literal" else (), f == "hdf", f == "literal", True)
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("%s changed the graphframe: %s" % (f, d))
    rec.state(spec, perm, f)
    rec.outcome(f)


METRICS = {  # exclusive, inclusive, default
    "usual": (["time"], ["time (inc)"], "time"),
    "cycles": (["PAPI_L2_TCM", "cycles"], ["total"], "cycles"),
    "inc": (["b", "a"], ["z", "time (inc)", "y"], "y"),
    "none": ([], ["total"], "total"),
    "suffix": (["time"], ["time (inc) x", "(inc)"], "time"),
    "only": (["walltime"], [], "walltime"),
}
COLS = [0, -3, 2 ** 40], [0.5, -1e300, 1e-9], ["x", "", "q'\"\\u00e9"], [True, False, True], [1.5, None, -INF], [None, "s", "t"]


def run_wide(case, rec):
    """Larger graphs, other metric lists, column types and frame attributes."""
    shape, n, mset, cols, attrs, index, chain = case
    exc, inc, default = METRICS[mset]
    parent = {"chain": lambda v: v - 1, "star": lambda v: 0, "binary": lambda v: (v - 1) // 2, "pair": lambda v: v - 2}[shape]
    edges = [(parent(v), v) for v in range(1, n) if parent(v) >= 0]
    if shape == "binary" and n > 6:
        edges += [(1, n - 1), (2, 3)]
    frames = [dict({"name": "f%d" % (n - v if shape == "star" else v), "type": "function"}, **({} if attrs == "plain" else {
        "line": v, "file": "/a b/%d.c" % (v % 2), "rank": -v} if v % 2 else {"rank": v, "line": 100 - v})) for v in range(n)]
    combos = {"n": [()], "nr": [(0,), (3,)], "nt": [(1,), (2,)], "nrt": [(0, 0), (2, 1)]}[index]
    rows = []
    for v in range(n):
        for k, c in enumerate(combos):
            r = {m: float(3 * v + j + 7 * k) / (1 + j) for j, m in enumerate(exc + inc)}
            r.update({"c%d" % j: COLS[j][(v + k) % 3] for j in cols})
            rows.append((v, c, r))
    gf, nodes = make_gf(edges, frames, rows, index, exc, inc, default)
    uniq(gf)
    before, cur = snapshot(gf), gf
    for f in chain:
        cur = FORMATS[f](cur)
        rec.op()
    lit = "literal" in chain
    judge(cur, gf, "%s of %s" % ("-".join(chain), case), ["c%d" % j for j in cols] + ["nid"] if lit else (), chain == ["hdf"], anyorder=lit, lists=not lit)
    if lit:
        if sorted(cur.exc_metrics) != sorted(m for m in exc + inc if "(inc)" not in m):
            raise Violation("exclusive metrics %s" % cur.exc_metrics)
    elif cur.exc_metrics != exc or cur.inc_metrics != inc:
        raise Violation("%s: metrics %s %s, they were %s %s" % (chain, cur.exc_metrics, cur.inc_metrics, exc, inc))
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("%s changed the graphframe: %s" % (chain, d))
    if not lit:
        for c in gf.dataframe.columns:
            a, b = [list(map(type, map(clean, g.dataframe[c]))) for g in (gf, cur)]
            if a != b:
                raise Violation("%s: column %s comes back as %s" % (chain, c, cur.dataframe[c].dtype))
    for x in graph_nodes(cur.graph):
        if {k: type(v) for k, v in x.frame.attrs.items()} not in [{k: type(v) for k, v in f.items()} for f in frames]:
            raise Violation("%s: frame %s" % (chain, x.frame.attrs))
    rec.state(case)
    rec.outcome("-".join(chain))


def run_write(case, rec):
    """to_literal writes exactly the modelled literal."""
    *spec, rank, thread = case
    n, edges, names, kind, index, seed = spec
    gf, nodes = build(spec)
    df = gf.dataframe
    ch = {v: [b for a, b in edges if a == v] for v in range(n)}
    have = {b for _, b in edges}
    frames = frames_of(names, kind)
    for f in frames:
        f.setdefault("type", "None")
    key = lambda v: tuple(sorted(f for f in frames[v].items()))
    seen = set()
    vals = {}
    for ix, t, ti, md in zip(df.index, df["time"], df["time (inc)"], df["mod"]):
        node = ix[0] if isinstance(ix, tuple) else ix
        rest = tuple(ix[1:]) if isinstance(ix, tuple) else ()
        vals[id(node), rest] = (t, ti, md)
    sel = {"n": (), "nr": (rank,), "nt": (thread,), "nrt": (rank, thread)}[index]

    def num(x):
        x = clean(x)
        return 0 if x is None or x in (INF, -INF) else x

    def lit(v):
        t, ti, md = vals[id(nodes[v]), sel]
        d = {"name": names[v], "frame": dict(frames[v]),
             "metrics": {"time": num(t), "time (inc)": num(ti), "_hatchet_nid": nodes[v]._hatchet_nid},
             "attributes": {"mod": md}}
        if ch[v] and v not in seen:
            seen.add(v)
            d["children"] = [lit(c) for c in sorted(ch[v], key=lambda c: (key(c), 0))]
        return d

    try:
        want = [lit(r) for r in sorted([v for v in range(n) if v not in have], key=key)]
    except KeyError:  # the selected row is absent
        raise Skip()
    before = snapshot(gf)
    got = gf.to_literal(rank=rank, thread=thread, cat_columns=["mod", "nonesuch"])
    rec.op()
    if got != want:
        raise Violation("to_literal(rank=%s, thread=%s) of %s gives %s, expected %s" % (rank, thread, spec, got, want))
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("to_literal changed the graphframe: %s" % d)
    rec.state(spec, rank, thread)


def run_read(case, rec):
    """from_literal builds the described graph, for every way of writing it down."""
    n, edges, names, style, nidperm = case
    edges = [tuple(e) for e in edges]
    ch = {v: [b for a, b in edges if a == v] for v in range(n)}
    indeg = {v: sum(b == v for _, b in edges) for v in range(n)}
    withnid = nidperm is not None
    if not withnid and any(d > 1 for d in indeg.values()):
        raise Skip()
    count = 0

    def lit(v, seen):
        nonlocal count
        count += 1
        d = {"frame": {"name": names[v], "type": "function"}, "metrics": {"time": 1.0 + v, "time (inc)": 10.0 + v}}
        if style == "noname":
            d = {"name": names[v], "frame": {"type": "statement", "line": ord(names[v])}, "metrics": d["metrics"]}
        if withnid:
            d["metrics"]["_hatchet_nid"] = nidperm[v]
        if ch[v] and (style != "first" or v not in seen):
            seen.add(v)
            d["children"] = [lit(c, seen) for c in ch[v]]
        elif style == "noname":
            d["children"] = []
        return d

    seen = set()
    spec = [lit(v, seen) for v in range(n) if not indeg[v]]
    keepspec = copy.deepcopy(spec)
    gfs = [GraphFrame.from_literal(spec) for _ in range(2)]
    rec.op(2)
    if spec != keepspec:
        raise Violation("from_literal modified the given literal: %s -> %s" % (keepspec, spec))
    for gf in gfs:
        wf_graph(gf.graph)
        nodes = graph_nodes(gf.graph)
        if len(nodes) != n or len(gf.dataframe) != n:
            raise Violation("from_literal made %d nodes and %d rows, %d described (%s)" % (len(nodes), len(gf.dataframe), n, case))
        val = {id(ix): (r["name"], r["time"], r["time (inc)"]) for ix, r in gf.dataframe.iterrows()}
        who = {id(x): int(val[id(x)][1]) - 1 for x in nodes}
        if sorted(who.values()) != list(range(n)):
            raise Violation("rows %s" % val)
        for x in nodes:
            v = who[id(x)]
            if sorted(who[id(c)] for c in x.children) != sorted(ch[v]):
                raise Violation("children of node %d: %s, expected %s (%s)" % (v, [who[id(c)] for c in x.children], ch[v], case))
            if val[id(x)] != (names[v], 1.0 + v, 10.0 + v):
                raise Violation("row of node %d: %s" % (v, val[id(x)]))
            if withnid and x._hatchet_nid != nidperm[v]:
                raise Violation("node %d got id %s, the literal says %s" % (v, x._hatchet_nid, nidperm[v]))
            f = {"name": names[v], "type": "function"} if style != "noname" else {"type": "statement", "line": ord(names[v])}
            if dict(x.frame.attrs) != f:
                raise Violation("frame of node %d: %s, expected %s" % (v, x.frame.attrs, f))
        if sorted(who[id(r)] for r in gf.graph.roots) != [v for v in range(n) if not indeg[v]]:
            raise Violation("roots %s" % [who[id(r)] for r in gf.graph.roots])
        if not withnid and [x._hatchet_nid for x in gf.graph.traverse()] != list(range(n)):
            raise Violation("ids do not follow the traversal")
        ids = [x._hatchet_nid for x in gf.dataframe.index]
        if ids != sorted(ids):
            raise Violation("rows are not sorted by node")
        key = path_keys(gf.graph, allow_dup=True)
        for x in nodes:
            if x._depth not in {len(p) - 1 for p in key[id(x)]}:
                raise Violation("depth of node %d is %s" % (who[id(x)], x._depth))
        if gf.exc_metrics != ["time"] or gf.inc_metrics != ["time (inc)"]:
            raise Violation("metric lists %s %s" % (gf.exc_metrics, gf.inc_metrics))
        if sorted(gf.dataframe.columns) != ["name", "time", "time (inc)"]:
            raise Violation("columns %s" % list(gf.dataframe.columns))
    # independent of each other and of the literal
    s1 = snapshot(gfs[1])
    for x in graph_nodes(gfs[0].graph):
        x.frame.attrs["name"] = "changed"
    if diff_snap(s1, snapshot(gfs[1])) or spec != keepspec:
        raise Violation("graphframes read from one literal share frames")
    rec.state(edges, names, style, nidperm)
    rec.outcome(style)


def run_mixed(case, rec):
    """Roots with different metrics; none, all, only the roots or only the children with ids."""
    metrics, nids = case
    spec = []
    for r, (ms, nid) in enumerate(zip(metrics, nids)):
        d = {"frame": {"name": "r%d" % r, "type": "function"}, "metrics": {m: float(r + 1) for m in ms},
             "children": [{"frame": {"name": "c%d" % r, "type": "function"}, "metrics": {m: 5.0 + r for m in ms}}]}
        if nid in (1, 2):
            d["metrics"]["_hatchet_nid"] = 2 * r
        if nid in (1, 3):
            d["children"][0]["metrics"]["_hatchet_nid"] = 2 * r + 1
        spec.append(d)
    gf = GraphFrame.from_literal(spec)
    rec.op()
    wf_graph(gf.graph)
    nodes = graph_nodes(gf.graph)
    if len(nodes) != 2 * len(metrics) or len(gf.dataframe) != len(nodes):
        raise Violation("%d nodes, %d rows from %s" % (len(nodes), len(gf.dataframe), spec))
    ids = [x._hatchet_nid for x in gf.graph.traverse()]
    if ids != list(range(len(nodes))):
        raise Violation("ids %s from %s" % (ids, spec))
    al = sorted({m for ms in metrics for m in ms})
    if sorted(gf.exc_metrics) != [m for m in al if "(inc)" not in m] or sorted(gf.inc_metrics) != [m for m in al if "(inc)" in m]:
        raise Violation("metric lists %s %s of %s" % (gf.exc_metrics, gf.inc_metrics, spec))
    for x in nodes:
        r = int(x.frame["name"][1])
        for m in al:
            w = None if m not in metrics[r] else float(r + 1) if x.frame["name"][0] == "r" else 5.0 + r
            if clean(gf.dataframe.loc[x, m]) != w:
                raise Violation("%s of %s is %s, expected %s" % (m, x, gf.dataframe.loc[x, m], w))
    rec.state(metrics, nids)


def spaces(tier):
    th = tier == "thorough"

    def shapes(N, labels=2):
        for n in range(1, N + 1):
            for e, lab in gen.labelled(n, min(labels, n), "dag"):
                yield n, e, ["abcd"[x] for x in lab]

    def round_all():
        for n, e, names in shapes(4):
            for kind in ("plain", "mixed"):
                for seed in range(2) if n == 4 and not th else range(5):
                    for f in ("literal", "json"):
                        yield [n, e, names, kind, "n", seed, [f]]

    def round_multi():
        for n, e, names in shapes(4 if th else 3):
            for index in ("nr", "nt", "nrt"):
                for seed in range(5):
                    yield [n, e, names, "mixed" if seed % 2 else "plain", index, seed, ["json"]]

    def hdf():
        for n, e, names in shapes(4 if th else 3):
            for index in ("n", "nr", "nrt"):
                for seed in range(2):
                    yield [n, e, names, "mixed" if seed % 2 else "plain", index, seed, ["hdf"]]

    def orders():
        for n, e, names in shapes(4):
            if n == 1 or n == 4 and len(set(names)) > 1:
                continue
            for perm in itertools.permutations(range(n)):
                if list(perm) == sorted(perm):
                    continue
                for f in FORMATS:
                    if n == 4 and not th and (f == "hdf" and perm[0] != 3 or len(e) != 3):
                        continue
                    yield [n, e, names if n < 4 else list("abcd"), "plain", "n", 4, list(perm), f]
        for n, e, names in shapes(3):
            if n > 1:
                for perm in itertools.permutations(range(2 * n)):
                    if n == 3 and (perm[0] not in (2, 5) or perm[1] > perm[2] and not th):
                        continue
                    for f in ("json", "hdf"):
                        if f == "json" or n == 2 or th and perm[3] == 0:
                            yield [n, e, names, "plain", "nr", 4, list(perm), f]

    def chains():
        for n, e, names in shapes(3):
            for k in (2, 3):
                for ch in itertools.product(FORMATS, repeat=k):
                    if n < 3 or th or (k == 2 and len(set(ch)) == 2):
                        yield [n, e, names, "plain", "n", 4, list(ch)]

    def write():
        for n, e, names in shapes(4, 4):
            if len(set(names)) < n:
                continue
            for index in ("n", "nr", "nt", "nrt"):
                for seed in (0, 1):
                    for rank, thread in {"n": [(0, 0)], "nr": [(0, 0), (1, 0)], "nt": [(0, 0), (0, 2)], "nrt": [(0, 0), (0, 1), (1, 0)]}[index]:
                        yield [n, e, names, "plain" if seed else "mixed", index, seed, rank, thread]

    def read():
        for n in range(1, 5):
            for e, lab in gen.labelled(n, min(n, 2), "dag"):
                names = ["ab"[x] for x in lab]
                for style in ("all", "first", "noname"):
                    yield [n, e, names, style, None]
                    for perm in itertools.permutations(range(n)):
                        if n == 4 and not th and perm[0] > 1:
                            continue
                        yield [n, e, names, style, perm]
        # many parents, many children of shared nodes
        hubs = [(0, v) for v in range(1, 6)] + [(v, 6) for v in range(1, 6)]
        for n, e in ((7, hubs), (7, hubs + [(0, 6)]), (8, hubs + [(6, 7)]), (6, [(v, 5) for v in range(5)]), (8, [(v, w) for v in range(4) for w in range(4, 8)])):
            for names in (["a"] * n, list("abcdefgh")[:n], list("hgfedcba")[:n]):
                for style in ("all", "first", "noname"):
                    for perm in (list(range(n)), list(range(n))[::-1], [3 * v + 5 for v in range(n)]):
                        yield [n, e, names, style, perm]

    def mixed():
        ms = ["time"], ["time", "time (inc)"], ["m", "time"], ["x (inc)"]
        for k in (1, 2, 3):
            for t in itertools.product(ms, repeat=k):
                for nids in itertools.product(range(4), repeat=k):
                    if len(set(nids)) == 1 or k < 3:
                        yield [list(t), list(nids)]

    def wide():
        for shape in ("chain", "star", "binary", "pair"):
            for n in (3, 12) if not th else (3, 7, 12, 23):
                for mset in METRICS:
                    for cols in ((), (0, 3), (1, 2), (4, 5), (0, 1, 2, 3, 4, 5)):
                        for attrs in ("plain", "rich"):
                            if n > 3 and not th and (mset == "usual" or attrs == "plain") and cols:
                                continue
                            for index in ("n", "nr", "nt", "nrt"):
                                if n > 3 and index[-1] == "t" and not th:
                                    continue
                                for chain in (["json"], ["hdf"], ["literal"], ["json", "json"]):
                                    if chain != ["literal"] or index == "n":
                                        yield [shape, n, mset, cols, attrs, index, chain]

    return [
        Space("literal-format", write, run_write, "to_literal against a model: DAGs <=4 nodes with distinct names x index kinds x rank/thread"),
        Space("literal-read", read, run_read, "from_literal: all DAGs <=4 nodes, some with 5 parents, x 2 names x 3 ways of writing x id assignments; read twice"),
        Space("literal-roots", mixed, run_mixed, "from_literal with several roots with different metrics, with and without ids"),
        Space("roundtrip", round_all, run_round, "literal and JSON round trips of all DAGs <=4 nodes x 2 names x value patterns (missing, infinite)"),
        Space("roundtrip-multi", round_multi, run_round, "JSON round trips of (node, rank, thread) dataframes with absent rows"),
        Space("roundtrip-hdf", hdf, run_round, "HDF5 round trips, single and multi-index"),
        Space("roundtrip-order", orders, run_order, "round trips through every format with the rows in every order (DAGs <=3 nodes, 4 nodes with distinct frames; two ranks)"),
        Space("roundtrip-wide", wide, run_wide, "trees and DAGs up to 12 nodes x metric lists and default metrics x column types x frame attributes x index kinds"),
        Space("chains", chains, run_round, "sequences of 2 and 3 round trips through different formats"),
    ]
