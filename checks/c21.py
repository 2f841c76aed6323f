"""C21: the native Caliper reader and time series against a model of the records, for every small context tree, record set and order."""
import itertools

from mc import gen
from mc.core import Skip, Space, Violation
from mc.hx import GraphFrame, graph_nodes, wf_graph

PROPERTY = "C21"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "profiles are given as a CaliperReader object (records, globals, attribute()); the .cali text parser is not part of hatchet",
    "either no record or every record has an MPI rank; one region and kernel of the same name under one parent do not occur",
]

ATTRS = {
    "mpi.rank": ("int", True, None),
    "sum#time.duration": ("double", True, None),
    "inclusive#sum#time.duration": ("double", True, None),
    "avg#time.duration": ("double", True, "Avg time"),
    "avg#inclusive#sum#time.duration": ("double", True, "Avg time (inc)"),
    "count": ("uint", True, "Visits"),
    "region": ("string", False, None),
    "tag": ("string", False, None),
    "iterations": ("int", False, None),
    "flag": ("bool", True, None),
    "min#min#aggregate.slot": ("uint", True, "Node order"),
    "aggregate.slot": ("uint", True, None),
    "spot.channel": ("string", False, None),
    "cupti.activity.kind": ("string", False, None),
    "cupti.kernel.name": ("string", False, None),
    "timeseries.snapshot": ("uint", True, None),
    "loop.start_iteration": ("int", True, None),
    "loop.iterations": ("int", True, None),
}
RENAME = {"mpi.rank": "rank", "sum#time.duration": "time", "inclusive#sum#time.duration": "time (inc)"}
CONV = {"int": int, "uint": int, "double": float, "string": str, "bool": lambda v: v == "true"}


class Attr:
    def __init__(self, name):
        self.t, self.v, self.alias = ATTRS[name]

    def is_value(self):
        return self.v

    def attribute_type(self):
        return self.t

    def get(self, name):
        return self.alias if name == "attribute.alias" else None


class Reader:
    def __init__(self, records, globals_):
        self.records, self.globals = records, globals_

    def attribute(self, name):
        return Attr(name)


def context(r):
    p = r["path"]
    p = tuple(p) if isinstance(p, list) else (p,)
    if r.get("cupti.activity.kind") == "kernel":
        return p + (r["cupti.kernel.name"],), "kernel"
    if r.get("cupti.activity.kind") == "memcpy":
        return p + ("memcpy",), "memcpy"
    return p, "function"


def shown(col, native):
    alias = None if native else ATTRS[col][2]
    return RENAME.get(col, alias or col)


def judge(gf, records, rows_of, native, strings, case, soft=(), metadata=None, allcols=None):
    """records: all relevant ones (structure); rows_of: those of this graphframe."""
    wf_graph(gf.graph)
    frames = {}
    for r in records:
        p, t = context(r)
        for k in range(1, len(p) + 1):
            frames.setdefault(p[:k], "function")
        frames[p] = t
    nodes = {}
    for x in graph_nodes(gf.graph):
        p = tuple(y.frame["name"] for y in x.path())
        if p in nodes or p not in frames or dict(x.frame.attrs) != {"type": frames[p], "name": p[-1]}:
            raise Violation("unexpected or repeated node %s %s (%s)" % (p, dict(x.frame.attrs), case))
        nodes[p] = x
        if x._depth != len(p) - 1:
            raise Violation("depth of %s: %s (%s)" % (p, x._depth, case))
    if set(nodes) != set(frames):
        raise Violation("missing nodes %s (%s)" % (sorted(set(frames) - set(nodes)), case))
    if sorted(map(id, gf.graph.roots)) != sorted(id(nodes[p]) for p in frames if len(p) == 1):
        raise Violation("roots %s (%s)" % (gf.graph.roots, case))
    cols = allcols if allcols is not None else [c for c in ATTRS if any(c in r for r in records) and (ATTRS[c][0] != "string" or c in strings)]
    ranks = None
    if "mpi.rank" in cols:
        ranks = range(max(int(r["mpi.rank"]) for r in rows_of) + 1)
    df = gf.dataframe
    index = ["node"] + (["rank"] if ranks is not None else [])
    if list(df.index.names) != index:
        raise Violation("index %s (%s)" % (df.index.names, case))
    got = {}
    for row in df.reset_index().to_dict("records"):
        k = [p for p in nodes if nodes[p] is row["node"]]
        if len(k) != 1:
            raise Violation("row of a node outside of the graph: %s (%s)" % (row, case))
        k = (k[0],) + tuple(row[i] for i in index[1:])
        if k in got:
            raise Violation("two rows for %s (%s)" % (k, case))
        got[k] = row
    want = [(p,) + ((r,) if ranks is not None else ()) for p in frames for r in (ranks if ranks is not None else [0])]
    if set(got) != set(want):
        raise Violation("rows for %s, expected %s (%s)" % (sorted(got), sorted(want), case))
    hidden = {"Node order", "aggregate.slot"}
    exp_cols = {"name"}
    for k in want:
        mine = [r for r in rows_of if context(r)[0] == k[0] and (ranks is None or int(r["mpi.rank"]) == k[1])]
        row = got[k]
        if row["name"] != k[0][-1]:
            raise Violation("name of %s is %s (%s)" % (k, row["name"], case))
        for c in cols:
            s = shown(c, native)
            if s in hidden or c == "mpi.rank":
                continue
            exp_cols.add(s)
            vals = [CONV[ATTRS[c][0]](r[c]) for r in mine if c in r]
            if (c in soft) and (not mine or any(r.get("timeseries.snapshot") == "0" for r in mine)):
                continue
            w = vals[0] if vals else None if mine or not ATTRS[c][1] else 0
            g = row.get(s, "<no column>")
            if not (g == w or w is None and (g is None or g != g)):
                raise Violation("%s of %s is %r, expected %r (%s)" % (s, k, g, w, case))
    extra = set(df.columns) - exp_cols - {"nid", "spot.channel"}
    if extra:
        raise Violation("unexpected columns %s (%s)" % (sorted(extra), case))
    exc, inc = [], []
    for c in cols:
        s = shown(c, native)
        if ATTRS[c][1] and c not in ("mpi.rank", "loop.start_iteration") and s not in hidden:
            (inc if "(inc)" in s or "inclusive" in s else exc).append(s)
    if sorted(gf.exc_metrics) != sorted(exc) or sorted(gf.inc_metrics) != sorted(inc):
        raise Violation("metrics %s %s, expected %s %s (%s)" % (gf.exc_metrics, gf.inc_metrics, exc, inc, case))
    if exc + inc and gf.default_metric not in exc + inc:
        raise Violation("default metric %s is none of %s (%s)" % (gf.default_metric, exc + inc, case))
    if "time" in exc and gf.default_metric != "time" and "time (inc)" in inc:
        raise Violation("default metric %s (%s)" % (gf.default_metric, case))
    if metadata is not None and gf.metadata != metadata:
        raise Violation("metadata %s, expected %s (%s)" % (gf.metadata, metadata, case))
    return nodes


GLOBALS = {"launch": "7", "ratio": "0.5", "user": "u", "list": "[a, b]", "libs": ["x", "y"], "tuple": "(1,2)"}
METADATA = {"launch": 7, "ratio": 0.5, "user": "u", "list": ["a", "b"], "libs": ["x", "y"], "tuple": ["1", "2"]}

COLS = {
    "both": ["sum#time.duration", "inclusive#sum#time.duration"],
    "inc": ["inclusive#sum#time.duration"],
    "alias": ["avg#time.duration", "avg#inclusive#sum#time.duration", "count"],
    "mixed": ["sum#time.duration", "count", "flag", "iterations", "tag"],
}


def path_of(v, par, names):
    return (path_of(par[v], par, names) if v in par else []) + [names[v]]


def records_for(n, edges, names, mask, ranks, kind, strroot):
    par = {b: a for a, b in edges}
    recs = []
    for v in range(n):
        p = path_of(v, par, names)
        for j in range(max(1, ranks)):
            if not mask[v] >> j & 1:
                continue
            r = {"path": p[0] if strroot and len(p) == 1 else p, "region": names[v]}
            if ranks:
                r["mpi.rank"] = str(j)
            for i, c in enumerate(COLS[kind]):
                t = ATTRS[c][0]
                if c == "tag" and (v + j) % 2:
                    continue
                if c == "count" and kind == "mixed" and (v + j) % 3 == 1:
                    continue
                x = (1 << (3 * v + j)) * 10 + i
                r[c] = "%d.500000" % x if t == "double" else str(x) if t != "bool" else "true" if v % 2 else "false"
                if t == "string":
                    r[c] = "s%d" % v
            recs.append(r)
    return recs


def run_tree(case, rec):
    n, edges, names, ranks, mask, kind, order, opts = case
    recs = records_for(n, [tuple(e) for e in edges], names, mask, ranks, kind, opts & 1)
    if not recs:
        raise Skip()
    recs = [recs[i] for i in order if i < len(recs)]
    split = []
    if opts & 2:  # several records per context, each with some of the columns; records of no context or channel
        for r in recs:
            c = [k for k in r if k in COLS[kind]]
            a, b = dict(r), dict(r)
            for k in c[len(c) // 2:]:
                a.pop(k)
            b[c[0]] = "77" if ATTRS[c[0]][0] != "bool" else "true"
            split.append(a)
            split.append({"region": "x", "sum#time.duration": "5"})
            if opts & 4:
                a["spot.channel"] = b["spot.channel"] = "regionprofile"
                split.append(dict(r, **{"path": r["path"], "spot.channel": "timeseries", "sum#time.duration": "9"}))
        for r, a in zip(recs, [x for x in split if "path" in x and x.get("spot.channel") != "timeseries"]):
            b = dict(r)
            if opts & 4:
                b["spot.channel"] = "regionprofile"
            c = [k for k in r if k in COLS[kind]]
            b[c[0]] = "77" if ATTRS[c[0]][0] not in ("bool", "string") else b[c[0]]
            split.append(b)
        recs = split
    native, strings = bool(opts & 8), ["tag"]
    gf = GraphFrame.from_caliperreader(Reader(recs, dict(GLOBALS)), native, "tag" if opts & 1 else ["tag"])
    rec.op()
    used = [r for r in recs if "path" in r and r.get("spot.channel", "regionprofile") == "regionprofile"]
    judge(gf, used, used, native, strings, case, metadata=METADATA)
    rec.state(case)
    rec.outcome(kind)


def run_cuda(case, rec):
    n, edges, names, ranks, leaves, order = case
    edges = [tuple(e) for e in edges]
    par = {b: a for a, b in edges}
    recs = []
    for j in range(max(1, ranks)):
        for v in range(n):
            p = path_of(v, par, names)
            for b, what in enumerate(("k1", "k2", "memcpy", "")):
                if leaves[v] >> b & 1:
                    r = {"path": p, "sum#time.duration": "%d.0" % ((1 << (4 * v + b)) + j)}
                    if what == "memcpy":
                        r["cupti.activity.kind"] = "memcpy"
                    elif what:
                        r.update({"cupti.activity.kind": "kernel", "cupti.kernel.name": what})
                    if ranks:
                        r["mpi.rank"] = str(j)
                    recs.append(r)
    if not recs:
        raise Skip()
    if order == "rev":
        recs.reverse()
    elif order == "alt":
        recs = recs[1::2] + recs[::2]
    gf = GraphFrame.from_caliperreader(Reader(recs, {}))
    rec.op()
    judge(gf, recs, recs, False, [], case, metadata={})
    rec.state(case)


def run_order(case, rec):
    n, edges, names, slots, mask, order, native = case
    edges = [tuple(e) for e in edges]
    par = {b: a for a, b in edges}
    recs = []
    for v in range(n):
        if mask[v]:
            recs.append({"path": path_of(v, par, names), "sum#time.duration": "%d.0" % (1 << v), "min#min#aggregate.slot": str(slots[v])})
    recs = [recs[i] for i in order if i < len(recs)]
    if not recs:
        raise Skip()
    gf = GraphFrame.from_caliperreader(Reader(recs, {}), native)
    rec.op()
    nodes = judge(gf, recs, recs, native, [], case)
    if all(mask):
        ch = {v: sorted([b for a, b in edges if a == v], key=lambda b: slots[b]) for v in range(n)}
        seq = []

        def walk(v):
            seq.append(tuple(path_of(v, par, names)))
            for c in ch[v]:
                walk(c)

        for r in sorted([v for v in range(n) if v not in par], key=lambda b: slots[b]):
            walk(r)
        for what, got in (("rows", list(gf.dataframe.index)), ("traversal", list(gf.graph.node_order_traverse()))):
            got = [tuple(y.frame["name"] for y in x.path()) for x in got]
            if got != seq:
                raise Violation("order of %s %s, expected %s (%s)" % (what, got, seq, case))
        rec.outcome("ordered")
    rec.state(case)


def run_series(case, rec):
    n, edges, names, steps, first, order, native = case
    edges = [tuple(e) for e in edges]
    par = {b: a for a, b in edges}
    recs, groups, cur, cur_recs = [], [], 0, []

    def add(v, step, k, snap):
        r = {"path": path_of(v, par, names), "sum#time.duration": "%d.0" % ((1 << (v + 4 * k)) + 1), "timeseries.snapshot": str(snap), "loop.iterations": str(k), "aggregate.slot": str(v)}
        if step is not None:
            r["loop.start_iteration"] = str(step)
        if k % 2 and v % 2:
            r["count"] = str(v + k)
        recs.append(r)

    for v in range(n):
        if first >> v & 1:
            add(v, None, 0, 0)
    for k, (step, m) in enumerate(steps):
        vs = [v for v in range(n) if m >> v & 1]
        if order:
            vs.reverse()
        for v in vs:
            add(v, step, k + 1, k + 1)
    if not recs:
        raise Skip()
    for r in recs:
        if "loop.start_iteration" in r and int(r["loop.start_iteration"]) != cur:
            groups.append(cur_recs)
            cur_recs, cur = [], int(r["loop.start_iteration"])
        cur_recs.append(r)
    groups.append(cur_recs)
    if not all(groups):
        raise Skip()
    out = GraphFrame.from_timeseries(Reader(recs, dict(GLOBALS)), native=native)
    rec.op()
    if len(out) != len(groups):
        raise Violation("%d graphframes, expected %d (%s)" % (len(out), len(groups), case))
    cols = [c for c in ATTRS if any(c in r for r in recs) and ATTRS[c][0] != "string"]
    keep = ("timeseries.snapshot", "loop.start_iteration", "loop.iterations")
    carry = [r for r in groups[0] if r["timeseries.snapshot"] == "0"]
    for i, (gf, g) in enumerate(zip(out, groups)):
        rows = list(g)
        if i:
            rows = [{k: v for k, v in r.items() if k == "path" or k in keep} for r in carry] + rows
        judge(gf, recs, rows, native, [], case + [i], soft=keep, metadata=METADATA, allcols=cols)
    for a, b in itertools.combinations(out, 2):
        if a.dataframe is b.dataframe or a.exc_metrics is b.exc_metrics or a.inc_metrics is b.inc_metrics or a.metadata is b.metadata:
            raise Violation("graphframes of a time series share a dataframe, list or metadata (%s)" % (case,))
    rec.state(case)
    rec.outcome("%d steps" % len(groups))


def spaces(tier):
    th = tier == "thorough"

    def forests(N):
        for n in range(1, N + 1):
            for e, _ in gen.labelled(n, 1, "forest"):
                yield n, e

    def tree():
        for n, e in forests(4):
            names = list("badc"[:n])
            for ranks in (0, 1, 2):
                masks = list(itertools.product(range(2 ** max(ranks, 1)), repeat=n))
                if ranks == 2 and n > 2:
                    masks = [m for m in masks if th or sum(m) % 3 == 0 or n == 3]
                for mask in masks:
                    k = sum(bin(m).count("1") for m in mask)
                    if k <= (4 if n < 4 or th else 3):
                        perms = list(itertools.permutations(range(k)))
                    else:
                        perms = [tuple(range(k)), tuple(reversed(range(k))), tuple(range(1, k, 2)) + tuple(range(0, k, 2))]
                    if n == 4 and not th:
                        perms = perms[::5] + perms[-1:]
                    for order in perms:
                        simple = n > 2 or k > 3
                        for kind, opts in ((("both", 0), ("mixed", 3)) if simple else [(a, b) for a in COLS for b in range(16) if not (b & 4 and not b & 2)]):
                            if simple and not th and len(perms) > 6 and kind == "mixed" and order != perms[-1]:
                                continue
                            yield [n, e, names, ranks, list(mask), kind, list(order), opts]

    def cuda():
        for n, e in forests(3):
            for ranks in (0, 2):
                for leaves in itertools.product(range(16) if n < 3 else (0, 1, 3, 8, 12), repeat=n):
                    for order in ("id", "rev", "alt"):
                        yield [n, e, list("bac"[:n]), ranks, list(leaves), order]

    def order():
        for n, e in forests(4):
            for slots in itertools.permutations(range(n)):
                for mask in itertools.product((1, 0), repeat=n) if n < 4 or th else [(1,) * n, (0, 1, 1, 1), (1, 0, 1, 1)]:
                    k = sum(mask)
                    perms = list(itertools.permutations(range(k)))
                    for o in perms if n < 4 or th else perms[::5]:
                        yield [n, e, list("badc"[:n]), [s * 2 + 1 for s in slots], list(mask), list(o), bool(sum(slots[:1]) % 2)]

    def series():
        for n, e in forests(3):
            names = list("bac"[:n])
            full = range(1, 2 ** n)
            for first in range(2 ** n) if n < 3 or th else (1, 5, 6):
                for k in (1, 2) if n == 3 and not th else (1, 2, 3):
                    for lv in itertools.product((0, 1, 5), repeat=k):
                        for ms in itertools.product(full if k < 3 else list(full)[-2:], repeat=k):
                            for o in (0, 1) if k < 3 and (n < 3 or th) else (1,):
                                yield [n, e, names, list(zip(lv, ms)), first, o, bool(first % 2)]

    return [
        Space("records", tree, run_tree, "all forests <=4 contexts x which (context, rank) have records x record orders (all permutations up to 4 records) x column sets and options"),
        Space("cuda", cuda, run_cuda, "all forests <=3 contexts x kernel and memcpy records at each context x record orders"),
        Space("node-order", order, run_order, "all forests <=4 contexts x slot permutations x absent records x record orders"),
        Space("time-series", series, run_series, "all forests <=3 contexts x level sequences x which contexts occur in each step"),
    ]
