"""C23: an operation that fails leaves the graphframes it was given intact, for every call of a user's function that can fail."""
import os
import tempfile

import numpy as np
import pandas as pd

from mc import ops
from mc.core import Skip, Space, Violation
from mc.hx import GraphFrame, diff_snap, make_gf, snapshot
from hatchet.query import Query

PROPERTY = "C23"
LEVEL = "model_checking"
ASSUMPTIONS = ["faults enter through functions and values that the user passes in (and through unusable arguments), at every call; "
               "no faults are injected between two arbitrary lines of hatchet",
               "pandas itself repeats some aggregations after a KeyError or TypeError: an operation that completes in spite of a "
               "fault must give the same result as without it"]


class Unpicklable(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.f = lambda: None


class Custom(Exception):
    pass


class Base(BaseException):
    pass


ERRORS = {"ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError, "IndexError": IndexError,
          "AttributeError": AttributeError, "StopIteration": StopIteration, "AssertionError": AssertionError,
          "custom": Custom, "two-arguments": lambda m: Unpicklable(m, m), "KeyboardInterrupt": KeyboardInterrupt, "base": Base}
KINDS = {"ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError, "IndexError": IndexError,
         "AttributeError": AttributeError, "StopIteration": StopIteration, "AssertionError": AssertionError,
         "custom": Custom, "two-arguments": Unpicklable, "KeyboardInterrupt": KeyboardInterrupt, "base": Base}

SPECS = {
    "tree": lambda: ops.tree(),
    "dag": lambda: ops.tree((1, 2, 4, 8), "rabc", ((0, 1), (0, 2), (1, 3), (2, 3))),
    "merge": lambda: ops.tree((1, 2, 4, 8, 16), "rbcce", ((0, 1), (0, 2), (1, 3), (3, 4))),
    "roots": lambda: ops.tree((1, 2, 4), "rab", ((0, 1),)),
    "ranks": lambda: ops.multi(drop=((1, 1),)),
    "threads": lambda: ops.multi(index="nrt"),
    "ranks-dag": lambda: ops.multi("rabc", ((0, 1), (0, 2), (1, 3), (2, 3))),
}


class Fault:
    """Counts the calls of a user's function and raises in the k-th one."""

    def __init__(self, k, err):
        self.k, self.err, self.n, self.raised = k, err, 0, None

    def __call__(self, f):
        def g(*a, **kw):
            self.n += 1
            if self.n - 1 == self.k:
                self.raised = ERRORS[self.err]("injected")
                raise self.raised
            return f(*a, **kw)

        return g


def mm(g):
    return "any" if ops.is_multi(g) else "off"


def name_of(row):
    n = row["name"]
    return n if isinstance(n, str) else n.iloc[0]


# name -> (operation taking the graphframe and a wrapper for the user's functions, columns it may change, swallows?, domain)
def pred(w, x="b"):
    return w(lambda row: name_of(row) != x)


any_gf = lambda g: True
OPS = {
    "filter": (lambda g, w: g.filter(pred(w), squash=False, num_procs=1), (), False, any_gf),
    "filter,squash": (lambda g, w: g.filter(pred(w), num_procs=1), (), False, any_gf),
    "query +": (lambda g, w: g.filter(Query().match("+", pred(w)), squash=False), (), False, any_gf),
    "query two": (lambda g, w: g.filter(Query().match(".", pred(w, "q")).rel("*", pred(w)), squash=True), (), False, any_gf),
    "query union": (lambda g, w: g.filter(Query().match(".", pred(w, "q")) | Query().match("*", pred(w)), squash=False), (), False, any_gf),
    "query attr": (lambda g, w: g.filter([("*", {"name": FaultyRegex(w)})], squash=True, multi_index_mode=mm(g)), (), False, any_gf),
    "sum": (lambda g, w: g.subgraph_sum(["time", "time (inc)"], ["x", "y"], w(lambda s: s.sum(min_count=1))), ("x", "y"), True, any_gf),
    "sum in place": (lambda g, w: g.subgraph_sum(["time"], None, w(lambda s: s.sum(min_count=1))), ("time",), True, any_gf),
    "subtree": (lambda g, w: g.subtree_sum(["time"], ["x"], w(lambda s: s.sum(min_count=1))), ("x",), True, lambda g: g.graph.is_tree()),
    "drop": (lambda g, w: g.drop_index_levels(w(lambda s: s.sum())), None, True, ops.is_multi),
    "groupby": (lambda g, w: g.groupby_aggregate("name", {"time": w(lambda s: s.sum()), "time (inc)": w(lambda s: s.max())}), (), True,
                lambda g: not ops.is_multi(g)),
    "groupby f": (lambda g, w: g.groupby_aggregate(w(lambda n: n.frame["name"]), {"time": "sum", "time (inc)": "max"}), (), True,
                  lambda g: not ops.is_multi(g)),
    "load": (lambda g, w: GraphFrame.from_literal([FaultyDict(w, {"frame": {"name": "r", "type": "t"}, "metrics": {"time": 1.0},
                                                                  "children": [FaultyDict(w, {"frame": {"name": "a", "type": "t"}, "metrics": {"time": 2.0}})]})]),
             (), False, any_gf),
}


class FaultyRegex:
    """An iterable of attribute values whose iteration runs a user's code."""

    def __init__(self, w):
        self.w = w

    def __iter__(self):
        step = self.w(lambda x: x)
        for x in ("[rabc]", "b"):
            yield step(x)


class FaultyDict(dict):
    def __init__(self, w, d):
        super().__init__(d)
        self.get_ = w(lambda k: dict.__getitem__(self, k))

    def __getitem__(self, k):
        return self.get_(k)


def world(spec):
    edges, names, rows, index = SPECS[spec]()
    g, _ = make_gf(edges, names, rows, index, exc=("time",), inc=("time (inc)",), metadata={"k": ["v"]})
    holders = [g, g.copy(), g.deepcopy()]
    holders[1].dataframe = holders[1].dataframe.copy()
    return holders


def stripped(s, cols):
    """A snapshot without the given columns."""
    return tuple(("df",) + x[1:3] + (tuple(c for c in x[3] if c[0] not in cols),) if x[0] == "df" else x for x in s)


def process_state():
    with np.errstate():
        e = np.geterr()
    return (os.getcwd(), e, pd.get_option("display.width"), pd.get_option("mode.chained_assignment"), os.environ.get("PYTHONHASHSEED"))


def judge(what, holders, before, cols, g0=0):
    for j, (h, b) in enumerate(zip(holders, before)):
        now = snapshot(h)
        if j == g0 and cols:
            d = diff_snap(stripped(b, cols), stripped(now, cols))
        else:
            d = diff_snap(b, now)
        if d:
            raise Violation("%s: graphframe %d changed: %s" % (what, j, d))


FOLLOW = {
    "query": lambda g: g.filter([("*", {"name": "[rac]"})], squash=True, multi_index_mode=mm(g)),
    "query2": lambda g: g.filter(["."], squash=False) if False else g.filter([(".", {"name": "a|b"}), ("*", {"name": ".*"})], squash=False, multi_index_mode=mm(g)),
    "update": lambda g: g.update_inclusive_columns(),
    "filter": lambda g: g.filter(lambda row: row["name"] != "a", num_procs=1),
    "add": lambda g: g.add(g.deepcopy()),
}


def obs(g):
    return ops.observe(g)


def run_fault(case, rec):
    """Every call of a user's function fails once; the operands are intact, and all that follows is as if nothing had happened."""
    spec, op = case
    f, cols, lenient, domain = OPS[op]
    holders = world(spec)
    if not domain(holders[0]):
        raise Skip()
    count = Fault(-1, None)
    res = f(holders[0], count)
    clean = obs(res if isinstance(res, GraphFrame) else holders[0])
    want = {}
    for name, fol in FOLLOW.items():
        if cols is None:
            break
        h = world(spec)[0]
        r = attempt(fol, h)
        want[name] = obs(r if isinstance(r, GraphFrame) else h) if not isinstance(r, str) else r
    for k in range(count.n):
        for err in ERRORS:
            holders = world(spec)
            before = [snapshot(h) for h in holders]
            state = process_state()
            fault = Fault(k, err)
            what = "%s on %s with %s in call %d" % (op, spec, err, k)
            rec.op()
            try:
                res = f(holders[0], fault)
            except BaseException as e:
                if fault.raised is None:
                    raise
                if not isinstance(e, KINDS[err]) and not (lenient or (err == "StopIteration" and isinstance(e, RuntimeError))):
                    raise Violation("%s: raised %s: %s" % (what, type(e).__name__, e))
                rec.outcome("raised")
            else:
                if not lenient and not isinstance(fault.raised, TypeError):
                    raise Violation("%s: the exception was lost" % what)
                if fault.raised is not None and not (op == "query attr"):
                    ops.compare(obs(res if isinstance(res, GraphFrame) else holders[0]), clean, what + " (completed)")
                rec.outcome("completed")
                continue
            judge(what, holders, before, cols)
            if process_state() != state:
                raise Violation("%s: process state %s, before %s" % (what, process_state(), state))
            # the same operation again, and others, work as if nothing had happened
            if op == "sum in place":
                continue
            for name, fol in FOLLOW.items() if cols is not None else ():
                for h in (0, 1):
                    if err not in ("ValueError", "KeyboardInterrupt") or (name in ("update", "add") and h == 1):
                        continue
                    hs = world(spec)
                    ft = Fault(k, err)
                    try:
                        f(hs[0], ft)
                    except BaseException:
                        if ft.raised is None:
                            raise
                    else:
                        continue
                    r = attempt(fol, hs[h])
                    got = obs(r if isinstance(r, GraphFrame) else hs[h]) if not isinstance(r, str) else r
                    rec.op()
                    if isinstance(got, str) or isinstance(want[name], str):
                        if got != want[name]:
                            raise Violation("%s, then %s on graphframe %d: %s, expected %s" % (what, name, h, got, want[name]))
                        continue
                    ops.compare(drop(got, cols or ()), want[name], "%s, then %s on graphframe %d" % (what, name, h))
            res = f(holders[0], Fault(-1, None))
            rec.op()
            ops.compare(obs(res if isinstance(res, GraphFrame) else holders[0]), clean, what + ", then again")
    rec.state(spec, op, clean["rows"])


def drop(ob, cols):
    ob = dict(ob)
    ob["rows"] = [(k, {c: v for c, v in d.items() if c not in cols}) for k, d in ob["rows"]]
    return ob


def attempt(fol, h):
    try:
        return fol(h)
    except Exception as e:
        return type(e).__name__


def run_rows(case, rec):
    """Parallel filter: the predicate fails for a subset of the rows, with every number of workers."""
    spec, bad, err, procs = case
    holders = world(spec)
    g = holders[0]
    rows = list(range(len(g.dataframe)))
    g.dataframe["pos"] = rows
    for h in holders[1:]:
        h.dataframe["pos"] = rows
    if any(b >= len(rows) for b in bad):
        raise Skip()

    def p(row):
        if row["pos"] in bad:
            raise ERRORS[err]("injected")
        return row["name"] != "b"

    before = [snapshot(h) for h in holders]
    what = "filter on %s with %d workers and %s in rows %s" % (spec, procs, err, bad)
    rec.op()
    try:
        g.filter(p, squash=False, num_procs=procs)
    except Exception as e:
        if not isinstance(e, KINDS[err]) and not (err == "two-arguments" and procs > 1 and isinstance(e, RuntimeError)):
            raise Violation("%s: raised %s: %s" % (what, type(e).__name__, e))
    else:
        raise Violation("%s: the exception was lost" % what)
    judge(what, holders, before, ())
    r = g.filter(lambda row: row["name"] != "b", squash=False, num_procs=procs)
    if sorted(r.dataframe["pos"].tolist()) != [i for i, n in enumerate(g.dataframe["name"]) if n != "b"]:
        raise Violation("%s: the next filter keeps rows %s" % (what, r.dataframe["pos"].tolist()))
    rec.state(spec, bad, procs)


# ---------------------------------------------------------------- unusable arguments
NO = "nosuch"
BAD = {
    "filter None": (lambda g: g.filter(None), ()),
    "filter number": (lambda g: g.filter(5), ()),
    "filter column": (lambda g: g.filter(lambda row: row[NO] > 1, num_procs=1), ()),
    "filter column 2": (lambda g: g.filter(lambda row: row[NO] > 1, num_procs=2), ()),
    "filter empty": (lambda g: g.filter(lambda row: False, num_procs=1), ()),
    "filter empty 2": (lambda g: g.filter(lambda row: False, num_procs=2), ()),
    "filter compare": (lambda g: g.filter(lambda row: row["name"] > 1, num_procs=1), ()),
    "query empty": (lambda g: g.filter([("+", {"name": "zzz"})], multi_index_mode=mm(g)), ()),
    "query column": (lambda g: g.filter([("+", {NO: "a"})], multi_index_mode=mm(g)), ()),
    "query type": (lambda g: g.filter([("+", {"name": 1})], multi_index_mode=mm(g)), ()),
    "query type 2": (lambda g: g.filter([("+", {"time": "a"})], multi_index_mode=mm(g)), ()),
    "query item": (lambda g: g.filter([5.5, object()]), ()),
    "query wildcard": (lambda g: g.filter([("?", {"name": "a"})]), ()),
    "query text": (lambda g: g.filter("MATCH (\"+\", p) WHERE"), ()),
    "query text 2": (lambda g: g.filter("MATCH (\"+\", p) WHERE p.\"time\" > \"a\"", multi_index_mode=mm(g)), ()),
    "query text 3": (lambda g: g.filter("MATCH (\"+\", p) WHERE q.\"time\" > 1", multi_index_mode=mm(g)), ()),
    "sum column": (lambda g: g.subgraph_sum([NO]), ()),
    "sum column, out": (lambda g: g.subgraph_sum([NO], ["x"]), ("x",)),
    "sum lengths": (lambda g: g.subgraph_sum(["time"], ["x", "y"]), ()),
    "sum lengths 2": (lambda g: g.subgraph_sum(["time", "time (inc)"], ["x"]), ()),
    "sum lengths 3": (lambda g: g.subtree_sum(["time (inc)", "time"], ["time"]), ()),
    "sum function": (lambda g: g.subgraph_sum(["time"], ["x"], NO), ("x",)),
    "generate": (lambda g: g.generate_exclusive_columns(NO), ()),
    "generate number": (lambda g: g.generate_exclusive_columns(5), ()),
    "drop name": (lambda g: g.drop_index_levels(NO), ()),
    "groupby column": (lambda g: g.groupby_aggregate(NO, {"time": "sum"}), ()),
    "groupby agg": (lambda g: g.groupby_aggregate("name", {NO: "sum"}), ()),
    "groupby fn": (lambda g: g.groupby_aggregate("name", {"time": NO}), ()),
    "add number": (lambda g: g.add(5), ()),
    "add None": (lambda g: g + None, ()),
    "sub frame": (lambda g: g - g.dataframe, ()),
    "mul graph": (lambda g: g * g.graph, ()),
    "div number": (lambda g: g / 2, ()),
    "unify None": (lambda g: g.unify(None), ()),
    "unify number": (lambda g: g.unify(5), ()),
    "iadd number": (lambda g: g.__iadd__(5), ()),
    "isub None": (lambda g: g.__isub__(None), ()),
    "tree column": (lambda g: g.tree(metric_column=NO), ()),
    "tree name": (lambda g: g.tree(metric_column="time", name_column=NO), ()),
    "tree context": (lambda g: g.tree(metric_column="time", context_column=NO), ()),
    "tree rank": (lambda g: g.tree(metric_column="time", rank=99), ()),
    "tree precision": (lambda g: g.tree(metric_column="time", precision="x"), ()),
    "tree map": (lambda g: g.tree(metric_column="time", colormap=NO), ()),
    "dot column": (lambda g: g.to_dot(metric=NO), ()),
    "dot rank": (lambda g: g.to_dot(metric="time", rank=99), ()),
    "flame column": (lambda g: g.to_flamegraph(metric=NO), ()),
    "literal columns": (lambda g: g.to_literal(cat_columns=[NO]), ()),
    "hdf directory": (lambda g: g.to_hdf("/nonexistent-c23/x.h5"), ()),
    "set operation": (lambda g: g.graph.union(None), ()),
    "copy name": (lambda g: getattr(g, NO)(), ()),
}


def run_bad(case, rec):
    spec, op = case
    f, cols = BAD[op]
    holders = world(spec)
    before = [snapshot(h) for h in holders]
    state = process_state()
    what = "%s on %s" % (op, spec)
    rec.op()
    try:
        f(holders[0])
    except Exception as e:
        rec.outcome(type(e).__name__)
    else:
        rec.outcome("accepted")
        raise Skip()
    judge(what, holders, before, cols)
    if process_state() != state:
        raise Violation("%s: process state %s, before %s" % (what, process_state(), state))
    for name, fol in FOLLOW.items():
        fresh = world(spec)[0]
        hs = world(spec)
        try:
            f(hs[0])
        except Exception:
            pass
        r, w = attempt(fol, hs[0]), attempt(fol, fresh)
        rec.op()
        if isinstance(r, str) or isinstance(w, str):
            if r != w:
                raise Violation("%s, then %s: %s, expected %s" % (what, name, r, w))
            continue
        ops.compare(drop(obs(r if isinstance(r, GraphFrame) else hs[0]), cols), obs(w if isinstance(w, GraphFrame) else fresh), "%s, then %s" % (what, name))
    rec.state(spec, op)


# ---------------------------------------------------------------- binary operations on graphframes that do not fit
def other(kind, spec):
    edges, names, rows, index = SPECS[spec]()
    if kind == "columns":
        rows = [(v, i, {"bytes": c["time"]}) for v, i, c in rows]
        g, _ = make_gf(edges, names, rows, index, exc=("bytes",), inc=(), default="bytes")
    elif kind == "no rows of metric":
        g, _ = make_gf(edges, names, [(v, i, {"time": c["time"]}) for v, i, c in rows], index, exc=("time",), inc=("time (inc)",))
    elif kind == "text":
        g, _ = make_gf(edges, names, [(v, i, dict(c, time="t")) for v, i, c in rows], index)
    elif kind == "object":
        g, _ = make_gf(edges, names, [(v, i, dict(c, time=None if v else "t")) for v, i, c in rows], index)
    return g


def run_binary(case, rec):
    spec, ospec, kind, op, swap = case
    a, b = world(spec)[0], other(kind, ospec)
    if swap:
        a, b = b, a
    before = [snapshot(a), snapshot(b)]
    f, mut = ops.BINARY[op]
    what = "%s of %s and %s/%s%s" % (op, spec, ospec, kind, " swapped" if swap else "")
    rec.op()
    try:
        f(a, b)
    except Exception as e:
        rec.outcome(type(e).__name__)
    else:
        rec.outcome("accepted")
        if mut == "both":
            raise Skip()
        before, (a, b) = before[1:] if mut else before, (b, None) if mut else (a, b)
        judge(what, [x for x in (a, b) if x is not None], before, ())
        rec.state(case)
        return
    if mut is False:
        judge(what, [a, b], before, ())
    elif mut is True:
        judge(what, [b], before[1:], ())
        obs(a)  # still a graphframe: rows of nodes in the graph, each once
    else:
        obs(a), obs(b)
    rec.state(case)


def spaces(tier):
    th = tier == "thorough"

    def fault():
        for op in OPS:
            for spec in SPECS:
                yield [spec, op]

    def rows():
        for spec in SPECS:
            for err in ("ValueError", "KeyError", "StopIteration", "custom", "two-arguments"):
                for bad in [[i] for i in range(8)] + [[0, 1], [1, 3], [0, 3], [2, 3]]:
                    for procs in (1, 2, 3) + ((4, 8) if th else ()):
                        yield [spec, bad, err, procs]

    def bad():
        for op in BAD:
            for spec in SPECS:
                yield [spec, op]

    def binary():
        for spec in SPECS:
            for ospec in SPECS:
                for kind in ("columns", "no rows of metric", "text", "object"):
                    for op in ops.BINARY:
                        for swap in (0, 1):
                            yield [spec, ospec, kind, op, swap]

    return [
        Space("calls", fault, run_fault, "every operation that calls functions of the user x %d graphframes x every call x %d kinds of exceptions, "
              "then the same operation and %d others" % (len(SPECS), len(ERRORS), len(FOLLOW))),
        Space("workers", rows, run_rows, "predicates that fail for every one (and some two) of the rows x 1..3 (8) workers"),
        Space("arguments", bad, run_bad, "%d unusable arguments x %d graphframes, then %d other operations" % (len(BAD), len(SPECS), len(FOLLOW))),
        Space("operands", binary, run_binary, "every arithmetic operator and unify on pairs of %d graphframes whose columns do not fit" % len(SPECS)),
    ]
