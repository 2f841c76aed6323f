"""C06: an operation changes nothing but the graphframe it is documented to change, in every history."""
import pandas as pd

from mc import gen, ops
from mc.core import Skip, Space, Violation
from mc.hx import Frame, Graph, GraphFrame, Node, diff_snap, snapshot
from hatchet.query import ObjectQuery
from checks.c07 import RED_B, RED_U, histories, outcome

PROPERTY = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = ["copy() shares the graph and the dataframe's values with the original by documentation: values of one are not "
               "judged after an in-place change of the other"]


def links(step, pool, new, groups):
    """groups: sets of slots that share values by documentation."""
    if step[0] == "copy" and new is not None:
        for g in groups:
            if step[1] in g:
                g.add(new)
                return
        groups.append({step[1], new})


def run(case, rec):
    init, hist = case
    pool = ops.INITS[init]()
    groups = []
    for i, step in enumerate(hist):
        if not ops.enabled(step, pool):
            raise Skip()
        last = i == len(hist) - 1
        if last:
            before = [snapshot(g) for g in pool]
            held = [(g.graph, g.dataframe, g.exc_metrics, g.inc_metrics, g.metadata) for g in pool]
        exc, changed, new = outcome(step, pool)
        links(step, pool, new, groups)
        if exc and not last:
            raise Skip()
    what = "%s after %s on %s" % (hist[-1], hist[:-1], init)
    if exc:
        # in-place operations may fail half-way; all others leave everything as it was
        if step[0] in ops.UNARY and not ops.UNARY[step[0]][1]:
            changed = set()
        else:
            changed = set(step[1:])
    rec.op()
    rec.outcome("%s%s" % (hist[-1][0], " " + exc if exc else ""))
    shared = {s for g in groups for c in changed if c in g for s in g}
    for j, b in enumerate(before):
        if j in changed:
            continue
        now = snapshot(pool[j])
        d = diff_snap(b, now)
        if d and j in shared and j != new:
            d = diff_snap(strip(b), strip(now))
        if d:
            raise Violation("%s: graphframe %d changed: %s" % (what, j, d))
        if pool[j].dataframe is not held[j][1] or pool[j].graph is not held[j][0]:
            raise Violation("%s: graphframe %d got another graph or dataframe" % (what, j))
    # the new or changed graphframe shares no mutable part with any other
    for j in changed | ({new} if new is not None else set()):
        for k in range(len(pool)):
            if k == j:
                continue
            for attr in ("exc_metrics", "inc_metrics", "metadata", "dataframe"):
                if getattr(pool[j], attr) is getattr(pool[k], attr):
                    raise Violation("%s: graphframes %d and %d share their %s object" % (what, j, k, attr))
    rec.state(init, [ops.observe(g)["rows"] for g in pool], [[j for j in range(len(pool)) if pool[j].graph is g.graph] for g in pool])


def strip(s):
    """Everything but the dataframe's values."""
    return tuple(("df",) + x[1:3] + (tuple((c[0]) for c in x[3]),) if x[0] == "df" else x for x in s)


def probe(case, rec):
    """After the history, write into every part of the last graphframe; no other one may change."""
    init, hist = case
    pool = ops.INITS[init]()
    groups = []
    for step in hist:
        if not ops.enabled(step, pool):
            raise Skip()
        exc, changed, new = outcome(step, pool)
        if exc:
            raise Skip()
        links(step, pool, new, groups)
    t = new if new is not None else min(changed) if changed else None
    if t is None:
        raise Skip()
    g = pool[t]
    before = {j: snapshot(p) for j, p in enumerate(pool) if j != t}
    g.exc_metrics.append("x")
    g.inc_metrics.append("y")
    g.metadata["new"] = 1
    if hist[-1][0] == "deepcopy":
        g.metadata.get("k", []).append("w")
    for c in list(g.dataframe.columns):
        if c in ("time", "time (inc)", "name", "mod"):
            for r in range(len(g.dataframe)):
                g.dataframe.iat[r, g.dataframe.columns.get_loc(c)] = "zz" if c in ("name", "mod") else -99.0
    g.dataframe["extra"] = 1
    rec.op()
    shared = {s for gr in groups if t in gr for s in gr}
    for j, b in before.items():
        now = snapshot(pool[j])
        d = diff_snap(strip(b), strip(now)) if j in shared else diff_snap(b, now)
        if d:
            raise Violation("writing into graphframe %d after %s on %s changed graphframe %d: %s" % (t, hist, init, j, d))
    rec.state(init, hist)


EXPORTS = {
    "literal": lambda g: g.to_literal(),
    "literal-cat": lambda g: g.to_literal(cat_columns=["mod", "absent"]),
    "dict": lambda g: g.to_dict(),
    "columns": lambda g: g.show_metric_columns(),
    "traverse": lambda g: [list(g.graph.traverse()), list(g.graph.traverse(attrs=["name", "type"])), list(g.graph.roots[0].traverse(order="post"))],
    "merges": lambda g: g.graph.find_merges(),
    "frames": lambda g: [n.frame.copy().attrs for n in g.graph.traverse()],
    "paths": lambda g: [n.paths() for n in g.graph.traverse()],
    "query": lambda g: g.query_engine.apply(ObjectQuery(["+"], "any" if ops.is_multi(g) else "off"), g.graph, g.dataframe),
}


def scribble(x, seen=None):
    """Write into every container of x."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, seen)
        for k in list(x):
            x[k] = "SCRIBBLE"
        x["new"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v, seen)
        x.reverse()
        x.append("SCRIBBLE")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v, seen)
    elif isinstance(x, set):
        x.clear()


def run_export(case, rec):
    init, hist, name = case
    pool = ops.INITS[init]()
    for step in hist:
        if not ops.enabled(step, pool):
            raise Skip()
        exc, changed, new = outcome(step, pool)
        if exc:
            raise Skip()
    g = pool[-1]
    if ops.has_holes(g) and name != "merges":
        raise Skip()
    before = [snapshot(p) for p in pool]
    try:
        first = EXPORTS[name](g)
        keep = repr(first)
        scribble(first)
        second = EXPORTS[name](g)
    except KeyError:
        if ops.full(g):
            raise
        raise Skip()
    rec.op()
    for j, b in enumerate(before):
        d = diff_snap(b, snapshot(pool[j]))
        if d:
            raise Violation("writing into the result of %s after %s on %s changed graphframe %d: %s" % (name, hist, init, j, d))
    if repr(second) != keep:
        raise Violation("writing into the result of %s after %s on %s changed what it returns next: %s, expected %s" % (name, hist, init, second, keep))
    rec.state(init, hist, keep)
    rec.outcome(name)


def literal(edges, names):
    def node(v):
        d = {"frame": {"name": names[v], "type": "f"}, "metrics": {"time": float(2 ** v), "time (inc)": 64.0}, "name": names[v]}
        kids = [b for a, b in edges if a == v]
        if kids:
            d["children"] = [node(k) for k in kids]
        return d

    n = len(names)
    return [node(r) for r in range(n) if not any(b == r for _, b in edges)]


def run_import(case, rec):
    """Two graphframes from one source; the source and the first are written into."""
    n, edges, names, how = case
    edges = [tuple(e) for e in edges]
    src = literal(edges, names)

    def read():
        if how == "literal":
            return GraphFrame.from_literal(src)
        if how == "json":
            return GraphFrame.from_json(text)
        if how == "frames":
            nodes = [Node(f) for f in frames]
            for a, b in edges:
                nodes[a].add_child(nodes[b])
                nodes[b].add_parent(nodes[a])
            gr = Graph([x for x in nodes if not x.parents])
            gr.enumerate_traverse()
            df = pd.DataFrame({"node": nodes, "time": [1.0] * n, "name": names}).set_index("node").sort_index()
            return GraphFrame(gr, df, ["time"], [])
        raise ValueError(how)

    text = None
    dicts = [{"name": names[v], "type": "f"} for v in range(n)]
    frames = [Frame(d) for d in dicts]
    if how == "json":
        text = GraphFrame.from_literal(src).to_json()
    a = read()
    b = read()
    sb = snapshot(b)
    rec.op()
    sa = snapshot(a)
    scribble(src)
    for d in dicts:
        scribble(d)
    for what, g, s in (("first", a, sa), ("second", b, sb)):
        d = diff_snap(s, snapshot(g))
        if d:
            raise Violation("writing into the source changed the %s graphframe made from it by %s: %s" % (what, how, d))
    a.dataframe["time"] = -1.0
    a.exc_metrics.append("zz")
    a.metadata["zz"] = 1
    a.default_metric = "zz"
    a.graph.roots[0].add_child(Node(Frame(name="extra")))
    d = diff_snap(sb, snapshot(b))
    if d:
        raise Violation("writing into the first graphframe made by %s changed the second: %s" % (how, d))
    rec.state(edges, names, how)


def spaces(tier):
    th = tier == "thorough"

    def deep(init, depth, u, b):
        def gen():
            for h in histories(init, depth, u, b):
                yield [init, h]
        return gen

    def exports():
        for init in ops.INITS:
            for h in [[]] + list(histories(init, 1, list(ops.UNARY), list(ops.BINARY))):
                for name in EXPORTS:
                    yield [init, h, name]

    def imports():
        for n in range(1, 5):
            for kind, hows in (("forest", ("literal", "json", "frames")), ("dag", ("frames",))):
                for e, lab in gen.labelled(n, 2, kind):
                    for how in hows:
                        yield [n, e, ["ab"[l] for l in lab], how]

    out = [
        Space("exports", exports, run_export, "every exporter after every sequence of <=1 operation on every pool: writes into every container it returned"),
        Space("imports", imports, run_import, "graphframes made twice from one literal, JSON text or set of dictionaries (DAGs/forests <=4 nodes, 2 names), then writes into the source and the first one"),
    ]
    for init in ("trees", "dags", "merge", "ranks", "shared"):
        out.append(Space("depth2-" + init, deep(init, 2, list(ops.UNARY), list(ops.BINARY)), run,
                         "every sequence of <=2 operations (%d unary, %d binary) on the pool '%s'" % (len(ops.UNARY), len(ops.BINARY), init)))
        out.append(Space("write-" + init, deep(init, 2, RED_U + ("filter-b,squash", "filter-all", "deepcopy", "drop", "json", "squash0"), RED_B + ("div", "imul")), probe,
                         "every sequence of <=2 operations on the pool '%s', then writes into every part of the last result" % init))
    red = RED_U + ("filter-b,squash",) if th else RED_U
    out.append(Space("depth3-tiny", deep("tiny", 3, red, RED_B), run, "every sequence of <=3 operations from %s" % (red + RED_B,)))
    if th:
        for init in ("dags", "merge", "ranks", "shared"):
            out.append(Space("depth3-" + init, deep(init, 3, RED_U, RED_B), run,
                             "every sequence of <=3 operations from %s on the pool '%s'" % (RED_U + RED_B, init)))
        out.append(Space("depth4-tiny", deep("tiny", 4, ("filter-b", "squash", "copy"), ("iadd",)), run,
                         "every sequence of <=4 operations from filter, squash, copy, iadd"))
    return out
