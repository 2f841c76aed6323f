"""Histories of operations on a pool of graphframes: the explored space of C06 and C07.

A state is a pool of graphframes; a transition applies one public operation to one or two of them and adds the result
(if it is a new object) to the pool.  Every sequence up to the depth bound is executed from scratch on the real code.
Reduction: an operation must use a graphframe that the previous one read, changed or created (operations on disjoint
graphframes commute as long as isolation holds, which is checked after every single operation)."""
import json

import numpy as np

from . import hx
from .core import Skip, Violation
from hatchet.node import MultiplePathError
from .hx import Frame, Graph, GraphFrame, Node, clean, fkey, graph_nodes, make_gf, path_keys

NAN = None


def _r(v, idx, t, ti, mod="m"):
    return (v, idx, {"time": t, "time (inc)": ti, "mod": mod})


def tree(vals=(1, 2, 4, 8), names="rabc", edges=((0, 1), (0, 2), (1, 3))):
    n = len(names)
    ch = {v: [b for a, b in edges if a == v] for v in range(n)}

    def tot(v, seen=None):
        seen = set() if seen is None else seen
        seen.add(v)
        for c in ch[v]:
            if c not in seen:
                tot(c, seen)
        return seen

    rows = [_r(v, (), vals[v], sum(vals[x] for x in tot(v)), "mk"[v % 2]) for v in range(n)]
    return list(edges), list(names), rows, "n"


def multi(names="rab", edges=((0, 1), (0, 2)), ranks=(0, 1), drop=(), base=1, index="nr"):
    rows = []
    for v in range(len(names)):
        for k in ranks:
            if (v, k) not in drop:
                rows.append(_r(v, (k,) if index != "nrt" else (k, 0), float(base * 2 ** (2 * v + k)), float(100 + v + k)))
    return list(edges), list(names), rows, index


INITS = {
    # two trees that overlap in part
    "trees": lambda: [mk(tree()), mk(tree((16, 32, 64), "rad", ((0, 1), (1, 2))))],
    # a diamond and its unfolding
    "dags": lambda: [mk(tree((1, 2, 4, 8), "rabc", ((0, 1), (0, 2), (1, 3), (2, 3)))),
                     mk(tree((16, 32, 64, 128), "rabc", ((0, 1), (0, 2), (1, 3))))],
    # filtering b makes two c's collide (merge on squash); several roots
    "merge": lambda: [mk(tree((1, 2, 4, 8, 16), "rbcce", ((0, 1), (0, 2), (1, 3), (3, 4)))),
                      mk(tree((32, 64), "rb", ()))],
    # (node, rank) with absent rows; the same graph shapes
    "ranks": lambda: [mk(multi(drop=((1, 1),))), mk(multi("ra", ((0, 1),), base=64))],
    # operands that share one graph object
    "shared": lambda: shared(),
    # three graphframes, used for the reduced depth-3 exploration
    "tiny": lambda: [mk(tree((1, 2, 4), "rab", ((0, 1), (1, 2)))), mk(tree((8, 16), "rb", ((0, 1),)))],
}


def mk(spec):
    edges, names, rows, index = spec
    gf, _ = make_gf(edges, names, rows, index, exc=("time",), inc=("time (inc)",), metadata={"k": ["v"]})
    return gf


def shared():
    a = mk(tree())
    b = a.copy()
    b.dataframe = b.dataframe.copy(deep=True)
    b.dataframe["time"] = b.dataframe["time"] * 16
    return [a, b]


def render(g):
    g.tree(metric_column="time")
    g.to_dot(metric="time")
    g.to_literal()
    g.to_dict()
    g.show_metric_columns()
    try:
        g.to_flamegraph(metric="time")
    except (MultiplePathError, ValueError):  # several paths; missing values
        pass
    return None


NOROWS = "rows for every node"


def has_holes(g):
    have = {id(x) for x in g.dataframe.index.get_level_values("node")}
    return any(id(n) not in have for n in graph_nodes(g.graph))


def is_multi(g):
    return len(g.dataframe.index.names) > 1


def full(g):
    """every (node, rank..) combination has a row"""
    if not is_multi(g):
        return not has_holes(g)
    lev = [sorted(set(g.dataframe.index.get_level_values(n)), key=str) for n in g.dataframe.index.names if n != "node"]
    k = 1
    for l in lev:
        k *= len(l)
    return len(g.dataframe) == k * len(graph_nodes(g.graph))


def keep(name):
    return lambda row: row["name"] != name


def _json(g):
    return GraphFrame.from_json(g.to_json())


# name -> (arity, mutates first, function, domain)
ok = lambda *g: True
complete = lambda g: not has_holes(g)
single = lambda g: not is_multi(g) and not has_holes(g)
UNARY = {
    "filter-b": (lambda g: g.filter(keep("b"), squash=False, num_procs=1), False, ok),
    "filter-b,squash": (lambda g: g.filter(keep("b"), squash=True, num_procs=1), False, ok),
    "filter-r,squash": (lambda g: g.filter(keep("r"), squash=True, update_inc_cols=False, num_procs=1), False, ok),
    "filter-all": (lambda g: g.filter(lambda row: True, squash=False, num_procs=1), False, ok),
    "query": (lambda g: g.filter([("*", {"name": "[rabd]"})], squash=True, multi_index_mode="any" if is_multi(g) else "off"), False, complete),
    "query2": (lambda g: g.filter(["+", {"name": "b|c"}], squash=False, multi_index_mode="all" if is_multi(g) else "off"), False, complete),
    "squash": (lambda g: g.squash(), False, ok),
    "squash0": (lambda g: g.squash(update_inc_cols=False), False, ok),
    "copy": (lambda g: g.copy(), False, ok),
    "deepcopy": (lambda g: g.deepcopy(), False, ok),
    "update": (lambda g: g.update_inclusive_columns(), True, complete),
    "sum": (lambda g: g.subgraph_sum(["time"], ["total"]), True, complete),
    "sum-in-place": (lambda g: g.subgraph_sum(["time"]), True, complete),
    "generate": (lambda g: g.generate_exclusive_columns("time (inc)"), True, complete),
    "drop": (lambda g: g.drop_index_levels(np.sum), True, is_multi),
    "render": (render, False, complete),
    "groupby": (lambda g: g.groupby_aggregate(["mod"], {"time": "sum", "time (inc)": "max"}), False, lambda g: False),
    "json": (_json, False, single),
}


def setop(f):
    return f


BINARY = {
    "add": (lambda a, b: a.add(b), False),
    "sub": (lambda a, b: a - b, False),
    "mul": (lambda a, b: a * b, False),
    "div": (lambda a, b: a.div(b), False),
    "iadd": (lambda a, b: a.__iadd__(b), True),
    "isub": (lambda a, b: a.__isub__(b), True),
    "imul": (lambda a, b: a.__imul__(b), True),
    "idiv": (lambda a, b: a.__itruediv__(b), True),
    "unify": (lambda a, b: a.unify(b), "both"),
}


def same_kind(a, b):
    return (list(a.dataframe.index.names) == list(b.dataframe.index.names) and set(a.exc_metrics) == set(b.exc_metrics)
            and set(a.inc_metrics) == set(b.inc_metrics) and len(set(a.exc_metrics + a.inc_metrics)) >= 1)


def enabled(step, pool):
    op = step[0]
    if op in UNARY:
        return UNARY[op][2](pool[step[1]])
    return same_kind(pool[step[1]], pool[step[2]])


def apply(step, pool):
    """Execute one step. Returns (index of the changed graphframes, index of the new one or None)."""
    op, args = step[0], step[1:]
    if op in UNARY:
        f, mut, _ = UNARY[op]
        res = f(pool[args[0]])
    else:
        f, mut = BINARY[op]
        res = f(pool[args[0]], pool[args[1]])
    changed = set(args) if mut == "both" else {args[0]} if mut else set()
    if isinstance(res, GraphFrame) and not any(res is p for p in pool):
        pool.append(res)
        return changed, len(pool) - 1
    return changed, None


def steps(nslots, unary, binary, touch=None):
    for op in unary:
        for a in range(nslots):
            if touch is None or a in touch:
                yield [op, a]
    for op in binary:
        for a in range(nslots):
            for b in range(nslots):
                if touch is None or a in touch or b in touch:
                    if op == "unify" and a == b:
                        continue
                    yield [op, a, b]


# ---- observation and reconstruction ---------------------------------------------------------------------------------
def observe(gf):
    """Everything a user sees, as plain data without object identities."""
    g = gf.graph
    key = path_keys(g)
    order = [n for n in g.traverse()] if not g.node_ordering else list(g.node_order_traverse())
    pos = {id(n): i for i, n in enumerate(order)}
    if len(pos) != len(key):
        raise Violation("traversal visits %d of %d nodes" % (len(pos), len(key)))
    df = gf.dataframe
    names = list(df.index.names)
    np_ = names.index("node")
    cols = [c for c in df.columns]
    vals = {c: df[c].tolist() for c in cols}
    rows = []
    for r, ix in enumerate(df.index.tolist()):
        ix = ix if isinstance(ix, tuple) and len(names) > 1 else (ix,)
        if id(ix[np_]) not in pos:
            raise Violation("dataframe row refers to a node that is not in the graph: %r" % (ix[np_],))
        rows.append((tuple(pos[id(x)] if i == np_ else clean(x) for i, x in enumerate(ix)),
                     {str(c): clean(vals[c][r]) if not isinstance(vals[c][r], Node) else "node" for c in cols}))
    return {
        "frames": [dict(n.frame.attrs) for n in order],
        "children": [[pos[id(c)] for c in n.children] for n in order],
        "parents": [[pos[id(c)] for c in n.parents] for n in order],
        "roots": [pos[id(c)] for c in g.roots],
        "nids": [n._hatchet_nid for n in order],
        "depths": [n._depth for n in order],
        "index": names, "rows": rows, "dtypes": {str(c): str(df[c].dtype) for c in cols},
        "exc": list(gf.exc_metrics), "inc": list(gf.inc_metrics), "default": gf.default_metric,
        "meta": json.dumps(gf.metadata, sort_keys=True, default=str),
    }


def rebuild(ob):
    """A new graphframe with the observed content and nothing else."""
    import pandas as pd

    nodes = [Node(Frame(dict(f))) for f in ob["frames"]]
    for i, cs in enumerate(ob["children"]):
        for c in cs:
            nodes[i].add_child(nodes[c])
    for i, ps in enumerate(ob["parents"]):
        for p in ps:
            nodes[i].add_parent(nodes[p])
    g = Graph([nodes[i] for i in ob["roots"]])
    g.enumerate_traverse()
    np_ = ob["index"].index("node")
    data = {n: [nodes[r[0][i]] if i == np_ else r[0][i] for r in ob["rows"]] for i, n in enumerate(ob["index"])}
    for c, dt in ob["dtypes"].items():
        v = [r[1][c] for r in ob["rows"]]
        data[c] = pd.Series([np.nan if x is None and dt.startswith("float") else x for x in v], dtype=dt)
    df = pd.DataFrame(data).set_index(ob["index"])
    return GraphFrame(g, df, list(ob["exc"]), list(ob["inc"]), ob["default"], json.loads(ob["meta"]))


def compare(x, y, what, ignore=()):
    """Differences of two observations that a user could see."""
    for k in ("frames", "index", "default", "meta", "nids"):
        if x[k] != y[k]:
            raise Violation("%s: %s: %s, expected %s" % (what, k, x[k], y[k]))
    for k in ("exc", "inc", "roots"):
        if sorted(x[k]) != sorted(y[k]):
            raise Violation("%s: %s: %s, expected %s" % (what, k, x[k], y[k]))
    for k in ("children", "parents"):
        if [sorted(c) for c in x[k]] != [sorted(c) for c in y[k]]:
            raise Violation("%s: %s: %s, expected %s" % (what, k, x[k], y[k]))
    kx, ky = [r[0] for r in x["rows"]], [r[0] for r in y["rows"]]
    if sorted(kx, key=str) != sorted(ky, key=str):
        raise Violation("%s: rows %s, expected %s" % (what, kx, ky))
    dx, dy = dict(x["rows"]), dict(y["rows"])
    for k in dx:
        if set(dx[k]) - set(ignore) != set(dy[k]) - set(ignore):
            raise Violation("%s: columns %s, expected %s" % (what, sorted(dx[k]), sorted(dy[k])))
        for c in set(dx[k]) & set(dy[k]):
            a, b = dx[k][c], dy[k][c]
            if a != b and not (isinstance(a, float) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * abs(b)):
                raise Violation("%s: %s of row %s is %r, expected %r" % (what, c, k, a, b))
    if kx != ky:
        raise Violation("%s: row order %s, expected %s" % (what, kx, ky))
