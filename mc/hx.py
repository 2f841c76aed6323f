"""Building hatchet objects from plain specs and observing them as plain data."""
import contextlib
import math
import sys

import numpy as np
import pandas as pd

from . import env

env.bind()
from hatchet.frame import Frame  # noqa: E402
from hatchet.graph import Graph  # noqa: E402
from hatchet.graphframe import GraphFrame  # noqa: E402
from hatchet.node import Node  # noqa: E402

from .core import Violation  # noqa: E402


# ---- stand-ins -------------------------------------------------------------------------------------------------------
_places = {}


def places(old):
    """(module, attribute) of every module of hatchet that has imported this object by name."""
    return [(m, a) for k, m in list(sys.modules.items()) if k.partition(".")[0] == "hatchet"
            for a, x in list(vars(m).items()) if x is old or type(x) is type(old) and callable(x) and x == old]


@contextlib.contextmanager
def replaced(mod, **new):
    """Replaces attributes of a module for a while, also where hatchet has imported them by name."""
    undo = []
    for name, v in new.items():
        old = getattr(mod, name)
        if (mod, name) not in _places:
            _places[mod, name] = places(old)
        for m, a in [(mod, name)] + _places[mod, name]:
            undo.append((m, a, getattr(m, a)))
            setattr(m, a, v)
    try:
        yield
    finally:
        for m, a, x in reversed(undo):
            setattr(m, a, x)


# ---- object addresses: hatchet breaks ties between equal-frame nodes by id(); the driver owns that order -----------
class Addr:
    """Decides the relative addresses of Node objects in creation order: 'asc', 'desc', 'zig', or a permutation."""

    pool = None
    _orig = Node.__dict__.get("__new__")

    @classmethod
    def install(cls):
        orig = cls._orig

        def __new__(klass, *a, **k):
            if cls.pool and klass is Node:
                return cls.pool.pop()
            if orig is not None:
                return (orig.__func__ if isinstance(orig, staticmethod) else orig)(klass, *a, **k)
            return object.__new__(klass)

        Node.__new__ = staticmethod(__new__)

    @classmethod
    def start(cls, policy, n=24):
        if policy is None:
            cls.pool = None
            return
        objs = sorted((object.__new__(Node) for _ in range(n)), key=id)
        if policy == "asc":
            objs = objs[::-1]  # pop() hands out ascending addresses
        elif policy == "desc":
            pass
        elif policy == "zig":
            lo, hi = objs[: n // 2], objs[n // 2:]
            objs = [x for p in zip(lo, hi) for x in p]
        else:  # explicit permutation for the first len(policy) objects, then ascending
            k = len(policy)
            first = objs[:k]
            objs = objs[k:][::-1] + [first[i] for i in policy][::-1]
        cls.pool = objs

    @classmethod
    def stop(cls):
        cls.pool = None


Addr.install()


def fr(name, **kw):
    d = {"name": name, "type": "function"}
    d.update(kw)
    return Frame(d)


# frames of equal names that differ in other attributes
ATTRS = [dict(a, name="f") for a in ({}, {"line": 0}, {"line": 7}, {"file": ""}, {"file": "x.c"}, {"file": "", "line": 0}, {"file": "x.c", "line": 7}, {"type": ""}, {"type": "loop"}, {"type": "loop", "line": 0})]


def label_frame(x):
    """Frame or name of a label: names up to 99, frames with several attributes from 100 on."""
    return "abcdefghij"[x] if x < 100 else ATTRS[x - 100]


def label_key(x):
    f = label_frame(x)
    return fkey(fr(f) if isinstance(f, str) else Frame(dict(f)))


def fkey(frame):
    return tuple(sorted(frame.attrs.items()))


def make_nodes(edges, frames, child_order=None):
    """Nodes in index order, connected both ways. frames: list of Frame attrs dicts or names."""
    nodes = []
    for f in frames:
        nodes.append(Node(fr(f) if isinstance(f, str) else Frame(dict(f))))
    for a, b in edges:
        nodes[a].add_child(nodes[b])
        nodes[b].add_parent(nodes[a])
    return nodes


def make_graph(edges, frames, root_order=1):
    nodes = make_nodes(edges, frames)
    have = {b for _, b in edges}
    g = Graph([nodes[i] for i in range(len(nodes)) if i not in have][::root_order])
    g.enumerate_traverse()
    return g, nodes


INDEX = {
    "n": ("node",),
    "nr": ("node", "rank"),
    "nt": ("node", "thread"),
    "nrt": ("node", "rank", "thread"),
}


def make_gf(edges, frames, rows, index="n", exc=("time",), inc=("time (inc)",), default="time", metadata=None,
            root_order=1, dtypes=None, sort=True):
    """rows: list of (node idx, idx tuple, {col: value}). 'name' is filled from the frame when absent."""
    g, nodes = make_graph(edges, frames, root_order)
    gf = GraphFrame(g, make_df(nodes, frames, rows, index, sort), list(exc), list(inc), default,
                    {} if metadata is None else metadata)
    return gf, nodes


def make_df(nodes, frames, rows, index="n", sort=True):
    names = INDEX[index]
    recs = []
    for v, idx, cols in rows:
        r = {"node": nodes[v]}
        for nm, x in zip(names[1:], idx):
            r[nm] = x
        r["name"] = frames[v] if isinstance(frames[v], str) else frames[v].get("name", "?")
        for c, x in cols.items():
            r[c] = np.nan if x is None else x
        recs.append(r)
    df = pd.DataFrame(recs)
    df.set_index(list(names), inplace=True)
    if sort:
        df.sort_index(inplace=True)
    return df


# ---- observation ----------------------------------------------------------------------------------------------------
def clean(x):
    if x is None:
        return None
    if isinstance(x, (np.generic,)):
        x = x.item()
    if isinstance(x, float):
        if math.isnan(x):
            return None
        if x == int(x) if not math.isinf(x) else False:
            return int(x)
    return x


def graph_nodes(graph):
    """All Node objects reachable from the roots, by identity (independent of hatchet's traversals)."""
    seen, order = {}, []
    st = list(graph.roots)[::-1]
    while st:
        n = st.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        order.append(n)
        if len(order) > 10000:
            raise Violation("graph traversal does not terminate")
        st.extend(list(n.children)[::-1])
    return order


def path_keys(graph, allow_dup=False):
    """id(node) -> frozenset of root paths (tuples of frame keys). Requires an acyclic graph."""
    nodes = graph_nodes(graph)
    res = {id(n): set() for n in nodes}
    count = 0
    onpath = []

    def go(n, pre):
        nonlocal count
        count += 1
        if count > 200000:
            raise Violation("graph is cyclic or explodes")
        if any(m is n for m in onpath):
            raise Violation("graph has a cycle through %r" % (n,))
        p = pre + (fkey(n.frame),)
        res[id(n)].add(p)
        onpath.append(n)
        for c in n.children:
            go(c, p)
        onpath.pop()

    for r in graph.roots:
        go(r, ())
    res = {k: frozenset(v) for k, v in res.items()}
    if not allow_dup and len(set(res.values())) != len(res):
        raise Violation("two distinct nodes have the same call path(s): %s" % sorted(map(str, res.values())))
    return res


def wf_graph(graph, nids=True, parents=True):
    """Well-formedness of the graph object itself."""
    nodes = graph_nodes(graph)
    ids = {id(n) for n in nodes}
    for n in nodes:
        if len({id(c) for c in n.children}) != len(n.children):
            raise Violation("node %s lists a child twice" % n)
        if len({id(c) for c in n.parents}) != len(n.parents):
            raise Violation("node %s lists a parent twice" % n)
        if parents:
            for c in n.children:
                if not any(p is n for p in c.parents):
                    raise Violation("child %s of %s does not list it as a parent" % (c, n))
            for p in n.parents:
                if id(p) not in ids:
                    raise Violation("parent %s of %s is not in the graph" % (p, n))
                if not any(c is n for c in p.children):
                    raise Violation("parent %s of %s does not list it as a child" % (p, n))
    if len({id(r) for r in graph.roots}) != len(graph.roots):
        raise Violation("a root is listed twice")
    if nids:
        vals = [n._hatchet_nid for n in nodes]
        if len(set(vals)) != len(vals):
            raise Violation("two nodes of one graph share an id: %s" % vals)
    return nodes


def rows_of(df, key):
    """{(key[id(node)],)+rest: {col: value}} with duplicates and foreign nodes reported."""
    names = list(df.index.names)
    pos = names.index("node")
    out = {}
    cols = list(df.columns)
    if len(set(cols)) != len(cols):
        raise Violation("dataframe has duplicate columns: %s" % cols)
    vals = {c: df[c].tolist() for c in cols}
    for r, ix in enumerate(df.index.tolist()):
        ix = ix if isinstance(ix, tuple) and len(names) > 1 else (ix,)
        node = ix[pos]
        if id(node) not in key:
            raise Violation("dataframe row refers to a node that is not in the graph: %r" % (node,))
        k = (key[id(node)],) + tuple(clean(x) for i, x in enumerate(ix) if i != pos)
        if k in out:
            raise Violation("duplicate dataframe row for %s" % (k,))
        out[k] = {c: clean(vals[c][r]) for c in cols}
    return out


def edges_of(graph, key):
    return {(key[id(n)], key[id(c)]) for n in graph_nodes(graph) for c in n.children}


def snapshot(gf, deep=True):
    """Everything observable about a GraphFrame, with object identities for nodes (to detect any modification)."""
    nodes = graph_nodes(gf.graph)
    g = tuple(
        (id(n), n._hatchet_nid, n._depth, tuple(sorted((k, repr(v)) for k, v in n.frame.attrs.items())),
         tuple(id(c) for c in n.children), tuple(id(p) for p in n.parents))
        for n in nodes
    )
    df = gf.dataframe
    pos = list(df.index.names).index("node") if "node" in df.index.names else None
    rows = []
    for ix in df.index.tolist():
        ix = ix if isinstance(ix, tuple) and len(df.index.names) > 1 else (ix,)
        rows.append(tuple(id(x) if i == pos else repr(x) for i, x in enumerate(ix)))
    data = tuple((str(c), str(df[c].dtype), tuple(id(x) if isinstance(x, Node) else repr(clean(x)) for x in df[c].tolist()))
                 for c in df.columns)
    return (
        ("graph", id(gf.graph), tuple(id(r) for r in gf.graph.roots), gf.graph.node_ordering, g),
        ("df", tuple(df.index.names), tuple(rows), data),
        ("exc", tuple(map(str, gf.exc_metrics))), ("inc", tuple(map(str, gf.inc_metrics))),
        ("default", gf.default_metric), ("meta", repr(sorted(gf.metadata.items(), key=str))),
    )


def diff_snap(a, b):
    for x, y in zip(a, b):
        if x != y:
            if x[0] == "df" and x[3] != y[3]:
                return "dataframe contents %s -> %s" % (x[3], y[3])
            return "%s %s -> %s" % (x[0], x[1:], y[1:])
    return None
