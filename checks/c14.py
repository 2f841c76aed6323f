"""C14: traversals, numbering, depths, paths and construction from lists, for every small graph and child-list order."""
import itertools

import pandas as pd

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import Addr, Frame, Graph, GraphFrame, Node, clean, fkey, fr, graph_nodes, make_nodes, wf_graph, path_keys
from hatchet.node import MultiplePathError

PROPERTY = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = ["siblings (or roots) with equal frames are visited in the order of the list that holds them"]


def build(n, edges, names, order, addr=None):
    """order: how the edges are inserted (children lists end up in that order)."""
    if order == "desc":
        edges = edges[::-1]
    elif order == "zig":
        edges = edges[1::2] + edges[::2]
    Addr.start(addr, n)
    nodes = make_nodes(edges, names)
    Addr.stop()
    have = {b for _, b in edges}
    roots = [nodes[i] for i in range(n) if i not in have]
    if order == "desc":
        roots.reverse()
    elif order == "zig":
        roots = roots[1:] + roots[:1]
    idx = {id(x): i for i, x in enumerate(nodes)}
    return Graph(roots), nodes, edges, [idx[id(r)] for r in roots]


def model_order(n, edges, key, post, roots=None):
    ch = {v: sorted([b for a, b in edges if a == v], key=key) for v in range(n)}
    roots = sorted(ref.roots_of(range(n), edges) if roots is None else roots, key=key)
    out, seen, count = [], set(), {}

    def go(v):
        count[v] = count.get(v, 0) + 1
        if v in seen:
            return
        seen.add(v)
        if not post:
            out.append(v)
        for c in ch[v]:
            go(c)
        if post:
            out.append(v)

    for r in roots:
        go(r)
    return out, count


def all_root_paths(n, edges):
    par = {v: [a for a, b in edges if b == v] for v in range(n)}

    def up(v):
        return [(v,)] if not par[v] else [p + (v,) for q in par[v] for p in up(q)]

    return {v: up(v) for v in range(n)}


def check_depth(nodes, n, edges, paths):
    for v in range(n):
        if nodes[v]._depth not in {len(p) - 1 for p in paths[v]}:
            raise Violation("depth of node %d is %s, its call paths have lengths %s" % (v, nodes[v]._depth, sorted(len(p) for p in paths[v])))


def run(case, rec):
    n, edges, names, order, addr = case
    given = [tuple(e) for e in edges]
    g, nodes, edges, roots = build(n, given, names, order, addr)
    idx = {id(x): i for i, x in enumerate(nodes)}
    name = lambda v: names[v]
    pre, count = model_order(n, edges, name, False, roots)
    post, _ = model_order(n, edges, name, True, roots)

    def seq(it):
        try:
            return [idx[id(x)] for x in it]
        except KeyError:
            raise Violation("traversal yields an object that is not a node of the graph")

    def same(what, got, want):
        if got != want:
            raise Violation("%s visits %s, expected %s" % (what, got, want))

    same("preorder", seq(g.traverse()), pre)
    same("preorder", seq(g.traverse(order="pre")), pre)
    got = seq(g.traverse(order="post"))
    same("postorder", got, post)
    pos = {v: i for i, v in enumerate(got)}
    for a, b in edges:
        if pos[b] > pos[a]:
            raise Violation("postorder visits node %d before its child %d" % (a, b))
    visited = {}
    list(g.traverse(visited=visited))
    if {idx[k]: v for k, v in visited.items()} != count:
        raise Violation("visit counts %s, expected in-degrees %s" % ({idx[k]: v for k, v in visited.items()}, count))
    if list(g.traverse(visited=dict(visited))):
        raise Violation("a traversal visits nodes that are in visited")
    if True:
        if list(g.traverse(attrs="name")) != [names[v] for v in pre]:
            raise Violation("traverse(attrs='name') gives %s" % list(g.traverse(attrs="name")))
        if list(g.traverse(attrs=["name", "type", "nope"])) != [(names[v], "function", None) for v in pre]:
            raise Violation("traverse(attrs=[..]) gives %s" % list(g.traverse(attrs=["name", "type", "nope"])))
    for v in range(n):  # traversal from an inner node
        w, _ = model_order(n, edges, name, False, roots=[v])
        same("traverse from node %d" % v, seq(nodes[v].traverse()), w)
        w, _ = model_order(n, edges, name, True, roots=[v])
        same("post traverse from node %d" % v, seq(nodes[v].traverse(order="post")), w)
    rec.op(2 + 2 * n)
    if len(g) != n:
        raise Violation("len(graph) is %d, it has %d nodes" % (len(g), n))
    tree = len(roots) == 1 and len(edges) == n - 1
    if bool(g.is_tree()) != tree:
        raise Violation("is_tree() is %s" % g.is_tree())
    for bad in ("in", None):
        try:
            list(g.traverse(order=bad))
        except ValueError:
            pass
        else:
            raise Violation("traverse(order=%r) is accepted" % bad)
    # numbering
    paths = all_root_paths(n, edges)
    for rep in range(2):
        g.enumerate_traverse()
        nids = [x._hatchet_nid for x in nodes]
        if sorted(nids) != list(range(n)):
            raise Violation("node ids after enumeration: %s" % nids)
        if [nids[v] for v in pre] != list(range(n)):
            raise Violation("node ids do not follow the preorder: %s for %s" % (nids, pre))
        if seq(sorted(nodes)) != seq(g.traverse()) or seq(sorted(nodes, reverse=True)) != seq(g.traverse())[::-1]:
            raise Violation("sorting nodes does not give the traversal order")
        check_depth(nodes, n, edges, paths)
    rec.op(2)
    # ids that the nodes have before (given by a reader)
    for preset in ("preorder", "reversed", "equal", "last missing"):
        g2, nodes2, _, _ = build(n, given, names, order, addr)
        for i, v in enumerate(pre):
            nodes2[v]._hatchet_nid = {"preorder": i, "reversed": n - 1 - i, "equal": 0, "last missing": i if i < n - 1 else -1}[preset]
        g2.enumerate_traverse()
        nids = [x._hatchet_nid for x in nodes2]
        if [nids[v] for v in pre] != list(range(n)):
            raise Violation("node ids do not follow the preorder: %s for %s (ids before: %s)" % (nids, pre, preset))
        check_depth(nodes2, n, edges, paths)
    rec.op(4)
    # paths
    for v in range(n):
        got = [tuple(idx[id(x)] for x in p) for p in nodes[v].paths()]
        if sorted(got) != sorted(paths[v]):
            raise Violation("paths of node %d: %s, expected %s" % (v, got, paths[v]))
        try:
            one = tuple(idx[id(x)] for x in nodes[v].path())
            if len(paths[v]) != 1 or one != paths[v][0]:
                raise Violation("path() of node %d is %s; its paths are %s" % (v, one, paths[v]))
        except MultiplePathError:
            if len(paths[v]) == 1:
                raise Violation("path() of node %d raises MultiplePathError although it is unique" % v)
    wf_graph(g)
    rec.state(tuple(edges), tuple(names), order)
    rec.outcome("tree" if tree else "dag")


def run_ordering(case, rec):
    """node_ordering: traversal and numbering follow the given node order instead of the frames."""
    n, edges, perm, order = case
    edges = [tuple(e) for e in edges]
    g, nodes, edges, roots = build(n, edges, ["n"] * n, order)
    idx = {id(x): i for i, x in enumerate(nodes)}
    for i, x in enumerate(nodes):
        x._hatchet_nid = 10 + 3 * perm[i]
    g.node_ordering = True
    pre, count = model_order(n, edges, lambda v: perm[v], False)
    post, _ = model_order(n, edges, lambda v: perm[v], True)
    if [idx[id(x)] for x in g.node_order_traverse()] != pre:
        raise Violation("node order traversal %s, expected %s" % ([idx[id(x)] for x in g.node_order_traverse()], pre))
    if [idx[id(x)] for x in g.node_order_traverse(order="post")] != post:
        raise Violation("node order postorder differs")
    visited = {}
    list(g.node_order_traverse(visited=visited))
    if {idx[k]: v for k, v in visited.items()} != count:
        raise Violation("visit counts in node order %s, expected in-degrees %s" % ({idx[k]: v for k, v in visited.items()}, count))
    if list(g.node_order_traverse(visited=dict(visited))):
        raise Violation("a traversal in node order visits nodes that are in visited")
    if list(g.node_order_traverse(attrs=["name", "type", "nope"])) != [("n", "function", None)] * n:
        raise Violation("node_order_traverse(attrs=[..]) gives %s" % list(g.node_order_traverse(attrs=["name", "type", "nope"])))
    for v in range(n):
        w, _ = model_order(n, edges, lambda v: perm[v], False, roots=[v])
        if [idx[id(x)] for x in nodes[v].node_order_traverse()] != w:
            raise Violation("node order traversal from node %d: expected %s" % (v, w))
    for bad in ("in", None):
        try:
            list(g.node_order_traverse(order=bad))
        except ValueError:
            pass
        else:
            raise Violation("node_order_traverse(order=%r) is accepted" % bad)
    rec.op(4 + n)
    for rep in range(2):
        g.enumerate_traverse()
        if [x._hatchet_nid for x in nodes] != [pre.index(v) for v in range(n)]:
            raise Violation("ids after enumerating in node order: %s, expected %s" % ([x._hatchet_nid for x in nodes], [pre.index(v) for v in range(n)]))
    check_depth(nodes, n, edges, all_root_paths(n, edges))
    m = {}
    c = g.copy(m)
    back = {id(m[x]): idx[id(x)] for x in nodes}
    if not c.node_ordering or [back[id(x)] for x in c.node_order_traverse()] != pre or [m[x]._hatchet_nid for x in nodes] != [pre.index(v) for v in range(n)]:
        raise Violation("a copy of a node-ordered graph has the order %s with ids %s, the original %s" % (
            [back[id(x)] for x in c.node_order_traverse()], [m[x]._hatchet_nid for x in nodes], pre))
    rec.op(3)
    rec.state(tuple(edges), tuple(perm))


def run_ordered_ops(case, rec):
    """Operations on profiles with a node order keep it: the order of siblings, and of the rows, is that of the original ids."""
    n, edges, names, perm, keep, op = case
    edges = [tuple(e) for e in edges]
    g, nodes, _, _ = build(n, edges, names, "asc")
    for i, x in enumerate(nodes):
        x._hatchet_nid = perm[i]
    g.node_ordering = True
    g.enumerate_traverse()
    nid = [x._hatchet_nid for x in nodes]
    df = pd.DataFrame({"node": nodes, "name": names, "time": [float(1 << v) for v in range(n)], "keep": [v in keep for v in range(n)]})
    gf = GraphFrame(g, df.set_index("node").sort_index(), ["time"], [])
    if op == "filter":
        out = gf.filter(lambda r: r["keep"], num_procs=1)
    elif op == "filter,squash":
        out = gf.filter(lambda r: r["keep"], squash=False, num_procs=1).squash()
    elif op == "deepcopy,filter":
        out = gf.deepcopy().filter(lambda r: r["keep"], num_procs=1)
    elif op == "filter,deepcopy":
        out = gf.filter(lambda r: r["keep"], num_procs=1).deepcopy()
    rec.op()
    par = {b: a for a, b in edges}

    def up(v):
        while v in par:
            v = par[v]
            if v in keep:
                return v

    # nearest surviving descendants, siblings with equal names merged
    def expect(group):
        kids = {}
        for v in keep:
            if (up(v) in group) if group else up(v) is None:
                kids.setdefault(names[v], []).append(v)
        for k in sorted(kids.values(), key=lambda vs: min(nid[v] for v in vs)):
            yield k
            yield from expect(k)

    want = [(names[vs[0]], sum(float(1 << v) for v in vs)) for vs in expect([])]
    order = list(out.graph.node_order_traverse())
    rows = list(zip(out.dataframe["name"], out.dataframe["time"]))
    got = [(x.frame["name"], out.dataframe.loc[x, "time"]) for x in order]
    if not out.graph.node_ordering or got != want or rows != want or [x._hatchet_nid for x in order] != list(range(len(want))):
        raise Violation("%s of a node-ordered profile %s: nodes %s, rows %s, ids %s, expected %s" % (
            op, case, got, rows, [x._hatchet_nid for x in order], want))
    rec.state(case)
    rec.outcome(op)


def run_lists(case, rec):
    """from_lists builds exactly the described graph; shared nodes are given as Node objects."""
    n, edges, names, style = case
    edges = [tuple(e) for e in edges]
    ch = {v: [b for a, b in edges if a == v] for v in range(n)}
    indeg = {v: sum(b == v for _, b in edges) for v in range(n)}
    pre = {v: Node(Frame(name=names[v])) for v in range(n) if indeg[v] > 1 or style == "nodes"}
    described = set()

    def spec(v):
        head = pre.get(v, names[v])
        first = v not in described
        described.add(v)
        if not first:
            return head
        if not ch[v] and style != "lists":
            return head
        r = [head] + [spec(c) for c in ch[v]]
        return tuple(r) if style == "tuples" else r

    specs = [spec(r) for r in range(n) if not indeg[r]]
    specs = [s if isinstance(s, (list, tuple)) else [s] for s in specs]
    use_gf = style in ("lists", "mixed")
    out = GraphFrame.from_lists(*specs) if use_gf else Graph.from_lists(*specs)
    g = out.graph if use_gf else out
    rec.op()
    wf_graph(g)
    got = graph_nodes(g)
    if len(got) != n:
        raise Violation("from_lists built %d nodes, the lists describe %d" % (len(got), n))
    name2 = {i: x for i, x in ((id(x), x.frame["name"]) for x in got)}
    if sorted(name2.values()) != sorted(names):
        raise Violation("from_lists: names %s" % sorted(name2.values()))
    by = {x.frame["name"]: x for x in got}
    e2 = {(x.frame["name"], c.frame["name"]) for x in got for c in x.children}
    if e2 != {(names[a], names[b]) for a, b in edges}:
        raise Violation("from_lists: edges %s, expected %s" % (sorted(e2), sorted((names[a], names[b]) for a, b in edges)))
    for v in range(n):
        if [c.frame["name"] for c in by[names[v]].children] != [names[c] for c in ch[v]]:
            raise Violation("from_lists does not keep the order of the list in the children of %s" % names[v])
        if v in pre and by[names[v]] is not pre[v]:
            raise Violation("from_lists replaced the given node %s" % names[v])
    if sorted(r.frame["name"] for r in g.roots) != sorted(names[v] for v in range(n) if not indeg[v]):
        raise Violation("from_lists: roots")
    order, _ = model_order(n, edges, lambda v: names[v], False)
    if [by[names[v]]._hatchet_nid for v in order] != list(range(n)):
        raise Violation("from_lists does not number the nodes in preorder")
    if use_gf:
        df = out.dataframe
        if [id(x) for x in df.index] != [id(by[names[v]]) for v in order]:
            raise Violation("from_lists dataframe rows are not the nodes in order")
        for v in range(n):
            r = df.loc[by[names[v]]]
            if r["name"] != names[v] or r["time"] != 1 or r["time (inc)"] != len(ref.reach(ch, v)):
                raise Violation("from_lists row of %s: %s" % (names[v], dict(r)))
        if out.exc_metrics != ["time"] or out.inc_metrics != ["time (inc)"]:
            raise Violation("from_lists metric lists %s %s" % (out.exc_metrics, out.inc_metrics))
    rec.state(tuple(edges), tuple(names), style)
    rec.outcome(style)


VALS = ("", "a", "b", "ab")


def run_frames(case, rec):
    """Frame identity: equal iff same attributes; equality, hash and order agree; order is total."""
    A, B, C = case
    fs = [Frame(dict(x)) for x in (A, B, C)]
    ks = [fkey(f) for f in fs]
    for x, kx in zip(fs, ks):
        if dict(x.attrs).get("type") is None:
            raise Violation("frame without type: %s" % x)
        y = x.copy()
        if y != x or y.attrs is x.attrs or fkey(y) != kx:
            raise Violation("copy of frame %s is %s" % (x, y))
    for x, kx in zip(fs, ks):
        for y, ky in zip(fs, ks):
            if (x == y) != (kx == ky) or (x != y) != (kx != ky):
                raise Violation("frame equality of %s and %s" % (x, y))
            if x == y and hash(x) != hash(y):
                raise Violation("equal frames %s with different hashes" % x)
            if (x < y) + (x > y) + (x == y) != 1 or (x <= y) != (not x > y) or (x >= y) != (not x < y) or (x < y) != (y > x):
                raise Violation("order of frames %s and %s is not total" % (x, y))
            rec.op()
    a, b, c = fs
    if a < b and b < c and not a < c:
        raise Violation("frame order is not transitive on %s %s %s" % (a, b, c))
    if a == b and b == c and a != c:
        raise Violation("frame equality is not transitive")
    rec.state(*sorted(ks))


def run_terms(case, rec):
    """from_lists for any nested argument: either it describes a graph, or it raises ValueError."""
    which, terms = case

    def build_term(t):
        return [build_term(x) for x in t] if isinstance(t, list) else Node(Frame(name=t[1:])) if isinstance(t, str) and t[:1] == "@" else t

    def valid(t, top=False):
        if isinstance(t, list):
            return bool(t) and isinstance(t[0], str) and all(valid(x) for x in t[1:])
        return isinstance(t, str)

    def model(t):
        name = (t[0] if isinstance(t, list) else t).lstrip("@")
        return (name, [model(x) for x in t[1:]] if isinstance(t, list) else [])

    def seen(n):
        return (n.frame["name"], [seen(c) for c in n.children])

    good = all(valid(t) and (which == "node" or isinstance(t, list)) for t in terms)
    args = [build_term(t) for t in terms]
    f = {"node": Node.from_lists, "graph": Graph.from_lists, "gf": GraphFrame.from_lists}[which]
    try:
        out = f(*args)
    except ValueError:
        if good:
            raise Violation("from_lists(%s) of %s raised ValueError" % (terms, which))
        rec.outcome("refused")
        out = None
    except Exception as e:
        raise Violation("from_lists(%s) of %s raised %r instead of ValueError" % (terms, which, e))
    else:
        if not good:
            raise Violation("from_lists(%s) of %s was accepted" % (terms, which))
        roots = [out] if which == "node" else out.roots if which == "graph" else out.graph.roots
        if [seen(r) for r in roots] != [model(t) for t in terms]:
            raise Violation("from_lists(%s) of %s built %s" % (terms, which, [seen(r) for r in roots]))
        rec.outcome("built")
    rec.op()
    rec.state(which, terms)


def run_frame_forms(case, rec):
    """All ways to give a frame's attributes: positional dictionary, keywords or both."""
    attrs, kw, order = case
    given = None if attrs is None else dict(reversed(list(attrs.items()))) if order else dict(attrs)
    kept = None if given is None else dict(given)
    want = dict(attrs or {})
    want.update(kw)
    try:
        f = Frame(given, **kw) if given is not None else Frame(**kw)
    except ValueError:
        if want:
            raise Violation("Frame(%s, **%s) raised ValueError" % (attrs, kw))
        rec.outcome("refused")
        return
    if not want:
        raise Violation("a frame without attributes was accepted")
    rec.op()
    want.setdefault("type", "None")
    if f.attrs != want or f != Frame(dict(want)) or hash(f) != hash(Frame(dict(want))):
        raise Violation("Frame(%s, **%s) has attributes %s" % (attrs, kw, f.attrs))
    if given != kept:
        raise Violation("Frame(%s, **%s) changed the dictionary it was given to %s" % (kept, kw, given))
    if given is not None:
        given["name"] = "changed"
        given["new"] = "x"
    twin = Frame(dict(sorted(want.items(), reverse=True)))
    if f.attrs != want or f != twin or str(f) != str(twin) or repr(f) != repr(twin) or f.tuple_repr != twin.tuple_repr:
        raise Violation("frame %s differs from its twin %s (the dictionary given was changed afterwards)" % (f, twin))
    if repr(Node(f)) != repr(Node(twin)) or str(Node(f)) != str(Node(twin)):
        raise Violation("the text of a node depends on the order of its attributes")
    names = list(want) + ["absent"]
    for k in names:
        if f.get(k) != want.get(k) or f.get(k, 5) != want.get(k, 5) or f.values(k) != want.get(k):
            raise Violation("get/values of %s in %s" % (k, f))
        try:
            if f[k] != want[k]:
                raise Violation("%s of %s is %s" % (k, f, f[k]))
        except KeyError:
            if k in want:
                raise Violation("%s of %s raised KeyError" % (k, f))
    for r in range(len(names) + 1):
        for c in itertools.permutations(names, min(r, 3)):
            if f.values(list(c)) != tuple(want.get(k) for k in c) or f.values(c) != tuple(want.get(k) for k in c):
                raise Violation("values(%s) of %s is %s" % (c, f, f.values(list(c))))
    n = Node(f)
    if list(n.traverse(attrs=names)) != [tuple(want.get(k) for k in names)] or list(n.traverse(attrs="name")) != [want.get("name")]:
        raise Violation("traverse(attrs) of %s" % f)
    rec.state(want)
    rec.outcome("made")


def spaces(tier):
    th = tier == "thorough"
    N = 5

    def shapes(n, kind="dag"):
        for e, _ in gen.labelled(n, 1, kind):
            yield e

    def distinct():
        for n in range(1, N + 1):
            for e in shapes(n):
                for names in itertools.permutations("abcde"[:n]):
                    for order in ("asc", "desc", "zig") if n < 5 or th else ("desc",):
                        yield [n, e, names, order, None]
        if th:
            for e in shapes(6):
                for names in ("abcdef", "fedcba", "cebadf", "badecf"):
                    yield [6, e, list(names), "zig", None]

    def equal():
        for n in range(2, N + 1):
            for e, lab in gen.labelled(n, 2, "dag"):
                for addr in ("asc", "desc"):
                    yield [n, e, ["ab"[x] for x in lab], "desc" if n > 4 else "zig", addr]

    def ordering():
        for n in range(1, N + 1):
            for e in shapes(n):
                for perm in itertools.permutations(range(n)):
                    yield [n, e, perm, "asc"]

    def ordered_ops():
        for n in range(2, N + 1):
            for e, lab in gen.labelled(n, 3, "forest"):
                if n == 5 and max(lab) < 1 or n == 5 and lab[0] != 0:
                    continue
                par = {b: a for a, b in e}
                kids = [[b for b in range(n) if par.get(b) == a] for a in [None] + list(range(n))]
                if any(len({lab[k] for k in ks}) < len(ks) for ks in kids):
                    continue
                for perm in itertools.permutations(range(n)):
                    # one permutation per order of the siblings
                    if any(perm[b] < perm[a] for a, b in e) or n == 5 and not th and perm[1:] != tuple(sorted(perm[1:], reverse=True)):
                        continue
                    for bits in range(1, 1 << n):
                        keep = [v for v in range(n) if bits >> v & 1]
                        for op in ("filter", "filter,squash", "deepcopy,filter", "filter,deepcopy") if n < 4 else ("filter",):
                            yield [n, e, ["abc"[x] for x in lab], perm, keep, op]

    def lists():
        for n in range(1, N + 1):
            for e in shapes(n):
                for names in itertools.permutations("abcde"[:n]):
                    for style in ("plain", "lists", "nodes", "mixed", "tuples") if n < 5 else ("mixed",):
                        yield [n, e, names, style]

    def frames():
        keys = ("name", "type", "file")
        fs = [{k: v for k, v in zip(keys, t) if v is not None} for t in itertools.product((None, "a", "b"), repeat=3)]
        fs = [f for f in fs if f]
        for t in itertools.product(fs, repeat=3):
            yield list(t)
        fs = [{k: v for k, v in zip(("name", "line", "file"), t) if v is not None} for t in itertools.product((None, "", "a"), (None, 0, 3), (None, "", "a"))]
        fs = [f for f in fs if f]
        for t in itertools.product(fs, repeat=3):
            yield list(t)

    def terms():
        leaves = ["a", "@b", 1, None, []]
        level1 = leaves + [[x] for x in leaves] + [[x, y] for x in leaves for y in leaves]
        level2 = level1 + [[x, y] for x in ("a", "@c", 1, ["a"]) for y in level1] + [["a", x, y] for x in level1 for y in leaves[:3] + [["d", "e"], [2]]]
        for t in level2:
            for which in ("node", "graph", "gf"):
                yield [which, [t]]
        for t in itertools.product(level1[:12], repeat=2):
            for which in ("graph", "gf"):
                yield [which, list(t)]
        for t in itertools.product((["a"], ["@b", "c"], "a", 1, ()), repeat=3):
            yield ["graph", [list(x) if isinstance(x, tuple) else x for x in t]]

    def frame_forms():
        part = [{}] + [dict(zip(ks, vs)) for r in (1, 2, 3) for ks in itertools.combinations(("name", "type", "line"), r)
                       for vs in itertools.product(("a", "b"), repeat=r)]
        for a in [None] + part:
            for kw in part:
                for order in (False, True) if a and len(a) > 1 else (False,):
                    yield [a, kw, order]

    return [
        Space("lists-arguments", terms, run_terms, "from_lists of Node, Graph, GraphFrame with every nesting of depth <=3 over names, nodes and unusable values"),
        Space("frame-forms", frame_forms, run_frame_forms, "every choice of 3 attributes given by dictionary, keywords or both; texts, lookups, later changes of the dictionary"),
        Space("traverse", distinct, run, "all DAGs <=%d nodes x every assignment of distinct frames x up to 3 insertion orders" % N),
        Space("equal-frames", equal, run, "all DAGs <=%d nodes over 2 frames (equal siblings) x 2 address orders" % N),
        Space("node-order", ordering, run_ordering, "all DAGs <=%d nodes x every node order" % N),
        Space("node-order-ops", ordered_ops, run_ordered_ops, "filter, squash, deepcopy of node-ordered forests <=%d nodes over 3 names: every order and every set of kept nodes" % N),
        Space("from-lists", lists, run_lists, "all DAGs <=%d nodes x every name assignment x 5 ways of writing the lists" % N),
        Space("frames", frames, run_frames, "all triples of frames over 3 attributes with 2 values (0 and empty ones included) or absent"),
    ]
