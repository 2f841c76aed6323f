"""Reference models: boring, executable specifications over plain Python data.

An abstract graph is (n, edges, frames): node ids 0..n-1, a set of (parent, child) pairs, one hashable frame per node.
"""


class Cyclic(Exception):
    pass


def children_map(nodes, edges):
    ch = {v: [] for v in nodes}
    for a, b in edges:
        if b not in ch[a]:
            ch[a].append(b)
    return ch


def roots_of(nodes, edges):
    have = {b for _, b in edges}
    return [v for v in nodes if v not in have]


def reach(ch, v):
    """v and all its descendants (each once)."""
    seen, st = {v}, [v]
    while st:
        for c in ch[st.pop()]:
            if c not in seen:
                seen.add(c)
                st.append(c)
    return seen


def contract(nodes, edges, roots, keep):
    """Remove nodes not in `keep`, connecting each survivor to its nearest surviving descendants on every path."""
    ch = children_map(nodes, edges)

    def nearest(v):
        seen, st, res = set(), list(ch[v]), set()
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            if c in keep:
                res.add(c)
            else:
                st.extend(ch[c])
        return res

    new_edges = {(v, c) for v in nodes if v in keep for c in nearest(v)}
    new_roots = set()
    for r in roots:
        new_roots |= {r} if r in keep else nearest(r)
    return new_edges, new_roots


def merge_same_context(nodes, edges, roots, frame):
    """Coarsest-needed merge: roots with equal frames are one node; children of one node with equal frames are one node.

    Returns cls: node -> representative (congruence closure).
    """
    par = {v: v for v in nodes}

    def find(v):
        while par[v] != v:
            v = par[v]
        return v

    changed = True
    while changed:
        changed = False
        groups = {}
        for r in roots:
            groups.setdefault((None, frame[r]), set()).add(find(r))
        for a, b in edges:
            groups.setdefault((find(a), frame[b]), set()).add(find(b))
        for g in groups.values():
            g = sorted({find(v) for v in g})
            for v in g[1:]:
                par[v] = g[0]
                changed = True
    return {v: find(v) for v in nodes}


def quotient(nodes, edges, roots, cls):
    return ({cls[v] for v in nodes}, {(cls[a], cls[b]) for a, b in edges}, {cls[r] for r in roots})


def check_acyclic(nodes, edges):
    ch = children_map(nodes, edges)
    col = {}

    def go(v):
        col[v] = 1
        for c in ch[v]:
            if col.get(c) == 1:
                raise Cyclic()
            if c not in col:
                go(c)
        col[v] = 2

    for v in nodes:
        if v not in col:
            go(v)


def all_paths(nodes, edges, roots, frame):
    """node -> frozenset of root paths (tuples of frames)."""
    check_acyclic(nodes, edges)
    pa = {v: [] for v in nodes}
    for a, b in set(edges):
        pa[b].append(a)
    memo = {}

    def go(v):
        if v not in memo:
            s = {(frame[v],)} if v in roots else set()
            for p in pa[v]:
                s |= {q + (frame[v],) for q in go(p)}
            memo[v] = frozenset(s)
        return memo[v]

    return {v: go(v) for v in nodes}


def nsum(vals):
    """Sum that ignores missing values; all-missing gives missing (None)."""
    vals = [v for v in vals if v is not None]
    return sum(vals) if vals else None


def union(ga, gb):
    """Union of two graphs (n, edges, frames): merge nodes with identical context, keep every edge.

    Returns (nodes, edges, roots, frame, cls): nodes are ('a', i) / ('b', j); cls maps them to representatives.
    The k-th sibling with a given frame corresponds to the k-th one with that frame in the other graph.
    """
    nodes, edges, frame, roots, kids = [], set(), {}, [], {}
    for tag, (n, e, f) in (("a", ga), ("b", gb)):
        for i in range(n):
            nodes.append((tag, i))
            frame[tag, i] = f[i]
            kids[tag, i] = []
        for x, y in e:
            edges.add(((tag, x), (tag, y)))
            kids[tag, x].append((tag, y))
        roots.append([(tag, i) for i in roots_of(range(n), e)])
    par = {v: v for v in nodes}

    def find(v):
        while par[v] != v:
            v = par[v]
        return v

    def slots(lst):
        cnt, out = {}, []
        for v in lst:
            k = cnt.get(frame[v], 0)
            cnt[frame[v]] = k + 1
            out.append(((frame[v], k), v))
        return out

    changed = True
    while changed:
        changed = False
        at = {}
        for lst in roots:
            for s, v in slots(lst):
                at.setdefault((None, s), []).append(v)
        for v in nodes:
            for s, c in slots(kids[v]):
                at.setdefault((find(v), s), []).append(c)
        for g in at.values():
            g = sorted({find(v) for v in g})
            for v in g[1:]:
                par[v] = g[0]
                changed = True
    cls = {v: find(v) for v in nodes}
    qn, qe, qr = quotient(nodes, edges, roots[0] + roots[1], cls)
    return qn, qe, qr, frame, cls
