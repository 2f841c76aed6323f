"""Deterministic exhaustive enumerators (simplest first)."""
import functools
import itertools


def _pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


@functools.lru_cache(None)
def dags(n):
    """All DAGs on n nodes up to isomorphism: list of (edges, automorphisms). Edges go from lower to higher index."""
    prs = _pairs(n)
    perms = list(itertools.permutations(range(n)))
    seen = set()
    out = []
    for mask in range(1 << len(prs)):
        e = [prs[k] for k in range(len(prs)) if mask >> k & 1]
        es = frozenset(e)
        if es in seen:
            continue
        auts = []
        for p in perms:
            f = frozenset((p[a], p[b]) for a, b in e)
            if all(a < b for a, b in f):
                seen.add(f)
            if f == es:
                auts.append(p)
        out.append((tuple(e), tuple(auts)))
    out.sort(key=lambda t: (len(t[0]), t[0]))
    return out


@functools.lru_cache(None)
def labelled(n, k, kind="dag", connected=False):
    """DAGs (or forests) on n nodes with labels 0..k-1, up to isomorphism (labels not permuted).

    Returns tuples (edges, labels).
    """
    res = []
    for e, auts in dags(n):
        indeg = [0] * n
        for a, b in e:
            indeg[b] += 1
        if kind == "forest" and any(d > 1 for d in indeg):
            continue
        if kind == "tree" and (any(d > 1 for d in indeg) or sum(d == 0 for d in indeg) != 1):
            continue
        if kind == "rooted" and sum(d == 0 for d in indeg) != 1:
            continue
        for lab in itertools.product(range(k), repeat=n):
            if all(lab <= tuple(lab[p[i]] for i in range(n)) for p in auts):
                res.append((e, lab))
    return res


def restricted_growth(n, k):
    """Label strings up to renaming of labels (first occurrences in order)."""
    def rec(pre, m):
        if len(pre) == n:
            yield tuple(pre)
            return
        for v in range(min(m + 1, k)):
            yield from rec(pre + [v], max(m, v + 1))

    return list(rec([], 0))


def subsets(items, nonempty=True):
    items = list(items)
    for r in range(1 if nonempty else 0, len(items) + 1):
        for c in itertools.combinations(items, r):
            yield c
