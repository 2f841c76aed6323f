"""C08: a call-path query selects exactly the nodes on downward paths that match the pattern (oracle: Python's re)."""
import itertools
import re
import warnings

import numpy as np

from mc import gen
from mc.core import Space, Violation
from mc.hx import Addr, GraphFrame, graph_nodes, make_gf, snapshot, diff_snap
from hatchet.query import InvalidQueryPath, ObjectQuery, Query, QueryEngine, QueryMatcher
from hatchet.graphframe import EmptyFilter

PROPERTY = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = ["patterns do not start with a repetition of 0", "every node has a dataframe row"]
warnings.simplefilter("ignore", DeprecationWarning)
PREDS = {"a": lambda row: row["name"] == "a", "b": lambda row: row["name"] == "b", "*": lambda row: True,
         "0": lambda row: False}
CLS = {"a": "a", "b": "b", "*": "[ab]", "0": "[^ab]"}
OBJ = {"a": {"name": "a"}, "b": {"name": "b"}, "*": {}, "0": {"name": "zzz"}}


def regex(pattern):
    out = ""
    for q, p in pattern:
        out += CLS[p] + ({".": "", "*": "*", "+": "+"}[q] if isinstance(q, str) else "{%d}" % q)
    return re.compile(out)


def paths_down(n, edges):
    ch = [[] for _ in range(n)]
    for a, b in edges:
        ch[a].append(b)
    res = []

    def go(v, pre):
        p = pre + (v,)
        res.append(p)
        for c in ch[v]:
            go(c, p)
    for v in range(n):
        go(v, ())
    return res


def expected(n, edges, labels, pattern):
    rx = regex(pattern)
    sel = set()
    for p in paths_down(n, edges):
        if rx.fullmatch("".join("ab"[labels[v]] for v in p)):
            sel.update(p)
    return sel


def query_of(pattern, style):
    if style == "object":
        return ObjectQuery([(q, OBJ[p]) for q, p in pattern])
    if style == "short":  # a bare quantifier or a bare predicate where possible
        return ObjectQuery([q if p == "*" else (OBJ[p] if q == "." else (q, OBJ[p])) for q, p in pattern])
    if style == "wide":
        return ObjectQuery([(q, OBJ[p]) for q, p in pattern])
    qu = QueryMatcher() if style == "matcher" else None
    for i, (q, p) in enumerate(pattern):
        pred = truthy(PREDS[p], style) if style.startswith("truthy") else PREDS[p]
        if i == 0:
            qu = (qu or Query()).match(q, pred)
        else:
            qu = (qu.relation if i % 2 and style.startswith("truthy") else qu.rel)(q, pred)
    return qu


def truthy(pred, style):
    """Predicates may return anything with a truth value, as comparisons of numpy values do."""
    yes, no = {"truthy-numpy": (np.bool_(True), np.bool_(False)), "truthy-int": (2, 0), "truthy-other": ("x", None),
               "truthy-list": ([0], [])}[style]
    return lambda row: yes if pred(row) else no


CACHE = {}


def gf_of(n, edges, labels):
    k = (n, edges, labels)
    if k not in CACHE:
        if len(CACHE) > 60:
            CACHE.clear()
        rows = [(v, (), {"time": float(1 << v)}) for v in range(n)]
        CACHE[k] = make_gf(edges, ["ab"[x] for x in labels], rows, inc=())
    return CACHE[k]


def check(gf, nodes, n, edges, labels, pattern, style, rec, engine=None):
    want = expected(n, edges, labels, pattern)
    query = query_of(pattern, style)
    res = query.apply(gf) if style == "matcher" else (engine or QueryEngine()).apply(query, gf.graph, gf.dataframe)
    ix = {id(x): i for i, x in enumerate(nodes)}
    if any(id(x) not in ix for x in res):
        raise Violation("query result contains an object that is not a node of the graph")
    got = [ix[id(x)] for x in res]
    if len(set(got)) != len(got):
        raise Violation("query result contains a node twice: %s" % got)
    if set(got) != want:
        raise Violation("pattern %s on edges %s labels %s selects %s, expected %s"
                        % (pattern, edges, ["ab"[x] for x in labels], sorted(got), sorted(want)))
    rec.op()
    return want


def run(case, rec):
    n, edges, labels, patterns, style = case
    edges = tuple(tuple(e) for e in edges)
    labels = tuple(labels)
    gf, nodes = gf_of(n, edges, labels)
    for pattern in (PAT[patterns] if isinstance(patterns, str) else [patterns]):
        pattern = tuple(tuple(p) for p in pattern)
        want = check(gf, nodes, n, edges, labels, pattern, style, rec)
        rec.state(n, edges, labels, pattern)
        rec.outcome("selects %d of %d" % (len(want), n))


def run_filter(case, rec):
    """The same through GraphFrame.filter: rows kept, nothing else changed."""
    n, edges, labels, pattern, squash = case
    edges = tuple(tuple(e) for e in edges)
    labels = tuple(labels)
    pattern = tuple(tuple(p) for p in pattern)
    gf, nodes = gf_of(n, edges, labels)
    before = snapshot(gf)
    want = expected(n, edges, labels, pattern)
    for arg in ([(q, OBJ[p]) for q, p in pattern], query_of(pattern, "base")):
        try:
            res = gf.filter(arg, squash=squash)
        except EmptyFilter:
            if want:
                raise Violation("filter raised EmptyFilter, expected nodes %s" % sorted(want))
            rec.outcome("empty")
        else:
            if not want:
                raise Violation("filter of a query without matches did not raise EmptyFilter")
            if squash:
                if sum(res.dataframe["time"]) != sum(1 << v for v in want):
                    raise Violation("filter+squash keeps time %s, expected nodes %s" % (list(res.dataframe["time"]), sorted(want)))
            else:
                ix = {id(x): i for i, x in enumerate(nodes)}
                got = [ix.get(id(x)) for x in res.dataframe.index]
                if sorted(map(str, got)) != sorted(map(str, want)):
                    raise Violation("filter keeps rows of %s, expected %s" % (got, sorted(want)))
                if res.graph is not gf.graph:
                    raise Violation("filter without squash replaced the graph")
            rec.outcome("kept %d" % len(want))
        rec.op()
        d = diff_snap(before, snapshot(gf))
        if d:
            raise Violation("filter by a query modified the graphframe: " + d)
    rec.state(n, edges, labels, pattern, squash)


def run_reuse(case, rec):
    """One engine (and one query object), several graphs in sequence: no state is carried over."""
    steps = case
    eng = QueryEngine()
    qs = {}
    for (n, edges, labels), pattern in steps:
        edges = tuple(tuple(e) for e in edges)
        pattern = tuple(tuple(p) for p in pattern)
        gf, nodes = gf_of(n, edges, tuple(labels))
        if pattern not in qs:
            qs[pattern] = query_of(pattern, "base")
        want = expected(n, edges, labels, pattern)
        res = eng.apply(qs[pattern], gf.graph, gf.dataframe)
        ix = {id(x): i for i, x in enumerate(nodes)}
        got = {ix.get(id(x)) for x in res}
        if got != want:
            raise Violation("reused engine: pattern %s on %s selects %s, expected %s" % (pattern, edges, sorted(map(str, got)), sorted(want)))
        rec.op()
        rec.state(n, edges, labels, pattern)


def run_builder(case, rec):
    """Every sequence of match / rel / relation calls on one query object: match starts over, the others extend."""
    n, edges, labels, calls = case
    edges = tuple(tuple(e) for e in edges)
    labels = tuple(labels)
    gf, nodes = gf_of(n, edges, labels)
    ix = {id(x): i for i, x in enumerate(nodes)}
    qu, model = Query(), []
    for meth, q, p in calls:
        try:
            r = getattr(qu, meth)(q, PREDS[p])
        except InvalidQueryPath:
            if meth == "match" or model:
                raise Violation("%s raises InvalidQueryPath after %s" % (meth, model))
            rec.outcome("rejected")
            continue
        if r is not qu:
            raise Violation("%s does not return the query" % meth)
        if meth != "match" and not model:
            raise Violation("%s is accepted before match" % meth)
        model = [(q, p)] if meth == "match" else model + [(q, p)]
        if len(qu) != sum(x if isinstance(x, int) else 2 if x == "+" else 1 for x, _ in model):
            raise Violation("length %d of %s" % (len(qu), model))
        want = expected(n, edges, labels, model)
        got = {ix[id(x)] for x in QueryEngine().apply(qu, gf.graph, gf.dataframe)}
        if got != want:
            raise Violation("query built by %s selects %s, expected %s" % (calls, sorted(got), sorted(want)))
        rec.op()
    rec.state(tuple(map(tuple, calls)))


def els(quants, preds="ab*"):
    return [(q, p) for q in quants for p in preds]


def seqs(e, lens):
    for k in lens:
        yield from itertools.product(e, repeat=k)


PAT = {
    "short": list(seqs(els([".", "*", "+", 2]), (1, 2))),
    "mid": list(seqs(els([".", "*"]), (3,))),
    "long": list(seqs(els([".", "*"], "a*"), (4,))) + list(seqs(els([".", "*", "+", 2], "a*"), (3,))),
    "deep": list(seqs(els([".", "*"]), (4,))) + list(seqs(els([".", "*", "+", 2]), (3,))),
    "ints": list(seqs([(0, "a"), (1, "a"), (2, "*"), (3, "*"), (3, "a"), (".", "b"), ("*", "b"), ("+", "*"), (".", "0"), ("*", "0")], (2, 3))),
}
PAT["stars"] = list(seqs(els([".", "*"], "a*"), (5,)))
PAT["counts"] = [((k, p),) for k in (4, 5, 6, 7) for p in "a*"] + [((k, p), (q, r)) for k in (3, 4, 5) for p in "a*" for q in (".", "*", 2) for r in "b*"] \
    + [((q, r), (k, p)) for k in (3, 4, 5) for p in "a*" for q in (".", "*", 2) for r in "b*" if q != 0]
PAT["ints"] = [p for p in PAT["ints"] if p[0][0] != 0]


def spaces(tier):
    th = tier == "thorough"
    g3 = [(n, e, l) for n in (1, 2, 3) for e, l in gen.labelled(n, 2, "dag")]
    g4 = [(4, e, l) for e, l in gen.labelled(4, 2, "dag" if th else "rooted")]
    t5 = [(5, e, l) for e, l in gen.labelled(5, 2, "tree")]
    chains = [(n, tuple((i, i + 1) for i in range(n - 1)), l) for n in (4, 5, 6) for l in itertools.product((0, 1), repeat=n)]

    def main():
        for g in g3:
            for s in ("short", "mid", "long") + (("deep",) if th else ()):
                yield [*g, s, "base"]
        for g in g4:
            yield [*g, "short", "base"]
            if th or len(g[1]) <= 4:
                yield [*g, "mid", "base"]
        for g in chains if th else chains[:48]:
            yield [*g, "mid", "base"]
            yield [*g, "long", "base"]
        if th:
            for g in t5:
                yield [*g, "short", "base"]
                yield [*g, "mid", "base"]

    def obj():
        for g in g3 + [x for x in g4 if len(x[1]) == 3][:: 1 if th else 4]:
            for p in (PAT["short"] if th or g[0] < 4 else PAT["short"][::3]):
                yield [*g, p, "object"]
                yield [*g, p, "short"]

    def ints():
        for g in [x for x in g3 if x[0] > 1] + chains[: 80 if th else 16]:
            yield [*g, "ints", "base"]

    def shared():
        # a node with several parents, and nodes that are only reached through it
        for k in (2, 3, 4) if th else (3, 4):
            e = [(0, i) for i in range(1, k + 1)] + [(i, k + 1) for i in range(1, k + 1)] + [(k + 1, k + 2), (k + 2, k + 3)]
            for e2 in (e, e[k:]):
                for labels in itertools.product((0, 1), repeat=k + 4) if th else [tuple((m >> j) & 1 for j in range(k + 4)) for m in range(3, 1 << (k + 4), 5)]:
                    yield [k + 4, tuple(e2), labels, "short", "base"]
        for n in (13, 24):
            labels = tuple(int(i % 3 == 1) for i in range(n))
            star = tuple((0, i) for i in range(1, n))
            yield [n, star, labels, "short", "base"]
            yield [n, star, labels, "mid", "base"]
            yield [n, tuple((i, i + 1) for i in range(n - 1)), labels, "short", "base"]
            yield [n, tuple(((i - 1) // 2, i) for i in range(1, n)), labels, "short", "base"]
            yield [n, (), labels, "short", "base"]

    def stars():
        for g in [x for x in g3 if len(x[1]) == x[0] - 1 and (x[0] < 3 or len(set(x[2])) == 2)][:: 1 if th else 2]:
            yield [*g, "stars", "base"]
        for g in chains:
            if g[0] > 4 and (th or len(set(g[2])) == 1 or g[2] == (0, 0, 0, 0, 1, 1)[: g[0]]):
                yield [*g, "counts", "base"]

    def truth():
        for g in [x for x in g3 if x[0] > 1]:
            for st in ("truthy-numpy", "truthy-int", "truthy-other", "truthy-list", "matcher"):
                yield [*g, "short", st]

    def builder():
        el = [(".", "a"), ("*", "*"), ("+", "b"), (2, "*")]
        calls = [(m, *x) for m in ("match", "rel", "relation") for x in (el if m == "match" or th else el[:2])]
        for g in [(3, ((0, 1), (1, 2)), (0, 1, 0)), (3, ((0, 1), (0, 2)), (0, 1, 1))]:
            for k in (1, 2, 3, 4) if th else (1, 2, 3):
                for c in itertools.product(calls, repeat=k):
                    yield [*g, list(c)]

    def filt():
        for g in [x for x in g3 if x[0] == 3] + ([x for x in g4 if len(x[1]) == 4][:40] if th else []):
            for p in els([".", "*", "+", 2]):
                yield [*g, [p], True]
                yield [*g, [p], False]
            for p in seqs(els([".", "*"], "a*" if not th else "ab*"), (2,)):
                yield [*g, p, len(g[1]) % 2 == 0]

    def reuse():
        gs = [x for x in g3 if x[0] in (2, 3) and len(x[1]) == x[0] - 1][:: 1 if th else 2]
        ps = [[(".", "a"), ("*", "*"), (".", "b")], [("*", "a")], [(".", "b")]]
        for x in gs:
            for y in gs:
                for p, q in itertools.product(ps, repeat=2):
                    yield [[x, p], [y, q], [x, q]]

    return [
        Space("patterns", main, run, "all <=3-node DAGs, 4-node rooted graphs and <=6-node chains over 2 names x all patterns of <=2 "
              "elements over {., *, +, 2} x {a, b, any}, all 3-element patterns over {., *} and 4-element ones over {a, any}"),
        Space("dialect", obj, run, "the same patterns written in the object dialect, full and abbreviated"),
        Space("counts", ints, run, "integer repetition counts 0..3 and never-matching predicates"),
        Space("shared", shared, run, "nodes with up to 4 parents and nodes below them, stars, chains, binary trees and forests of up to 24 nodes"),
        Space("stars", stars, run, "all 5-element patterns over {., *} x {a, any} on trees <=3 nodes; counts 3..7 on chains of 5 and 6 nodes"),
        Space("truthiness", truth, run, "predicates that return numpy booleans, numbers, strings, lists or None; legacy matchers"),
        Space("builder", builder, run_builder, "all sequences of 3 calls of match, rel and relation on one query object, applied after each"),
        Space("filter", filt, run_filter, "patterns through GraphFrame.filter with and without squash"),
        Space("reuse", reuse, run_reuse, "sequences of three queries on two graphs through one engine"),
    ]
