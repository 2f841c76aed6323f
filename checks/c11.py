"""C11: compound queries are set algebra over their parts, in every spelling (operators, classes, legacy classes, braces)."""
import itertools
import re
import warnings

from mc.core import Space, Violation
from mc.hx import make_gf, snapshot, diff_snap
import hatchet.query as hq
from hatchet.graphframe import EmptyFilter
from hatchet.query import (AndQuery, BadNumberNaryQueryArgs, CompoundQuery, ConjunctionQuery, CypherQuery, DisjunctionQuery,
                           ExclusiveDisjunctionQuery, IntersectionQuery, NegationQuery, NotQuery, ObjectQuery, OrQuery, Query,
                           QueryEngine, QueryMatcher, StringQuery, SymDifferenceQuery, UnionQuery, XorQuery,
                           parse_cypher_query, parse_string_dialect)

PROPERTY = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = ["curly-brace regions are written on one line, joined by AND/OR/XOR, evaluated left to right, and not nested"]
GRAPHS = [
    ([(0, 1), (0, 2), (1, 3), (1, 4), (2, 5)], "abcdef"),
    ([(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], "abcde"),
    ([(0, 1), (2, 3)], "abcd"),
    ([(1, 2), (1, 4), (2, 4)], "abcde"),  # nodes 0 and 3 stand alone
]


def on_path(v, e):
    """Nodes on a path of at least one node with time < 9 followed by a leaf."""
    leaf = {b for _, b in e if all(a != b for a, _ in e)}
    par = {x: [a for a, b in e if b == x] for x in range(8)}
    hit = set()

    def up(path):
        for a in par[path[0]]:
            if 1 << a < 9:
                hit.update((a,) + path)
                up((a,) + path)

    for x in leaf:
        up((x,))
    return v in hit



# base queries: (object form, string form, selected nodes per graph, found by the leaf check below)
BASES = [
    ([{"time": "< 3"}], 'MATCH (p) WHERE p."time" < 3', lambda v, e: v < 2),
    ([{"time": [">= 2", "<= 8"]}], 'MATCH (".", p) WHERE p."time" >= 2 AND p."time" <= 8', lambda v, e: 1 <= v <= 3),
    ([{"depth": -1}], "MATCH (p) WHERE p IS LEAF", lambda v, e: all(a != v for a, b in e)),
    ([{"name": "[ad]"}], 'MATCH (p) WHERE p."name" =~ "[ad]"', lambda v, e: v in (0, 3)),
    ([{"time": "> 100"}], 'MATCH (p) WHERE p."time" > 100', lambda v, e: False),
    (["."], 'MATCH (".")', lambda v, e: True),
    ([("+", {"time": "< 9"}), {"depth": -1}], 'MATCH ("+", p)->(".", q) WHERE p."time" < 9 AND q IS LEAF', on_path),
]
SYM = {"and": lambda s: set.intersection(*s), "or": lambda s: set.union(*s),
       "xor": lambda s: {x for x in set.union(*s) if sum(x in t for t in s) % 2}}
STATE = {}
warnings.simplefilter("ignore")


def gf_of(g):
    if g not in STATE:
        e, names = GRAPHS[g]
        rows = [(v, (), {"time": float(1 << v)}) for v in range(len(names))]
        STATE[g] = make_gf(e, list(names), rows, inc=())
    return STATE[g]


def base(i, form):
    obj, s, _ = BASES[i]
    if form == "obj":
        return ObjectQuery(obj)
    if form == "str":
        return StringQuery(s)
    if form == "parsed":
        return parse_string_dialect(s)
    if form == "raw-obj":
        return obj
    if form == "raw-str":
        return s
    if form == "matcher":
        return QueryMatcher(obj)
    if form == "cypher":
        return CypherQuery(s)
    if form == "parsed-cypher":
        return parse_cypher_query(s)
    if form in ("base", "base-matcher"):
        q = Query() if form == "base" else QueryMatcher()
        for k, x in enumerate(obj):
            quant, d = x if isinstance(x, tuple) else (x, {}) if isinstance(x, str) else (".", x)
            r = (q.rel if k else q.match)(quant, ObjectQuery([d]).query_pattern[0][1])
            if r is not q:
                raise Violation("match/rel do not return the query")
        return q
    raise ValueError(form)


NEW = {"and": ConjunctionQuery, "or": DisjunctionQuery, "xor": ExclusiveDisjunctionQuery, "not": NegationQuery}
OLD = {"and": AndQuery, "or": OrQuery, "xor": XorQuery, "not": NotQuery}
ALIAS = {"and": IntersectionQuery, "or": UnionQuery, "xor": SymDifferenceQuery, "not": NotQuery}
FUNC = {"and": hq.combine_via_conjunction, "or": hq.combine_via_disjunction,
        "xor": hq.combine_via_exclusive_disjunction, "not": hq.negate_query}


def build(t, form, style, shared=None):
    if isinstance(t, int):
        if shared is None:
            return base(t, form)
        if t not in shared:  # one query object, used in every place
            shared[t] = base(t, form)
        return shared[t]
    op, *args = t
    qs = [build(a, form, style, shared) for a in args]
    if style == "operator" and len(qs) <= 2:
        if op == "not":
            return ~qs[0]
        return qs[0] & qs[1] if op == "and" else qs[0] | qs[1] if op == "or" else qs[0] ^ qs[1]
    if style == "function" and len(qs) <= 2:
        return FUNC[op](*qs)
    if style == "tuple":
        return NEW[op](tuple(qs))
    return (OLD if style == "old" else ALIAS if style == "alias" else NEW)[op](*qs)


def model(t, g):
    e, names = GRAPHS[g]
    if isinstance(t, int):
        return {v for v in range(len(names)) if BASES[t][2](v, e)}
    op, *args = t
    s = [model(a, g) for a in args]
    return set(range(len(names))) - s[0] if op == "not" else SYM[op](s)


def tup(t):
    return t if isinstance(t, int) else (t[0],) + tuple(tup(a) for a in t[1:])


def judge(q, want, g, what, rec, through):
    gf, nodes = gf_of(g)
    ix = {id(x): i for i, x in enumerate(nodes)}
    if through == "filter":
        before = snapshot(gf)
        try:
            res = gf.filter(q, squash=False)
            got = sorted(ix.get(id(x), -1) for x in res.dataframe.index)
        except EmptyFilter:
            got = []
        d = diff_snap(before, snapshot(gf))
        if d:
            raise Violation("filter by %s modified the graphframe: %s" % (what, d))
    elif through == "apply":  # legacy entry point
        got = sorted(ix.get(id(x), -1) for x in q.apply(gf))
    else:
        got = sorted(ix.get(id(x), -1) for x in QueryEngine().apply(q, gf.graph, gf.dataframe))
    if got != sorted(want):
        raise Violation("%s on graph %d selects %s, expected %s" % (what, g, got, sorted(want)))
    rec.op()


def run_tree(case, rec):
    t, form, style, g = case
    t = tup(t)
    for shared in (None, {}):
        q = build(t, form, style, shared)
        old = isinstance(q, hq.AbstractQuery)
        want = model(t, g)
        for through in ("filter", "apply" if old else "engine"):
            judge(q, want, g, "%s (%s, %s)" % (t, form, style), rec, through)
        if shared is None and (isinstance(t, int) or all(isinstance(a, int) for a in t[1:])) and len(set(t[1:])) == len(t[1:]):
            break
        # the parts, and the same query on another graph, afterwards
        for k, b in (shared or {}).items():
            if not isinstance(b, (list, str)):
                judge(b, model(k, g), g, "%s as a part of %s (%s, %s)" % (k, t, form, style), rec, "apply" if isinstance(b, hq.AbstractQuery) else "engine")
        judge(q, model(t, (g + 1) % 4), (g + 1) % 4, "%s (%s, %s) on a second graph" % (t, form, style), rec, "apply" if old else "engine")
    rec.state(t, form, style, g)
    rec.outcome("%d nodes" % len(want))


def run_braces(case, rec):
    kind, idx, ops, pad, g = case
    strs = [BASES[i][1] for i in idx]
    sets = [model(i, g) for i in idx]
    if kind == "queries":
        regions = strs
        pre = ""
    else:
        regions = [s.split(" WHERE ", 1)[1] for s in strs]
        pre = 'MATCH (".", p) WHERE '
        if sum(idx) % 2:  # another name
            name = ("_P2", "Node_1")[len(idx) % 2]
            regions = [re.sub(r"\bp\b(?=[. ])", name, r) for r in regions]
            pre = pre.replace("p)", name + ")")
    sp = " " * pad
    txt = pre + "".join("%s{%s%s%s}" % ((" %s " % o if o else ""), sp, r, sp) for o, r in zip([None] + list(ops), regions))
    want = sets[0]
    for o, s in zip(ops, sets[1:]):
        want = SYM[o.lower()]([want, s])
    judge(parse_string_dialect(txt), want, g, txt, rec, "engine")
    judge(txt, want, g, txt, rec, "filter")
    judge(parse_cypher_query(txt), want, g, txt, rec, "apply")
    judge(ConjunctionQuery(txt, [{"depth": ">= 0"}]), want, g, txt, rec, "engine")
    rec.state(case)


TEXTS = ["", " ", "AND", "OR", "XOR", "NOT", "AND NOT", "NAND", "ORAND", "and", ",", 'p."time" > 3', 'AND p."time" > 3', 'OR p."time" > 3', 'MATCH (p)', '"x"']
HEADS = ["", " ", "NOT", "AND", 'MATCH (".", p) WHERE', '  MATCH  (".", p)   WHERE ', 'MATCH (".", p)', 'MATCH (".", p) WHERE NOT',
         'MATCH (".", p) WHERE p."time" > 3 AND', 'NOT MATCH (".", p) WHERE', 'WHERE', 'p."time" > 3 AND']


def run_text(case, rec):
    """Everything outside of the regions means something or is refused; nothing is skipped."""
    kind, idx, head, mids, tail, g = case
    head, tail, mids = HEADS[head], TEXTS[tail], [TEXTS[m] for m in mids]
    strs = [BASES[i][1] if kind == "queries" else BASES[i][1].split(" WHERE ", 1)[1] for i in idx]
    txt = head + " {" + strs[0] + "}" + "".join(" %s {%s}" % (m, s) for m, s in zip(mids, strs[1:])) + " " + tail
    good = not tail.strip() and all(m in ("AND", "OR", "XOR") for m in mids) and \
        head.split() == ([] if kind == "queries" else ["MATCH", '(".",', "p)", "WHERE"])
    rec.state(case)
    rec.op()
    if good:
        want = model(idx[0], g)
        for o, i in zip(mids, idx[1:]):
            want = SYM[o.lower()]([want, model(i, g)])
        judge(parse_string_dialect(txt), want, g, txt, rec, "engine")
        judge(txt, want, g, txt, rec, "filter")
        rec.outcome("accepted")
        return
    gf = gf_of(g)[0]
    for what in ("parse", "filter"):
        try:
            q = parse_string_dialect(txt)
            if what == "parse":
                QueryEngine().apply(q, gf.graph, gf.dataframe)
            else:
                gf.filter(txt, squash=False)
        except EmptyFilter:
            pass
        except Exception:
            rec.outcome("rejected")
            continue
        raise Violation("%s is accepted although the text outside of its regions has no meaning" % txt)


def run_multi(case, rec):
    """Regions keep the any/all mode of the query they are part of."""
    kind, mode, cuts, ops = case
    n = 5
    vals = [(0, 0), (0, 5), (5, 0), (5, 9), (9, 9)]
    if "m" not in STATE:
        rows = [(v, (r,), {"time": float(vals[v][r])}) for v in range(n) for r in (0, 1)]
        STATE["m"] = make_gf([(0, 1), (0, 2), (1, 3), (1, 4)], list("abcde"), rows, "nr", inc=())
    gf, nodes = STATE["m"]
    conds = ['p."time" > %d' % c for c in cuts]
    agg = any if mode == "any" else all
    sets = [{v for v in range(n) if agg(x > c for x in vals[v])} for c in cuts]
    if kind == "queries":
        txt = "{MATCH (p) WHERE %s}" % conds[0] + "".join(" %s {MATCH (p) WHERE %s}" % (o, c) for o, c in zip(ops, conds[1:]))
    else:
        txt = "MATCH (p) WHERE {%s}" % conds[0] + "".join(" %s {%s}" % (o, c) for o, c in zip(ops, conds[1:]))
    want = sets[0]
    for o, s in zip(ops, sets[1:]):
        want = SYM[o.lower()]([want, s])
    ix = {id(x): i for i, x in enumerate(nodes)}
    got = {ix[id(x)] for x in QueryEngine().apply(parse_string_dialect(txt, mode), gf.graph, gf.dataframe)}
    try:
        res = gf.filter(txt, squash=False, multi_index_mode=mode)
        got2 = {ix[id(i[0])] for i in res.dataframe.index}
    except EmptyFilter:
        got2 = set()
    if got != want or got2 != want:
        raise Violation("[%s] %s selects %s / %s, expected %s" % (mode, txt, sorted(got), sorted(got2), sorted(want)))
    rec.op()
    rec.state(case)


def run_arity(case, rec):
    cls, k = case
    c = {**{"new-" + n: q for n, q in NEW.items()}, **{"old-" + n: q for n, q in OLD.items()}}[cls]
    args = [ObjectQuery(["."])] * k if cls.startswith("new") else [QueryMatcher(["."])] * k
    good = k == 1 if cls.endswith("not") else k >= 2
    gf, _ = gf_of(0)
    try:
        q = c(*args)
        (q.apply(gf) if cls.startswith("old") else QueryEngine().apply(q, gf.graph, gf.dataframe))
    except BadNumberNaryQueryArgs:
        if good:
            raise Violation("%s with %d subqueries was rejected" % (cls, k))
    else:
        if not good:
            raise Violation("%s with %d subqueries was accepted" % (cls, k))
    rec.op()
    rec.state(case)


def spaces(tier):
    th = tier == "thorough"
    nb = range(len(BASES))
    bins = ("and", "or", "xor")
    d1 = [("not", a) for a in nb] + [(o, a, b) for o in bins for a in nb for b in nb]
    inner = [("not", 0), ("not", 2), ("and", 0, 1), ("or", 0, 3), ("xor", 1, 2), ("and", 2, 4), ("xor", 3, 5)]
    d2 = [("not", t) for t in inner] + [(o, t, a) for o in bins for t in inner for a in (1, 2, 3)] + \
         [(o, a, t) for o in bins for t in inner for a in (1, 2, 3)] + [(o, s, t) for o in bins for s in inner for t in inner]
    nary = [(o, *c) for o in bins for k in (3, 4) for c in itertools.product((0, 1, 2, 3) if k == 3 or th else (0, 1, 2), repeat=k)]
    new_forms = ["obj", "str", "base", "parsed"]
    old_forms = ["matcher", "cypher", "base-matcher", "parsed-cypher"]

    def trees():
        for g in range(4):
            for t in d1:
                for f in new_forms:
                    for s in ("new", "operator", "function", "tuple"):
                        yield [t, f, s, g]
                for f in old_forms:
                    for s in ("old", "operator", "alias"):
                        yield [t, f, s, g]
                for f in ("raw-obj", "raw-str"):
                    for s in ("new", "old"):
                        yield [t, f, s, g]
        for g in range(4) if th else (1,):
            for t in d2:
                for f, ss in (("obj", ("new", "operator")), ("matcher", ("old", "operator")), ("raw-str", ("new",))):
                    for s in ss:
                        yield [t, f, s, g]
            for t in nary:
                for f, s in (("obj", "new"), ("matcher", "old"), ("raw-obj", "new"), ("raw-str", "old")):
                    yield [t, f, s, g]

    def mixed():  # new-style parts inside legacy compounds and the other way round through get_new_query
        for g in range(4):
            for t in d1:
                for f in new_forms:
                    yield [t, f, "old", g]

    def braces():
        for g in range(3) if th else (0, 1):
            for kind in ("queries", "conditions"):
                ids = [i for i in nb if (kind == "queries" or i in (0, 1, 3, 4))]
                for k in (1, 2, 3):
                    for idx in itertools.product(ids if k < 3 or th else ids[:4], repeat=k):
                        for ops in itertools.product(("AND", "OR", "XOR"), repeat=k - 1):
                            for pad in (0, 1) if k < 3 else (0,):
                                yield [kind, idx, ops, pad, g]

    def text():
        for g in (0, 1):
            for kind in ("queries", "conditions"):
                for h in range(len(HEADS)):
                    for t in range(len(TEXTS)):
                        yield [kind, [0], h, [], t, g]
                    for m in range(len(TEXTS)):
                        for t in range(len(TEXTS)) if th else (0, 2, 12):
                            yield [kind, [0, 3], h, [m], t, g]
                    for m in itertools.product((0, 2, 3, 6, 11), repeat=2):
                        yield [kind, [0, 3, 1], h, m, 0, g]

    def multi():
        for kind in ("queries", "conditions"):
            for mode in ("any", "all"):
                for k in (1, 2, 3):
                    for cuts in itertools.product((-1, 0, 5, 9), repeat=k):
                        for ops in itertools.product(("AND", "OR", "XOR"), repeat=k - 1):
                            yield [kind, mode, cuts, ops]

    def arity():
        for c in NEW:
            for k in range(1, 4):
                yield ["new-" + c, k]
                yield ["old-" + c, k]

    return [
        Space("expressions", trees, run_tree, "all expressions of depth 1 and depth 2 (core), 3- and 4-ary ones, over seven base queries "
              "in every dialect, built by classes, operators, functions and legacy classes, on four graphs, with one object per part or one for equal parts"),
        Space("mixed", mixed, run_tree, "new-style parts inside legacy compound queries"),
        Space("braces", braces, run_braces, "1 to 3 curly-brace regions (whole queries or conditions) joined by every AND/OR/XOR combination"),
        Space("braces-text", text, run_text, "every text out of a list before, between and after 1 to 3 regions: meaningful or rejected"),
        Space("braces-multi-index", multi, run_multi, "the same in any and all mode on multi-index data"),
        Space("arity", arity, run_arity, "wrong numbers of subqueries are rejected"),
    ]
