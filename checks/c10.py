"""C10: string-dialect queries mean what their MATCH pattern and WHERE conditions say (oracle: direct evaluation)."""
import itertools
import math
import operator
import re
import warnings

from mc import gen
from mc.core import Space, Violation
from mc.hx import make_gf
from checks import c08
from checks.c09 import via_filter, VALS, INTS, NAMES, MODS, INF, NAN, V
from hatchet.query import InvalidQueryFilter, InvalidQueryPath, QueryEngine, StringQuery, parse_string_dialect
from hatchet.query import RedundantQueryFilterWarning

PROPERTY = "C10"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "every condition names a node of the MATCH statement and an attribute that exists with the right type in every row",
    "string literals without backslashes and curly braces; OR/AND bind as in Python among the conditions of one node",
]
REL = {"=": operator.eq, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
STR = {"=": lambda x, s: x == s, "STARTS WITH": lambda x, s: x.startswith(s), "ENDS WITH": lambda x, s: x.endswith(s),
       "CONTAINS": lambda x, s: s in x, "=~": lambda x, s: re.match(s, x) is not None}
IS = {"IS NAN": lambda x: math.isnan(x), "IS NOT NAN": lambda x: not math.isnan(x),
      "IS INF": lambda x: math.isinf(x), "IS NOT INF": lambda x: not math.isinf(x),
      "IS NONE": lambda x: x is None, "IS NOT NONE": lambda x: x is not None}
TAGS = [None, "t", "u", None, "t", "", "v", "w"]
COLS = {"time": VALS, "count": INTS, "name": NAMES, "module": MODS, "tag": TAGS}
EDGES = [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (5, 6), (5, 7)]
LEAVES = {3, 4, 6, 7}
DEPTH = [0, 1, 1, 2, 2, 2, 3, 3]
ORDER = None
STATE = {}


def base_gf():
    if "gf" not in STATE:
        rows = [(v, (), {"time": VALS[v], "count": INTS[v], "module": MODS[v], "tag": "x"}) for v in range(V)]
        gf, nodes = make_gf(EDGES, NAMES, rows, inc=())
        pos = {id(x): i for i, x in enumerate(nodes)}
        gf.dataframe["tag"] = [TAGS[pos[id(x)]] for x in gf.dataframe.index]
        STATE["gf"] = (gf, nodes)
    return STATE["gf"]


def nid(v):
    """Position in a preorder with children in name order (what node_id is for this tree)."""
    if "nid" not in STATE:
        ch = {u: sorted((b for a, b in EDGES if a == u), key=lambda b: NAMES[b]) for u in range(V)}
        out = []

        def go(u):
            out.append(u)
            for c in ch[u]:
                go(c)
        go(0)
        STATE["nid"] = {u: i for i, u in enumerate(out)}
    return STATE["nid"][v]


def multi_gf():
    if "m" not in STATE:
        combos = [(x,) for x in range(V)] + list(itertools.product(range(V), repeat=2))
        n = len(combos)
        edges = [(0, i) for i in range(1, n - 2)] + [(1, n - 2), (2, n - 1)]
        rows = [(v, (r,), {"time": VALS[x], "count": INTS[x], "module": MODS[x], "uid": 100 * v + r})
                for v, c in enumerate(combos) for r, x in enumerate(c)]
        gf, nodes = make_gf(edges, ["n%02d" % i for i in range(n)], rows, "nr", inc=())
        uid = gf.dataframe["uid"].tolist()
        gf.dataframe["name"] = [NAMES[combos[u // 100][u % 100]] for u in uid]
        gf.dataframe["tag"] = [TAGS[combos[u // 100][u % 100]] for u in uid]
        depth = [0] + [1] * (n - 3) + [2, 2]
        leaf = {v for v in range(n) if v not in (0, 1, 2)}
        STATE["m"] = (gf, nodes, combos, depth, leaf)
    return STATE["m"]


def num(c):
    return repr(c)


def cond_text(name, c):
    if c[0] == "leaf":
        return "%s IS %sLEAF" % (name, "" if c[1] else "NOT ")
    if c[0] == "is":
        return '%s."%s" %s' % (name, c[1], c[2])
    if c[0] == "str":
        # in single quotes if it contains double ones; a quote of the same kind is escaped
        t = '"%s"' % c[3] if '"' not in c[3] else "'%s'" % c[3] if "'" not in c[3] else '"%s"' % c[3].replace('"', '\\"')
        return '%s."%s" %s %s' % (name, c[1], c[2], t)
    return '%s."%s" %s %s' % (name, c[1], c[2], num(c[3]))


def atom(c, v):
    """Value of a condition on node v of the single-index graphframe."""
    if c[0] == "leaf":
        return (v in LEAVES) == c[1]
    if c[1] in ("depth", "node_id"):
        x = DEPTH[v] if c[1] == "depth" else nid(v)
        if c[1] == "depth" and c[0] == "num" and c[2] == "=" and c[3] == -1:
            return v in LEAVES
        return IS[c[2]](x) if c[0] == "is" else REL[c[2]](x, c[3])
    x = COLS[c[1]][v]
    if c[0] == "is":
        return IS[c[2]](x)
    return (STR if c[0] == "str" else REL)[c[2]](x, c[3])


def combine(terms):
    """terms: [(op, neg, value)]: AND binds tighter than OR, NOT tightest."""
    groups, cur = [], None
    for op, neg, val in terms:
        val = val != neg
        if cur is None:
            cur = val
        elif op == "AND":
            cur = cur and val
        else:
            groups.append(cur)
            cur = val
    groups.append(cur)
    return any(groups)


NUMC = [("num", "time", r, c) for r in REL for c in (0, 1, 2.5, -1, 0.5, 3)] + \
       [("num", "count", r, c) for r in REL for c in (0, 1, 2, -1, 1.5)]
STRC = [("str", "name", r, c) for r in STR for c in ("a", "ab", "b", "", "A", "a.b", "[ab]b")] + \
       [("str", "module", r, c) for r in STR for c in ("libx", "x", ".so", "lib x", "é", '"', "'", 'x"\n', "\n", 'say "it\'s', '[^"]*"')]
ISC = [("is", "time", k) for k in ("IS NAN", "IS NOT NAN", "IS INF", "IS NOT INF")] + \
      [("is", "count", k) for k in ("IS NAN", "IS NOT NAN", "IS INF", "IS NOT INF")] + \
      [("is", k, t) for k in ("tag", "name", "time", "depth", "node_id") for t in ("IS NONE", "IS NOT NONE")] + \
      [("is", k, t) for k in ("depth", "node_id") for t in ("IS NAN", "IS NOT NAN", "IS INF", "IS NOT INF")]
POSC = [("num", k, r, c) for k in ("depth", "node_id") for r in REL for c in (0, 1, 2, 4, -1, -2, 1.5)]
LEAFC = [("leaf", True), ("leaf", False)]
ATOMS = NUMC + STRC + ISC + POSC + LEAFC
CORE = [("num", "time", ">", 0), ("num", "count", "<=", 1), ("str", "name", "STARTS WITH", "a"), ("leaf", True),
        ("is", "time", "IS NOT NAN"), ("is", "tag", "IS NONE"), ("num", "depth", ">=", 2), ("str", "module", "=~", "lib.*")]


def select(query, gf, nodes):
    ix = {id(x): i for i, x in enumerate(nodes)}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = parse_string_dialect(query) if not isinstance(query, tuple) else parse_string_dialect(*query)
    return sorted(ix[id(x)] for x in QueryEngine().apply(q, gf.graph, gf.dataframe))


def where(name, terms):
    out = []
    for i, (op, neg, c) in enumerate(terms):
        out.append(("" if i == 0 else op + " ") + ("NOT " if neg else "") + cond_text(name, c))
    return " ".join(out)


def run_cond(case, rec):
    gf, nodes = base_gf()
    for terms in case:
        terms = [(o, bool(n), tuple(c)) for o, n, c in terms]
        q = "MATCH (\".\", p) WHERE " + where("p", terms)
        want = [v for v in range(V) if combine([(o, n, atom(c, v)) for o, n, c in terms])]
        got = select(q, gf, nodes)
        if got != want:
            raise Violation("%s selects %s, expected %s" % (q, got, want))
        rec.op()
        rec.state(q, tuple(got))


def run_multi(case, rec):
    mode, terms = case
    terms = [(o, bool(n), tuple(c)) for o, n, c in terms]
    gf, nodes, combos, depth, leaf = multi_gf()
    agg = any if mode == "any" else all
    q = "MATCH (\".\", p) WHERE " + where("p", terms)

    def val(c, v):
        if c[0] == "leaf":
            return (v in leaf) == c[1]
        if c[1] in ("depth", "node_id"):
            if c[0] == "is":
                return IS[c[2]](depth[v])
            if c[1] == "depth" and c[2] == "=" and c[3] == -1:
                return v in leaf
            return REL[c[2]](depth[v] if c[1] == "depth" else nodes[v]._hatchet_nid, c[3])
        f = IS[c[2]] if c[0] == "is" else (lambda x: (STR if c[0] == "str" else REL)[c[2]](x, c[3]))
        return agg(f(COLS[c[1]][x]) for x in combos[v])
    want = [v for v in range(len(combos)) if combine([(o, n, val(c, v)) for o, n, c in terms])]
    got = select((q, mode), gf, nodes)
    if len(terms) == 1:
        via = via_filter(gf, {id(x): i for i, x in enumerate(nodes)}, q, mode)
        if via != got:
            raise Violation("filter(%s, multi_index_mode=%r) keeps rows of the nodes %s, the query engine selects %s" % (q, mode, via, got))
    if got != want:
        bad = sorted(set(got) ^ set(want))[0]
        raise Violation("[%s] %s %s the node with rows %s" % (mode, q, "misses" if bad in want else "wrongly selects",
                        [{k: COLS[k][x] for k in COLS} for x in combos[bad]]))
    rec.op()
    rec.state(mode, q, tuple(got))


def run_pattern(case, rec):
    """MATCH patterns with per-node conditions against the path oracle of C08."""
    n, edges, labels, pattern, form = case
    edges = tuple(tuple(e) for e in edges)
    labels = tuple(labels)
    gf, nodes = c08.gf_of(n, edges, labels)
    pattern = tuple(tuple(p) for p in pattern)
    parts, conds = [], []
    for i, (q, p) in enumerate(pattern):
        nm = ("p%d" if len(edges) % 2 else "_Name_of_node_%d") % i
        qt = str(q) if isinstance(q, int) else '"%s"' % q
        named = p != "*" or form == "named"
        if q == "." and form == "bare":
            parts.append("(%s)" % nm if named else '(".")')
        else:
            parts.append("(%s, %s)" % (qt, nm) if named else "(%s)" % qt)
        if p != "*":
            conds.append('%s."name" = "%s"' % (nm, p))
    if form == "reverse":
        conds = conds[::-1]
    q = "MATCH " + "->".join(parts)
    if conds:
        q += " WHERE " + " AND ".join(conds)
    want = sorted(c08.expected(n, edges, labels, pattern))
    got = select(q, gf, nodes)
    if got != want:
        raise Violation("%s on edges %s labels %s selects %s, expected %s" % (q, edges, ["ab"[x] for x in labels], got, want))
    rec.op()
    rec.state(n, edges, labels, pattern, form)


def run_two(case, rec):
    """Conditions of two named nodes interleaved in one WHERE: each node is judged by its own conditions, in order."""
    gf, nodes = base_gf()
    terms = [(o, bool(n), who, tuple(c)) for o, n, who, c in case]
    txt = []
    for i, (o, neg, who, c) in enumerate(terms):
        txt.append(("" if i == 0 else o + " ") + ("NOT " if neg else "") + cond_text(who, c))
    q = 'MATCH (".", p)->(".", q) WHERE ' + " ".join(txt)
    ok = {}
    for who in "pq":
        mine = [(o, n, c) for o, n, w, c in terms if w == who]
        ok[who] = {v for v in range(V) if not mine or combine([(o, n, atom(c, v)) for o, n, c in mine])}
    want = sorted({x for a, b in EDGES if a in ok["p"] and b in ok["q"] for x in (a, b)})
    got = select(q, gf, nodes)
    if got != want:
        raise Violation("%s selects %s, expected %s" % (q, got, want))
    rec.op()
    rec.state(q, tuple(got))


def run_reject(case, rec):
    q, exc = case
    gf, nodes = base_gf()
    exc = {"path": InvalidQueryPath, "filter": InvalidQueryFilter}[exc]
    try:
        select(q, gf, nodes)
    except exc:
        rec.outcome(exc.__name__)
    except Exception as e:
        raise Violation("%s raised %s instead of %s" % (q, type(e).__name__, exc.__name__))
    else:
        raise Violation("%s was accepted" % q)
    rec.op()
    rec.state(q)


def chunks(it, k):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == k:
            yield buf
            buf = []
    if buf:
        yield buf


def spaces(tier):
    th = tier == "thorough"

    def ones():
        for c in ATOMS:
            for neg in (False, True):
                yield [(None, neg, c)]

    def twos():
        pool = ATOMS if th else CORE + ATOMS[::9]
        for a in pool:
            for b in (ATOMS if th else CORE):
                for op in ("AND", "OR"):
                    for n1, n2 in itertools.product((False, True), repeat=2):
                        if not th and n1 and n2:
                            continue
                        yield [(None, n1, a), (op, n2, b)]

    def threes():
        core = CORE[: 8 if th else 5]
        for a, b, c in itertools.product(core, repeat=3):
            for o1, o2 in itertools.product(("AND", "OR"), repeat=2):
                for neg in ((False, False, False), (True, False, False), (False, True, False), (False, False, True)):
                    if not th and any(neg) and len({a, b, c}) < 3:
                        continue
                    yield [(None, neg[0], a), (o1, neg[1], b), (o2, neg[2], c)]

    def fours():
        core = CORE[:4] if th else CORE[:3]
        for cs in itertools.product(core, repeat=4):
            if len(set(cs)) < 3:
                continue
            for ops in itertools.product(("AND", "OR"), repeat=3):
                yield [(None, False, cs[0])] + [(o, False, c) for o, c in zip(ops, cs[1:])]

    def multi():
        for mode in ("any", "all"):
            for t in ones():
                yield [mode, t]
            for a, b in itertools.product(CORE, repeat=2):
                for op in ("AND", "OR"):
                    if th or a < b:
                        yield [mode, [(None, False, a), (op, True, b)]]

    def patterns():
        gs = [(n, e, l) for n in (1, 2, 3) for e, l in gen.labelled(n, 2, "rooted")]
        gs += [(4, e, l) for e, l in gen.labelled(4, 2, "tree")] if th else [(4, ((0, 1), (1, 2), (2, 3)), (0, 1, 0, 1))]
        for g in gs:
            for p in c08.PAT["short"] + ([] if not th else c08.PAT["mid"]):
                for form in ("bare", "named", "reverse"):
                    if not th and form != "bare" and (g[0] < 3 or sum(map(hash, map(str, p))) * 0 + len(p) < 2):
                        continue
                    yield [*g, p, form]

    def two():
        core = CORE[: 8 if th else 6]
        for a, b, c in itertools.product(core, repeat=3):
            for who in ("pqp", "qpp", "ppq", "qpq"):
                for o1, o2 in itertools.product(("AND", "OR"), repeat=2):
                    if not th and (o1, o2) == ("OR", "AND"):
                        continue
                    yield [(None, False, who[0], a), (o1, False, who[1], b), (o2, who == "ppq", who[2], c)]

    rejects = [
        ['MATCH (p) WHERE p."name" > 5', "filter"], ['MATCH (p) WHERE p."time" = "a"', "filter"],
        ['MATCH (p) WHERE p."time" STARTS WITH "a"', "filter"], ['MATCH (p) WHERE p."name" IS NAN', "filter"],
        ['MATCH (p) WHERE p."name" = "a" AND p."time" CONTAINS "a"', "filter"],
        ['MATCH (p) WHERE p IS LEAF OR p."time" CONTAINS "a"', "filter"],
        ["MATCH", "path"], ["MATCH (p) WHERE", "path"], ['(p) WHERE p."time" > 5', "path"], ['MATCH (p)->p', "path"],
        ['MATCH (p) WHERE p."time" >', "path"], ['MATCH (p) WHERE p."time" > 5 p."time" < 6 OR', "path"],
        ['MATCH ("*", p)-("+")', "path"], ["", "path"], ['MATCH (".", p) WHERE p.time > 5', "path"],
    ]
    return [
        Space("single-conditions", lambda: chunks(ones(), 8), run_cond, "every condition form x constant, plain and negated"),
        Space("two-conditions", lambda: chunks(twos(), 16), run_cond, "pairs of conditions of every form joined by AND/OR with NOT"),
        Space("three-conditions", lambda: chunks(threes(), 16), run_cond, "all triples of core conditions x AND/OR x NOT"),
        Space("four-conditions", lambda: chunks(fours(), 16), run_cond, "AND/OR chains of four conditions"),
        Space("multi-index", multi, run_multi, "conditions in any/all mode over nodes with every 1- and 2-row combination of values"),
        Space("patterns", patterns, run_pattern, "MATCH patterns of <=2-3 elements, named, unnamed and with WHERE in both orders"),
        Space("two-nodes", two, run_two, "conditions on two named nodes interleaved"),
        Space("rejects", lambda: iter(rejects), run_reject, "syntax errors and type mismatches"),
    ]
