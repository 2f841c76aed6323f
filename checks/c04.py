"""C04: union/unify of two graphs: every call path of either operand, each once, and rows follow their nodes."""
import itertools

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import (ATTRS, Addr, Graph, label_frame, label_key, clean, make_gf, make_graph, path_keys, rows_of, edges_of, wf_graph, graph_nodes, fkey,
                   fr, snapshot, diff_snap)

PROPERTY = "C04"
LEVEL = "model_checking"
ASSUMPTIONS = ["pairs whose forced merges would make a node its own ancestor are outside the domain (counted)"]
NAMES = "abcd"


def iso_check(graph, cls_of, qn, qe, qr, frame):
    """cls_of: id(impl node) -> model class. Compare the implementation graph with the model graph exactly."""
    nodes = wf_graph(graph)
    seen = {}
    for nd in nodes:
        c = cls_of.get(id(nd))
        if c is None:
            raise Violation("union contains a node that corresponds to no operand node: %r" % (nd,))
        if c in seen:
            raise Violation("two union nodes for the same context: %r" % (nd,))
        seen[c] = nd
        if fkey(nd.frame) != frame[c]:
            raise Violation("frame of union node %r differs from its operand node %s" % (nd, frame[c]))
    if set(seen) != qn:
        raise Violation("union misses operand nodes: has %s of %s" % (sorted(seen), sorted(qn)))
    e = {(cls_of[id(x)], cls_of[id(y)]) for x in nodes for y in x.children}
    if e != qe:
        raise Violation("union edges %s, expected %s" % (sorted(e), sorted(qe)))
    if {cls_of[id(r)] for r in graph.roots} != qr:
        raise Violation("union roots differ")


def model(ga, gb):
    n1, e1, f1 = ga
    n2, e2, f2 = gb
    k = lambda f: [label_key(x) for x in f]
    qn, qe, qr, frame, cls = ref.union((n1, e1, k(f1)), (n2, e2, k(f2)))
    try:
        ref.check_acyclic(qn, qe)
    except ref.Cyclic:
        raise Skip()
    return qn, qe, qr, frame, cls


def snapg(g):
    return [(id(n), n._hatchet_nid, n._depth, str(n.frame.attrs), tuple(map(id, n.children)), tuple(map(id, n.parents)))
            for n in graph_nodes(g)], list(map(id, g.roots))


def run_union(case, rec):
    (n1, e1, l1), (n2, e2, l2) = case
    e1, e2 = [tuple(e) for e in e1], [tuple(e) for e in e2]
    qn, qe, qr, frame, cls = model((n1, e1, l1), (n2, e2, l2))
    g1, a = make_graph(e1, [label_frame(x) for x in l1])
    g2, b = make_graph(e2, [label_frame(x) for x in l2])
    s1, s2 = snapg(g1), snapg(g2)
    m = {}
    u = g1.union(g2, m)
    rec.op()
    if snapg(g1) != s1 or snapg(g2) != s2:
        raise Violation("union modified an operand")
    cls_of = {}
    for tag, ns in (("a", a), ("b", b)):
        for i, nd in enumerate(ns):
            t = m.get(id(nd))
            if t is None:
                raise Violation("operand node %r is not mapped" % nd)
            if any(t is x for x in a + b):
                raise Violation("union shares node %r with an operand" % nd)
            c = cls[tag, i]
            if cls_of.setdefault(id(t), c) != c:
                raise Violation("nodes with different contexts were merged: %r" % nd)
    iso_check(u, cls_of, qn, qe, qr, frame)
    # structural laws
    if not (u == g2.union(g1)) and nodup(e1, l1) and nodup(e2, l2):
        raise Violation("union is not commutative")
    rec.op()
    rec.state(frozenset(path_keys(u, True).values()))
    rec.outcome("%d merged" % (n1 + n2 - len(qn)))


def nodup(e, l):
    n = len(l)
    have = {y for _, y in e}
    lists = [[i for i in range(n) if i not in have]] + [[y for x, y in e if x == v] for v in range(n)]
    return all(len({l[i] for i in s}) == len(s) for s in lists)


def run_unify(case, rec):
    (n1, e1, l1), (n2, e2, l2), index, mask2, *mask1 = case
    e1, e2 = [tuple(e) for e in e1], [tuple(e) for e in e2]
    qn, qe, qr, frame, cls = model((n1, e1, l1), (n2, e2, l2))
    ranks = {"n": [()], "nr": [(0,), (1,)], "nrt": [(0, 0), (0, 1)]}[index]

    def rows(n, base, mask):
        return [(v, r, {"time": base * (1 << (v * 2 + k)), "time (inc)": base * (100 + v + k), "uid": "%d-%d-%d" % (base, v, k)})
                for v in range(n) if mask >> v & 1 for k, r in enumerate(ranks)]

    A, a = make_gf(e1, [NAMES[x] for x in l1], rows(n1, 1, (1 << n1) - 1), index)
    B, b = make_gf(e2, [NAMES[x] for x in l2], rows(n2, 1000, (1 << n2) - 1), index)
    for gf, ns, mask in ((A, a, mask1[0] if mask1 else -1), (B, b, mask2)):
        keep = {id(x) for v, x in enumerate(ns) if mask >> v & 1}
        gf.dataframe = gf.dataframe[[id(x) in keep for x in gf.dataframe.index.get_level_values("node")]].copy()
    ra = rows_of(A.dataframe, {id(x): ("a", i) for i, x in enumerate(a)})
    rb = rows_of(B.dataframe, {id(x): ("b", i) for i, x in enumerate(b)})
    gA, gB = A.graph, B.graph
    s1, s2 = snapg(gA), snapg(gB)
    A.unify(B)
    rec.op()
    if snapg(gA) != s1 or snapg(gB) != s2:
        raise Violation("unify modified the original graph objects")
    if A.graph is not B.graph:
        raise Violation("after unify the two graphframes have different graphs")
    # identify union nodes through the rows they carry
    key = {}
    pk = path_keys(A.graph, True)
    want_paths = ref.all_paths(qn, qe, qr, frame)
    if nodup(e1, l1) and nodup(e2, l2):
        inv = {p: c for c, p in want_paths.items()}
        for i, p in pk.items():
            if p not in inv:
                raise Violation("unified graph has unexpected call paths %s" % (p,))
            key[i] = inv[p]
    else:
        raise Skip()
    iso_check(A.graph, key, qn, qe, qr, frame)
    ga, gb = rows_of(A.dataframe, key), rows_of(B.dataframe, key)
    wa, wb = {}, {}
    for (v, *r), cols in ra.items():
        wa[(cls[v],) + tuple(r)] = dict(cols)
    for (v, *r), cols in rb.items():
        wb[(cls[v],) + tuple(r)] = dict(cols)
    if len(wa) != len(ra) or len(wb) != len(rb):
        raise Skip()  # operand nodes of one side were forced together
    if {k: strip(v) for k, v in gb.items()} != wb:
        raise Violation("rows of the right operand after unify: %s, expected %s" % (gb, wb))
    a_nodes, b_nodes = {k[0] for k in wa}, {k[0] for k in wb}
    extra = {k for k in wb if k[0] not in a_nodes}
    if set(ga) != set(wa) | extra:
        raise Violation("rows of the left operand after unify: %s, expected %s plus missing %s" % (sorted(ga), sorted(wa), sorted(extra)))
    for k, w in wa.items():
        if strip(ga[k]) != w:
            raise Violation("row %s of the left operand changed: %s -> %s" % (k, w, ga[k]))
    for k in extra:
        if ga[k]["name"] != wb[k]["name"] or ga[k]["uid"] != wb[k]["uid"]:
            raise Violation("inserted row %s does not describe the missing node: %s" % (k, ga[k]))
    onlya = {k for k in wa if k[0] not in b_nodes}
    if onlya or extra:
        for k, r in ga.items():
            w = 2 if k in extra else 1 if k in onlya else 0
            if r.get("_missing_node") != w:
                raise Violation("_missing_node of %s is %s, expected %d (2=only in other, 1=only in self)" % (k, r.get("_missing_node"), w))
    rec.state(index, ga)
    rec.outcome("onlyself=%s onlyother=%s" % (bool(onlya), bool(extra)))


def run_wide(case, rec):
    """Stars with many children: row membership for every pattern of presence (the search over rows is size dependent)."""
    A, B, index = case
    ranks = {"n": [()], "nr": [(0,), (1,)]}[index]

    def mk(kids, base):
        frames = ["r"] + ["n%02d" % k for k in kids]
        return make_gf([(0, i + 1) for i in range(len(kids))], frames,
                       [(v, r, {"time": float(base + v), "time (inc)": 1.0}) for v in range(len(frames)) for r in ranks], index)[0]

    a, b = mk(A, 0), mk(B, 1000)
    a.unify(b)
    rec.op()
    key = {id(n): n.frame["name"] for n in graph_nodes(a.graph)}
    an, bn = {"r"} | {"n%02d" % k for k in A}, {"r"} | {"n%02d" % k for k in B}
    if sorted(key.values()) != sorted(an | bn):
        raise Violation("union of two stars has nodes %s" % sorted(key.values()))
    ga, gb = rows_of(a.dataframe, key), rows_of(b.dataframe, key)
    if set(ga) != {(k,) + r for k in an | bn for r in ranks} or set(gb) != {(k,) + r for k in bn for r in ranks}:
        raise Violation("rows after unify: left %s right %s" % (sorted(ga), sorted(gb)))
    for k, r in ga.items():
        w = 2 if k[0] not in an else 1 if k[0] not in bn else 0
        if (r.get("_missing_node") if an != bn else (r.get("_missing_node") or 0)) != w:
            raise Violation("_missing_node of %s is %s, expected %d" % (k, r.get("_missing_node"), w))
        if (r["time"] is None) != (w == 2):
            raise Violation("metric of row %s: %s" % (k, r))
    rec.state(len(an), len(bn), frozenset((k, r.get("_missing_node")) for k, r in ga.items()))
    rec.outcome("equal" if an == bn else "differ")


def strip(r):
    return {k: v for k, v in r.items() if k != "_missing_node"}


def spaces(tier):
    th = tier == "thorough"
    # graphs over 2-3 frames; right operand labels range over the same alphabet, so overlap is everywhere
    small = [(n, e, l) for n in (1, 2, 3) for e, l in gen.labelled(n, 2, "dag")]
    nd4 = [(4, e, l) for e, l in gen.labelled(4, 3, "dag") if nodup(e, l)]
    nd4two = [g for g in nd4 if len(set(g[2])) <= 2 or g[2] == tuple(sorted(g[2]))]
    nd3 = [(n, e, l) for n in (1, 2, 3) for e, l in gen.labelled(n, 3, "dag") if nodup(e, l)]

    def pairs_small():
        for x in small:
            for y in small:
                yield [x, y]

    def attributes():
        k = range(100, 100 + len(ATTRS))
        one = [(1, [], (x,)) for x in k] + [(2, [(0, 1)], (0, x)) for x in k] + [(2, [(0, 1)], (x, 0)) for x in k]
        two = [(3, [(0, 1), (0, 2)], (0, x, y)) for x in k for y in k] + [(3, [(0, 1), (1, 2)], (0, x, y)) for x in k for y in k]
        for x in one + two:
            for y in one + (two if th else two[:100:3] + two[101::7]):
                yield [x, y]

    def pairs_big():
        # unique contexts: DAGs with 4 nodes over 3 frames against DAGs with <=3 nodes, both ways, and 4x4 over fewer
        roota = [g for g in nd4 if g[2][0] == 0 and len(ref.roots_of(range(4), g[1])) == 1]
        for x in roota:
            for y in nd3:
                yield [x, y]
                yield [y, x]
        for i, x in enumerate(roota):
            for j, y in enumerate(roota):
                if not th and ((len(x[1]) < 4 and len(y[1]) < 4)):
                    continue
                yield [x, y]
        # deeper sharing: five-node diamonds with tails against trees that unfold them
        d5 = [(5, e, l) for e, l in diamonds()]
        for x in d5:
            for y in d5:
                yield [x, y]

    def unify_cases():
        us = [g for g in nd3 if g[2][0] in (0, 1)]
        for x in us:
            for y in us:
                yield [x, y, "n", (1 << y[0]) - 1]
        multi = [g for g in us if len(ref.roots_of(range(g[0]), g[1])) == 1]
        for x in multi:
            for y in multi:
                for index in ("nr", "nrt"):
                    yield [x, y, index, (1 << y[0]) - 1]
        for x in multi:
            for y in multi:
                for mask in range(1, (1 << y[0]) - 1):
                    if th or mask == 1 or mask == (1 << y[0]) - 2:
                        yield [x, y, "n", mask]

    def unify_absent():
        t = [(1, [], (0,)), (2, [(0, 1)], (0, 1)), (3, [(0, 1), (0, 2)], (0, 1, 2)), (3, [(0, 1), (1, 2)], (0, 1, 2)), (3, [(0, 2), (1, 2)], (0, 1, 2))]
        for x in t:
            for y in t:
                for m1 in range(1 << x[0]):
                    for m2 in range(1 << y[0]):
                        for index in ("n", "nr", "nrt"):
                            yield [x, y, index, m2, m1]

    def unify4():
        roota = [g for g in nd4 if g[2][0] == 0 and len(ref.roots_of(range(4), g[1])) == 1 and set(g[2]) == {0, 1, 2}]
        tr = [g for g in roota if len(g[1]) == 3]
        for x in (roota if th else tr):
            for y in tr:
                yield [x, y, "n", 15]

    def wide():
        u = 7 if th else 5
        for A in gen.subsets(range(u), False):
            for B in gen.subsets(range(u), False):
                yield [list(A), list(B), "n"]
        for n in range(6, 34 if not th else 70):
            full = list(range(n))
            yield [full, full, "n"]
            yield [full, full, "nr"]
            for i in range(n):
                rest = [x for x in full if x != i]
                yield [full, rest, "n"]
                yield [rest, full, "n"]
                if n % 8 in (0, 7):
                    yield [full, rest, "nr"]
                    yield [[i], full, "n"]
            for step in (2, 3):
                yield [full[::step], full, "n"]
                yield [full[::step], full[1::step], "n"]

    return [
        Space("wide", wide, run_wide, "stars: every pair of child sets over %d children, and up to %d children with every single child absent on one side" % ((7, 69) if th else (5, 33))),
        Space("union<=3", pairs_small, run_union, "all ordered pairs of DAGs with <=3 nodes over 2 frames (equal-frame siblings included)"),
        Space("attributes", attributes, run_union, "pairs of graphs <=3 nodes whose frames have the same name and differ in other attributes (0 and empty values included)"),
        Space("union-4", pairs_big, run_union, "4-node DAGs over 3 frames with unique contexts, and 5-node diamond/tail variants"),
        Space("unify", unify_cases, run_unify, "pairs of <=3-node DAGs over 3 frames, 3 index kinds, right operand with absent rows"),
        Space("unify-absent", unify_absent, run_unify, "pairs of graphs <=3 nodes, every set of nodes with rows in either operand (none included)"),
        Space("unify-4", unify4, run_unify, "pairs of 4-node graphs with unique contexts"),
    ]


def diamonds():
    """a over b,c sharing / not sharing d, with tail e in all placements (graphs with unique contexts)."""
    base = [
        ([(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], (0, 1, 2, 3, 0)),
        ([(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], (0, 1, 2, 3, 1)),
        ([(0, 1), (0, 2), (1, 3), (2, 4)], (0, 1, 2, 3, 3)),
        ([(0, 1), (1, 2), (2, 3), (3, 4)], (0, 2, 3, 0, 1)),
        ([(0, 1), (1, 2), (2, 3), (2, 4)], (0, 1, 3, 0, 1)),
        ([(0, 1), (0, 2), (2, 3), (3, 4)], (0, 1, 2, 3, 0)),
        ([(0, 1), (0, 2), (1, 3), (3, 4)], (0, 1, 2, 3, 0)),
        ([(0, 1), (0, 2), (0, 3), (1, 4), (3, 4)], (0, 1, 2, 3, 3)),
        ([(0, 1), (0, 2), (0, 3), (2, 4), (3, 4)], (0, 1, 2, 3, 3)),
        ([(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4)], (0, 1, 2, 3, 3)),
    ]
    return base
