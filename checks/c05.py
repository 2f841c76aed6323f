"""C05: graphframe arithmetic is element-wise over matching nodes, for functions, operators and in-place forms."""
import itertools
import math

import numpy as np

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import (ATTRS, label_frame, clean, make_gf, path_keys, rows_of, edges_of, wf_graph, graph_nodes, fkey, fr, snapshot, diff_snap)
from checks.c04 import nodup, NAMES

PROPERTY = "C05"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "operands have the same metric columns and index levels, and no two siblings with equal frames",
    "judged where the arithmetic result is a number: 0/0 and missing operand values at shared nodes are not judged",
]
OPS = {
    "add": (lambda a, b: a + b, lambda x, y: x.add(y), lambda x, y: x + y),
    "sub": (lambda a, b: a - b, lambda x, y: x.sub(y), lambda x, y: x - y),
    "mul": (lambda a, b: a * b, lambda x, y: x.mul(y), lambda x, y: x * y),
    "div": (None, lambda x, y: x.div(y), lambda x, y: x / y),
}


def arith(op, a, b):
    if op == "div":
        if b == 0:
            return None if a == 0 else math.copysign(math.inf, a)
        return a / b
    return OPS[op][0](a, b)


def judged(op, a, b):
    r = None if a is None or b is None else arith(op, a, b)
    return "skip" if r is None or r != r else r


def inplace(op, x, y):
    if op == "add":
        x += y
    elif op == "sub":
        x -= y
    elif op == "mul":
        x *= y
    else:
        x /= y
    return x


def G(spec):
    n, e, l = spec
    return n, [tuple(t) for t in e], l


VALS = [(1.0, 10.0), (2.0, 0.0), (4.0, -3.0), (8.0, 0.5)]
RANKS = {"n": [()], "nr": [(0,), (1,)], "nrt": [(0, 0), (1, 1)]}


def build(spec, side, index, exc=("time",), inc=("time (inc)",), mask=-1):
    n, e, l = spec
    rows = []
    for v in range(n):
        for k, r in enumerate(RANKS[index]):
            t, i = VALS[v % 4]
            t = (t + 16 * k) * (1 if side == "a" else 3)
            i = i + (k if side == "a" else 2 * k) + (0 if side == "a" else (v % 2) * 2)
            rows.append((v, r, {"time": t, "time (inc)": i, "who": side, "line": 10 + v if side == "a" else 20 + v}))
    gf, nodes = make_gf(e, [label_frame(x) for x in l], rows, index, exc=exc, inc=inc, metadata={"k": side})
    if mask != -1:
        keep = {id(x) for v, x in enumerate(nodes) if mask >> v & 1}
        gf.dataframe = gf.dataframe[[id(x) in keep for x in gf.dataframe.index.get_level_values("node")]].copy()
    return gf, nodes


def model_rows(gf, key):
    return rows_of(gf.dataframe, key)


def apply_model(op, ra, rb, pa, pb, metrics):
    """Rows keyed by (paths-of-union-node, *idx); pa/pb: set of union nodes that occur in a / b."""
    out = {}
    for k, r in ra.items():
        if k[0] in pb and k in rb:
            out[k] = {m: judged(op, r[m], rb[k][m]) for m in metrics}
        else:
            out[k] = {m: r[m] for m in metrics}
    for k, r in rb.items():
        if k[0] not in pa:
            out[k] = {m: None for m in metrics}
    return out


def union_model(A, B):
    """cls from each operand node to its path key in the union."""
    def spec(gf):
        ns = graph_nodes(gf.graph)
        ix = {id(x): i for i, x in enumerate(ns)}
        return (len(ns), [(ix[id(x)], ix[id(c)]) for x in ns for c in x.children], [fkey(x.frame) for x in ns]), ns
    sa, na = spec(A)
    sb, nb = spec(B)
    qn, qe, qr, frame, cls = ref.union(sa, sb)
    try:
        paths = ref.all_paths(qn, qe, qr, frame)
    except ref.Cyclic:
        raise Skip()
    ka = {id(x): paths[cls["a", i]] for i, x in enumerate(na)}
    kb = {id(x): paths[cls["b", i]] for i, x in enumerate(nb)}
    if len(set(ka.values())) != len(ka) or len(set(kb.values())) != len(kb):
        raise Skip()
    return ka, kb, {paths[c] for c in qn}, {(paths[x], paths[y]) for x, y in qe}


def check_result(res, want, nodes, edges, what):
    wf_graph(res.graph)
    key = path_keys(res.graph)
    if set(key.values()) != nodes or edges_of(res.graph, key) != edges:
        raise Violation("%s: graph of the result is not the union of the operands' graphs" % what)
    got = rows_of(res.dataframe, key)
    if set(got) != set(want):
        raise Violation("%s: rows %s, expected %s" % (what, sorted(map(str, got)), sorted(map(str, want))))
    for k, ms in want.items():
        for m, w in ms.items():
            if w == "skip":
                continue
            g = got[k][m]
            w = clean(w)
            if g != w and not (isinstance(g, float) and isinstance(w, (int, float)) and abs(g - w) <= 1e-12 * abs(w)):
                raise Violation("%s: %s of %s is %s, expected %s" % (what, m, k, g, w))
    return got


def run(case, rec):
    x, y, op, form, index = case[:5]
    ma, mb = case[5:] or (-1, -1)  # which nodes have rows
    x, y = G(x), G(y)
    A, a = build(x, "a", index)
    full = A.dataframe

    def has(df, mask):
        keep = {id(n) for v, n in enumerate(a) if mask >> v & 1}
        return [id(n) in keep for n in df.index.get_level_values("node")]

    if ma != -1:
        A.dataframe = full[has(full, ma)].copy()
    same = form.startswith("same")
    if same:  # right operand shares the graph object with the left one
        B = A.copy() if form != "same-self" else A
        if form != "same-self":
            B.dataframe = full.copy(deep=True)
            B.dataframe["time"] = B.dataframe["time"] * 3
            if mb != -1:
                B.dataframe = B.dataframe[has(B.dataframe, mb)].copy()
    else:
        B, b = build(y, "b", index, mask=mb)
    sa, sb = snapshot(A), snapshot(B)
    ka, kb, nodes, edges = union_model(A, B)
    ra, rb = model_rows(A, ka), model_rows(B, kb)
    want = apply_model(op, ra, rb, {k[0] for k in ra}, {k[0] for k in rb}, ("time", "time (inc)"))
    left = A
    if form in ("func", "same", "same-self"):
        res = OPS[op][1](A, B)
    elif form in ("oper", "same-oper"):
        res = OPS[op][2](A, B)
    else:
        res = inplace(op, A, B)
    rec.op()
    if form in ("inplace", "same-inplace"):
        if res is not left:
            raise Violation("in-place %s did not return the left operand" % op)
    else:
        d = diff_snap(sa, snapshot(A))
        if d:
            raise Violation("%s modified its left operand: %s" % (op, d))
        if res is A or res is B or res.dataframe is A.dataframe:
            raise Violation("%s returned an operand" % op)
    d = diff_snap(sb, snapshot(B))
    if d:
        raise Violation("%s (%s) modified its right operand: %s" % (op, form, d))
    got = check_result(res, want, nodes, edges, "%s/%s" % (op, form))
    for k, r in got.items():
        src = ra.get(k) or rb.get(k)
        if r["name"] != src["name"]:
            raise Violation("%s: name of %s is %s" % (op, k, r["name"]))
        if k in ra and (r["who"], r["line"]) != (ra[k]["who"], ra[k]["line"]):
            raise Violation("%s: non-metric columns of %s changed: %s" % (op, k, r))
    pa, pb = {k[0] for k in ra}, {k[0] for k in rb}
    if pa != pb:
        for k, r in got.items():
            w = 2 if k[0] not in pa else 1 if k[0] not in pb else 0
            if r.get("_missing_node") != w:
                raise Violation("%s: _missing_node of %s is %s, expected %d" % (op, k, r.get("_missing_node"), w))
    if res.exc_metrics != ["time"] or res.inc_metrics != ["time (inc)"] or res.default_metric != "time":
        raise Violation("%s: metric lists of the result: %s %s" % (op, res.exc_metrics, res.inc_metrics))
    rec.state(op, form, index, {k: {m: r[m] for m in ("time", "time (inc)")} for k, r in got.items()})
    rec.outcome("%s %s" % (op, form))


def run_chain(case, rec):
    """Histories: acc = acc op g for a sequence of graphframes, in-place or not; every step against the model."""
    specs, steps = case
    pool = [build(G(s), "a" if i % 2 == 0 else "b", "n")[0] for i, s in enumerate(specs)]
    snaps = [snapshot(g) for g in pool]
    acc = pool[0].deepcopy()
    for j, (op, form, which) in enumerate(steps):
        B = pool[which] if which >= 0 else acc
        ka, kb, nodes, edges = union_model(acc, B)
        want = apply_model(op, model_rows(acc, ka), model_rows(B, kb), set(ka.values()), set(kb.values()),
                           ("time", "time (inc)"))
        old = acc
        so = snapshot(old)
        acc = inplace(op, acc, B) if form == "inplace" else OPS[op][2](acc, B)
        rec.op()
        check_result(acc, want, nodes, edges, "step %d of %s" % (j, steps))
        if form == "oper":
            d = diff_snap(so, snapshot(old))
            if d:
                raise Violation("step %d modified the previous accumulator: %s" % (j, d))
        for i, g in enumerate(pool):
            d = diff_snap(snaps[i], snapshot(g))
            if d:
                raise Violation("step %d (%s %s) modified operand %d: %s" % (j, op, form, i, d))
        key = path_keys(acc.graph)
        rec.state({k: r["time"] for k, r in rows_of(acc.dataframe, key).items()})


def spaces(tier):
    th = tier == "thorough"
    nd = lambda n, k, kind: [(n, e, l) for e, l in gen.labelled(n, k, kind) if nodup(e, l)]
    dag3 = [g for n in (1, 2, 3) for g in nd(n, 2, "dag")]
    tree3 = [g for n in (1, 2, 3) for g in nd(n, 3, "tree") if g[2][0] in (0, 1)]
    tree4 = [g for g in nd(4, 3, "rooted") if g[2][0] == 0]

    def pairs():
        for op in OPS:
            for form in ("oper", "inplace", "func"):
                for x in dag3:
                    for y in dag3:
                        if form == "func" and len(x[1]) + len(y[1]) > 3:
                            continue
                        yield [x, y, op, form, "n"]

    def attributes():
        k = range(100, 100 + len(ATTRS))
        one = [(2, [(0, 1)], (0, x)) for x in k] + [(2, [(0, 1)], (x, 0)) for x in k]
        two = [(3, [(0, 1), (0, 2)], (0, x, y)) for x in k for y in k if x < y]
        for op, form in (("add", "oper"), ("sub", "inplace"), ("div", "func")):
            for x in one + two[::1 if th else 4]:
                for y in one + two[::1 if th else 5]:
                    yield [x, y, op, form, "n"]

    def absent():
        t = [g for g in tree3 if g[2][0] == 0] if th else [(1, [], (0,)), (2, [(0, 1)], (0, 1)), (3, [(0, 1), (0, 2)], (0, 1, 2)), (3, [(0, 1), (1, 2)], (0, 1, 2))]
        for op in OPS:
            for x in t:
                for y in t:
                    for ma in range(1 << x[0]):
                        for mb in range(1 << y[0]):
                            for form in ("oper", "inplace"):
                                for index in ("n", "nr") if op == "sub" else ("n",):
                                    yield [x, y, op, form, index, ma, mb]

    def shared():
        for op in OPS:
            for x in dag3:
                for form in ("same", "same-self", "same-oper", "same-inplace"):
                    for index in ("n", "nr"):
                        yield [x, x, op, form, index]

    def shared_absent():
        for op in ("add", "sub", "div"):
            for x in dag3:
                if x[0] == 1:
                    continue
                for ma in range(1 << x[0]):
                    for mb in range(1 << x[0]):
                        for form in ("same", "same-inplace") if op == "sub" else ("same-oper",):
                            yield [x, x, op, form, "n", ma, mb]
                        if op == "sub" and x[0] == 2:
                            yield [x, x, op, "same", "nr", ma, mb]

    def multi():
        t = [g for g in tree3 if g[0] < 3 or th or g[2][0] == 0]
        for op in OPS:
            for index in ("nr", "nrt"):
                for x in t:
                    for y in t:
                        if x[2][0] == y[2][0]:
                            yield [x, y, op, "oper" if index == "nr" else "inplace", index]

    def big():
        for i, x in enumerate(tree4):
            for j, y in enumerate(tree4):
                if th or (i + j) % 4 == 0:
                    yield [x, y, "sub", "oper", "n"]

    def chains():
        sets = [
            [(3, [(0, 1), (0, 2)], (0, 1, 2)), (3, [(0, 1), (1, 2)], (0, 1, 2)), (2, [(0, 1)], (0, 2))],
            [(2, [(0, 1)], (0, 1)), (2, [(0, 1)], (0, 2)), (1, [], (1,))],
            [(4, [(0, 1), (0, 2), (1, 3), (2, 3)], (0, 1, 2, 3)), (3, [(0, 1), (1, 2)], (0, 2, 3)), (2, [(0, 1)], (0, 3))],
        ]
        acts = [(op, f, w) for op in ("add", "sub", "div") for f in ("oper", "inplace") for w in (0, 1, 2)]
        acts += [("add", "oper", -1), ("sub", "inplace", -1)]
        for s in sets[: 3 if th else 2]:
            for k in (1, 2) + ((3,) if th else ()):
                for seq in itertools.product(acts, repeat=k):
                    if k == 3 and len({a[0] for a in seq}) < 2:
                        continue
                    yield [s, seq]

    return [
        Space("pairs", pairs, run, "all ordered pairs of <=3-node DAGs (unique contexts, 2 frames) x 4 operations x operator/in-place/method"),
        Space("attributes", attributes, run, "operands whose nodes have the same name and differ in other attributes (0 and empty values included)"),
        Space("absent-rows", absent, run, "pairs of trees <=3 nodes, every set of nodes with rows in either operand (none included)"),
        Space("shared-graph", shared, run, "operands that share a graph object (copies, and the same object)"),
        Space("shared-graph-absent", shared_absent, run, "operands that share a graph object, DAGs <=3 nodes: every set of nodes with rows in either operand"),
        Space("multiindex", multi, run, "pairs of trees with (node,rank) and (node,rank,thread) indexes"),
        Space("4-node", big, run, "pairs of 4-node rooted graphs over 3 frames"),
        Space("chains", chains, run_chain, "all sequences of <=%d operations over a pool of 3 graphframes" % (3 if th else 2)),
    ]
