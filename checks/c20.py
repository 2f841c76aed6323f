"""C20: the TAU reader against a model of the profile files, for every small call tree, line set, line order and rank/thread/metric layout."""
import itertools
import os
import shutil
import tempfile

from mc import gen
from mc.core import Skip, Space, Violation
from mc.hx import GraphFrame, graph_nodes, wf_graph

PROPERTY = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "profiles of all ranks and threads have the same root, callpaths start at the root, and all metric directories have the same lines",
    "file, module, line of rows that were filled in for other ranks are not judged beyond being the node's or empty",
]
# raw line name, node name, file, module, start and end line
FORMATS = [
    ("f%d()", "f%d()", None, None, 0, 0),
    ("main%d C [{/a/x.c} {34,1}-{90,2}]", "main%d", "/a/x.c", None, 34, 90),
    ("Str%d [{util.cc} {13,1}-{29,1}]", "Str%d", "util.cc", None, 13, 29),
    ("[SAMPLE] s%d [{/a/y.c} {15}]", "[SAMPLE] s%d", "/a/y.c", None, 15, 0),
    ("[UNWIND] /a/z.c [@] g%d [{/a/z.c} {7}]", "[UNWIND] g%d", "/a/z.c", None, 7, 0),
    ("[UNWIND] /l/l.so [@] h%d [{/l/l.so} {0}]", "[UNWIND] h%d", None, "/l/l.so", 0, 0),
    ("[UNWIND] /l/l.so.6 [@] i%d /l/l.so.6", "[UNWIND] i%d", None, "/l/l.so.6", 0, 0),
    ("[UNWIND] /a/z.c [@] k%d [{/l/m.so} {9}]", "[UNWIND] k%d", "/a/z.c", "/l/m.so", 9, 0),
    ("[SAMPLE] t%d /l/n.so", "[SAMPLE] t%d", None, "/l/n.so", 0, 0),
    ("[CONTEXT] .TAU app%d", "[CONTEXT] .TAU app%d", None, None, 0, 0),
    ("bar%d [{q.f} {15,0}]", "bar%d", "q.f", None, 15, 0),
    ("baz%d(int) C", "baz%d(int) C", None, None, 0, 0),
]
LAYOUTS = {"1": [(0, 0)], "2r": [(0, 0), (1, 0)], "2t": [(0, 0), (0, 1)], "2x2": [(0, 0), (0, 1), (1, 0), (1, 1)], "3": [(0, 0), (1, 0), (1, 1)], "12r": [(1, 0), (2, 0)], "12t": [(0, 1), (0, 2)], "11r": [(r, 0) for r in range(11)]}
METRICS = {"t": ["TIME"], "c": ["CPU_TIME"], "tp": ["TIME", "PAPI_L2"], "pt": ["PAPI_L2", "CPU_TIME"], "p": ["PAPI_L2"], "w": ["P_WALL_CLOCK_TIME"], "wt": ["P_VIRTUAL_TIME", "TIME"]}


def raw(fmt, v):
    return FORMATS[fmt][0].replace("%d", str(v))


def value(v, p, m, k):
    return float(((v * 16 + p) * 4 + m) * 4 + k + 1)


def write(d, n, par, fmts, layout, metrics, has, order, style):
    def path(v):
        return (path(par[v]) if v in par else []) + [".TAU application" if v == 0 else raw(fmts[v], v)]

    for mi, m in enumerate(metrics):
        sub = os.path.join(d, "MULTI__" + m) if len(metrics) > 1 or style & 1 else d
        os.makedirs(sub, exist_ok=True)
        for pi, (r, t) in enumerate(layout):
            def nums(v):
                e, i = value(v, pi, mi, 0), value(v, pi, mi, 1)
                frac = ".5" if style & 2 else ""
                return "%d %d %d%s %d%s 0 GROUP=\"X|Y\"" % (v + 1, v % 3, e, frac, i, frac)

            lines = []
            for v in order:
                if v == 0 or not has[pi] >> v & 1:
                    continue
                lines.append('"%s" %s' % ("  => ".join(x + " " if style & 4 else x for x in path(v)), nums(v)))
                if style & 1:
                    lines.append('"%s" %s' % (path(v)[-1], nums(v)))  # flat line, not a callpath
            with open(os.path.join(sub, "profile.%d.0.%d" % (r, t)), "w") as f:
                f.write("%d templated_functions_MULTI_%s\n" % (len(lines) + 1, m))
                f.write("# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name</name><value>%s</value></attribute></metadata>\n" % m)
                f.write('".TAU application" %s\n' % nums(0))
                f.write("\n".join(lines) + ("\n" if lines else ""))


def run(case, rec):
    n, edges, fmts, lay, met, has, order, style = case
    par = {b: a for a, b in edges}
    layout, metrics = LAYOUTS[lay], METRICS[met]
    d = tempfile.mkdtemp(prefix="c20-")
    try:
        write(d, n, par, fmts, layout, metrics, has, order, style)
        gf = GraphFrame.from_tau(d)
    finally:
        shutil.rmtree(d)
    rec.op()
    wf_graph(gf.graph)
    seen = {0}
    for v in range(1, n):
        if any(h >> v & 1 for h in has):
            w = v
            while w not in seen:
                seen.add(w)
                w = par[w]
    name = lambda v: ".TAU application" if v == 0 else FORMATS[fmts[v]][1].replace("%d", str(v))
    path = lambda v: (path(par[v]) if v in par else ()) + (name(v),)
    want = {path(v): v for v in seen}
    nodes = {}
    for x in graph_nodes(gf.graph):
        p = tuple(y.frame["name"] for y in x.path())
        if p not in want or want[p] in nodes or dict(x.frame.attrs) != {"type": "function", "name": p[-1]} or x._depth != len(p) - 1:
            raise Violation("unexpected or repeated node %s depth %s (%s)" % (p, x._depth, case))
        nodes[want[p]] = x
    if set(nodes) != seen or gf.graph.roots != [nodes[0]]:
        raise Violation("nodes %s, roots %s (%s)" % (sorted(want), gf.graph.roots, case))
    mr, mt = any(r for r, t in layout), any(t for r, t in layout)
    index = ["node"] + ["rank"] * mr + ["thread"] * mt
    if list(gf.dataframe.index.names) != index:
        raise Violation("index %s (%s)" % (gf.dataframe.index.names, case))
    rows = {}
    ids = {id(x): v for v, x in nodes.items()}
    for row in gf.dataframe.reset_index().to_dict("records"):
        k = (ids.get(id(row["node"])), row["rank"] if mr else 0, row["thread"] if mt else 0)
        if k[0] is None or k in rows:
            raise Violation("unexpected or repeated row %s (%s)" % (k, case))
        rows[k] = row
    exp = {(v, r, t) for v in seen for r, t in layout}
    if set(rows) != exp:
        raise Violation("rows %s, expected %s (%s)" % (sorted(rows), sorted(exp), case))
    shown = ["time" if m in ("TIME", "CPU_TIME") else m for m in metrics]
    empty = lambda x: x is None or x != x or x == 0
    for (v, r, t), row in rows.items():
        pi = layout.index((r, t))
        own = v == 0 or has[pi] >> v & 1
        f = FORMATS[fmts[v]] if v else (None, None, None, None, 0, 0)
        if row["name"] != name(v):
            raise Violation("name %s, expected %s (%s)" % (row["name"], name(v), case))
        for c, w in (("file", f[2]), ("module", f[3])):
            g = row[c]
            if not (empty(g) if w is None else g == w or (empty(g) and not any(h >> v & 1 for h in has))):
                raise Violation("%s of %s is %r, expected %r (%s)" % (c, (v, r, t), g, w, case))
        for c, w in (("line", f[4]), ("end_line", f[5])):
            if row[c] != w and (own or row[c] != 0):
                raise Violation("%s of %s is %r, expected %r (%s)" % (c, (v, r, t), row[c], w, case))
        half = 0.5 if style & 2 else 0
        vals = {"Calls": v + 1, "Subrs": v % 3}
        for mi, m in enumerate(shown):
            vals[m], vals[m + " (inc)"] = value(v, pi, mi, 0) + half, value(v, pi, mi, 1) + half
        for c, w in vals.items():
            if row.get(c) != (w if own else 0):
                raise Violation("%s of %s is %r, expected %r (%s)" % (c, (v, r, t), row.get(c), w if own else 0, case))
        if set(row) - set(vals) - {"node", "rank", "thread", "name", "file", "module", "line", "end_line"}:
            raise Violation("columns %s (%s)" % (sorted(map(str, row)), case))
    if sorted(gf.exc_metrics) != sorted(shown) or sorted(gf.inc_metrics) != sorted(m + " (inc)" for m in shown):
        raise Violation("metrics %s %s (%s)" % (gf.exc_metrics, gf.inc_metrics, case))
    if gf.default_metric != ("time (inc)" if "time" in shown else shown[0] + " (inc)"):
        raise Violation("default metric %s (%s)" % (gf.default_metric, case))
    rec.state(case)
    rec.outcome(lay)


def spaces(tier):
    th = tier == "thorough"

    def trees(N):
        for n in range(1, N + 1):
            for e, _ in gen.labelled(n, 1, "forest"):
                if len(e) == n - 1 and all(any(b == v for a, b in e) for v in range(1, n)):
                    yield n, e

    def lines():
        for n, e in trees(4):
            for lay in ("1", "2r", "2t", "2x2", "3", "12r", "12t"):
                L = len(LAYOUTS[lay])
                sub = [m | 1 for m in range(0, 2 ** n, 2)]
                for has in itertools.product(sub, repeat=L) if L < 3 and (n < 4 or L == 1 or th) else [h for h in itertools.product(sub, repeat=L) if th and n < 4 or sum(x * (i + 3) for i, x in enumerate(h)) % {2: 2, 3: 11, 4: 41}[L] == 0]:
                    perms = list(itertools.permutations(range(1, n)))
                    for order in perms if n < 4 or th else perms[::2]:
                        k = sum(has) % 7
                        yield [n, e, [0, 0, 2, 1, 4][:n], lay, ("t", "c", "tp", "pt", "p", "w", "wt")[k], list(has), list(order), sum(has) % 8]

    def formats():
        for n, e in trees(3):
            if n < 2:
                continue
            for fm in itertools.product(range(len(FORMATS)), repeat=n - 1):
                for has in range(1, 2 ** n, 2):
                    if has == 1:
                        continue
                    for lay in ("1", "2r"):
                        for order in ([1, 2][: n - 1], [2, 1][-(n - 1):] if n == 3 else [1]):
                            yield [n, e, [0] + list(fm), lay, "t", [has] if lay == "1" else [1, has], order, 0]

    def many():
        for n, e in trees(3):
            for miss in range(11):
                for met in METRICS:
                    for v in range(n):
                        yield [n, e, [0, 3, 1][:n], "11r", met, [(2 ** n - 1) & ~(1 << v) | 1 if r == miss else 2 ** n - 1 for r in range(11)], list(range(1, n)), miss % 4]

    return [
        Space("lines", lines, run, "all rooted trees <=4 contexts x which contexts have lines per rank and thread x line orders x metrics"),
        Space("formats", formats, run, "all rooted trees <=3 contexts x all pairs of line formats x which contexts have lines"),
        Space("many-ranks", many, run, "11 ranks, one context absent in one of them, all metric sets"),
    ]
