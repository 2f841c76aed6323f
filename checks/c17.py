"""C17: tree, dot and flamegraph output against a model of the documented formats, for every small graph and option set."""
import itertools
import re
import sys

from mc import gen, ref
from mc.core import Skip, Space, Violation
from mc.hx import GraphFrame, diff_snap, graph_nodes, make_gf, snapshot
from hatchet.node import MultiplePathError
from hatchet.external.console import ConsoleRenderer
from hatchet.util.colormaps import ColorMaps

PROPERTY = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = ["node fill colors in dot output are not judged", "flamegraphs of missing values and of nodes with several call paths are not judged"]
NAN, INF = None, float("inf")
PREAMBLE_LINES = 7
VALUES = {
    "range": (0.0, 10.0, 5.5, 2.0, 8.0),
    "equal": (4.0, 4.0, 4.0, 4.0, 4.0),
    "odd": (INF, NAN, -INF, 3.0, 1.0),
    "neg": (-5.0, 0.25, 100.125, -0.0005, 7.0),
}
COMBOS = {"n": [()], "nr": [(0,), (1,)], "nt": [(0,), (1,)], "nrt": [(0, 0), (0, 1), (1, 0), (1, 1)]}
LONG = "x" * 18 + "0123456789" + "y" * 18


def build(n, edges, names, index, vals, extra):
    edges = [tuple(e) for e in edges]
    rows = []
    full = {}
    for v in range(n):
        for k, c in enumerate(COMBOS[index]):
            t = VALUES[vals][(v + k) % 5]
            cols = {"time": t, "time (inc)": float(100 + 10 * v + k), "nm2": "alt%d" % v, "ann": "ABA"[(v + k) % 3]}
            if "missing" in extra:
                cols["_missing_node"] = (v + k) % 3
            if "file" in extra:
                cols["file"] = "f%d.c" % v
            if "pattern" in extra:
                cols["t_pattern"] = ("none", "constant", "phased", "dynamic", "sporadic")[v]
            rows.append((v, c, cols))
            full[v, c] = dict(cols, name=names[v])
    gf, nodes = make_gf(edges, names, rows, index)
    return gf, nodes, full


def select(index, rank, thread):
    return {"n": (), "nr": (rank,), "nt": (thread,), "nrt": (rank, thread)}[index]


class Tty:
    def __init__(self, tty):
        self.tty = tty

    def isatty(self):
        return self.tty

    def write(self, s):
        pass

    def flush(self):
        pass


END, FAINT, BLUE, LEFT, RIGHT = "\033[0m", "\033[2m", "\033[34m", "\033[38;5;160m", "\033[38;5;28m"
HILITE = "\033[48;5;246m\033[38;5;232m"
SYMBOL = {"none": "", "constant": "\u2192", "phased": "\u2933", "dynamic": "\u21dd", "sporadic": "\u219d"}


def model_tree(n, edges, names, index, full, nodes, o):
    sel = select(index, o["rank"], o["thread"])
    color = o["color"]
    met = o["metric"]
    prim = met if isinstance(met, str) else met[0]
    second = met[1] if isinstance(met, list) and len(met) > 1 else None
    cmap = ColorMaps().get_colors(o["colormap"], o["invert"]) if color else [""] * 7
    end, faint, blue, left, right = (END, FAINT, BLUE, LEFT, RIGHT) if color else ("",) * 5
    hil = HILITE if color else ""
    # the range of the metric: finite values of the selected rank
    pool = [r[prim] for (v, c), r in full.items() if "r" not in index or c[0] == o["rank"]]
    pool = [x for x in pool if x is not None and abs(x) != INF]
    lo = min(pool, default=float("nan")) if o["min"] is None else o["min"]
    hi = max(pool, default=float("nan")) if o["max"] is None else o["max"]

    def mcolor(x):
        if x is None:
            return blue
        p = (x - lo) / (hi - lo) if hi != lo else x
        for i, b in enumerate((0.9, 0.7, 0.5, 0.3, 0.1)):
            if p > b:
                return cmap[i]
        return cmap[5] if p >= 0 else blue

    num = lambda x: ("{:.%df}" % o["precision"]).format(float("nan") if x is None else x)

    def ncolor(name):
        if not o["highlight"] or "<unknown procedure>" in name or "<unknown file>" in name:
            return ""
        return hil

    anns = sorted({str(r[o["annotation"]]) for r in full.values()}) if o["annotation"] else []
    patcolors, patorder = None, []
    if o["annotation"] and "_pattern" in o["annotation"]:
        for v, c in sorted(full, key=lambda k: (nodes[k[0]]._hatchet_nid, k[1])):
            if full[v, c][o["annotation"]] not in patorder:
                patorder.append(full[v, c][o["annotation"]])
        if color and o["anncolor"] is not None:
            patcolors = ColorMaps().get_colors(o["anncolor"], False) if isinstance(o["anncolor"], str) else o["anncolor"]
    nid = {v: nodes[v]._hatchet_nid for v in range(n)}
    depth = {v: nodes[v]._depth for v in range(n)}
    ch = {v: sorted([b for a, b in edges if a == v], key=lambda c: nid[c]) for v in range(n)}
    have = {b for _, b in edges}
    seen = set()
    out = []

    def frame(v, indent, cindent):
        if depth[v] >= o["depth"]:
            return
        r = full[v, sel]
        s = indent + mcolor(r[prim]) + num(r[prim]) + end
        if second:
            s += " " + faint + num(r[second]) + end
        if o["annotation"]:
            a = str(r[o["annotation"]])
            if "_pattern" in o["annotation"]:
                if a == "none" and patcolors:
                    pass
                elif patcolors:
                    s += " " + (patcolors[a] if isinstance(patcolors, dict) else patcolors[patorder.index(a) % len(patcolors)]) + SYMBOL[a] + end
                else:
                    s += " " + SYMBOL[a]
            elif o["anncolor"] is not None and color:
                m = o["anncolor"]
                if isinstance(m, dict):
                    c = m[a]
                else:
                    m = ColorMaps().get_colors(m, False) if isinstance(m, str) else m
                    c = m[anns.index(a) % len(m)]
                s += " [%s%s%s]" % (c, a, end)
            else:
                s += " [%s]" % a
        nm = r[o["name"]]
        if not o["expand"] and len(nm) > 39:
            nm = nm[:18] + "..." + nm[-18:]
        s += " " + ncolor(nm) + nm + end
        if "_missing_node" in r:
            s += ["", " " + left + "\u25c0 " + end, " " + right + "\u25b6 " + end][r["_missing_node"]]
        if o["context"] in r:
            s += " " + faint + str(r[o["context"]]) + end
        out.append(s)
        if v in seen:
            return
        seen.add(v)
        for i, c in enumerate(ch[v]):
            lastc = i == len(ch[v]) - 1
            frame(c, cindent + ("\u2514\u2500 " if lastc else "\u251c\u2500 "), cindent + ("   " if lastc else "\u2502  "))

    for r in sorted([v for v in range(n) if v not in have], key=lambda v: nid[v]):
        frame(r, "", "")
    text = "".join(s + "\n" for s in out)
    if color:
        lab = lambda i, a, b: cmap[i] + "\u2588 " + end + "{:.2f} - {:.2f}\n".format(a * (hi - lo) + lo, b * (hi - lo) + lo)
        text += "\n\033[4mLegend" + end + " (Metric: %s Min: %.2f Max: %.2f)\n" % (prim, lo, hi)
        bounds = [0.9, 1.0], [0.7, 0.9], [0.5, 0.7], [0.3, 0.5], [0.1, 0.3], [0.0, 0.1]
        for i, (a, b) in enumerate(bounds):
            text += lab(i, a, b)
        text += "\n" + ncolor("name") + "name" + end + " User code    " + left + "\u25c0 " + end + " Only in left graph    "
        text += right + "\u25b6 " + end + " Only in right graph\n"
        if o["annotation"] and "_pattern" in o["annotation"]:
            text += "\nTemporal Pattern" + "".join("   %s %s" % (SYMBOL[k], k) for k in SYMBOL if k != "none") + "\nTemporal Score  "
            for i, (a, b) in enumerate(((0.0, 0.2), (0.2, 0.4), (0.4, 0.6), (0.6, 1.0))):
                lc = patcolors if not isinstance(patcolors, dict) else None
                text += (lc[(i + 1) % len(lc)] if lc else "") + "   %s - %s" % (a, b) + (end if lc else "")
    return text


DEFAULTS = dict(metric="time", annotation=None, precision=3, name="name", expand=False, context="file", rank=0, thread=0,
                depth=10000, highlight=False, colormap="RdYlGn", invert=False, anncolor=None, header=False, min=None, max=None, color=False)


def run_tree(case, rec):
    n, edges, names, index, vals, extra, opts = case
    edges = [tuple(e) for e in edges]
    gf, nodes, full = build(n, edges, names, index, vals, extra)
    o = dict(DEFAULTS)
    o.update(opts)
    before = snapshot(gf)
    old = sys.stdout
    sys.stdout = Tty(o["color"])
    try:
        got = gf.tree(metric_column=o["metric"], annotation_column=o["annotation"], precision=o["precision"], name_column=o["name"],
                      expand_name=o["expand"], context_column=o["context"], rank=o["rank"], thread=o["thread"], depth=o["depth"],
                      highlight_name=o["highlight"], colormap=o["colormap"], invert_colormap=o["invert"],
                      colormap_annotations=o["anncolor"], render_header=o["header"], min_value=o["min"], max_value=o["max"])
        again = gf.tree(metric_column=o["metric"], rank=o["rank"], thread=o["thread"], render_header=False)
        ascii_ = ConsoleRenderer(unicode=False, color=o["color"]).render(
            gf.graph.roots, gf.dataframe, metric_column=o["metric"], annotation_column=o["annotation"], precision=o["precision"],
            name_column=o["name"], expand_name=o["expand"], context_column=o["context"], rank=o["rank"], thread=o["thread"],
            depth=o["depth"], highlight_name=o["highlight"], colormap=o["colormap"], invert_colormap=o["invert"],
            colormap_annotations=o["anncolor"], render_header=False, min_value=o["min"], max_value=o["max"])
    finally:
        sys.stdout = old
    rec.op(3)
    want = model_tree(n, edges, names, index, full, nodes, o)
    if o["header"]:
        from hatchet.version import __version__

        head, got = got[:got.index("v" + __version__)], got.split("v" + __version__, 1)[1].lstrip("\n")
        if "_/_/" not in head:
            raise Violation("no header in %r" % head)
    if got != want:
        raise Violation("tree of %s:\n%s\nexpected:\n%s" % (case, got, want))
    for a, b in ("\u251c\u2500", "|-"), ("\u2502", "|"), ("\u2514\u2500", "`-"), ("\u25c0", "<"), ("\u25b6", ">"):
        want = want.replace(a, b)
    if ascii_ != want.encode("utf-8"):
        raise Violation("tree of %s without unicode:\n%s\nexpected:\n%s" % (case, ascii_, want))
    plain = dict(DEFAULTS, metric=o["metric"], rank=o["rank"], thread=o["thread"], color=o["color"])
    want = model_tree(n, edges, names, index, full, nodes, plain)
    if again != want:
        raise Violation("second tree of %s:\n%s\nexpected:\n%s" % (case, again, want))
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("tree changed the graphframe: %s" % d)
    rec.state(n, edges, names, index, vals, extra, sorted(map(str, opts.items())))
    rec.outcome("color" if o["color"] else "plain")


NODE = re.compile(r'"(\d+)" \[color="(#[0-9a-f]{6})", label="((?:[^"\\]|\\.)*)" shape=oval\];', re.S)
EDGE = re.compile(r'"(\d+)" -> "(\d+)";')


def run_dot(case, rec):
    n, edges, names, index, vals, rank, thread, metric, threshold, name = case
    edges = [tuple(e) for e in edges]
    gf, nodes, full = build(n, edges, names, index, vals, ())
    sel = select(index, rank, thread)
    before = snapshot(gf)
    got = gf.to_dot(metric=metric, name=name, rank=rank, thread=thread, threshold=threshold)
    rec.op()
    m = metric or "time"
    hi = max(r[m] for r in full.values())
    shown = {v for v in range(n) if full[v, sel][m] >= threshold * hi}
    have = {b for _, b in edges}
    ch = {v: [b for a, b in edges if a == v] for v in range(n)}
    reach, st = set(), [v for v in range(n) if v not in have and v in shown]
    while st:
        v = st.pop()
        if v not in reach:
            reach.add(v)
            st += [c for c in ch[v] if c in shown]
    nid = {v: nodes[v]._hatchet_nid for v in range(n)}
    wn = sorted((nid[v], full[v, sel][name]) for v in reach)
    we = sorted((nid[a], nid[b]) for a, b in edges if a in reach and b in shown)
    # in dot, \\ and \" inside a label are a backslash and a quote; other escapes would not be the name's characters
    unescape = lambda c: re.sub(r"\\(.)", lambda m: m.group(1) if m.group(1) in '\\"' else "<escape %s>" % m.group(1), c)
    gn = sorted((int(a), unescape(c)) for a, _, c in NODE.findall(got))
    ge = sorted((int(a), int(b)) for a, b in EDGE.findall(got))
    if gn != wn:
        raise Violation("dot nodes %s, expected %s (%s)" % (gn, wn, case))
    if ge != we:
        raise Violation("dot edges %s, expected %s (%s)" % (ge, we, case))
    lines = [l for l in NODE.sub("node", got).split("\n") if l.strip()]
    if lines[0] != "strict digraph {" or lines[-1] != "}" or len(lines) != 5 + len(wn) + len(we):
        raise Violation("dot text:\n%s" % got)
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("to_dot changed the graphframe: %s" % d)
    rec.state(n, edges, names, index, vals, rank, thread, threshold)


def run_flame(case, rec):
    n, edges, names, index, vals, rank, thread, metric, name = case
    edges = [tuple(e) for e in edges]
    gf, nodes, full = build(n, edges, names, index, vals, ())
    sel = select(index, rank, thread)
    before = snapshot(gf)
    m = metric or "time"
    par = {b: a for a, b in edges}
    want = []
    for v in range(n):
        p, u = [v], v
        while u in par:
            u = par[u]
            p.append(u)
        want.append("; ".join(full[x, sel][name] for x in p[::-1]) + " " + str(round(full[v, sel][m])))
    got = gf.to_flamegraph(metric=metric, name=name, rank=rank, thread=thread)
    rec.op()
    if not got.endswith("\n") or sorted(got[:-1].split("\n")) != sorted(want):
        raise Violation("flamegraph of %s:\n%s\nexpected the lines:\n%s" % (case, got, "\n".join(want)))
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("to_flamegraph changed the graphframe: %s" % d)
    rec.state(n, edges, names, index, vals, rank, thread)


LINE = re.compile(r"^((?:\u2502  |   )*)((?:\u251c|\u2514)\u2500 )?(\S+) (\w+)( \u25c0 | \u25b6 )?$")


def run_marks(case, rec):
    (n1, e1, names1), (n2, e2, names2), op = case

    def one(n, e, names):
        e = [tuple(x) for x in e]
        par = {b: a for a, b in e}

        def path(v):
            return (path(par[v]) if v in par else ()) + (names[v],)

        gf, _ = make_gf(e, names, [(v, (), {"time": float(v + 1), "time (inc)": 1.0}) for v in range(n)], "n")
        return gf, {path(v) for v in range(n)}

    def parse(gf):
        out, stack = {}, []
        for l in gf.tree(render_header=False).rstrip("\n").split("\n"):
            m = LINE.match(l)
            if m is None:
                raise Violation("line %r of\n%s" % (l, gf.tree(render_header=False)))
            d = len(m.group(1)) // 3 + (1 if m.group(2) else 0)
            stack[d:] = [m.group(4)]
            out.setdefault(tuple(stack), []).append({None: 0, "\u25c0": 1, "\u25b6": 2}[m.group(5) and m.group(5).strip()])
        return out

    g1, p1 = one(n1, e1, names1)
    g2, p2 = one(n2, e2, names2)
    if len(p1) < n1 or len(p2) < n2:
        raise Skip()
    fn = {"-": lambda a, b: a - b, "+": lambda a, b: a + b, "/": lambda a, b: a / b}[op]
    d = fn(g1, g2)
    rec.op()
    want = {p: [0 if p in p1 and p in p2 else 1 if p in p1 else 2] for p in p1 | p2}
    got = parse(d)
    if got != want:
        raise Violation("%s: the marks are %s, expected %s" % (case, got, want))
    # a graphframe of the same nodes without marks, combined with the marked one
    ps = sorted(p1 | p2)
    g3, _ = one(len(ps), [(ps.index(p[:-1]), i) for i, p in enumerate(ps) if len(p) > 1], [p[-1] for p in ps])
    e = fn(g3, d)
    rec.op()
    got = parse(e)
    if got != {p: [0] for p in ps}:
        raise Violation("%s combined again: the marks are %s, expected none" % (case, got))
    rec.state(case)


def run_errors(case, rec):
    what, opts = case
    gf, nodes, full = build(3, [(0, 1), (0, 2)], "abc", "n", "range", ())
    old = sys.stdout
    sys.stdout = Tty(what == "colormap")
    before = snapshot(gf)
    try:
        gf.tree(**opts)
    except KeyError:
        ok = what == "metric"
    except ValueError:
        ok = what in ("colormap", "renamed")
    except TypeError:
        ok = what == "both"
    else:
        ok = False
    finally:
        sys.stdout = old
    rec.op()
    if not ok:
        raise Violation("tree(%s) does not raise the documented error" % opts)
    if diff_snap(before, snapshot(gf)):
        raise Violation("tree(%s) changed the graphframe" % opts)
    rec.state(what, str(opts))


def spaces(tier):
    th = tier == "thorough"

    def shapes(N, kind="dag"):
        for n in range(1, N + 1):
            for e, _ in gen.labelled(n, 1, kind):
                for k in range(2):
                    yield n, e, ["abcde"[:n], "edcba"[:n]][k]

    OPTS = [
        {}, {"depth": 1}, {"depth": 2}, {"depth": 0}, {"precision": 0}, {"precision": 1, "metric": "time (inc)"}, {"metric": ["time"]},
        {"metric": ["time", "time (inc)"]}, {"metric": ["time (inc)", "time", "nm2"]}, {"name": "nm2"}, {"annotation": "ann"},
        {"annotation": "ann", "metric": ["time", "time (inc)"], "name": "nm2", "precision": 2}, {"header": True}, {"context": "nm2"},
        {"rank": 1}, {"thread": 1}, {"rank": 1, "thread": 1},
        {"color": True}, {"color": True, "highlight": True}, {"color": True, "min": 0}, {"color": True, "min": 2.0, "max": 9.0},
        {"color": True, "max": 0}, {"color": True, "colormap": "PuOr", "invert": True},
        {"color": True, "annotation": "ann"}, {"color": True, "annotation": "ann", "anncolor": "RdBu"},
        {"color": True, "annotation": "ann", "anncolor": ["\033[1m", "\033[3m"]}, {"color": True, "annotation": "ann", "anncolor": ["\033[1m"]},
        {"color": True, "annotation": "ann", "anncolor": {"A": "\033[1m", "B": "\033[9m"}}, {"annotation": "ann", "anncolor": "RdBu"},
        {"color": True, "rank": 1, "metric": ["time", "time (inc)"]},
    ]

    def tree():
        for n, e, names in shapes(4):
            for index in ("n", "nr", "nt", "nrt"):
                if index != "n" and n > 3 and not th:
                    continue
                for vals in VALUES:
                    for o in OPTS:
                        if o.get("rank") and "r" not in index or o.get("thread") and "t" not in index:
                            continue
                        if n == 4 and not th and vals in ("equal", "neg") and not o.get("color"):
                            continue
                        yield [n, e, list(names), index, vals, [], o]

    def extras():
        for n, e, _ in shapes(4):
            names = [LONG, "<unknown procedure>", "b" * 39, "c" * 40][:n]
            for extra in (["missing"], ["file"], ["missing", "file"]):
                for o in ({}, {"expand": True}, {"color": True, "highlight": True}, {"color": True, "context": "nope"}):
                    yield [n, e, names, "n", "range", extra, o]
            if n < 4:
                yield [n, e, names, "nr", "range", ["missing"], {"rank": 1}]
            for o in ({}, {"color": True}, {"color": True, "anncolor": "RdBu"}, {"color": True, "anncolor": ["\033[1m", "\033[3m"]}, {"anncolor": "RdBu"}, {"color": True, "anncolor": {k: "\033[%dm" % i for i, k in enumerate(SYMBOL)}}):
                yield [n, e, names, "n", "range", ["pattern"], dict(o, annotation="t_pattern")]

    def bigger():
        for e, _ in gen.labelled(5, 1, "dag"):
            for o in ({}, {"depth": 3}, {"color": True, "metric": ["time", "time (inc)"]}):
                yield [5, e, list("cabed"), "n", "range", [], o]

    def maps():
        for c in ("RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "RdGy", "RdYlBu", "Spectral"):
            for inv in (False, True):
                for vals in VALUES:
                    yield [5, [(0, 1), (0, 2), (1, 3), (1, 4)], list("abcde"), "n", vals, [], {"color": True, "colormap": c, "invert": inv}]

    def dot():
        for n, e, names in shapes(4):
            for index in ("n", "nr", "nt", "nrt"):
                for vals in ("range", "equal", "neg"):
                    for rank, thread in {"n": [(0, 0)], "nr": [(0, 0), (1, 0)], "nt": [(0, 0), (0, 1)], "nrt": [(0, 0), (0, 1), (1, 0)]}[index]:
                        for thr in (0.0, 0.3, 0.6, 1.0) if index == "n" or th else (0.0, 0.3):
                            if vals == "neg" and thr == 0.0:
                                continue
                            yield [n, e, list(names), index, vals, rank, thread, None if thr else "time", thr, "name" if thr < 0.5 else "nm2"]

    def dot_names():
        chars = ["a", '"', "\\", "\n", "n", ";", "é", "<", "]"]
        words = ["".join(t) for k in range(1, 4 if th else 3) for t in itertools.product(chars, repeat=k)] + ['operator""_x', "C:\\new\\x", '"]; "9" -> "8', "a\\"]
        for w in words:
            yield [1, [], [w], "n", "range", 0, 0, None, 0.0, "name"]
            yield [3, [[0, 1], [0, 2]], ["r", w, w + "b"], "nr", "range", 1, 0, None, 0.0, "name"]

    def flame():
        for n, e, names in shapes(4 if not th else 5, "forest"):
            for index in ("n", "nr", "nt", "nrt"):
                for vals in ("range", "equal", "neg"):
                    for rank, thread in {"n": [(0, 0)], "nr": [(0, 0), (1, 0)], "nt": [(0, 0), (0, 1)], "nrt": [(0, 0), (0, 1), (1, 0)]}[index]:
                        for metric, name in ((None, "name"), ("time (inc)", "name"), ("time", "nm2")):
                            yield [n, e, list(names), index, vals, rank, thread, metric, name]

    def marks():
        pool = []
        for n in range(1, 5 if th else 4):
            for e, _ in gen.labelled(n, 1, "forest"):
                for p in itertools.permutations("abcd"[:n]) if n < 4 else ("abcd", "dbca"):
                    pool.append([n, e, list(p)])
        for a in pool:
            for b in pool:
                for op in "-+/":
                    yield [a, b, op]

    def errors():
        for old, new, val in (("metric", "metric_column", "time"), ("name", "name_column", "name"), ("expand_names", "expand_name", True),
                              ("context", "context_column", "name"), ("invert_colors", "invert_colormap", True)):
            yield ["renamed", {old: val}]
            yield ["renamed", {old: val, "precision": 2}]
            yield ["both", {old: val, new: val}]
        for o in ({"metric_column": "nope"}, {"metric_column": ["time", "nope"]}, {"metric_column": ["nope", "time"]}):
            yield ["metric", o]
        for o in ({"colormap": "nope"}, {"colormap": "nope", "invert_colormap": True}):
            yield ["colormap", o]

    return [
        Space("tree", tree, run_tree, "all DAGs <=4 nodes x names x indexes x value patterns x %d option sets; rendered twice" % len(OPTS)),
        Space("tree-extras", extras, run_tree, "long and unknown names, missing-node marks, context, patterns"),
        Space("tree-5", bigger, run_tree, "all 5-node DAGs"),
        Space("colormaps", maps, run_tree, "every colormap, inverted or not"),
        Space("dot", dot, run_dot, "all DAGs <=4 nodes x indexes x rank/thread x thresholds"),
        Space("dot-names", dot_names, run_dot, "names of up to %d of 9 characters that mean something in dot" % (3 if th else 2)),
        Space("flamegraph", flame, run_flame, "all forests x indexes x rank/thread x metric and name columns"),
        Space("marks", marks, run_marks, "all pairs of forests <=3 (thorough 4) nodes x names: marks of one-sided nodes, and their absence after a second operation on equal node sets"),
        Space("errors", errors, run_errors, "unknown metrics and colormaps, parameters by their former names, alone and next to the present ones"),
    ]
