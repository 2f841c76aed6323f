"""C25: notebook bindings (Roundtrip), the Python side and roundtrip.js running together, against a model of the bindings."""
import io
import itertools
import json
import os
import shutil
import sys
import tempfile

import pandas as pd

from mc.core import Space, Violation
from mc import gen, hx
from mc.notebook import Broken, Notebook

PROPERTY = "C25"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the notebook front end is a stand-in with the interface of the classic notebook: outputs are handled in order, "
    "cells run one after another, executing a cell again discards the outputs of its unfinished execution, and the "
    "user clicks into the cell that is used",
    "callbacks run after each cell take the arguments they accept (IPython <= 7, the versions Roundtrip supports)",
]


def view(nb, scripts, pairs):
    """What a visualization magic does: load its files, pass its data, show it."""
    nb.rt.load_web_files(scripts)
    for py, js in pairs:
        nb.rt.var_to_js(py, js, watch=py[0] == "?")
    nb.rt.initialize()


_files = {}


def script(js):
    """A visualization's code: reports in which cell it draws and the data that it sees."""
    if _files.get("pid") != os.getpid():
        import atexit
        from multiprocessing import util

        _files.clear()
        _files.update(pid=os.getpid(), dir=tempfile.mkdtemp(prefix="hxjs-"))
        util.Finalize(None, shutil.rmtree, args=(_files["dir"], True), exitpriority=1)
        atexit.register(shutil.rmtree, _files["dir"], True)
    p = os.path.join(_files["dir"], "see_%s.js" % js)
    if not os.path.exists(p):
        with open(p, "w") as f:
            f.write("seen.push([element.cell, '%s', Roundtrip['%s']]);\n" % (js, js))
    return p


def notebook(cells, order="async", **convs):
    nb = Notebook(cells, order=order)

    def magic(line):
        pairs = [t.split(">") for t in line.split()]
        view(nb, [script(js) for _, js in pairs], pairs)

    def cview(line):
        py, js = line.strip().split(">")
        nb.rt.load_web_files([script(js)])
        nb.rt.var_to_js(py, js, watch=py[0] == "?", **convs["view"])
        nb.rt.initialize()

    def fetch(line):
        js, py = line.strip().split(">")
        nb.rt.fetch_data(js, py, **convs.get("fetch", {}))

    for name, f in (("view", magic), ("cview", cview), ("fetch", fetch)):
        nb.shell.register_magic_function(f, "line", name)
    return nb


def text(v):
    """The documented encoding of plain Python data for JavaScript."""
    if v is None:
        return "{}"
    if isinstance(v, (dict, list)):
        return json.dumps(v)
    return str(v)


# ---------------------------------------------------------------- histories of a notebook
CONFIGS = {
    "A": [[("x", "a")], [("x", "b")], [("y", "a")]],
    "B": [[("x", "a"), ("y", "b")], [("x", "b")], [("y", "c")]],
    "C": [[("x", "a")], [("x", "a")], [("x", "b")]],
}


def alphabet(cfg):
    views = CONFIGS[cfg]
    ops = [["assign", "x"], ["assign", "y"]]
    for i, pairs in enumerate(views):
        ops.append(["watch", i])
        ops.append(["plain", i])
        for _, js in pairs:
            ops.append(["gui", i, js])
    ops.append(["gui", 0, "b" if cfg != "B" else "c"])
    ops += [["fetch", "a"], ["fetch", "b"]]
    return ops


def run_history(case, rec):
    cfg, order, ops = case
    views = CONFIGS[cfg]
    n = len(views)
    nb = notebook([""] * (n + 1), order)
    ns, js, bound, watched, shown = {"x": None, "y": None}, {}, {}, {}, False
    # JavaScript variables with more than one acceptable value: those no longer bound to a variable that is assigned,
    # and those that several cells run again fill from different variables (the order of the cells is left open)
    loose = {}

    def passed(i):
        for py, v in views[i]:
            js[v] = text(ns[py])
            loose.pop(v, None)

    def spread(py, me):
        cells = set()
        for (v, p), who in bound.items():
            if p == py:
                cells |= who
        cells.discard(me)
        fill = {}
        for i in sorted(cells):
            passed(i)
            for p, v in views[i]:
                fill.setdefault(v, set()).add(text(ns[p]))
        for v in fill:
            if len(fill[v]) > 1:
                loose[v] = fill[v]
        return sorted(cells)

    for k, op in enumerate(ops):
        where = "after %s of %s" % (ops[: k + 1], case[:2])
        rec.op()
        want, look = [], []
        try:
            if op[0] in ("watch", "plain"):
                i = op[1]
                nb.run(i, "%view " + " ".join("%s%s>%s" % ("?" if op[0] == "watch" else "", p, v) for p, v in views[i]))
                shown = True
                passed(i)
                for p, v in views[i]:
                    who = bound.setdefault((v, p), set())
                    (who.add if op[0] == "watch" else who.discard)(i)
                    if op[0] == "watch":
                        watched.setdefault(p, set()).add(v)
                look = [i]
            elif op[0] == "assign":
                p = op[1]
                ns[p] = 10 + k
                for v in watched.get(p, ()):
                    if bound.get((v, p)):
                        js[v] = text(ns[p])
                        loose.pop(v, None)
                    else:
                        loose[v] = {text(ns[p])}
                want = look = spread(p, n)
                nb.run(n, "%s = %d" % (p, ns[p]))
            elif op[0] == "gui":
                _, i, v = op
                val = "g%d" % k
                js[v] = val
                loose.pop(v, None)
                mine = [p for (w, p), who in bound.items() if w == v and i in who]
                if mine:
                    ns[mine[0]] = val
                    want = look = spread(mine[0], i)
                nb.gui(i, v, val)
            else:
                v = op[1]
                if not shown or v not in js:
                    return  # nothing to fetch yet
                nb.run(n, "%%fetch %s>z" % v)
                if nb.ns().get("z") not in {js[v]} | loose.get(v, set()):
                    raise Violation("fetched %r, expected %r %s" % (nb.ns().get("z"), js[v], where))
        except Broken as e:
            raise Violation("%s %s" % (e, where))
        ran = nb.ran()
        if ran != want:
            raise Violation("cells %s were run again, expected %s %s" % (ran, want, where))
        got = nb.data("a", "b", "c")
        for v in "abc":
            if got[v] != js.get(v) and got[v] not in loose.get(v, ()):
                raise Violation("Roundtrip[%r] is %r, expected %r %s" % (v, got[v], js.get(v), where))
            if v in loose:
                js[v] = got[v]
                del loose[v]
        for p in "xy":
            if nb.ns().get(p) != ns[p]:
                raise Violation("%s is %r, expected %r %s" % (p, nb.ns().get(p), ns[p], where))
        # every view that was shown in this step drew in its own cell, and its last drawing saw the current data
        last = {}
        for c, v, d in nb.seen:
            last[(c, v)] = d
        nb.seen = []
        for i in look:
            for p, v in views[i]:
                if (i, v) not in last:
                    raise Violation("the view of cell %d did not draw %s in its cell: %s %s" % (i, v, last, where))
        for c, v in last:
            if c not in look:
                raise Violation("a view drew in cell %r, expected %s %s" % (c, look, where))
        if len(look) == 1:
            for p, v in views[look[0]]:
                if last[(look[0], v)] != js[v]:
                    raise Violation("the view in cell %d saw %r, expected %r %s" % (look[0], last[(look[0], v)], js[v], where))
        rec.state(cfg, sorted(js.items()), sorted(bound.items(), key=str), sorted(ns.items(), key=str))


def histories(depth, orders):
    def cases():
        for d in range(1, depth + 1):
            for cfg in sorted(CONFIGS):
                al = alphabet(cfg)
                for ops in itertools.product(al, repeat=d):
                    if ops[0][0] in ("gui", "fetch") and d > 1:
                        continue
                    for order in orders:
                        yield [cfg, order, list(ops)]

    return cases


# ---------------------------------------------------------------- every value arrives unchanged
def run_data(case, rec):
    kind, val = case
    src = "float('inf')" if val == float("inf") else repr(val)
    if kind == "frame":
        df = pd.DataFrame(val)
        want_json = json.loads(df.to_json())
        src = "__import__('pandas').DataFrame(%r)" % (val,)
    else:
        want_json = val if isinstance(val, (dict, list)) else None
    nb = notebook([""] * 4)
    where = "(%s)" % (case,)

    def check(v, step):
        rec.op()
        if want_json is not None:
            got = nb.parsed(v)
            if got != want_json:
                raise Violation("%s: Roundtrip[%r] holds %r, expected %r %s" % (step, v, got, want_json, where))
        else:
            got = nb.data(v)[v]
            if got != text(val):
                raise Violation("%s: Roundtrip[%r] is %r, expected %r %s" % (step, v, got, text(val), where))

    try:
        nb.run(3, "x = %s" % src)
        nb.run(0, "%view x>a")
        check("a", "passing a variable")
        nb.rt.bridges[nb.rt.last_id]
        if kind != "frame":
            nb.run(3, "%view x>c")
            nb.shell.user_ns["f"] = lambda: nb.rt.data_to_js(val, "d")
            nb.run(3, "f()")
            check("d", "passing data")
        nb.run(0, "%view ?x>a")
        nb.run(1, "%view ?x>b")
        nb.run(3, "x = 1")
        nb.run(3, "x = %s" % src)
        check("a", "assigning")
        check("b", "assigning")
        s = text(val) if kind != "frame" else json.dumps(want_json)
        # the way back: JavaScript code escapes what it sends itself (as cct_model.js does), so only texts that are the
        # same with and without escaping are judged
        if set("\\'\n\r") & set(s + nb.data("a")["a"]):
            return rec.state(kind, src)
        nb.run(3, "%fetch a>z")
        z = nb.ns()["z"]
        if want_json is not None and json.loads(z) != want_json:
            raise Violation("fetched %r, expected the JSON of %r %s" % (z, want_json, where))
        if want_json is None and z != text(val):
            raise Violation("fetched %r, expected %r %s" % (z, text(val), where))
        nb.gui(0, "a", s)
        for v in "ab":
            if nb.data(v)[v] != s:
                raise Violation("set in the view: Roundtrip[%r] is %r, expected %r %s" % (v, nb.data(v)[v], s, where))
        if nb.ns()["x"] != s:
            raise Violation("set in the view: x is %r, expected %r %s" % (nb.ns()["x"], s, where))
    except Broken as e:
        raise Violation("%s %s" % (e, where))
    rec.state(kind, src)


CHARS = ["a", "'", '"', "\\", "\n", "{", "}", "$", "`", "%", "\u00e9", "\u20ac", "\U0001f600", "\t", "<", "\r", "\u2028"]


def data_cases(tier):
    def cases():
        for v in [None, 0, 5, -1, 2.5, 1e300, float("inf"), 10 ** 20]:
            yield ["plain", v]
        for n in range(0, 3 if tier == "quick" else 4):
            chars = CHARS if n < 3 else CHARS[:10]
            for t in itertools.product(chars, repeat=n):
                s = "".join(t)
                yield ["plain", s]
                if n < 3:
                    yield ["json", {s: 1, "k": [s, None]}]
        for t in itertools.product(["", "a", "'", '"', "\\", "\n", "{x}"], repeat=2):
            yield ["json", [t[0], {"n": t[1], "m": [1, 2.5, True, None]}]]
            yield ["frame", {"c": [t[0], "b"], "d" + t[1]: [1.5, None]}]

    return cases


# ---------------------------------------------------------------- which cells count as an update of a variable
NEW = [  # statements that give x a new value (x is 2, y is 1, l is a list)
    "x = 7", "x=7", "x += 5", "x -= 5", "x *= 5", "x /= 5", "x //= 2", "x %= 2", "x **= 3", "x <<= 3", "x >>= 1",
    "x &= 1", "x |= 5", "x ^= 7", "y = x = 9", "x = y = 9", "x, y = 8, 9", "y, x = 8, 9", "(x, y) = (8, 9)",
    "x = (\n  7)", "x \\\n = 7", "x: int = 7", "if y:\n    x = 7", "for q in (7,):\n    x = q",
    "try:\n    x = 7\nfinally:\n    y = 1", "x = 7  # = x", "x = '''\n=\n'''", "y = 1; x = 7", "x = x + 5", "[x, y] = 8, 9",
]
OLD = [  # statements that leave x alone and never name it left of an assignment
    "y = x", "y = [x]", "y += x", "print(x)", "x", "x == 7", "# x = 7", "y = 'x = 7'", "xx = 7", "if x:\n    y = 3",
    "y = x == 7", "", "y = {'k': x}", "pass", "y = x + x", "x <= 7", "x != 7", "x >= 7",
]


def run_assign(case, rec):
    stmts = case
    nb = notebook([""] * 3)
    src = "\n".join(stmts)
    try:
        nb.run(2, "x = 2\ny = 1")
        nb.run(0, "%view ?x>a")
        nb.run(1, "%view y>b")
        nb.ran()
        ns = {"x": 2, "y": 1}
        err = None
        try:
            stdout, sys.stdout = sys.stdout, io.StringIO()
            exec(compile(src, "<cell>", "exec"), ns)
        except Exception as e:
            err = e
        finally:
            sys.stdout = stdout
        nb.run(2, src, may_fail=err is not None)
    except Broken as e:
        raise Violation("%s (%r)" % (e, src))
    rec.op()
    ran, got, x = nb.ran(), nb.data("a", "b"), nb.ns()["x"]
    if x != ns["x"]:
        raise Violation("x is %r after the cell, expected %r (%r)" % (x, ns["x"], src))
    if any(s in NEW for s in stmts):
        if got["a"] != text(x) or ran != [0]:
            raise Violation("x was assigned: Roundtrip['a'] is %r, expected %r; cells %s ran again, expected [0] (%r)"
                            % (got["a"], text(x), ran, src))
    elif ran or got["a"] != "2":
        raise Violation("x was not assigned, but cells %s ran again and Roundtrip['a'] is %r (%r)" % (ran, got["a"], src))
    if got["b"] != "1":
        raise Violation("an unwatched variable was passed on: %r (%r)" % (got["b"], src))
    rec.state(src)


def assign_cases(tier):
    def cases():
        for s in NEW + OLD:
            yield [s]
        for a, b in itertools.product(NEW + OLD, repeat=2):
            if tier != "quick" or (a in OLD) != (b in OLD) or a in OLD:
                yield [a, b]
        for s in NEW + OLD:
            yield [s, "1 / 0"]
            yield ["1", s]
        if tier != "quick":
            for a, b, c in itertools.product(OLD, NEW, OLD):
                yield [a, b, c]

    return cases


# ---------------------------------------------------------------- converters
def upper(data):
    return data.upper()


def doubled(data):
    def twice(s):
        return s + s

    return twice(data)


class Nested:
    @staticmethod
    def make():
        def inner(data):
            if data:
                return ["in", data]
            return None

        return inner


def plain(data):
    return data


def enc_list(v):
    return "<%s>" % json.dumps(v)


def run_conv(case, rec):
    back_name, use_to, steps = case
    back = {"upper": upper, "doubled": doubled, "inner": Nested.make()}[back_name]
    pick = to = enc_list if use_to else text
    cur, kw = back, {}
    nb = notebook([""] * 3, view=kw, fetch={"converter": back})
    x, a, bound = None, None, False
    try:
        for k, op in enumerate(steps):
            rec.op()
            where = "after %s of %s" % (steps[: k + 1], case[:2])
            if op in ("view", "other"):
                # the view may be shown again with other converters
                cur = back if op == "view" else plain
                to = pick if op == "view" else text
                kw.clear()
                kw.update(from_js_converter=cur)
                if use_to or op == "other":
                    kw["to_js_converter"] = to
                nb.run(0, "%cview ?x>a")
                a, bound = to(x), True
            elif op == "assign":
                x = 5 + k
                nb.run(2, "x = %d" % x)
                if bound:
                    a = to(x)
            elif op == "gui":
                if not bound:
                    return
                a = "v%d" % k
                x = cur(a)
                nb.gui(0, "a", a)
            elif op == "fetch":
                if not bound:
                    return
                nb.run(2, "%fetch a>z")
                if nb.ns().get("z") != back(a):
                    raise Violation("fetched %r, expected %r %s" % (nb.ns().get("z"), back(a), where))
            if nb.ns().get("x") != x:
                raise Violation("x is %r, expected %r %s" % (nb.ns().get("x"), x, where))
            if nb.data("a")["a"] != a:
                raise Violation("Roundtrip['a'] is %r, expected %r %s" % (nb.data("a")["a"], a, where))
            rec.state(back_name, use_to, x, a)
    except Broken as e:
        raise Violation("%s (%s)" % (e, case))


def conv_cases(depth):
    def cases():
        for d in range(1, depth + 1):
            for b, u in itertools.product(["upper", "doubled", "inner"], [0, 1]):
                for t in itertools.product(["view", "assign", "gui", "fetch", "other"], repeat=d):
                    yield [b, u, list(t)]

    return cases


# ---------------------------------------------------------------- loading files
def run_files(case, rec):
    files = case
    d = tempfile.mkdtemp(prefix="hxweb-")
    try:
        paths, js, want_html = [], [], []
        for k, ext in enumerate(files):
            p = os.path.join(d, "f%d.%s" % (k, ext))
            with open(p, "w") as f:
                if ext == "js":
                    f.write("/* %d */ seen.push([element.cell, 'file', %d]);\n" % (9 - k, k))
                    js.append([0, "file", k])
                else:
                    f.write("<p>part %d</p>" % k)
                    want_html.append("<p>part %d</p>" % k if ext == "html" else "href='%s'" % p)
            paths.append(p)
        nb = notebook(["", ""])
        nb.shell.user_ns["f"] = lambda: (nb.rt.load_web_files(paths), nb.rt.data_to_js("d", "a"), nb.rt.initialize())
        for cell in (0, 1, 0):
            nb.html.clear()
            nb.run(cell, "f();")
            rec.op()
            seen, nb.seen = nb.seen, []
            if seen != [[cell] + e[1:] for e in js]:
                raise Violation("scripts ran as %s, expected %s in cell %d (%s)" % (seen, [e[2] for e in js], cell, files))
            html = "".join(nb.html)
            at = [html.find(h) for h in want_html]
            if -1 in at or at != sorted(at):
                raise Violation("the page lacks parts or has them in another order: %r, expected %s" % (html, want_html))
    except Broken as e:
        raise Violation("%s (%s)" % (e, case))
    finally:
        shutil.rmtree(d)
    rec.state(files)


def run_pack(case, rec):
    """load_webpack: scripts of the page run in order in the cell; the cache is used exactly when it was asked for."""
    nscripts, ops = case
    d = tempfile.mkdtemp(prefix="hxweb-")
    try:
        nb = notebook(["", ""])
        version, cached = [0, 0], [None, None]

        def write(k):
            for j in range(nscripts):
                with open(os.path.join(d, "s%d_%d.js" % (k, j)), "w") as f:
                    f.write("seen.push([element.cell, 'pack%d_%d', %d]);\n" % (k, j, version[k]))
            with open(os.path.join(d, "p%d.html" % k), "w") as f:
                f.write("<html><head>%s</head><body><p>v%d</p></body></html>" % (
                    "".join('<script src="%s"></script>' % os.path.join(d, "s%d_%d.js" % (k, j)) for j in range(nscripts)),
                    version[k]))

        write(0), write(1)
        for i, op in enumerate(ops):
            rec.op()
            if op[0] == "edit":
                version[op[1]] += 1
                write(op[1])
                continue
            _, k, cache, cell = op
            if not cache or cached[k] is None:
                cached[k] = version[k]
            nb.shell.user_ns["f"] = lambda: (nb.rt.load_webpack(os.path.join(d, "p%d.html" % k), cache=cache), nb.rt.initialize())
            nb.html.clear()
            nb.run(cell, "f();")
            seen, nb.seen = nb.seen, []
            want = [[cell, "pack%d_%d" % (k, j), cached[k]] for j in range(nscripts)]
            if seen != want:
                raise Violation("scripts ran as %s, expected %s after %s" % (seen, want, ops[: i + 1]))
            if "<p>v%d</p>" % cached[k] not in "".join(nb.html):
                raise Violation("the page is not version %d after %s: %r" % (cached[k], ops[: i + 1], nb.html))
            rec.state(nscripts, version, cached, op)
    except Broken as e:
        raise Violation("%s (%s)" % (e, case))
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- the tree visualization
def load_cct(nb, d):
    import importlib.util

    from mc import env

    spec = importlib.util.spec_from_file_location("hxloader", os.path.join(env.REPO, "hatchet", "vis", "loader.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.RT = nb.rt
    c = m.CCT(nb.shell)
    c.vis_dist = d  # the bundle itself is built by npm; this one has the same interface to the notebook
    nb.shell.register_magics(c)
    with open(os.path.join(d, "s.js"), "w") as f:
        f.write("seen.push([element.cell, 't', window.Roundtrip['hatchet_tree_def']]);\n"
                "window.Roundtrip['jsNodeSelected'] = JSON.stringify(['*']);\n")
    with open(os.path.join(d, "cct_bundle.html"), "w") as f:
        f.write("<html><head><script src='%s'></script></head><body></body></html>" % os.path.join(d, "s.js"))


def run_cct(case, rec):
    n, edges, names, cols, index = case
    rows = []
    for v in range(n):
        for idx in itertools.product(range(2), repeat={"n": 0, "nr": 1, "nrt": 2}[index]):
            vals = {"time": 1.5 * v + sum(idx), "time (inc)": 3.0 - v}
            if cols == "int":
                vals = {k: int(x) for k, x in vals.items()}
            elif cols == "odd":
                vals = {"time": [None, float("inf"), 2.0][v % 3], "time (inc)": v}
            rows.append((v, idx, vals))
    gf, nodes = hx.make_gf(edges, names, rows, index)
    gf2, _ = hx.make_gf(edges, names[::-1], rows, index)
    d = tempfile.mkdtemp(prefix="hxcct-")
    here = os.getcwd()
    os.chdir(d)  # the loader writes a file into the working directory when it is given something else
    try:
        nb = Notebook(["", "", ""])
        load_cct(nb, d)
        nb.shell.user_ns.update(g=gf, h=gf2)
        for cell, name, g in ((0, "g", gf), (1, "h", gf2), (0, "h", gf2)):
            want = json.loads(json.dumps(g.to_literal(), default=lambda o: o.item()))
            before = hx.snapshot(g)
            nb.run(cell, "%%cct %s" % name)
            rec.op()
            got = nb.parsed("hatchet_tree_def")
            if got != want:
                raise Violation("%%cct passed %s, expected %s (%s)" % (got, want, case))
            seen, nb.seen = nb.seen, []
            if [s[0] for s in seen] != [cell] or json.loads(seen[0][2]) != want:
                raise Violation("the visualization in cell %d saw %s (%s)" % (cell, seen, case))
            if hx.diff_snap(before, hx.snapshot(g)):
                raise Violation("%%cct changed the graphframe (%s)" % (case,))
            nb.run(2, "%cct_fetch_query q")
            if nb.ns().get("q") != '["*"]':
                raise Violation("%%cct_fetch_query gave %r (%s)" % (nb.ns().get("q"), case))
            # what cct_model.js sends for a selection of nodes
            ids = [x._hatchet_nid for x in g.graph.traverse()][:2]
            q = 'MATCH (\\"*\\")->(n) WHERE ' + " OR ".join('n.\\"node_id\\" = %d' % i for i in ids)
            nb.gui(cell, "jsNodeSelected", q)
            nb.run(2, "%cct_fetch_query q")
            if nb.ns().get("q") != q.replace("\\", ""):
                raise Violation("%%cct_fetch_query gave %r, the view sent %r (%s)" % (nb.ns().get("q"), q, case))
            del nb.shell.user_ns["q"]
        rec.state(case)
    except Broken as e:
        raise Violation("%s (%s)" % (e, case))
    finally:
        os.chdir(here)
        for k in "gh":
            nb.shell.user_ns.pop(k, None)
        shutil.rmtree(d)


def cct_cases(tier):
    def cases():
        for n in range(1, 4 if tier == "quick" else 5):
            for e, lab in gen.labelled(n, min(n, 2), "dag"):
                names = [["a", "o'b\"\\\n"][x] for x in lab]
                for cols in ("float", "int", "odd"):
                    for index in ("n", "nr", "nrt"):
                        yield [n, e, names, cols, index]

    return cases


def file_cases():
    for n in range(0, 4):
        for t in itertools.product(["js", "css", "html"], repeat=n):
            yield list(t)


def pack_cases(depth):
    def cases():
        al = [["edit", 0], ["load", 0, True, 0], ["load", 0, False, 1], ["load", 1, True, 1], ["load", 1, False, 0], ["edit", 1]]
        for n in (1, 2):
            for d in range(1, depth + 1):
                for t in itertools.product(al, repeat=d):
                    if t[-1][0] == "load":
                        yield [n, list(t)]

    return cases


def spaces(tier):
    q = tier == "quick"
    return [
        Space("histories", histories(3 if q else 4, ["async", "sync"]), run_history,
              "every sequence of up to %d of 13-14 notebook operations (run a view with or without '?', assign in a cell, use a view, fetch) in 3 notebooks, with callbacks immediate or deferred" % (3 if q else 4)),
        Space("data", data_cases(tier), run_data, "every string of up to %d of 17 (10) characters, JSON and data frames made of them, over every route" % (2 if q else 3)),
        Space("assignments", assign_cases(tier), run_assign, "every cell of up to %d of 48 statements" % (2 if q else 3)),
        Space("converters", conv_cases(4 if q else 5), run_conv, "every sequence of up to %d of 5 operations with 3 x 2 converters" % (4 if q else 5)),
        Space("cct", cct_cases(tier), run_cct, "%%cct and %%cct_fetch_query: all DAGs <=%d nodes x 2 names x column kinds x index kinds, shown in two cells" % (3 if q else 4)),
        Space("files", lambda: file_cases(), run_files, "every list of up to 3 files"),
        Space("webpack", pack_cases(4 if q else 5), run_pack, "every sequence of up to %d loads and edits of two pages" % (4 if q else 5)),
    ]
