"""C12: the call-tree viewer (%cct) against a model: every sequence of user actions on every small forest."""
import ast
import itertools
import json
import os
import shutil
import subprocess

from mc import env
from mc.core import Space, Violation
from mc.hx import GraphFrame, graph_nodes
from hatchet.query import parse_string_dialect

PROPERTY = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the viewer's data model and controller run in node without a browser, from the bundle and from the source modules; drawing (layout, pop-ups) is not judged",
    "trees without shared nodes and non-negative finite metrics; roots are not composed",
    "order of siblings is not judged, nor which of the nodes hidden together a surrogate stands for",
]
_proc = {}


def viewer():
    pid = os.getpid()
    if pid not in _proc:
        node = shutil.which("node") or shutil.which("node", path="/usr/bin:/usr/local/bin:/bin")
        p = subprocess.Popen([node, "--experimental-vm-modules", "--no-warnings", os.path.join(os.path.dirname(os.path.dirname(__file__)), "mc", "viewer.js"),
                              os.path.join(env.REPO, "hatchet", "vis")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        if json.loads(p.stdout.readline() or "null") != "ready":
            raise RuntimeError("the viewer does not start")
        _proc[pid] = p
    return _proc[pid]


def ask(impl, lit, seqs):
    p = viewer()
    p.stdin.write(json.dumps({"impl": impl, "lit": lit, "seqs": seqs}) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


# ---- the model ------------------------------------------------------------------------------------------------------
class Model:
    """kids[v]: displayed children, nodes or ("s", (hidden nodes)).  Hidden nodes keep what is displayed below them."""

    def __init__(self, par, metrics):
        self.par, self.metrics, self.n = par, metrics, len(par)
        self.roots = [v for v in range(self.n) if par[v] < 0]
        self.primary, self.enabled = "time", False
        self.initial()

    def initial(self):
        self.rebuild(lambda v: self.metrics["time"][v] != 0)

    def rebuild(self, show):
        self.removed = set()
        self.kids = {v: [c for c in range(self.n) if self.par[c] == v] for v in range(self.n)}
        keep = {}
        for v in reversed(range(self.n)):
            keep[v] = show(v) or any(keep[c] for c in self.kids[v])

        def prune(v):
            out = tuple(c for c in self.kids[v] if not keep[c])
            self.kids[v] = [c for c in self.kids[v] if keep[c]]
            for c in self.kids[v]:
                prune(c)
            if out:
                self.kids[v].append(("s", out))

        for r in self.roots:
            prune(r)

    def after(self, a):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.kids, m.removed = {v: list(k) for v, k in self.kids.items()}, set(self.removed)
        m.do(a)
        return m

    def displayed(self):
        """[(node or surrogate, parent)]"""
        out = []

        def walk(x, p):
            out.append((x, p))
            if not isinstance(x, tuple):
                for c in self.kids[x]:
                    walk(c, x)

        for r in self.roots:
            walk(r, None)
        return out

    def below(self, v):
        """All nodes displayed or hidden at or below v."""
        out = [v]
        for c in self.kids[v]:
            for x in c[1] if isinstance(c, tuple) else [c]:
                out += self.below(x)
        return out

    def key(self, x):
        return "s:" + ",".join(map(str, sorted(x[1]))) if isinstance(x, tuple) else str(x)

    def actions(self):
        out = []
        for x, p in self.displayed():
            if isinstance(x, tuple) or p is not None:
                out.append(["dbl", self.key(x)])
            if not isinstance(x, tuple) and p is not None:
                out.append(["comp", self.key(x)])
        return out

    def do(self, a):
        if a[0] in ("dbl", "comp"):
            x, p = [(x, p) for x, p in self.displayed() if self.key(x) == a[1]][0]
            i = self.kids[p].index(x)
            if a[0] == "comp":
                self.kids[p][i:i + 1] = self.kids[x]
                self.removed.add(x)
                self.kids[x] = []
            elif isinstance(x, tuple):
                self.kids[p][i:i + 1] = list(x[1])
            else:
                self.kids[p][i] = ("s", (x,))
        elif a[0] == "range":
            m = self.metrics[self.primary]
            self.rebuild(lambda v: m[v] != 0 and a[1] <= m[v] <= a[2])
        elif a[0] == "metric" and a[2] == "primary":
            self.primary = a[1]
            if self.enabled:
                self.initial()
        elif a[0] == "enable":
            self.enabled = not self.enabled

    def tree(self, v, depth):
        kids = []
        for c in self.kids[v]:
            if isinstance(c, tuple):
                vals = {m: sum(self.metrics[m][e] if "(inc)" in m else sum(self.metrics[m][x] for x in self.below(e)) for e in c[1]) / len(c[1]) for m in self.metrics}
                kids.append(("s", tuple(sorted(self.tree(e, None) for e in c[1])), depth + 1 if depth is not None else None,
                             tuple(sorted((m, round(x, 6)) for m, x in vals.items())) if depth is not None else None))
            else:
                kids.append(self.tree(c, depth + 1 if depth is not None else None))
        return ("n", v, depth, tuple(sorted(kids, key=str)))


def seen(t, shown=True):
    """The observed tree in the same form."""
    kids = tuple(sorted((seen(c, shown) for c in t["kids"]), key=str))
    if "id" in t:
        return ("n", t["id"], t["depth"] if shown else None, kids)
    agg = tuple(sorted((m, round(x, 6)) for m, x in t["agg"].items())) if shown else None
    return ("s", tuple(sorted(seen(e, False) for e in t["s"])), t["depth"] if shown else None, agg)


def unlinked(t):
    return (["node %s" % t.get("id", "hiding %s" % t.get("s"))] if not t["linked"] else []) + [x for c in t["kids"] for x in unlinked(c)]


NAMES = "abcdefghi"


def literal(par, metrics):
    nodes = [{"name": NAMES[v], "frame": {"name": NAMES[v], "type": "function"},
              "metrics": dict({m: metrics[m][v] for m in metrics}, _hatchet_nid=v), "attributes": {}} for v in range(len(par))]
    roots = []
    for v, p in enumerate(par):
        if p < 0:
            roots.append(nodes[v])
        else:
            nodes[p].setdefault("children", []).append(nodes[v])
    return roots


def judge(obs, mod, where):
    if "error" in obs:
        raise Violation("%s fails: %s" % (where, obs["error"]))
    got = [seen(t) for t in obs["trees"]]
    want = [mod.tree(r, 0) for r in mod.roots]
    if sorted(got) != sorted(want):
        raise Violation("%s: displayed %s, expected %s" % (where, sorted(got), sorted(want)))
    bad = [x for t in obs["trees"] for x in unlinked(t)]
    if bad:
        raise Violation("%s: %s is displayed below another node than its parent" % (where, bad[0]))
    if obs["undrawn"]:
        raise Violation("%s: not drawn after %s" % (where, obs["undrawn"]))
    # names, value ranges
    tree = {r: [v for v in range(mod.n) if root(mod.par, v) == r] for r in mod.roots}
    for i, t in enumerate(obs["trees"]):
        r = t["id"]
        if obs["names"][i] != NAMES[r]:
            raise Violation("%s: tree %s is named %s" % (where, NAMES[r], obs["names"][i]))
        for m in mod.metrics:
            x = [mod.metrics[m][v] for v in tree[r]]
            if obs["ranges"][i][m] != {"min": min(x), "max": max(x)}:
                raise Violation("%s: range of %s in tree %s is %s" % (where, m, NAMES[r], obs["ranges"][i][m]))
    if len(obs["names"]) != len(mod.roots) or obs["metrics"] != list(mod.metrics) or obs["primary"] != mod.primary:
        raise Violation("%s: trees %s, metrics %s, colored by %s" % (where, obs["names"], obs["metrics"], obs["primary"]))
    for m, x in mod.metrics.items():
        if obs["all"][m] != {"min": min(x), "max": max(x)}:
            raise Violation("%s: range of %s is %s" % (where, m, obs["all"][m]))
    for a in [a for t in want for a in aggregates(t)]:
        for m, x in a:
            if not obs["agg"][m]["min"] - 1e-6 <= x <= obs["agg"][m]["max"] + 1e-6:
                raise Violation("%s: range of aggregates of %s is %s, there is %s" % (where, m, obs["agg"][m], x))
    # the histogram of the pruning slider
    if obs.get("bins") is not None:
        m = mod.metrics[mod.primary]
        shown = [x for x, _ in mod.displayed() if not isinstance(x, tuple)]
        hist = [v for b in obs["bins"] for v in b[2]]
        if sorted(hist) != sorted(v for v in shown if m[v] != 0):
            raise Violation("%s: the histogram of %s counts %s" % (where, mod.primary, hist))
        for x0, x1, inside, zero in obs["bins"]:
            if any(not x0 <= m[v] <= x1 for v in inside):
                raise Violation("%s: bin %s to %s holds the nodes %s" % (where, x0, x1, inside))
            up = set()
            for v in inside:
                while v is not None:
                    v = next(p for x, p in mod.displayed() if x == v)
                    if v is not None and m[v] == 0:
                        up.add(v)
            if sorted(zero) != sorted(up):
                raise Violation("%s: zero nodes above bin %s to %s are %s, expected %s" % (where, x0, x1, zero, sorted(up)))
        lo, hi = obs["prune"]
        if any(not lo <= m[v] <= hi for v in shown if m[v] != 0):
            raise Violation("%s: the slider ranges from %s to %s" % (where, lo, hi))
    return got


def aggregates(t):
    return [k[3] for k in t[3] if k[0] == "s"] + [a for k in t[3] if k[0] == "n" for a in aggregates(k)]


def root(par, v):
    while par[v] >= 0:
        v = par[v]
    return v


_gf = {}


def select(lit, text):
    """What hatchet selects with the fetched query."""
    k = json.dumps(lit)
    if k not in _gf:
        _gf.clear()
        _gf[k] = GraphFrame.from_literal(lit), {}
    gf, memo = _gf[k]
    if text not in memo:
        q = parse_string_dialect(ast.literal_eval("'%s'" % text))
        memo[text] = {n._hatchet_nid for n in gf.query_engine.apply(q, gf.graph, gf.dataframe)}
    return memo[text]


def judge_query(obs, mod, lit, where):
    try:
        got = select(lit, obs["query"])
    except Exception as e:
        raise Violation("%s: the query %s fails: %r" % (where, obs["query"], e))
    shown = {x for x, _ in mod.displayed() if not isinstance(x, tuple)}
    rest = got - shown
    if shown - got or rest & mod.removed:
        raise Violation("%s: the query %s selects %s, displayed are %s" % (where, obs["query"], sorted(got), sorted(shown)))
    for x, _ in mod.displayed():
        if isinstance(x, tuple):
            if len(rest & set(x[1])) != 1:
                raise Violation("%s: the query %s selects %s of the nodes %s hidden together" % (where, obs["query"], sorted(rest & set(x[1])), x[1]))
            rest -= set(x[1])
    if rest:
        raise Violation("%s: the query %s selects the hidden nodes %s" % (where, obs["query"], sorted(rest)))


def play(par, metrics, seq):
    m = Model(par, metrics)
    for a in seq:
        m.do(a)
    return m


def explore(par, metrics, depth, acts):
    """All sequences of actions up to the depth, with the model after each."""
    level = [([], Model(par, metrics))]
    for d in range(depth + 1):
        yield from level
        if d < depth:
            level = [(s + [a], m.after(a)) for s, m in level for a in m.actions() + (FIXED if "f" in acts else []) + (WIDE if "w" in acts else [])]


FIXED = [["range", 2, 3], ["range", 0, 100], ["metric", "time (inc)", "primary"], ["enable"]]
WIDE = FIXED + [["metric", "x", "primary"], ["metric", "time", "primary"], ["range", 0.5, 7]]


def run_history(case, rec):
    impl, par, times, depth, acts, query = case  # acts: f with FIXED, x with a third metric, w with more of both
    n = len(par)
    inc = [0] * n
    for v in range(n):
        u = v
        while u >= 0:
            inc[u] += times[v]
            u = par[u]
    metrics = {"time": times, "time (inc)": inc}
    if "x" in acts:
        metrics["x"] = [2 * (v % 2) for v in range(n)]
    if "w" in acts:
        metrics["x"] = [[0, 5, 0, 3, 8.7, 0.5][v] for v in range(n)]
    lit = literal(par, metrics)
    todo = list(explore(par, metrics, depth, acts))
    obs = ask(impl, json.dumps(lit), [s for s, _ in todo])
    for (s, mod), o in zip(todo, obs):
        where = "%s: %s of the forest %s with times %s" % (impl, s or "start", par, times)
        got = judge(o, mod, where)
        rec.op(len(s[-1:]))
        if query and s[-1:] != [["enable"]]:
            judge_query(o, mod, lit, where)
        rec.state(par, times, got, sorted(mod.removed), mod.primary, mod.enabled)
    rec.outcome("%s-%d" % (impl, n))


def run_range(case, rec):
    """One prune to every range of values, from every state reached by one action."""
    impl, par, times = case
    n = len(par)
    metrics = {"time": times, "time (inc)": [3 * x + 1 for x in times]}
    lit = literal(par, metrics)
    cuts = [0, 1, 1.5, 2, 4]
    todo = []
    for lo, hi in itertools.product(cuts, repeat=2):
        for pre in ([], [["enable"], ["metric", "time (inc)", "primary"]], [["range", hi, lo]]):
            s = pre + [["range", lo, hi]]
            todo.append((s, play(par, metrics, s)))
    for (s, mod), o in zip(todo, ask(impl, json.dumps(lit), [s for s, _ in todo])):
        where = "%s: %s of the forest %s with times %s" % (impl, s, par, times)
        got = judge(o, mod, where)
        judge_query(o, mod, lit, where)
        rec.op(len(s))
        rec.state(par, times, got, s[-1])
    rec.outcome(impl)


SHADES = [["colors", "Inverted"], ["colors", "Default"], ["legend", "Individual"], ["legend", "Unified"], ["metric", "time (inc)", "primary"], ["metric", "x", "primary"],
          ["metric", "x", "secondary"], ["range", 1, 3]]


def judge_shades(obs, mod, unified, where):
    """Every displayed node has the color of the part of the legend that holds its value."""
    m = mod.metrics[mod.primary]
    for i, (t, o) in enumerate(zip(obs["trees"], obs["shades"])):
        tree = [v for v in range(mod.n) if root(mod.par, v) == t["id"]]
        dom = [m[v] for v in (range(mod.n) if unified else tree)]
        lo, hi = min(dom), max(dom)
        cols, ranges = o["legend"]
        what = "%s: tree %d, legend %s %s" % (where, i, cols, ranges)
        if len(cols) != 6 or len(set(cols)) != 6 or len(ranges) != 6:
            raise Violation(what)
        alo, ahi = (float(obs["agg"][mod.primary][k]) for k in ("min", "max"))  # may have infinite values
        want = [[lo + (hi - lo) * k / 6, lo + (hi - lo) * (k + 1) / 6] for k in range(6)]
        want[0][0], want[5][1] = min(lo, alo), max(hi, ahi)
        if any(abs(a - b) > 1e-9 * (1 + abs(b)) for r, w in zip(ranges, want) for a, b in zip(map(float, r), w)):
            raise Violation("%s, expected the ranges %s" % (what, want))
        for v, c in [(m[v], c) for v, c in o["own"]] + [(v, c) for v, c in o["agg"]]:
            if c not in cols or lo < hi and not want[cols.index(c)][0] - 1e-9 <= v <= want[cols.index(c)][1] + 1e-9:
                raise Violation("%s: %s has the color %s" % (what, v, c))
        if len(o["own"]) != sum(1 for x, _ in mod.displayed() if not isinstance(x, tuple) and x in tree):
            raise Violation("%s: colors of %s" % (what, o["own"]))


def run_colors(case, rec):
    """Colors and legends after every sequence of changes of metric, scheme and legend."""
    impl, par, times, depth = case
    n = len(par)
    metrics = {"time": times, "time (inc)": [3 * t + 1 for t in times], "x": [7 - v for v in range(n)]}
    lit = literal(par, metrics)
    todo = []
    for k in range(depth + 1):
        for s in itertools.product(SHADES, repeat=k):
            if not any(a == b for a, b in zip(s, s[1:])):
                todo.append([["shades"]] + list(s))
    base = Model(par, metrics)
    todo += [[["shades"]] + [a, b] for a in base.actions() for b in SHADES]
    schemes = {}
    for seq, o in zip(todo, ask(impl, json.dumps(lit), todo)):
        where = "%s: %s of the forest %s with times %s" % (impl, seq[1:], par, times)
        mod = play(par, metrics, seq)
        judge(o, mod, where)
        inverted = [a[1] for a in seq if a[0] == "colors"][-1:] == ["Inverted"]
        unified = [a[1] for a in seq if a[0] == "legend"][-1:] != ["Individual"]
        judge_shades(o, mod, unified, where)
        cols = [x["legend"][0] for x in o["shades"]]
        # the same colors whenever scheme and legend are chosen, whatever was chosen before
        if schemes.setdefault((inverted, unified), cols) != cols:
            raise Violation("%s: the colors are %s, they were %s" % (where, cols, schemes[inverted, unified]))
        rec.op(len(seq) - 1)
        rec.state(par, times, seq)
    for u in (True, False):
        a, b = schemes[False, u], schemes[True, u]
        if [c[::-1] for c in a] != b:
            raise Violation("%s: inverted colors %s, default %s" % (impl, b, a))
        if u and any(c != a[0] for c in a) or not u and len({tuple(c) for c in a}) < min(len(a), 6):
            raise Violation("%s: %s colors %s" % (impl, "unified" if u else "individual", a))
    rec.outcome("%s-%d" % (impl, len(mod.roots)))


def fmt(x):
    if len("%.2f" % x) <= 6:
        return "%.2f" % x
    d = len(str(int(x)))
    for k, unit in ((3, "K"), (6, "M"), (9, "B"), (12, "T")):
        if d <= k + 3:
            return None if x // 10 ** k >= 999.99 else (x / 10 ** k, unit)
    return None


def run_tip(case, rec):
    """The table of the selected nodes."""
    impl, par, times, pre = case
    n = len(par)
    metrics = {"time": times, "time (inc)": [x + 0.5 for x in times]}
    lit = literal(par, metrics)
    mod = play(par, metrics, pre)
    items = [(x, p) for x, p in mod.displayed()]
    sels = [[i] for i in items] + [list(t) for t in itertools.permutations(items, 2)]
    seqs = [pre + [[k, [mod.key(x) for x, _ in s]]] for s in sels for k in ("click", "brush")] + [pre + [["click", [mod.key(items[0][0])]], ["brush", None]]]
    obs = ask(impl, json.dumps(lit), seqs)
    want = [s for s in sels for _ in range(2)] + [None]
    for seq, sel, o in zip(seqs, want, obs):
        where = "%s: %s of the forest %s with times %s" % (impl, seq, par, times)
        judge(o, mod, where)
        rec.op()
        tip = o["tip"]
        if sel is None:
            if "<td>" in tip:
                raise Violation("%s: nothing is selected, but the table is %s" % (where, tip))
            continue
        rows = [[c.split("</td>")[0].strip() for c in r.split("<td>")[1:]] for r in tip.split("<tr>")[1:]]
        if rows[0] != ["name"] + list(metrics):
            raise Violation("%s: header %s" % (where, rows[0]))
        if len(rows) != len(sel) + 1:
            raise Violation("%s: %d rows for %d nodes" % (where, len(rows) - 1, len(sel)))
        for row, (x, p) in zip(rows[1:], sel):
            if isinstance(x, tuple):
                name = "%s Subtree" % NAMES[x[1][0]] if len(x[1]) == 1 else "Children of: %s" % NAMES[p]
                vals = dict([k for k in mod.tree(p, 0)[3] if k[0] == "s" and sorted(y[1] for y in k[1]) == sorted(x[1])][0][3])
            else:
                name, vals = NAMES[x], {m: metrics[m][x] for m in metrics}
            if row[0] != name:
                raise Violation("%s: the row of %s is named %s" % (where, name, row[0]))
            for m, c in zip(metrics, row[1:]):
                w = fmt(vals[m])
                if isinstance(w, tuple):
                    ok = c[-1] == w[1] and abs(float(c[:-1]) - w[0]) <= 0.0101
                else:
                    ok = w is None or c == w or abs(float(c) - float(w)) < 0.0101
                if not ok:
                    raise Violation("%s: %s of %s is shown as %s, it is %s" % (where, m, name, c, vals[m]))
        rec.state(par, times, pre, seq[-1])
    rec.outcome(impl)


def spaces(tier):
    th = tier == "thorough"
    IMPLS = ("bundle", "source")

    def forests(n):
        return [p for p in itertools.product(*[range(-1, v) for v in range(n)])]

    def patterns(n, k=2):
        for bits in itertools.product(range(k), repeat=n):
            yield [b * (v + 1) for v, b in enumerate(bits)]

    def hist(*bounds):
        def cases():
            for n, depth, acts, query, impls in bounds:
                for par in forests(n):
                    for t in patterns(n):
                        for impl in impls:
                            yield [impl, list(par), t, depth, acts, query]
        return cases

    BOTH, ONE = IMPLS, IMPLS[:1]

    def larger():
        # chains, stars, stars below a chain, two-level trees
        pars = [[-1, 0, 1, 2, 3], [-1, 0, 0, 0, 0], [-1, 0, 1, 1, 1], [-1, 0, 1, 2, 3, 4], [-1, 0, 0, 0, 0, 0], [-1, 0, 1, 1, 1, 1], [-1, 0, 0, 1, 1, 2],
                [-1, 0, 1, 2, 2, 2], [-1, -1, 0, 2, 3, 1], [-1, 0, 0, 0, 0, 1], [-1, 0, 0, 1, 2]] + ([list(p) for p in forests(5)] if th else [])
        for par in pars:
            n = len(par)
            for t in ([1] * n, [0] * (n - 1) + [n], [v % 2 * v for v in range(n)], [1, 2] + [0] * (n - 3) + [9], [0] * (n - 2) + [4, 4]):
                for impl in IMPLS:
                    yield [impl, par, t, 3 if n < 6 else 2, "w", n < 6 or th]

    def ranges():
        for n in range(1, 5 if th else 4):
            for par in forests(n):
                for t in itertools.product((0, 1, 2, 4), repeat=n):
                    for impl in IMPLS:
                        yield [impl, list(par), list(t)]

    def colors():
        for n in range(1, 4):
            for par in forests(n):
                for t in ([v + 1 for v in range(n)], [2] * n, [0, 5, 5][:n]):
                    for impl in IMPLS:
                        yield [impl, list(par), t, 4 if th and n < 3 else 3]
        for par in ([-1] * 5, [-1] * 8, [-1, -1, 0, -1, 1]):
            for impl in IMPLS:
                yield [impl, par, [v * v for v in range(len(par))], 2]

    def tips():
        for n in range(1, 4):
            for par in forests(n):
                for t in ([0.0] * n, [1.0, 999.99, 1000.0][:n], [123456.7, 1500000.25, 2.5e9][:n], [0.004, 0.0, 99999.0][:n]):
                    base = [[], [["range", 500, 2000]]] + [[["dbl", str(v)]] for v in range(n) if par[v] >= 0 and t[v]]
                    for pre in base:
                        for impl in IMPLS:
                            yield [impl, list(par), t, pre]

    return [
        Space("histories", hist(*[(n, 3, "f", True, BOTH) for n in (1, 2, 3)] + [(4, 3 if th else 2, "f", True, BOTH), (4, 3, "f", False, ONE)] + [(5, 3, "f", False, BOTH)] * th), run_history,
              "all forests <=4 nodes x zero/non-zero metrics x all sequences of 3 actions: collapse, expand, compose, prune, metric, mass prune"),
        Space("long-histories", hist(*[(n, 5 if th else 4, "f", th, BOTH) for n in (1, 2)] + [(3, 4, "f", th, BOTH)] + [(3, 5, "f", False, BOTH)] * th), run_history,
              "all forests <=3 nodes x zero/non-zero metrics x all sequences of 4 actions"),
        Space("collapse", hist(*[(n, 4 if th else 3, "x", True, BOTH) for n in (1, 2, 3)] + [(4, 3 if th else 2, "x", True, BOTH), (5, 3 if th else 2, "x", th, BOTH if th else ONE)]), run_history,
              "all forests <=5 nodes x zero/non-zero metrics x all sequences of 2 (3 up to 3 nodes) collapse, expand and compose actions, three metrics"),
        Space("larger", larger, run_history, "11 chains, stars and mixtures of 5 or 6 nodes x 5 patterns of values x all sequences of 2 (6 nodes) or 3 (5 nodes) actions, among them metrics with other zeros"),
        Space("ranges", ranges, run_range, "all forests <=3 nodes x 4 values per node x all ranges of 5 limits x 3 previous states"),
        Space("colors", colors, run_colors, "all forests <=3 nodes and up to 8 trees x 3 sets of values x all sequences of up to 3 changes of scheme, legend, metric and range"),
        Space("tooltip", tips, run_tip, "all forests <=3 nodes x 4 sets of values x one previous action x all selections of one or two displayed nodes"),
    ]
