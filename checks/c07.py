"""C07: after every history of operations each graphframe is well-formed, and results depend only on visible content."""
from mc import ops
from mc.core import Skip, Space, Violation
from mc.hx import GraphFrame, graph_nodes, wf_graph, path_keys, rows_of

PROPERTY = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = ["columns, not their order, are compared; exceptions are compared by type",
               "columns that only the right operand of an operation has are not judged when both operands share one graph object"]


def well_formed(g, what):
    try:
        nodes = wf_graph(g.graph)
        key = path_keys(g.graph)
        order = list(g.graph.traverse())
        if [n._hatchet_nid for n in order] != list(range(len(nodes))):
            raise Violation("node ids do not follow the traversal: %s" % [n._hatchet_nid for n in order])
        for n in nodes:
            if n._depth not in {len(p) - 1 for p in key[id(n)]}:
                raise Violation("depth %s of %s" % (n._depth, n))
        rows_of(g.dataframe, key)
        if "node" not in g.dataframe.index.names:
            raise Violation("index %s" % g.dataframe.index.names)
        cols = set(g.dataframe.columns)
        for m in list(g.exc_metrics) + list(g.inc_metrics):
            if m not in cols:
                raise Violation("metric %s is not a column (%s)" % (m, sorted(cols)))
        for l in (g.exc_metrics, g.inc_metrics):
            if len(set(l)) != len(l):
                raise Violation("metric list %s" % l)
        if g.default_metric not in cols:
            raise Violation("default metric %s is not a column" % g.default_metric)
    except Violation as v:
        raise Violation("%s: %s" % (what, v.message))


def outcome(step, pool):
    try:
        changed, new = ops.apply(step, pool)
        return None, changed, new
    except Violation:
        raise
    except Exception as e:
        return type(e).__name__, set(), None


def run(case, rec):
    init, hist = case
    pool = ops.INITS[init]()
    for i, step in enumerate(hist):
        if not ops.enabled(step, pool):
            raise Skip()
        last = i == len(hist) - 1
        if last:
            obs = [ops.observe(g) for g in pool]
            ignore = set()
            if step[0] in ops.BINARY and pool[step[1]].graph is pool[step[2]].graph:
                # columns that only the right operand has: taken over only when the graphs have to be unified
                ignore = set(obs[step[2]]["dtypes"]) - set(obs[step[1]]["dtypes"])
            # the same operation on graphframes rebuilt from what is visible
            fresh = {j: ops.rebuild(obs[j]) for j in set(step[1:])}
            args = [fresh[j] for j in step[1:]]
            if len(args) == 2 and args[0] is args[1] and step[0] in ops.BINARY:
                args[1] = ops.rebuild(obs[step[1]])
            fpool = list(args)
            fstep = [step[0]] + list(range(len(args)))
            fexc, fch, fnew = outcome(fstep, fpool)
        exc, changed, new = outcome(step, pool)
        if exc and not last:
            raise Skip()
    what = "%s after %s on %s" % (hist[-1], hist[:-1], init)
    if exc != fexc:
        raise Violation("%s: raises %s, but %s on rebuilt graphframes" % (what, exc, fexc))
    rec.op()
    rec.outcome("%s%s" % (hist[-1][0], " " + exc if exc else ""))
    if exc:
        return
    for j, g in enumerate(pool):
        well_formed(g, what + ", graphframe %d" % j)
    if (new is None) != (fnew is None):
        raise Violation("%s: creates a new graphframe: %s" % (what, new is not None))
    if new is not None:
        ops.compare(ops.observe(pool[new]), ops.observe(fpool[fnew]), what + ": result", ignore)
    for pos, j in enumerate(step[1:]):
        if j in changed:
            if step[0] in ops.BINARY and step[1] == step[2] and pos == 1:
                continue
            ops.compare(ops.observe(pool[j]), ops.observe(fpool[pos]), what + ": changed operand", ignore)
    rec.state(init, [ops.observe(g)["rows"] for g in pool])


def histories(init, depth, unary, binary):
    n0 = len(ops.INITS[init]())

    def rec(pre, n, touch):
        for s in ops.steps(n, unary, binary, touch):
            h = pre + [s]
            yield h
            if len(h) < depth:
                t = set(s[1:])
                grows = (s[0] in ops.UNARY and not ops.UNARY[s[0]][1] and s[0] != "render") or (s[0] in ops.BINARY and not ops.BINARY[s[0]][1])
                m = n
                if grows:
                    t.add(n)
                    m = n + 1
                yield from rec(h, m, t)

    hs = sorted(rec([], n0, None), key=len)
    return hs


RED_U = ("filter-b", "squash", "copy", "update")
RED_B = ("add", "iadd", "unify")


def spaces(tier):
    th = tier == "thorough"

    def deep(init, depth, u, b):
        def gen():
            for h in histories(init, depth, u, b):
                yield [init, h]
        return gen

    out = []
    for init in ("trees", "dags", "merge", "ranks", "shared"):
        out.append(Space("depth2-" + init, deep(init, 2, list(ops.UNARY), list(ops.BINARY)), run,
                         "every sequence of <=2 operations (%d unary, %d binary) on the pool '%s'" % (len(ops.UNARY), len(ops.BINARY), init)))
    red = RED_U + ("filter-b,squash",) if th else RED_U
    out.append(Space("depth3-tiny", deep("tiny", 3, red, RED_B), run, "every sequence of <=3 operations from %s" % (red + RED_B,)))
    if th:
        for init in ("dags", "merge", "ranks", "shared"):
            out.append(Space("depth3-" + init, deep(init, 3, RED_U, RED_B), run,
                             "every sequence of <=3 operations from %s on the pool '%s'" % (RED_U + RED_B, init)))
        out.append(Space("depth4-tiny", deep("tiny", 4, ("filter-b", "squash", "copy"), ("iadd",)), run,
                         "every sequence of <=4 operations from filter, squash, copy, iadd"))
    return out
