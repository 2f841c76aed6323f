"""C18: the HPCToolkit reader against a model of the database, for every small experiment tree and rank/thread layout."""
import glob
import itertools
import multiprocessing
import os
import re
import shutil
import struct
import tempfile
from types import SimpleNamespace
from xml.sax.saxutils import quoteattr

from mc import gen
from mc.core import Skip, Space, Violation, case_id
from mc.hx import GraphFrame, graph_nodes, replaced, wf_graph

PROPERTY = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "metric-db files are read in the checking process instead of a process pool, except in the space pool",
    "statements directly inside unnamed procedures, and ranks with different numbers of threads, are outside the domain",
]
FILES = ["/src/a.c", "lib/b.f90"]
MODULES = ["/bin/app", "libm.so"]
CHILDREN = {"F": "CRULS", "R": "CRULS", "L": "CRULS", "U": "CRUL", "C": "F", "S": ""}
LAYOUTS = {"1x1": (1, [0]), "2x1": (2, [0]), "3x1": (3, [0]), "2x2": (2, [0, 1]), "1x2g": (1, [0, 500]), "2x2g1": (2, [0, 1, 500]), "2x1g2": (2, [0, 500, 501]),
           "12x1": (12, [0]), "2x11": (2, list(range(11))), "11x2g1": (11, [0, 1, 500])}
SMALL = [l for l in LAYOUTS if LAYOUTS[l][0] * len(LAYOUTS[l][1]) < 10]
METRICS = {"usec": [(2, "CPUTIME (usec) (E)"), (10, "PAPI_X (I)"), (0, "CPUTIME (usec) (I)"), (9, "PAPI_X (E)")],
           "sec": [(1, "PAPI_X (E)"), (3, "PAPI_X (I)"), (20, "CPUTIME (sec) (E)"), (100, "CPUTIME (sec) (I)")]}


class InProcessPool:
    """Runs the tasks here, in the order that `order` (a permutation) gives."""
    order = None

    def run(self, f, it):
        it = list(it)
        done = [None] * len(it)
        todo = [i for i in self.order or () if i < len(it)]
        for i in todo + [i for i in range(len(it)) if i not in todo]:
            done[i] = f(it[i])
            yield i, done

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if initializer:
            initializer(*initargs)

    def map(self, f, it, chunksize=None):
        done = []
        for _, done in self.run(f, it):
            pass
        return done

    def imap(self, f, it, chunksize=None):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=None):
        return iter([done[i] for i, done in self.run(f, it)])

    def starmap(self, f, it, chunksize=None):
        return self.map(lambda x: f(*x), it)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = f(*args, **kwds)
        if callback:
            callback(r)
        return SimpleNamespace(get=lambda timeout=None: r, wait=lambda timeout=None: None, ready=lambda: True, successful=lambda: True)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self.apply_async(self.map, (f, it), callback=callback)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self.apply_async(self.starmap, (f, it), callback=callback)

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def value(rank, thread, nid, m):
    return float(((rank * 3 + (thread + 1 if thread < 500 else thread - 490)) * 64 + nid) * 8 + m)


def model(parents, kinds, files, zero, nids):
    """The elements in document order -> (records by nid, edges between nids, roots, leaked statements)."""
    n = len(kinds)
    ch = {i: [j for j in range(n) if parents[j] == i] for i in range(-1, n)}
    line = [0 if zero >> i & 1 else 1 + 9 * i for i in range(n)]
    # kinds with a name: F, R; the procedure table gives p<i>
    recs, edges, roots, sub = {}, set(), [], []
    leak = []
    glob = [None]

    def walk(i, hpar, scope_file):
        k = kinds[i]
        f = files[i] if k in "FRUL" else scope_file
        if k in "FRUL":
            glob[0] = f
        base = os.path.basename(FILES[f])
        p = parents[i]
        if k in "FR":
            name = "p%d" % i
            if p >= 0 and line[p] != 0:
                name = "%d:%s" % (line[p], name)
            rec = {"name": name, "type": "PF" if k == "F" else "Pr", "file": FILES[f], "line": line[i], "module": MODULES[i % 2],
                   "frame": {"type": "function", "name": name}}
        elif k == "L":
            rec = {"name": "Loop@%s:%d" % (base, line[i]), "type": "L", "file": FILES[f], "line": line[i], "module": None,
                   "frame": {"type": "loop", "file": FILES[f], "line": line[i]}}
        elif k == "S":
            if glob[0] != f:
                leak.append(i)
            rec = {"name": "%s:%d" % (base, line[i]), "type": "S", "file": FILES[f], "line": line[i], "module": None,
                   "frame": {"type": "statement", "file": FILES[f], "line": line[i]}}
            sub.append((nids[p], nids[i]))
        else:
            rec = None
        me = hpar
        if rec:
            recs[nids[i]] = rec
            if hpar is None:
                roots.append(nids[i])
            else:
                edges.add((hpar, nids[i]))
            me = nids[i]
        for c in ch[i]:
            walk(c, me, f)

    for r in ch[-1]:
        walk(r, None, None)
    return recs, edges, roots, sub, leak, line


def write(d, parents, kinds, files, line, nids, layout, extra, metrics):
    n = len(kinds)
    procs = {i: "" if kinds[i] == "U" else "p%d" % i for i in range(n) if kinds[i] in "FRU"}
    x = ['<?xml version="1.0"?>\n<HPCToolkitExperiment version="2.0"><Header n="t"><Info/></Header><SecCallPathProfile i="0" n="t"><SecHeader>']
    x.append("<MetricDBTable>" + "".join("<MetricDB i=%s n=%s/>" % (quoteattr(str(i)), quoteattr(m)) for i, m in metrics) + "</MetricDBTable>")
    x.append("<LoadModuleTable>" + "".join('<LoadModule i="%d" n="%s"/>' % (5 + i, m) for i, m in enumerate(MODULES)) + "</LoadModuleTable>")
    x.append("<FileTable>" + "".join('<File i="%d" n="%s"/>' % (7 + i, m) for i, m in enumerate(FILES)) + "</FileTable>")
    x.append("<ProcedureTable>" + "".join('<Procedure i="%d" n="%s"/>' % (20 + i, m) for i, m in procs.items()) + "</ProcedureTable>")
    x.append('</SecHeader><SecCallPathProfileData><M n="0" v="7"/>')

    def emit(i):
        k = kinds[i]
        a = 'i="%d" s="%d" l="%d"' % (nids[i], 100 + i, line[i])
        if k in "FRU":
            a += ' lm="%d" f="%d" n="%d"' % (5 + i % 2, 7 + files[i], 20 + i)
        if k == "L":
            a += ' f="%d"' % (7 + files[i])
        tag = {"F": "PF", "R": "Pr", "U": "Pr", "L": "L", "S": "S", "C": "C"}[k]
        x.append("<%s %s>" % (tag, a) + ('<M n="1" v="3"/>' if i % 2 else ""))
        for j in range(n):
            if parents[j] == i:
                emit(j)
        x.append("</%s>" % tag)

    for i in range(n):
        if parents[i] == -1:
            emit(i)
    x.append("</SecCallPathProfileData></SecCallPathProfile></HPCToolkitExperiment>")
    with open(os.path.join(d, "experiment.xml"), "w") as f:
        f.write("\n".join(x))
    ranks, threads = LAYOUTS[layout]
    nn = n + extra
    order = sorted(metrics)
    for r in range(ranks):
        for t in threads:
            with open(os.path.join(d, "1.app-x-%06d-%03d-a8c0-%d-0.metric-db" % (r, t, 90 - r)), "wb") as f:
                f.write(b"HPCPROF-metricdb__" + b"00.10" + b"b" + struct.pack(">ii", nn, len(metrics)))
                for nid in range(1, nn + 1):
                    for m in range(len(order)):
                        f.write(struct.pack(">d", value(r, t, nid, m)))


def run_db(case, rec, pool=False, leaks=False):
    parents, kinds, files, zero, rev, layout, extra = case
    n = len(kinds)
    nids = list(range(n, 0, -1)) if rev else list(range(1, n + 1))
    recs, edges, roots, sub, leak, line = model(parents, kinds, files, zero, nids)
    if bool(leak) != leaks:
        raise Skip()
    ranks, threads = LAYOUTS[layout]
    metrics = METRICS[("usec", "sec")[(len(kinds) + sum(files) + ranks + zero) % 2]]
    d = tempfile.mkdtemp(prefix="c18-")
    try:
        write(d, parents, kinds, files, line, nids, layout, extra, metrics)
        with replaced(multiprocessing, **{} if pool else {"Pool": InProcessPool}):
            gf = GraphFrame.from_hpctoolkit(d)
    finally:
        shutil.rmtree(d)
    rec.op()
    df = gf.dataframe
    multi = len(threads) > 1
    idx = ["node", "rank"] + (["thread"] if multi else [])
    if list(df.index.names) != idx:
        raise Violation("index %s, expected %s (%s)" % (list(df.index.names), idx, case))
    if sorted(gf.exc_metrics) != ["PAPI_X (E)", "time"] or sorted(gf.inc_metrics) != ["PAPI_X (I)", "time (inc)"] or gf.default_metric != "time":
        raise Violation("metric lists %s %s %s" % (gf.exc_metrics, gf.inc_metrics, gf.default_metric))
    wf_graph(gf.graph)
    mcol = [{"CPUTIME (E)": "time", "CPUTIME (I)": "time (inc)"}.get(re.sub("[(]u?sec[)] ", "", m), m) for _, m in sorted(metrics)]
    node_nid, seen = {}, set()
    rows = df.reset_index().to_dict("records")
    for row in rows:
        nid = row["nid"]
        r, t = row["rank"], row["thread"] if multi else threads[0]
        if (nid, r, t) in seen or nid not in recs or r not in range(ranks) or t not in threads:
            raise Violation("unexpected row %s (%s)" % (row, case))
        seen.add((nid, r, t))
        if node_nid.setdefault(id(row["node"]), nid) != nid:
            raise Violation("two ids for one node (%s)" % (case,))
        w = recs[nid]
        for c in ("name", "type", "file", "line", "module"):
            if row[c] != w[c]:
                raise Violation("%s of element %d is %r, expected %r (%s)" % (c, nid, row[c], w[c], case))
        if dict(row["node"].frame.attrs) != w["frame"]:
            raise Violation("frame %s, expected %s (%s)" % (row["node"].frame, w["frame"], case))
        for m, c in enumerate(mcol):
            v = value(r, t, nid, m)
            if c in ("time", "PAPI_X (E)"):
                v -= sum(value(r, t, s, m) for p, s in sub if p == nid)
            if row[c] != v:
                raise Violation("%s of element %d, rank %d, thread %d is %r, expected %r (%s)" % (c, nid, r, t, row[c], v, case))
    if len(seen) != len(recs) * ranks * len(threads):
        raise Violation("%d rows, expected %d (%s)" % (len(seen), len(recs) * ranks * len(threads), case))
    nodes = graph_nodes(gf.graph)
    if sorted(node_nid.get(id(x), -1) for x in nodes) != sorted(recs):
        raise Violation("graph nodes do not correspond to the elements (%s)" % (case,))
    got = {(node_nid[id(x)], node_nid[id(c)]) for x in nodes for c in x.children}
    if got != edges:
        raise Violation("edges %s, expected %s (%s)" % (sorted(got), sorted(edges), case))
    if sorted(node_nid[id(x)] for x in gf.graph.roots) != sorted(roots):
        raise Violation("roots (%s)" % (case,))
    rec.state(parents, kinds, files, zero, rev, layout)


def run_pool(case, rec):
    run_db(case, rec, pool=True)


def run_orders(case, rec):
    """The files of a database are found and read in any order."""
    *case, found, read = case
    def mixed(f):
        def g(*a, **k):
            r = sorted(f(*a, **k))
            n = len(r)
            if found == "reversed":
                return r[::-1]
            return [r[i] for i in found if i < n] + [r[i] for i in range(n) if i not in found]
        return g

    try:
        InProcessPool.order = list(range(40))[::-1] if read == "reversed" else read
        with replaced(glob, glob=mixed(glob.glob), iglob=mixed(glob.iglob)), replaced(os, listdir=mixed(os.listdir)):
            run_db(case, rec)
    finally:
        InProcessPool.order = None
    rec.state(case, found, read)


def run_leak(case, rec):
    # the known finding is the file given to the statement, nothing else
    try:
        run_db(case, rec, leaks=True)
    except Violation as v:
        parents, kinds, files, zero, rev, layout, extra = case
        nids = list(range(1, len(kinds) + 1))
        if v.message.startswith(("name of element", "file of element")) and kinds[int(v.message.split()[3]) - 1] == "S":
            raise Violation(v.message, case_id(PROPERTY, "statement-file", case))
        raise


def trees(n, nroots=1):
    """Parent vectors (document order, preorder) with kinds following the grammar."""
    out = []

    def rec(parents, kinds, stack):
        if len(kinds) == n:
            out.append((list(parents), "".join(kinds)))
            return
        # attach to any element on the current path (preorder)
        for d in range(len(stack)):
            p = stack[d]
            for k in CHILDREN[kinds[p]]:
                rec(parents + [p], kinds + [k], stack[: d + 1] + [len(kinds)])
        if parents.count(-1) < nroots:
            rec(parents + [-1], kinds + ["F"], [len(kinds)])

    rec([-1], ["F"], [0])
    return out


def spaces(tier):
    th = tier == "thorough"

    def scopes(kinds):
        return [i for i, k in enumerate(kinds) if k in "FRUL"]

    def filesets(kinds):
        s = scopes(kinds)
        for fs in itertools.product((0, 1), repeat=len(s) - 1):
            f = [0] * len(kinds)
            for i, v in zip(s[1:], fs):
                f[i] = v
            yield f

    def shape():
        for n in range(1, 6 if not th else 7):
            for parents, kinds in trees(n, 4 if n < 5 else 1):
                fl = [[0] * n] if n > 4 else filesets(kinds)
                for f in fl:
                    yield [parents, kinds, f, 0, 0, "1x1", 0]

    def lines():
        for n in range(2, 5):
            for parents, kinds in trees(n):
                for zero in range(1, 2 ** n):
                    yield [parents, kinds, [0] * n, zero, 0, "1x1", 0]

    def layouts():
        for n in range(1, 5):
            for parents, kinds in trees(n, 2 if n < 4 else 1):
                if n == 4 and "S" not in kinds and not th:
                    continue
                for l in SMALL:
                    for rev in (0, 1):
                        if n == 4 and not th and (l in ("1x1", "3x1") or rev):
                            continue
                        yield [parents, kinds, [0] * n, 0, rev, l, rev]

    def pools():
        for l in SMALL:
            for parents, kinds in ([[-1], "F"], [[-1, 0, 1, 2, 0], "FCFSS"], [[-1, 0, 1, 1, 0], "FLSSL"]):
                yield [parents, kinds, [0] * len(kinds), 0, 0, l, 0]

    def orders():
        for l in LAYOUTS:
            k = LAYOUTS[l][0] * len(LAYOUTS[l][1])
            perms = [list(p) for p in itertools.permutations(range(k))] if k <= 4 else [
                list(p) + [x for x in range(k) if x not in p] for p in itertools.permutations(range(min(k, 12)), 2)] + ["reversed"]
            for parents, kinds in ([[-1, -1], "FF"], [[-1, 0, 1, 2, 0], "FCFSS"], [[-1, 0, 1, 1, 0], "FLSSL"]):
                for found in perms:
                    for read in perms if k <= 3 or th and k <= 4 else perms[::7] + perms[-1:] if k <= 4 else ["reversed"]:
                        yield [parents, kinds, [0] * len(kinds), 0, 0, l, 0, found, read]

    def leaky():
        yield [[-1, 0, 1, 0], "FCFS", [0, 0, 1, 0], 0, 0, "1x1", 0]

    return [
        Space("shapes", shape, run_db, "all element trees <=5 (thorough 6) by the grammar x file assignments (<=4)"),
        Space("lines", lines, run_db, "all element trees <=4 x all patterns of unknown (zero) lines"),
        Space("layouts", layouts, run_db, "all element trees <=4 x rank/thread layouts incl. GPU streams x id orders, rows without elements"),
        Space("orders", orders, run_orders, "3 trees x 10 layouts up to 33 files x orders in which the files are found and read (all of up to 3, found: all of up to 4; above: all first two)"),
        Space("pool", pools, run_pool, "each layout read with the real process pool"),
        Space("statement-file", leaky, run_leak, "statement after a scope of another file (known finding)"),
    ]
