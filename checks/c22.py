"""C22: the call-graph and JSON readers (cProfile, gprof2dot, pyinstrument, SpotDB, timemory) against models of their inputs."""
import copy
import io
import itertools
import json
import marshal
import os
import shutil
import sys
import tempfile
import types

import pandas as pd

from mc import gen
from mc.core import Skip, Space, Violation
from mc.hx import GraphFrame, graph_nodes, wf_graph
from hatchet.readers.spotdb_reader import SpotDatasetReader

sys.modules.setdefault("spotdb", types.ModuleType("spotdb"))  # imported by from_spotdb, not used if a database object is given
PROPERTY = "C22"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "gprof2dot labels have the five lines callgrind profiles get (module, name, inclusive, exclusive, calls)",
    "depths are not judged in call graphs; timemory: one function name per call path",
]


def temp(data, suffix):
    fd, p = tempfile.mkstemp(prefix="c22-", suffix=suffix)
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    return p


def judge_graph(gf, edges, want, keycols, case, exc, inc, default, frame):
    """want: {key: columns}; edges between keys. Nodes are identified by the keycols of their row."""
    wf_graph(gf.graph)
    df = gf.dataframe
    if list(df.index.names) != ["node"]:
        raise Violation("index %s (%s)" % (df.index.names, case))
    nodes = {}
    for row in df.reset_index().to_dict("records"):
        k = tuple(row[c] for c in keycols)
        if k not in want or k in nodes:
            raise Violation("unexpected or repeated row %s (%s)" % (k, case))
        nodes[k] = row["node"]
        for c, w in want[k].items():
            if not (row.get(c, "<no column>") == w or isinstance(w, float) and abs(row.get(c, 1e99) - w) < 1e-9):
                raise Violation("%s of %s is %r, expected %r (%s)" % (c, k, row.get(c, "<no column>"), w, case))
        if set(row) - set(want[k]) - set(keycols) - {"node"}:
            raise Violation("columns %s (%s)" % (sorted(row), case))
    if set(nodes) != set(want):
        raise Violation("rows %s, expected %s (%s)" % (sorted(nodes), sorted(want), case))
    key = {id(x): k for k, x in nodes.items()}
    if len(key) != len(nodes):
        raise Violation("two rows have the same node (%s)" % (case,))
    got = graph_nodes(gf.graph)
    if {id(x) for x in got} != set(key):
        raise Violation("graph has nodes %s, expected %s (%s)" % ([x.frame for x in got], sorted(want), case))
    ge = sorted((key[id(x)], key[id(c)]) for x in got for c in x.children)
    if ge != sorted(edges):
        raise Violation("edges %s, expected %s (%s)" % (ge, sorted(edges), case))
    for x in got:
        if dict(x.frame.attrs) != frame(key[id(x)]):
            raise Violation("frame %s of %s (%s)" % (x.frame, key[id(x)], case))
    roots = {key[id(r)] for r in gf.graph.roots}
    top = {k for k in want if not any(b == k for a, b in edges)}
    if not top <= roots:
        raise Violation("roots %s lack %s (%s)" % (roots, top - roots, case))
    # everything else that is a root has to be needed to reach some node
    for r in roots - top:
        reach, todo = set(), list(roots - {r})
        while todo:
            k = todo.pop()
            if k not in reach:
                reach.add(k)
                todo.extend(b for a, b in edges if a == k)
        if r in reach:
            raise Violation("%s is a root although it is called by %s (%s)" % (r, [a for a, b in edges if b == r], case))
    if sorted(gf.exc_metrics) != sorted(exc) or sorted(gf.inc_metrics) != sorted(inc) or gf.default_metric != default:
        raise Violation("metrics %s %s %s (%s)" % (gf.exc_metrics, gf.inc_metrics, gf.default_metric, case))


FNS = {
    "names": [("/a/x.py", 3, "f"), ("/a/x.py", 9, "g"), ("/a/y.py", 3, "h"), ("~", 0, "<built-in method builtins.exec>")],
    "lines": [("/a/x.py", 3, "f"), ("/a/x.py", 9, "f"), ("/a/x.py", 39, "f"), ("/a/y.py", 9, "f")],
    "files": [("/a/x.py", 3, "f"), ("/b/x.py", 3, "f"), ("x.py", 3, "f"), ("/b/c/x.py", 3, "f")],
    "builtin": [("~", 0, "len"), ("~", 0, "sum"), ("/l/~", 0, "len"), ("", 0, "len")],
    "scopes": [("/a/x.py", 1, "<module>"), ("/a/x.py", 5, "<listcomp>"), ("/a/x.py", 6, "<listcomp>"), ("<string>", 1, "<module>")],
}


def run_cprofile(case, rec):
    n, edges, fns, order = case
    edges = [tuple(e) for e in edges]
    fn = FNS[fns][:n]
    stats = {}
    for v in order:
        callers = {fn[a]: (1 + a, 1 + a + b, 0.25 * (a + 1), 0.5) for a, b in edges if b == v}
        stats[fn[v]] = (2 + v, 3 + 2 * v, 0.5 * (v + 1), 0.75 * (v + 1) + 7, callers)
    p = temp(marshal.dumps(stats), ".pstats")
    try:
        gf = GraphFrame.from_cprofile(p)
    finally:
        os.unlink(p)
    rec.op()
    want = {fn[v]: {"numcalls": 2 + v, "nativecalls": 3 + 2 * v, "time": 0.5 * (v + 1), "time (inc)": 0.75 * (v + 1) + 7} for v in range(n)}
    judge_graph(gf, [(fn[a], fn[b]) for a, b in edges], want, ("file", "line", "name"), case, ["time"], ["time (inc)"], "time", lambda k: {"type": "function", "name": k[2]})
    rec.state(case)
    rec.outcome("cyclic" if any((b, a) in edges for a, b in edges) else "acyclic")


DOT = {"plain": ["f", "g", "h", "k"], "cpp": ["a::b(int, char*)", "operator<<", "std::vector<int>::at", "gr\u00f6\u00dfe y"], "num": ["1", "12", "2", "main.c"], "kw": ["node", "edge1", "graph x", "end"], "bare": ["main", "f2", "a b", "12"]}


def run_gprof(case, rec):
    n, edges, names, order, style = case
    edges = [tuple(e) for e in edges]
    nm = DOT[names]
    quote = lambda x: x if names == "bare" and x.isalnum() else '"%s"' % x  # gprof2dot quotes only what is not alphanumeric
    out = ["digraph {", "\tgraph [fontname=Arial, nodesep=0.125, ranksep=0.25];", "\tnode [fontcolor=white, fontname=Arial, height=0, shape=box, style=filled, width=0];", "\tedge [fontname=Arial];"]
    decl = {v: '\t%s [color="#0d1676", fontcolor="#ffffff", fontsize="10.00", label="%s"];' % (quote(nm[v]), "lib%d.so\\n%s\\n%.2f%%\\n(%.2f%%)\\n%d\u00d7" % (v % 2, nm[v].replace('"', ""), 10 * v + 5.25, v + 0.5, v)) for v in range(n)}
    ed = ['\t%s -> %s [color="#0d1676", label="%.2f%%\\n%d\u00d7", labeldistance="0.50"];' % (quote(nm[a]), quote(nm[b]), a + 0.5, b) for a, b in edges]
    nodes = [decl[v] for v in order]
    if style == 0:
        out += nodes + ed
    elif style == 1:
        out += ed + nodes
    else:  # as gprof2dot: each node followed by its edges
        for v in order:
            out.append(decl[v])
            out += [l for (a, b), l in zip(edges, ed) if a == v]
    p = temp(("\n".join(out) + "\n}\n").encode(), ".dot")
    try:
        gf = GraphFrame.from_gprof_dot(p)
    finally:
        os.unlink(p)
    rec.op()
    want = {(nm[v],): {"module": "lib%d.so" % (v % 2), "time (inc)": 10 * v + 5.25, "time": v + 0.5} for v in range(n)}
    judge_graph(gf, [((nm[a],), (nm[b],)) for a, b in edges], want, ("name",), case, ["time"], ["time (inc)"], "time", lambda k: {"type": "function", "name": k[0]})
    rec.state(case)


def tree_judge(gf, rows, want, case, name="type"):
    """want: {path of names: columns}, one node each; siblings may have equal names, so compare multisets of sorted (path, columns)."""
    wf_graph(gf.graph)
    nodes = graph_nodes(gf.graph)
    ids = {id(x) for x in nodes}
    got = []
    for row in gf.dataframe.reset_index().to_dict("records"):
        x = row.pop("node")
        if id(x) not in ids:
            raise Violation("row of a node outside of the graph or second row of one: %s (%s)" % (x, case))
        ids.discard(id(x))
        p = x.path()
        if x._depth != len(p) - 1 or row.get("name") != x.frame["name"]:
            raise Violation("depth %s or name %s of %s (%s)" % (x._depth, row.get("name"), p, case))
        got.append((tuple(y.frame["name"] for y in p), len(x.children), tuple(sorted((k, v) for k, v in row.items() if k in rows))))
        if set(row) != set(rows) | {"name"}:
            raise Violation("columns %s, expected %s (%s)" % (sorted(row), sorted(rows), case))
    if ids:
        raise Violation("nodes without a row (%s)" % (case,))
    if sorted(got, key=str) != sorted(want, key=str):
        raise Violation("rows %s, expected %s (%s)" % (sorted(got, key=str), sorted(want, key=str), case))


def run_pyinstrument(case, rec):
    n, edges, labels, key = case
    edges = [tuple(e) for e in edges]
    ch = {v: [b for a, b in edges if a == v] for v in range(n)}
    inc = {}

    def total(v):
        inc[v] = 0.25 * (1 << v) + sum(total(c) for c in ch[v])
        return inc[v]

    total(0)

    def frame(v):
        d = {"function": "fgh"[labels[v]], "file_path_short": "x%d.py" % (v % 2), "file_path": "/x", "line_no": 3 * v, "time": inc[v], "is_application_code": v % 2 == 0}
        if ch[v] or key:
            d["children"] = [frame(c) for c in ch[v]]
        return d

    p = temp(json.dumps({"start_time": 1.0, "duration": inc[0], "root_frame": frame(0)}).encode(), ".json")
    try:
        gf = GraphFrame.from_pyinstrument(p)
    finally:
        os.unlink(p)
    rec.op()
    par = {b: a for a, b in edges}
    path = lambda v: (path(par[v]) if v in par else ()) + ("fgh"[labels[v]],)
    want = [(path(v), len(ch[v]), tuple(sorted({"file": "x%d.py" % (v % 2), "line": 3 * v, "time": 0.25 * (1 << v), "time (inc)": inc[v], "is_application_code": v % 2 == 0}.items()))) for v in range(n)]
    tree_judge(gf, ("file", "line", "time", "time (inc)", "is_application_code"), want, case)
    if gf.exc_metrics != ["time"] or gf.inc_metrics != ["time (inc)"] or gf.default_metric != "time" or len(gf.graph.roots) != 1:
        raise Violation("metrics %s %s %s (%s)" % (gf.exc_metrics, gf.inc_metrics, gf.default_metric, case))
    rec.state(case)


ATTR = {"sum#inclusive#sum#time.duration": {"type": "double", "alias": "Total time"}, "avg#time": {"type": "double"}, "n": {"type": "int", "alias": "visits"}, "u": {"type": "uint"}, "s": {"type": "string", "alias": "tag"}, "raw": {}}
SHOW = {"sum#inclusive#sum#time.duration": "Total time (inc)", "avg#time": "avg#time", "n": "visits", "u": "u", "s": "tag", "raw": "raw", "x#inclusive": "x#inclusive (inc)"}


def run_spot(case, rec):
    n, edges, names, has, order, cols, via, default = case
    edges = [tuple(e) for e in edges]
    par = {b: a for a, b in edges}
    path = lambda v: (path(par[v]) if v in par else ()) + (names[v],)
    vals = lambda v: {c: {"double": "%d.5" % (1 << v), "int": "-%d" % (v + 1), "uint": str(v + 2)}.get(ATTR.get(c, {}).get("type"), "s%d" % v) for c in cols}
    num = lambda c, v: {"double": (1 << v) + 0.5, "int": -(v + 1), "uint": v + 2}.get(ATTR.get(c, {}).get("type"), "s%d" % v)
    prof = {}
    for v in order:
        if has >> v & 1:
            prof["/".join(path(v))] = vals(v)
    if not prof:
        raise Skip()
    if via % 2:
        prof = dict([("", vals(0))] + list(prof.items()))
    meta = {"launchdate": 1, "name": "x"}
    before = json.dumps([prof, meta, ATTR])
    if via < 2:
        gf = SpotDatasetReader(prof, meta, ATTR).read(*([default] if default else []))
    else:
        class DB:
            def get_all_run_ids(self):
                return [3, 4, 9]

            def get_regionprofiles(self, runs):
                return {3: prof, 9: {"q": vals(1)}}

            def get_global_data(self, runs):
                return {3: meta, 4: {}, 9: {"z": 1}}

            def get_metric_attribute_metadata(self):
                return ATTR

        gfs = GraphFrame.from_spotdb(DB(), [3, 9] if via == 3 else None)
        if len(gfs) != 2 or [x.frame["name"] for x in graph_nodes(gfs[1].graph)] != ["q"] or gfs[1].metadata != {"z": 1}:
            raise Violation("from_spotdb gave %s (%s)" % ([g.metadata for g in gfs], case))
        gf = gfs[0]
    rec.op()
    if json.dumps([prof, meta, ATTR]) != before:
        raise Violation("the input was modified (%s)" % (case,))
    need = set()
    for v in range(n):
        w = v if has >> v & 1 else None
        while w is not None:
            need.add(w)
            w = par.get(w)
    want = []
    for v in need:
        own = has >> v & 1
        row = {SHOW[c]: num(c, v) if own else None for c in cols}
        want.append((path(v), len([b for a, b in edges if a == v and b in need]), tuple(sorted(row.items()))))
    for c in gf.dataframe.columns:
        gf.dataframe[c] = pd.Series([None if x is None or x != x else x for x in gf.dataframe[c].tolist()], index=gf.dataframe.index, dtype=object)
    tree_judge(gf, [SHOW[c] for c in cols], want, case)
    inc = [SHOW[c] for c in cols if "inclusive" in c]
    exc = [SHOW[c] for c in cols if "inclusive" not in c]
    if sorted(gf.inc_metrics) != sorted(inc) or sorted(gf.exc_metrics) != sorted(exc):
        raise Violation("metrics %s %s (%s)" % (gf.exc_metrics, gf.inc_metrics, case))
    d = default or "Total time (inc)"
    if d in inc + exc:
        ok = [d]
    else:
        ok = (inc or exc)[:1]
    if gf.default_metric not in ok:
        raise Violation("default metric %s, expected %s (%s)" % (gf.default_metric, ok, case))
    if gf.metadata != meta:
        raise Violation("metadata %s (%s)" % (gf.metadata, case))
    rec.state(case)


def run_timemory(case, rec):
    n, edges, lay, has, comps, how, pre = case
    edges = [tuple(e) for e in edges]
    ch = {v: [b for a, b in edges if a == v] for v in range(n)}
    par = {b: a for a, b in edges}
    dmp, ranks, threads = lay
    prefixes = {"name": lambda v: "f%d" % v, "at": lambda v: "f%d@x.py:%d" % (v, v + 3), "label": lambda v: "main%d   [f%d/x.py:%d]" % (v, v, v + 3), "tail": lambda v: "f%d@x.py:%d/t" % (v, v + 3), "pair": lambda v: "[f%d][x.py]" % v}[pre]
    name = {"name": "f%d", "at": "f%d", "label": "main%d", "tail": "f%d/t", "pair": "f%d"}[pre]
    fl = lambda v: {"name": ("<unknown>", "0"), "pair": ("x.py", "0")}.get(pre, ("x.py", str(v + 3)))
    val = lambda c, r, t, v, k: float((((COMPS.index(c) * 2 + r) * 2 + t) * 4 + v) * 2 + k + 1)

    def node(c, r, t, v):
        kids = []
        for w in ch[v]:
            kids += tree(c, r, t, w)
        st = lambda k: dict({"sum": val(c, r, t, v, k), "min": 0.5}, cereal_class_version=0, count=3) if c != "papi" else {"sum": [val(c, r, t, v, k), 99.0], "count": 3}
        return {"node": {"hash": 5 + v, "prefix": prefixes(v), "tid": t if how & 256 else [t], "pid": 70 if how & 256 else [70], "inclusive": {"entry": {"laps": v + 1}, "stats": st(1)}, "exclusive": {"entry": {"laps": v + 1}, "stats": st(0)}}, "children": kids}

    def tree(c, r, t, v):
        return [node(c, r, t, v)] if has[r][t] >> v & 1 else []

    def rank(c, r):
        kids = []
        for t in range(threads):
            for v in range(n):
                if v not in par:
                    kids += tree(c, r, t, v)
        return {"node": {"hash": 0, "prefix": "", "tid": [0], "pid": [70]}, "children": kids}

    present = {}
    for r in range(ranks):
        for t in range(threads):
            for v in range(n):
                w, ok = v, True
                while ok and w is not None:
                    ok = bool(has[r][t] >> w & 1)
                    w = par.get(w)
                if ok:
                    present[v, r, t] = True
    if not present or len({r for v, r, t in present}) != ranks or len({t for v, r, t in present}) != threads:
        raise Skip()
    data = {"timemory": {}}
    for c in comps:
        d = {"properties": {"cereal_class_version": 0, "value": 1}, "type": c if c != "papi" else ["Total_cycles", "Instr completed"], "description": "", "unit_value": 1, "mpi_size": ranks}
        if dmp:
            all_ranks = [[rank(c, r)] if how & 1 else rank(c, r) for r in range(ranks)]
            k = ranks if not how & 512 else ranks - 1  # 512: the last rank is a UPC process
            if k:
                d["mpi"] = all_ranks[:k]
                d["mpi_size"] = k
            else:
                del d["mpi_size"]
            if k < ranks:
                d["upc" if how & 2 else "upcxx"] = all_ranks[k:]
        else:
            d["graph"] = [[rank(c, 0)]]
        data["timemory"]["tim::component::" + c if how & 2 else c] = d
    before = copy.deepcopy(data)
    text = json.dumps(data).encode()
    select = None
    opts = dict(per_thread=bool(how & 64), per_rank=bool(how & 128)) if how & 192 else {}
    if how & 4:
        select = [comps[0].upper()]
        comps = comps[:1]
    if how & 8:
        p = temp(text, ".json")
        try:
            gf = GraphFrame.from_timemory(p, select, **opts)
        finally:
            os.unlink(p)
    elif how & 32:
        d = tempfile.mkdtemp(prefix="c22-")
        try:
            for i, (k, v) in enumerate(data["timemory"].items()):
                with open(os.path.join(d, "%d.tree.json" % i), "w") as f:
                    json.dump({"timemory": {k: v}}, f)
            gf = GraphFrame.from_timemory(d, select, **opts)
        finally:
            shutil.rmtree(d)
    elif how & 16:
        gf = GraphFrame.from_timemory(io.StringIO(text.decode()), select, **opts)
    else:
        gf = GraphFrame.from_timemory(data, select, **opts)
        if data != before:
            raise Violation("the input dictionary was modified (%s)" % (case,))
    rec.op()
    wf_graph(gf.graph)
    need = {v for v, r, t in present}
    path = lambda v: (path(par[v]) if v in par else ()) + (name % v,)
    want = {path(v): v for v in need}
    nodes = {}
    for x in graph_nodes(gf.graph):
        p = tuple(y.frame["name"] for y in x.path())
        got = dict(x.frame.attrs)
        if p in want and opts:  # the node is marked with a thread or rank that has it
            mark = [got.pop(k, None) for k in ["rank"] * (opts["per_rank"] and dmp) + ["thread"] * opts["per_thread"]]
            own = [[i for i, k in ((r, opts["per_rank"] and dmp), (t, opts["per_thread"])) if k] for v, r, t in present if v == want[p]]
            if mark not in own or str(mark) != str([int(i) for i in mark]):
                raise Violation("node %s is marked with %s, has %s (%s)" % (p, mark, own, case))
        if p not in want or want[p] in nodes or got != {"type": "region", "name": p[-1]} or x._depth != len(p) - 1:
            raise Violation("unexpected or repeated node %s (%s)" % (p, case))
        nodes[want[p]] = x
    if set(nodes) != need:
        raise Violation("missing nodes %s (%s)" % (need - set(nodes), case))
    mr, mt = dmp, threads > 1
    index = ["node"] + ["rank"] * mr + ["thread"] * mt
    if list(gf.dataframe.index.names) != index:
        raise Violation("index %s, expected %s (%s)" % (gf.dataframe.index.names, index, case))
    ids = {id(x): v for v, x in nodes.items()}
    rows = {}
    for row in gf.dataframe.reset_index().to_dict("records"):
        k = (ids.get(id(row["node"])), row["rank"] if mr else 0, row["thread"] if mt else 0)
        if k in rows or k[0] is None:
            raise Violation("unexpected or repeated row %s (%s)" % (k, case))
        rows[k] = row
    pairs = {(r, t) for v, r, t in present}
    exp = {(v, r, t) for v in need for r, t in pairs}
    if set(rows) != exp:
        raise Violation("rows %s, expected %s (%s)" % (sorted(rows), sorted(exp), case))
    cols = {}
    for c in comps:
        for k, suf in ((0, ""), (1, " (inc)")):
            if c == "papi":
                cols["sum.Total-cycles" + suf], cols["sum.Instr-completed" + suf] = (c, k), None
            else:
                cols["sum.%s%s" % (c, suf)], cols["min.%s%s" % (c, suf)] = (c, k), None
    for (v, r, t), row in rows.items():
        own = (v, r, t) in present
        for col, ck in cols.items():
            w = 0 if not own else val(ck[0], r, t, v, ck[1]) if ck else 99.0 if "Instr" in col else 0.5
            if row.get(col) != w:
                raise Violation("%s of %s is %r, expected %r (%s)" % (col, (v, r, t), row.get(col), w, case))
        if row["name"] != name % v or row["file"] != fl(v)[0] or (own and row["line"] != fl(v)[1]) or (own and row["count"] != v + 1):
            raise Violation("name, file, line or count of %s: %s (%s)" % ((v, r, t), row, case))
    if sorted(gf.exc_metrics) != sorted(c for c in cols if not c.endswith(" (inc)")) or sorted(gf.inc_metrics) != sorted(c for c in cols if c.endswith(" (inc)")):
        raise Violation("metrics %s %s (%s)" % (gf.exc_metrics, gf.inc_metrics, case))
    d = [m for m in ("sum.wall_clock", "sum.cpu_clock") if m in cols]
    if gf.default_metric not in (d[:1] or gf.exc_metrics):
        raise Violation("default metric %s (%s)" % (gf.default_metric, case))
    rec.state(case)
    rec.outcome(str(lay))


COMPS = ["wall_clock", "cpu_clock", "papi"]


def spaces(tier):
    th = tier == "thorough"

    def digraphs():
        for n in (1, 2, 3):
            pairs = [(a, b) for a in range(n) for b in range(n)]
            for m in range(1 << len(pairs)):
                yield n, [p for i, p in enumerate(pairs) if m >> i & 1]
        for e, _ in gen.dags(4):
            yield 4, list(e)

    def forests(N):
        for n in range(1, N + 1):
            for e, _ in gen.labelled(n, 1, "forest"):
                yield n, list(e)

    def cprofile():
        for n, e in digraphs():
            for fns in FNS:
                for order in itertools.permutations(range(n)) if n < 4 or th else [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)]:
                    if n == 3 and len(e) > 4 and fns != "names" and not th and order[0]:
                        continue
                    yield [n, e, fns, list(order)]

    def gprof():
        for n, e in digraphs():
            for names in DOT:
                for order in [tuple(range(n)), tuple(range(n))[::-1]]:
                    for style in (0, 1, 2):
                        if n >= 3 and not th and (len(e) + style + len(names) + order[0]) % (8 if n == 3 else 2):
                            continue
                        yield [n, e, names, list(order), style]

    def pyinst():
        for n in range(1, 6 if th else 5):
            for e, lab in gen.labelled(n, 3 if n < 4 else 2, "tree"):
                pos = [v for v in range(n) if not any(b == v for a, b in e)][0]
                # node 0 has to be the root
                m = {pos: 0, 0: pos}
                e2 = [(m.get(a, a), m.get(b, b)) for a, b in e]
                for perm in (0, 1):
                    for key in (0, 1):
                        yield [n, e2[::-1] if perm else e2, list(lab), key]

    def spot():
        wide = [(6, [(0, v) for v in range(1, 6)]), (5, []), (6, [(0, 1)] + [(1, v) for v in range(2, 6)])]
        for n, e in wide:
            for has in range(1, 2 ** n):
                k = [v for v in range(n) if has >> v & 1]
                for order in (k, k[::-1], k[2:] + k[:2]):
                    yield [n, e, list("fbdeac"[:n]), has, order, list(ATTR), has % 4, None]
        for n, e in forests(4):
            for names in (["a", "b", "c", "d"], ["b", "a", "b", "a"]):
                par = {y: x for x, y in e}
                path = lambda v: (path(par[v]) if v in par else ()) + (names[v],)
                if len({path(v) for v in range(n)}) < n:
                    continue
                for has in range(1, 2 ** n):
                    k = [v for v in range(n) if has >> v & 1]
                    for order in itertools.permutations(k) if n < 4 or th else [k, k[::-1], k[1:] + k[:1]]:
                        base = list(ATTR)
                        for cols, via, d in ((base, 0, None), (base[1:4], 1, None), (base[:2] + ["x#inclusive"], 2, None), (base[2:], 3, None), (base[:4], 0, "visits"), (base[1:], 1, "nope"), (["x#inclusive"] + base[1:], 0, None)) if n < 4 or th else ((base, has % 4, None),):
                            yield [n, e, names, has, list(order), cols, via, d]

    def timem():
        for n, e in forests(3):
            for dmp, ranks, threads in ((0, 1, 1), (1, 1, 1), (1, 2, 1), (0, 1, 2), (1, 2, 2)):
                full = range(1, 2 ** n)
                hs = itertools.product(full, repeat=ranks * threads)
                for h in hs:
                    if ranks * threads == 4 and not th and (sum((i + 2) * x for i, x in enumerate(h)) % (31 if n == 3 else 3) or n == 1):
                        if len(set(h)) > 1:
                            continue
                    has = [list(h[r * threads:(r + 1) * threads]) for r in range(ranks)]
                    s = sum(h)
                    per = ((["cpu_clock"], 256 | 64 * (1 + s % 3), "at"), (["wall_clock", "papi"], 64 * (1 + (s + 1) % 3), "name"), (["papi"], 256 | 16, "pair"))
                    if dmp:
                        per += ((["cpu_clock", "papi"], 512 | s % 4, "name"),)
                    for comps, how, pre in per + ((["wall_clock"], 0, "name"), (["cpu_clock", "wall_clock"], 3 | 32, "at"), (["papi", "cpu_clock"], 4 | 8, "label"), (["cpu_clock", "papi"], 16 | 1, "tail"), (["papi"], 2, "pair")):
                        yield [n, e, [dmp, ranks, threads], has, comps, how, pre]

    return [
        Space("cprofile", cprofile, run_cprofile, "all call graphs <=3 functions (recursion and cycles included), DAGs of 4 x name/file/line coincidences x orders"),
        Space("gprof2dot", gprof, run_gprof, "call graphs as for cProfile x names x statement orders"),
        Space("pyinstrument", pyinst, run_pyinstrument, "all trees <=4 (thorough 5) frames with repeated names"),
        Space("spotdb", spot, run_spot, "all forests <=4 regions x recorded regions x orders x metric sets"),
        Space("timemory", timem, run_timemory, "all forests <=3 regions x which of them each rank and thread has x components x prefix formats x input kinds"),
    ]
