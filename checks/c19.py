"""C19: the Caliper readers against a model of the profile, for every small context tree, row set and record order."""
import io
import itertools
import json
import os
import shutil
import tempfile

from mc import gen
from mc.core import Skip, Space, Violation
from mc.hx import GraphFrame, graph_nodes, wf_graph

PROPERTY = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "JSON: one row per context (and rank) unless two hierarchies or source locations are present, every leaf context has a row, regions of one parent have different names",
    "native profiles are given as a CaliperReader object (records, globals, attributes); the .cali text parser is not part of hatchet",
]


def judge(gf, want_rows, edges, roots, frames, index, exc, inc, default, case, name_of=None):
    """want_rows: {(key,)+idx: {col: value}}; key -> frame in frames; rows are matched by column 'nid' or by path."""
    wf_graph(gf.graph)
    df = gf.dataframe
    if list(df.index.names) != index:
        raise Violation("index %s, expected %s (%s)" % (list(df.index.names), index, case))
    if sorted(gf.exc_metrics) != sorted(exc) or sorted(gf.inc_metrics) != sorted(inc) or gf.default_metric != default:
        raise Violation("metrics %s %s default %s, expected %s %s %s (%s)" % (gf.exc_metrics, gf.inc_metrics, gf.default_metric, exc, inc, default, case))
    # identify the nodes by their paths of frames
    par = {b: a for a, b in edges}

    def wpath(k):
        return (wpath(par[k]) if k in par else ()) + (frozenset(frames[k].items()),)

    paths = {wpath(k): k for k in frames}
    if len(paths) != len(frames):
        raise Skip()

    key = {}
    for x in graph_nodes(gf.graph):
        p = tuple(frozenset(y.frame.attrs.items()) for y in x.path())
        if p not in paths or paths[p] in key.values():
            raise Violation("unexpected or repeated node %s (%s)" % ([dict(f) for f in p], case))
        key[id(x)] = paths[p]
    if len(key) != len(frames):
        raise Violation("missing nodes: %s (%s)" % ([k for k in frames if k not in key.values()], case))
    got_roots = [key.get(id(r)) for r in gf.graph.roots]
    if sorted(got_roots, key=str) != sorted(roots, key=str):
        raise Violation("roots %s, expected %s (%s)" % (got_roots, roots, case))
    depth = lambda k: 0 if k not in par else 1 + depth(par[k])
    for x in graph_nodes(gf.graph):
        if x._depth != depth(key[id(x)]):
            raise Violation("depth of %s is %s (%s)" % (x, x._depth, case))
    seen = set()
    for row in df.reset_index().to_dict("records"):
        k = (key.get(id(row["node"])),) + tuple(row[i] for i in index[1:])
        if k in seen or k not in want_rows:
            raise Violation("unexpected row %s (%s)" % (row, case))
        seen.add(k)
        for c, w in want_rows[k].items():
            g = row.get(c, "<no column>")
            if not (g == w or w is None and (g is None or g != g)):
                raise Violation("%s of %s is %r, expected %r (%s)" % (c, k, g, w, case))
        extra = set(row) - set(want_rows[k]) - set(index)
        if extra - {"nid"}:
            raise Violation("unexpected columns %s (%s)" % (extra, case))
    if len(seen) != len(want_rows):
        raise Violation("missing rows %s (%s)" % (sorted(set(want_rows) - seen, key=str), case))
    return key


def run_json(case, rec):
    n, edges, names, ranks, mask, perm, kind, stream = case
    edges = [tuple(e) for e in edges]
    par = {b: a for a, b in edges}
    CNT = "incidents" if perm[0] else "count"
    pathcol = "source.function#callpath.address" if kind in ("both", "loc", "bothloc") else "path"
    ntype = "function" if pathcol != "path" else "region"
    # nodes section: path nodes interleaved with referenced strings
    idx, nodes = {}, []
    if kind in ("mod", "both", "loc", "bothloc"):
        nodes.append({"column": "module#cali.sampler.pc" if kind in ("loc", "bothloc") else "mod", "label": "m.so"})
    for v in range(n):
        d = {"column": pathcol, "label": names[v]}
        if v in par:
            d["parent"] = idx[par[v]]
        idx[v] = len(nodes)
        nodes.append(d)
        if v == 0 and kind in ("mod", "both"):
            nodes.append({"column": "mod", "label": "n.so"})
            if kind == "both":
                nodes.append({"column": "path", "label": "p0"})
                nodes.append({"column": "path", "label": "p1", "parent": len(nodes) - 1})
    # nodes without a label are numbered within the profile
    unl = [i for i, d in enumerate(nodes) if d["label"] == ""]
    names = [x or "UNKNOWN %d" % unl.index(idx[v]) for v, x in enumerate(names)]
    loc = {}
    if kind in ("loc", "bothloc"):
        for l in ("/a/x.c:3", "/a/x.c:14", "/b/y.c:20"):
            loc[l] = len(nodes)
            nodes.append({"column": "sourceloc#cali.sampler.pc", "label": l})
        p0 = len(nodes)
        if kind == "bothloc":
            nodes.append({"column": "path", "label": "p0"})
            nodes.append({"column": "path", "label": "p1"})
    mi = [i for i, d in enumerate(nodes) if d["column"] in ("mod", "module#cali.sampler.pc")]
    pi = [i for i, d in enumerate(nodes) if d["column"] == "path"]
    cols, meta = [], []

    def col(name, val):
        cols.append(name)
        meta.append({"is_value": val})

    if kind == "order":
        col("Node order", True)
    if ranks:
        col("mpi.rank", True)
    col("sum#time.duration" if kind != "avg" else "sum#avg#sum#time.duration", True)
    col("inclusive#sum#time.duration" if kind != "avg" else "sum#avg#inclusive#sum#time.duration", True)
    if kind in ("loc", "bothloc"):
        col("sourceloc#cali.sampler.pc", False)
    col(pathcol, False)
    if kind in ("mod", "both"):
        col("mod", False)
        col(CNT, True)
    if kind in ("loc", "bothloc"):
        col("module#cali.sampler.pc", False)
    if kind in ("both", "bothloc"):
        col("path", False)
    # rows
    R = list(range(ranks)) if ranks else [None]
    data, want = [], {}
    wedges, wframes = set(edges), {v: {"type": ntype, "name": names[v]} for v in range(n)}
    lines = {}
    uses_label = {}
    for v in range(n):
        for j, r in enumerate(R):
            m = mask[v] >> (j * (2 if kind in ("both", "loc", "bothloc") else 1))
            m &= 3 if kind in ("both", "loc", "bothloc") else 1
            ks = [k for k in range(2) if m >> k & 1]
            for k in ks:
                t = float((1 << (2 * v + k)) * 10 + j)
                row = []
                for c in cols:
                    if c == "Node order":
                        row.append(ORDER[case[2] and "".join(names)[:n] and n][v] * 3 + (2 - j if perm[0] else j))
                    elif c == "mpi.rank":
                        row.append(r)
                    elif "inclusive" in c:
                        row.append(1000 + t)
                    elif "time" in c:
                        row.append(t)
                    elif c == pathcol:
                        row.append(idx[v])
                    elif c == "mod" and (v + k + j + perm[0]) % 4 == 3:
                        row.append(None)
                    elif c in ("mod", "module#cali.sampler.pc"):
                        row.append(mi[(v + k) % len(mi)])
                    elif c == CNT:
                        row.append(v + k + 1)
                    elif c == "path":
                        row.append(None if (v + k) % 3 == 2 else pi[(v + k) % 2])
                    else:
                        row.append(sorted(loc.values())[(v % 2 if k == 0 else 2 if v % 3 == 1 else (v + 1) % 2) if mask[v] % 5 else v % 3])
                data.append(row)
    if not data:
        raise Skip()
    order = list(range(len(data)))
    if perm[1] == "rev":
        order.reverse()
    elif perm[1] == "rot":
        order = order[1:] + order[:1]
    elif perm[1] == "mid":
        order = order[1::2] + order[::2]
    data = [data[i] for i in order]
    C = {c: i for i, c in enumerate(cols)}
    have = {(row[C[pathcol]]) for row in data}
    if any(idx[v] not in have for v in range(n) if v not in par.values()):
        raise Skip()
    if perm[2]:  # rows of no context
        blank = [None if c == pathcol else x for c, x in zip(cols, data[0])]
        data = [list(blank), list(blank)] + data[:1] + [list(blank)] + data[1:] + [list(blank)]
    nr = (max(row[C["mpi.rank"]] for row in data if row[C[pathcol]] is not None) + 1) if ranks else 0
    RR = list(range(nr)) if ranks else [None]
    # expectation
    tcol = cols[C.get("sum#time.duration", C.get("sum#avg#sum#time.duration"))]
    icol = cols[C.get("inclusive#sum#time.duration", C.get("sum#avg#inclusive#sum#time.duration"))]

    def put(key, r, rows, name, zero=False):
        w = {"name": name}
        if not rows:
            w.update({"time": 0, "time (inc)": 0})
            for c in ("mod", CNT, "path"):
                if c in C and c != pathcol:
                    w[c] = 0 if c == CNT else None
            if loc:
                w.update({"file": None, "line": None, "module": None})
        else:
            f = rows[0]
            w["time"] = 0 if zero else sum(x[C[tcol]] for x in rows)
            w["time (inc)"] = 0 if zero else sum(x[C[icol]] for x in rows)
            if CNT in C:
                w[CNT] = sum(x[C[CNT]] for x in rows)
            if "mod" in C:
                w["mod"] = None if f[C["mod"]] is None else nodes[f[C["mod"]]]["label"]
            if loc:
                w["module"] = nodes[f[C["module#cali.sampler.pc"]]]["label"]
                l = nodes[f[C["sourceloc#cali.sampler.pc"]]]["label"]
                w["file"], w["line"] = l.rsplit(":", 1)
            if "path" in C and pathcol != "path":
                p = [x[C["path"]] for x in rows]
                w["path"] = None if p[0] is None else nodes[p[0]]["label"]
        want[(key,) + ((r,) if ranks else ())] = w

    for v in range(n):
        mine = [row for row in data if row[C[pathcol]] == idx[v]]
        if loc:
            # several lines: one child per line (of the file of its first row)
            byline = {}
            if kind == "bothloc":
                mine = sorted(mine, key=lambda x: (x[C["mpi.rank"]] if ranks else 0, x[C["sourceloc#cali.sampler.pc"]]))
            for row in mine:
                byline.setdefault(nodes[row[C["sourceloc#cali.sampler.pc"]]]["label"].rsplit(":", 1)[1], []).append(row)
            if any(len({nodes[x[C["sourceloc#cali.sampler.pc"]]]["label"] for x in rows}) > 1 for rows in byline.values()):
                raise Skip()  # one line number in several files
            if len(byline) > 1:
                rec.outcome("split")
                for l, rows in byline.items():
                    fp = nodes[rows[0][C["sourceloc#cali.sampler.pc"]]]["label"].rsplit(":", 1)[0]
                    k = (v, l)
                    wedges.add((v, k))
                    wframes[k] = {"type": "statement", "file": fp, "line": l}
                    for r in RR:
                        rr = [x for x in rows if not ranks or x[C["mpi.rank"]] == r]
                        put(k, r, rr, os.path.basename(fp) + ":" + l)
                first = mine[0]
                for r in RR:
                    put(v, r, [first] if not ranks or first[C["mpi.rank"]] == r else [], names[v], zero=True)
                continue
        for r in RR:
            rows = [x for x in mine if not ranks or x[C["mpi.rank"]] == r]
            if len(rows) > 1 and kind == "loc":
                raise Skip()
            put(v, r, rows, names[v])
    if kind == "bothloc":
        # several rows of one context, rank and location are summed before
        pass
    exc, inc = ["time"] + ([CNT] if CNT in C else []), ["time (inc)"]
    obj = {"data": data, "columns": list(cols), "column_metadata": meta, "nodes": nodes, "launch": 7, "user": "u"}
    text = json.dumps(obj).encode()
    if unl:  # another profile was read before
        GraphFrame.from_caliper(io.BytesIO(text))
    if stream:
        gf = GraphFrame.from_caliper(io.BytesIO(text))
    else:
        fd, p = tempfile.mkstemp(prefix="c19-", suffix=".json")
        with os.fdopen(fd, "wb") as f:
            f.write(text)
        try:
            gf = GraphFrame.from_caliper(p)
        finally:
            os.unlink(p)
    rec.op()
    have = set(par)
    index = ["node"] + (["rank"] if ranks else [])
    key = judge(gf, want, wedges, [v for v in range(n) if v not in have], wframes, index, exc, inc, "time", case)
    if gf.metadata != {"launch": 7, "user": "u"}:
        raise Violation("metadata %s" % gf.metadata)
    if kind == "order":
        o = {}
        for row in data:
            if row[C["path"]] is not None:
                i = [v for v in idx if idx[v] == row[C["path"]]][0]
                o[i] = min(o.get(i, 99), row[0])
        ch = {v: sorted([b for a, b in edges if a == v], key=lambda b: o.get(b, -1)) for v in range(n)}
        seq = []

        def walk(v):
            seq.append(v)
            for c in ch[v]:
                walk(c)

        for r in sorted([v for v in range(n) if v not in par], key=lambda b: o.get(b, -1)):
            walk(r)
        got = [key[id(x)] for x in gf.dataframe.reset_index()["node"].drop_duplicates()]
        if len({o.get(v, -1) for v in range(n)}) == n and got != seq:
            raise Violation("order of rows %s, expected %s (%s)" % (got, seq, case))
    rec.state(case)
    rec.outcome(kind)


def run_cali(case, rec):
    """A .cali file is converted by the first cali-query of the PATH, with the query given."""
    path, query, fname = case
    top = tempfile.mkdtemp(prefix="c19-")
    keep = os.environ.get("PATH")
    try:
        dirs, first = [], None
        for i, k in enumerate(path):
            d = os.path.join(top, "d%d" % i)
            dirs.append(d)
            f = os.path.join(d, "cali-query")
            if k != "missing":
                os.mkdir(d)
            if k == "directory":
                os.mkdir(f)
            if k in ("text", "program", "json"):
                data = [[1.0 + i, 10.0 + i, 0], [2.0, 3.0, 1]]
                obj = {"data": data, "columns": ["sum#time.duration", "inclusive#sum#time.duration", "path"],
                       "column_metadata": [{"is_value": x} for x in (True, True, False)],
                       "nodes": [{"column": "path", "label": "main"}, {"column": "path", "label": "f%d" % i, "parent": 0}], "tool": i}
                with open(os.path.join(d, "out.json"), "w") as o:
                    json.dump(obj, o)
                with open(f, "w") as o:
                    o.write('#!/bin/sh\nfor a in "$@"; do printf "%%s\\n" "$a"; done > %s/args\n/bin/cat %s/out.json\n' % (d, d))
                os.chmod(f, 0o755 if k == "program" else 0o644)
                if k == "program" and first is None:
                    first = i
        cali = os.path.join(top, fname)
        with open(cali, "w") as o:
            o.write("not read by hatchet")
        os.environ["PATH"] = os.pathsep.join(dirs)
        try:
            gf = GraphFrame.from_caliper(cali, query)
        except ValueError as e:
            gf = None
            if first is not None:
                raise Violation("from_caliper of a .cali file fails (%s) with PATH entries %s" % (e, path))
        rec.op()
        if first is None:
            if gf is not None:
                raise Violation("a .cali file was read without cali-query (%s)" % path)
            rec.outcome("none")
        else:
            args = open(os.path.join(dirs[first], "args")).read().splitlines()
            if args != ["-q", query, cali]:
                raise Violation("cali-query was run with %s, expected %s" % (args, ["-q", query, cali]))
            if [i for i in range(len(path)) if os.path.exists(os.path.join(dirs[i], "args"))] != [first]:
                raise Violation("not (only) the first cali-query of the PATH was run (%s)" % path)
            want = {(0,): {"name": "main", "time": 1.0 + first, "time (inc)": 10.0 + first}, (1,): {"name": "f%d" % first, "time": 2.0, "time (inc)": 3.0}}
            judge(gf, want, {(0, 1)}, [0], {0: {"type": "region", "name": "main"}, 1: {"type": "region", "name": "f%d" % first}},
                  ["node"], ["time"], ["time (inc)"], "time", case)
            if gf.metadata != {"tool": first}:
                raise Violation("metadata %s" % gf.metadata)
            rec.outcome("first=%d" % first)
        rec.state(case)
    finally:
        if keep is None:
            os.environ.pop("PATH", None)
        else:
            os.environ["PATH"] = keep
        shutil.rmtree(top)


ORDER = {1: [0], 2: [1, 0], 3: [0, 2, 1], 4: [0, 3, 1, 2], 5: [0, 4, 2, 3, 1]}


def spaces(tier):
    th = tier == "thorough"

    def forests(N):
        for n in range(1, N + 1):
            for e, _ in gen.labelled(n, 1, "forest"):
                yield n, e

    PERMS = [[0, "id", 0], [1, "rev", 0], [0, "rot", 1], [1, "mid", 1]]

    def js():
        for n, e in forests(4):
            names = [list("abcd"[:n]), list("dcba"[:n])]
            for nm in names:
                for kind in ("plain", "avg", "mod", "order"):
                    for ranks in (0, 1, 2):
                        if n == 4 and ranks == 2 and not th:
                            masks = [(3, 3, 3, 3), (1, 2, 3, 3), (0, 1, 2, 3), (2, 0, 1, 1)]
                        elif n == 3 and ranks == 2 and kind == "avg" and not th:
                            masks = [(3, 3, 3), (1, 2, 3)]
                        else:
                            masks = itertools.product(range(2 ** max(ranks, 1)), repeat=n)
                        for mask in masks:
                            for perm in PERMS if n < 4 or kind == "order" or th else PERMS[2:3]:
                                yield [n, e, nm, ranks, list(mask), perm, kind, perm[0]]

    def unlabeled():
        for n, e in forests(4):
            for bits in range(1, 1 << n):
                nm = ["" if bits >> v & 1 else "dcba"[v] for v in range(n)]
                for kind in ("plain", "mod", "order"):
                    for ranks in (0, 2):
                        for perm in PERMS[:2]:
                            yield [n, e, nm, ranks, [3] * n, perm, kind, 1]

    def deep(kinds):
        def cases():
            for n, e in forests(3):
                nm = list("abc"[:n])
                for kind in kinds:
                    for ranks in (0, 1, 2):
                        full = 4 ** max(ranks, 1)
                        for mask in itertools.product(range(full), repeat=n):
                            if ranks == 2 and n > 1 and not th and any(m not in (0, 1, 3, 6, 9, 15) for m in mask):
                                continue
                            if n == 3 and ranks == 2 and not th and mask[0] not in (0, 6, 15):
                                continue
                            for perm in PERMS if n < 3 or th else PERMS[3:]:
                                yield [n, e, nm, ranks, list(mask), perm, kind, 0]
        return cases

    def cali():
        kinds = "missing", "empty", "text", "directory", "program"
        for n in range(4 if not th else 5):
            for path in itertools.product(kinds, repeat=n):
                for q in ("select * format json-split", "let x=\"a b\" group by '*'"):
                    for f in ("x.cali", "a b.c.cali"):
                        if n < 3 or th or f[0] == "x":
                            yield [list(path), q, f]

    return [
        Space("json", js, run_json, "all forests <=4 nodes x row presence per rank x row orders x column sets"),
        Space("json-unlabeled", unlabeled, run_json, "all forests <=4 nodes x every set of nodes without label, after another profile was read"),
        Space("cali-query", cali, run_cali, "PATHs of up to 3 entries of 5 kinds x queries: which converter runs, with which arguments, and what is read"),
        Space("json-two-hierarchies", deep(["both"]), run_json, "all forests <=3 nodes x one or two rows per context and rank"),
        Space("json-source-lines", deep(["loc", "bothloc"]), run_json, "all forests <=3 nodes x contexts with one or two source lines"),
    ]
