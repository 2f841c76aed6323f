#!/usr/bin/env python3
"""mutate.py list [FILE...]            prints the mutants of hatchet as JSON lines
mutate.py run MUTANTS OUT WORKERS    for each mutant (JSON lines) runs the existing tests and, if they pass, the checks

Systematic single-place changes of hatchet's sources (conditions, operators, constants, dropped statements, dropped copies and
sorts). Finds holes of the checks; not used by any check. Works on scratch copies below /tmp/mut.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
MAP = {  # file -> checks, most specific first
    "graphframe.py": ["C01", "C02", "C05", "C16", "C04", "C07", "C06", "C15", "C13", "C17", "C23", "C03", "C09", "C08", "C10"],
    "graph.py": ["C14", "C04", "C15", "C01", "C07", "C06", "C02"],
    "node.py": ["C14", "C15", "C04", "C01", "C07", "C08", "C13"],
    "frame.py": ["C14", "C15", "C13", "C17", "C18", "C04"],
    "query/engine.py": ["C08", "C09", "C10", "C11", "C23"],
    "query/query.py": ["C08", "C11", "C09", "C10"],
    "query/compound.py": ["C11"],
    "query/compat.py": ["C11", "C08", "C09", "C10", "C23"],
    "query/object_dialect.py": ["C09", "C08", "C11", "C23"],
    "query/string_dialect.py": ["C10", "C11", "C08", "C23"],
    "query/__init__.py": ["C11"],
    "external/console.py": ["C17", "C06"],
    "util/dot.py": ["C17"],
    "util/colormaps.py": ["C17"],
    "util/timer.py": ["C24"],
    "util/profiler.py": ["C24"],
    "writers/dataframe_writer.py": ["C13", "C06"],
    "writers/hdf5_writer.py": ["C13", "C06"],
    "readers/dataframe_reader.py": ["C13"],
    "readers/hdf5_reader.py": ["C13"],
    "readers/json_reader.py": ["C13", "C07"],
    "readers/literal_reader.py": ["C13"],
    "readers/pyinstrument_reader.py": ["C22"],
    "readers/gprof_dot_reader.py": ["C22"],
    "readers/cprofile_reader.py": ["C22"],
    "readers/spotdb_reader.py": ["C22"],
    "readers/timemory_reader.py": ["C22"],
    "readers/caliper_reader.py": ["C19"],
    "readers/caliper_native_reader.py": ["C21"],
    "readers/hpctoolkit_reader.py": ["C18"],
    "readers/tau_reader.py": ["C20"],
    "external/roundtrip/roundtrip/manager.py": ["C25"],
    "vis/loader.py": ["C25"],
}
FMAP = {  # functions of graphframe.py -> checks
    "squash": ["C01", "C07", "C06", "C23"], "filter": ["C01", "C03", "C23", "C06", "C09", "C08"], "_init_sum_columns": ["C02", "C23"],
    "subtree_sum": ["C02", "C23"], "subgraph_sum": ["C02", "C23"], "update_inclusive_columns": ["C02", "C07"],
    "generate_exclusive_columns": ["C02"], "inclusive_metric_calculations_checks": ["C02"], "copy": ["C15", "C06"], "deepcopy": ["C15", "C06"],
    "drop_index_levels": ["C16", "C23"], "groupby_aggregate": ["C16", "C23", "C06"], "unify": ["C04", "C05", "C07"],
    "_insert_missing_rows": ["C04", "C05", "C17", "C07"], "_operator": ["C05", "C07"], "tree": ["C17"], "to_dot": ["C17"],
    "to_flamegraph": ["C17"], "to_literal": ["C13"], "to_dict": ["C13"], "to_json": ["C13"], "to_hdf": ["C13"], "from_hdf": ["C13"],
    "from_literal": ["C13"], "from_json": ["C13"], "from_lists": ["C14"], "__init__": ["C13", "C07", "C05", "C21"],
    "from_timemory": ["C22"], "parallel_apply": ["C03", "C23"], "from_timeseries": ["C21"], "from_caliperreader": ["C21"],
    "show_metric_columns": ["C13"],
    "add": ["C05"], "sub": ["C05"], "mul": ["C05"], "div": ["C05"], "__iadd__": ["C05", "C06"], "__isub__": ["C05", "C06"],
    "__imul__": ["C05", "C06"], "__idiv__": ["C05", "C06"], "__itruediv__": ["C05", "C06"],
}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"],
       ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}


def mutants(rel):
    path = os.path.join(REPO, "hatchet", rel)
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def emit(n, new, kind, span=None):
        a, b = span or pos(n)
        if raw[a:b].decode() != new:
            out.append({"file": rel, "a": a, "b": b, "old": raw[a:b].decode(), "new": new, "kind": kind, "line": n.lineno, "fn": cur[0]})

    cur = [None]

    def walk(n, fn=None):
        if isinstance(n, ast.FunctionDef) and not cur[0]:
            cur[0] = n.name
            walk(n, n.name)
            cur[0] = None
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ("__repr__", "__str__") and isinstance(n, ast.FunctionDef):
                return
            for d in n.body:
                walk(d, n.name)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    walk(d, n.name)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            emit(n, "pass", "drop")
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                emit(n, "(%s %s %s)" % (txt(n.left), o, txt(n.comparators[0])), "cmp")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            emit(n, "(" + o.join("(%s)" % txt(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                r = [v for j, v in enumerate(n.values) if j != i]
                emit(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % txt(v) for v in r) + ")", "bool-drop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(n, "(%s)" % txt(n.operand), "not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
            emit(n.test, "(not (%s))" % txt(n.test), "negate")
        if isinstance(n, (ast.If, ast.IfExp)):
            emit(n.test, "True", "if-true")
            emit(n.test, "False", "if-false")
        if isinstance(n, ast.Constant):
            if n.value is True:
                emit(n, "False", "const")
            elif n.value is False:
                emit(n, "True", "const")
            elif isinstance(n.value, int):
                emit(n, "(%d)" % (n.value + 1), "const")
                if n.value:
                    emit(n, "0", "const")
            elif isinstance(n.value, float):
                emit(n, "(%r)" % (n.value + 1), "const")
        if isinstance(n, ast.BinOp):
            for k, o in ((ast.Add, "-"), (ast.Sub, "+"), (ast.Mult, "+"), (ast.Div, "*")):
                if isinstance(n.op, k) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    emit(n, "(%s %s %s)" % (txt(n.left), o, txt(n.right)), "arith")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("sorted", "list", "set", "tuple", "reversed", "dict") and len(n.args) == 1:
                emit(n, "%s(%s)" % ("list" if f.id in ("sorted", "reversed") else "", txt(n.args[0])), "unwrap")
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "deepcopy", "sort_index", "reset_index", "fillna", "strip", "lower", "rstrip"):
                base = n.args[0] if isinstance(f.value, ast.Name) and f.value.id == "copy" and n.args else f.value
                emit(n, txt(base), "uncopy")
            for k in n.keywords:
                if k.arg in ("inplace",) or k.arg is None:
                    continue
                a, b = pos(k)
                m = re.match(rb"\s*,?", raw[b:])
                emit(n, "", "drop-kw", (a, b + m.end() if raw[b + m.end() - 1:b + m.end()] == b"," else b))
        if isinstance(n, ast.Break):
            emit(n, "continue", "loop")
        if isinstance(n, ast.Continue):
            emit(n, "break", "loop")
            emit(n, "pass", "loop")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)):
            emit(n, "pass", "drop")
        if isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                emit(n, "pass", "drop")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            emit(n, txt(n.value), "unslice")
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    for d in ast.parse(src).body:
        walk(d)
    seen, res = set(), []
    for m in out:
        key = (m["a"], m["b"], m["new"])
        if key in seen:
            continue
        seen.add(key)
        t = (raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        m["id"] = "%s:%d:%d:%s:%s" % (rel, m["line"], m["a"], m["kind"], m["new"][:20].replace("\n", " "))
        res.append(m)
    return res


TESTENV = dict(os.environ, PATH="/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def one(m, repo, tmp, procs):
    p = os.path.join(repo, "hatchet", m["file"])
    raw = open(os.path.join(REPO, "hatchet", m["file"]), "rb").read()
    assert raw[m["a"]:m["b"]].decode() == m["old"]
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    try:
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = dict(TESTENV, PYTHONPATH=repo, MPLCONFIGDIR=tmp + "/mpl", IPYTHONDIR=tmp + "/ipy")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=20",
                                "--deselect", "hatchet/tests/hpctoolkit.py::test_allgather",  # fails on the unchanged tree
                                "--basetemp=" + tmp + "/bt"], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 99
        if rc:
            return "tests"
        res = []
        for c in (FMAP.get(m.get("fn")) if m["file"] == "graphframe.py" else None) or MAP[m["file"]]:
            e = dict(os.environ, HATCHET_REPO=repo, VERIF_PROCS=str(procs))
            try:
                r = subprocess.run(["bash", os.path.join(V, "run.sh"), c, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=1500)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc:
                return "%s rc=%d" % (c, rc)
        return "SURVIVED"
    finally:
        open(p, "wb").write(raw)


def worker(q, out, w, procs):
    base = "/tmp/mut/w%d" % w
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(["cp", "-a", REPO + "/.", base + "/repo"])
    while True:
        m = q.get()
        if m is None:
            return
        try:
            r = one(m, base + "/repo", base + "/tmp", procs)
        except Exception as e:
            r = "ERROR %r" % e
        with open(out, "a") as f:
            f.write(json.dumps(dict(m, result=r)) + "\n")


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or MAP:
            for m in mutants(f):
                print(json.dumps(m))
        return
    import multiprocessing as mp
    inp, out, n = sys.argv[2], sys.argv[3], int(sys.argv[4])
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    q = mp.Queue()
    for line in open(inp):
        m = json.loads(line)
        if m["id"] not in done:
            q.put(m)
    for _ in range(n):
        q.put(None)
    ps = [mp.Process(target=worker, args=(q, out, w, max(1, 8 // n))) for w in range(n)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


main()
