#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].

Writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from /repo's HEAD. Each old text must occur exactly once.
"""
import json, os, runpy, subprocess, sys
V = os.environ.get("SEED_OUT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH=$PWD exec %s "$here/demo.py"
"""
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    base = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "ada697b"], text=True).strip()
    w = "/tmp/mkseed.%d" % os.getpid()
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", w])
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            orig = subprocess.check_output(["git", "-C", w, "show", base + ":" + f], text=True)
            for line in old.splitlines():
                if line.strip() and line not in orig.splitlines() and line not in new.splitlines():
                    print(s["id"], "WARNING: line not in original:", line)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    finally:
        subprocess.call(["rm", "-rf", w])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH % s.get("py", "/opt/venv/bin/python"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", s["id"])
