#!/usr/bin/env python3
"""Rewrites the table of spaces in DESIGN.md from the evidence of the last quick runs: ./py.sh tools/design.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- spaces -->\n", "<!-- /spaces -->\n"
out = []
for n in range(1, 30):
    f = os.path.join(HERE, "evidence", "C%02d.json" % n)
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    if e["tier"] != "quick" or e["violations"]:
        raise SystemExit("%s is not from a clean quick run" % f)
    c = e["coverage"]
    out.append("\n**C%02d**: %d cases, %d states, %d operations compared, about %d s\n\n" % (
        n, c["executions"], c["states"], c["transitions"], max(1, round(e["wall_s"]))))
    for s in c["spaces"]:
        out.append("- `%s` (%d cases, %d outside the domain): %s\n" % (s["space"], s["cases"], s["outside_domain"], s["rule"]))
    for a in e["assumptions"]:
        out.append("- *assumption*: %s\n" % a)
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
i, j = t.index(A) + len(A), t.index(B)
open(p, "w").write(t[:i] + "".join(out) + "\n" + t[j:])
