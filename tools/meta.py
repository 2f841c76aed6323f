#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=(), state=(), hook=None):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)),
        level_note=level_note, technique=technique))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        f.write(json.dumps(p["prop"]) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none (no hooks are needed in /repo)", "enable": "nothing to enable: the checks drive the public Python API", "source_commits": []},
    "checks": [
        {"property": p["prop"]["id"], "quick_cmd": "bash run.sh %s quick" % p["prop"]["id"],
         "thorough_cmd": "bash run.sh %s thorough" % p["prop"]["id"], "technique": p["technique"],
         "level": "model_checking", "level_note": p["level_note"], "evidence_file": "evidence/%s.json" % p["prop"]["id"]}
        for p in P
    ],
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
