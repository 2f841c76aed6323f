"""Lines of hatchet executed by a check (VERIF_COV=directory); development aid, off by default."""
import json
import os
import sys

HITS = set()
DIR = os.environ.get("VERIF_COV")


def start(repo):
    if not DIR:
        return
    base = os.path.join(repo, "hatchet") + os.sep
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, "verif")

    def line(code, n):
        if code.co_filename.startswith(base):
            HITS.add((code.co_filename[len(base):], n))
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def dump(tag):
    if DIR:
        os.makedirs(DIR, exist_ok=True)
        with open(os.path.join(DIR, "%s.%d.json" % (tag, os.getpid())), "w") as f:
            json.dump(sorted(HITS), f)
