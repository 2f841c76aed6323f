"""Exhaustive-exploration runner shared by all checks.

A check module defines PROPERTY, LEVEL_NOTE-ish metadata and `spaces(tier)`: a list of Space objects.  A Space is a
*finite, deterministically ordered* set of cases (simplest first) plus a function that executes one case against the
real hatchet code, comparing every step with a reference model.  The runner executes every case of every space (sharded
over processes), never samples and has no time cut-off: a finished run is a complete enumeration of the stated bounds.
"""
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import cov, env

CASE_TIMEOUT = 120


class Violation(Exception):
    """The property is broken on this case. `sig` identifies the failing input/history (known-findings key)."""

    def __init__(self, message, sig=None):
        super().__init__(message)
        self.message = message
        self.sig = sig


class Skip(Exception):
    """The case is outside the stated domain (counted, not judged)."""


class CaseHang(BaseException):
    """Raised by the watchdog; BaseException so that a broad `except Exception` in the code under test cannot eat it."""


class Space:
    def __init__(self, name, cases, run, rule, setup=None, cap=None):
        self.name = name
        self.cases = cases  # callable -> iterator of JSON-able cases
        self.run = run  # run(case, rec)
        self.rule = rule
        self.setup = setup
        self.cap = cap


def stable(o):
    """repr that does not depend on set/dict iteration order."""
    if isinstance(o, (set, frozenset)):
        return "{%s}" % ",".join(sorted(map(stable, o)))
    if isinstance(o, dict):
        return "{%s}" % ",".join(sorted(stable(k) + ":" + stable(v) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return "(%s)" % ",".join(map(stable, o))
    return repr(o)


def h64(obj):
    if not isinstance(obj, (str, bytes)):
        obj = stable(obj)
    if isinstance(obj, str):
        obj = obj.encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Rec:
    """Measured counts of one worker."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.cases = 0
        self.outcomes = {}

    def state(self, *key):
        """Register one canonical state that was checked."""
        self.states.add(h64(key))

    def op(self, n=1):
        """n operations of the implementation were executed and compared."""
        self.transitions += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1


def case_id(prop, space, case):
    return hashlib.blake2b(
        json.dumps([prop, space, case], sort_keys=True).encode(), digest_size=6
    ).hexdigest()


def _alarm(signum, frm):
    raise CaseHang("case did not finish within %d s" % CASE_TIMEOUT)


def execute(space, case, rec):
    """Run one case. Returns None or (message, sig)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        space.run(case, rec)
        rec.traces += 1
        return None
    except Skip:
        rec.skipped += 1
        return None
    except Violation as v:
        return (v.message, v.sig)
    except CaseHang as e:
        return ("HANG: %s" % e, None)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # SystemExit from the code under test included
        tb = traceback.format_exc(limit=-14)
        return ("unexpected %s: %s\n%s" % (type(e).__name__, e, tb), None)
    finally:
        signal.alarm(0)


def _worker(spaces, w, nw, known, stop, q):
    try:
        out = []
        for si, sp in enumerate(spaces):
            rec = Rec()
            if sp.setup:
                sp.setup()
            bad, hits, sample = [], {}, []
            n = 0
            for i, case in enumerate(sp.cases()):
                n += 1
                if i % nw != w:
                    continue
                if stop.value:
                    break
                rec.cases += 1
                r = execute(sp, case, rec)
                if r is None:
                    if len(sample) < 2 or (rec.cases & (rec.cases - 1)) == 0:
                        sample.append((i, case))
                    continue
                msg, sig = r
                sig = sig or case_id(sp_prop, sp.name, case)
                if sig in known:
                    hits[sig] = hits.get(sig, 0) + 1
                    continue
                bad.append((i, case, msg, sig))
                stop.value = si + 1
                break
            out.append((si, rec, bad, hits, sample[-3:], n))
            if stop.value:
                break
        cov.dump(sp_prop)
        q.put((w, out, None))
    except BaseException:
        q.put((w, [], traceback.format_exc()))


sp_prop = None


def load_known(prop):
    known = {}
    p = os.path.join(env.HOME, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                body, _, what = line[len("finding:"):].partition(" -- ")
                kv = dict(t.split("=", 1) for t in body.split())
                if kv.get("property") == prop:
                    known[kv["sig"]] = what.strip()
    return known


def write_replay(prop, space, case, msg, sig):
    d = os.path.join(env.HOME, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, case_id(prop, space, case)))
    with open(p, "w") as f:
        json.dump({"property": prop, "space": space, "case": case, "sig": sig, "message": msg,
                   "rerun": "./run.sh %s --replay %s" % (prop, p)}, f, indent=1)
    return p


def run_check(mod, tier, seed, procs=None, only=None):
    global sp_prop
    t0 = time.time()
    prop = mod.PROPERTY
    sp_prop = prop
    spaces = mod.spaces(tier)
    if only:
        spaces = [s for s in spaces if s.name in only]
    known = load_known(prop)
    nw = procs or int(os.environ.get("VERIF_PROCS", "0")) or (os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Value("i", 0, lock=False)
    q = ctx.SimpleQueue()
    ps = [ctx.Process(target=_worker, args=(spaces, w, nw, known, stop, q)) for w in range(nw)]
    for p in ps:
        p.start()
    got = {}
    while len(got) < nw:
        while q.empty():
            time.sleep(0.02)
            dead = [i for i, p in enumerate(ps) if not p.is_alive() and i not in got]
            if dead and q.empty():
                time.sleep(0.3)
                if q.empty():
                    for p in ps:
                        p.terminate()
                    raise RuntimeError("worker(s) %s died without a result" % dead)
        w, out, err = q.get()
        if err:
            for p in ps:
                p.terminate()
            raise RuntimeError("worker failed:\n" + err)
        got[w] = out
    for p in ps:
        p.join()
    states, transitions, traces, skipped, cases = set(), 0, 0, 0, 0
    bad, hits, samples, per = [], {}, [], []
    for si, sp in enumerate(spaces):
        recs = [o for w in sorted(got) for o in got[w] if o[0] == si]
        st = set()
        tr = sk = cs = tv = 0
        outc = {}
        total = 0
        for _, rec, b, hh, smp, n in recs:
            st |= rec.states
            tr += rec.transitions
            sk += rec.skipped
            cs += rec.cases
            tv += rec.traces
            total = max(total, n)
            for k, v in rec.outcomes.items():
                outc[k] = outc.get(k, 0) + v
            bad += [(si, i, sp.name, c, m, s) for (i, c, m, s) in b]
            for s, v in hh.items():
                hits[s] = hits.get(s, 0) + v
        if recs:
            smp = sorted([s for o in recs for s in o[4]], key=lambda t: t[0])
            pick = [smp[0], smp[len(smp) // 2], smp[-1]] if len(smp) > 2 else smp
            samples += [{"space": sp.name, "index": i, "case": c} for i, c in pick]
        per.append({"space": sp.name, "rule": sp.rule, "cases": cs, "states": len(st), "transitions": tr,
                    "traces_validated": tv, "outside_domain": sk, "outcomes": outc, "complete": cs == total and bool(recs)})
        states |= {(si, x) for x in st}
        transitions += tr
        traces += tv
        skipped += sk
        cases += cs
    bad.sort(key=lambda b: (b[0], b[1]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "states": len(states), "transitions": transitions, "traces_validated_against_impl": traces,
            "executions": cases, "outside_domain": skipped,
            "exhaustive": not bad and all(p["complete"] for p in per),
            "spaces": per, "samples": samples,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    ed = os.path.join(env.HOME, "evidence")
    os.makedirs(ed, exist_ok=True)
    tmp = os.path.join(ed, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ed, prop + ".json"))
    for p in per:
        print("%s %-34s cases=%d states=%d transitions=%d validated=%d outside=%d %s" % (
            prop, p["space"], p["cases"], p["states"], p["transitions"], p["traces_validated"],
            p["outside_domain"], json.dumps(p["outcomes"], sort_keys=True) if p["outcomes"] else ""))
    for s, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, what, hits.get(s, 0)))
    if bad:
        _, i, spn, case, msg, sig = bad[0]
        p = write_replay(prop, spn, case, msg, sig)
        print("counterexample in space %s, case #%d: %s" % (spn, i, json.dumps(case)))
        print(msg)
        print("sig=%s" % sig)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    print("%s held: states=%d transitions=%d traces=%d wall=%.1fs" % (prop, len(states), transitions, traces, time.time() - t0))
    return 0


def replay(mod, path):
    global sp_prop
    sp_prop = mod.PROPERTY
    d = json.load(open(path))
    for tier in ("quick", "thorough"):
        for sp in mod.spaces(tier):
            if sp.name == d["space"]:
                if sp.setup:
                    sp.setup()
                r = execute(sp, d["case"], Rec())
                if r is None:
                    print("replay: property holds on this case")
                    return 0
                print(r[0])
                print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
                return 1
    raise SystemExit("unknown space %s" % d["space"])
