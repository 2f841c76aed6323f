"""C24: phase timer and profiler against state-machine models, for every short sequence of operations and clock steps."""
import contextlib
import io
import itertools
import os
import pstats
import shutil
import tempfile
import time

from mc.core import Skip, Space, Violation
from mc.hx import places
from hatchet.util.profiler import Profiler
from hatchet.util.timer import Timer

import datetime as dt

PROPERTY = "C24"
LEVEL = "model_checking"
ASSUMPTIONS = ["the clock is replaced by one that advances between operations under the control of the checker"]


class Clock(dt.datetime):
    now_ = dt.datetime(2026, 1, 1, 12, 0, 0)

    @classmethod
    def now(cls, tz=None):
        return cls.now_

    today = utcnow = now


class Module:
    """A module with some attributes replaced."""

    def __init__(self, mod, **new):
        self.__dict__.update(new, mod_=mod)

    def __getattr__(self, name):
        return getattr(self.mod_, name)


def seconds():
    return (Clock.now_ - dt.datetime(2026, 1, 1)).total_seconds()


def stop_clock():
    """Hatchet's modules take the time from Clock, however they have imported it."""
    fake = {f: seconds for f in ("time", "perf_counter", "monotonic", "process_time")}
    new = [(dt.datetime, Clock), (dt, Module(dt, datetime=Clock)), (time, Module(time, **fake))] + [(getattr(time, f), g) for f, g in fake.items()]
    for m, a, x in [(m, a, x) for old, x in new for m, a in places(old)]:
        setattr(m, a, x)


stop_clock()


# ---------------------------------------------------------------- timer
def run_timer(case, rec):
    ops = case
    Clock.now_ = dt.datetime(2026, 1, 1, 12, 0, 0)
    t = Timer()
    times, order, active, started = {}, [], None, None
    step = [1]

    def tick():
        Clock.now_ += dt.timedelta(seconds=step[0])
        step[0] *= 2

    def close():
        nonlocal active, started
        if active not in order:
            order.append(active)
        times[active] = times.get(active, dt.timedelta()) + (Clock.now_ - started)
        active = None

    def do(op):
        nonlocal active, started
        rec.op()
        if op[0] == "s":
            want = None
            if active:
                want = Clock.now_ - started
                close()
            got = t.start_phase(op[1])
            if got != want:
                raise Violation("start_phase returned %s, expected %s (%s)" % (got, want, case))
            active, started = op[1], Clock.now_
        elif op == "e":
            if active is None:
                try:
                    t.end_phase()
                except AssertionError:
                    return
                raise Violation("end_phase without a phase did not fail (%s)" % (case,))
            t.end_phase()
            close()
        elif op[0] in "wx":
            if active:
                close()
            try:
                with t.phase(op[1]):
                    active, started = op[1], Clock.now_
                    tick()
                    if op[0] == "x":
                        raise KeyError("inside")
            except KeyError:
                if op[0] != "x":
                    raise
            else:
                if op[0] == "x":
                    raise Violation("phase() swallowed an exception (%s)" % (case,))
            close()

    for op in ops:
        do(op)
        check = {k: v for k, v in t._times.items()}
        if check != times or list(check) != order:
            raise Violation("times %s, expected %s (%s)" % (check, times, case))
        text = "Times:\n" + "".join("    %-20s %.2fs\n" % (k + ":", times[k].total_seconds()) for k in order)
        if str(t) != text:
            raise Violation("str is %r, expected %r (%s)" % (str(t), text, case))
        if "t" not in op:
            tick()
    rec.state([sorted((k, v.total_seconds()) for k, v in times.items()), active])


# ---------------------------------------------------------------- profiler
def profiled_f():
    return 1


def profiled_g():
    return profiled_f()


def counts(path_or_stats):
    st = path_or_stats if isinstance(path_or_stats, pstats.Stats) else pstats.Stats(path_or_stats)
    out = {"profiled_f": 0, "profiled_g": 0}
    for (_, _, name), v in st.stats.items():
        if name in out:
            out[name] += v[1]
    return out


def run_profiler(case, rec):
    Clock.now_ = dt.datetime(2026, 1, 1, 12, 0, 0)
    d = tempfile.mkdtemp(prefix="c24-")
    back = os.getcwd()
    os.chdir(d)
    prf = Profiler()
    try:
        active, total, files, started = False, {"profiled_f": 0, "profiled_g": 0}, {}, False

        def content():
            out = {}
            for f in sorted(os.listdir(".")):
                with open(f, "rb") as h:
                    out[f] = h.read()
            return out

        def one_new(before, want, exact=None):
            after = content()
            new = set(after) - set(before)
            for f, b in before.items():
                if after.get(f) != b:
                    raise Violation("%s was overwritten or removed (%s)" % (f, case))
            if len(new) != 1:
                raise Violation("new files: %s (%s)" % (sorted(new), case))
            f = new.pop()
            if exact and f != exact:
                raise Violation("wrote %s instead of %s (%s)" % (f, exact, case))
            if counts(f) != want:
                raise Violation("%s has %s, expected %s (%s)" % (f, counts(f), want, case))

        for op in case:
            rec.op()
            before = content()
            if op == "start":
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        prf.start()
                except RuntimeError:
                    if not active:
                        raise
                else:
                    if active:
                        raise Violation("start of a running profiler did not fail (%s)" % (case,))
                active = started = True
            elif op == "stop":
                if not active:
                    raise Skip()
                prf.stop()
                active = False
                one_new(before, total, None if "hatchet-profile.pstats" in before else "hatchet-profile.pstats")
                continue
            elif op == "reset":
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        prf.reset()
                except RuntimeError:
                    if not active:
                        raise
                else:
                    if active:
                        raise Violation("reset of a running profiler did not fail (%s)" % (case,))
                    total = dict.fromkeys(total, 0)
                    started = False
            elif op in ("f", "g"):
                (profiled_f if op == "f" else profiled_g)()
                if active:
                    total["profiled_f"] += 1
                    total["profiled_g"] += op == "g"
                continue
            elif op == "tick":
                Clock.now_ += dt.timedelta(seconds=1)
                continue
            elif op == "str":
                if not started:
                    raise Skip()
                s = str(prf)
                for k in total:
                    if (k in s) != (total[k] > 0):
                        raise Violation("str %s %s, called %d times (%s)" % ("shows" if k in s else "lacks", k, total[k], case))
            else:
                if not started:
                    raise Skip()
                if op == "write":
                    prf.write_to_file()
                    one_new(before, total, None if "hatchet-profile.pstats" in before else "hatchet-profile.pstats")
                elif op == "file":
                    prf.write_to_file("x.pstats")
                    one_new(before, total, None if "x.pstats" in before else "x.pstats")
                elif op in ("add", "addto"):
                    fs = sorted(before)
                    want = dict(total)
                    for f in fs:
                        for k, v in counts(f).items():
                            want[k] += v
                    if op == "add":
                        prf.write_to_file("y.pstats", fs)
                    else:
                        prf.write_to_file(add_pstats_files=fs)
                    name = "y.pstats" if op == "add" else "hatchet-profile.pstats"
                    one_new(before, want, None if name in before else name)
                continue
            if content() != before:
                raise Violation("%s changed files (%s)" % (op, case))
        rec.state([active, sorted(total.items()), sorted(os.listdir("."))])
        rec.outcome("%d files" % len(os.listdir(".")))
    finally:
        prf._prf.disable()
        os.chdir(back)
        shutil.rmtree(d)


def spaces(tier):
    th = tier == "thorough"

    def timer():
        ops = ["sa", "sb", "e", "wa", "wb", "xa", "xb"]
        for n in range(1, 7 if th else 6):
            for seq in itertools.product(ops, repeat=n):
                yield list(seq)
        zero = ["sat", "sa", "et", "e", "wa", "sbt"]  # t: the clock does not advance afterwards
        for n in range(1, 6 if th else 5):
            for seq in itertools.product(zero, repeat=n):
                yield list(seq)

    def profiler():
        ops = ["start", "stop", "reset", "f", "tick", "write", "file", "add", "addto", "str"]
        for n in range(1, 6 if th else 5):
            for seq in itertools.product(ops, repeat=n):
                yield ["start"] + list(seq)
        for seq in itertools.product(["stop", "start", "g", "write", "file"], repeat=7 if th else 6):
            yield ["start", "g"] + list(seq)

    return [
        Space("timer", timer, run_timer, "every sequence of up to 5 (6) start/end/with/with-exception operations on two phases, and with clocks that stand still"),
        Space("profiler", profiler, run_profiler, "every sequence of up to 5 (6) operations, and of 8 (9) over five of them"),
    ]
