"""C03: predicate filters under every worker count and completion order (controlled scheduler replacing multiprocess)."""
import contextlib
import itertools

import dill
import multiprocess

from mc import gen
from mc.core import Space, Violation
from mc.hx import GraphFrame, clean, make_gf, replaced, snapshot, diff_snap, path_keys, rows_of, edges_of, wf_graph
import hatchet.graphframe as hgf

PROPERTY = "C03"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "a worker is atomic between start and its queue operations (it shares nothing with the parent), so schedules are completion orders",
    "pipe capacity is either unbounded or zero (a worker cannot exit before its result has been taken)",
    "the scheduler stands in for multiprocess.Process/Queue; the same cases also run under the real one (space real-processes)",
]


class Deadlock(Exception):
    pass


class Sched:
    """Runs forked workers only at blocking points of the parent, in the order given by a permutation of process ids."""

    def __init__(self, order, cap=True):
        self.order = list(order)
        self.cap = cap  # False: nothing fits into the pipe of a queue
        self.current = None
        self.procs = []
        self.ran = []

    def cpu_count(self):
        return max(1, len(self.order))

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        p = Proc(self, target, args, kwargs or {})
        self.procs.append(p)
        return p

    def Queue(self, *a):
        return Q(self)

    SimpleQueue = Queue
    JoinableQueue = Queue

    def get_context(self, method=None):
        return self

    def step(self):
        """Let one more started worker run to completion; False if none is left."""
        ready = [i for i, p in enumerate(self.procs) if p.started and not p.ran]
        if not ready:
            return False
        pick = next((i for i in self.order if i in ready), ready[0])
        self.ran.append(pick)
        self.procs[pick].run()
        return True


class Proc:
    def __init__(self, s, target, args, kwargs):
        self.s, self.target, self.args, self.kwargs = s, target, args, kwargs
        self.started = self.ran = self.killed = False
        self.pending = 0  # results not yet through the pipe
        self.exitcode = None
        self.pid = None
        self.daemon = False
        self.name = "p"

    def start(self):
        # fork: the child sees a copy of the arguments as they are now
        self.args = [fork_copy(a) for a in self.args]
        self.kwargs = {k: fork_copy(a) for k, a in self.kwargs.items()}
        self.started = True
        self.pid = 100000

    def run(self):
        self.ran = True
        self.s.current = self
        try:
            self.target(*self.args, **self.kwargs)
            self.exitcode = 0
        except BaseException:
            self.exitcode = 1
        self.s.current = None

    def join(self, timeout=None):
        assert self.started, "can only join a started process"
        while not self.ran and not self.killed:
            self.s.step()
        if self.pending and timeout is None and not self.killed:
            raise Deadlock("the caller joins a worker that cannot exit, as nobody takes its result from the pipe")

    def is_alive(self):
        return self.started and not self.killed and (not self.ran or self.pending > 0)

    def terminate(self):
        self.ran = self.killed = True

    kill = terminate

    def close(self):
        pass


class Q:
    def __init__(self, s):
        self.s = s
        self.items = []

    def put(self, x, block=True, timeout=None):
        p = self.s.current
        if p is not None and not self.s.cap:
            p.pending += 1
        self.items.append((dill.dumps(x), p))

    def get(self, block=True, timeout=None):
        import queue

        while not self.items:
            if not self.s.step():
                if timeout is not None or not block:
                    raise queue.Empty
                raise Deadlock("the caller waits for a worker result that can never come")
        x, p = self.items.pop(0)
        if p is not None and p.pending:
            p.pending -= 1
        return dill.loads(x)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


def fork_copy(a):
    if isinstance(a, (Q, Proc, Sched)):
        return a
    return dill.loads(dill.dumps(a))


SHAPES = {
    "flat": ([(0, 1), (0, 2), (1, 3), (1, 4)], ["a", "b", "c", "d", "e"], "n"),
    "dup": ([(0, 1), (0, 2), (1, 3), (2, 4)], ["a", "b", "b", "c", "c"], "n"),
    "ranks": ([(0, 1)], ["a", "b"], "nr"),
    "long": ([(0, 1)], ["a", "b"], "nr"),
    "threads": ([(0, 1)], ["a", "b"], "nrt"),
}


def build(shape, rows_n):
    edges, frames, index = SHAPES[shape]
    rows = []
    if index == "n":
        edges = [e for e in edges if e[1] < rows_n]
        frames = frames[:rows_n]
        for v in range(len(frames)):
            rows.append((v, (), {"uid": v, "time": float(1 << v), "time (inc)": 3.0, "n": v + 1, "ok": v % 2 == 0}))
    else:
        if shape == "long":
            keys = [(v, (r,)) for v in (0, 1) for r in range(rows_n // 2)]
        else:
            keys = [(v, r) for v in (0, 1) for r in ([(0,), (1,)] if index == "nr" else [(0, 0), (0, 1)])][:rows_n]
        for i, (v, r) in enumerate(keys):
            rows.append((v, r, {"uid": i, "time": float(1 << (i % 40)), "time (inc)": 3.0, "n": i + 1, "ok": i % 2 == 0}))
    return make_gf(edges, frames, rows, index, default="time (inc)", metadata={"m": [1]})


SMALL = ["flat", "dup", "ranks", "threads"]


def pred_for(mask, raise_at):
    def pred(x):
        u = int(x["uid"])
        if u == raise_at:
            raise ValueError("predicate failed on row %d" % u)
        return bool(mask >> u & 1)

    return pred


def table(df):
    return [tuple([id(ix[0]) if isinstance(ix, tuple) else id(ix)] + ([clean(i) for i in ix[1:]] if isinstance(ix, tuple) else []))
            for ix in df.index.tolist()], {c: [clean(x) for x in df[c].tolist()] for c in df.columns}, \
        {c: str(df[c].dtype) for c in df.columns}, list(df.index.names)


def run(case, rec, real=False):
    shape, rows_n, mask, order, squash, raise_at, cap = case
    if mask == "all":
        mask = (1 << rows_n) - 1
    gf, nodes = build(shape, rows_n)
    before = snapshot(gf)
    src = table(gf.dataframe)
    sched = Sched(order, cap)
    err = out = None
    with contextlib.ExitStack() as st:
        if not real:
            st.enter_context(replaced(multiprocess, **{k: getattr(sched, k) for k in ("Process", "Queue", "SimpleQueue", "JoinableQueue", "cpu_count", "get_context")}))
        try:
            out = gf.filter(pred_for(mask, raise_at), squash=squash, num_procs=len(order))
        except Deadlock as e:
            raise Violation("filter() hangs: %s (rows=%d workers=%d completion order %s)" % (e, rows_n, len(order), sched.ran))
        except Exception as e:
            err = e
    rec.op()
    if not real and any(p.is_alive() for p in sched.procs):
        raise Violation("filter returned with %d workers not joined or still running" % sum(p.is_alive() for p in sched.procs))
    d = diff_snap(before, snapshot(gf))
    if d:
        raise Violation("filter modified its input: " + d)
    if raise_at is not None and raise_at < len(gf.dataframe):
        if not isinstance(err, ValueError) or "predicate failed on row %d" % raise_at not in str(err):
            raise Violation("the predicate's exception did not reach the caller: got %r / %r" % (err, out))
        rec.outcome("error propagated")
        return
    nrows = len(gf.dataframe)
    want = [i for i, u in enumerate(src[1]["uid"]) if mask >> u & 1]
    if not want:
        if not isinstance(err, hgf.EmptyFilter):
            raise Violation("empty result did not raise EmptyFilter: %r" % err)
        rec.outcome("empty")
        return
    if err is not None:
        raise err
    if out is gf or out.dataframe is gf.dataframe:
        raise Violation("filter returned its input")
    if not squash:
        if out.graph is not gf.graph:
            raise Violation("filter without squash changed the graph")
        idx, data, dts, names = table(out.dataframe)
        sidx, sdata, sdts, snames = src
        if idx != [sidx[i] for i in want]:
            raise Violation("surviving rows/nodes are not the selected rows in order: uids %s, expected %s (same node objects: %s)" % (
                data.get("uid"), want, sorted(idx) == sorted(sidx[i] for i in want)))
        if names != snames or data != {c: [v[i] for i in want] for c, v in sdata.items()}:
            raise Violation("surviving rows changed: %s, expected rows %s of %s" % (data, want, sdata))
        if dts != sdts:
            raise Violation("column types changed: %s -> %s" % (sdts, dts))
    else:
        seq = build(shape, rows_n)[0].filter(pred_for(mask, None), squash=True, num_procs=1)
        drop = ("uid", "n", "ok") if shape == "dup" else ()  # which merged row represents them is not defined
        a, b = canon(out, drop), canon(seq, drop)
        if a != b:
            raise Violation("filter+squash differs between %d workers (order %s) and sequential: %s vs %s" % (len(order), order, a, b))
    if ((out.exc_metrics != gf.exc_metrics or out.inc_metrics != gf.inc_metrics) and not squash) or out.default_metric != gf.default_metric or out.metadata != gf.metadata:
        raise Violation("metrics/metadata lost by filter")
    rec.state(shape, rows_n, case[2], len(order), squash)
    rec.outcome("%d workers" % len(order))


def canon(gf, drop):
    wf_graph(gf.graph)
    key = path_keys(gf.graph)
    return (sorted(map(str, key.values())), sorted(map(str, edges_of(gf.graph, key))),
            sorted((str(k), sorted((c, repr(v)) for c, v in r.items() if c not in drop)) for k, r in rows_of(gf.dataframe, key).items()))


def run_real(case, rec):
    import signal

    def onalarm(*a):
        raise Violation("filter() with real worker processes did not return within 30 s (hang)")

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(30)
    try:
        run(case, rec, real=True)
    finally:
        signal.alarm(0)
        for p in multiprocess.active_children():
            p.terminate()


def spaces(tier):
    th = tier == "thorough"

    def sched():
        for shape in SMALL:
            for rows_n in range(1, (5 if SHAPES[shape][2] == "n" else 4) + 1):
                for w in range(1, 5 if not th else 6):
                    for order in itertools.permutations(range(w)):
                        masks = range(1 << rows_n)
                        if not th and (w == 4 or rows_n == 5):
                            masks = [m for m in masks if m in (0, 1, (1 << rows_n) - 1, (1 << rows_n) - 2, 5 & ((1 << rows_n) - 1), 10 & ((1 << rows_n) - 1))]
                        for mask in masks:
                            for cap in (True, False) if w < 4 or th else (False,):
                                yield [shape, rows_n, mask, order, False, None, cap]

    def squash():
        for shape in SMALL:
            for rows_n in range(2, (5 if SHAPES[shape][2] == "n" else 4) + 1):
                for w in (2, 3) + ((4,) if th else ()):
                    for order in itertools.permutations(range(w)):
                        for mask in range(1, 1 << rows_n):
                            if not th and w == 3 and mask % 3 != 1 and mask != (1 << rows_n) - 1:
                                continue
                            yield [shape, rows_n, mask, order, True, None, False]

    def faults():
        for shape in ("flat", "ranks"):
            for rows_n in range(1, 5):
                for w in range(1, 4 if not th else 5):
                    for order in itertools.permutations(range(w)):
                        for at in range(rows_n):
                            for mask in (0, (1 << rows_n) - 1):
                                yield [shape, rows_n, mask, order, False, at, (at + mask) % 2 == 0]

    def real():
        for shape in SMALL:
            for rows_n in (1, 3, 4):
                for w in (2, 3, 6):
                    for mask in (1, (1 << rows_n) - 1, 5 & ((1 << rows_n) - 1)):
                        yield [shape, rows_n, mask, tuple(range(w)), False, None, True]
        for w in (1, 2, 3):
            for at in (0, 2):
                yield ["flat", 4, 15, tuple(range(w)), False, at, True]
        yield ["long", 40000, "all", (0, 1), False, None, True]  # results larger than a pipe

    return [
        Space("schedules", sched, run, "4 frame shapes x 1..5 rows x predicate outcomes x 1..4 workers x every completion order"),
        Space("schedules+squash", squash, run, "same with squash, result compared with the sequential run"),
        Space("faults", faults, run, "predicate raises on each row, every completion order of 1..3 workers"),
        Space("real-processes", real, run_real, "same cases under the real multiprocess module (validates the scheduler model)"),
    ]
