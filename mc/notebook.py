"""A notebook: a real IPython shell, real Roundtrip object, real roundtrip.js (in node) and a front end that runs cells."""
import contextlib
import io
import json
import os
import shutil
import subprocess
import tempfile

from . import env

env.bind()

_state = {}


class Broken(Exception):
    """The notebook machinery reported an error (JavaScript or Python) that the model does not have."""


class Driver:
    def __init__(self):
        node = shutil.which("node") or shutil.which("node", path="/usr/bin:/usr/local/bin:/bin")
        self.p = subprocess.Popen([node, os.path.join(os.path.dirname(__file__), "notebook.js")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, encoding="utf-8", errors="surrogatepass")

    def __call__(self, **cmd):
        self.p.stdin.write(json.dumps(cmd) + "\n")
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        if "driver" in r:
            raise RuntimeError(r["driver"])
        return r


def _setup():
    """The shell and the front end of this process (one each)."""
    if _state.get("pid") == os.getpid():
        return _state
    _state.clear()
    d = tempfile.mkdtemp(prefix="hxnb-")
    import atexit
    from multiprocessing import util

    util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=1)
    atexit.register(shutil.rmtree, d, True)
    os.environ["IPYTHONDIR"] = d
    from IPython.core.displaypub import DisplayPublisher
    from IPython.core.interactiveshell import InteractiveShell
    from traitlets.config import Config

    cfg = Config()
    cfg.HistoryManager.enabled = False
    shell = InteractiveShell.instance(config=cfg)

    class Pub(DisplayPublisher):
        def publish(self, data, metadata=None, **kw):
            _state["out"].append(dict(data))

    shell.display_pub = Pub(parent=shell)
    with contextlib.redirect_stdout(io.StringIO()):
        from hatchet.external.roundtrip.roundtrip import manager
    _state.update(pid=os.getpid(), dir=d, shell=shell, manager=manager, js=Driver(), out=[], old=None)
    return _state


def _callback(f):
    """IPython <= 7 (the versions Roundtrip supports) passes a callback the arguments its signature accepts."""
    import inspect

    takes = len([p for p in inspect.signature(f).parameters.values()
                 if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])

    def call(result):
        return f(*(result,)[:takes])

    call.roundtrip = True
    return call


class Notebook:
    def __init__(self, cells, order="async", magics=None):
        s = self.s = _setup()
        self.shell, self.js = s["shell"], s["js"]
        ev = self.shell.events
        for f in list(ev.callbacks["post_run_cell"]):
            if getattr(f, "roundtrip", False):
                ev.unregister("post_run_cell", f)
        for k in [k for k in self.shell.user_ns if len(k) == 1]:
            del self.shell.user_ns[k]
        s["out"].clear()
        self.rt = s["manager"].RoundTrip(ipy_shell=self.shell)
        ev.register("post_run_cell", _callback(self.rt.manage_jupter_change))
        self.cells = list(cells)
        self.log = []  # cells executed since the last look
        self.seen = []
        self.html = []
        self.queue, self.latest, self.serial = [], {}, 0
        first = [["js", o["application/javascript"]] for o in s["out"] if "application/javascript" in o]
        s["out"].clear()
        self._take(self.js(reset=True, cells=len(self.cells), order=order, run=first))

    # -------------------------------------------------------------- kernel
    def _kernel(self, code, silent):
        out = self.s["out"]
        out.clear()
        text = io.StringIO()
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
            r = self.shell.run_cell(code, silent=silent, store_history=not silent)
        err = r.error_before_exec or r.error_in_exec
        self.text = text.getvalue()
        js = []
        for o in out:
            if "application/javascript" in o:
                js.append(["js", o["application/javascript"]])
            elif "text/html" in o:
                js.append(["html", o["text/html"]])
                self.html.append(o["text/html"])
        out.clear()
        return js, err

    def _take(self, r):
        if r["errs"]:
            raise Broken("JavaScript error: %s" % r["errs"])
        self.seen += r["seen"]
        for kind, arg in r["acts"]:
            if kind == "kernel":
                self.queue.append((kind, arg, None))
                continue
            for i in arg:
                # executing a cell again makes the front end ignore the outputs of its earlier, unfinished execution
                self.latest[i] = self.serial = self.serial + 1
                self.queue.append(("cell", i, self.serial))
        return r

    def _drain(self):
        n = 0
        while True:
            while self.queue:
                kind, arg, serial = self.queue.pop(0)
                n += 1
                if n > 200:
                    raise Broken("the notebook never comes to rest")
                code = arg if kind == "kernel" else self.cells[arg]
                js, err = self._kernel(code, kind == "kernel")
                if err:
                    raise Broken("error in %s %r: %r" % (kind, code, err))
                if kind == "kernel":
                    self._take(self.js(run=js))
                else:
                    self.log.append(arg)
                    if serial == self.latest[arg]:
                        self._take(self.js(cell=arg, run=js, done=arg))
            r = self._take(self.js())
            if not self.queue and not r["busy"]:
                return
            n += 1
            if n > 200:
                raise Broken("the notebook never comes to rest")

    # -------------------------------------------------------------- user
    def run(self, i, source=None, may_fail=False):
        """The user clicks into cell i and runs it."""
        if source is not None:
            self.cells[i] = source
        js, err = self._kernel(self.cells[i], False)
        if err and not may_fail:
            raise Broken("error in cell %d (%r): %r" % (i, self.cells[i], err))
        if "Error in callback" in self.text or ("Traceback" in self.text and not err):
            raise Broken("error while cell %d ran (%r): %s" % (i, self.cells[i], self.text[-1500:]))
        self._take(self.js(click=i, selected=i + 1, start=i, cell=i, run=js))
        self._take(self.js(done=i))
        self._drain()

    def gui(self, i, var, value):
        """The user interacts with the visualization in cell i, whose code then sets a Roundtrip variable."""
        self._take(self.js(click=i, set=[var, value]))
        self._drain()

    def data(self, *names):
        return self._take(self.js(get=list(names)))["out"]

    def parsed(self, name):
        return json.loads(self._take(self.js(parse=name))["parsed"])

    def ns(self):
        return self.shell.user_ns

    def ran(self):
        r, self.log = self.log, []
        return sorted(set(r))
