exec(open("/verif/tools/seedspecs/a.py").read())
SEEDS = []
R = "hatchet/readers/"
RT = "hatchet/external/roundtrip/roundtrip/manager.py"
seed("c25-first-use", "C25",
     [(RT, "                    if var in update_flags.keys():\n                        break\n", "                    break\n")],
     '''
from IPython.core.interactiveshell import InteractiveShell
from hatchet.external.roundtrip.roundtrip import manager
shell = InteractiveShell()
rt = manager.RoundTrip(shell, test=True)
out = []
manager.display = lambda obj=None, *a, **k: out.append(getattr(obj, "data", ""))
rt.watched["v"] = {"converter": str, "js_var": ["jv"]}
for cell in ("v = 1", "print(v)\\nv = 2", "if v:\\n    v += 3"):
    del out[:]
    shell.user_ns["v"] = 1
    shell.user_ns["_ih"].append(cell)
    rt.manage_jupter_change()
    assert len(out) == 1 and "jv" in out[0], (cell, out)
''', "a cell that reads a bound variable on one line and assigns it on a later one",
     "changes of a bound variable do not reach the visualization")
seed("c25-webpack-cache", "C25",
     [(RT, '            self.relative_html_caches[file] = {"html": output_html}\n', '            self.relative_html_caches.setdefault(file, {"html": output_html})\n')],
     '''
import os, tempfile
from IPython.core.interactiveshell import InteractiveShell
from hatchet.external.roundtrip.roundtrip import manager
from types import SimpleNamespace
manager.display = lambda *a, **k: SimpleNamespace(display_id="d%d" % id(a), update=lambda *a: None)
rt = manager.RoundTrip(InteractiveShell(), test=True)
with tempfile.TemporaryDirectory() as d:
    js, page = os.path.join(d, "x.js"), os.path.join(d, "p.html")
    open(page, "w").write("<html><head><script src='%s'></script></head><body></body></html>" % js)
    def load(text, cache):
        open(js, "w").write(text)
        rt.load_webpack(page, cache=cache)
        return rt.bridges[rt.last_id].html
    assert "first()" in load("first()", True)
    assert "first()" in load("second()", True)
    assert "third()" in load("third()", False)
    assert "third()" in load("fourth()", True)
''', "a page loaded with the cache, then without, then with the cache again",
     "the page loaded last without the cache is forgotten: an older version is shown")
seed("c17-all-ranks", "C17",
     [("hatchet/external/console.py", '            metric_series = (dataframe.xs(self.rank, level=1))[self.primary_metric]\n',
       '            metric_series = dataframe[self.primary_metric]\n')],
     '''
gf = GraphFrame.from_lists(["a", "b", "c"])
df = pd.concat([gf.dataframe.assign(rank=r) for r in (0, 1)])
df["time"] = [4.0, 10.0, 1.0, 50.0, 80.0, 900.0]
gf.dataframe = df.set_index("rank", append=True)
import sys
sys.stdout.isatty = lambda: True
out = gf.tree(rank=0)
assert "Min: 1.00" in out and "Max: 10.00" in out, out
''', "more than one rank with different ranges of the metric", "colors and legend of one rank's tree are scaled by all ranks")
