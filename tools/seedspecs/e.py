exec(open("/verif/tools/seedspecs/a.py").read())
SEEDS = []
F = "hatchet/frame.py"
seed("c04-frame-empty", "C04",
     [(F, "tuple(sorted((k, v) for k, v in self.attrs.items()))", "tuple(sorted((k, v) for k, v in self.attrs.items() if v))")],
     '''
a = Graph([Node(Frame(name="f", type="statement", line=0))])
b = Graph([Node(Frame(name="f", type="statement"))])
a.enumerate_traverse(); b.enumerate_traverse()
m = {}
u = a.union(b, m)
assert len(u) == 2 and m[id(a.roots[0])] is not m[id(b.roots[0])], [n.frame.attrs for n in u.traverse()]
''', "frames of the two graphs that differ only in an attribute whose value is 0 or empty",
     "the union merges nodes with different frames")
seed("c22-self-recursion", "C22",
     [("hatchet/readers/cprofile_reader.py", "            srcs = self._get_src(dst_stats)\n", "            srcs = {k: v for k, v in self._get_src(dst_stats).items() if k != dst_module_data}\n")],
     '''
import marshal, os, tempfile
f, g = ("x.py", 1, "f"), ("x.py", 5, "g")
stats = {f: (1, 1, .5, 1.5, {}), g: (4, 1, 1., 1., {f: (1, 1, .5, 1.), g: (3, 0, .5, .5)})}
with tempfile.TemporaryDirectory() as d:
    open(d + "/p", "wb").write(marshal.dumps(stats))
    gf = GraphFrame.from_cprofile(d + "/p")
e = sorted((n.frame["name"], c.frame["name"]) for n in gf.graph.traverse() for c in n.children)
assert e == [("f", "g"), ("g", "g")], e
''', "a profiled function that calls itself", "the edge of a recursive call is lost")
