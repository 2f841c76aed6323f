exec(open("/verif/tools/seedspecs/a.py").read())
SEEDS = []
R = "hatchet/readers/"
seed("c15-node-copy-frame", "C15",
     [(N, "        return Node(frame_obj=self.frame.copy())\n", "        return Node(frame_obj=self.frame)\n")],
     '''
gf = GraphFrame.from_lists(["a", "b"])
c = gf.deepcopy()
for n in c.graph.traverse():
    n.frame.attrs["name"] = n.frame.attrs["name"] + "X"
    n.frame.attrs["line"] = 3
assert [n.frame["name"] for n in gf.graph.traverse()] == ["a", "b"]
assert all("line" not in n.frame.attrs for n in gf.graph.traverse())
''', "changing a frame of a copied graph", "a copied graph shares its frames with the original")
seed("c06-imul-other", "C06",
     [(GF, """        # create a copy of other's graphframe
        other_copy = other.copy()

        # unify self graphframe and other graphframe
        self.unify(other_copy)

        return self._operator(other_copy, self.dataframe.mul)
""", """        # unify self graphframe and other graphframe
        self.unify(other)

        return self._operator(other, self.dataframe.mul)
""")],
     '''
a = GraphFrame.from_lists(["a", "b", "c"]); b = GraphFrame.from_lists(["a", "b", "d"])
g, ids = b.graph, [id(n) for n in b.dataframe.index]
a *= b
assert b.graph is g and [id(n) for n in b.dataframe.index] == ids and "_missing_node" not in b.dataframe.columns
''', "an in-place product of graphframes with different graphs, then use of the right operand",
     "a *= b rewrites b")
seed("c06-deepcopy-meta", "C06",
     [(GF, "            copy.deepcopy(self.metadata),\n        )\n\n    def drop_index", "            dict(self.metadata),\n        )\n\n    def drop_index")],
     '''
gf = GraphFrame.from_lists(["a", "b"]); gf.metadata = {"run": {"ranks": [1]}}
c = gf.deepcopy(); c.metadata["run"]["ranks"].append(2)
assert gf.metadata == {"run": {"ranks": [1]}}
''', "metadata with nested containers, changed in a deep copy", "deep copies share nested metadata")
seed("c14-order-post", "C14",
     [(N, """            for item in child.node_order_traverse(
                order=order, attrs=attrs, visited=visited
            ):
""", """            for item in child.node_order_traverse(attrs=attrs, visited=visited):
""")],
     '''
gf = GraphFrame.from_lists(["a", ["b", ["c", "d"]]])
gf.graph.node_ordering = True
gf.graph.enumerate_traverse()
assert [n.frame["name"] for n in gf.graph.node_order_traverse(order="post")] == ["d", "c", "b", "a"]
''', "post-order traversal of a node-ordered graph of depth two or more", "descendants are visited in pre-order")
seed("c13-hdf-last-row", "C13",
     [(R + "dataframe_reader.py", """        if node not in rel_dict:
            rel_dict[node] = {}
            rel_dict[node]["parents"] = df.iloc[i].loc["parents"]
            rel_dict[node]["children"] = df.iloc[i].loc["children"]
""", """        relatives = df.iloc[i].loc["parents"], df.iloc[i].loc["children"]
        if len(rel_dict) <= node._hatchet_nid:
            rel_dict[node] = {"parents": relatives[0], "children": relatives[1]}
""")],
     '''
import os, tempfile, warnings
warnings.simplefilter("ignore")
gf = GraphFrame.from_lists(["a", ["b", "c"], "d"])
gf.dataframe = gf.dataframe.iloc[[3, 1, 0, 2]]
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.hdf")
    gf.to_hdf(f)
    back = GraphFrame.from_hdf(f)
assert back.graph == gf.graph
''', "a dataframe whose rows are not in traversal order", "the relations of nodes are lost when a checkpoint is read")
seed("c16-first", "C16",
     [(GF, """                agg_dict[col] = function
            else:
                agg_dict[col] = lambda x: x.iloc[0]

        # perform a groupby to merge nodes that just differ in index columns
""", """                agg_dict[col] = function
            else:
                agg_dict[col] = "first"

        # perform a groupby to merge nodes that just differ in index columns
""")],
     '''
gf = GraphFrame.from_lists(["a", "b"])
a, b = gf.graph.traverse()
df = pd.DataFrame({"node": [a, a, b, b], "rank": [0, 1, 0, 1], "name": ["a", "a", "b", "b"], "time": 1.0, "line": [None, "7", "3", "4"]})
gf.dataframe = df.set_index(["node", "rank"]); gf.exc_metrics = ["time"]; gf.inc_metrics = []
gf.drop_index_levels()
assert gf.dataframe["line"].tolist() == [None, "3"], gf.dataframe
''', "a missing value in the first row of a node", "non-metric values come from different rows of the node")
seed("c17-decile", "C17",
     [("hatchet/external/console.py", "        elif proportion_of_total > 0.7:\n", "        elif proportion_of_total >= 0.7:\n")],
     '''
gf = GraphFrame.from_lists(["a", "b", "c"])
def colour(v):
    gf.dataframe["time"] = [10.0, v, 0.0]
    line = [l for l in gf.tree().splitlines() if "%.3f" % v in l and "-" not in l and "[" in l][0]
    return line.split("%.3f" % v)[0].split("\\x1b[")[-1]
assert colour(7.0) == colour(6.0) != colour(8.0), (colour(7.0), colour(6.0), colour(8.0))
''', "a metric exactly on a class limit of the legend", "the colour contradicts the legend")
seed("c18-gpu-threads", "C18",
     [(R + "hpctoolkit_reader.py", "        self.total_execution_threads = self.num_threads_per_rank * self.num_ranks\n",
       "        self.total_execution_threads = self.num_cpu_threads_per_rank * self.num_ranks\n")],
     '''
import os, struct, tempfile
X = """<?xml version="1.0"?>
<HPCToolkitExperiment version="2.0"><Header n="t"><Info/></Header><SecCallPathProfile i="0" n="t"><SecHeader>
<MetricDBTable><MetricDB i="0" n="CPUTIME (usec) (E)"/><MetricDB i="1" n="CPUTIME (usec) (I)"/></MetricDBTable>
<LoadModuleTable><LoadModule i="5" n="/bin/app"/></LoadModuleTable><FileTable><File i="7" n="/a.c"/></FileTable>
<ProcedureTable><Procedure i="20" n="main"/></ProcedureTable></SecHeader><SecCallPathProfileData>
<PF i="1" s="1" l="3" lm="5" f="7" n="20"><S i="2" s="2" l="4"></S></PF>
</SecCallPathProfileData></SecCallPathProfile></HPCToolkitExperiment>"""
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "experiment.xml"), "w").write(X)
    for r in range(2):
        for t in (0, 500):
            with open(os.path.join(d, "1.app-x-%06d-%03d-a8c0-%d-0.metric-db" % (r, t, 90 - r)), "wb") as f:
                f.write(b"HPCPROF-metricdb__" + b"00.10" + b"b" + struct.pack(">ii", 2, 2) + struct.pack(">dddd", 10, 10, 4, 4))
    gf = GraphFrame.from_hpctoolkit(d)
main = [n for n in gf.graph.traverse() if n.frame.get("name") == "main"][0]
assert (gf.dataframe.loc[main, "time"] == 6.0).all(), gf.dataframe
''', "a database with GPU threads or CPU threads besides them", "statement times stay in their procedure for some threads")
seed("c19-sum-max", "C19",
     [(R + "caliper_reader.py", "                        agg_dict[col] = np.sum\n", "                        agg_dict[col] = np.sum if 'time' in col else np.max\n")],
     '''
import io, json
p = "source.function#callpath.address"
d = {"data": [[5, 1.0, 0, 2], [6, 2.0, 0, 3], [7, 4.0, 1, 3]], "columns": ["count", "sum#time.duration", p, "path"],
     "column_metadata": [{"is_value": True}, {"is_value": True}, {"is_value": False}, {"is_value": False}],
     "nodes": [{"column": p, "label": "a"}, {"column": p, "label": "b", "parent": 0}, {"column": "path", "label": "p"}, {"column": "path", "label": "q"}]}
gf = GraphFrame.from_caliper(io.BytesIO(json.dumps(d).encode()))
assert dict(zip(gf.dataframe["name"], gf.dataframe["count"])) == {"a": 11, "b": 7}, gf.dataframe
''', "a profile with both hierarchies, a second metric and a node with several entries", "metrics other than time are not aggregated by sum")
seed("c20-so-version", "C20",
     [(R + "tau_reader.py", '                        if ".so" in file:\n', '                        if file.endswith(".so"):\n')],
     '''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "profile.0.0.0"), "w") as f:
        f.write("""2 templated_functions_MULTI_TIME
# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name</name><value>TIME</value></attribute></metadata>
".TAU application" 1 1 5 9 0 GROUP="X"
".TAU application  => [UNWIND] /l/libc.so.6 [@] h [{/l/libc.so.6} {0}]" 1 0 4 4 0 GROUP="X"
""")
    gf = GraphFrame.from_tau(d)
r = gf.dataframe[gf.dataframe["name"] == "[UNWIND] h"].iloc[0]
assert r["file"] is None and r["module"] == "/l/libc.so.6", r
''', "a versioned shared library", "the library is reported as source file")
seed("c21-missing-ranks", "C21",
     [(R + "caliper_native_reader.py", "                        missing_ranks = [x for x in rank_list if x not in present_ranks]\n", "                        missing_ranks = rank_list[len(present_ranks) :]\n")],
     '''
class A:
    def __init__(s, n): s.n = n
    def is_value(s): return s.n != "region"
    def attribute_type(s): return {"sum#time.duration": "double", "region": "string"}.get(s.n, "int")
    def get(s, n): return None
class Rd:
    globals = {}
    def __init__(s, r): s.records = r
    def attribute(s, n): return A(n)
r = [{"path": ["main"], "sum#time.duration": "%d.0" % i, "mpi.rank": str(i), "region": "main"} for i in range(2)]
r.append({"path": ["main", "it"], "sum#time.duration": "5.0", "region": "it", "mpi.rank": "1"})
gf = GraphFrame.from_caliperreader(Rd(r))
it = [n for n in gf.graph.traverse() if n.frame["name"] == "it"][0]
assert sorted(gf.dataframe.loc[it].index) == [0, 1], gf.dataframe
assert gf.dataframe.loc[(it, 1), "time"] == 5.0, gf.dataframe
''', "a context recorded only by ranks that are not the first ones", "a rank gets two rows and another one none")
seed("c07-merge-parents", "C07",
     [(G, """            for child in new.children:
                child.parents = transform(child.parents)
        self.roots""", """            for child in new.children:
                child.parents = transform(child.parents) if new in child.parents else child.parents + [new]
        self.roots""")],
     '''
gf = GraphFrame.from_lists(["a", ["u", ["b", "c"]], ["v", ["b", "d"]]])
out = gf.filter(lambda row: row["name"] in ("a", "b", "c", "d"), num_procs=1)
alive = set(id(n) for n in out.graph.traverse())
for n in out.graph.traverse():
    assert all(id(p) in alive for p in n.parents), (n, n.parents)
''', "a merge of nodes with different children", "children of merged nodes keep parents that are not in the graph any more")
seed("c24-add-lost", "C24",
     [("hatchet/util/profiler.py", """                self.write_to_file(
                    "{}_{}.pstats".format(self._output, now), add_pstats_files
                )
""", """                self.write_to_file("{}_{}.pstats".format(self._output, now))
""")],
     '''
import os, pstats, tempfile
from hatchet.util.profiler import Profiler
def f(): pass
def g(): pass
here = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    p = Profiler(); p.start(); f(); p.stop()
    os.rename("hatchet-profile.pstats", "first.pstats")
    q = Profiler(); q.start(); g(); q.stop()
    q.write_to_file(add_pstats_files=["first.pstats"])
    new = [x for x in os.listdir(".") if x not in ("first.pstats", "hatchet-profile.pstats")]
    names = set(k[2] for k in pstats.Stats(new[0]).stats)
    os.chdir(here)
assert {"f", "g"} <= names, names
''', "adding profiles to a profile written under the default name when that file exists", "the added profiles are dropped")
seed("c23-filter-inplace", "C23",
     [(GF, """                filtered_rows = dataframe_copy.apply(filter_obj, axis=1)
                filtered_df = dataframe_copy[filtered_rows]
""", """                self.dataframe.reset_index(inplace=True)
                filtered_rows = self.dataframe.apply(filter_obj, axis=1)
                self.dataframe.set_index(index_names, inplace=True)
                filtered_df = dataframe_copy[filtered_rows]
""")],
     '''
gf = GraphFrame.from_lists(["a", "b"])
def bad(row):
    if row["name"] == "b":
        raise ValueError("x")
    return True
try:
    gf.filter(bad, num_procs=1)
except ValueError:
    pass
assert gf.dataframe.index.names == ["node"], gf.dataframe
''', "a predicate that raises", "a failed filter leaves the graphframe without its index")
seed("c05-unsorted-other", "C05",
     [(GF, "        other_hsh_ndx_sorted = other_hsh_ndx[other_hsh_ndx[:, 0].argsort()]\n", "        other_hsh_ndx_sorted = other_hsh_ndx\n")],
     '''
a = GraphFrame.from_lists(["a", "b", "c", "d"]); b = GraphFrame.from_lists(["a", "b", "c"])
b.dataframe = b.dataframe.iloc[::-1]
c = a - b
m = {n.frame["name"]: v for n, v in c.dataframe["_missing_node"].items()}
assert m == {"a": 0, "b": 0, "c": 0, "d": 1}, m
''', "a right operand whose rows are not in the order of its nodes", "common nodes are treated as missing")
