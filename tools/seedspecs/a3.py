exec(open("/verif/tools/seedspecs/a.py").read())
SEEDS = []
seed("c02-inc-name-suffix", "C02",
     [(GF, """                if exc.endswith("(exc)"):
                    new_inc_metrics.append(exc[: -len("(exc)")].strip())
""", """                if exc.endswith("(exc)"):
                    new_inc_metrics.append(exc.rstrip("(exc)").strip())
""")],
     '''
gf = GraphFrame.from_lists(["a", "b", "c"])
gf.dataframe["max(exc)"] = 1.0
gf.dataframe["max"] = 0.0
gf.exc_metrics = ["max(exc)"]; gf.inc_metrics = ["max"]
gf.update_inclusive_columns()
assert sorted(gf.inc_metrics) == ["max"], gf.inc_metrics
assert gf.dataframe["max"].max() == 3.0, gf.dataframe
''', "an exclusive metric named <base>(exc) whose base ends in one of the characters of the suffix",
     "inclusive metric written to a column with a mangled name")
seed("c03-join-first", "C03",
     [(GF, """                filter_error = None
                for pid in range(num_procs):
                    rows, error = queue.get()
                    if error is not None:
                        filter_error = error
                    else:
                        returned_rows.extend(rows)

                for proc in processes:
                    proc.join()
""", """                for proc in processes:
                    proc.join()

                filter_error = None
                for pid in range(num_procs):
                    rows, error = queue.get()
                    if error is not None:
                        filter_error = error
                    else:
                        returned_rows.extend(rows)
""")],
     '''
import signal
gf = GraphFrame.from_lists(["a", "b"])
n = 60000
nodes = list(gf.graph.traverse())
df = pd.DataFrame({"node": [nodes[i % 2] for i in range(n)], "rank": [i // 2 for i in range(n)], "time": 1.0, "name": "x"})
gf.dataframe = df.set_index(["node", "rank"])
signal.alarm(60)
out = gf.filter(lambda r: r["rank"] % 3 != 1, squash=False, num_procs=2)
assert len(out.dataframe) == 40000
''', "results that do not fit into the pipe of the queue", "the parent joins the workers before draining the queue: deadlock")
seed("c05-copy-shares-df", "C05",
     [(GF, "            self.dataframe.copy(deep=False),\n", "            self.dataframe,\n")],
     '''
a = GraphFrame.from_lists(["a", "b", "c"])
b = GraphFrame.from_lists(["a", "b", "d"])
ids = [id(n) for n in a.dataframe.index]
c = a + b
assert ids == [id(n) for n in a.dataframe.index]
assert list(a.dataframe.columns) == list(b.dataframe.columns), a.dataframe
''', "looking at an operand after an arithmetic operation on graphframes with different graphs", "a + b rewrites the rows of its operands")
