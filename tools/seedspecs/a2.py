exec(open("/verif/tools/seedspecs/a.py").read())
E = "hatchet/query/engine.py"; O = "hatchet/query/object_dialect.py"; S = "hatchet/query/string_dialect.py"; C = "hatchet/query/compound.py"
SEEDS = [s for s in SEEDS if s["id"] == "c01-rewire-shared"]

seed("c01-allmissing-merge", "C01",
     [(GF, "                agg_dict[col] = lambda x: x.sum(min_count=1)\n", "                agg_dict[col] = \"sum\"\n")],
     '''
gf = GraphFrame.from_lists(["a", ["x", "b"], ["y", "b"], "c"])
gf.dataframe.loc[gf.dataframe["name"] == "b", "time"] = np.nan
out = gf.filter(lambda r: r["name"] in ("a", "b", "c"), num_procs=1)
b = [n for n in out.graph.traverse() if n.frame["name"] == "b"]
assert len(b) == 1 and np.isnan(out.dataframe.loc[b[0], "time"]), out.dataframe
''', "rows that are merged (or survive) with no value for a metric", "an all-missing metric becomes 0 after squash")

seed("c02-inc-name-suffix", "C02",
     [(GF, """                if exc.endswith("(exc)"):
                    new_inc_metrics.append(exc[: -len("(exc)")].strip())
""", """                if exc.endswith("(exc)"):
                    new_inc_metrics.append(exc.rstrip("(exc)").strip())
""")],
     '''
gf = GraphFrame.from_lists(["a", "b", "c"])
gf.dataframe["cache (exc)"] = 1.0
gf.dataframe["max (exc)"] = 1.0
gf.dataframe["max"] = 0.0
gf.exc_metrics = ["max (exc)"]; gf.inc_metrics = ["max"]
gf.update_inclusive_columns()
assert sorted(gf.inc_metrics) == ["max"], gf.inc_metrics
assert gf.dataframe["max"].max() == 3.0, gf.dataframe
''', "an exclusive metric whose base name ends in one of the characters of its suffix without a separating space handled by strip",
     "inclusive metric written to a column with a mangled name")

seed("c03-chunks", "C03",
     [(GF, "                subframes = np.array_split(dataframe_copy, num_procs)\n",
       """                size = max(1, int(round(len(dataframe_copy) / float(num_procs))))
                subframes = [
                    dataframe_copy.iloc[i * size : (i + 1) * size]
                    for i in range(num_procs)
                ]
""")],
     '''
gf = GraphFrame.from_lists(["a"] + list("bcdefghijk"))
seq = gf.filter(lambda r: True, squash=False, num_procs=1)
for p in (2, 3, 4, 5, 6, 7):
    par = gf.filter(lambda r: True, squash=False, num_procs=p)
    assert len(par.dataframe) == len(seq.dataframe), (p, len(par.dataframe), len(seq.dataframe))
''', "a row count that is not close to a multiple of the process count", "the last rows of the dataframe are dropped by the parallel filter")

seed("c05-isub-other", "C05",
     [(GF, """        # unify self graphframe and other graphframe
        self.unify(other_copy)

        return self._operator(other_copy, self.dataframe.sub)
""", """        # unify self graphframe and other graphframe
        if len(self.graph) == len(other.graph):
            # same size: nothing to insert, so that other can be used as it is
            other_copy = other
        self.unify(other_copy)

        return self._operator(other_copy, self.dataframe.sub)
""")],
     '''
a = GraphFrame.from_lists(["a", "b", "c"])
b = GraphFrame.from_lists(["a", "b", "d"])
before = [n.frame["name"] for n in b.graph.traverse()]
a -= b
after = [n.frame["name"] for n in b.graph.traverse()]
assert before == after, (before, after)
''', "operands whose graphs have the same number of nodes", "the right operand of -= gets the union graph")

seed("c08-stale-cache", "C08",
     [(E, """            self.reset_cache()
            matches = []
""", """            if getattr(self, "_last_query", None) is not query or len(
                self.search_cache
            ) != len(graph):
                self.reset_cache()
            self._last_query = query
            matches = []
""")],
     '''
from hatchet.query import ObjectQuery
gf = GraphFrame.from_lists(["a", "b", "c"])
q = ObjectQuery([("*", {"time": "> 2"})])
gf.dataframe["time"] = [5.0, 1.0, 1.0]
assert {n.frame["name"] for n in gf.query_engine.apply(q, gf.graph, gf.dataframe)} == {"a"}
gf.dataframe["time"] = [5.0, 5.0, 1.0]
got = {n.frame["name"] for n in gf.query_engine.apply(q, gf.graph, gf.dataframe)}
assert got == {"a", "b"}, got
''', "the same query object applied twice, with the data changed in between", "results of the earlier application are reused")

seed("c08-int-quantifier", "C08",
     [(E, """                    if s is None:
                        sub_match.append(s)
                    else:
                        sub_match.extend(s)
                elif wcard == "*":
""", """                    if s is None:
                        sub_match.append(s)
                    elif pattern_idx + 1 < len(query) and len(s) > 2:
                        sub_match.extend(s[:-1])
                        sub_match.extend(x for x in s[-1:] if x[-1].children)
                    else:
                        sub_match.extend(s)
                elif wcard == "*":
""")],
     '''
gf = GraphFrame.from_lists(["a", "b", "c", "d"])
m = gf.query_engine.apply(__import__("hatchet").query.ObjectQuery([".", ".", "*"]), gf.graph, gf.dataframe)
assert sorted(n.frame["name"] for n in m) == ["a", "b", "c", "d"], m
''', "three matching siblings followed by a wildcard that matches nothing", "the last sibling is dropped from the match when it has no children")

seed("c09-multiindex-list", "C09",
     [(O, """                for single_value in v:
                    matches = matches and filter_single_dframe(
                        node, df_row, k, single_value
                    )
""", """                matches = matches and any(
                    filter_single_dframe(node, df_row, k, single_value)
                    for single_value in v
                )
""")],
     '''
from hatchet.query import ObjectQuery
gf = GraphFrame.from_lists(["a", "b", "c"])
df = pd.concat([gf.dataframe.assign(rank=r) for r in (0, 1)]).reset_index().set_index(["node", "rank"]).sort_index()
df["time"] = [1.0, 1.0, 5.0, 5.0, 9.0, 9.0]
q = ObjectQuery([("*", {"time": ["> 2", "< 8"]})], "all")
got = sorted(n.frame["name"] for n in gf.query_engine.apply(q, gf.graph, df))
assert got == ["b"], got
''', "a multi-index graphframe and a list of several filters for one attribute", "the filters of a list are or-ed instead of and-ed")

seed("c10-not-binds", "C10",
     [(S, """        converted_subcond = self._parse_single_cond(obj.subcond)
        converted_subcond[2] = "not {}".format(converted_subcond[2])
        return converted_subcond
""", """        converted_subcond = self._parse_single_cond(obj.subcond)
        if obj.subcond.name in self.wcard_pos and self.filters[self.wcard_pos[obj.subcond.name]]:
            converted_subcond[2] = "not ({})".format(converted_subcond[2])
        else:
            converted_subcond[0] = "not"
        return converted_subcond
""")],
     '''
gf = GraphFrame.from_lists(["a", ["b", "d"], "c"])
q = """MATCH ("*", p) WHERE p."name" STARTS WITH "a" OR p."name" STARTS WITH "b" AND NOT p."name" STARTS WITH "b" """
got = sorted(n.frame["name"] for n in gf.filter(q, squash=False).graph.roots)
q2 = """MATCH (".", p)->(".", q) WHERE p."name" STARTS WITH "a" AND NOT q."name" STARTS WITH "b" """
f = gf.filter(q2, squash=False)
assert sorted(f.dataframe["name"]) == ["a", "c"], f.dataframe
''', "NOT as the first condition of a query node when conditions for other nodes precede it with AND/OR", "the negation is lost")

seed("c10-gte-multi", "C10",
     [(S, """                'df_row["{}"].apply(lambda elem: elem >= {})'.format(obj.prop, obj.val)
""", """                'df_row["{}"].apply(lambda elem: not elem < {})'.format(obj.prop, obj.val)
""")],
     '''
gf = GraphFrame.from_lists(["a", "b", "c"])
df = pd.concat([gf.dataframe.assign(rank=r) for r in (0, 1)]).reset_index().set_index(["node", "rank"]).sort_index()
df["time"] = [1.0, np.nan, 5.0, 5.0, 9.0, 9.0]
from hatchet.query import parse_string_dialect
q = parse_string_dialect("""MATCH (".", p) WHERE p."time" >= 4""", "any")
got = sorted(n.frame["name"] for n in gf.query_engine.apply(q, gf.graph, df))
assert got == ["b", "c"], got
''', "a multi-index graphframe with a missing metric value", ">= is satisfied by missing values in multi-index queries")

seed("c11-xor3", "C11",
     [(C, """        xor_set = set()
        for res in subquery_results:
            xor_set = xor_set.symmetric_difference(set(res))
        return list(xor_set)
""", """        union_set = set().union(*subquery_results)
        intersection_set = set(subquery_results[0]).intersection(*subquery_results[1:])
        return list(union_set - intersection_set)
""")],
     '''
from hatchet.query import ObjectQuery, ExclusiveDisjunctionQuery
gf = GraphFrame.from_lists(["a", "b", "c"])
q = lambda *n: ObjectQuery([{"name": "|".join(n)}])
got = sorted(n.frame["name"] for n in gf.query_engine.apply(
    ExclusiveDisjunctionQuery(q("a", "b"), q("b", "c"), q("a", "c")), gf.graph, gf.dataframe))
assert got == [], got
''', "an exclusive disjunction of three or more queries", "nodes matched by two of three subqueries are returned")
