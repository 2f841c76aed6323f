MC = "bounded exhaustive exploration of the real code, every execution compared with an executable reference model"
TRUST = "Trusted: the reference model in mc/ref.py and the check module, pandas, and that behaviour beyond the bounds follows the same shapes. "
NOTES = "All checks import hatchet from /repo's working tree and build its .pyx files from there. Known findings and fixes: known_findings.txt."
NOT_APPLICABLE = []

prop("C01", "Filter and squash rewire the graph to exactly the surviving nodes",
     "After filtering with squash (or calling squash on a filtered graphframe), the new graph contains exactly the nodes that kept at least one dataframe row, each connected to its nearest surviving descendants along every original path, with the topmost survivors as roots. Only nodes with equal frames under the same parent (or as roots) are merged, transitively; every surviving dataframe row is accounted for exactly once: metrics of merged rows are summed (all-missing stays missing), other columns keep a value of the merged rows, and rows come in the order of the new graph's traversal. Default metric and metadata are kept. The graphframe it was called on is not changed.",
     ["inputs"], "every graph (tree or DAG, several roots, equal frames anywhere), every set of surviving rows, every index kind, every relative address order of node objects",
     "Existing tests squash a dozen hand-made graphs; the result depends on the joint shape of graph, frames and surviving set, and on object addresses.",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/node.py"],
     [("rewire in squash", "graphframe.py:squash"), ("duplicate-context merge", "graph.py:find_merges/merge_nodes/normalize"), ("groupby-sum of merged rows", "graphframe.py:squash")],
     TRUST + "Complete for all DAGs with <=4 nodes over 2 frames x all surviving sets x 2 address orders, all 5-node trees, and multi-index frames.",
     MC, ["GraphFrame.squash", "GraphFrame.filter"])

prop("C02", "Inclusive columns are sums over distinct reachable nodes, and invertible",
     "Summing a column over subgraphs gives every row the sum of that column over its node and all distinct descendants (missing values ignored, all-missing stays missing) for the same rank/thread, for any index, in place or into new columns; updating inclusive columns does this for each exclusive metric into its paired inclusive column and is idempotent. Generating exclusive columns yields inclusive minus the children's inclusive for exactly the selected metrics, so that on trees updating the inclusive columns restores the originals. No other column, row, metric-list entry or graph node changes.",
     ["inputs"], "every tree or DAG, every missing-value pattern, every index kind with absent rows, every metric naming style",
     "Tests check a few fixed trees with a single index; double counting depends on the DAG shape and traversal order, and multi-index frames on which rows are absent.",
     ["hatchet/graphframe.py"],
     [("subtree_sum / subgraph_sum", "graphframe.py"), ("update_inclusive_columns pairing", "graphframe.py"), ("generate_exclusive_columns", "graphframe.py")],
     TRUST + "Complete for all DAGs/forests <=4 nodes x all missing patterns, and <=3 nodes x multi-indexes x every single absent row; values are distinct powers of two so sums decode exactly.",
     MC, ["GraphFrame.subtree_sum", "GraphFrame.subgraph_sum", "GraphFrame.update_inclusive_columns", "GraphFrame.generate_exclusive_columns"])

prop("C03", "Predicate filters ignore worker count, scheduling and object layout",
     "Filtering by a row predicate keeps exactly the rows for which the predicate is true, with their nodes, values, row order, metric lists and metadata, for every number of processes and every order in which worker processes finish. An exception raised by the predicate reaches the caller, an empty result raises EmptyFilter, the call always ends with all workers joined, and the graphframe it was called on is not changed.",
     ["schedules", "inputs", "fault_sequences"], "every worker completion order for 1..5 workers, every set of kept rows, every row on which the predicate raises",
     "The tests run the default number of processes once under whatever schedule the machine gives; races, lost queue items and empty worker chunks need particular counts and orders.",
     ["hatchet/graphframe.py"],
     [("parallel_apply workers and result queue", "graphframe.py:filter")],
     TRUST + "A worker is atomic up to its queue operations; the scheduler replaces multiprocess and a second space runs the same cases with real processes.",
     "controlled scheduler enumerating all worker completion orders of the real filter code, plus conformance runs with real processes",
     ["GraphFrame.filter"])

prop("C04", "Union of two graphs holds every call path of either, each once",
     "The union of two graphs contains exactly the root-to-node call paths (frame sequences) of either operand, with no two siblings or roots of equal frame, and the node map sends every operand node to the union node of its own context. Unifying two graphframes gives both the same graph, moves every dataframe row to the node for its context, and adds absent rows of the right operand to the left with missing metric values and _missing_node telling the side.",
     ["inputs"], "every ordered pair of trees or DAGs up to the bound, with shared or different structure, every relative address order of nodes",
     "Tests union a few fixed graphs; DAG unions go wrong only for particular combinations of joins in the two operands.",
     ["hatchet/graph.py", "hatchet/graphframe.py", "hatchet/cython_modules/graphframe_modules.pyx"],
     [("Graph.union merge", "graph.py:union"), ("row insertion", "graphframe.py:_insert_missing_rows"), ("membership search", "graphframe_modules.pyx:fast_not_isin")],
     TRUST + "Complete for all ordered pairs of DAGs with <=3 nodes and pairs of 4-node rooted graphs over 2-3 frames.",
     MC, ["Graph.union", "GraphFrame.unify"])

prop("C05", "Graphframe arithmetic is element-wise over matching call paths",
     "a+b, a-b, a*b, a/b (operators, named methods and in-place forms) give the union graph; each row whose context is in both operands holds the operation applied to its metrics, rows only in a keep a's values, rows only in b have missing metrics, and _missing_node says which side lacks the node. The operators and methods change neither operand, in-place forms return the left operand updated and leave the right one unchanged; this also holds for operands sharing one graph, for multi-index dataframes and for sequences of operations.",
     ["inputs", "histories"], "every ordered pair of small graphs x operation x calling form, every operation sequence up to the bound",
     "Tests check a few fixed operands with single indexes and never look at the operands afterwards.",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/node.py"],
     [("_operator", "graphframe.py"), ("unify and _insert_missing_rows", "graphframe.py"), ("in-place forms", "graphframe.py:__iadd__...")],
     TRUST + "Not judged: 0/0 and other non-number results, and operands with different metric columns.",
     MC, ["GraphFrame.add/sub/mul/div", "operators + - * / and += -= *= /="])

prop("C08", "A call-path query selects exactly the nodes on matching paths",
     "Applying a query returns exactly the set of nodes that lie on at least one downward path whose consecutive nodes match the query pattern, where '.' or an integer n matches exactly 1 or n nodes, '*' zero or more and '+' one or more, each satisfying that element's predicate; paths may start and end anywhere. This holds on trees and DAGs, for patterns of any mix of elements (consecutive, leading and trailing wildcards included), with each node returned once and nothing carried over from earlier queries. Filtering by a query keeps exactly the rows of those nodes, raises EmptyFilter if there are none, and leaves the graphframe unchanged.",
     ["inputs", "histories"], "every small graph with every labelling x every pattern of up to 4 elements; every short sequence of queries through one engine",
     "The tests apply some twenty hand-written patterns to three graphs; backtracking errors show only for particular interplays of wildcard predicates with repeated names.",
     ["hatchet/query/engine.py", "hatchet/query/query.py", "hatchet/graphframe.py"],
     [("pattern matcher", "engine.py:_match_pattern/_match_0_or_more/_match_1"), ("memo table", "engine.py:search_cache"), ("quantifier expansion", "query.py:_add_node")],
     TRUST + "Oracle: Python's re.fullmatch on the label string of every downward path. Complete for <=3-node DAGs, 4-node rooted graphs, chains <=5/6.",
     MC, ["QueryEngine.apply", "GraphFrame.filter"])

prop("C09", "Object-dialect filters test exactly the stated attribute conditions",
     "A filter dictionary matches a node exactly when every condition on every attribute holds: a number means equality, a string starting with a comparison operator that comparison (with inf, -inf and nan behaving as in IEEE arithmetic, except that nan == np.nan), any other string a full regular-expression match of a string attribute, and a list all of its members; depth, node_id and depth -1 (leaf) refer to the node, and an absent attribute never matches. On multi-index data each condition must hold for any or for all rows of the node as selected by the mode. Ill-typed filters raise InvalidQueryFilter and a missing mode raises MultiIndexModeMismatch.",
     ["inputs"], "every operator x constant x attribute value incl. infinities and NaN, all short condition lists and dictionaries, every 1-/2-row combination of values in any/all mode",
     "Tests use a few positive finite values and single conditions.",
     ["hatchet/query/object_dialect.py", "hatchet/query/engine.py"],
     [("filter_series / filter_dframe", "object_dialect.py:_process_predicate"), ("row lookup", "engine.py:_cache_node")],
     TRUST + "Not judged: other comparisons with np.nan, and regular expressions with a top-level alternation.",
     MC, ["ObjectQuery", "QueryEngine.apply"])

prop("C10", "String-dialect queries mean what MATCH and WHERE say",
     "A string-dialect query selects the nodes on paths matching its MATCH pattern (quantifiers as in the other dialects, a bare name meaning one node), where a named element must satisfy its own WHERE conditions, combined in order of appearance with NOT before AND before OR, and unnamed or unconditioned elements match any node; WHERE is optional. Each condition form (comparisons, = STARTS WITH, ENDS WITH, CONTAINS, =~, IS [NOT] NAN/INF/NONE/LEAF, depth and node_id) tests what it names, for any or all rows of a multi-index node according to the mode. Syntax errors raise InvalidQueryPath and type mismatches InvalidQueryFilter.",
     ["inputs"], "every condition form x constant x negation, all pairs and triples of conditions x AND/OR/NOT, conditions of two nodes interleaved, patterns in every spelling",
     "Tests contain about one query per condition form; errors lie in combinations (untyped before typed conditions, NOT with multi-index aggregation, elements without conditions).",
     ["hatchet/query/string_dialect.py", "hatchet/query/engine.py"],
     [("grammar", "string_dialect.py:CYPHER_GRAMMAR"), ("condition code generation", "string_dialect.py:_build_lambdas"), ("condition forms", "string_dialect.py:_parse_*")],
     TRUST + "Literals with quotes, backslashes or braces are not judged.",
     MC, ["StringQuery", "parse_string_dialect", "QueryEngine.apply"])

prop("C11", "Compound queries are set algebra over their parts",
     "Conjunction, disjunction, exclusive disjunction and negation of queries select the intersection, union, symmetric difference and complement (within the graph) of the node sets their parts select, for any nesting and any number of parts, whether written with &, |, ^, ~, the compound classes, combine_via_*/negate_query, or the legacy And/Or/Xor/Not classes and aliases, over parts in any dialect. Curly-brace regions of the string dialect (whole queries or groups of conditions) combine the same way from left to right and keep the multi-index mode, and text around them that means nothing is rejected; wrong numbers of parts raise BadNumberNaryQueryArgs.",
     ["inputs"], "every expression over six base queries up to the depth bound in every spelling; every sequence of up to three brace regions and operators",
     "Tests apply each operator to one or two pairs of queries on one graph.",
     ["hatchet/query/compound.py", "hatchet/query/compat.py", "hatchet/query/__init__.py", "hatchet/query/string_dialect.py"],
     [("set operations", "compound.py:_apply_op_to_results"), ("legacy conversion", "compat.py:_get_new_query"), ("brace regions", "string_dialect.py:parse_string_dialect")],
     TRUST, MC, ["QueryEngine.apply", "GraphFrame.filter", "AbstractQuery.apply"])

prop("C12", "The call-tree viewer shows and selects every node exactly once",
     "In the interactive call-tree viewer (%cct), after any sequence of collapsing, expanding, composing, range pruning, metric changes and mass pruning, every node is displayed exactly once, linked to its nearest displayed ancestor, or hidden behind exactly one surrogate there, or composed away. Initially and after pruning exactly the nodes whose value is non-zero (and in the inclusive range), their ancestors and the roots are displayed; double-clicking hides exactly that subtree, or shows exactly what the surrogate hid. A surrogate's values are the means over its hidden subtrees of their sums (inclusive metrics: their roots' values); tree names, value ranges, histogram, slider limits, colors, legends (unified or per tree, default or inverted) and the table of selected nodes agree with the displayed nodes. The fetched query, run by hatchet, selects exactly the displayed nodes and one hidden root per surrogate. Every action notifies the views, and marks the hierarchy as changed when it is. (Domain: trees without shared nodes, non-negative values; roots are not composed.)",
     ["histories", "inputs"], "every sequence of actions up to the depth bound on every small forest with every pattern of zero values, and every pruning range; for the shipped bundle and the source modules",
     "The viewer has no tests; state left behind by an earlier action (collapsed, composed, pruned) only shows after particular sequences.",
     ["hatchet/vis/scripts/cct/cct_model.js", "hatchet/vis/scripts/cct/cct_repr.js", "hatchet/vis/scripts/cct/cct_controller.js", "hatchet/vis/static/cct_bundle.js"],
     [("actions", "cct_model.js, cct_controller.js"), ("pruning and surrogates", "cct_repr.js"), ("query generation", "cct_model.js")],
     TRUST + " The viewer's model and controller run in node without a browser; drawing is not judged.", MC,
     ["Model.forest", "Model.data.tipText", "fetched query (jsNodeSelected)"])

prop("C14", "Traversals, numbering, depths and paths follow the graph's structure",
     "Pre-order (parents first) and post-order (children first) traversal, from the roots or from an inner node, visit every reachable node exactly once, siblings and roots in the order of their frames whatever their insertion order or addresses (equal frames: list order; with node_ordering: the given order); the visited dictionary counts the ways each node was reached. enumerate_traverse numbers nodes 0..n-1 in pre-order, which is also how nodes sort, and sets each node's depth to the length of one of its root paths; paths() lists every root path once and path() the only one, raising MultiplePathError if there are several. from_lists builds exactly the described graph (shared Node objects included) with exclusive time 1 per node, and raises ValueError for arguments that describe none; frames are totally ordered, hashed and compared by their attributes, however these were given, and keep them whatever happens to the dictionary they came from.",
     ["inputs"], "every DAG up to the bound with every labelling, insertion order and address order; every nested list shape and pair of frames up to the bound",
     "Tests traverse a few hand-made graphs whose creation order equals the sorted order.",
     ["hatchet/node.py", "hatchet/graph.py", "hatchet/frame.py"],
     [("traverse", "node.py:traverse, graph.py:traverse"), ("numbering", "graph.py:enumerate_traverse/enumerate_depth"), ("paths", "node.py:path/paths"), ("frame order", "frame.py")],
     TRUST, MC, ["Graph.traverse", "Graph.node_order_traverse", "Node.path", "Node.paths", "Graph.from_lists", "Frame"])

prop("C15", "Graph equality is frame-preserving isomorphism and copies are independent",
     "Two graphs (or nodes, with dag_equal) compare equal exactly if there is a one-to-one map between their nodes that preserves roots, edges and frames, regardless of insertion order, object addresses and whether ids were assigned. Graph.copy and GraphFrame.copy/deepcopy yield equal objects with the same metric lists, default metric, metadata and rows; a deepcopy shares no node, dataframe or list with the original, so that no later operation on one is visible in the other.",
     ["inputs", "histories"], "every ordered pair of labelled DAGs up to the bound in several layouts; every mutation after a copy",
     "Tests compare a handful of graphs that differ in an obvious way (length or names), not in which node is shared.",
     ["hatchet/graph.py", "hatchet/node.py", "hatchet/graphframe.py"],
     [("dag_equal", "node.py:dag_equal/check_dag_equal"), ("Graph.copy", "graph.py:copy"), ("copy/deepcopy", "graphframe.py")],
     TRUST, MC, ["Graph.__eq__", "Node.dag_equal", "Graph.copy", "GraphFrame.copy", "GraphFrame.deepcopy"])

prop("C06", "Operations change nothing but what they are documented to change",
     "After any sequence of operations (filter, squash, copy, deepcopy, arithmetic and its in-place forms, unify, inclusive/exclusive column updates, drop_index_levels, rendering, serialization), every graphframe other than the documented target of an in-place operation is exactly as before: graph, node ids, rows, values, columns, metric lists, default metric and metadata. Operations that return a graphframe return one whose dataframe, metric lists and metadata are not shared with any other, so that writing into it is not visible elsewhere (copy() shares values by documentation); the same holds for exported dictionaries, lists and literals, and for what a graphframe was built from. An operation that raises leaves the operands it does not update in place unchanged.",
     ["histories"], "every sequence of up to 2 operations out of 27 on five pools of graphframes (trees, DAGs, merging siblings, multi-index, shared graph), up to 3 (thorough 4) of a core set",
     "Tests call one operation and look at its result only; aliasing shows in another object, often only after a second operation.",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/node.py"],
     [("construction of results", "graphframe.py:filter/squash/copy/deepcopy"), ("operands of arithmetic", "graphframe.py:_operator/unify")],
     TRUST, "explicit enumeration of all operation sequences on the real code, with identity-level snapshots of every graphframe around each step",
     ["GraphFrame methods", "operators"])

prop("C07", "Every reachable graphframe is well formed and has no hidden state",
     "After any sequence of operations, each graphframe is well formed: parent and child lists are mutual and without duplicates, no parent lies outside the graph, no two nodes have the same call paths, node ids follow the traversal and depths the paths, every dataframe row belongs to a node of its graph exactly once, and metric lists and default metric name existing columns without duplicates. The effect of any further operation depends only on this visible content: it equals the effect on graphframes rebuilt from scratch with the same nodes, rows, columns and lists, whatever operations produced them and whether they share a graph.",
     ["histories"], "every sequence of up to 2 operations out of 27 on five pools of graphframes, up to 3 (thorough 4) of a core set",
     "Tests start from freshly read data; stale ids, depths, parents or index objects left by one operation only mislead a later one.",
     ["hatchet/graphframe.py", "hatchet/graph.py", "hatchet/node.py", "hatchet/readers/json_reader.py"],
     [("numbering after rewiring", "graphframe.py:squash, graph.py:union/enumerate_traverse"), ("metric list upkeep", "graphframe.py:update_inclusive_columns/generate_exclusive_columns"), ("shared graphs", "graphframe.py:unify")],
     TRUST + "The rebuilding step (mc/ops.py observe/rebuild) is trusted; columns are compared as a set.",
     "explicit enumeration of all operation sequences on the real code; differential check of each transition against freshly rebuilt operands",
     ["GraphFrame methods", "operators"])

prop("C13", "Saved graphframes read back unchanged",
     "Writing a graphframe (with a row for every node) as a literal, JSON or HDF5 and reading it back, in any sequence of formats, restores the same graph (shared nodes once, all parents and roots, node ids, frames), the same rows and the same metric lists; JSON and HDF5 also keep all columns and multi-indexes, HDF5 the default metric, while a literal holds names and metrics (inclusive: named with \"(inc)\") of one rank/thread with missing and infinite values as 0. from_literal builds exactly the described graph for any literal: nodes repeated by id are one node with all its parents, ids and depths are consistent, every root's metrics count, and neither the literal nor the written graphframe is modified.",
     ["inputs", "histories"], "every DAG up to the bound with equal frames x value patterns x index kinds x every sequence of up to 3 formats; every literal spelling and id assignment",
     "Tests read one tree back and compare lengths; shared nodes, equal frames, several roots and multi-indexes are what goes wrong.",
     ["hatchet/graphframe.py", "hatchet/readers/literal_reader.py", "hatchet/readers/json_reader.py", "hatchet/readers/dataframe_reader.py", "hatchet/writers/dataframe_writer.py"],
     [("to_literal / to_dict", "graphframe.py"), ("node lookup by id", "literal_reader.py, json_reader.py"), ("graph reconstruction", "dataframe_reader.py:_reconstruct_graph")],
     TRUST + "Not judged: metadata, which no format keeps.", MC,
     ["GraphFrame.to_literal/from_literal", "GraphFrame.to_json/from_json", "GraphFrame.to_hdf/from_hdf"])

prop("C16", "groupby_aggregate builds the quotient, drop_index_levels aggregates by node",
     "groupby_aggregate by one or several columns (or a function of the node) yields one new node per distinct key, named after it; an edge between two of them exactly if some grouped nodes of different classes are connected; as roots the classes of the roots; and exactly one row per new node holding the aggregates of its class, leaving the original untouched. drop_index_levels leaves exactly one row per node, indexed by node alone, where each metric is aggregated over all rows of that node by the given function (default: mean) and every other column keeps the node's first value; graph and metric lists stay the same. (Domain: one row per node for grouping, all metrics aggregated, an acyclic quotient in which classes with a root have no parent.)",
     ["inputs"], "every DAG up to 5 nodes with every partition into classes, every pair of partitions as two keys, key orders and kinds; every row-presence pattern over ranks and threads",
     "Tests group three fixed graphs and only check that the names exist; edges, roots and aggregated values are never compared.",
     ["hatchet/graphframe.py"],
     [("quotient", "graphframe.py:groupby_aggregate"), ("aggregation", "graphframe.py:drop_index_levels")],
     TRUST, MC, ["GraphFrame.groupby_aggregate", "GraphFrame.drop_index_levels"])

prop("C17", "tree, dot and flamegraph output show exactly the selected data",
     "tree() prints one line per path in id order (nodes reached again without their subtree, nothing at or below the given depth), with the metric values of the chosen rank and thread at the given precision, the chosen name and annotation, marks for nodes present in only one operand, and, when colored, the color of the decile bucket of the value between minimum and maximum; unknown metrics raise KeyError, unknown colormaps and former parameter names ValueError. to_dot contains exactly the nodes and edges reachable through nodes whose value reaches the threshold, with any name written as a valid label, and to_flamegraph one line per node with the names on its call path and its rounded value. None of them changes the graphframe.",
     ["inputs"], "every DAG up to 4 (some 5) nodes with name, index, value and option combinations; every pair of forests up to 3 nodes for difference marks",
     "Tests check for the presence of a few substrings in one or two rendered graphs.",
     ["hatchet/external/console.py", "hatchet/util/dot.py", "hatchet/util/colormaps.py", "hatchet/graphframe.py"],
     [("ConsoleRenderer", "external/console.py"), ("trees_to_dot", "util/dot.py"), ("to_flamegraph", "graphframe.py"), ("_missing_node", "graphframe.py:_insert_missing_rows")],
     TRUST, MC, ["GraphFrame.tree", "GraphFrame.to_dot", "GraphFrame.to_flamegraph"])

prop("C18", "The HPCToolkit reader reproduces the experiment tree and its metrics",
     "Reading an HPCToolkit database gives one node per procedure frame, loop and statement of the call path profile (call sites and other wrappers are transparent), with its procedure, file, line and module attributes resolved through the tables, the parent given by the nesting of the XML, all top-level frames as roots; one row per node and rank (and thread, if there are several) with every metric value of that rank/thread's metric-db file, inclusive and exclusive metrics paired by name. Frames without any sample are kept, and the result does not depend on the number of ranks, threads or worker processes.",
     ["inputs"], "every experiment tree up to 4 elements of 6 kinds with file and module choices, every zero-sample pattern, seven rank/thread layouts incl. GPU streams, metric orders",
     "Tests read one fixed database with 8 ranks and count names; positions in the binary files, omitted frames and file attribution are never compared.",
     ["hatchet/readers/hpctoolkit_reader.py", "hatchet/cython_modules/reader_modules.pyx"],
     [("XML walk", "hpctoolkit_reader.py:parse_xml_node/parse_xml_children"), ("metric-db", "hpctoolkit_reader.py:read_metricdb_file"), ("subtract exclusive", "reader_modules.pyx:subtract_exclusive_metric_vals")],
     TRUST + "metric-db files are read in the checking process except in one space.", MC, ["GraphFrame.from_hpctoolkit"])

prop("C19", "The Caliper readers reproduce contexts, rows and metrics of the profile",
     "Reading a Caliper JSON profile gives exactly one node per context of the path column (missing intermediate contexts included, parents as given, parentless contexts as roots) and one row per node and rank with that record's metrics, strings resolved through the node table; contexts without a record have 0 metrics, and profiles with source locations get one statement child per line. Metric names are normalized and classified as inclusive or exclusive, the default metric is the time, metadata are the remaining globals, node order follows the profile's Node order column, and nothing depends on the order of records.",
     ["inputs"], "every forest of up to 4 contexts x which (context, rank) records are present x record orders x column sets (ranks, order, modules, second hierarchy, source lines), file and stream",
     "Tests read four large fixed profiles and compare counts and a few names; missing records, several ranks per context and record orders do not occur there.",
     ["hatchet/readers/caliper_reader.py", "hatchet/graph.py"],
     [("node table", "caliper_reader.py:create_graph"), ("missing rows", "caliper_reader.py:read"), ("source lines", "caliper_reader.py:read")],
     TRUST, MC, ["GraphFrame.from_caliper"])

prop("C20", "The TAU reader reproduces the call paths and values of the profile files",
     "Reading a directory of TAU profiles gives exactly one node per call path that occurs in any file (missing intermediate paths included), below one root, with the name, file, module and lines that the path's last element states; one row per node, rank and thread of the profile, holding the inclusive and exclusive value that rank's and thread's file has for each metric directory, and 0 where the file has no line. Index levels exist only for what varies, all ranks and threads of a node carry the same file and line, the default metric is an existing column, and neither the order of lines nor that of files matters.",
     ["inputs"], "every rooted call tree up to 4 contexts x which (context, rank, thread) have a line x line orders x 12 line formats x metric directories x 6 rank/thread layouts",
     "Tests read two fixed profile sets; lines that only some ranks have, several threads and other line orders do not occur.",
     ["hatchet/readers/tau_reader.py"],
     [("callpath lines", "tau_reader.py:create_graph"), ("missing ranks", "tau_reader.py:read"), ("default metric", "tau_reader.py:read")],
     TRUST, MC, ["GraphFrame.from_tau"])

prop("C21", "The native Caliper reader reproduces records; time series split them by step",
     "Reading a Caliper profile through its record interface gives exactly one node per region path (and kernel, memcpy or source context below it), in node order if the profile states one, one row per node and rank with the sum of that context's records for each metric, rows for contexts without a record, and metric names and classes derived from the attributes' aliases and types. from_timeseries returns one graphframe per requested step, each holding exactly the records of that step plus the nodes common to all, with its own metadata and metrics that are columns of its dataframe; the order of records does not matter.",
     ["inputs", "histories"], "every forest of up to 4 contexts x recorded (context, rank) pairs x record orders x column sets; kernels and memcpy; node orders; every assignment of contexts to up to 4 time steps",
     "Tests read a handful of fixed .cali files; records of several ranks, missing records, orders and time steps are not varied.",
     ["hatchet/readers/caliper_native_reader.py", "hatchet/graphframe.py"],
     [("records to rows", "caliper_native_reader.py:read_metrics"), ("graph", "caliper_native_reader.py:create_graph"), ("time series", "caliper_native_reader.py:read_timeseries")],
     TRUST + "The .cali text format is parsed by the caliperreader package, which is replaced by an object with the same interface.", MC,
     ["GraphFrame.from_caliperreader", "GraphFrame.from_timeseries"])

prop("C22", "The cProfile, gprof2dot, pyinstrument, SpotDB, timemory readers keep everything",
     "Each of these readers returns a well-formed graphframe whose nodes and edges are exactly the functions (regions, frames) and calls of the input, including recursive and mutually recursive functions and functions of equal name in different files, every node reachable from a root; one row per node (and rank and thread where present) with the input's values, exclusive and inclusive metrics classified as such and an existing default metric. The timemory options per_thread and per_rank only mark each node with an id that has it. Inputs that were passed as objects are not changed, and the order of entries in the input does not change the result.",
     ["inputs"], "every call graph up to 3 functions (cycles included) and DAG of 4; every tree up to 4 frames with repeated names; every forest up to 3 or 4 regions x which are recorded by which rank and thread; entry orders, name coincidences, input kinds",
     "Tests read one fixed file per format and count nodes; recursion, name clashes, absent records and several ranks are not covered.",
     ["hatchet/readers/cprofile_reader.py", "hatchet/readers/gprof_dot_reader.py", "hatchet/readers/pyinstrument_reader.py", "hatchet/readers/spotdb_reader.py", "hatchet/readers/timemory_reader.py", "hatchet/graph.py"],
     [("call graph roots", "graph.py:find_roots"), ("function identity", "cprofile_reader.py:_get_src/_add_node_metadata"), ("regions", "spotdb_reader.py:create_graph"), ("ranks", "timemory_reader.py:create_graph")],
     TRUST + "pydot parses dot files; the spotdb package is absent and replaced by an object with its interface.", MC,
     ["GraphFrame.from_cprofile", "GraphFrame.from_gprof_dot", "GraphFrame.from_pyinstrument", "GraphFrame.from_spotdb", "GraphFrame.from_timemory"])

prop("C23", "An operation that fails leaves the graphframes it was given intact",
     "If a function supplied by the user (row predicate, query predicate, aggregation, grouping) raises at any of its calls, the same exception reaches the caller and every graphframe, including those that share a graph with the operand, is as it was; only the output columns of the in-place sum operations may have been written. The same holds for operations that reject unusable arguments (unknown columns, wrong types or lengths, empty filters, malformed queries) and for arithmetic on graphframes whose columns do not fit. Process-wide settings are unchanged, and the same or any other operation performed afterwards gives the result it would have given without the failure.",
     ["fault_sequences", "inputs"], "every call index of every user callback x 11 exception types x 14 operations x 7 graphframes, each followed by a retry and 5 other operations; every failing row x 1-3 workers; 50 unusable arguments; 9 binary operations x 49 graph pairs x 4 column mismatches",
     "Tests assert at most that one bad argument raises; no test looks at the operand or continues after a failure.",
     ["hatchet/graphframe.py", "hatchet/query/engine.py", "hatchet/external/console.py"],
     [("filter", "graphframe.py:filter"), ("search cache", "query/engine.py:apply"), ("sums", "graphframe.py:_init_sum_columns"), ("index", "graphframe.py:squash/drop_index_levels")],
     TRUST, MC + " (exhaustive fault injection)", ["GraphFrame.filter", "GraphFrame.subgraph_sum", "GraphFrame.groupby_aggregate", "GraphFrame.drop_index_levels"])

prop("C24", "Timer and Profiler account for every phase and call in any order of use",
     "After any sequence of start_phase, end_phase and phase blocks (left normally or by an exception), Timer reports for each phase the total time during which it was the active one, in order of first completion; start_phase ends the active phase and returns its duration, end_phase without an active phase fails. After any sequence of start, stop, reset, write_to_file and str, Profiler's statistics count exactly the calls made while it was running since the last reset; writing never overwrites an existing file and does not stop a running profiler, stop writes one file, and starting or resetting a running profiler is refused.",
     ["histories", "schedules"], "every sequence of up to 5 (6) operations over two phases with a clock the checker controls; every sequence of up to 5 (6) of 9 profiler operations, 8 (9) of five of them",
     "Tests call each of these methods once in the intended order.",
     ["hatchet/util/timer.py", "hatchet/util/profiler.py"],
     [("Timer", "util/timer.py"), ("Profiler", "util/profiler.py")],
     "Python, pandas and cProfile are trusted; the clock is replaced by one that advances under the checker's control.", MC, ["Timer", "Profiler"])

prop("C25", "Notebook bindings carry data unchanged and re-run exactly the bound cells",
     "Data passed to a visualization's JavaScript variable (a notebook variable, a literal, a graphframe through %cct) arrives there as exactly the text its converter produced, and data fetched back arrives in the notebook as what the converter makes of the JavaScript value. While a variable is bound with '?', every cell that assigns it, and every change made in a bound visualization, updates the notebook variable and all JavaScript variables bound to it, and runs again exactly the other cells bound to that variable; cells that do not assign it and visualizations without '?' cause nothing to run. A visualization draws in its own cell and sees current data; its files are loaded in order, from the cache only when asked for.",
     ["histories", "inputs", "schedules"], "every sequence of up to 3 (4) notebook operations in 3 notebooks with immediate and deferred callbacks; every string of up to 2 (3) of 17 characters over every route; every cell of up to 2 (3) of 48 statements; every sequence of loads and edits of pages",
     "Tests compare fragments of the generated JavaScript and never execute it; bindings depend on the history of cells and clicks.",
     ["hatchet/external/roundtrip/roundtrip/manager.py", "hatchet/external/roundtrip/roundtrip/roundtrip.js", "hatchet/vis/loader.py"],
     [("bindings", "manager.py:var_to_js/pass_to_js"), ("updates from cells", "manager.py:manage_jupter_change"), ("updates from views", "roundtrip.js:RT_Handler.set"), ("fetching", "manager.py:retrieve_from_js"), ("tree view", "vis/loader.py:CCT")],
     TRUST + "IPython runs the cells and node runs roundtrip.js; the notebook front end is a stand-in with the classic notebook's interface. Texts that JavaScript sends are judged up to the escaping that its code does itself.", MC,
     ["RoundTrip.var_to_js", "RoundTrip.fetch_data", "RoundTrip.load_webpack", "window.Roundtrip"])
