From f21e9e6e34cd25e5bea5a8ee11c7b7efb61f998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 01/91] fix: merge all transitively duplicate nodes in
 Graph.find_merges

When a node had duplicates under two different parents, the two groups of
merges were only partially joined, and a node could be mapped to another one
which was itself merged away. The result of squash() then had dataframe rows
for nodes that are not in the graph.
---
 hatchet/graph.py | 69 ++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..67126c7 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -90,48 +90,37 @@ class Graph:
 
         """
         merges = {}  # old_node -> merged_node
-        inverted_merges = defaultdict(
-            lambda: []
-        )  # merged_node -> list of corresponding old_nodes
-        processed = []
+        merged_into = {}  # merged_node -> list of corresponding old_nodes
 
         def _find_child_merges(node_list):
-            index = index_by("frame", node_list)
-            for frame, children in index.items():
-                if len(children) > 1:
-                    min_id = min(children, key=id)
-                    for child in children:
-                        prev_min = merges.get(child, min_id)
-                        # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=id)
-                        # Save the new merged_node to the merges dict
-                        # so that the merge can happen later.
-                        merges[child] = curr_min
-                        # Update inverted_merges to be able to set node_list
-                        # to the right value.
-                        inverted_merges[curr_min].append(child)
-
-        _find_child_merges(self.roots)
-        for node in self.traverse():
-            if node in processed:
-                continue
-            nodes = None
-            # If node is going to be merged with other nodes,
-            # collect the set of those nodes' children. This is
-            # done to ensure that equivalent children of merged nodes
-            # also get merged.
-            if node in merges:
-                new_node = merges[node]
-                nodes = []
-                for node_to_merge in inverted_merges[new_node]:
-                    nodes.extend(node_to_merge.children)
-                processed.extend(inverted_merges[new_node])
-            # If node is not going to be merged, simply get the list of
-            # node's children.
-            else:
-                nodes = node.children
-                processed.append(node)
-            _find_child_merges(nodes)
+            """Merge nodes of the list with equal frames, and everything
+            already merged with them. Returns True if this adds a merge."""
+            found = False
+            for children in index_by("frame", node_list).values():
+                targets = set(merges.get(child, child) for child in children)
+                if len(targets) > 1:
+                    nodes = []
+                    for target in targets:
+                        nodes.extend(merged_into.pop(target, [target]))
+                    new_node = min(nodes, key=id)
+                    merged_into[new_node] = nodes
+                    for node in nodes:
+                        merges[node] = new_node
+                    found = True
+            return found
+
+        # Merging nodes brings their children together, which may require
+        # more merges anywhere in the graph. Repeat until nothing changes.
+        changed = True
+        while changed:
+            changed = _find_child_merges(self.roots)
+            for node in self.traverse():
+                target = merges.get(node, node)
+                children = []
+                for merged_node in merged_into.get(target, [target]):
+                    children.extend(merged_node.children)
+                if _find_child_merges(children):
+                    changed = True
 
         return merges
 
-- 
2.43.0


From 82a3e86da7c5b76d22759ae637f45e6965a242ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 02/91] fix: sum subtrees and subgraphs of (node, rank, thread)
 dataframes

pandas cannot set the value of one label in a three-level index with a tuple,
so squash() and update_inclusive_columns() raised an AttributeError.
---
 hatchet/graphframe.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..db10d59 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -712,8 +712,10 @@ class GraphFrame:
                             df_index1 = (node, rank_thread)
                             df_index2 = ([node] + node.children, rank_thread)
 
+                        # df_index1 is in a list because pandas cannot set
+                        # a single label in an index with three levels.
                         for col in out_columns:
-                            self.dataframe.loc[df_index1, col] = function(
+                            self.dataframe.loc[[df_index1], col] = function(
                                 self.dataframe.loc[df_index2, col]
                             )
                 else:
@@ -774,8 +776,10 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
+                    # df_index1 is in a list because pandas cannot set
+                    # a single label in an index with three levels.
                     for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
+                        self.dataframe.loc[[df_index1], col] = [
                             function(self.dataframe.loc[df_index2, col])
                         ]
             else:
-- 
2.43.0


From 8f66397637f25297bfad25b9d092b0d9c45ce52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 03/91] fix: subtree_sum: do not lose rows below a node missing
 a rank or thread

When a node has no row for some rank (or thread), the values of its
descendants for that rank did not reach its ancestors.
---
 hatchet/graphframe.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index db10d59..dd99a77 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -685,6 +685,17 @@ class GraphFrame:
         """
         out_columns = self._init_sum_columns(columns, out_columns)
 
+        def _nodes_with_row(nodes, rank_thread):
+            """Replace each node without a row for this rank and thread by
+            its closest descendants that have one."""
+            result = []
+            for node in nodes:
+                if (node,) + rank_thread in self.dataframe.index:
+                    result.append(node)
+                else:
+                    result.extend(_nodes_with_row(node.children, rank_thread))
+            return result
+
         # sum over the output columns
         for node in self.graph.traverse(order="post"):
             if node.children:
@@ -705,12 +716,12 @@ class GraphFrame:
                         # We check if rank_thread is a tuple and if it is, we
                         # create a tuple of (node, rank, thread). If not, we create
                         # a tuple of (node, rank).
-                        if isinstance(rank_thread, tuple):
-                            df_index1 = (node,) + rank_thread
-                            df_index2 = ([node] + node.children,) + rank_thread
-                        else:
-                            df_index1 = (node, rank_thread)
-                            df_index2 = ([node] + node.children, rank_thread)
+                        if not isinstance(rank_thread, tuple):
+                            rank_thread = (rank_thread,)
+                        df_index1 = (node,) + rank_thread
+                        df_index2 = (
+                            [node] + _nodes_with_row(node.children, rank_thread),
+                        ) + rank_thread
 
                         # df_index1 is in a list because pandas cannot set
                         # a single label in an index with three levels.
-- 
2.43.0


From 6458bf945ee8daa2355ca8504e25ecee0a55ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 04/91] fix: subgraph_sum: sum original values, not already
 updated ones

When summing in place, nodes visited after one of their descendants added the
already accumulated value of that descendant.
---
 hatchet/graphframe.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index dd99a77..5044b76 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -761,6 +761,11 @@ class GraphFrame:
             return
 
         out_columns = self._init_sum_columns(columns, out_columns)
+
+        # always sum the original values: a node can be reached again after
+        # its row in the output columns has been computed
+        values = self.dataframe[out_columns].copy()
+
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
@@ -791,13 +796,13 @@ class GraphFrame:
                     # a single label in an index with three levels.
                     for col in out_columns:
                         self.dataframe.loc[[df_index1], col] = [
-                            function(self.dataframe.loc[df_index2, col])
+                            function(values.loc[df_index2, col])
                         ]
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(values.loc[(subgraph_nodes), out_columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From 3cae6c20479d2e582e74765a8de481503bce0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 05/91] fix: generate_exclusive_columns: do not match parts of
 a metric name

The inc_metrics argument can be a str, in which every metric whose name is
contained in it was selected.
---
 hatchet/graphframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 5044b76..572a0c6 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -825,6 +825,8 @@ class GraphFrame:
         # TODO Change how exclusive-inclusive pairs are determined when inc_metrics and exc_metrics are changed
         # Iterate over inclusive metrics and collect tuples of (new exclusive metrics name, inclusive metric name)
         generation_pairs = []
+        if isinstance(inc_metrics, str):
+            inc_metrics = [inc_metrics]
         for inc in self.inc_metrics:
             if inc_metrics and inc not in inc_metrics:
                 continue
-- 
2.43.0


From d3bd5db7bc51e7be8de7f52dd1a6446de1549799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 06/91] fix: generate_exclusive_columns: allow children without
 a row for a rank

A KeyError was raised when a node has a row for some rank or thread, and one
of its children does not.
---
 hatchet/graphframe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 572a0c6..4afa1a1 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -871,7 +871,11 @@ class GraphFrame:
                         for child in node.children:
                             # TODO: See note about full_idx above
                             child_idx = tuple([child]) + tuple(non_node_idx)
-                            inc_sum += np.nan_to_num(self.dataframe.loc[child_idx, inc])
+                            # The child may not have a row for this rank or thread
+                            if child_idx in self.dataframe.index:
+                                inc_sum += np.nan_to_num(
+                                    self.dataframe.loc[child_idx, inc]
+                                )
                         # Subtract the current node's inclusive metric from the previously calculated sum to
                         # get the exclusive metric value for the node
                         new_data[full_idx] = self.dataframe.loc[full_idx, inc] - inc_sum
-- 
2.43.0


From 9b8a06982407d27b2d036ffb64caa18cc555b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 07/91] fix: filter: keep the nodes and the order of rows with
 several processes

The filtered dataframe was the concatenation of subframes in the order in
which the processes finished, and its nodes were unpickled copies which are
not in the graph, so e.g. unify() of the filtered graphframe failed.
---
 hatchet/graphframe.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 4afa1a1..f4a63b8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -42,10 +42,11 @@ except ImportError:
 
 def parallel_apply(filter_function, dataframe, queue):
     """A function called in parallel, which does a pandas apply on part of a
-    dataframe and returns the results via multiprocessing queue function."""
+    dataframe and returns the index of the resulting rows via multiprocessing
+    queue function."""
     filtered_rows = dataframe.apply(filter_function, axis=1)
     filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df)
+    queue.put(filtered_df.index)
 
 
 class GraphFrame:
@@ -472,7 +473,7 @@ class GraphFrame:
                 # perform filter in parallel (default)
                 queue = mp.Queue()
                 processes = []
-                returned_frames = []
+                returned_rows = []
                 subframes = np.array_split(dataframe_copy, num_procs)
 
                 # Manually create a number of processes equal to the number of
@@ -485,18 +486,17 @@ class GraphFrame:
                     process.start()
                     processes.append(process)
 
-                # Stores filtered subframes in a list: 'returned_frames', for
-                # pandas concatenation. This intermediary list is used because
-                # pandas concat is faster when called only once on a list of
-                # dataframes, than when called multiple times appending onto a
-                # frame of increasing size.
+                # Collects the index of the rows selected in each subframe. The
+                # rows are then taken from the original dataframe, because
+                # subframes are returned in any order, and the nodes in them
+                # would be copies of the nodes in the graph.
                 for pid in range(num_procs):
-                    returned_frames.append(queue.get())
+                    returned_rows.extend(queue.get())
 
                 for proc in processes:
                     proc.join()
 
-                filtered_df = pd.concat(returned_frames)
+                filtered_df = dataframe_copy[dataframe_copy.index.isin(returned_rows)]
 
             else:
                 # perform filter sequentiually if num_procs = 1
-- 
2.43.0


From f13aa3660525913fa421500e921b4e4feef901eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 08/91] fix: filter: raise errors of the filter function with
 several processes

The process calling an invalid filter function ended without returning
anything, and filter() waited for its result forever.
---
 hatchet/graphframe.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index f4a63b8..1cdaad5 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -14,6 +14,8 @@ import numpy as np
 import multiprocess as mp
 import json
 
+from multiprocess.reduction import ForkingPickler
+
 from .node import Node
 from .graph import Graph
 from .frame import Frame
@@ -42,11 +44,18 @@ except ImportError:
 
 def parallel_apply(filter_function, dataframe, queue):
     """A function called in parallel, which does a pandas apply on part of a
-    dataframe and returns the index of the resulting rows via multiprocessing
-    queue function."""
-    filtered_rows = dataframe.apply(filter_function, axis=1)
-    filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df.index)
+    dataframe and returns the index of the resulting rows, or the error raised
+    by the filter function, via multiprocessing queue function."""
+    try:
+        filtered_rows = dataframe.apply(filter_function, axis=1)
+        filtered_df = dataframe[filtered_rows]
+        queue.put((filtered_df.index, None))
+    except Exception as error:
+        try:
+            ForkingPickler.dumps(error)
+        except Exception:
+            error = RuntimeError(traceback.format_exc())
+        queue.put((None, error))
 
 
 class GraphFrame:
@@ -490,12 +499,20 @@ class GraphFrame:
                 # rows are then taken from the original dataframe, because
                 # subframes are returned in any order, and the nodes in them
                 # would be copies of the nodes in the graph.
+                filter_error = None
                 for pid in range(num_procs):
-                    returned_rows.extend(queue.get())
+                    rows, error = queue.get()
+                    if error is not None:
+                        filter_error = error
+                    else:
+                        returned_rows.extend(rows)
 
                 for proc in processes:
                     proc.join()
 
+                if filter_error is not None:
+                    raise filter_error
+
                 filtered_df = dataframe_copy[dataframe_copy.index.isin(returned_rows)]
 
             else:
-- 
2.43.0


From 7c9118e3c9d9d261bbcbb66cd30398045c09be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 09/91] fix: Graph.union: merge nodes reached on several paths
 in DAGs

If a node had already been merged when it was reached on another path, the
children of its new counterpart were added next to the existing ones instead
of being merged with them, or its edge from the second path was lost.
---
 hatchet/graph.py | 189 ++++++++++++++++-------------------------------
 1 file changed, 62 insertions(+), 127 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 67126c7..b69ecd9 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -198,133 +198,68 @@ class Graph:
         if old_to_new is None:
             old_to_new = {}  # mapping from old nodes to new nodes
 
-        def _merge(self_children, other_children, parent):
-            """Recursively merge children of self and other.
-
-            Arguments:
-                self_children (list or tuple): List of children nodes from self
-                other_children (list or tuple): List of children nodes from other
-                parent (Node): Parent node for self and other child(ren)
-
-            Modifies old_to_new (dict): Updated dict mapping old nodes from self and other to new
-                unioned nodes
-
-            Return:
-                (list): list of merged children
-            """
-
-            def make_node(*nodes):
-                """Make a new node to represent the union of other nodes."""
-                new_node = nodes[0].copy()
-                for node in nodes:
-                    old_to_new[id(node)] = new_node
-                return new_node
-
-            new_children = []
-
-            def connect(parent, new_node):
-                if parent:
-                    parent.add_child(new_node)
-                    new_node.add_parent(parent)
-                new_children.append(new_node)
-
-            # step through both lists and merge nodes
-            self_children, other_children = iter(self_children), iter(other_children)
-            self_child = next(self_children, None)
-            other_child = next(other_children, None)
-
-            while self_child and other_child:
-                if self_child.frame < other_child.frame:
-                    # self_child is unique
-                    new_node = old_to_new.get(id(self_child))
-                    if not new_node:
-                        new_node = make_node(self_child)
-                        _merge(
-                            sorted(self_child.children, key=lambda n: n.frame),
-                            (),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-
-                elif self_child.frame > other_child.frame:
-                    # other_child is unique
-                    new_node = old_to_new.get(id(other_child))
-                    if not new_node:
-                        new_node = make_node(other_child)
-                        _merge(
-                            (),
-                            sorted(other_child.children, key=lambda n: n.frame),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    other_child = next(other_children, None)
-
-                else:
-                    # self_child and other_child are equal
-                    self_mapped = old_to_new.get(id(self_child))
-                    other_mapped = old_to_new.get(id(other_child))
-                    if not self_mapped and not other_mapped:
-                        new_node = make_node(self_child, other_child)
-                    else:
-                        new_node = self_mapped or other_mapped
-
-                    # map whichever node was not mapped yet
-                    if not self_mapped:
-                        old_to_new[id(self_child)] = new_node
-                        self_side = self_child.children
-                    else:
-                        self_side = []
-
-                    if not other_mapped:
-                        old_to_new[id(other_child)] = new_node
-                        other_side = other_child.children
-                    else:
-                        other_side = []
-
-                    _merge(
-                        sorted(self_side, key=lambda n: n.frame),
-                        sorted(other_side, key=lambda n: n.frame),
-                        new_node,
-                    )
-
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-                    other_child = next(other_children, None)
-
-            # finish off whichever list of children is longer
-            while self_child:
-                new_node = old_to_new.get(id(self_child))
-                if not new_node:
-                    new_node = make_node(self_child)
-                    _merge(
-                        sorted(self_child.children, key=lambda n: n.frame),
-                        (),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                self_child = next(self_children, None)
-
-            while other_child:
-                new_node = old_to_new.get(id(other_child))
-                if not new_node:
-                    new_node = make_node(other_child)
-                    _merge(
-                        (),
-                        sorted(other_child.children, key=lambda n: n.frame),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                other_child = next(other_children, None)
-
-            return new_children
-
-        # First establish which nodes correspond to each other
-        new_roots = _merge(
-            sorted(self.roots, key=lambda n: n.frame),
-            sorted(other.roots, key=lambda n: n.frame),
-            None,
-        )
+        nodes = list(self.traverse()) + list(other.traverse())
+
+        # lists of nodes that represent the same node in the union, one list
+        # shared by all of its nodes
+        merged = {id(node): [node] for node in nodes}
+
+        def _merge(*node_lists):
+            """Merge nodes with the same frame in different lists. If a list
+            contains several nodes with the same frame, the n-th one is merged
+            with the n-th one of the other lists. Returns True if this merges
+            nodes that were not merged before."""
+            found = False
+            first = {}
+            for node_list in node_lists:
+                count = defaultdict(int)
+                for node in node_list:
+                    key = (node.frame, count[node.frame])
+                    count[node.frame] += 1
+                    group = merged[id(first.setdefault(key, node))]
+                    other_group = merged[id(node)]
+                    if group is not other_group:
+                        group.extend(other_group)
+                        for other_node in other_group:
+                            merged[id(other_node)] = group
+                        found = True
+            return found
+
+        # First establish which nodes correspond to each other. As a node can
+        # have several parents, merging the children of one pair of nodes can
+        # require merges anywhere in the graph: repeat until nothing changes.
+        changed = _merge(self.roots, other.roots)
+        while changed:
+            changed = False
+            for node in nodes:
+                group = merged[id(node)]
+                if len(group) > 1 and group[0] is node:
+                    if _merge(*[n.children for n in group]):
+                        changed = True
+
+        # Make a new node for each group of merged nodes
+        groups = [merged[id(n)] for n in nodes if merged[id(n)][0] is n]
+        for group in groups:
+            new_node = group[0].copy()
+            for node in group:
+                old_to_new[id(node)] = new_node
+
+        def _unique_new_nodes(node_list):
+            """New nodes of old nodes, sorted by frame, each of them once."""
+            new_nodes = {}
+            for node in sorted(node_list, key=lambda n: n.frame):
+                new_node = old_to_new[id(node)]
+                new_nodes[id(new_node)] = new_node
+            return list(new_nodes.values())
+
+        # Connect the new nodes like the old ones
+        for group in groups:
+            new_node = old_to_new[id(group[0])]
+            for child in _unique_new_nodes([c for n in group for c in n.children]):
+                new_node.add_child(child)
+                child.add_parent(new_node)
+
+        new_roots = _unique_new_nodes(list(self.roots) + list(other.roots))
 
         graph = Graph(new_roots)
         graph.enumerate_traverse()
-- 
2.43.0


From f9df3e2bb24afda8237c4f2c6cf5f3874056ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 10/91] fix: order nodes only among nodes, so that 3-level
 dataframes can be updated

---
 hatchet/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..6be971a 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -194,9 +194,13 @@ class Node:
         return self._hatchet_nid == other._hatchet_nid
 
     def __lt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid < other._hatchet_nid
 
     def __gt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid > other._hatchet_nid
 
     def __str__(self):
-- 
2.43.0


From cfaa6568a10dec1fb52fd3e5b5928839d80fd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 11/91] fix: make gf /= other store the result in gf, as
 documented

---
 hatchet/graphframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 1cdaad5..aeff952 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1682,6 +1682,9 @@ class GraphFrame:
 
         return self._operator(other_copy, self.dataframe.div)
 
+    # Python 3 calls this one for "/="
+    __itruediv__ = __idiv__
+
     def __truediv__(self, other):
         """Returns the column-wise float division of two graphframes as a new
         graphframe.
-- 
2.43.0


From 120131998e5da2de20a048775b81f7cf9170ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 12/91] fix: do not write results of arithmetic into the
 operands' data

---
 hatchet/graphframe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index aeff952..b0af85a 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1288,7 +1288,11 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        result = op(other.dataframe[all_metrics])
+
+        # self's dataframe may share its data with that of another graphframe
+        self.dataframe = self.dataframe.copy()
+        self.dataframe.update(result)
 
         return self
 
-- 
2.43.0


From eb71781cf732668eed9b7edc9867adf3dd468820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 13/91] fix: query engine: find all paths that match patterns
 with "*"

---
 hatchet/query/engine.py | 65 +++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..d8534df 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -3,7 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
-from itertools import groupby
+from collections import OrderedDict
 import pandas as pd
 
 from .errors import InvalidQueryFilter
@@ -100,34 +100,37 @@ class QueryEngine:
         # Cache the node if it's not already cached
         if node._hatchet_nid not in self.search_cache:
             self._cache_node(node, query, dframe)
-        # If the node matches with the next non-wildcard query node,
-        # end the recursion and return the node.
-        if wcard_idx + 1 in self.search_cache[node._hatchet_nid]:
-            return [[]]
+        matches = []
+        is_last = wcard_idx == len(query) - 1
+        # If the next query node can take over from the "*" wildcard at this
+        # node, add a match in which the wildcard ends before this node.
+        if not is_last and (
+            wcard_idx + 1 in self.search_cache[node._hatchet_nid]
+            or query.query_pattern[wcard_idx + 1][0] == "*"
+        ):
+            matches.append([])
         # If the node matches the "*" wildcard query, recursively
         # apply this function to the current node's children. Then,
         # collect their returned matches, and prepend the current node.
-        elif wcard_idx in self.search_cache[node._hatchet_nid]:
-            matches = []
+        if wcard_idx in self.search_cache[node._hatchet_nid]:
             if len(node.children) == 0:
-                if wcard_idx == len(query) - 1:
-                    return [[node]]
-                return None
+                # The path can only end here if nothing has to follow.
+                if all(wcard == "*" for wcard, _ in query.query_pattern[wcard_idx:]):
+                    matches.append([node])
             for child in sorted(node.children, key=traversal_order):
                 sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
                 if sub_match is not None:
-                    matches.extend(sub_match)
-            if len(matches) == 0:
-                return None
-            tmp = set(tuple(m) for m in matches)
-            matches = [list(t) for t in tmp]
-            return [[node] + m for m in matches]
+                    matches.extend([node] + m for m in sub_match)
+        # If the current node doesn't match the last "*" wildcard, the path
+        # ends before this node.
+        elif is_last:
+            matches.append([])
         # If the current node doesn't match the current "*" wildcard or
-        # the next non-wildcard query node, return None.
-        else:
-            if wcard_idx == len(query) - 1:
-                return [[]]
+        # the next query node, return None.
+        if len(matches) == 0:
             return None
+        tmp = set(tuple(m) for m in matches)
+        return [list(t) for t in tmp]
 
     def _match_1(self, query, dframe, node, idx):
         """Process a "." predicate in the query on a subgraph.
@@ -173,7 +176,7 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
@@ -211,9 +214,9 @@ class QueryEngine:
                 for s in sub_match:
                     if s is not None:
                         new_matches.append(m + s)
-                new_matches = [uniq_match for uniq_match, _ in groupby(new_matches)]
-            # Overwrite the old matches with the updated matches
-            matches = new_matches
+            # Overwrite the old matches with the updated matches. The same
+            # path can be reached in several ways.
+            matches = [list(m) for m in OrderedDict.fromkeys(map(tuple, new_matches))]
             # If all the existing partial matches were not able to be
             # expanded into full matches, return None.
             if len(matches) == 0:
@@ -242,15 +245,15 @@ class QueryEngine:
         # If the node matches the starting/root node of the query,
         # try to get all query matches in the subgraph rooted at
         # this node.
-        if query.query_pattern[0][0] == "*":
-            if 1 in self.search_cache[node._hatchet_nid]:
-                sub_match = self._match_pattern(query, dframe, node, 1)
+        # Leading "*" predicates can match 0 nodes, so the path can also
+        # start with the query node that follows them.
+        for start_idx, (wcard, _) in enumerate(query.query_pattern):
+            if start_idx in self.search_cache[node._hatchet_nid]:
+                sub_match = self._match_pattern(query, dframe, node, start_idx)
                 if sub_match is not None:
                     matches.extend(sub_match)
-        if 0 in self.search_cache[node._hatchet_nid]:
-            sub_match = self._match_pattern(query, dframe, node, 0)
-            if sub_match is not None:
-                matches.extend(sub_match)
+            if wcard != "*":
+                break
         # Note that the node is now visited.
         visited.add(node._hatchet_nid)
         # Continue the Depth First Search.
-- 
2.43.0


From 58bf785774bf7c363025c272662ee53f7b93dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 14/91] fix: object dialect: comparisons with infinite and
 missing values, multi-index equality and leaves

---
 hatchet/query/object_dialect.py | 47 +++++++++++++++------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..c7c1bf2 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -4,7 +4,7 @@
 # SPDX-License-Identifier: MIT
 
 from numbers import Real
-import numpy as np
+import numpy as np  # noqa: F401
 import pandas as pd
 from pandas.api.types import (
     is_numeric_dtype,
@@ -27,6 +27,17 @@ def _process_multi_index_mode(apply_result, multi_index_mode):
     )
 
 
+def _compare(value, comparison):
+    """Evaluates a comparison (e.g., "> 5") for a single metric value"""
+    if comparison.startswith("<>"):
+        comparison = "!=" + comparison[2:]
+    # compare nan metric value to nan query
+    # (e.g., np.nan == np.nan)
+    if pd.isnull(value) and "np.nan" in comparison:
+        return not comparison.startswith("!=")
+    return eval("value {}".format(comparison))
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -38,7 +49,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    return eval("{} {}".format(node._depth, single_value))
+                    return _compare(node._depth, single_value)
                 if isinstance(single_value, Real):
                     # If the value for "depth" is -1, check if the node is a leaf
                     if single_value == -1:
@@ -54,7 +65,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    return eval("{} {}".format(node._hatchet_nid, single_value))
+                    return _compare(node._hatchet_nid, single_value)
                 if isinstance(single_value, Real):
                     return node._hatchet_nid == single_value
                 raise InvalidQueryFilter(
@@ -74,24 +85,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    # compare nan metric value to numeric query
-                    # (e.g. np.nan > 5)
-                    if pd.isnull(df_row[key]):
-                        nan_str = "np.nan"
-                        # compare nan metric value to nan query
-                        # (e.g., np.nan == np.nan)
-                        if nan_str in single_value:
-                            return eval("pd.isnull({}) == True".format(nan_str))
-                        return eval("{} {}".format(nan_str, single_value))
-                    elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
-                        return eval("{} {}".format(inf_str, single_value))
-                    else:
-                        return eval("{} {}".format(df_row[key], single_value))
+                    return _compare(df_row[key], single_value)
 
                 if isinstance(single_value, Real):
                     return df_row[key] == single_value
@@ -132,8 +126,11 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    return eval("{} {}".format(node._depth, single_value))
+                    return _compare(node._depth, single_value)
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
@@ -144,7 +141,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    return eval("{} {}".format(node._hatchet_nid, single_value))
+                    return _compare(node._hatchet_nid, single_value)
                 if isinstance(single_value, Real):
                     return node._hatchet_nid == single_value
                 raise InvalidQueryFilter(
@@ -168,11 +165,11 @@ def _process_predicate(attr_filter, multi_index_mode):
                     compops
                 ):
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: _compare(x, single_value)
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From bd50124a56b8fbb4bd32f684aa9ba23d5f519b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 15/91] fix: string dialect: queries without conditions, and
 untyped before typed conditions

---
 hatchet/query/string_dialect.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..ff7ca97 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -147,18 +147,16 @@ class StringQuery(Query):
         """
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
-            if n[1] != "":
+            if len(self.filters[i]) > 0:
                 bool_expr = ""
-                type_check = ""
-                for j, cond in enumerate(self.filters[i]):
+                type_checks = []
+                for cond in self.filters[i]:
                     if cond[0] is not None:
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
-                            type_check += " {}".format(cond[2])
-                        else:
-                            type_check += " and {}".format(cond[2])
+                        type_checks.append(cond[2])
+                type_check = " and ".join(type_checks)
                 bool_expr = "lambda df_row: {}".format(bool_expr)
                 bool_expr = (
                     'lambda df_row: filter_check_types("{}", df_row, {})'.format(
@@ -184,7 +182,8 @@ class StringQuery(Query):
         """Top level function for parsing the WHERE statement of
         a String-based query.
         """
-        conditions = cond_expr.conditions
+        # The WHERE statement is optional
+        conditions = [] if cond_expr is None else cond_expr.conditions
         for cond in conditions:
             converted_condition = None
             if self._is_unary_cond(cond):
-- 
2.43.0


From 517cfb50ba2231a9bd10458331974620d10fb3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 16/91] fix: string dialect: IS NOT NAN and IS NOT INF on
 multi-indexed data

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ff7ca97..5811cf0 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1296,7 +1296,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                '(~pd.isna(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1390,7 +1390,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From e3eb60ba4c884f50c6c4d001a20b62c682a11723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 17/91] fix: string dialect: keep the multi-index mode and
 single regions in curly braces

---
 hatchet/query/string_dialect.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 5811cf0..0b4cafa 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1497,17 +1497,15 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # Get the MATCH clause that will be shared across the subqueries
         match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
         match_comp = match_comp_obj.group("match_field")
+        # Set the initial query as a CypherQuery where the MATCH clause is the
+        # shared match clause and the WHERE clause is the first curly
+        # brace-delimited region
+        query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[0])
+        if sys.version_info[0] == 2:
+            query1 = query1.decode("utf-8")
+        full_query = StringQuery(query1, multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as a CypherQuery where
-            # the MATCH clause is the shared match clause and the WHERE clause is the
-            # first curly brace-delimited region
-            if i == 0:
-                query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[i])
-                if sys.version_info[0] == 2:
-                    query1 = query1.decode("utf-8")
-                full_query = StringQuery(query1, multi_index_mode)
             # Get the next query as a CypherQuery where
             # the MATCH clause is the shared match clause and the WHERE clause is the
             # next curly brace-delimited region
@@ -1532,16 +1530,14 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             raise ValueError(
                 "Incompatible number of curly brace elements and compound operators"
             )
+        # Set the initial query as the result of recursively calling this
+        # function on the first curly brace-delimited region
+        full_query = parse_string_dialect(query_list[0], multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as the result
-            # of recursively calling this function on the first curly brace-delimited region
-            if i == 0:
-                full_query = parse_string_dialect(query_list[i])
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
+            next_query = parse_string_dialect(query_list[i + 1], multi_index_mode)
             # Add the next query to the full query using the compound operator
             # currently being considered
             if op == "AND":
-- 
2.43.0


From a2ff63a43c238ae8a8709176fb6b01b1d61ed51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 18/91] fix: string dialect: reject text outside of curly
 braces instead of ignoring it

---
 hatchet/query/string_dialect.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 0b4cafa..78d64ed 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1419,8 +1419,8 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         if sys.version_info[0] == 2:
             query_str = query_str.decode("utf-8")
         return StringQuery(query_str, multi_index_mode)
-    # Create an iterator over the curly brace-delimited regions
-    curly_brace_iter = re.finditer(r"\{(.*?)\}", query_str)
+    # Find the positions of the curly brace-delimited regions
+    curly_brace_matches = list(re.finditer(r"\{(.*?)\}", query_str))
     # Will store curly brace-delimited regions in the WHERE clause
     condition_list = None
     # Will store curly brace-delimited regions that contain entire
@@ -1432,7 +1432,7 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
     query_idxes = None
     # Store which compound queries to apply to the curly brace-delimited regions
     compound_ops = []
-    for i, match in enumerate(curly_brace_iter):
+    for i, match in enumerate(curly_brace_matches):
         # Get the substring within curly braces
         substr = query_str[match.start() + 1 : match.end() - 1]
         substr = substr.strip()
@@ -1469,16 +1469,13 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # If there is a compound operator directly after the curly brace-delimited region,
         # capture the type of operator, and store the type in "compound_ops"
         if i + 1 < num_curly_brace_elems:
-            rest_substr = query_str[match.end() :]
-            rest_substr = rest_substr.strip()
-            if rest_substr.startswith("AND"):
-                compound_ops.append("AND")
-            elif rest_substr.startswith("OR"):
-                compound_ops.append("OR")
-            elif rest_substr.startswith("XOR"):
-                compound_ops.append("XOR")
-            else:
+            next_match = curly_brace_matches[i + 1]
+            compound_op = query_str[match.end() : next_match.start()].strip()
+            if compound_op not in ("AND", "OR", "XOR"):
                 raise ValueError("Invalid compound operator type found!")
+            compound_ops.append(compound_op)
+        elif query_str[match.end() :].strip() != "":
+            raise ValueError("Invalid text after the last curly brace-delimited region")
     # Each call to this function should only consider one of the full query or
     # WHERE clause versions at a time. If both types were captured, raise an error
     # because some type of internal logic issue occured.
-- 
2.43.0


From f307ee83138d2c0f66e377bef3dd6375a181b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 19/91] fix: make ~query negate new-style queries

---
 hatchet/query/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/__init__.py b/hatchet/query/__init__.py
index 77e5bfd..3d79ce8 100644
--- a/hatchet/query/__init__.py
+++ b/hatchet/query/__init__.py
@@ -59,13 +59,13 @@ def negate_query(query):
 Query.__and__ = combine_via_conjunction
 Query.__or__ = combine_via_disjunction
 Query.__xor__ = combine_via_exclusive_disjunction
-Query.__not__ = negate_query
+Query.__invert__ = negate_query
 
 
 CompoundQuery.__and__ = combine_via_conjunction
 CompoundQuery.__or__ = combine_via_disjunction
 CompoundQuery.__xor__ = combine_via_exclusive_disjunction
-CompoundQuery.__not__ = negate_query
+CompoundQuery.__invert__ = negate_query
 
 
 def is_hatchet_query(query_obj):
-- 
2.43.0


From 4f693dad8955d1596976417d1ed7d80f9e5e236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 20/91] fix: graph equality: compare which node is shared, not
 only whether it is

---
 hatchet/graph.py |  4 ++--
 hatchet/node.py  | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index b69ecd9..009d47e 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -311,8 +311,8 @@ class Graph:
         """Check if two graphs have the same structure by comparing frame at each
         node.
         """
-        vs = set()
-        vo = set()
+        vs = {}
+        vo = {}
 
         # if both graphs are pointing to the same object, then graphs are equal
         if self is other:
diff --git a/hatchet/node.py b/hatchet/node.py
index 6be971a..4f72934 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -74,14 +74,20 @@ class Node:
     def dag_equal(self, other, vs=None, vo=None):
         """Check if DAG rooted at self has the same structure as that rooted at
         other.
+
+        Arguments:
+            vs (dict, optional): maps the id of each visited node of self to
+                the node of other it corresponds to
+            vo (dict, optional): maps the id of each visited node of other to
+                the node of self it corresponds to
         """
         if vs is None:
-            vs = set()
+            vs = {}
         if vo is None:
-            vo = set()
+            vo = {}
 
-        vs.add(self._hatchet_nid)
-        vo.add(other._hatchet_nid)
+        vs[id(self)] = other
+        vo[id(other)] = self
 
         # if number of children do not match, then nodes are not equal
         if len(self.children) != len(other.children):
@@ -96,15 +102,17 @@ class Node:
             if self_child.frame != other_child.frame:
                 return False
 
-            visited_s = self_child._hatchet_nid in vs
-            visited_o = other_child._hatchet_nid in vo
+            visited_s = id(self_child) in vs
+            visited_o = id(other_child) in vo
 
             # check for duplicate nodes
             if visited_s != visited_o:
                 return False
 
-            # skip visited nodes
-            if visited_s or visited_o:
+            # skip visited nodes, if they are each other's counterpart
+            if visited_s:
+                if vs[id(self_child)] is not other_child:
+                    return False
                 continue
 
             # recursive check for node equality
-- 
2.43.0


From 73aa13f28bd04be7786bffe3d361ecc955ef96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 21/91] fix: traversal order of siblings with equal frames does
 not depend on addresses

---
 hatchet/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/node.py b/hatchet/node.py
index 4f72934..dc75eb1 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -9,8 +9,9 @@ from .frame import Frame
 
 
 def traversal_order(node):
-    """Deterministic key function for sorting nodes in traversals."""
-    return (node.frame, id(node))
+    """Deterministic key function for sorting nodes in traversals. Nodes with
+    equal frames keep the order of the list that is sorted."""
+    return node.frame
 
 
 def node_traversal_order(node):
-- 
2.43.0


From 09e7bc4bf7dc9ec63508af3c6d5642c9611a1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 22/91] fix: squash: number the nodes of the graph after
 merging

---
 hatchet/graph.py      | 2 +-
 hatchet/graphframe.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 009d47e..2e820c1 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -102,7 +102,7 @@ class Graph:
                     nodes = []
                     for target in targets:
                         nodes.extend(merged_into.pop(target, [target]))
-                    new_node = min(nodes, key=id)
+                    new_node = min(nodes)
                     merged_into[new_node] = nodes
                     for node in nodes:
                         merges[node] = new_node
diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index b0af85a..43b2f3c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -633,6 +633,9 @@ class GraphFrame:
         # may have children with identical frames.
         merges = graph.normalize()
         df["node"] = df["node"].apply(lambda n: merges.get(n, n))
+        if merges:
+            # nodes disappeared, and others have new positions
+            graph.enumerate_traverse()
 
         self.dataframe.set_index(index_names, inplace=True)
         df.set_index(index_names, inplace=True)
-- 
2.43.0


From a1cd53a065af5241f5bbd39c4f87aab541af870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 23/91] fix: filter, squash and groupby_aggregate: do not share
 metric lists and metadata with the result

---
 hatchet/graphframe.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 43b2f3c..704f714 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -70,7 +70,7 @@ class GraphFrame:
         exc_metrics=None,
         inc_metrics=None,
         default_metric="time",
-        metadata={},
+        metadata=None,
     ):
         """Create a new GraphFrame from a graph and a dataframe.
 
@@ -101,7 +101,7 @@ class GraphFrame:
         self.exc_metrics = [] if exc_metrics is None else exc_metrics
         self.inc_metrics = [] if inc_metrics is None else inc_metrics
         self.default_metric = default_metric
-        self.metadata = metadata
+        self.metadata = {} if metadata is None else metadata
         self.query_engine = QueryEngine()
 
     @staticmethod
@@ -551,10 +551,10 @@ class GraphFrame:
         filtered_df.set_index(index_names, inplace=True)
 
         filtered_gf = GraphFrame(self.graph, filtered_df)
-        filtered_gf.exc_metrics = self.exc_metrics
-        filtered_gf.inc_metrics = self.inc_metrics
+        filtered_gf.exc_metrics = copy.copy(self.exc_metrics)
+        filtered_gf.inc_metrics = copy.copy(self.inc_metrics)
         filtered_gf.default_metric = self.default_metric
-        filtered_gf.metadata = self.metadata
+        filtered_gf.metadata = copy.copy(self.metadata)
 
         if squash:
             return filtered_gf.squash(update_inc_cols)
@@ -659,10 +659,10 @@ class GraphFrame:
         new_gf = GraphFrame(
             graph,
             agg_df,
-            self.exc_metrics,
-            self.inc_metrics,
+            copy.copy(self.exc_metrics),
+            copy.copy(self.inc_metrics),
             self.default_metric,
-            self.metadata,
+            copy.copy(self.metadata),
         )
         if update_inc_cols:
             new_gf.update_inclusive_columns()
@@ -1517,10 +1517,10 @@ class GraphFrame:
         new_gf = GraphFrame(
             graph,
             tmp_df,
-            self.exc_metrics,
-            self.inc_metrics,
+            copy.copy(self.exc_metrics),
+            copy.copy(self.inc_metrics),
             self.default_metric,
-            self.metadata,
+            copy.copy(self.metadata),
         )
         new_gf.drop_index_levels()
         return new_gf
-- 
2.43.0


From 33cdb78c11ae3831c4dbc885110c2241da364a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 24/91] fix: squash and drop_index_levels: do not lose the
 index of the graphframe when they fail

---
 hatchet/graphframe.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 704f714..8cf3ed9 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -442,8 +442,8 @@ class GraphFrame:
                 agg_dict[col] = lambda x: x.iloc[0]
 
         # perform a groupby to merge nodes that just differ in index columns
-        self.dataframe.reset_index(level="node", inplace=True)
-        agg_df = self.dataframe.groupby("node").agg(agg_dict)
+        df = self.dataframe.reset_index(level="node")
+        agg_df = df.groupby("node").agg(agg_dict)
 
         self.dataframe = agg_df
 
@@ -570,10 +570,10 @@ class GraphFrame:
             update_inc_cols (boolean, optional): if True, update inclusive columns.
         """
         index_names = self.dataframe.index.names
-        self.dataframe.reset_index(inplace=True)
+        df = self.dataframe.reset_index()
 
         # create new nodes for each unique node in the old dataframe
-        old_to_new = {n: n.copy() for n in set(self.dataframe["node"])}
+        old_to_new = {n: n.copy() for n in set(df["node"])}
         for i in old_to_new:
             old_to_new[i]._hatchet_nid = i._hatchet_nid
 
@@ -626,7 +626,6 @@ class GraphFrame:
         graph.enumerate_traverse()
 
         # reindex new dataframe with new nodes
-        df = self.dataframe.copy()
         df["node"] = df["node"].apply(lambda x: old_to_new[x])
 
         # at this point, the graph is potentially invalid, as some nodes
@@ -637,7 +636,6 @@ class GraphFrame:
             # nodes disappeared, and others have new positions
             graph.enumerate_traverse()
 
-        self.dataframe.set_index(index_names, inplace=True)
         df.set_index(index_names, inplace=True)
         # create dict that stores aggregation function for each column
         agg_dict = {}
-- 
2.43.0


From e0740cf19dd2ee97d2e7dea814a89e792eb29d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 25/91] fix: JsonReader: set depths, and do not duplicate nodes
 reached from several roots

---
 hatchet/readers/json_reader.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..f00fb69 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -28,31 +28,29 @@ class JsonReader:
         self.spec_dict = json.loads(json_spec)
 
     def read(self):
-        roots = []
+        # Nodes by nid. A node that can be reached from several roots is in the
+        # specification of each of them.
+        nodes = {}
         for graph_spec in self.spec_dict["graph"]:
+            new_nids = [nid for nid in graph_spec if nid not in nodes]
+
             # turn frames into nodes
-            for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
+            for nid in new_nids:
+                nodes[nid] = Node(Frame(graph_spec[nid]["data"]), hnid=int(nid))
 
             # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
+            for nid in new_nids:
+                for child in graph_spec[nid]["children"]:
                     child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
-
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+                    nodes[nid].add_child(nodes[child])
+                    nodes[child].add_parent(nodes[nid])
 
-        grph = Graph(roots)
+        grph = Graph([node for node in nodes.values() if len(node.parents) == 0])
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From e40cedaac33fb23c41f58cf9ebf13be230b786ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 26/91] fix: unify: add the missing rows also if both
 graphframes share the graph

---
 hatchet/graphframe.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 8cf3ed9..d655bdf 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -967,10 +967,14 @@ class GraphFrame:
         Update the graphs in the graphframe if they differ.
         """
         if self.graph is other.graph:
-            return
-
-        node_map = {}
-        union_graph = self.graph.union(other.graph, node_map)
+            # the graphframes can still have rows for different nodes
+            if set(self.dataframe.index) == set(other.dataframe.index):
+                return
+            union_graph = self.graph
+            node_map = {id(node): node for node in union_graph.traverse()}
+        else:
+            node_map = {}
+            union_graph = self.graph.union(other.graph, node_map)
 
         self_index_names = self.dataframe.index.names
         other_index_names = other.dataframe.index.names
-- 
2.43.0


From ecdda0a4c7722e505f5189a6ec806bb2c54a2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 27/91] fix: LiteralReader: look up repeated nodes by id, keep
 all parents, metrics and caller's dicts

---
 hatchet/readers/literal_reader.py | 104 +++++++++++++-----------------
 1 file changed, 45 insertions(+), 59 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..d62b3d7 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -66,84 +66,68 @@ class LiteralReader:
         """
         self.graph_dict = graph_dict
 
-    def parse_node_literal(
-        self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
-    ):
-        """Create node_dict for one node and then call the function
-        recursively on all children.
-        """
-
-        # pull out _hatchet_nid if it exists
-        # so it will not be inserted into
+    def _make_node(self, node_literal, hparent, node_dicts):
+        """Create a node and its node_dict, which becomes a dataframe row."""
+        # pull out _hatchet_nid if it exists so it will not be inserted into
         # dataframe like a normal metric
-        hnid = -1
-        if "_hatchet_nid" in child_dict["metrics"]:
-            hnid = child_dict["metrics"]["_hatchet_nid"]
+        metrics = dict(node_literal["metrics"])
+        hnid = metrics.pop("_hatchet_nid", -1)
+
+        # the frame must not share its attributes with the caller's literal
+        hnode = Node(Frame(dict(node_literal["frame"])), hparent, hnid=hnid)
 
-        frame = Frame(child_dict["frame"])
-        if hnid not in seen_nids:
-            hnode = Node(frame, hparent, hnid=hnid)
+        # depending on the node type, the name may not be in the frame
+        node_name = node_literal["frame"].get("name")
+        if not node_name:
+            node_name = node_literal["name"]
 
-            # depending on the node type, the name may not be in the frame
-            node_name = child_dict["frame"].get("name")
-            if not node_name:
-                node_name = child_dict["name"]
+        node_dicts.append(dict({"node": hnode, "name": node_name}, **metrics))
 
-            node_dict = dict(
-                {"node": hnode, "name": node_name}, **child_dict["metrics"]
-            )
+        return hnode
+
+    def parse_node_literal(self, nid_to_node_dict, node_dicts, child_dict, hparent):
+        """Create node_dict for one node and then call the function
+        recursively on all children.
+        """
+        hnid = child_dict["metrics"].get("_hatchet_nid", -1)
 
-            node_dicts.append(node_dict)
-            frame_to_node_dict[frame] = hnode
+        if hnid not in nid_to_node_dict:
+            hnode = self._make_node(child_dict, hparent, node_dicts)
 
             if hnid != -1:
-                seen_nids.append(hnid)
+                nid_to_node_dict[hnid] = hnode
 
         else:
-            hnode = frame_to_node_dict.get(frame)
+            # this node is in the literal several times
+            hnode = nid_to_node_dict[hnid]
+            if not any(parent is hparent for parent in hnode.parents):
+                hnode.add_parent(hparent)
 
-        hparent.add_child(hnode)
+        if not any(child is hnode for child in hparent.children):
+            hparent.add_child(hnode)
 
         if "children" in child_dict:
             for child in child_dict["children"]:
-                self.parse_node_literal(
-                    frame_to_node_dict, node_dicts, child, hnode, seen_nids
-                )
+                self.parse_node_literal(nid_to_node_dict, node_dicts, child, hnode)
 
     def read(self):
         list_roots = []
         node_dicts = []
-        frame_to_node_dict = {}
-        frame = None
-        seen_nids = []
-        hnid = -1
+        nid_to_node_dict = {}
 
         # start with creating a node_dict for each root
-        for i in range(len(self.graph_dict)):
-            if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
-                hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
-                seen_nids.append(hnid)
-            frame = Frame(self.graph_dict[i]["frame"])
-            graph_root = Node(frame, None, hnid=hnid)
-
-            # depending on the node type, the name may not be in the frame
-            node_name = self.graph_dict[i]["frame"].get("name")
-            if not node_name:
-                node_name = self.graph_dict[i]["name"]
-
-            node_dict = dict(
-                {"node": graph_root, "name": node_name}, **self.graph_dict[i]["metrics"]
-            )
-            node_dicts.append(node_dict)
+        for root_dict in self.graph_dict:
+            graph_root = self._make_node(root_dict, None, node_dicts)
+            if graph_root._hatchet_nid != -1:
+                nid_to_node_dict[graph_root._hatchet_nid] = graph_root
 
             list_roots.append(graph_root)
-            frame_to_node_dict[frame] = graph_root
 
             # call recursively on all children of root
-            if "children" in self.graph_dict[i]:
-                for child in self.graph_dict[i]["children"]:
+            if "children" in root_dict:
+                for child in root_dict["children"]:
                     self.parse_node_literal(
-                        frame_to_node_dict, node_dicts, child, graph_root, seen_nids
+                        nid_to_node_dict, node_dicts, child, graph_root
                     )
 
         graph = Graph(list_roots)
@@ -156,11 +140,13 @@ class LiteralReader:
 
         exc_metrics = []
         inc_metrics = []
-        for key in self.graph_dict[i]["metrics"].keys():
-            if "(inc)" in key:
-                inc_metrics.append(key)
-            else:
-                exc_metrics.append(key)
+        for root_dict in self.graph_dict:
+            for key in root_dict["metrics"].keys():
+                if key == "_hatchet_nid":
+                    continue
+                metrics = inc_metrics if "(inc)" in key else exc_metrics
+                if key not in metrics:
+                    metrics.append(key)
 
         dataframe = pd.DataFrame(data=node_dicts)
         dataframe.set_index(["node"], inplace=True)
-- 
2.43.0


From 15ea1a51ea5fb96d8f87c7534947323434228aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 28/91] fix: HDF5 reader: reconstruct the graph of multi-index
 dataframes

---
 hatchet/readers/dataframe_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..73f781b 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -46,7 +46,8 @@ def _get_parents_and_children(df):
 
 
 def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
+    # a node has several rows if the dataframe has a multi-index
+    node_list = sorted(set(df.index.get_level_values("node")))
     for i in range(len(df)):
         node = _get_node_from_df_iloc(df, i)
         if len(node.children) == 0:
-- 
2.43.0


From 3b27383daa50e00a9aac2d6e608472ee03d286d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 29/91] fix: to_flamegraph ignores the name argument

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d655bdf..310072c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1122,7 +1122,7 @@ class GraphFrame:
                     else:
                         df_index = callpath[i]
                     folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, "name"]) + "; "
+                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
                     )
 
                 if (
@@ -1137,7 +1137,7 @@ class GraphFrame:
                 else:
                     df_index = callpath[-1]
                 folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, "name"]) + " "
+                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
                 )
 
                 # set dataframe index based on if rank and thread are part of the index
-- 
2.43.0


From 163c2856895bae87138c6ab940250e84b5a81a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 30/91] fix: unknown colormap raises AttributeError instead of
 ValueError

---
 hatchet/util/colormaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/colormaps.py b/hatchet/util/colormaps.py
index b3b23ce..998f272 100644
--- a/hatchet/util/colormaps.py
+++ b/hatchet/util/colormaps.py
@@ -125,7 +125,7 @@ class ColorMaps:
             self.colors = self.Spectral.copy()
         else:
             raise ValueError(
-                self.colormap
+                str(colormap)
                 + " is an incorrect colormap. Select one BrBG, PiYg, PRGn,"
                 + " PuOr, RdBu, RdGy, RdYlBu, RdYlGn, or Spectral."
             )
-- 
2.43.0


From 4d0ba3bfd2a7640a6de9e3f74ed422a28084e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 31/91] fix: tree ignores a min_value or max_value of zero

---
 hatchet/external/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 613b523..de8903e 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -141,8 +141,12 @@ class ConsoleRenderer:
             metric_series.values[isfinite_mask], metric_series.index[isfinite_mask]
         )
 
-        self.max_metric = self.max_value if self.max_value else filtered_series.max()
-        self.min_metric = self.min_value if self.min_value else filtered_series.min()
+        self.max_metric = (
+            self.max_value if self.max_value is not None else filtered_series.max()
+        )
+        self.min_metric = (
+            self.min_value if self.min_value is not None else filtered_series.min()
+        )
 
         if self.unicode:
             self.lr_arrows = {"◀": "◀ ", "▶": "▶ "}
-- 
2.43.0


From db539248b784ecf1c79b27748ef9866b7a9f45ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 32/91] fix: binary operations on equal node sets copy
 _missing_node as an all-NaN column

---
 hatchet/graphframe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 310072c..3513f2c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1379,6 +1379,12 @@ class GraphFrame:
                 self.dataframe["_missing_node"] = np.zeros(
                     len(self.dataframe), dtype=np.short
                 )
+        else:
+            # no rows are added, so the marks of an earlier operation on other
+            # must not become a column of self
+            other_not_in_self = other_not_in_self.drop(
+                columns="_missing_node", errors="ignore"
+            )
 
         # get lengths to pass into
         onis_len = len(other_not_in_self)
-- 
2.43.0


From 88fb14ca76822043212deb2e9a4f50851cdcad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 33/91] fix: tree with colormap_annotations fails when the
 output is not colored

---
 hatchet/external/console.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index de8903e..3019a96 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -94,6 +94,8 @@ class ConsoleRenderer:
                     self.colors_annotations_mapping = self.colormap_annotations
         else:
             self.colors = self.colors_disabled
+            # annotations are not colored either
+            self.colormap_annotations = None
 
         if isinstance(self.metric_columns, str):
             self.primary_metric = self.metric_columns
-- 
2.43.0


From bb2f1203178de62278a655dfd7376ca5b1841410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 34/91] fix: groupby_aggregate fails when the grouped dataframe
 has a name or nid column

---
 hatchet/graphframe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 3513f2c..a07c685 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1509,6 +1509,10 @@ class GraphFrame:
         # append super nodes to groupby-aggregate dataframe
         df_index = list(agg_df.index.names)
         agg_df.reset_index(inplace=True)
+        # the super nodes, their ids and names replace those of the old nodes
+        node_columns = ["node", "nid", "name"]
+        df_index = [name for name in df_index if name not in node_columns]
+        agg_df.drop(columns=node_columns, errors="ignore", inplace=True)
         df_nodes = pd.DataFrame.from_dict(data=node_dicts)
         tmp_df = pd.concat([agg_df, df_nodes], axis=1)
         # add node to dataframe index if it doesn't exist
-- 
2.43.0


From c8b49abce6b97b5f7f784c9b780a44d3eea9c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 35/91] fix: groupby_aggregate leaves the nid column out of
 step with the new graph

---
 hatchet/graphframe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index a07c685..c2fd41e 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1524,6 +1524,7 @@ class GraphFrame:
         # update _hatchet_nid in reindexed graph and groupby-aggregate dataframe
         graph = Graph(new_roots)
         graph.enumerate_traverse()
+        tmp_df["nid"] = [n["node"]._hatchet_nid for n in node_dicts]
 
         # put it all together
         new_gf = GraphFrame(
-- 
2.43.0


From 51e8c9595e249ae359fb1aa20a979f12ddb92eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 36/91] fix: nodes have no depth if a reader already numbered
 them in traversal order

---
 hatchet/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 2e820c1..cf7d747 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -290,7 +290,8 @@ class Graph:
                 for i, node in enumerate(self.traverse()):
                     node._hatchet_nid = i
 
-            self.enumerate_depth()
+        # ids that are right already (e.g., set by a reader) don't imply depths
+        self.enumerate_depth()
 
     def _check_enumerate_traverse(self):
         # if "node order" column exists, we traverse sorting by _hatchet_nid
-- 
2.43.0


From c488f973c8a6726962454a2ff0c660a3d3f3043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 37/91] fix: Caliper reader does not set the parents of nodes

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..b738258 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                     parent_hnode = (self.idx_to_node[node["parent"]])["node"]
                     hnode = Node(
                         Frame({"type": self.node_type, "name": node_label}),
+                        parent_hnode,
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
-- 
2.43.0


From a77ea96ae24f2f38aa0f42a0db854e0801725e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 38/91] fix: Caliper reader takes the node order from rows of
 other nodes

---
 hatchet/readers/caliper_reader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b738258..16d13ed 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -146,6 +146,16 @@ class CaliperReader:
         global unknown_label_counter
         order = -1
 
+        # order of the nodes, if there is a node ordering (rows of the data
+        # section can be in any order, and exist per rank)
+        node_order = {}
+        if "Node order" in self.json_cols:
+            order_col = self.json_cols.index("Node order")
+            path_col = self.json_cols.index(self.nid_col_name)
+            for row in self.json_data:
+                nid = row[path_col]
+                node_order[nid] = min(row[order_col], node_order.get(nid, math.inf))
+
         # find nodes in the nodes section that represent the path hierarchy
         for idx, node in enumerate(self.json_nodes):
             node_label = node["label"]
@@ -158,7 +168,7 @@ class CaliperReader:
                 # If there is a node orderering, assign to the _hatchet_nid
                 if "Node order" in self.json_cols:
                     self.node_ordering = True
-                    order = self.json_data[idx][0]
+                    order = node_order.get(idx, -1)
                 if "parent" not in node:
                     # since this node does not have a parent, this is a root
                     graph_root = Node(
-- 
2.43.0


From 1dfcd10114bdddd2e09ece417343081cf5759a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 39/91] fix: gprof2dot reader adds the first parent of a node
 twice

---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..3bc9ba5 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From 3f812f139d887e157fc4d0fbe1971f2f733938a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:10 +0000
Subject: [PATCH 40/91] fix: Caliper reader lists the removed Node order column
 as a metric

---
 hatchet/readers/caliper_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 16d13ed..0721a69 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -137,7 +137,10 @@ class CaliperReader:
         # make list of metric columns
         self.metric_columns = []
         for idx, item in enumerate(self.json_cols_mdata):
-            if self.json_cols[idx] != "rank" and item["is_value"] is True:
+            if (
+                self.json_cols[idx] not in ("rank", "Node order")
+                and item["is_value"] is True
+            ):
                 self.metric_columns.append(self.json_cols[idx])
 
     def create_graph(self):
-- 
2.43.0


From 3f472637bc671213241d2f161a13b0d97798ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 41/91] fix: Caliper reader fails if a record has no value for
 a column of names

---
 hatchet/readers/caliper_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 0721a69..ded7784 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -262,13 +262,17 @@ class CaliperReader:
                     # hierarchy in the data
                     self.df_json_data["path"] = self.df_json_data["path"].apply(
                         lambda x: None
-                        if (math.isnan(x))
+                        if pd.isnull(x)
                         else self.json_nodes[int(x)]["label"]
                     )
                 else:
                     self.df_json_data[self.json_cols[idx]] = self.df_json_data[
                         self.json_cols[idx]
-                    ].apply(lambda x: self.json_nodes[x]["label"])
+                    ].apply(
+                        lambda x: None
+                        if pd.isnull(x)
+                        else self.json_nodes[int(x)]["label"]
+                    )
 
         # since we split sourceloc, we should update json_cols and
         # json_cols_mdata
-- 
2.43.0


From 5ccc616f8aa945be4a1b7fdd7f4ca9b995428983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 42/91] fix: Caliper reader fails on profiles with two
 hierarchies and source locations

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index ded7784..f136ac5 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -227,7 +227,7 @@ class CaliperReader:
             agg_dict = {}
             for idx, item in enumerate(self.json_cols_mdata):
                 col = self.json_cols[idx]
-                if col != "rank" and col != "nid":
+                if col not in groupby_cols:
                     if item["is_value"] is True:
                         agg_dict[col] = np.sum
                     else:
-- 
2.43.0


From 73f4092f7e40b401208d00c3095d8b07dc6c8006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 43/91] fix: native Caliper reader adds root nodes twice

---
 hatchet/readers/caliper_native_reader.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 171fda6..080c24c 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -215,17 +215,8 @@ class CaliperNativeReader:
 
                 # if root node, end recursive call to create parent nodes
                 if not parent_callpath:
+                    # its row in the nodes table is created by the caller
                     list_roots.append(child_node)
-
-                    node_dict = dict(
-                        {
-                            "name": child_node.frame["name"],
-                            "node": child_node,
-                            "nid": self.global_nid,
-                        }
-                    )
-
-                    self.idx_to_node[self.global_nid] = node_dict
                     self.global_nid += 1
                 else:
                     grandparent_callpath = parent_callpath[:-1]
-- 
2.43.0


From 324b3b8b77efd7e3970432c7a3be08b9e4788f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 44/91] fix: native Caliper reader keeps the records of one
 rank only

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 080c24c..faab997 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -87,7 +87,10 @@ class CaliperNativeReader:
             if self.filename_or_caliperreader.attribute(col).is_value():
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
-        df_new = df_metrics.groupby(df_metrics["nid"]).aggregate("first").reset_index()
+        keys = ["nid"]
+        if "mpi.rank" in df_metrics.columns:
+            keys.append("mpi.rank")
+        df_new = df_metrics.groupby(keys).aggregate("first").reset_index()
         return df_new
 
     def _reset_metrics(self, metrics):
-- 
2.43.0


From aa2184858f9667e91a3ea3a4cdc292c51e825f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 45/91] fix: native Caliper reader drops the rows of nodes
 without a record

---
 hatchet/readers/caliper_native_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index faab997..b34ea3a 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -434,6 +434,7 @@ class CaliperNativeReader:
                     if metric_rows.empty:
                         # add a single row
                         node_dict = dict(default_metric_dict)
+                        node_dict["nid"] = row["nid"]
                         missing_nodes.append(node_dict)
                 else:
                     if metric_rows.empty:
-- 
2.43.0


From b0c4ed66f74322b4d667c1fa141a28081433ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 46/91] fix: timeseries reader lists metrics once per time step

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index b34ea3a..08210c9 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -84,7 +84,10 @@ class CaliperNativeReader:
     def _create_metric_df(self, metrics):
         """Make a list of metric columns and create a dataframe, group by node"""
         for col in self.record_data_cols:
-            if self.filename_or_caliperreader.attribute(col).is_value():
+            if (
+                self.filename_or_caliperreader.attribute(col).is_value()
+                and col not in self.metric_cols
+            ):
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
         keys = ["nid"]
-- 
2.43.0


From 5639f22e51b31fe9b055300dd4ce0ab25eaddedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 47/91] fix: native Caliper reader sets a default metric that
 does not exist

---
 hatchet/readers/caliper_native_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 08210c9..bd33b80 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -536,7 +536,7 @@ class CaliperNativeReader:
 
             # set the default metric
             if self.default_metric is None:
-                if "time (inc)" in dataframe.columns:
+                if "time (inc)" in dataframe.columns and "time" in dataframe.columns:
                     self.default_metric = "time"
                 elif "avg#inclusive#sum#time.duration" in dataframe.columns:
                     self.default_metric = "avg#inclusive#sum#time.duration"
-- 
2.43.0


From 7c9b3a02a87b19dbbd4e6be0d94724cef2519ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 48/91] fix: graphframes of a timeseries share their metadata

---
 hatchet/readers/caliper_native_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index bd33b80..33656be 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -559,7 +559,7 @@ class CaliperNativeReader:
                     exc_metrics,
                     inc_metrics,
                     self.default_metric,
-                    metadata=parsed_metadata,
+                    metadata=dict(parsed_metadata),
                 )
             )
 
-- 
2.43.0


From 027f2993c5631d16d293126c4a540e3c8d0909f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 49/91] fix: native Caliper reader ignores the order of a node
 read after its children

---
 hatchet/readers/caliper_native_reader.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 33656be..1f50a83 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -284,11 +284,15 @@ class CaliperNativeReader:
 
                         hnode = self.callpath_to_node.get(node_callpath)
 
+                        # set the _hatchet_nid by the node order column if it exists, else -1
+                        if "min#min#aggregate.slot" in record:
+                            self.node_ordering = True
+                            order = record["min#min#aggregate.slot"]
+                            # the node may have been created by one of its children
+                            if hnode and hnode._hatchet_nid == -1:
+                                hnode._hatchet_nid = int(order)
+
                         if not hnode:
-                            # set the _hatchet_nid by the node order column if it exists, else -1
-                            if "min#min#aggregate.slot" in record:
-                                self.node_ordering = True
-                                order = record["min#min#aggregate.slot"]
                             frame = Frame({"type": node_type, "name": node_label})
                             order = int(order)
                             hnode = Node(frame, hnid=order)
-- 
2.43.0


From 946275120334099b6514b6b234d637850c84ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 50/91] fix: native Caliper reader takes every boolean for True

---
 hatchet/readers/caliper_native_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 1f50a83..de994d8 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -36,7 +36,7 @@ class CaliperNativeReader:
         "string": str,
         "addr": np.uint64,
         "double": np.float64,
-        "bool": bool,
+        "bool": lambda value: value in (True, "true", "1"),
         "type": lambda dummy: __raise_cali_type_error(
             "Caliper 'type' types are unsupported in Hatchet"
         ),
-- 
2.43.0


From 899b8701a63dd450d6c1fa7dcffff68546c86014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 51/91] fix: timeseries lists metrics that are not columns of
 its dataframes

---
 hatchet/readers/caliper_native_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index de994d8..ba8987f 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -464,6 +464,11 @@ class CaliperNativeReader:
             df_missing = pd.DataFrame.from_dict(data=missing_nodes)
             df_metrics = pd.concat([df_fixed_data, df_missing], sort=False)
 
+            # all profiles of a timeseries have the same columns
+            for col in self.record_data_cols:
+                if col not in df_metrics.columns:
+                    df_metrics[col] = np.nan
+
             # rename columns to user-readable metric names (i.e., aliases)
             if not self.use_native_metric_names:
                 for col in df_metrics.columns:
-- 
2.43.0


From 35426efb59bff2f98e0290bf500feb31d6bd605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 52/91] fix: TAU reader fails if the root has a metric value
 that is not an integer

---
 hatchet/readers/tau_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index aed2af1..d2cc654 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -279,7 +279,7 @@ class TAUReader:
             root_name = root_line.group(1).strip(" ")
             # convert it to a tuple to use it as a key in callpath_to_node dictionary
             root_callpath = tuple([root_name])
-            root_values = list(map(int, root_line.group(2).split(" ")[:-1]))
+            root_values = list(map(float, root_line.group(2).split(" ")[:-1]))
 
             # After first profile.0.0.0, only get Excl and Incl metric values
             # from other files since other columns will be the same.
@@ -297,7 +297,9 @@ class TAUReader:
                     + "\nLine: 2"
                 )
                 root_line = re.match(r"\"(.*)\"\s(.*)\sG", file_data[f_index][0])
-                root_values.extend(list(map(int, root_line.group(2).split(" ")[2:4])))
+                root_values.extend(
+                    list(map(float, root_line.group(2).split(" ")[2:4]))
+                )
 
             # Check if the root exists in other ranks.
             # Note that we assume the root is the same for all metric files of a rank.
-- 
2.43.0


From 8604f8826b125e75cc3227946b35e5751cbdcfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 53/91] fix: TAU reader sets a default metric that does not
 exist

---
 hatchet/readers/tau_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index d2cc654..23454ae 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -502,6 +502,8 @@ class TAUReader:
             dataframe = dataframe.stack()
 
         default_metric = "time (inc)"
+        if default_metric not in self.inc_metrics:
+            default_metric = self.inc_metrics[0]
 
         return hatchet.graphframe.GraphFrame(
             graph, dataframe, self.exc_metrics, self.inc_metrics, default_metric
-- 
2.43.0


From ab3df040fff17f2908187c4edcbb6962d479b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 54/91] fix: TAU reader fills missing ranks only if there is
 one thread

---
 hatchet/readers/tau_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 23454ae..9149fda 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -478,7 +478,7 @@ class TAUReader:
         # of the multiindex.
         # TODO: iterrows() is not the best way to iterate over rows.
         if self.multiple_ranks or self.multiple_threads:
-            dataframe = dataframe.unstack()
+            dataframe = dataframe.unstack(indices[1:])
             for idx, row in dataframe.iterrows():
                 # There is always a valid name for an index.
                 # Take that valid name and assign to other ranks/rows.
@@ -499,7 +499,7 @@ class TAUReader:
                 dataframe.fillna(0, inplace=True)
 
             # Stack the dataframe
-            dataframe = dataframe.stack()
+            dataframe = dataframe.stack(indices[1:])
 
         default_metric = "time (inc)"
         if default_metric not in self.inc_metrics:
-- 
2.43.0


From 62693efa6b3247e3abe6241be26e9482b1e6e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 55/91] fix: TAU reader creates no row for callpath nodes
 without a line

---
 hatchet/readers/tau_reader.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 9149fda..6bef026 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -196,6 +196,7 @@ class TAUReader:
                     Frame({"type": "function", "name": parent_name}), None
                 )
                 self.callpath_to_node[parent_callpath] = parent_node
+                created_parents.append((parent_node, parent_info))
 
                 parent_node.add_child(child_node)
                 child_node.add_parent(parent_node)
@@ -255,6 +256,8 @@ class TAUReader:
         self.columns = _construct_column_list(profile_filenames[0])
 
         list_roots = []
+        # parents that were created before (or without) seeing their own line
+        created_parents = []
         prev_rank, prev_thread = 0, 0
         # Example filenames_per_rank: (metric1/profile.x.0.0 ...)
         for filenames_per_rank in profile_filenames:
@@ -443,6 +446,33 @@ class TAUReader:
 
                     self.node_dicts.append(node_dict)
 
+        # Nodes that only appear as parents in callpaths have no metric values.
+        # Nodes are not numbered yet, so they have to be compared by identity.
+        nodes_with_data = set(id(node_dict["node"]) for node_dict in self.node_dicts)
+        for node, node_info in created_parents:
+            if id(node) not in nodes_with_data:
+                symbol = ""
+                if " C " in node_info:
+                    symbol = " C "
+                elif " [@] " in node_info:
+                    symbol = " [@] "
+                file, module = _get_name_file_module(False, node_info, symbol)[1:]
+                start_line, end_line = _get_line_numbers(node_info)
+                self.node_dicts.append(
+                    self.create_node_dict(
+                        node,
+                        self.columns,
+                        [0] * (len(self.columns) - 1),
+                        node.frame["name"],
+                        file,
+                        module,
+                        start_line,
+                        end_line,
+                        self.node_dicts[0]["rank"],
+                        self.node_dicts[0]["thread"],
+                    )
+                )
+
         return list_roots
 
     def read(self):
-- 
2.43.0


From 0999e3af944bef11873d40f6b799a065e8e1d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 56/91] fix: call graph readers lose functions that are only
 called in cycles

---
 hatchet/graph.py                    | 21 +++++++++++++++++++++
 hatchet/readers/cprofile_reader.py  | 28 ++++++++++++----------------
 hatchet/readers/gprof_dot_reader.py | 10 ++--------
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index cf7d747..6a443c8 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -20,6 +20,27 @@ def index_by(attr, objects):
     return index
 
 
+def find_roots(nodes):
+    """Roots of a call graph that consists of the given nodes: all nodes
+    without parents, and one node of each cycle (e.g., a recursive function)
+    that can't be reached from any of these."""
+    roots = [node for node in nodes if not node.parents]
+    visited = {}
+    for root in roots:
+        list(root.traverse(visited=visited))
+
+    cycle_roots = []
+    for node in nodes:
+        if id(node) not in visited:
+            reached = {}
+            list(node.traverse(visited=reached))
+            cycle_roots = [root for root in cycle_roots if id(root) not in reached]
+            cycle_roots.append(node)
+            visited.update(reached)
+
+    return roots + cycle_roots
+
+
 class Graph:
     """A possibly multi-rooted tree or graph from one input dataset."""
 
diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 3b3f5ca..752ec0d 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -10,7 +10,7 @@ import pandas as pd
 
 import hatchet.graphframe
 from hatchet.node import Node
-from hatchet.graph import Graph
+from hatchet.graph import Graph, find_roots
 from hatchet.frame import Frame
 
 
@@ -99,7 +99,6 @@ class CProfileReader:
         except ValueError:
             print_incomptable_msg(self.pstats_file)
             raise
-        list_roots = []
 
         # We iterate through each function/node in our stats dict
         for dst_module_data, dst_stats in stats_dict.items():
@@ -109,20 +108,17 @@ class CProfileReader:
             # get all parents of our current destination node
             # create source nodes and link with destination node
             srcs = self._get_src(dst_stats)
-            if srcs == {}:
-                list_roots.append(dst_hnode)
-            else:
-                for src_module_data in srcs.keys():
-                    src_name = src_module_data[NameData.FNCNAME]
-
-                    if src_name is not None:
-                        src_hnode = self._create_node_and_row(
-                            src_module_data, src_name, stats_dict
-                        )
-                        dst_hnode.add_parent(src_hnode)
-                        src_hnode.add_child(dst_hnode)
-
-        return list_roots
+            for src_module_data in srcs.keys():
+                src_name = src_module_data[NameData.FNCNAME]
+
+                if src_name is not None:
+                    src_hnode = self._create_node_and_row(
+                        src_module_data, src_name, stats_dict
+                    )
+                    dst_hnode.add_parent(src_hnode)
+                    src_hnode.add_child(dst_hnode)
+
+        return find_roots(self.name_to_hnode.values())
 
     def read(self):
         roots = self.create_graph()
diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 3bc9ba5..9d190f8 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -10,7 +10,7 @@ import pydot
 
 import hatchet.graphframe
 from ..node import Node
-from ..graph import Graph
+from ..graph import Graph, find_roots
 from ..frame import Frame
 from ..util.timer import Timer
 from ..util.config import dot_keywords
@@ -89,13 +89,7 @@ class GprofDotReader:
                     }
                     self.name_to_dict[node_name] = node_dict
 
-        # add all nodes with no parents to the list of roots
-        list_roots = []
-        for (key, val) in self.name_to_hnode.items():
-            if not val.parents:
-                list_roots.append(val)
-
-        return list_roots
+        return find_roots(self.name_to_hnode.values())
 
     def read(self):
         """Read the DOT file generated by gprof2dot to create a graphframe. The DOT file
-- 
2.43.0


From ac71fdac8a049bf6c31d9ed578330c86e2ae5b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 57/91] fix: cProfile reader mixes up functions of equally
 named files in different directories

---
 hatchet/readers/cprofile_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 752ec0d..bd02740 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -58,7 +58,7 @@ class CProfileReader:
         """
         u_fn_name = "{}:{}:{}".format(
             fn_name,
-            fn_data[NameData.FILE].split("/")[-1],
+            fn_data[NameData.FILE],
             fn_data[NameData.LINE],
         )
         fn_hnode = self.name_to_hnode.get(u_fn_name)
-- 
2.43.0


From 873c670d21a1c3120f85ff521597abfd0af6c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 58/91] fix: default metric of SpotDB profiles depends on the
 hash seed

---
 hatchet/readers/spotdb_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 3913e1d..2aa0528 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -45,7 +45,7 @@ class SpotDatasetReader:
         self.metadata = metadata
         self.df_data = []
         self.roots = {}
-        self.metric_columns = set()
+        self.metric_columns = []
 
         self.timer = Timer()
 
@@ -77,7 +77,8 @@ class SpotDatasetReader:
                     metrics[colm] = int(v)
                 else:
                     metrics[colm] = v
-                self.metric_columns.add(colm)
+                if colm not in self.metric_columns:
+                    self.metric_columns.append(colm)
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
 
-- 
2.43.0


From 2e16495a418ef122e064058cd8f548db16c37c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 59/91] fix: SpotDB reader creates no row for regions without a
 record

---
 hatchet/readers/spotdb_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 2aa0528..fa8becd 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -53,6 +53,7 @@ class SpotDatasetReader:
         """Create the graph. Fills in df_data and metric_columns."""
 
         self.df_data.clear()
+        nodes_with_data = set()
 
         for pathstr, vals in self.regionprofile.items():
             # parse { "a/b/c": { "metric": val, ... }, ... } records
@@ -81,6 +82,13 @@ class SpotDatasetReader:
                     self.metric_columns.append(colm)
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
+            nodes_with_data.add(id(node))
+
+        # regions that only occur in the paths of others have no metrics
+        for root in self.roots.values():
+            for node in root.traverse():
+                if id(node) not in nodes_with_data:
+                    self.df_data.append({"name": node.frame["name"], "node": node})
 
     def read(self, default_metric="Total time (inc)"):
         """Create GraphFrame for the given Spot dataset."""
-- 
2.43.0


From 5ed30b905fc4ca07816d0bfd59cf920a454a0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 60/91] fix: timemory reader removes entries of the dictionary
 it is given

---
 hatchet/readers/timemory_reader.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ba69ced..dab9b87 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -82,14 +82,10 @@ class TimemoryReader:
         list_roots = []
 
         def remove_keys(_dict, _keys):
-            """Remove keys from dictionary"""
+            """Return the dictionary without some keys"""
             if isinstance(_keys, str):
-                if _keys in _dict:
-                    del _dict[_keys]
-            else:
-                for _key in _keys:
-                    _dict = remove_keys(_dict, _key)
-            return _dict
+                _keys = [_keys]
+            return {_key: _val for _key, _val in _dict.items() if _key not in _keys}
 
         def add_metrics(_dict):
             """Add any keys to metric_cols which don't already exist"""
-- 
2.43.0


From 8836635eff15ecb4c167597da5abbed325e2bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 61/91] fix: timemory reader fails on file streams

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index dab9b87..ee8a4c1 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -567,7 +567,7 @@ class TimemoryReader:
         if isinstance(self.input, dict):
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
-        elif os.path.isdir(self.input):
+        elif isinstance(self.input, str) and os.path.isdir(self.input):
             tree_files = glob.glob(self.input + "/*.tree.json")
             for file in tree_files:
                 # read all files that end with .tree.json.
-- 
2.43.0


From 905f78c61f3af8a03efc317300a5277ec0b18893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 62/91] fix: timemory reader fails on several threads without
 ranks

---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ee8a4c1..2cc40c6 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -517,7 +517,8 @@ class TimemoryReader:
             dataframe.drop(columns=["thread"], inplace=True)
             indices = ["node", "rank"]
         elif self.multiple_threads:
-            dataframe.drop(columns=["rank"], inplace=True)
+            # there is no rank if there is no distributed memory parallelism
+            dataframe.drop(columns=["rank"], inplace=True, errors="ignore")
             indices = ["node", "thread"]
         else:
             indices = ["node"]
-- 
2.43.0


From 0a3d1bd3563c4510c354b810ee45a87a87d4427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 63/91] fix: timemory reader fills missing ranks only if there
 is one thread

---
 hatchet/readers/timemory_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 2cc40c6..e802c38 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -533,7 +533,7 @@ class TimemoryReader:
         # of the multiindex.
         # TODO: iterrows() is not the best way to iterate over rows.
         if self.multiple_ranks or self.multiple_threads:
-            dataframe = dataframe.unstack()
+            dataframe = dataframe.unstack(indices[1:])
             for idx, row in dataframe.iterrows():
 
                 # There is always a valid name for an index.
@@ -555,7 +555,7 @@ class TimemoryReader:
                 dataframe.fillna(0, inplace=True)
 
             # Stack the dataframe
-            dataframe = dataframe.stack()
+            dataframe = dataframe.stack(indices[1:])
 
         return GraphFrame(
             graph, dataframe, exc_metrics, inc_metrics, self.default_metric
-- 
2.43.0


From 1baa79a46e0ba6c90b8bccbafe3e3fa33a5f2f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 64/91] fix: Timer.phase leaves the phase running if its block
 raises an exception

---
 hatchet/util/timer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/util/timer.py b/hatchet/util/timer.py
index 03960a3..d5669fc 100644
--- a/hatchet/util/timer.py
+++ b/hatchet/util/timer.py
@@ -52,5 +52,7 @@ class Timer(object):
     @contextmanager
     def phase(self, name):
         self.start_phase(name)
-        yield
-        self.end_phase()
+        try:
+            yield
+        finally:
+            self.end_phase()
-- 
2.43.0


From 216923729b23f8734023fb1d7621c098cf298bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 65/91] fix: Timer.start_phase overwrites the earlier time of
 the phase it ends

---
 hatchet/util/timer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hatchet/util/timer.py b/hatchet/util/timer.py
index d5669fc..6210185 100644
--- a/hatchet/util/timer.py
+++ b/hatchet/util/timer.py
@@ -23,7 +23,7 @@ class Timer(object):
 
         if self._phase:
             delta = now - self._start_time
-            self._times[self._phase] = delta
+            self._add_time(delta)
 
         self._phase = phase
         self._start_time = now
@@ -34,14 +34,17 @@ class Timer(object):
 
         now = datetime.now()
         delta = now - self._start_time
+        self._add_time(delta)
+
+        self._phase = None
+        self._start_time = None
+
+    def _add_time(self, delta):
         if self._times.get(self._phase):
             self._times[self._phase] = self._times.get(self._phase) + delta
         else:
             self._times[self._phase] = delta
 
-        self._phase = None
-        self._start_time = None
-
     def __str__(self):
         out = StringIO()
         out.write("Times:\n")
-- 
2.43.0


From 6ccc1fcee6e47430fdbe9885498e35efc2d639f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 66/91] fix: writing out the statistics of a running Profiler
 stops it

---
 hatchet/util/profiler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 22ce80d..9a23f54 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -75,12 +75,23 @@ class Profiler:
 
         self._prf = cProfile.Profile()
 
+    def _stats(self, stream=None):
+        """
+        Description: Returns the stats object. Creating it disables the
+        profiler, which is enabled again if it is running.
+        """
+        try:
+            return pstats.Stats(self._prf, stream=stream)
+        finally:
+            if self._active:
+                self._prf.enable()
+
     def __str__(self):
         """
         Description: Writes stats object out as a string.
         """
         s = StringIO()
-        pstats.Stats(self._prf, stream=s).print_stats()
+        self._stats(stream=s).print_stats()
         return s.getvalue()
 
     def write_to_file(self, filename="", add_pstats_files=[]):
@@ -88,7 +99,7 @@ class Profiler:
         Description: Write the pstats object to a binary
         file to be read in by an appropriate source.
         """
-        sts = pstats.Stats(self._prf)
+        sts = self._stats()
 
         if len(add_pstats_files) > 0:
             for stats_file in add_pstats_files:
-- 
2.43.0


From 8e1c9f04a5b4172b1b0e9f08effc234f4dcee801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 67/91] fix: Profiler overwrites a file it has written within
 the same second

---
 hatchet/util/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 9a23f54..ad30e24 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -118,7 +118,7 @@ class Profiler:
             else:
                 sts.dump_stats(self._output + ".pstats")
         else:
-            if os.path.exists(filename):
+            while os.path.exists(filename):
                 now = datetime.now().strftime("%H%M%S")
                 filename = "{}_{}.pstats".format(filename, now)
             sts.dump_stats(filename)
-- 
2.43.0


From 189922c91323d9ddf26851b904d14cd843e8f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 68/91] fix: subtree_sum and subgraph_sum write columns before
 rejecting their number

---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index c2fd41e..219cd1d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -670,14 +670,14 @@ class GraphFrame:
         """Helper function for subtree_sum and subgraph_sum."""
         if out_columns is None:
             out_columns = columns
-        else:
-            # init out columns with input columns in case they are not there.
-            for col, out in zip(columns, out_columns):
-                self.dataframe[out] = self.dataframe[col]
 
         if len(columns) != len(out_columns):
             raise ValueError("columns out_columns must be the same length!")
 
+        # init out columns with input columns in case they are not there.
+        for col, out in zip(columns, out_columns):
+            self.dataframe[out] = self.dataframe[col]
+
         return out_columns
 
     def subtree_sum(
-- 
2.43.0


From f87b35e465d4725f674b9a996bd34fcf742f7f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 69/91] fix: subtree_sum and subgraph_sum mix up columns if one
 is both read and written

---
 hatchet/graphframe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 219cd1d..28b380b 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -675,8 +675,10 @@ class GraphFrame:
             raise ValueError("columns out_columns must be the same length!")
 
         # init out columns with input columns in case they are not there.
-        for col, out in zip(columns, out_columns):
-            self.dataframe[out] = self.dataframe[col]
+        # A column can be both read and written.
+        values = [self.dataframe[col].copy() for col in columns]
+        for value, out in zip(values, out_columns):
+            self.dataframe[out] = value
 
         return out_columns
 
-- 
2.43.0


From 9652cbebebce9cb58a53dece2c9d0bfb721e4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 70/91] fix: keep the node order of a graph in its copies

---
 hatchet/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 6a443c8..fbc01b7 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -188,6 +188,8 @@ class Graph:
         # first pass creates new nodes
         for node in self.traverse():
             old_to_new[node] = node.copy()
+            # the ids are the order of the nodes if node_ordering is set
+            old_to_new[node]._hatchet_nid = node._hatchet_nid
 
         # second pass hooks up parents and children
         for old, new in old_to_new.items():
-- 
2.43.0


From 7771cab3cffb33032fce02eb7173fd0a6177777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 71/91] fix: the Caliper JSON reader names unlabeled nodes by
 what was read before

---
 hatchet/readers/caliper_reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index f136ac5..5e3a0e4 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -20,8 +20,6 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 from hatchet.util.executable import which
 
-unknown_label_counter = 0
-
 
 class CaliperReader:
     """Read in a Caliper file (`cali` or split JSON) or file-like object."""
@@ -146,7 +144,7 @@ class CaliperReader:
     def create_graph(self):
         list_roots = []
 
-        global unknown_label_counter
+        unknown_label_counter = 0
         order = -1
 
         # order of the nodes, if there is a node ordering (rows of the data
-- 
2.43.0


From 7dcc4f08e90dbd5469167a0cb3caabc7e0898adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 72/91] fix: string dialect: reject text in front of curly
 braces instead of ignoring it

---
 hatchet/query/string_dialect.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 78d64ed..50bb8ce 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1492,7 +1492,14 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
                 "Incompatible number of curly brace elements and compound operators"
             )
         # Get the MATCH clause that will be shared across the subqueries
-        match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
+        match_comp_obj = re.match(
+            r"MATCH\s+(?P<match_field>.*)\s+WHERE$",
+            query_str[: curly_brace_matches[0].start()].strip(),
+        )
+        if match_comp_obj is None:
+            raise ValueError(
+                "Invalid text before the first curly brace-delimited region"
+            )
         match_comp = match_comp_obj.group("match_field")
         # Set the initial query as a CypherQuery where the MATCH clause is the
         # shared match clause and the WHERE clause is the first curly
@@ -1527,6 +1534,10 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             raise ValueError(
                 "Incompatible number of curly brace elements and compound operators"
             )
+        if query_str[: curly_brace_matches[0].start()].strip() != "":
+            raise ValueError(
+                "Invalid text before the first curly brace-delimited region"
+            )
         # Set the initial query as the result of recursively calling this
         # function on the first curly brace-delimited region
         full_query = parse_string_dialect(query_list[0], multi_index_mode)
-- 
2.43.0


From 3f25d902e8782bd6beb019757a0ea48e49d5d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 73/91] fix: arithmetic with a graphframe without rows raises
 IndexError

---
 hatchet/cython_modules/graphframe_modules.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/cython_modules/graphframe_modules.pyx b/hatchet/cython_modules/graphframe_modules.pyx
index 54582de..503597c 100644
--- a/hatchet/cython_modules/graphframe_modules.pyx
+++ b/hatchet/cython_modules/graphframe_modules.pyx
@@ -45,7 +45,7 @@ cpdef fast_not_isin(const unsigned long long[:,:] arr1, const unsigned long long
             else:
                 result[arr1[i][1]] = False
 
-    prior = arr1[i][0]
+        prior = arr1[i][0]
 
     return result
 
-- 
2.43.0


From c1093c799cd1449b9ebb8ff3608dc91b5441315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 74/91] Revert "fix: nodes have no depth if a reader already
 numbered them in traversal order"

This reverts commit 51e8c9595e249ae359fb1aa20a979f12ddb92eb5.
---
 hatchet/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index fbc01b7..2d2d46e 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -313,8 +313,7 @@ class Graph:
                 for i, node in enumerate(self.traverse()):
                     node._hatchet_nid = i
 
-        # ids that are right already (e.g., set by a reader) don't imply depths
-        self.enumerate_depth()
+            self.enumerate_depth()
 
     def _check_enumerate_traverse(self):
         # if "node order" column exists, we traverse sorting by _hatchet_nid
-- 
2.43.0


From 7a69da9bd49ac6a76b2e9305f4946727b13ecb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 75/91] fix: Roundtrip: data with backslashes, line breaks or
 quotes is altered or lost on its way to JavaScript

---
 hatchet/external/roundtrip/roundtrip/manager.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 1b37973..bac9d52 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -345,7 +345,7 @@ class RoundTrip:
         update_flags = {}
         update_hook = """\n (function(){{
                                 window.Roundtrip[\'{js_var}\'] = {{
-                                    \'data\': \'{data}\',
+                                    \'data\': {data},
                                     \'python_var\': \'{var}\',
                                     \'origin\': \'PYASSIGN\'
                                 }};
@@ -372,7 +372,9 @@ class RoundTrip:
         for flag in update_flags:
             new_data = self.watched[flag]["converter"](self.shell.user_ns[flag])
             for var in self.watched[flag]["js_var"]:
-                code += update_hook.format(js_var=var, data=new_data, var=flag)
+                code += update_hook.format(
+                    js_var=var, data=json.dumps(new_data), var=flag
+                )
         if code != "":
             display(Javascript(code))
 
@@ -460,7 +462,7 @@ class Bridge:
                 \'two_way\': {binding},
                 \'python_var\':\'{py_var}\',
                 \'type\':\'{type}\',
-                \'data\':\'{data}\',
+                \'data\':{data},
                 \'converter\':{converter},
             }};
         }})();\n"""
@@ -481,9 +483,6 @@ class Bridge:
         except Exception:
             pass
 
-        # Patch: Ensure all ' and " are escaped
-        data = data.replace('"', '\\"').replace("'", "\\'")
-
         conv_spec = None
 
         if js_to_py_converter is not None:
@@ -498,7 +497,7 @@ class Bridge:
                 binding=two_way,
                 py_var=python_var,
                 type=datatype,
-                data=data,
+                data=json.dumps(data),
                 converter=json.dumps(conv_spec),
             )
         )
-- 
2.43.0


From 504da99fa58a4ad8dbb58087a06486aff121b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 76/91] fix: Roundtrip: fetch_data fails for converters that
 are not defined at the top level

---
 hatchet/external/roundtrip/roundtrip/manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index bac9d52..6581dfe 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -8,6 +8,7 @@ import json
 import inspect
 import os
 import sys
+import textwrap
 
 
 def _default_converter(data):
@@ -527,7 +528,9 @@ class Bridge:
         hook = hook_template.format(
             src=str(js_variable),
             dest=str(notebook_var),
-            converter_code=json.dumps(inspect.getsource(converter)),
+            converter_code=json.dumps(
+                textwrap.dedent(inspect.getsource(converter))
+            ),
             converter_name=converter.__name__,
         )
 
-- 
2.43.0


From 5f783560a387ffeed56d4a2079fa528a74c4a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 77/91] fix: Roundtrip: a second visualization loaded with
 load_web_files draws in the cell of the first

---
 hatchet/external/roundtrip/roundtrip/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 6581dfe..e385c05 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -211,6 +211,9 @@ class RoundTrip:
                 output_html += self._file_formatter(file)
 
         bdg = Bridge(output_html, scripts, self.shell, self.istest)
+
+        self.scrid += 1
+
         self.bridges[bdg.id] = bdg
         self.last_id = bdg.id
 
-- 
2.43.0


From 28defa890e59b0d77d5c7c22d045db2d0db4ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 78/91] fix: %cct fails for graphframes with integer metrics

---
 hatchet/vis/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/vis/loader.py b/hatchet/vis/loader.py
index 902dce8..c86eec1 100644
--- a/hatchet/vis/loader.py
+++ b/hatchet/vis/loader.py
@@ -15,11 +15,14 @@ vis_dir = dirname(path.abspath(__file__))
 
 def _gf_to_json(data):
     import json
+    import numpy as np
     from pandas import Series
 
     def serialize(obj):
         if isinstance(obj, Series):
             return obj.to_json
+        if isinstance(obj, np.generic):
+            return obj.item()
         return obj.__dict__
 
     try:
-- 
2.43.0


From b9c268af6235e167811bad06dc5b82f7784391a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 79/91] fix: tree() fails for temporal pattern columns if
 colormap_annotations is a list or a dictionary

---
 hatchet/external/console.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 3019a96..4a77ea8 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -230,11 +230,11 @@ class ConsoleRenderer:
                     if "none" not in k:
                         legend += "   " + self.temporal_symbols[k] + " " + k
                 legend += "\nTemporal Score  "
-                if self.colormap_annotations:
+                if self.colormap_annotations and not isinstance(
+                    self.colormap_annotations, dict
+                ):
                     legend_color_mapping = sorted(score_ranges)
-                    legend_colormap = ColorMaps().get_colors(
-                        self.colormap_annotations, False
-                    )
+                    legend_colormap = self.colors_annotations.colormap
                     for i in range(len(score_ranges) - 1):
                         color = legend_colormap[
                             legend_color_mapping.index(score_ranges[i + 1])
@@ -305,10 +305,17 @@ class ConsoleRenderer:
                         )
                         coloring_content = pattern_metric
                         if coloring_content != "none":
-                            color_annotation = self.colors_annotations.colormap[
-                                self.colors_annotations_mapping.index(coloring_content)
-                                % len(self.colors_annotations.colormap)
-                            ]
+                            if isinstance(self.colormap_annotations, dict):
+                                color_annotation = self.colormap_annotations[
+                                    coloring_content
+                                ]
+                            else:
+                                color_annotation = self.colors_annotations.colormap[
+                                    self.colors_annotations_mapping.index(
+                                        coloring_content
+                                    )
+                                    % len(self.colors_annotations.colormap)
+                                ]
                             metric_str += " {}".format(color_annotation)
                             metric_str += "{}".format(annotation_content)
                             metric_str += "{}".format(self.colors_annotations.end)
-- 
2.43.0


From 679aed523d1ee5b9852b004b0f70188a9c90236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 80/91] fix: string dialect: values that contain quotes or line
 breaks cannot be queried

---
 hatchet/query/string_dialect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 50bb8ce..dae4471 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -445,6 +445,8 @@ class StringQuery(Query):
         """Function that redirects processing of string predicates
         to the correct function.
         """
+        # the value becomes part of a string in double quotes
+        obj.val = obj.val.replace('"', '\\"').replace("\n", "\\n")
         if cname(obj) == "StringEq":
             return self._run_method_based_on_multi_idx_mode("_parse_str_eq", obj)
         if cname(obj) == "StringStartsWith":
-- 
2.43.0


From 569ea3e8036ef26bf49f7b56030850d527d9f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 81/91] fix: Frame kept, and modified, the dictionary it was
 made from

---
 hatchet/frame.py                   |  2 +-
 hatchet/readers/timemory_reader.py | 29 +++++++++++++++--------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/hatchet/frame.py b/hatchet/frame.py
index b090a96..02acf8e 100644
--- a/hatchet/frame.py
+++ b/hatchet/frame.py
@@ -33,7 +33,7 @@ class Frame:
 
         """
         # attributes dictionary
-        self.attrs = attrs if attrs else {}
+        self.attrs = dict(attrs) if attrs else {}
 
         # add keyword arguments, if any.
         if kwargs:
diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index e802c38..67e9713 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -272,19 +272,6 @@ class TimemoryReader:
 
             callpath = _parent_callpath + (_frame_attrs["name"],)
 
-            # check if the node already exits.
-            _hnode = self.callpath_to_node.get(callpath)
-            if _hnode is None:
-                # connect with the parent during node creation.
-                _hnode = Node(Frame(_frame_attrs), _hparent)
-                self.callpath_to_node[callpath] = _hnode
-                if _hparent is None:
-                    # if parent is none, this is a root node.
-                    list_roots.append(_hnode)
-                else:
-                    # if parent is not none, add as a child.
-                    _hparent.add_child(_hnode)
-
             # by placing the thread-id or rank-id in _frame_attrs, the hash
             # for the Frame(_keys) effectively circumvent Hatchet's
             # default behavior of combining similar thread/rank entries
@@ -297,10 +284,24 @@ class TimemoryReader:
                 del _rank_dict["rank"]
                 self.include_nid = False
 
-            # extract some relevant data
             _tid_dict["thread"] = collapse_ids(
                 _node_data["node"]["tid"], self.per_thread
             )
+
+            # check if the node already exits.
+            _hnode = self.callpath_to_node.get(callpath)
+            if _hnode is None:
+                # connect with the parent during node creation.
+                _hnode = Node(Frame(_frame_attrs), _hparent)
+                self.callpath_to_node[callpath] = _hnode
+                if _hparent is None:
+                    # if parent is none, this is a root node.
+                    list_roots.append(_hnode)
+                else:
+                    # if parent is not none, add as a child.
+                    _hparent.add_child(_hnode)
+
+            # extract some relevant data
             _extra["pid"] = collapse_ids(_node_data["node"]["pid"], False)
             _extra["count"] = _node_data["node"]["inclusive"]["entry"]["laps"]
 
-- 
2.43.0


From 48583b92b2261897e337bf9928e887224f93a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 82/91] fix: to_literal and to_dict returned the dictionaries
 and lists of the graphframe itself

---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 28b380b..8d5cec7 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1225,7 +1225,7 @@ class GraphFrame:
                 node_name = node_name[0]
 
             node_dict["name"] = node_name
-            node_dict["frame"] = hnode.frame.attrs
+            node_dict["frame"] = dict(hnode.frame.attrs)
             node_dict["metrics"] = metrics_to_dict(df_index)
             # node_dict["metrics"]["_hatchet_nid"] = int(self.dataframe["nid"][df_index])
             node_dict["metrics"]["_hatchet_nid"] = int(hnode._hatchet_nid)
@@ -1256,7 +1256,7 @@ class GraphFrame:
             formatted_graph_dict = {}
             for n in root.traverse():
                 formatted_graph_dict[n._hatchet_nid] = {
-                    "data": n.frame.attrs,
+                    "data": dict(n.frame.attrs),
                     "children": [c._hatchet_nid for c in n.children],
                 }
             graphs.append(formatted_graph_dict)
@@ -1268,8 +1268,8 @@ class GraphFrame:
         ef["node"] = ef["node"].apply(lambda n: n._hatchet_nid)
         hatchet_dict["dataframe"] = ef.replace({np.nan: None}).to_dict("records")
 
-        hatchet_dict["inclusive_metrics"] = self.inc_metrics
-        hatchet_dict["exclusive_metrics"] = self.exc_metrics
+        hatchet_dict["inclusive_metrics"] = list(self.inc_metrics)
+        hatchet_dict["exclusive_metrics"] = list(self.exc_metrics)
 
         return hatchet_dict
 
-- 
2.43.0


From 9c0ad52a2e5c25d0eef0c3d01d7506cb54268d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 83/91] fix: from_lists failed with TypeError, IndexError or
 UnboundLocalError for invalid arguments

---
 hatchet/graph.py | 2 +-
 hatchet/node.py  | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 2d2d46e..1053822 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -370,7 +370,7 @@ class Graph:
         """Convenience method to invoke Node.from_lists() on each root value."""
         if not all(isinstance(r, (list, tuple)) for r in roots):
             raise ValueError(
-                "All arguments to Graph.from_lists() must be lists: %s" % roots
+                "All arguments to Graph.from_lists() must be lists: %s" % (roots,)
             )
 
         graph = Graph([Node.from_lists(r) for r in roots])
diff --git a/hatchet/node.py b/hatchet/node.py
index dc75eb1..a5854a4 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -269,10 +269,14 @@ In the above examples, the 'a' represents a Node with its
 
         def _from_lists(lists, parent):
             if isinstance(lists, (tuple, list)):
-                if isinstance(lists[0], Node):
+                if lists and isinstance(lists[0], Node):
                     node = lists[0]
-                elif isinstance(lists[0], str):
+                elif lists and isinstance(lists[0], str):
                     node = Node(Frame(name=lists[0]))
+                else:
+                    raise ValueError(
+                        "First element of a list must be str or Node: %s" % (lists,)
+                    )
                 children = lists[1:]
                 for val in children:
                     _ = _from_lists(val, node)
-- 
2.43.0


From 327a50bc4d9244d971971426b0986ee7b3ff776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 84/91] fix: to_dot wrote names with quotes or backslashes
 unescaped

---
 hatchet/util/dot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/util/dot.py b/hatchet/util/dot.py
index 84cd62a..4127d2d 100644
--- a/hatchet/util/dot.py
+++ b/hatchet/util/dot.py
@@ -60,8 +60,9 @@ def to_dot(hnode, dataframe, metric, name, rank, thread, threshold, visited):
 
         # only display nodes whose metric is greater than some threshold
         if (node_time >= threshold * max_time) and (hnode not in visited):
+            label = str(node_name).replace("\\", "\\\\").replace('"', '\\"')
             node_string = '"{0}" [color="{1}", label="{2}" shape=oval];\n'.format(
-                node_id, color, node_name
+                node_id, color, label
             )
             edge_string = ""
 
-- 
2.43.0


From 64b330adcaf4cf9e8f12ea742fbe9061b4d53d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 85/91] fix: timemory ids are strings, and one thread counts as
 several, with per_thread or per_rank

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 67e9713..dcb92e6 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -243,7 +243,7 @@ class TimemoryReader:
                         )
                     return ",".join([f"{x}" for x in _obj]).strip(",")
             elif _obj is not None:
-                return f"{_obj}" if _expect_scalar else int(_obj)
+                return int(_obj)
             return None
 
         def parse_node(_metric_name, _node_data, _hparent, _rank, _parent_callpath):
-- 
2.43.0


From 1b3e8568e61cd39bc2dddc1ff5d09c3031319f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 86/91] fix: name the trees of the CCT viewer in the order in
 which they are shown

---
 hatchet/vis/scripts/cct/cct_repr.js | 4 +---
 hatchet/vis/static/cct_bundle.js    | 8 +-------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_repr.js b/hatchet/vis/scripts/cct/cct_repr.js
index fdf8248..375c31e 100644
--- a/hatchet/vis/scripts/cct/cct_repr.js
+++ b/hatchet/vis/scripts/cct/cct_repr.js
@@ -141,8 +141,6 @@ class Forest{
             this.mutableTrees[t] = pt;   
         }
 
-        this.prePrunedTrees.sort((a,b) => b.size - a.size);
-        this.mutableTrees.sort((a,b) => b.size - a.size);
     }
 
 
@@ -172,7 +170,7 @@ class Forest{
 
         //setup repository of metrics across trees and forest
         for (var index = 0; index < this.numberOfTrees; index++) {
-            var thisTree = forestData[index];
+            var thisTree = this.immutableTrees[index].data;
             let mc = this.metricColumns;
 
             // Get tree names for the display select options
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 912ac50..36a8fcf 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -17330,12 +17330,6 @@ var Forest = /*#__PURE__*/function () {
         this.mutableTrees[t] = pt;
       }
 
-      this.prePrunedTrees.sort(function (a, b) {
-        return b.size - a.size;
-      });
-      this.mutableTrees.sort(function (a, b) {
-        return b.size - a.size;
-      });
     }
   }, {
     key: "organizeMetrics",
@@ -17366,7 +17360,7 @@ var Forest = /*#__PURE__*/function () {
 
 
       var _loop = function _loop() {
-        thisTree = forestData[index];
+        thisTree = _this.immutableTrees[index].data;
         var mc = _this.metricColumns; // Get tree names for the display select options
 
         _this.rootNodeNames.push(thisTree.frame.name);
-- 
2.43.0


From 54f8f3c9a8f7080954bed46443c6052d265a3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 87/91] fix: the aggregates of a collapsed subtree of the CCT
 viewer include what was collapsed in it

---
 hatchet/vis/scripts/cct/cct_repr.js | 2 +-
 hatchet/vis/static/cct_bundle.js    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_repr.js b/hatchet/vis/scripts/cct/cct_repr.js
index 375c31e..709e0ee 100644
--- a/hatchet/vis/scripts/cct/cct_repr.js
+++ b/hatchet/vis/scripts/cct/cct_repr.js
@@ -255,7 +255,7 @@ class Forest{
                         }
                         else{
                             h.sum(d=>{
-                                    return d.metrics[metric];
+                                    return d.aggregate ? d.aggregateMetrics[metric] * d.elided.length : d.metrics[metric];
                             });
                         }
                         agg[metric] = h.value;
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 36a8fcf..9de41ea 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -17460,7 +17460,7 @@ var Forest = /*#__PURE__*/function () {
                   };
                 } else {
                   h.sum(function (d) {
-                    return d.metrics[metric];
+                    return d.aggregate ? d.aggregateMetrics[metric] * d.elided.length : d.metrics[metric];
                   });
                 }
 
-- 
2.43.0


From 61c86c3057dfb669b8da3da7751f8937c653ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 88/91] fix: the snapshot query of the CCT viewer does not
 exclude nodes that pruning shows again

---
 hatchet/vis/scripts/cct/cct_model.js | 3 +++
 hatchet/vis/static/cct_bundle.js     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/hatchet/vis/scripts/cct/cct_model.js b/hatchet/vis/scripts/cct/cct_model.js
index 51518b3..e8daa68 100644
--- a/hatchet/vis/scripts/cct/cct_model.js
+++ b/hatchet/vis/scripts/cct/cct_model.js
@@ -339,6 +339,7 @@ class Model{
          */
         this.data.currentStrictness = threshold;
         this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
+        this.data.removedNodes = [];
         this.state.hierarchyUpdated = true;
 
         this._observers.notify();
@@ -561,6 +562,7 @@ class Model{
         if(source.includes("primary")){
             if(this.state.pruneEnabled){
                 this.forest.resetMutable();
+                this.data.removedNodes = [];
                 this.state.hierarchyUpdated = true;
             }
 
@@ -629,6 +631,7 @@ class Model{
 
         this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
 
+        this.data.removedNodes = [];
         this.state.hierarchyUpdated = true;
         
         this._observers.notify();
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 9de41ea..517ad4b 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -22394,6 +22394,7 @@ var Model = /*#__PURE__*/function () {
        */
       this.data.currentStrictness = threshold;
       this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
+      this.data.removedNodes = [];
       this.state.hierarchyUpdated = true;
 
       this._observers.notify();
@@ -22662,6 +22663,7 @@ var Model = /*#__PURE__*/function () {
       if (source.includes("primary")) {
         if (this.state.pruneEnabled) {
           this.forest.resetMutable();
+          this.data.removedNodes = [];
           this.state.hierarchyUpdated = true;
         }
 
@@ -22732,6 +22734,7 @@ var Model = /*#__PURE__*/function () {
         });
       });
       this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
+      this.data.removedNodes = [];
       this.state.hierarchyUpdated = true;
 
       this._observers.notify();
-- 
2.43.0


From cd5d0b8f8d1ccb1c09cfb992e7b536945dd1ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 89/91] fix: collapsed nodes of the CCT viewer expand below the
 node that they are displayed at

---
 hatchet/vis/scripts/cct/cct_model.js | 12 +++++++++---
 hatchet/vis/static/cct_bundle.js     | 16 ++++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_model.js b/hatchet/vis/scripts/cct/cct_model.js
index e8daa68..83e168e 100644
--- a/hatchet/vis/scripts/cct/cct_model.js
+++ b/hatchet/vis/scripts/cct/cct_model.js
@@ -400,13 +400,19 @@ class Model{
             else{
                 for(let elided of d.data.elided){
                     delete elided.data.aggregateMetrics;
-                    let delIndex = d.parent._children.indexOf(elided);
-                    d.parent._children.splice(delIndex, 1);
-
                     d.parent.children.push(elided);
                 }
                 d.parent.children = d.parent.children.filter(child => child !== d);
             }
+
+            // The parent may be another than when the nodes were elided,
+            // if that was composed since
+            for(let elided of d.data.elided){
+                elided.parent = d.parent;
+                elided.each(n=>{
+                    n.depth = n.parent.depth+1;
+                });
+            }
         }
 
         this.state["lastClicked"] = d;
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 517ad4b..71e69a3 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -22459,11 +22459,6 @@ var Model = /*#__PURE__*/function () {
             for (_iterator3.s(); !(_step3 = _iterator3.n()).done;) {
               var elided = _step3.value;
               delete elided.data.aggregateMetrics;
-
-              var delIndex = d.parent._children.indexOf(elided);
-
-              d.parent._children.splice(delIndex, 1);
-
               d.parent.children.push(elided);
             }
           } catch (err) {
@@ -22475,7 +22470,16 @@ var Model = /*#__PURE__*/function () {
           d.parent.children = d.parent.children.filter(function (child) {
             return child !== d;
           });
-        }
+        } // The parent may be another than when the nodes were elided,
+        // if that was composed since
+
+
+        d.data.elided.forEach(function (elided) {
+          elided.parent = d.parent;
+          elided.each(function (n) {
+            n.depth = n.parent.depth + 1;
+          });
+        });
       }
 
       this.state["lastClicked"] = d;
-- 
2.43.0


From 2a7339b6aff97ea51f44c1057f409194edab1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 90/91] fix: mass pruning in the CCT viewer starts from the
 initial trees again, whatever was collapsed

---
 hatchet/vis/scripts/cct/cct_repr.js | 56 +++++--------------------
 hatchet/vis/static/cct_bundle.js    | 63 +++++------------------------
 2 files changed, 21 insertions(+), 98 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_repr.js b/hatchet/vis/scripts/cct/cct_repr.js
index 709e0ee..42db10e 100644
--- a/hatchet/vis/scripts/cct/cct_repr.js
+++ b/hatchet/vis/scripts/cct/cct_repr.js
@@ -14,7 +14,7 @@ class Forest{
     constructor(cct_forest_def){
         //initialize forest containers
         this.immutableTrees = [];
-        this.prePrunedTrees = [];
+        this.prePruneMetric = null;
         this.mutableTrees = [];
 
         //initialize forest descriptors
@@ -120,27 +120,8 @@ class Forest{
          *  to ensure that intially drawn trees are not overly cluttered
          *  with irrelevant noisy data.
          */
-        let newTrees = this.getFreshTrees();
-
-        for(let t in newTrees){
-            let pt = this.pruneTree(newTrees[t], primaryMetric, (h, primaryMetric)=>{
-                h.each(function(node){
-                    var metric = node.data.metrics[primaryMetric];
-                    if(metric != 0){
-                        node.data.show = 1;
-                    }
-                    else{
-                        node.data.show = 0;
-                    }
-                })
-            });
-
-            pt.size = pt.descendants().length;
-
-            this.prePrunedTrees.push(pt);
-            this.mutableTrees[t] = pt;   
-        }
-
+        this.prePruneMetric = primaryMetric;
+        this.mutableTrees = this.getPrePrunedTrees();
     }
 
 
@@ -509,30 +490,13 @@ class Forest{
          * Function which yeilds a new set of pre-pruned trees
          * to the the calling function
          */
-        let mutableTrees = [];
-
-
-        for(let tree of this.prePrunedTrees){
-            /**
-             * We lose elided and dummy here when we copy.
-             */
-            let t = tree.copy();
-            t.size = t.descendants().length;
-
-            let t_nodes = t.descendants();
-            let tree_nodes = tree.descendants();
-            for(let i in tree_nodes){
-                if(tree_nodes[i].aggregate){
-                    t_nodes[i].aggregate = true;
-                    t_nodes[i].elided = tree_nodes[i].elided;
-                }
-                
-            }
-
-            mutableTrees.push(t);
-        }
-
-        return mutableTrees;
+        return this.getFreshTrees().map((tree)=>{
+            return this.pruneTree(tree, this.prePruneMetric, (h, primaryMetric)=>{
+                h.each(function(node){
+                    node.data.show = node.data.metrics[primaryMetric] != 0 ? 1 : 0;
+                })
+            });
+        });
     }
 
     getFreshTrees(){
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 71e69a3..69973c0 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -17184,7 +17184,7 @@ var Forest = /*#__PURE__*/function () {
 
     //initialize forest containers
     this.immutableTrees = [];
-    this.prePrunedTrees = [];
+    this.prePruneMetric = null;
     this.mutableTrees = []; //initialize forest descriptors
 
     this.numberOfTrees = cct_forest_def.length;
@@ -17311,25 +17311,8 @@ var Forest = /*#__PURE__*/function () {
        *  to ensure that intially drawn trees are not overly cluttered
        *  with irrelevant noisy data.
        */
-      var newTrees = this.getFreshTrees();
-
-      for (var t in newTrees) {
-        var pt = this.pruneTree(newTrees[t], primaryMetric, function (h, primaryMetric) {
-          h.each(function (node) {
-            var metric = node.data.metrics[primaryMetric];
-
-            if (metric != 0) {
-              node.data.show = 1;
-            } else {
-              node.data.show = 0;
-            }
-          });
-        });
-        pt.size = pt.descendants().length;
-        this.prePrunedTrees.push(pt);
-        this.mutableTrees[t] = pt;
-      }
-
+      this.prePruneMetric = primaryMetric;
+      this.mutableTrees = this.getPrePrunedTrees();
     }
   }, {
     key: "organizeMetrics",
@@ -17785,39 +17768,15 @@ var Forest = /*#__PURE__*/function () {
        * Function which yeilds a new set of pre-pruned trees
        * to the the calling function
        */
-      var mutableTrees = [];
-
-      var _iterator10 = _createForOfIteratorHelper(this.prePrunedTrees),
-          _step10;
-
-      try {
-        for (_iterator10.s(); !(_step10 = _iterator10.n()).done;) {
-          var tree = _step10.value;
-
-          /**
-           * We lose elided and dummy here when we copy.
-           */
-          var t = tree.copy();
-          t.size = t.descendants().length;
-          var t_nodes = t.descendants();
-          var tree_nodes = tree.descendants();
-
-          for (var i in tree_nodes) {
-            if (tree_nodes[i].aggregate) {
-              t_nodes[i].aggregate = true;
-              t_nodes[i].elided = tree_nodes[i].elided;
-            }
-          }
-
-          mutableTrees.push(t);
-        }
-      } catch (err) {
-        _iterator10.e(err);
-      } finally {
-        _iterator10.f();
-      }
+      var _this2 = this;
 
-      return mutableTrees;
+      return this.getFreshTrees().map(function (tree) {
+        return _this2.pruneTree(tree, _this2.prePruneMetric, function (h, primaryMetric) {
+          h.each(function (node) {
+            node.data.show = node.data.metrics[primaryMetric] != 0 ? 1 : 0;
+          });
+        });
+      });
     }
   }, {
     key: "getFreshTrees",
-- 
2.43.0


From cfad5a0fe973baa90729fe7788ad228229e51309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 91/91] fix: the CCT viewer shows more than six trees

---
 hatchet/vis/scripts/cct/cct_color_manager.js | 4 ++--
 hatchet/vis/static/cct_bundle.js             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_color_manager.js b/hatchet/vis/scripts/cct/cct_color_manager.js
index 0ee825b..09ac7ce 100644
--- a/hatchet/vis/scripts/cct/cct_color_manager.js
+++ b/hatchet/vis/scripts/cct/cct_color_manager.js
@@ -54,7 +54,7 @@ class ColorManager{
 
         this.single_color_scale = d3.scaleQuantize()
                                     .domain([this._forestStats[this.treeIndex][this._state.primaryMetric].min, this._forestStats[this.treeIndex][this._state.primaryMetric].max])
-                                    .range(this._regularColors[this._state.colorScheme][this.treeIndex]);
+                                    .range(this._regularColors[this._state.colorScheme][this.treeIndex % this._regularColors[this._state.colorScheme].length]);
 
         this.agg_color_scale = d3.scaleQuantize()
                                 .domain([this._aggregateMinMax[this._state.primaryMetric].min, this._aggregateMinMax[this._state.primaryMetric].max])
@@ -81,7 +81,7 @@ class ColorManager{
         }
         if(this._state.colorScheme != this.cachedColorScheme){
             this.universal_color_scale.range(this._allTreesColors[this._state.colorScheme]);
-            this.single_color_scale.range(this._regularColors[this._state.colorScheme][this.treeIndex]);
+            this.single_color_scale.range(this._regularColors[this._state.colorScheme][this.treeIndex % this._regularColors[this._state.colorScheme].length]);
             this.agg_color_scale.range(this._allTreesColors[this._state.colorScheme]);
             this.cachedColorScheme = this._state.primaryMetric;
         }
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 69973c0..47fbed9 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -23375,7 +23375,7 @@ var ColorManager = /*#__PURE__*/function () {
     this.cachedPrimaryMetric = this._state.primaryMetric;
     this.cachedColorScheme = this._state.colorScheme;
     this.universal_color_scale = build_d3.scaleQuantize().domain([this._forestMinMax[this._state.primaryMetric].min, this._forestMinMax[this._state.primaryMetric].max]).range(this._allTreesColors[this._state.colorScheme]);
-    this.single_color_scale = build_d3.scaleQuantize().domain([this._forestStats[this.treeIndex][this._state.primaryMetric].min, this._forestStats[this.treeIndex][this._state.primaryMetric].max]).range(this._regularColors[this._state.colorScheme][this.treeIndex]);
+    this.single_color_scale = build_d3.scaleQuantize().domain([this._forestStats[this.treeIndex][this._state.primaryMetric].min, this._forestStats[this.treeIndex][this._state.primaryMetric].max]).range(this._regularColors[this._state.colorScheme][this.treeIndex % this._regularColors[this._state.colorScheme].length]);
     this.agg_color_scale = build_d3.scaleQuantize().domain([this._aggregateMinMax[this._state.primaryMetric].min, this._aggregateMinMax[this._state.primaryMetric].max]).range(this._allTreesColors[this._state.colorScheme]);
   }
 
@@ -23399,7 +23399,7 @@ var ColorManager = /*#__PURE__*/function () {
 
       if (this._state.colorScheme != this.cachedColorScheme) {
         this.universal_color_scale.range(this._allTreesColors[this._state.colorScheme]);
-        this.single_color_scale.range(this._regularColors[this._state.colorScheme][this.treeIndex]);
+        this.single_color_scale.range(this._regularColors[this._state.colorScheme][this.treeIndex % this._regularColors[this._state.colorScheme].length]);
         this.agg_color_scale.range(this._allTreesColors[this._state.colorScheme]);
         this.cachedColorScheme = this._state.primaryMetric;
       }
-- 
2.43.0

