From 05605bf13e05ee2e55ffba428d35b9e889db3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 01/84] fix: arithmetic on graphframes sharing a graph no
 longer changes the operands

---
 hatchet/graphframe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..01a9b96 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1245,7 +1245,12 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        result = op(other.dataframe[all_metrics])
+
+        # self's dataframe may share its data with another graphframe (e.g., the
+        # one it is a shallow copy of), so don't update that data in place
+        self.dataframe = self.dataframe.copy()
+        self.dataframe.update(result)
 
         return self
 
-- 
2.43.0


From f52a7699e89596103fb19bf92c5a84fc9de040e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 02/84] fix: literal reader keeps _hatchet_nid out of the
 metrics and resolves shared nodes by id

---
 hatchet/readers/literal_reader.py | 51 ++++++++++++-------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..4d16b65 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -67,7 +67,7 @@ class LiteralReader:
         self.graph_dict = graph_dict
 
     def parse_node_literal(
-        self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
+        self, nid_to_node_dict, node_dicts, child_dict, hparent
     ):
         """Create node_dict for one node and then call the function
         recursively on all children.
@@ -76,74 +76,63 @@ class LiteralReader:
         # pull out _hatchet_nid if it exists
         # so it will not be inserted into
         # dataframe like a normal metric
-        hnid = -1
-        if "_hatchet_nid" in child_dict["metrics"]:
-            hnid = child_dict["metrics"]["_hatchet_nid"]
+        metrics = dict(child_dict["metrics"])
+        hnid = metrics.pop("_hatchet_nid", -1)
 
-        frame = Frame(child_dict["frame"])
-        if hnid not in seen_nids:
-            hnode = Node(frame, hparent, hnid=hnid)
+        if hnid not in nid_to_node_dict:
+            hnode = Node(Frame(child_dict["frame"]), hparent, hnid=hnid)
 
             # depending on the node type, the name may not be in the frame
             node_name = child_dict["frame"].get("name")
             if not node_name:
                 node_name = child_dict["name"]
 
-            node_dict = dict(
-                {"node": hnode, "name": node_name}, **child_dict["metrics"]
-            )
+            node_dict = dict({"node": hnode, "name": node_name}, **metrics)
 
             node_dicts.append(node_dict)
-            frame_to_node_dict[frame] = hnode
 
             if hnid != -1:
-                seen_nids.append(hnid)
+                nid_to_node_dict[hnid] = hnode
 
         else:
-            hnode = frame_to_node_dict.get(frame)
+            # this entry denotes a node that was already created
+            hnode = nid_to_node_dict[hnid]
+            hnode.add_parent(hparent)
 
         hparent.add_child(hnode)
 
         if "children" in child_dict:
             for child in child_dict["children"]:
-                self.parse_node_literal(
-                    frame_to_node_dict, node_dicts, child, hnode, seen_nids
-                )
+                self.parse_node_literal(nid_to_node_dict, node_dicts, child, hnode)
 
     def read(self):
         list_roots = []
         node_dicts = []
-        frame_to_node_dict = {}
-        frame = None
-        seen_nids = []
-        hnid = -1
+        nid_to_node_dict = {}
 
         # start with creating a node_dict for each root
         for i in range(len(self.graph_dict)):
-            if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
-                hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
-                seen_nids.append(hnid)
-            frame = Frame(self.graph_dict[i]["frame"])
-            graph_root = Node(frame, None, hnid=hnid)
+            metrics = dict(self.graph_dict[i]["metrics"])
+            hnid = metrics.pop("_hatchet_nid", -1)
+            graph_root = Node(Frame(self.graph_dict[i]["frame"]), None, hnid=hnid)
+            if hnid != -1:
+                nid_to_node_dict[hnid] = graph_root
 
             # depending on the node type, the name may not be in the frame
             node_name = self.graph_dict[i]["frame"].get("name")
             if not node_name:
                 node_name = self.graph_dict[i]["name"]
 
-            node_dict = dict(
-                {"node": graph_root, "name": node_name}, **self.graph_dict[i]["metrics"]
-            )
+            node_dict = dict({"node": graph_root, "name": node_name}, **metrics)
             node_dicts.append(node_dict)
 
             list_roots.append(graph_root)
-            frame_to_node_dict[frame] = graph_root
 
             # call recursively on all children of root
             if "children" in self.graph_dict[i]:
                 for child in self.graph_dict[i]["children"]:
                     self.parse_node_literal(
-                        frame_to_node_dict, node_dicts, child, graph_root, seen_nids
+                        nid_to_node_dict, node_dicts, child, graph_root
                     )
 
         graph = Graph(list_roots)
@@ -156,7 +145,7 @@ class LiteralReader:
 
         exc_metrics = []
         inc_metrics = []
-        for key in self.graph_dict[i]["metrics"].keys():
+        for key in metrics.keys():
             if "(inc)" in key:
                 inc_metrics.append(key)
             else:
-- 
2.43.0


From 6903ae05617f806b790f44b2e8f5dd0b6af41062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 03/84] fix: from_json restores node depths and nodes shared
 between roots

---
 hatchet/readers/json_reader.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..89ee44e 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -29,30 +29,31 @@ class JsonReader:
 
     def read(self):
         roots = []
+        nodes = {}  # node id -> node
         for graph_spec in self.spec_dict["graph"]:
-            # turn frames into nodes
-            for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
+            # turn frames into nodes; a node that can be reached from several
+            # roots is listed once for each of these roots
+            new_nids = [nid for nid in graph_spec if nid not in nodes]
+            for nid in new_nids:
+                nodes[nid] = Node(Frame(graph_spec[nid]["data"]), hnid=int(nid))
 
             # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
+            for nid in new_nids:
+                for child in graph_spec[nid]["children"]:
                     child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
+                    nodes[nid].add_child(nodes[child])
+                    nodes[child].add_parent(nodes[nid])
 
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+            for nid in new_nids:
+                if len(nodes[nid].parents) == 0:
+                    roots.append(nodes[nid])
 
         grph = Graph(roots)
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From d4f02e378d3c3366d44f5c8a2b1e762bf0511605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 04/84] fix: reading a multi-indexed graphframe from HDF5 keeps
 its call graph

---
 hatchet/readers/dataframe_reader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..d8f5749 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -46,13 +46,15 @@ def _get_parents_and_children(df):
 
 
 def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
+    # a node has several rows if the dataframe has a multi-index
+    nodes = {}
     for i in range(len(df)):
         node = _get_node_from_df_iloc(df, i)
-        if len(node.children) == 0:
-            node.children = [node_list[nid] for nid in rel_dict[node]["children"]]
-        if len(node.parents) == 0:
-            node.parents = [node_list[nid] for nid in rel_dict[node]["parents"]]
+        nodes[node._hatchet_nid] = node
+    node_list = [nodes[nid] for nid in sorted(nodes)]
+    for node in node_list:
+        node.children = [nodes[nid] for nid in rel_dict[node]["children"]]
+        node.parents = [nodes[nid] for nid in rel_dict[node]["parents"]]
     roots = [node for node in node_list if len(node.parents) == 0]
     return Graph(roots)
 
-- 
2.43.0


From a56ab9446235e72889bdebd7bafcb75445a391d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 05/84] fix: graphframes created without metadata no longer
 share one dictionary

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 01a9b96..3514bca 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -60,7 +60,7 @@ class GraphFrame:
         exc_metrics=None,
         inc_metrics=None,
         default_metric="time",
-        metadata={},
+        metadata=None,
     ):
         """Create a new GraphFrame from a graph and a dataframe.
 
@@ -91,7 +91,7 @@ class GraphFrame:
         self.exc_metrics = [] if exc_metrics is None else exc_metrics
         self.inc_metrics = [] if inc_metrics is None else inc_metrics
         self.default_metric = default_metric
-        self.metadata = metadata
+        self.metadata = {} if metadata is None else metadata
         self.query_engine = QueryEngine()
 
     @staticmethod
-- 
2.43.0


From 8fd41cfe62fb6261c147baad539dd7b09e939363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 06/84] fix: generate_exclusive_columns no longer extends other
 graphframes' metric lists

---
 hatchet/graphframe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 3514bca..392a3f9 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -874,8 +874,10 @@ class GraphFrame:
                     **{exc: pd.Series(data=new_data)}
                 )
         # Add the newly created metrics to self.exc_metrics
-        self.exc_metrics.extend([metric_tuple[0] for metric_tuple in generation_pairs])
-        self.exc_metrics = list(set(self.exc_metrics))
+        # (the list may be shared with other graphframes, so don't extend it in place)
+        self.exc_metrics = list(
+            set(self.exc_metrics + [metric_tuple[0] for metric_tuple in generation_pairs])
+        )
 
     def update_inclusive_columns(self):
         """Update inclusive columns (typically after operations that rewire the
-- 
2.43.0


From 9b53c788a617efcaca08f50d52a290cfb5302745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 07/84] fix: graph equality requires shared nodes to match each
 other

---
 hatchet/graph.py |  4 ++--
 hatchet/node.py  | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..17d1958 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -387,8 +387,8 @@ class Graph:
         """Check if two graphs have the same structure by comparing frame at each
         node.
         """
-        vs = set()
-        vo = set()
+        vs = {}
+        vo = {}
 
         # if both graphs are pointing to the same object, then graphs are equal
         if self is other:
diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..6ed6303 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -75,13 +75,14 @@ class Node:
         """Check if DAG rooted at self has the same structure as that rooted at
         other.
         """
+        # visited nodes of self and other, and the nodes they were matched with
         if vs is None:
-            vs = set()
+            vs = {}
         if vo is None:
-            vo = set()
+            vo = {}
 
-        vs.add(self._hatchet_nid)
-        vo.add(other._hatchet_nid)
+        vs[id(self)] = other
+        vo[id(other)] = self
 
         # if number of children do not match, then nodes are not equal
         if len(self.children) != len(other.children):
@@ -96,15 +97,17 @@ class Node:
             if self_child.frame != other_child.frame:
                 return False
 
-            visited_s = self_child._hatchet_nid in vs
-            visited_o = other_child._hatchet_nid in vo
+            visited_s = id(self_child) in vs
+            visited_o = id(other_child) in vo
 
             # check for duplicate nodes
             if visited_s != visited_o:
                 return False
 
-            # skip visited nodes
+            # skip visited nodes, which must have been matched with each other
             if visited_s or visited_o:
+                if vs[id(self_child)] is not other_child:
+                    return False
                 continue
 
             # recursive check for node equality
-- 
2.43.0


From 1f27b88bf4fdddcfe3da15c8f88f21a28f6171c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 08/84] fix: squash merges all nodes with the same call path
 and updates their depths

---
 hatchet/graph.py      | 66 ++++++++++++++-----------------------------
 hatchet/graphframe.py |  1 +
 2 files changed, 22 insertions(+), 45 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 17d1958..3c12743 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -89,51 +89,27 @@ class Graph:
             (dict): dictionary from nodes to their merge targets
 
         """
-        merges = {}  # old_node -> merged_node
-        inverted_merges = defaultdict(
-            lambda: []
-        )  # merged_node -> list of corresponding old_nodes
-        processed = []
-
-        def _find_child_merges(node_list):
-            index = index_by("frame", node_list)
-            for frame, children in index.items():
-                if len(children) > 1:
-                    min_id = min(children, key=id)
-                    for child in children:
-                        prev_min = merges.get(child, min_id)
-                        # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=id)
-                        # Save the new merged_node to the merges dict
-                        # so that the merge can happen later.
-                        merges[child] = curr_min
-                        # Update inverted_merges to be able to set node_list
-                        # to the right value.
-                        inverted_merges[curr_min].append(child)
-
-        _find_child_merges(self.roots)
-        for node in self.traverse():
-            if node in processed:
-                continue
-            nodes = None
-            # If node is going to be merged with other nodes,
-            # collect the set of those nodes' children. This is
-            # done to ensure that equivalent children of merged nodes
-            # also get merged.
-            if node in merges:
-                new_node = merges[node]
-                nodes = []
-                for node_to_merge in inverted_merges[new_node]:
-                    nodes.extend(node_to_merge.children)
-                processed.extend(inverted_merges[new_node])
-            # If node is not going to be merged, simply get the list of
-            # node's children.
-            else:
-                nodes = node.children
-                processed.append(node)
-            _find_child_merges(nodes)
-
-        return merges
+        # node -> list of all nodes it needs to be merged with (and itself)
+        classes = {node: [node] for node in self.traverse()}
+
+        # lists of nodes in which nodes with the same frame need to be merged
+        pending = [self.roots] + [node.children for node in classes]
+        while pending:
+            for nodes in index_by("frame", pending.pop()).values():
+                distinct = {id(classes[node]): classes[node] for node in nodes}
+                if len(distinct) > 1:
+                    merged = [node for cls in distinct.values() for node in cls]
+                    for node in merged:
+                        classes[node] = merged
+                    # Equivalent children of merged nodes also get merged.
+                    pending.append([c for node in merged for c in node.children])
+
+        # old_node -> merged_node
+        return {
+            node: min(merged, key=id)
+            for node, merged in classes.items()
+            if len(merged) > 1
+        }
 
     def merge_nodes(self, merges):
         """Merge some nodes in a graph into others.
diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 392a3f9..db865ea 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -615,6 +615,7 @@ class GraphFrame:
         # at this point, the graph is potentially invalid, as some nodes
         # may have children with identical frames.
         merges = graph.normalize()
+        graph.enumerate_depth()
         df["node"] = df["node"].apply(lambda n: merges.get(n, n))
 
         self.dataframe.set_index(index_names, inplace=True)
-- 
2.43.0


From 7bf8743703f373d3ec6f2b54c24c4f341d7ceddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 09/84] fix: queries match every path with '*' and '+', not
 only those up to the first next match

---
 hatchet/query/engine.py | 93 ++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 47 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..a044a2e 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -93,41 +93,41 @@ class QueryEngine:
             wcard_idx (int): the index into the query associated with the "*" predicate
 
         Returns:
-            (list): a list of lists representing the paths rooted at "node" that match the "*" predicate
-                    and/or the next query node. Will return None if there is no match for the "*"
-                    predicate or the next query node.
+            (list): a list of lists representing the (non-empty) paths rooted at "node" that match the "*"
+                    predicate and can be followed by a match of the next query node. Will return None
+                    if there is no such path.
         """
         # Cache the node if it's not already cached
         if node._hatchet_nid not in self.search_cache:
             self._cache_node(node, query, dframe)
-        # If the node matches with the next non-wildcard query node,
-        # end the recursion and return the node.
-        if wcard_idx + 1 in self.search_cache[node._hatchet_nid]:
-            return [[]]
-        # If the node matches the "*" wildcard query, recursively
-        # apply this function to the current node's children. Then,
+        # If the current node doesn't match the "*" wildcard, return None.
+        if wcard_idx not in self.search_cache[node._hatchet_nid]:
+            return None
+        matches = []
+        # The nodes matching the "*" wildcard can end with the current node if
+        # there can be a match for the next query node (if any) after it.
+        children = sorted(node.children, key=traversal_order)
+        for child in children:
+            if child._hatchet_nid not in self.search_cache:
+                self._cache_node(child, query, dframe)
+        if (
+            wcard_idx == len(query) - 1
+            or query.query_pattern[wcard_idx + 1][0] == "*"
+            or any(
+                wcard_idx + 1 in self.search_cache[child._hatchet_nid]
+                for child in children
+            )
+        ):
+            matches.append([node])
+        # Recursively apply this function to the current node's children. Then,
         # collect their returned matches, and prepend the current node.
-        elif wcard_idx in self.search_cache[node._hatchet_nid]:
-            matches = []
-            if len(node.children) == 0:
-                if wcard_idx == len(query) - 1:
-                    return [[node]]
-                return None
-            for child in sorted(node.children, key=traversal_order):
-                sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
-                if sub_match is not None:
-                    matches.extend(sub_match)
-            if len(matches) == 0:
-                return None
-            tmp = set(tuple(m) for m in matches)
-            matches = [list(t) for t in tmp]
-            return [[node] + m for m in matches]
-        # If the current node doesn't match the current "*" wildcard or
-        # the next non-wildcard query node, return None.
-        else:
-            if wcard_idx == len(query) - 1:
-                return [[]]
+        for child in children:
+            sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
+            if sub_match is not None:
+                matches.extend([node] + m for m in sub_match)
+        if len(matches) == 0:
             return None
+        return matches
 
     def _match_1(self, query, dframe, node, idx):
         """Process a "." predicate in the query on a subgraph.
@@ -173,7 +173,8 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            # "pattern_root" may be followed by more nodes matching the "*"
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
@@ -193,15 +194,14 @@ class QueryEngine:
                     else:
                         sub_match.extend(s)
                 elif wcard == "*":
-                    if len(m[-1].children) == 0:
-                        sub_match.append([])
-                    else:
-                        for child in sorted(m[-1].children, key=traversal_order):
-                            s = self._match_0_or_more(query, dframe, child, pattern_idx)
-                            if s is None:
-                                sub_match.append(s)
-                            else:
-                                sub_match.extend(s)
+                    # "*" also matches no node at all
+                    sub_match.append([])
+                    for child in sorted(m[-1].children, key=traversal_order):
+                        s = self._match_0_or_more(query, dframe, child, pattern_idx)
+                        if s is None:
+                            sub_match.append(s)
+                        else:
+                            sub_match.extend(s)
                 else:
                     raise InvalidQueryFilter(
                         'Query wildcards must (internally) be one of "." or "*"'
@@ -241,16 +241,15 @@ class QueryEngine:
             self._cache_node(node, query, dframe)
         # If the node matches the starting/root node of the query,
         # try to get all query matches in the subgraph rooted at
-        # this node.
-        if query.query_pattern[0][0] == "*":
-            if 1 in self.search_cache[node._hatchet_nid]:
-                sub_match = self._match_pattern(query, dframe, node, 1)
+        # this node. As a "*" query node can match no node at all, the
+        # query node after it can be the starting node, too.
+        for idx, (wcard, _) in enumerate(query.query_pattern):
+            if idx in self.search_cache[node._hatchet_nid]:
+                sub_match = self._match_pattern(query, dframe, node, idx)
                 if sub_match is not None:
                     matches.extend(sub_match)
-        if 0 in self.search_cache[node._hatchet_nid]:
-            sub_match = self._match_pattern(query, dframe, node, 0)
-            if sub_match is not None:
-                matches.extend(sub_match)
+            if wcard != "*":
+                break
         # Note that the node is now visited.
         visited.add(node._hatchet_nid)
         # Continue the Depth First Search.
-- 
2.43.0


From ea55613b8c150b3540cd83da43964ed8e8883255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 10/84] fix: string queries accept nodes and paths without
 conditions and any first condition

---
 hatchet/query/string_dialect.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..464587d 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -148,14 +148,17 @@ class StringQuery(Query):
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
             if n[1] != "":
+                # without conditions, there is no predicate
+                if len(self.filters[i]) == 0:
+                    continue
                 bool_expr = ""
                 type_check = ""
-                for j, cond in enumerate(self.filters[i]):
+                for cond in self.filters[i]:
                     if cond[0] is not None:
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
+                        if type_check == "":
                             type_check += " {}".format(cond[2])
                         else:
                             type_check += " and {}".format(cond[2])
@@ -184,7 +187,8 @@ class StringQuery(Query):
         """Top level function for parsing the WHERE statement of
         a String-based query.
         """
-        conditions = cond_expr.conditions
+        # the WHERE statement is optional
+        conditions = [] if cond_expr is None else cond_expr.conditions
         for cond in conditions:
             converted_condition = None
             if self._is_unary_cond(cond):
-- 
2.43.0


From 5674ee9816e7af2837313e85ed3ae5d3fec4e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 11/84] fix: IS NOT NAN and IS NOT INF are tested per row on
 multi-indexed data

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 464587d..6678474 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1301,7 +1301,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                'pd.notna(df_row["{}"])'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1395,7 +1395,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From e1127a206e1e7925d60008f6a8840c610f9b4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 12/84] fix: curly-brace string queries may have one region and
 keep the multi-index mode

---
 hatchet/query/string_dialect.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 6678474..dac6d4b 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1502,17 +1502,15 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # Get the MATCH clause that will be shared across the subqueries
         match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
         match_comp = match_comp_obj.group("match_field")
+        # Set the initial query as a CypherQuery where
+        # the MATCH clause is the shared match clause and the WHERE clause is the
+        # first curly brace-delimited region
+        query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[0])
+        if sys.version_info[0] == 2:
+            query1 = query1.decode("utf-8")
+        full_query = StringQuery(query1, multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as a CypherQuery where
-            # the MATCH clause is the shared match clause and the WHERE clause is the
-            # first curly brace-delimited region
-            if i == 0:
-                query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[i])
-                if sys.version_info[0] == 2:
-                    query1 = query1.decode("utf-8")
-                full_query = StringQuery(query1, multi_index_mode)
             # Get the next query as a CypherQuery where
             # the MATCH clause is the shared match clause and the WHERE clause is the
             # next curly brace-delimited region
@@ -1537,16 +1535,14 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             raise ValueError(
                 "Incompatible number of curly brace elements and compound operators"
             )
+        # Set the initial query as the result
+        # of recursively calling this function on the first curly brace-delimited region
+        full_query = parse_string_dialect(query_list[0], multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as the result
-            # of recursively calling this function on the first curly brace-delimited region
-            if i == 0:
-                full_query = parse_string_dialect(query_list[i])
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
+            next_query = parse_string_dialect(query_list[i + 1], multi_index_mode)
             # Add the next query to the full query using the compound operator
             # currently being considered
             if op == "AND":
-- 
2.43.0


From 52fe70c8d50e691dae7e0620fcc5541dd1165946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 13/84] fix: object queries compare NaN and infinite metrics
 like other numbers

---
 hatchet/query/object_dialect.py | 41 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..adc6860 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -27,6 +27,25 @@ def _process_multi_index_mode(apply_result, multi_index_mode):
     )
 
 
+def _compare_number(number, comparison):
+    """Evaluates a comparison (e.g., "> 5") of a numeric metric value"""
+    # compare nan metric value to numeric query
+    # (e.g. np.nan > 5)
+    if pd.isnull(number):
+        nan_str = "np.nan"
+        # compare nan metric value to nan query
+        # (e.g., np.nan == np.nan)
+        if nan_str in comparison:
+            return True
+        return eval("{} {}".format(nan_str, comparison))
+    # compare inf metric value to a query
+    # (e.g., np.inf == np.inf)
+    if np.isinf(number):
+        inf_str = "np.inf" if number > 0 else "-np.inf"
+        return eval("{} {}".format(inf_str, comparison))
+    return eval("{} {}".format(number, comparison))
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -74,25 +93,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    # compare nan metric value to numeric query
-                    # (e.g. np.nan > 5)
-                    if pd.isnull(df_row[key]):
-                        nan_str = "np.nan"
-                        # compare nan metric value to nan query
-                        # (e.g., np.nan == np.nan)
-                        if nan_str in single_value:
-                            return eval("pd.isnull({}) == True".format(nan_str))
-                        return eval("{} {}".format(nan_str, single_value))
-                    elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
-                        return eval("{} {}".format(inf_str, single_value))
-                    else:
-                        return eval("{} {}".format(df_row[key], single_value))
-
+                    return _compare_number(df_row[key], single_value)
                 if isinstance(single_value, Real):
                     return df_row[key] == single_value
                 raise InvalidQueryFilter(
@@ -168,7 +169,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     compops
                 ):
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: _compare_number(x, single_value)
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-- 
2.43.0


From c2b4f9af2bce7b19f2c1aaf6fe32f89c9980b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 14/84] fix: object queries on multi-indexed data honor mode
 'all' for numbers and the leaf test

---
 hatchet/query/object_dialect.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index adc6860..ac85a91 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -135,6 +135,9 @@ def _process_predicate(attr_filter, multi_index_mode):
                 ):
                     return eval("{} {}".format(node._depth, single_value))
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
@@ -173,7 +176,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
@@ -185,7 +188,7 @@ def _process_predicate(attr_filter, multi_index_mode):
             )
 
         matches = True
-        node = df_row.name.to_frame().index[0][0]
+        node = df_row.index.get_level_values("node")[0]
         for k, v in attr_filter.items():
             try:
                 _ = iter(v)
-- 
2.43.0


From eba06dccad1600d2b04980f4658b43698a5b406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 15/84] fix: object queries match the whole string also for
 regexes with alternatives

---
 hatchet/query/object_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index ac85a91..f74e387 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -88,7 +88,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     raise InvalidQueryFilter(
                         "Value for attribute {} must be a string.".format(key)
                     )
-                return re.match(single_value + r"\Z", df_row[key]) is not None
+                return re.fullmatch(single_value, df_row[key]) is not None
             if isinstance(df_row[key], Real):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
@@ -164,7 +164,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                         "Value for attribute {} must be a string.".format(key)
                     )
                 apply_ret = df_row[key].apply(
-                    lambda x: re.match(single_value + r"\Z", x) is not None
+                    lambda x: re.fullmatch(single_value, x) is not None
                 )
                 return _process_multi_index_mode(apply_ret, multi_index_mode)
             if is_numeric_dtype(df_row[key]):
-- 
2.43.0


From 86377a7dbe0481be3b999f6fc9ae1618966df449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 16/84] fix: parallel filter keeps the row order and raises the
 predicate's exception

---
 hatchet/graphframe.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index db865ea..60746cc 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -40,12 +40,17 @@ except ImportError:
     raise
 
 
-def parallel_apply(filter_function, dataframe, queue):
+def parallel_apply(filter_function, dataframe, queue, pid):
     """A function called in parallel, which does a pandas apply on part of a
-    dataframe and returns the results via multiprocessing queue function."""
-    filtered_rows = dataframe.apply(filter_function, axis=1)
-    filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df)
+    dataframe and returns the results (or the exception the filter function
+    raised) via multiprocessing queue function."""
+    try:
+        filtered_rows = dataframe.apply(filter_function, axis=1)
+        filtered_df = dataframe[filtered_rows]
+    except Exception as e:
+        queue.put((pid, None, e))
+    else:
+        queue.put((pid, filtered_df, None))
 
 
 class GraphFrame:
@@ -472,7 +477,8 @@ class GraphFrame:
                 # perform filter in parallel (default)
                 queue = mp.Queue()
                 processes = []
-                returned_frames = []
+                returned_frames = [None] * num_procs
+                errors = [None] * num_procs
                 subframes = np.array_split(dataframe_copy, num_procs)
 
                 # Manually create a number of processes equal to the number of
@@ -480,7 +486,7 @@ class GraphFrame:
                 for pid in range(num_procs):
                     process = mp.Process(
                         target=parallel_apply,
-                        args=(filter_obj, subframes[pid], queue),
+                        args=(filter_obj, subframes[pid], queue, pid),
                     )
                     process.start()
                     processes.append(process)
@@ -489,13 +495,20 @@ class GraphFrame:
                 # pandas concatenation. This intermediary list is used because
                 # pandas concat is faster when called only once on a list of
                 # dataframes, than when called multiple times appending onto a
-                # frame of increasing size.
-                for pid in range(num_procs):
-                    returned_frames.append(queue.get())
+                # frame of increasing size. The processes may finish in any order,
+                # but the rows have to stay in their original order.
+                for _ in range(num_procs):
+                    pid, frame, error = queue.get()
+                    returned_frames[pid] = frame
+                    errors[pid] = error
 
                 for proc in processes:
                     proc.join()
 
+                for error in errors:
+                    if error is not None:
+                        raise error
+
                 filtered_df = pd.concat(returned_frames)
 
             else:
-- 
2.43.0


From 7064f117741a0c7ccd3094b1cb234a0c680049de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 17/84] fix: union maps nodes with the same call path to one
 node also for graphs with shared nodes

---
 hatchet/graph.py | 158 ++++++++++++++---------------------------------
 1 file changed, 45 insertions(+), 113 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 3c12743..93e0f4f 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -185,13 +185,37 @@ class Graph:
         if old_to_new is None:
             old_to_new = {}  # mapping from old nodes to new nodes
 
-        def _merge(self_children, other_children, parent):
-            """Recursively merge children of self and other.
+        # id of old node -> list of all nodes (of self and other) that become the
+        # same new node, as they have a call path in common
+        classes = {id(n): [n] for graph in (self, other) for n in graph.traverse()}
+
+        def group_by_frame(sibling_lists):
+            """Group nodes from different lists of siblings by frame."""
+            groups = defaultdict(lambda: [])
+            for siblings in sibling_lists:
+                for frame, nodes in index_by("frame", siblings).items():
+                    for i, node in enumerate(nodes):
+                        groups[(frame, i)].append(node)
+            return groups.values()
+
+        # First establish which nodes correspond to each other
+        pending = [[self.roots, other.roots]]
+        while pending:
+            for nodes in group_by_frame(pending.pop()):
+                distinct = {id(classes[id(n)]): classes[id(n)] for n in nodes}
+                if len(distinct) > 1:
+                    merged = [n for cls in distinct.values() for n in cls]
+                    for node in merged:
+                        classes[id(node)] = merged
+                    # children of corresponding nodes may correspond, too
+                    pending.append([node.children for node in merged])
+
+        def _merge(sibling_lists, parent):
+            """Recursively make new nodes for nodes of self and other.
 
             Arguments:
-                self_children (list or tuple): List of children nodes from self
-                other_children (list or tuple): List of children nodes from other
-                parent (Node): Parent node for self and other child(ren)
+                sibling_lists (list): Lists of children of nodes of self and other
+                parent (Node): Parent node for the new child(ren)
 
             Modifies old_to_new (dict): Updated dict mapping old nodes from self and other to new
                 unioned nodes
@@ -199,119 +223,27 @@ class Graph:
             Return:
                 (list): list of merged children
             """
-
-            def make_node(*nodes):
-                """Make a new node to represent the union of other nodes."""
-                new_node = nodes[0].copy()
-                for node in nodes:
-                    old_to_new[id(node)] = new_node
-                return new_node
-
             new_children = []
-
-            def connect(parent, new_node):
-                if parent:
-                    parent.add_child(new_node)
-                    new_node.add_parent(parent)
-                new_children.append(new_node)
-
-            # step through both lists and merge nodes
-            self_children, other_children = iter(self_children), iter(other_children)
-            self_child = next(self_children, None)
-            other_child = next(other_children, None)
-
-            while self_child and other_child:
-                if self_child.frame < other_child.frame:
-                    # self_child is unique
-                    new_node = old_to_new.get(id(self_child))
-                    if not new_node:
-                        new_node = make_node(self_child)
-                        _merge(
-                            sorted(self_child.children, key=lambda n: n.frame),
-                            (),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-
-                elif self_child.frame > other_child.frame:
-                    # other_child is unique
-                    new_node = old_to_new.get(id(other_child))
-                    if not new_node:
-                        new_node = make_node(other_child)
-                        _merge(
-                            (),
-                            sorted(other_child.children, key=lambda n: n.frame),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    other_child = next(other_children, None)
-
-                else:
-                    # self_child and other_child are equal
-                    self_mapped = old_to_new.get(id(self_child))
-                    other_mapped = old_to_new.get(id(other_child))
-                    if not self_mapped and not other_mapped:
-                        new_node = make_node(self_child, other_child)
-                    else:
-                        new_node = self_mapped or other_mapped
-
-                    # map whichever node was not mapped yet
-                    if not self_mapped:
-                        old_to_new[id(self_child)] = new_node
-                        self_side = self_child.children
-                    else:
-                        self_side = []
-
-                    if not other_mapped:
-                        old_to_new[id(other_child)] = new_node
-                        other_side = other_child.children
-                    else:
-                        other_side = []
-
-                    _merge(
-                        sorted(self_side, key=lambda n: n.frame),
-                        sorted(other_side, key=lambda n: n.frame),
-                        new_node,
-                    )
-
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-                    other_child = next(other_children, None)
-
-            # finish off whichever list of children is longer
-            while self_child:
-                new_node = old_to_new.get(id(self_child))
+            siblings = [node for nodes in sibling_lists for node in nodes]
+            for node in sorted(siblings, key=lambda n: n.frame):
+                new_node = old_to_new.get(id(node))
                 if not new_node:
-                    new_node = make_node(self_child)
-                    _merge(
-                        sorted(self_child.children, key=lambda n: n.frame),
-                        (),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                self_child = next(self_children, None)
-
-            while other_child:
-                new_node = old_to_new.get(id(other_child))
-                if not new_node:
-                    new_node = make_node(other_child)
-                    _merge(
-                        (),
-                        sorted(other_child.children, key=lambda n: n.frame),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                other_child = next(other_children, None)
+                    # make a new node to represent the union of other nodes
+                    nodes = classes[id(node)]
+                    new_node = nodes[0].copy()
+                    for n in nodes:
+                        old_to_new[id(n)] = new_node
+                    _merge([n.children for n in nodes], new_node)
+
+                if not any(new_node is child for child in new_children):
+                    if parent:
+                        parent.add_child(new_node)
+                        new_node.add_parent(parent)
+                    new_children.append(new_node)
 
             return new_children
 
-        # First establish which nodes correspond to each other
-        new_roots = _merge(
-            sorted(self.roots, key=lambda n: n.frame),
-            sorted(other.roots, key=lambda n: n.frame),
-            None,
-        )
+        new_roots = _merge([self.roots, other.roots], None)
 
         graph = Graph(new_roots)
         graph.enumerate_traverse()
-- 
2.43.0


From b2ee40c89c69f7af8e939f88f63ea250fc286761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 18/84] fix: Caliper JSON reader records each node's parent

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..b738258 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                     parent_hnode = (self.idx_to_node[node["parent"]])["node"]
                     hnode = Node(
                         Frame({"type": self.node_type, "name": node_label}),
+                        parent_hnode,
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
-- 
2.43.0


From e99c7f7016b6e4d85467ec7134f1f478099fafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 19/84] fix: labels of unnamed Caliper nodes do not depend on
 earlier reads

---
 hatchet/readers/caliper_reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b738258..f4aa68d 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -20,8 +20,6 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 from hatchet.util.executable import which
 
-unknown_label_counter = 0
-
 
 class CaliperReader:
     """Read in a Caliper file (`cali` or split JSON) or file-like object."""
@@ -143,7 +141,7 @@ class CaliperReader:
     def create_graph(self):
         list_roots = []
 
-        global unknown_label_counter
+        unknown_label_counter = 0
         order = -1
 
         # find nodes in the nodes section that represent the path hierarchy
-- 
2.43.0


From e11cc5511622ca900cf878d0cf0bf5b69cf62d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 20/84] fix: gprof reader records each parent once

---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..3bc9ba5 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From 5fcf1e972decca8f46b3d3a81c8897da4a2df85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 21/84] fix: to_flamegraph uses the requested name column

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 60746cc..8c02fec 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1090,7 +1090,7 @@ class GraphFrame:
                     else:
                         df_index = callpath[i]
                     folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, "name"]) + "; "
+                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
                     )
 
                 if (
@@ -1105,7 +1105,7 @@ class GraphFrame:
                 else:
                     df_index = callpath[-1]
                 folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, "name"]) + " "
+                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
                 )
 
                 # set dataframe index based on if rank and thread are part of the index
-- 
2.43.0


From ae26a58b3911303dd9b6f9e6518f5edeaaabbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 22/84] fix: Node.path raises MultiplePathError for nodes with
 several paths

---
 hatchet/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/node.py b/hatchet/node.py
index 6ed6303..2aef0e7 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -68,7 +68,7 @@ class Node:
         """
         paths = self.paths()
         if len(paths) > 1:
-            raise MultiplePathError("Node has more than one path: " % paths)
+            raise MultiplePathError("Node has more than one path: {}".format(paths))
         return paths[0]
 
     def dag_equal(self, other, vs=None, vo=None):
-- 
2.43.0


From 3cb7dad0a86a2e911ed68a8f6458d1b91a9264a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 23/84] fix: from_timemory returns data recorded within the
 application

---
 hatchet/graphframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 8c02fec..03cc77c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -306,7 +306,9 @@ class GraphFrame:
             try:
                 import timemory
 
-                TimemoryReader(timemory.get(hierarchy=True), select, **_kwargs).read()
+                return TimemoryReader(
+                    timemory.get(hierarchy=True), select, **_kwargs
+                ).read()
             except ImportError:
                 print(
                     "Error! timemory could not be imported. Provide filename, file stream, or dict."
-- 
2.43.0


From ac759a763e31b24164f0f72e628e614f96234a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 24/84] fix: compound queries with a wrong number of operands
 raise BadNumberNaryQueryArgs

---
 hatchet/query/compat.py   | 4 ++--
 hatchet/query/compound.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hatchet/query/compat.py b/hatchet/query/compat.py
index b94433f..6e032f0 100644
--- a/hatchet/query/compat.py
+++ b/hatchet/query/compat.py
@@ -98,7 +98,7 @@ class NaryQuery(AbstractQuery):
             *args (AbstractQuery, str, or list): the subqueries to be performed
         """
         self.compat_subqueries = []
-        if isinstance(args[0], tuple) and len(args) == 1:
+        if len(args) == 1 and isinstance(args[0], tuple):
             args = args[0]
         for query in args:
             if isinstance(query, list):
@@ -265,7 +265,7 @@ class NotQuery(NaryQuery):
             super(NotQuery, self).__init__(*args)
         else:
             super().__init__(*args)
-        if len(self.compat_subqueries) < 1:
+        if len(self.compat_subqueries) != 1:
             raise BadNumberNaryQueryArgs("NotQuery requires exactly 1 subquery")
 
     def _convert_to_new_query(self, subqueries):
diff --git a/hatchet/query/compound.py b/hatchet/query/compound.py
index be6ffdd..d5ed128 100644
--- a/hatchet/query/compound.py
+++ b/hatchet/query/compound.py
@@ -24,7 +24,7 @@ class CompoundQuery(object):
             *queries (Query, CompoundQuery, list, or str): the subqueries of the compound query
         """
         self.subqueries = []
-        if isinstance(queries[0], tuple) and len(queries) == 1:
+        if len(queries) == 1 and isinstance(queries[0], tuple):
             queries = queries[0]
         for query in queries:
             if issubclass(type(query), Query) or issubclass(type(query), CompoundQuery):
-- 
2.43.0


From feab6b55b1ce10d96ba36fc2e1b390315782ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 25/84] fix: subgraph_sum counts each node once when columns
 are summed in place or per rank

---
 hatchet/graphframe.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 03cc77c..b1d9f17 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -764,6 +764,8 @@ class GraphFrame:
             return
 
         out_columns = self._init_sum_columns(columns, out_columns)
+        # the sums already stored must not be added to those of other nodes
+        in_columns = self.dataframe[columns].copy()
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
@@ -790,15 +792,15 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
-                    for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
-                            function(self.dataframe.loc[df_index2, col])
+                    for col, out in zip(columns, out_columns):
+                        self.dataframe.loc[df_index1, out] = [
+                            function(in_columns.loc[df_index2, col])
                         ]
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(in_columns.loc[(subgraph_nodes), columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From 9fbb329001182819beb86778c77ba0f6006700a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 26/84] fix: subtree_sum includes descendants of nodes without
 a row for a rank or thread

---
 hatchet/graphframe.py | 76 +++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index b1d9f17..57f6de4 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -701,42 +701,54 @@ class GraphFrame:
         """
         out_columns = self._init_sum_columns(columns, out_columns)
 
+        # node -> {rank_thread: nodes holding the sums of its subtree}, i.e., the node
+        # itself, or nodes below it if it has no row for that rank_thread
+        sum_nodes = {}
+
         # sum over the output columns
         for node in self.graph.traverse(order="post"):
-            if node.children:
-                # TODO: need a better way of aggregating inclusive metrics when
-                # TODO: there is a multi-index
-                try:
-                    is_multi_index = isinstance(
-                        self.dataframe.index, pd.core.index.MultiIndex
-                    )
-                except AttributeError:
-                    is_multi_index = isinstance(self.dataframe.index, pd.MultiIndex)
-
-                if is_multi_index:
-                    for rank_thread in self.dataframe.loc[
-                        (node), out_columns
-                    ].index.unique():
-                        # rank_thread is either rank or a tuple of (rank, thread).
-                        # We check if rank_thread is a tuple and if it is, we
-                        # create a tuple of (node, rank, thread). If not, we create
-                        # a tuple of (node, rank).
-                        if isinstance(rank_thread, tuple):
-                            df_index1 = (node,) + rank_thread
-                            df_index2 = ([node] + node.children,) + rank_thread
-                        else:
-                            df_index1 = (node, rank_thread)
-                            df_index2 = ([node] + node.children, rank_thread)
-
-                        for col in out_columns:
-                            self.dataframe.loc[df_index1, col] = function(
-                                self.dataframe.loc[df_index2, col]
-                            )
-                else:
+            sum_nodes[node] = defaultdict(list)
+            for child in node.children:
+                for rank_thread, nodes in sum_nodes[child].items():
+                    sum_nodes[node][rank_thread].extend(nodes)
+
+            # TODO: need a better way of aggregating inclusive metrics when
+            # TODO: there is a multi-index
+            try:
+                is_multi_index = isinstance(
+                    self.dataframe.index, pd.core.index.MultiIndex
+                )
+            except AttributeError:
+                is_multi_index = isinstance(self.dataframe.index, pd.MultiIndex)
+
+            if is_multi_index:
+                for rank_thread in self.dataframe.loc[
+                    (node), out_columns
+                ].index.unique():
+                    summands = [node] + sum_nodes[node][rank_thread]
+                    sum_nodes[node][rank_thread] = [node]
+                    if len(summands) == 1:
+                        continue
+                    # rank_thread is either rank or a tuple of (rank, thread).
+                    # We check if rank_thread is a tuple and if it is, we
+                    # create a tuple of (node, rank, thread). If not, we create
+                    # a tuple of (node, rank).
+                    if isinstance(rank_thread, tuple):
+                        df_index1 = (node,) + rank_thread
+                        df_index2 = (summands,) + rank_thread
+                    else:
+                        df_index1 = (node, rank_thread)
+                        df_index2 = (summands, rank_thread)
+
                     for col in out_columns:
-                        self.dataframe.loc[node, col] = function(
-                            self.dataframe.loc[[node] + node.children, col]
+                        self.dataframe.loc[df_index1, col] = function(
+                            self.dataframe.loc[df_index2, col]
                         )
+            elif node.children:
+                for col in out_columns:
+                    self.dataframe.loc[node, col] = function(
+                        self.dataframe.loc[[node] + node.children, col]
+                    )
 
     def subgraph_sum(
         self, columns, out_columns=None, function=lambda x: x.sum(min_count=1)
-- 
2.43.0


From cbe72efae11484ef0e72a6c1779c77e4cb62efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 27/84] fix: copies of node-ordered graphs keep the node order

---
 hatchet/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 93e0f4f..18de958 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -162,9 +162,13 @@ class Graph:
             for old_child in old.children:
                 new.children.append(old_to_new[old_child])
 
+            if self.node_ordering:
+                new._hatchet_nid = old._hatchet_nid
+
         graph = Graph([old_to_new[r] for r in self.roots])
         graph.node_ordering = self.node_ordering
         graph.enumerate_traverse()
+        graph.enumerate_depth()
 
         return graph
 
-- 
2.43.0


From 425de06167f08bdda02191fbf7e4be5d2c2a8482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 28/84] fix: node depths are set also if the nodes are already
 numbered

---
 hatchet/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 18de958..3f49e25 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -168,7 +168,6 @@ class Graph:
         graph = Graph([old_to_new[r] for r in self.roots])
         graph.node_ordering = self.node_ordering
         graph.enumerate_traverse()
-        graph.enumerate_depth()
 
         return graph
 
@@ -278,7 +277,7 @@ class Graph:
                 for i, node in enumerate(self.traverse()):
                     node._hatchet_nid = i
 
-            self.enumerate_depth()
+        self.enumerate_depth()
 
     def _check_enumerate_traverse(self):
         # if "node order" column exists, we traverse sorting by _hatchet_nid
-- 
2.43.0


From 44043f620e47b10da4885b5f70ef4df02288437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 29/84] fix: depths of nodes below and above roots that have
 parents are consistent

---
 hatchet/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 3f49e25..2fbe0e8 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -262,9 +262,10 @@ class Graph:
                     child._depth = node._depth + 1
                     _iter_depth(child, visited)
 
-        visited = set()
+        visited = set(self.roots)
         for root in self.roots:
             root._depth = 0  # depth of root node is 0
+        for root in self.roots:
             _iter_depth(root, visited)
 
     def enumerate_traverse(self):
-- 
2.43.0


From fec3fde67f4eab47413c087b57a884afdc4a8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 30/84] fix: generate_exclusive_columns with one metric name
 ignores metrics with a part of that name

---
 hatchet/graphframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 57f6de4..84cb29d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -835,6 +835,8 @@ class GraphFrame:
         # TODO Change how exclusive-inclusive pairs are determined when inc_metrics and exc_metrics are changed
         # Iterate over inclusive metrics and collect tuples of (new exclusive metrics name, inclusive metric name)
         generation_pairs = []
+        if isinstance(inc_metrics, str):
+            inc_metrics = [inc_metrics]
         for inc in self.inc_metrics:
             if inc_metrics and inc not in inc_metrics:
                 continue
-- 
2.43.0


From 04567406025f302ee1e375a8d67dd2c2bf8b2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 31/84] fix: compare nodes with other objects as Python expects
 (multi-index lookups with rank and thread)

---
 hatchet/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hatchet/node.py b/hatchet/node.py
index 2aef0e7..6c7cf60 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -194,12 +194,18 @@ class Node:
         return self._hatchet_nid
 
     def __eq__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid == other._hatchet_nid
 
     def __lt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid < other._hatchet_nid
 
     def __gt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid > other._hatchet_nid
 
     def __str__(self):
-- 
2.43.0


From d4f6187733e8154abc00a76cef8c6af445d96d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 32/84] fix: groupby_aggregate works when grouping by the name
 column

---
 hatchet/graphframe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 84cb29d..8f724d3 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1488,10 +1488,13 @@ class GraphFrame:
             reindex(root, None, visited)
 
         # append super nodes to groupby-aggregate dataframe
-        df_index = list(agg_df.index.names)
+        # ("name" is the column of super node names, also if it was grouped by)
+        df_index = [name for name in agg_df.index.names if name != "name"]
         agg_df.reset_index(inplace=True)
         df_nodes = pd.DataFrame.from_dict(data=node_dicts)
-        tmp_df = pd.concat([agg_df, df_nodes], axis=1)
+        tmp_df = pd.concat(
+            [agg_df.drop(columns="name", errors="ignore"), df_nodes], axis=1
+        )
         # add node to dataframe index if it doesn't exist
         if "node" not in df_index:
             df_index.append("node")
-- 
2.43.0


From 8be19379d6b5b8042dc8fc2d2d2b63721de1043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 33/84] fix: subgraph_sum applies the function to each column
 on graphs with shared nodes, as on trees

---
 hatchet/graphframe.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 8f724d3..96139ec 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -809,11 +809,10 @@ class GraphFrame:
                             function(in_columns.loc[df_index2, col])
                         ]
             else:
-                # TODO: if you take the list constructor away from the
-                # TODO: assignment below, this assignment gives NaNs. Why?
-                self.dataframe.loc[(node), out_columns] = list(
-                    function(in_columns.loc[(subgraph_nodes), columns])
-                )
+                # the function is applied to each column, as in subtree_sum
+                self.dataframe.loc[(node), out_columns] = [
+                    function(in_columns.loc[(subgraph_nodes), col]) for col in columns
+                ]
 
     def generate_exclusive_columns(self, inc_metrics=None):
         """Generates exclusive metrics from available inclusive metrics.
-- 
2.43.0


From 37b4f304d4f7550dd588a610c79fb1a57aea4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 34/84] fix: ~ negates new-style queries, as it does old-style
 ones

---
 hatchet/query/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/query/__init__.py b/hatchet/query/__init__.py
index 77e5bfd..4a91951 100644
--- a/hatchet/query/__init__.py
+++ b/hatchet/query/__init__.py
@@ -60,12 +60,14 @@ Query.__and__ = combine_via_conjunction
 Query.__or__ = combine_via_disjunction
 Query.__xor__ = combine_via_exclusive_disjunction
 Query.__not__ = negate_query
+Query.__invert__ = negate_query
 
 
 CompoundQuery.__and__ = combine_via_conjunction
 CompoundQuery.__or__ = combine_via_disjunction
 CompoundQuery.__xor__ = combine_via_exclusive_disjunction
 CompoundQuery.__not__ = negate_query
+CompoundQuery.__invert__ = negate_query
 
 
 def is_hatchet_query(query_obj):
-- 
2.43.0


From 8449fb4c64d458e588bc30cfad028271fc8b07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 35/84] fix: values in string-dialect conditions may contain
 double quotes

---
 hatchet/query/string_dialect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index dac6d4b..79aa5de 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -450,6 +450,8 @@ class StringQuery(Query):
         """Function that redirects processing of string predicates
         to the correct function.
         """
+        # the value is embedded in double quotes below
+        obj.val = obj.val.replace('"', '\\"')
         if cname(obj) == "StringEq":
             return self._run_method_based_on_multi_idx_mode("_parse_str_eq", obj)
         if cname(obj) == "StringStartsWith":
-- 
2.43.0


From 4452be9aae4af1a2f0b44dfd700633a298fd9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 36/84] fix: from_hdf renumbered nodes that were already in the
 dataframe's index

---
 hatchet/readers/dataframe_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index d8f5749..72b1d28 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -73,7 +73,12 @@ class DataframeReader(ABC):
         df = self._read_dataframe_from_file(**kwargs)
         rel_dict = _get_parents_and_children(df)
         graph = _reconstruct_graph(df, rel_dict)
+        # the numbering of the nodes is their hash, so it must not change while
+        # the nodes are in the index
+        index_names = list(df.index.names)
+        df.reset_index(inplace=True)
         graph.enumerate_traverse()
+        df.set_index(index_names, inplace=True)
         exc_metrics = df.iloc[0, df.columns.get_loc("exc_metrics")]
         inc_metrics = df.iloc[0, df.columns.get_loc("inc_metrics")]
         default_metric = df.iloc[0, df.columns.get_loc("default_metric")]
-- 
2.43.0


From cac9673a5ffcc4b85ceba7c79789e819b28c7f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 37/84] fix: from_json turned a metric without values into a
 column of objects

---
 hatchet/readers/json_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 89ee44e..32b62b1 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -56,6 +56,14 @@ class JsonReader:
         dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
+        # json has no NaN, so a metric without any value would become a column
+        # of None objects
+        for metric in (
+            self.spec_dict["exclusive_metrics"] + self.spec_dict["inclusive_metrics"]
+        ):
+            if dataframe[metric].isna().all():
+                dataframe[metric] = dataframe[metric].astype(float)
+
         return hatchet.graphframe.GraphFrame(
             grph,
             dataframe,
-- 
2.43.0


From 5a2240b9c454cd38f0b10a19bd76e5db1ea5fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 38/84] fix: from_literal made a second node for a root already
 read as a child

---
 hatchet/readers/literal_reader.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index 4d16b65..467daf9 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -114,17 +114,22 @@ class LiteralReader:
         for i in range(len(self.graph_dict)):
             metrics = dict(self.graph_dict[i]["metrics"])
             hnid = metrics.pop("_hatchet_nid", -1)
-            graph_root = Node(Frame(self.graph_dict[i]["frame"]), None, hnid=hnid)
-            if hnid != -1:
-                nid_to_node_dict[hnid] = graph_root
+            if hnid not in nid_to_node_dict:
+                graph_root = Node(Frame(self.graph_dict[i]["frame"]), None, hnid=hnid)
+                if hnid != -1:
+                    nid_to_node_dict[hnid] = graph_root
 
-            # depending on the node type, the name may not be in the frame
-            node_name = self.graph_dict[i]["frame"].get("name")
-            if not node_name:
-                node_name = self.graph_dict[i]["name"]
+                # depending on the node type, the name may not be in the frame
+                node_name = self.graph_dict[i]["frame"].get("name")
+                if not node_name:
+                    node_name = self.graph_dict[i]["name"]
 
-            node_dict = dict({"node": graph_root, "name": node_name}, **metrics)
-            node_dicts.append(node_dict)
+                node_dict = dict({"node": graph_root, "name": node_name}, **metrics)
+                node_dicts.append(node_dict)
+
+            else:
+                # this root was already created as the child of another node
+                graph_root = nid_to_node_dict[hnid]
 
             list_roots.append(graph_root)
 
-- 
2.43.0


From d0a756b78c28fa488d3f4ae9b4fa505a9fe261e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 39/84] fix: from_literal listed only the metrics of the last
 root

---
 hatchet/readers/literal_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index 467daf9..500c7e9 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -3,6 +3,8 @@
 #
 # SPDX-License-Identifier: MIT
 
+from collections import OrderedDict
+
 import pandas as pd
 
 import hatchet.graphframe
@@ -150,6 +152,12 @@ class LiteralReader:
 
         exc_metrics = []
         inc_metrics = []
+        # not every node needs to have every metric
+        metrics = OrderedDict()
+        for node_dict in node_dicts:
+            for key in node_dict:
+                if key not in ("node", "name"):
+                    metrics[key] = None
         for key in metrics.keys():
             if "(inc)" in key:
                 inc_metrics.append(key)
-- 
2.43.0


From 3a35fd4ae0b0db7f9998b8d0a9f1ad9232aca956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:27 +0000
Subject: [PATCH 40/84] fix: Graph.from_lists raised TypeError instead of its
 ValueError for several bad arguments

---
 hatchet/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 2fbe0e8..6afaab5 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -335,7 +335,7 @@ class Graph:
         """Convenience method to invoke Node.from_lists() on each root value."""
         if not all(isinstance(r, (list, tuple)) for r in roots):
             raise ValueError(
-                "All arguments to Graph.from_lists() must be lists: %s" % roots
+                "All arguments to Graph.from_lists() must be lists: %s" % (roots,)
             )
 
         graph = Graph([Node.from_lists(r) for r in roots])
-- 
2.43.0


From 18706bf39fd5d0fc839dae7c5bc3552f3cb9d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 41/84] fix: the profiler overwrote a file written in the same
 second

---
 hatchet/util/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 22ce80d..d24f104 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -107,7 +107,7 @@ class Profiler:
             else:
                 sts.dump_stats(self._output + ".pstats")
         else:
-            if os.path.exists(filename):
+            while os.path.exists(filename):
                 now = datetime.now().strftime("%H%M%S")
                 filename = "{}_{}.pstats".format(filename, now)
             sts.dump_stats(filename)
-- 
2.43.0


From acc42fe98bddcce97cbf83a8b1a197c3c3cf4c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 42/84] fix: from_timemory raised KeyError for threaded
 profiles without ranks

---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ba69ced..7165b8f 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -521,7 +521,8 @@ class TimemoryReader:
             dataframe.drop(columns=["thread"], inplace=True)
             indices = ["node", "rank"]
         elif self.multiple_threads:
-            dataframe.drop(columns=["rank"], inplace=True)
+            # there are no ranks without MPI or UPC++
+            dataframe.drop(columns=["rank"], inplace=True, errors="ignore")
             indices = ["node", "thread"]
         else:
             indices = ["node"]
-- 
2.43.0


From 02bf0a0c94b5885cf0d7abb9fa5425421488f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 43/84] fix: from_cprofile merged functions of different files
 with the same base name

---
 hatchet/readers/cprofile_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 3b3f5ca..b19ba41 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -58,7 +58,7 @@ class CProfileReader:
         """
         u_fn_name = "{}:{}:{}".format(
             fn_name,
-            fn_data[NameData.FILE].split("/")[-1],
+            fn_data[NameData.FILE],
             fn_data[NameData.LINE],
         )
         fn_hnode = self.name_to_hnode.get(u_fn_name)
-- 
2.43.0


From 5acdb8027a188fdf15800bf7657edfcff393eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 44/84] fix: from_timemory raised TypeError for an open file
 stream

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 7165b8f..77a21ac 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -572,7 +572,7 @@ class TimemoryReader:
         if isinstance(self.input, dict):
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
-        elif os.path.isdir(self.input):
+        elif isinstance(self.input, str) and os.path.isdir(self.input):
             tree_files = glob.glob(self.input + "/*.tree.json")
             for file in tree_files:
                 # read all files that end with .tree.json.
-- 
2.43.0


From d9f8fad62e39f30f74bd2f9d06fa825a67525cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:22 +0000
Subject: [PATCH 45/84] fix: HPCToolkit statements after a callee were given
 the callee's file

---
 hatchet/readers/hpctoolkit_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index a0e0dae..87c5b92 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -320,7 +320,12 @@ class HPCToolkitReader:
 
     def parse_xml_children(self, xml_node, hnode):
         """Parses all children of an XML node."""
+        global src_file
+
+        # siblings of a callee or loop are in the file of this XML node
+        xml_node_file = src_file
         for xml_child in xml_node:
+            src_file = xml_node_file
             if xml_child.tag != "M":
                 nid = int(xml_node.get("i"))
                 line = int(xml_node.get("l"))
-- 
2.43.0


From 855959407f2b0442be6e24ebe840ecd2d2a99cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 46/84] fix: a TAU profile of a single rank or thread other
 than 0 was indexed by it

---
 hatchet/readers/tau_reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index aed2af1..6eb7664 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -255,15 +255,13 @@ class TAUReader:
         self.columns = _construct_column_list(profile_filenames[0])
 
         list_roots = []
-        prev_rank, prev_thread = 0, 0
+        ranks, threads = set(), set()
         # Example filenames_per_rank: (metric1/profile.x.0.0 ...)
         for filenames_per_rank in profile_filenames:
             file_info = filenames_per_rank[0].split(".")
             rank, thread = int(file_info[-3]), int(file_info[-1])
-            if not self.multiple_ranks:
-                self.multiple_ranks = True if rank != prev_rank else False
-            if not self.multiple_threads:
-                self.multiple_threads = True if thread != prev_thread else False
+            ranks.add(rank)
+            threads.add(thread)
 
             # Load all files represent a different metric for a rank or a thread.
             # If there are 2 metrics, load metric1\profile.x.0.0 and metric2\profile.x.0.0
@@ -441,6 +439,9 @@ class TAUReader:
 
                     self.node_dicts.append(node_dict)
 
+        self.multiple_ranks = len(ranks) > 1
+        self.multiple_threads = len(threads) > 1
+
         return list_roots
 
     def read(self):
-- 
2.43.0


From 9575c9da5c7a8117d979881a8ab848a1170c08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 47/84] fix: the TAU reader failed on root values that are no
 integers

---
 hatchet/readers/tau_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 6eb7664..5e9cc33 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -277,7 +277,7 @@ class TAUReader:
             root_name = root_line.group(1).strip(" ")
             # convert it to a tuple to use it as a key in callpath_to_node dictionary
             root_callpath = tuple([root_name])
-            root_values = list(map(int, root_line.group(2).split(" ")[:-1]))
+            root_values = list(map(float, root_line.group(2).split(" ")[:-1]))
 
             # After first profile.0.0.0, only get Excl and Incl metric values
             # from other files since other columns will be the same.
@@ -295,7 +295,7 @@ class TAUReader:
                     + "\nLine: 2"
                 )
                 root_line = re.match(r"\"(.*)\"\s(.*)\sG", file_data[f_index][0])
-                root_values.extend(list(map(int, root_line.group(2).split(" ")[2:4])))
+                root_values.extend(list(map(float, root_line.group(2).split(" ")[2:4])))
 
             # Check if the root exists in other ranks.
             # Note that we assume the root is the same for all metric files of a rank.
-- 
2.43.0


From 4eaf4e626a1815dab316db1c17f0259913705806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 48/84] fix: the TAU reader failed on user events of callpaths

---
 hatchet/readers/tau_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 5e9cc33..9750fee 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -337,6 +337,10 @@ class TAUReader:
                 if "=>" in line:
                     # Example: ".TAU application  => foo()  => bar()" 31 0 155019 155019 0 GROUP="TAU_SAMPLE|TAU_CALLPATH"
                     callpath_line_regex = re.match(r"\"(.*)\"\s(.*)\sG", line)
+                    # User events recorded for a callpath are no functions.
+                    # Example: "Message size : .TAU application => foo()" 1 8 8 8 64
+                    if callpath_line_regex is None:
+                        continue
                     # callpath: ".TAU application  => foo()  => bar()"
                     callpath = [
                         name.strip(" ")
-- 
2.43.0


From 54925ba2e03c2574088c71a53f1ee80be0260042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 49/84] fix: TAU root names kept trailing blanks in profiles
 with several metrics

---
 hatchet/readers/tau_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 9750fee..55b5e40 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -284,11 +284,13 @@ class TAUReader:
             # We assume each metric file of a rank has the same root.
             first_file_root_name = re.search(r"\"(.*?)\"", file_data[0][0]).group(1)
             for f_index in range(1, len(file_data)):
-                root_name = re.search(r"\"(.*?)\"", file_data[f_index][0]).group(1)
+                other_root_name = re.search(
+                    r"\"(.*?)\"", file_data[f_index][0]
+                ).group(1)
                 # Below assert statement throws an error if the roots are not the
                 # same for different metric files.
                 # TODO: We need to find a solution if this throws an error.
-                assert first_file_root_name == root_name, (
+                assert first_file_root_name == other_root_name, (
                     "Metric files for a rank has different roots.\n"
                     + "File: "
                     + filenames_per_rank[f_index]
-- 
2.43.0


From 021d8db944b8c6309b9b74811c26eee85156dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 50/84] fix: TAU parents seen before their own record had
 unwound names cut at blanks

---
 hatchet/readers/tau_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 55b5e40..000e37f 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -96,7 +96,10 @@ class TAUReader:
                     name = "[UNWIND] " + name_and_module[0]
                 else:
                     # We just need to take name if it is a parent
-                    name = "[UNWIND] " + node_info[1].split()[0]
+                    if "[{" in node_info[1]:
+                        name = "[UNWIND] " + node_info[1].split(" [{")[0]
+                    else:
+                        name = "[UNWIND] " + node_info[1].split()[0]
             elif symbol == " C ":
                 # Check if there is a C symbol.
                 # "C" symbol means it's a C function.
-- 
2.43.0


From 85bffc861911e864a5ef29fd8dd09b957c5a7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 51/84] fix: native Caliper profiles of several ranks kept only
 one rank per node

---
 hatchet/readers/caliper_native_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 171fda6..9265880 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -87,7 +87,11 @@ class CaliperNativeReader:
             if self.filename_or_caliperreader.attribute(col).is_value():
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
-        df_new = df_metrics.groupby(df_metrics["nid"]).aggregate("first").reset_index()
+        # records of one node and rank complement each other
+        groupby_cols = ["nid"]
+        if "mpi.rank" in df_metrics.columns:
+            groupby_cols.append("mpi.rank")
+        df_new = df_metrics.groupby(groupby_cols).aggregate("first").reset_index()
         return df_new
 
     def _reset_metrics(self, metrics):
-- 
2.43.0


From bf0c8775bfb82e561d7fefc7eff87797ef7b075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 52/84] fix: nodes without records had no row in native Caliper
 profiles without ranks

---
 hatchet/readers/caliper_native_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 9265880..b2f3478 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -444,6 +444,7 @@ class CaliperNativeReader:
                     if metric_rows.empty:
                         # add a single row
                         node_dict = dict(default_metric_dict)
+                        node_dict["nid"] = row["nid"]
                         missing_nodes.append(node_dict)
                 else:
                     if metric_rows.empty:
-- 
2.43.0


From 1bd45fc6577580a3b517414c8b05474f9c136834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 53/84] fix: root nodes had two rows per rank in native Caliper
 profiles of several ranks

---
 hatchet/readers/caliper_native_reader.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index b2f3478..a1e7006 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -221,15 +221,7 @@ class CaliperNativeReader:
                 if not parent_callpath:
                     list_roots.append(child_node)
 
-                    node_dict = dict(
-                        {
-                            "name": child_node.frame["name"],
-                            "node": child_node,
-                            "nid": self.global_nid,
-                        }
-                    )
-
-                    self.idx_to_node[self.global_nid] = node_dict
+                    # the caller registers the node, this nid stays unused
                     self.global_nid += 1
                 else:
                     grandparent_callpath = parent_callpath[:-1]
-- 
2.43.0


From 538987743859a326bd9fe64c2919ea8e55c64313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 54/84] fix: Caliper JSON could not be read from open text
 files

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index f4aa68d..3e3fed8 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -71,7 +71,7 @@ class CaliperReader:
             with open(self.filename_or_stream) as cali_json:
                 json_obj = json.load(cali_json)
         else:
-            json_obj = json.loads(self.filename_or_stream.read().decode("utf-8"))
+            json_obj = json.load(self.filename_or_stream)
 
         # read various sections of the Caliper JSON file
         self.json_data = json_obj["data"]
-- 
2.43.0


From 6bd54ead02b87c42d9d7c12e805bcf3fdae1b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 55/84] fix: Caliper JSON with null references in string
 columns could not be read

---
 hatchet/readers/caliper_reader.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3e3fed8..f456a30 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -8,7 +8,6 @@ import sys
 import re
 import subprocess
 import os
-import math
 
 import pandas as pd
 import numpy as np
@@ -138,6 +137,12 @@ class CaliperReader:
             if self.json_cols[idx] != "rank" and item["is_value"] is True:
                 self.metric_columns.append(self.json_cols[idx])
 
+    def node_label(self, node_id):
+        """Look up a reference to the nodes section, which may be null."""
+        if pd.isna(node_id):
+            return None
+        return self.json_nodes[int(node_id)]["label"]
+
     def create_graph(self):
         list_roots = []
 
@@ -246,14 +251,12 @@ class CaliperReader:
                     # we will only reach here if path is the "secondary"
                     # hierarchy in the data
                     self.df_json_data["path"] = self.df_json_data["path"].apply(
-                        lambda x: None
-                        if (math.isnan(x))
-                        else self.json_nodes[int(x)]["label"]
+                        self.node_label
                     )
                 else:
                     self.df_json_data[self.json_cols[idx]] = self.df_json_data[
                         self.json_cols[idx]
-                    ].apply(lambda x: self.json_nodes[x]["label"])
+                    ].apply(self.node_label)
 
         # since we split sourceloc, we should update json_cols and
         # json_cols_mdata
-- 
2.43.0


From 4b5e32c2511da69f550dfa6bb8209bb7f50e7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 56/84] fix: the node order of Caliper JSON was taken from the
 wrong records

---
 hatchet/readers/caliper_reader.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index f456a30..83aabf2 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -149,6 +149,15 @@ class CaliperReader:
         unknown_label_counter = 0
         order = -1
 
+        # if there is a node ordering, find the order given for each path
+        node_orders = {}
+        if "Node order" in self.json_cols:
+            self.node_ordering = True
+            order_col = self.json_cols.index("Node order")
+            path_col = self.json_cols.index(self.nid_col_name)
+            for entry in self.json_data:
+                node_orders.setdefault(entry[path_col], entry[order_col])
+
         # find nodes in the nodes section that represent the path hierarchy
         for idx, node in enumerate(self.json_nodes):
             node_label = node["label"]
@@ -159,9 +168,8 @@ class CaliperReader:
 
             if node["column"] == self.path_col_name:
                 # If there is a node orderering, assign to the _hatchet_nid
-                if "Node order" in self.json_cols:
-                    self.node_ordering = True
-                    order = self.json_data[idx][0]
+                if self.node_ordering:
+                    order = node_orders.get(idx, -1)
                 if "parent" not in node:
                     # since this node does not have a parent, this is a root
                     graph_root = Node(
-- 
2.43.0


From d5ad0b9f1c54a13cbbd092191dea606e8109abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 57/84] fix: the dropped "Node order" column of Caliper JSON
 was listed as a metric

---
 hatchet/readers/caliper_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 83aabf2..0faba3c 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -134,7 +134,11 @@ class CaliperReader:
         # make list of metric columns
         self.metric_columns = []
         for idx, item in enumerate(self.json_cols_mdata):
-            if self.json_cols[idx] != "rank" and item["is_value"] is True:
+            # we do not want to expose the "Node order" column to the user
+            if (
+                self.json_cols[idx] not in ("rank", "Node order")
+                and item["is_value"] is True
+            ):
                 self.metric_columns.append(self.json_cols[idx])
 
     def node_label(self, node_id):
-- 
2.43.0


From a6cba6f90b6a9e36bd6588343e392fcc349dd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 58/84] fix: line nodes of Caliper JSON could take the place of
 nodes without records

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 0faba3c..e0600c2 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -280,7 +280,7 @@ class CaliperReader:
             self.json_cols_mdata.append({"is_value": False})
             self.json_cols_mdata.append({"is_value": False})
 
-        max_nid = self.df_json_data[self.nid_col_name].max()
+        max_nid = max(self.idx_to_node)
 
         if "line" in self.df_json_data.columns:
             # split nodes that have multiple file:line numbers to have a child
-- 
2.43.0


From 19a12c8db71fe3b9a169d3fd8c19fcd4986ba8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 59/84] fix: equal line numbers of different files were merged
 in Caliper JSON

---
 hatchet/readers/caliper_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index e0600c2..d5b7ea4 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -289,13 +289,13 @@ class CaliperReader:
             df_concat = [self.df_json_data]
 
             for nid, super_node in unique_nodes:
-                line_groups = super_node.groupby("line")
+                line_groups = super_node.groupby(["file", "line"])
                 # only need to do something if there are more than one
                 # file:line number entries for the node
                 if len(line_groups.size()) > 1:
                     sn_hnode = self.idx_to_node[nid]["node"]
 
-                    for line, line_group in line_groups:
+                    for (_, line), line_group in line_groups:
                         # create the node label
                         file_path = (line_group.head(1))["file"].item()
                         file_name = os.path.basename(file_path)
-- 
2.43.0


From b6576ab0b7fdea58edc4356093ebcfde8abe26d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 60/84] fix: Caliper timeseries listed every metric once per
 profile

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index a1e7006..fbd4418 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -84,7 +84,10 @@ class CaliperNativeReader:
     def _create_metric_df(self, metrics):
         """Make a list of metric columns and create a dataframe, group by node"""
         for col in self.record_data_cols:
-            if self.filename_or_caliperreader.attribute(col).is_value():
+            if (
+                self.filename_or_caliperreader.attribute(col).is_value()
+                and col not in self.metric_cols
+            ):
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
         # records of one node and rank complement each other
-- 
2.43.0


From c6e8ed2ab6d98e5958b77213c317fdb8df58d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 61/84] fix: unsupported Caliper types ended in a NameError

---
 hatchet/readers/caliper_native_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index fbd4418..7bb8d88 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -17,7 +17,7 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 
 
-def __raise_cali_type_error(msg):
+def _raise_cali_type_error(msg):
     raise ValueError(msg)
 
 
@@ -25,10 +25,10 @@ class CaliperNativeReader:
     """Read in a native `.cali` file using Caliper's python reader."""
 
     __cali_type_dict = {
-        "inv": lambda dummy: __raise_cali_type_error(
+        "inv": lambda dummy: _raise_cali_type_error(
             "Caliper type 'inv' is unsupported in Hatchet"
         ),
-        "usr": lambda dummy: __raise_cali_type_error(
+        "usr": lambda dummy: _raise_cali_type_error(
             "Custom Caliper types are unsupported in Hatchet"
         ),
         "int": np.int64,
@@ -37,10 +37,10 @@ class CaliperNativeReader:
         "addr": np.uint64,
         "double": np.float64,
         "bool": bool,
-        "type": lambda dummy: __raise_cali_type_error(
+        "type": lambda dummy: _raise_cali_type_error(
             "Caliper 'type' types are unsupported in Hatchet"
         ),
-        "ptr": lambda dummy: __raise_cali_type_error(
+        "ptr": lambda dummy: _raise_cali_type_error(
             "Caliper 'ptr' types are for internal use only!"
         ),
     }
-- 
2.43.0


From 4d9e8e451b2c244d4c23ba2030e2df2da9b09cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 62/84] fix: false values of Caliper attributes were read as
 true

---
 hatchet/readers/caliper_native_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 7bb8d88..b090ec3 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -36,7 +36,7 @@ class CaliperNativeReader:
         "string": str,
         "addr": np.uint64,
         "double": np.float64,
-        "bool": bool,
+        "bool": lambda val: val in (True, "true"),
         "type": lambda dummy: _raise_cali_type_error(
             "Caliper 'type' types are unsupported in Hatchet"
         ),
-- 
2.43.0


From 99f6701c3eff1dc868c9437c3cbd777a282214da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 63/84] fix: the order of Caliper nodes was lost or taken from
 other records

---
 hatchet/readers/caliper_native_reader.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index b090ec3..c463756 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -253,7 +253,6 @@ class CaliperNativeReader:
 
         parent_hnode = None
         records = self.filename_or_caliperreader.records
-        order = -1
 
         for record in records:
             node_label = ""
@@ -284,15 +283,20 @@ class CaliperNativeReader:
                             parent_callpath = node_callpath[:-1]
                             node_type = "function"
 
+                        # set the _hatchet_nid by the node order column if it exists, else -1
+                        order = -1
+                        if "min#min#aggregate.slot" in record:
+                            self.node_ordering = True
+                            order = int(record["min#min#aggregate.slot"])
+
                         hnode = self.callpath_to_node.get(node_callpath)
 
+                        if hnode and hnode._hatchet_nid == -1:
+                            # the node was created before its own order was known
+                            hnode._hatchet_nid = order
+
                         if not hnode:
-                            # set the _hatchet_nid by the node order column if it exists, else -1
-                            if "min#min#aggregate.slot" in record:
-                                self.node_ordering = True
-                                order = record["min#min#aggregate.slot"]
                             frame = Frame({"type": node_type, "name": node_label})
-                            order = int(order)
                             hnode = Node(frame, hnid=order)
                             self.callpath_to_node[node_callpath] = hnode
 
-- 
2.43.0


From 10a41a2d715d81fe39f7fe861bdc7493a6ae90bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 64/84] fix: Caliper JSON with both hierarchies and source
 lines could not be read

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index d5b7ea4..4f214ba 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -229,7 +229,7 @@ class CaliperReader:
             agg_dict = {}
             for idx, item in enumerate(self.json_cols_mdata):
                 col = self.json_cols[idx]
-                if col != "rank" and col != "nid":
+                if col not in groupby_cols:
                     if item["is_value"] is True:
                         agg_dict[col] = np.sum
                     else:
-- 
2.43.0


From f877677c6086b53f9b21e9a9bb849c889bcbb3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 65/84] fix: Caliper timeseries listed metrics that a profile
 has no column of

---
 hatchet/readers/caliper_native_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index c463756..e2ab766 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -516,6 +516,9 @@ class CaliperNativeReader:
                 # ignore rank as an exc or inc metric
                 if column in ignore_columns:
                     continue
+                # in a timeseries, columns of other profiles
+                if old_to_new.get(column, column) not in df_metrics.columns:
+                    continue
 
                 # add new column names to list of metrics if inc or inclusive in
                 # old column names
-- 
2.43.0


From e1fd1d4515a783911005b4dca2916756eabbeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 66/84] fix: Roundtrip data with quotes, backslashes or line
 breaks broke the script it was in

---
 .../external/roundtrip/roundtrip/manager.py   | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 1b37973..8bcd845 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -44,6 +44,22 @@ def _default_from_converter(data):
     return data
 
 
+def _escape_js(text):
+    """
+    Escape a text for use in a quoted JavaScript string.
+
+    :param text: The text which is passed to JavaScript.
+    :returns: The text with backslashes, quotes and line breaks escaped.
+    """
+    return (
+        text.replace("\\", "\\\\")
+        .replace('"', '\\"')
+        .replace("'", "\\'")
+        .replace("\n", "\\n")
+        .replace("\r", "\\r")
+    )
+
+
 class RoundTrip:
     """
     Core Roundtrip class.
@@ -372,7 +388,9 @@ class RoundTrip:
         for flag in update_flags:
             new_data = self.watched[flag]["converter"](self.shell.user_ns[flag])
             for var in self.watched[flag]["js_var"]:
-                code += update_hook.format(js_var=var, data=new_data, var=flag)
+                code += update_hook.format(
+                    js_var=var, data=_escape_js(str(new_data)), var=flag
+                )
         if code != "":
             display(Javascript(code))
 
@@ -481,8 +499,8 @@ class Bridge:
         except Exception:
             pass
 
-        # Patch: Ensure all ' and " are escaped
-        data = data.replace('"', '\\"').replace("'", "\\'")
+        # Patch: Ensure all special characters are escaped
+        data = _escape_js(data)
 
         conv_spec = None
 
-- 
2.43.0


From f237e71cd1ca314275b63d7f02ac8ceab6562416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 67/84] fix: binding a watched variable again dropped its other
 JavaScript variables

---
 hatchet/external/roundtrip/roundtrip/manager.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 8bcd845..46ea206 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -301,11 +301,9 @@ class RoundTrip:
 
             jup_var = jup_var[1:]
 
-            if (
-                jup_var in self.watched.keys()
-                and js_variable not in self.watched[jup_var]["js_var"]
-            ):
-                self.watched[jup_var]["js_var"].append(js_variable)
+            if jup_var in self.watched.keys():
+                if js_variable not in self.watched[jup_var]["js_var"]:
+                    self.watched[jup_var]["js_var"].append(js_variable)
             else:
                 self.watched[jup_var] = {
                     "converter": to_js_converter,
-- 
2.43.0


From d0542112df01f5a621443aa8526c50b8a4c4dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 68/84] fix: texts with quotes, backslashes or line breaks
 could not be passed from JavaScript to Python

---
 hatchet/external/roundtrip/roundtrip/manager.py   | 2 +-
 hatchet/external/roundtrip/roundtrip/roundtrip.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 46ea206..b575181 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -525,7 +525,7 @@ class Bridge:
         hook_template = """
             (function(){{
                     var holder = Roundtrip['{src}'];
-                    holder = `\'${{holder}}\'`;
+                    holder = JSON.stringify(`${{holder}}`);
                     var code = {converter_code};
                     code += `\n{dest} = {converter_name}(${{holder}})`;
                     IPython.notebook.kernel.execute(code, {{
diff --git a/hatchet/external/roundtrip/roundtrip/roundtrip.js b/hatchet/external/roundtrip/roundtrip/roundtrip.js
index 309fd2d..a12b2fe 100644
--- a/hatchet/external/roundtrip/roundtrip/roundtrip.js
+++ b/hatchet/external/roundtrip/roundtrip/roundtrip.js
@@ -35,7 +35,7 @@ function unindentPyCode(code){
  */
 function buildPythonAssignment(val, py_var, converter){
     // console.log(val, py_var, converter);
-    var holder = `'${val}'`;
+    var holder = JSON.stringify(`${val}`);
     var code = `${unindentPyCode(converter.code)}`
     code += `\ntmp = ${holder}`;
     code += `\n${py_var} = ${converter.name}(tmp)`
-- 
2.43.0


From 98f597d17f430de6439313b7114260b08e62ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 69/84] fix: variables bound with '?' but without watching were
 watched

---
 .../external/roundtrip/roundtrip/manager.py   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index b575181..a79d333 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -296,19 +296,19 @@ class RoundTrip:
                     )
                 )
                 watch = "false"
+                jup_var = jup_var[1:]
             else:
                 watch = "true"
-
-            jup_var = jup_var[1:]
-
-            if jup_var in self.watched.keys():
-                if js_variable not in self.watched[jup_var]["js_var"]:
-                    self.watched[jup_var]["js_var"].append(js_variable)
-            else:
-                self.watched[jup_var] = {
-                    "converter": to_js_converter,
-                    "js_var": [js_variable],
-                }
+                jup_var = jup_var[1:]
+
+                if jup_var in self.watched.keys():
+                    if js_variable not in self.watched[jup_var]["js_var"]:
+                        self.watched[jup_var]["js_var"].append(js_variable)
+                else:
+                    self.watched[jup_var] = {
+                        "converter": to_js_converter,
+                        "js_var": [js_variable],
+                    }
         else:
             watch = "false"
 
-- 
2.43.0


From 3fe9769a147fe53ee439ea7ad05d09e8141210a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 70/84] fix: an unknown colormap raised AttributeError instead
 of the intended ValueError

---
 hatchet/util/colormaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/colormaps.py b/hatchet/util/colormaps.py
index b3b23ce..998f272 100644
--- a/hatchet/util/colormaps.py
+++ b/hatchet/util/colormaps.py
@@ -125,7 +125,7 @@ class ColorMaps:
             self.colors = self.Spectral.copy()
         else:
             raise ValueError(
-                self.colormap
+                str(colormap)
                 + " is an incorrect colormap. Select one BrBG, PiYg, PRGn,"
                 + " PuOr, RdBu, RdGy, RdYlBu, RdYlGn, or Spectral."
             )
-- 
2.43.0


From 9971ee21b4273c275aa9ab7834c7f42d1383cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 71/84] fix: tree() with colormap_annotations failed when the
 output is not a terminal

---
 hatchet/external/console.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 613b523..bf9a73c 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -94,6 +94,8 @@ class ConsoleRenderer:
                     self.colors_annotations_mapping = self.colormap_annotations
         else:
             self.colors = self.colors_disabled
+            # annotations are not colored either
+            self.colormap_annotations = None
 
         if isinstance(self.metric_columns, str):
             self.primary_metric = self.metric_columns
-- 
2.43.0


From 182375b57d81b1d38d6154cd4677f535ea78bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 72/84] fix: tree() with a list or dict of colors for temporal
 patterns failed in the legend

---
 hatchet/external/console.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index bf9a73c..e1dc345 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -226,11 +226,9 @@ class ConsoleRenderer:
                     if "none" not in k:
                         legend += "   " + self.temporal_symbols[k] + " " + k
                 legend += "\nTemporal Score  "
-                if self.colormap_annotations:
+                if isinstance(self.colormap_annotations, (str, list)):
                     legend_color_mapping = sorted(score_ranges)
-                    legend_colormap = ColorMaps().get_colors(
-                        self.colormap_annotations, False
-                    )
+                    legend_colormap = self.colors_annotations.colormap
                     for i in range(len(score_ranges) - 1):
                         color = legend_colormap[
                             legend_color_mapping.index(score_ranges[i + 1])
@@ -241,7 +239,7 @@ class ConsoleRenderer:
                             score_ranges[i], score_ranges[i + 1]
                         )
                         legend += "{}".format(self.colors_annotations.end)
-                else:  # no color map passed in
+                else:  # no color map passed in, or one for the patterns only
                     for i in range(len(score_ranges) - 1):
                         legend += "   {} - {}".format(
                             score_ranges[i], score_ranges[i + 1]
@@ -301,10 +299,17 @@ class ConsoleRenderer:
                         )
                         coloring_content = pattern_metric
                         if coloring_content != "none":
-                            color_annotation = self.colors_annotations.colormap[
-                                self.colors_annotations_mapping.index(coloring_content)
-                                % len(self.colors_annotations.colormap)
-                            ]
+                            if isinstance(self.colormap_annotations, dict):
+                                color_annotation = self.colormap_annotations[
+                                    coloring_content
+                                ]
+                            else:
+                                color_annotation = self.colors_annotations.colormap[
+                                    self.colors_annotations_mapping.index(
+                                        coloring_content
+                                    )
+                                    % len(self.colors_annotations.colormap)
+                                ]
                             metric_str += " {}".format(color_annotation)
                             metric_str += "{}".format(annotation_content)
                             metric_str += "{}".format(self.colors_annotations.end)
-- 
2.43.0


From d1dd183441ce6abf639582cf0e67870420e8ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 73/84] fix: queries of the tree visualization reached Python
 with backslashes since its texts are quoted

---
 hatchet/vis/scripts/cct/cct_model.js | 14 +++++++-------
 hatchet/vis/static/cct_bundle.js     | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_model.js b/hatchet/vis/scripts/cct/cct_model.js
index 51518b3..5e7d3c5 100644
--- a/hatchet/vis/scripts/cct/cct_model.js
+++ b/hatchet/vis/scripts/cct/cct_model.js
@@ -39,7 +39,7 @@ class Model{
                     };
 
         //setup model
-        RT['jsNodeSelected'] = 'MATCH (\\"*\\")->(a) WHERE a.\\"name\\" IS NOT NONE';
+        RT['jsNodeSelected'] = 'MATCH ("*")->(a) WHERE a."name" IS NOT NONE';
         let cleanTree = RT["hatchet_tree_def"];
         let _forestData = JSON.parse(cleanTree);
         this.forest = new Forest(_forestData);
@@ -673,20 +673,20 @@ class Model{
         let full_query = '';
 
         //inclusive query
-        let path_query = `MATCH (\\"*\\")->(n) `;
+        let path_query = `MATCH ("*")->(n) `;
         let initial_flag = true;
         for(const leaf of norms){
             if(initial_flag){
                 if(leaf.data.aggregate){
-                    path_query += `WHERE n.\\"node_id\\" = ${leaf.data.prototype.data.metrics._hatchet_nid}`;
+                    path_query += `WHERE n."node_id" = ${leaf.data.prototype.data.metrics._hatchet_nid}`;
                 }
                 else{
-                    path_query += `WHERE n.\\"node_id\\" = ${leaf.data.metrics._hatchet_nid}`;
+                    path_query += `WHERE n."node_id" = ${leaf.data.metrics._hatchet_nid}`;
                 }
                 initial_flag = false;
             }
             else{
-                path_query += ` OR n.\\"node_id\\" = ${leaf.data.metrics._hatchet_nid}`;
+                path_query += ` OR n."node_id" = ${leaf.data.metrics._hatchet_nid}`;
             }
         }
 
@@ -700,11 +700,11 @@ class Model{
             let ex_query = 'MATCH (r) ' 
             for(const node of this.data.removedNodes){
                 if(initial_flag){
-                    ex_query += `WHERE NOT r.\\"node_id\\" = ${node.data.metrics._hatchet_nid}`;
+                    ex_query += `WHERE NOT r."node_id" = ${node.data.metrics._hatchet_nid}`;
                     initial_flag = false;
                 }
                 else{
-                    ex_query += ` AND NOT r.\\"node_id\\" = ${node.data.metrics._hatchet_nid}`;
+                    ex_query += ` AND NOT r."node_id" = ${node.data.metrics._hatchet_nid}`;
                 }
             }
 
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 912ac50..f7f3067 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -22044,7 +22044,7 @@ var Model = /*#__PURE__*/function () {
       "metricUpdated": true
     }; //setup model
 
-    RT.jsNodeSelected = 'MATCH (\\"*\\")->(a) WHERE a.\\"name\\" IS NOT NONE';
+    RT.jsNodeSelected = 'MATCH ("*")->(a) WHERE a."name" IS NOT NONE';
     var cleanTree = RT.hatchet_tree_def;
 
     var _forestData = JSON.parse(cleanTree);
@@ -22797,7 +22797,7 @@ var Model = /*#__PURE__*/function () {
       console.log(norms);
       var full_query = ''; //inclusive query
 
-      var path_query = "MATCH (\\\"*\\\")->(n) ";
+      var path_query = "MATCH (\"*\")->(n) ";
       var initial_flag = true;
 
       var _iterator8 = cct_model_createForOfIteratorHelper(norms),
@@ -22809,14 +22809,14 @@ var Model = /*#__PURE__*/function () {
 
           if (initial_flag) {
             if (leaf.data.aggregate) {
-              path_query += "WHERE n.\\\"node_id\\\" = ".concat(leaf.data.prototype.data.metrics._hatchet_nid);
+              path_query += "WHERE n.\"node_id\" = ".concat(leaf.data.prototype.data.metrics._hatchet_nid);
             } else {
-              path_query += "WHERE n.\\\"node_id\\\" = ".concat(leaf.data.metrics._hatchet_nid);
+              path_query += "WHERE n.\"node_id\" = ".concat(leaf.data.metrics._hatchet_nid);
             }
 
             initial_flag = false;
           } else {
-            path_query += " OR n.\\\"node_id\\\" = ".concat(leaf.data.metrics._hatchet_nid);
+            path_query += " OR n.\"node_id\" = ".concat(leaf.data.metrics._hatchet_nid);
           }
         }
       } catch (err) {
@@ -22840,10 +22840,10 @@ var Model = /*#__PURE__*/function () {
             var node = _step9.value;
 
             if (initial_flag) {
-              ex_query += "WHERE NOT r.\\\"node_id\\\" = ".concat(node.data.metrics._hatchet_nid);
+              ex_query += "WHERE NOT r.\"node_id\" = ".concat(node.data.metrics._hatchet_nid);
               initial_flag = false;
             } else {
-              ex_query += " AND NOT r.\\\"node_id\\\" = ".concat(node.data.metrics._hatchet_nid);
+              ex_query += " AND NOT r.\"node_id\" = ".concat(node.data.metrics._hatchet_nid);
             }
           }
         } catch (err) {
-- 
2.43.0


From a096ecf503bcc21aa2134a62dc6e9a243a55d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 74/84] fix: the tree visualization failed on profiles with two
 private metrics in a row

---
 hatchet/vis/scripts/cct/cct_repr.js | 1 +
 hatchet/vis/static/cct_bundle.js    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hatchet/vis/scripts/cct/cct_repr.js b/hatchet/vis/scripts/cct/cct_repr.js
index fdf8248..0da0a7e 100644
--- a/hatchet/vis/scripts/cct/cct_repr.js
+++ b/hatchet/vis/scripts/cct/cct_repr.js
@@ -163,6 +163,7 @@ class Forest{
             //remove private metric
             if(this.metricColumns[metric][0] == '_'){
                 this.metricColumns.splice(metric, 1);
+                metric--;
             }
             else{
                 //setup aggregrate min max for metric
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index f7f3067..1536896 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -17355,6 +17355,7 @@ var Forest = /*#__PURE__*/function () {
 
         if (this.metricColumns[metric][0] == '_') {
           this.metricColumns.splice(metric, 1);
+          metric--;
         } else {
           //setup aggregrate min max for metric
           this.aggregateMinMax[metricName] = {
-- 
2.43.0


From d81fe448d392d9f3ac6472ba8abcd522018200fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 75/84] fix: trees of the visualization were listed under the
 names of other trees

---
 hatchet/vis/scripts/cct/cct_repr.js |  6 +-----
 hatchet/vis/static/cct_bundle.js    | 11 +----------
 2 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_repr.js b/hatchet/vis/scripts/cct/cct_repr.js
index 0da0a7e..6b725b1 100644
--- a/hatchet/vis/scripts/cct/cct_repr.js
+++ b/hatchet/vis/scripts/cct/cct_repr.js
@@ -140,9 +140,6 @@ class Forest{
             this.prePrunedTrees.push(pt);
             this.mutableTrees[t] = pt;   
         }
-
-        this.prePrunedTrees.sort((a,b) => b.size - a.size);
-        this.mutableTrees.sort((a,b) => b.size - a.size);
     }
 
 
@@ -173,11 +170,10 @@ class Forest{
 
         //setup repository of metrics across trees and forest
         for (var index = 0; index < this.numberOfTrees; index++) {
-            var thisTree = forestData[index];
             let mc = this.metricColumns;
 
             // Get tree names for the display select options
-            this.rootNodeNames.push(thisTree.frame.name);
+            this.rootNodeNames.push(this.immutableTrees[index].data.frame.name);
 
             var thisTreeMetrics = {};
 
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 1536896..daed2dc 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -17329,13 +17329,6 @@ var Forest = /*#__PURE__*/function () {
         this.prePrunedTrees.push(pt);
         this.mutableTrees[t] = pt;
       }
-
-      this.prePrunedTrees.sort(function (a, b) {
-        return b.size - a.size;
-      });
-      this.mutableTrees.sort(function (a, b) {
-        return b.size - a.size;
-      });
     }
   }, {
     key: "organizeMetrics",
@@ -17367,10 +17360,9 @@ var Forest = /*#__PURE__*/function () {
 
 
       var _loop = function _loop() {
-        thisTree = forestData[index];
         var mc = _this.metricColumns; // Get tree names for the display select options
 
-        _this.rootNodeNames.push(thisTree.frame.name);
+        _this.rootNodeNames.push(_this.immutableTrees[index].data.frame.name);
 
         thisTreeMetrics = {};
 
@@ -17400,7 +17392,6 @@ var Forest = /*#__PURE__*/function () {
       };
 
       for (var index = 0; index < this.numberOfTrees; index++) {
-        var thisTree;
         var thisTreeMetrics;
         var j;
 
-- 
2.43.0


From c4ceee3407fa34c844c91714d1509a17a42072ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 76/84] fix: resetting the visualized trees did not bring back
 their initial state

---
 hatchet/vis/scripts/cct/cct_repr.js | 55 ++++++++---------------------
 hatchet/vis/static/cct_bundle.js    | 50 ++++++++------------------
 2 files changed, 29 insertions(+), 76 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_repr.js b/hatchet/vis/scripts/cct/cct_repr.js
index 6b725b1..fbbffce 100644
--- a/hatchet/vis/scripts/cct/cct_repr.js
+++ b/hatchet/vis/scripts/cct/cct_repr.js
@@ -14,7 +14,7 @@ class Forest{
     constructor(cct_forest_def){
         //initialize forest containers
         this.immutableTrees = [];
-        this.prePrunedTrees = [];
+        this.prePruneMetric = null;
         this.mutableTrees = [];
 
         //initialize forest descriptors
@@ -120,26 +120,8 @@ class Forest{
          *  to ensure that intially drawn trees are not overly cluttered
          *  with irrelevant noisy data.
          */
-        let newTrees = this.getFreshTrees();
-
-        for(let t in newTrees){
-            let pt = this.pruneTree(newTrees[t], primaryMetric, (h, primaryMetric)=>{
-                h.each(function(node){
-                    var metric = node.data.metrics[primaryMetric];
-                    if(metric != 0){
-                        node.data.show = 1;
-                    }
-                    else{
-                        node.data.show = 0;
-                    }
-                })
-            });
-
-            pt.size = pt.descendants().length;
-
-            this.prePrunedTrees.push(pt);
-            this.mutableTrees[t] = pt;   
-        }
+        this.prePruneMetric = primaryMetric;
+        this.mutableTrees = this.getPrePrunedTrees();
     }
 
 
@@ -510,25 +492,18 @@ class Forest{
          */
         let mutableTrees = [];
 
-
-        for(let tree of this.prePrunedTrees){
-            /**
-             * We lose elided and dummy here when we copy.
-             */
-            let t = tree.copy();
-            t.size = t.descendants().length;
-
-            let t_nodes = t.descendants();
-            let tree_nodes = tree.descendants();
-            for(let i in tree_nodes){
-                if(tree_nodes[i].aggregate){
-                    t_nodes[i].aggregate = true;
-                    t_nodes[i].elided = tree_nodes[i].elided;
-                }
-                
-            }
-
-            mutableTrees.push(t);
+        for(let tree of this.getFreshTrees()){
+            mutableTrees.push(this.pruneTree(tree, this.prePruneMetric, (h, primaryMetric)=>{
+                h.each(function(node){
+                    var metric = node.data.metrics[primaryMetric];
+                    if(metric != 0){
+                        node.data.show = 1;
+                    }
+                    else{
+                        node.data.show = 0;
+                    }
+                })
+            }));
         }
 
         return mutableTrees;
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index daed2dc..d38883e 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -17184,7 +17184,7 @@ var Forest = /*#__PURE__*/function () {
 
     //initialize forest containers
     this.immutableTrees = [];
-    this.prePrunedTrees = [];
+    this.prePruneMetric = null;
     this.mutableTrees = []; //initialize forest descriptors
 
     this.numberOfTrees = cct_forest_def.length;
@@ -17311,24 +17311,8 @@ var Forest = /*#__PURE__*/function () {
        *  to ensure that intially drawn trees are not overly cluttered
        *  with irrelevant noisy data.
        */
-      var newTrees = this.getFreshTrees();
-
-      for (var t in newTrees) {
-        var pt = this.pruneTree(newTrees[t], primaryMetric, function (h, primaryMetric) {
-          h.each(function (node) {
-            var metric = node.data.metrics[primaryMetric];
-
-            if (metric != 0) {
-              node.data.show = 1;
-            } else {
-              node.data.show = 0;
-            }
-          });
-        });
-        pt.size = pt.descendants().length;
-        this.prePrunedTrees.push(pt);
-        this.mutableTrees[t] = pt;
-      }
+      this.prePruneMetric = primaryMetric;
+      this.mutableTrees = this.getPrePrunedTrees();
     }
   }, {
     key: "organizeMetrics",
@@ -17785,29 +17769,23 @@ var Forest = /*#__PURE__*/function () {
        */
       var mutableTrees = [];
 
-      var _iterator10 = _createForOfIteratorHelper(this.prePrunedTrees),
+      var _iterator10 = _createForOfIteratorHelper(this.getFreshTrees()),
           _step10;
 
       try {
         for (_iterator10.s(); !(_step10 = _iterator10.n()).done;) {
           var tree = _step10.value;
+          mutableTrees.push(this.pruneTree(tree, this.prePruneMetric, function (h, primaryMetric) {
+            h.each(function (node) {
+              var metric = node.data.metrics[primaryMetric];
 
-          /**
-           * We lose elided and dummy here when we copy.
-           */
-          var t = tree.copy();
-          t.size = t.descendants().length;
-          var t_nodes = t.descendants();
-          var tree_nodes = tree.descendants();
-
-          for (var i in tree_nodes) {
-            if (tree_nodes[i].aggregate) {
-              t_nodes[i].aggregate = true;
-              t_nodes[i].elided = tree_nodes[i].elided;
-            }
-          }
-
-          mutableTrees.push(t);
+              if (metric != 0) {
+                node.data.show = 1;
+              } else {
+                node.data.show = 0;
+              }
+            });
+          }));
         }
       } catch (err) {
         _iterator10.e(err);
-- 
2.43.0


From 4025b86d567ab2bd85b0afd937341142fd9b4b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 77/84] fix: snapshot queries of the visualization left out
 nodes composed before the trees were pruned again

---
 hatchet/vis/scripts/cct/cct_model.js | 3 +++
 hatchet/vis/static/cct_bundle.js     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/hatchet/vis/scripts/cct/cct_model.js b/hatchet/vis/scripts/cct/cct_model.js
index 5e7d3c5..bb7ba8e 100644
--- a/hatchet/vis/scripts/cct/cct_model.js
+++ b/hatchet/vis/scripts/cct/cct_model.js
@@ -339,6 +339,7 @@ class Model{
          */
         this.data.currentStrictness = threshold;
         this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
+        this.data.removedNodes = [];
         this.state.hierarchyUpdated = true;
 
         this._observers.notify();
@@ -561,6 +562,7 @@ class Model{
         if(source.includes("primary")){
             if(this.state.pruneEnabled){
                 this.forest.resetMutable();
+                this.data.removedNodes = [];
                 this.state.hierarchyUpdated = true;
             }
 
@@ -628,6 +630,7 @@ class Model{
         });
 
         this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
+        this.data.removedNodes = [];
 
         this.state.hierarchyUpdated = true;
         
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index d38883e..ce58b1a 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -22370,6 +22370,7 @@ var Model = /*#__PURE__*/function () {
        */
       this.data.currentStrictness = threshold;
       this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
+      this.data.removedNodes = [];
       this.state.hierarchyUpdated = true;
 
       this._observers.notify();
@@ -22638,6 +22639,7 @@ var Model = /*#__PURE__*/function () {
       if (source.includes("primary")) {
         if (this.state.pruneEnabled) {
           this.forest.resetMutable();
+          this.data.removedNodes = [];
           this.state.hierarchyUpdated = true;
         }
 
@@ -22708,6 +22710,7 @@ var Model = /*#__PURE__*/function () {
         });
       });
       this.forest.aggregateTreeData(this.state.primaryMetric, this._setRangeFlags());
+      this.data.removedNodes = [];
       this.state.hierarchyUpdated = true;
 
       this._observers.notify();
-- 
2.43.0


From ae05033cc8a7e778938252c567b909dd23b4495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 78/84] fix: collapsed subtrees of the visualization did not
 count the subtrees collapsed in them

---
 hatchet/vis/scripts/cct/cct_repr.js | 3 +++
 hatchet/vis/static/cct_bundle.js    | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/hatchet/vis/scripts/cct/cct_repr.js b/hatchet/vis/scripts/cct/cct_repr.js
index fbbffce..cad3b59 100644
--- a/hatchet/vis/scripts/cct/cct_repr.js
+++ b/hatchet/vis/scripts/cct/cct_repr.js
@@ -236,6 +236,9 @@ class Forest{
                         }
                         else{
                             h.sum(d=>{
+                                    if(d.aggregate){
+                                        return d.aggregateMetrics[metric] * d.elided.length;
+                                    }
                                     return d.metrics[metric];
                             });
                         }
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index ce58b1a..3bb63a2 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -17442,6 +17442,10 @@ var Forest = /*#__PURE__*/function () {
                   };
                 } else {
                   h.sum(function (d) {
+                    if (d.aggregate) {
+                      return d.aggregateMetrics[metric] * d.elided.length;
+                    }
+
                     return d.metrics[metric];
                   });
                 }
-- 
2.43.0


From 88a2aa36e2db74ab06a1fa5a66e496eba44ed763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 79/84] fix: numbers just below 1000 were shown as millions in
 the visualization

---
 hatchet/vis/scripts/cct/cct_globals.js | 2 +-
 hatchet/vis/static/cct_bundle.js       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_globals.js b/hatchet/vis/scripts/cct/cct_globals.js
index 848f2cf..08dfae0 100644
--- a/hatchet/vis/scripts/cct/cct_globals.js
+++ b/hatchet/vis/scripts/cct/cct_globals.js
@@ -66,7 +66,7 @@ function getSigFigString(num){
         return num.toFixed(2);
     }
     else{
-        let numdig = parseInt(num).toString().length;
+        let numdig = parseInt(num.toFixed(2)).toString().length;
         for(let i = 4; i <= numdig; i +=3){
             num = (parseInt(num)/1000);
         }
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 3bb63a2..d297cf6 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -16342,7 +16342,7 @@ function getSigFigString(num) {
   if (num.toFixed(2).length <= 6) {
     return num.toFixed(2);
   } else {
-    var numdig = parseInt(num).toString().length;
+    var numdig = parseInt(num.toFixed(2)).toString().length;
 
     for (var i = 4; i <= numdig; i += 3) {
       num = parseInt(num) / 1000;
-- 
2.43.0


From 9ff40509ef144a4549b3dcdbbcd94c2a9b76d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 80/84] fix: subtrees below a composed node of the
 visualization could not be expanded again

---
 hatchet/vis/scripts/cct/cct_model.js | 7 +++++--
 hatchet/vis/static/cct_bundle.js     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_model.js b/hatchet/vis/scripts/cct/cct_model.js
index bb7ba8e..60398a7 100644
--- a/hatchet/vis/scripts/cct/cct_model.js
+++ b/hatchet/vis/scripts/cct/cct_model.js
@@ -395,14 +395,17 @@ class Model{
             if(d.data.elided.length == 1){
                 // patch that clears aggregate metrics upon doubleclick
                 let insIndex = d.parent.children.indexOf(d);
+                d.data.prototype.parent = d.parent;
                 d.parent.children[insIndex] = d.data.prototype;
             }
             else{
                 for(let elided of d.data.elided){
                     delete elided.data.aggregateMetrics;
-                    let delIndex = d.parent._children.indexOf(elided);
-                    d.parent._children.splice(delIndex, 1);
+                    // the elided nodes may have lost their parent by composition
+                    let delIndex = elided.parent._children.indexOf(elided);
+                    elided.parent._children.splice(delIndex, 1);
 
+                    elided.parent = d.parent;
                     d.parent.children.push(elided);
                 }
                 d.parent.children = d.parent.children.filter(child => child !== d);
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index d297cf6..a8cf5cd 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -22430,6 +22430,7 @@ var Model = /*#__PURE__*/function () {
         if (d.data.elided.length == 1) {
           // patch that clears aggregate metrics upon doubleclick
           var insIndex = d.parent.children.indexOf(d);
+          d.data.prototype.parent = d.parent;
           d.parent.children[insIndex] = d.data.prototype;
         } else {
           var _iterator3 = cct_model_createForOfIteratorHelper(d.data.elided),
@@ -22440,10 +22441,12 @@ var Model = /*#__PURE__*/function () {
               var elided = _step3.value;
               delete elided.data.aggregateMetrics;
 
-              var delIndex = d.parent._children.indexOf(elided);
+              // the elided nodes may have lost their parent by composition
+              var delIndex = elided.parent._children.indexOf(elided);
 
-              d.parent._children.splice(delIndex, 1);
+              elided.parent._children.splice(delIndex, 1);
 
+              elided.parent = d.parent;
               d.parent.children.push(elided);
             }
           } catch (err) {
-- 
2.43.0


From ff9df745e16f3d6c07adeabae01759bb600ec3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 81/84] fix: graphframes with integer metrics could not be
 visualized

---
 hatchet/vis/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/vis/loader.py b/hatchet/vis/loader.py
index 902dce8..2f3bcd6 100644
--- a/hatchet/vis/loader.py
+++ b/hatchet/vis/loader.py
@@ -15,11 +15,14 @@ vis_dir = dirname(path.abspath(__file__))
 
 def _gf_to_json(data):
     import json
+    from numpy import generic
     from pandas import Series
 
     def serialize(obj):
         if isinstance(obj, Series):
             return obj.to_json
+        if isinstance(obj, generic):
+            return obj.item()
         return obj.__dict__
 
     try:
-- 
2.43.0


From 368d7fe0e027f5ee436d138ac5a4ede963df77db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 82/84] fix: leave the dataframe alone when aggregating the
 index levels fails

---
 hatchet/graphframe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 96139ec..75335c2 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -439,8 +439,9 @@ class GraphFrame:
                 agg_dict[col] = lambda x: x.iloc[0]
 
         # perform a groupby to merge nodes that just differ in index columns
-        self.dataframe.reset_index(level="node", inplace=True)
-        agg_df = self.dataframe.groupby("node").agg(agg_dict)
+        # (the function may raise, so don't change the dataframe before that)
+        df = self.dataframe.reset_index(level="node")
+        agg_df = df.groupby("node").agg(agg_dict)
 
         self.dataframe = agg_df
 
-- 
2.43.0


From 8bef0021058b549495a6fb51f6b8a01cf0ea3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 83/84] fix: check the lengths of the column lists of a sum
 before adding columns

---
 hatchet/graphframe.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 75335c2..2116081 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -669,14 +669,13 @@ class GraphFrame:
         """Helper function for subtree_sum and subgraph_sum."""
         if out_columns is None:
             out_columns = columns
+        elif len(columns) != len(out_columns):
+            raise ValueError("columns out_columns must be the same length!")
         else:
             # init out columns with input columns in case they are not there.
             for col, out in zip(columns, out_columns):
                 self.dataframe[out] = self.dataframe[col]
 
-        if len(columns) != len(out_columns):
-            raise ValueError("columns out_columns must be the same length!")
-
         return out_columns
 
     def subtree_sum(
-- 
2.43.0


From bc6ca35984fe4813968c97e6c2ec82b80614cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 84/84] fix: tree() uses a given colour limit of 0

---
 hatchet/external/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index e1dc345..ab3186f 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -143,8 +143,12 @@ class ConsoleRenderer:
             metric_series.values[isfinite_mask], metric_series.index[isfinite_mask]
         )
 
-        self.max_metric = self.max_value if self.max_value else filtered_series.max()
-        self.min_metric = self.min_value if self.min_value else filtered_series.min()
+        self.max_metric = (
+            self.max_value if self.max_value is not None else filtered_series.max()
+        )
+        self.min_metric = (
+            self.min_value if self.min_value is not None else filtered_series.min()
+        )
 
         if self.unicode:
             self.lr_arrows = {"◀": "◀ ", "▶": "▶ "}
-- 
2.43.0

