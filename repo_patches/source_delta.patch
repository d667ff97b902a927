From 8d5082dafdd17efeb0b8891be766b1c2d33d6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 01/74] fix: keep the ancestor relation transitively closed
 when an edge is added

adjust_dpath propagated ancestors of the tail to the head and descendants of
the head to the tail, but never ancestors of the tail to descendants of the
head, so is_ancestor_of and friends depended on the order edges were added in
(e.g. a->b, c->d, then b->c left a not an ancestor of d), and Meek's cycle
guard could be bypassed.
---
 causallearn/graph/Dag.py          | 10 ++++------
 causallearn/graph/GeneralGraph.py | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index 1f549ff..df12261 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -52,12 +52,10 @@ class Dag(GeneralGraph):
         dpath = self.dpath
         dpath[j, i] = 1
 
-        for k in range(self.num_vars):
-            if dpath[i, k] == 1:
-                dpath[j, k] = 1
-
-            if dpath[k, j] == 1:
-                dpath[k, i] = 1
+        # every ancestor of i becomes an ancestor of every descendant of j
+        ancestors = [k for k in range(self.num_vars) if k == i or dpath[i, k] == 1]
+        descendants = [k for k in range(self.num_vars) if k == j or dpath[k, j] == 1]
+        dpath[np.ix_(descendants, ancestors)] = 1
 
         self.dpath = dpath
 
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 0969f44..cdedf83 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -54,12 +54,10 @@ class GeneralGraph(Graph, ABC):
         dpath = self.dpath
         dpath[j, i] = 1
 
-        for k in range(self.num_vars):
-            if dpath[i, k] == 1:
-                dpath[j, k] = 1
-
-            if dpath[k, j] == 1:
-                dpath[k, i] = 1
+        # every ancestor of i becomes an ancestor of every descendant of j
+        ancestors = [k for k in range(self.num_vars) if k == i or dpath[i, k] == 1]
+        descendants = [k for k in range(self.num_vars) if k == j or dpath[k, j] == 1]
+        dpath[np.ix_(descendants, ancestors)] = 1
 
         self.dpath = dpath
 
-- 
2.43.0


From 23e7361af5e0ba7c795a76edf65c46d8348df295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 02/74] fix: graph equality compares the nodes and no longer
 reorders them

list.sort() returns None, so the node lists were never compared, and the call
sorted each graph's node list in place, leaving it out of step with the
matrix and node_map.
---
 causallearn/graph/Dag.py          | 7 +++----
 causallearn/graph/GeneralGraph.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index df12261..c75c1d2 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -198,11 +198,10 @@ class Dag(GeneralGraph):
     def __eq__(self, other):
 
         if isinstance(other, Dag):
-            sorted_list = self.nodes.sort()
-            if sorted_list == other.nodes.sort() and np.array_equal(self.graph, other.graph):
-                return True
-            else:
+            if len(self.nodes) != len(other.nodes) or any(node not in other.node_map for node in self.nodes):
                 return False
+            order = [other.node_map[node] for node in self.nodes]
+            return np.array_equal(self.graph, other.graph[np.ix_(order, order)])
         else:
             return False
 
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index cdedf83..bb3e394 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -329,11 +329,10 @@ class GeneralGraph(Graph, ABC):
     # directed edges and one undirected edge between nodes A and B.
     def __eq__(self, other):
         if isinstance(other, GeneralGraph):
-            sorted_list = self.nodes.sort()
-            if sorted_list == other.nodes.sort() and np.array_equal(self.graph, other.graph):
-                return True
-            else:
+            if len(self.nodes) != len(other.nodes) or any(node not in other.node_map for node in self.nodes):
                 return False
+            order = [other.node_map[node] for node in self.nodes]
+            return np.array_equal(self.graph, other.graph[np.ix_(order, order)])
         else:
             return False
 
-- 
2.43.0


From 3b50404cfafc468d266ed4001e2a801fee652cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 03/74] fix: add_edge and contains_edge handle an edge given as
 o--

Edge(a, b, CIRCLE, TAIL) was silently dropped (while Edge(b, a, TAIL, CIRCLE),
the same edge, was accepted), and add_edge returned None instead of True for
edges whose first endpoint is a tail.
---
 causallearn/graph/GeneralGraph.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index bb3e394..2e44940 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -183,11 +183,18 @@ class GeneralGraph(Graph, ABC):
                                 self.graph[j, i] = 2
                                 self.graph[i, j] = 2
                         else:
-                            return False
+                            if endpoint2 == "TAIL":
+                                if bidirected:
+                                    return False
+                                else:
+                                    self.graph[j, i] = -1
+                                    self.graph[i, j] = 2
+                            else:
+                                return False
                 else:
                     return False
 
-            return True
+        return True
 
     # Adds a node to the graph. Precondition: The proposed name of the node
     # cannot already be used by any other node in the same graph.
@@ -289,7 +296,7 @@ class GeneralGraph(Graph, ABC):
                             else:
                                 return False
                         else:
-                            return False
+                            return endpoint2 == "TAIL" and e1 == 2 and e2 == -1
                 else:
                     return False
 
-- 
2.43.0


From d2659972431f321e97452f4a2cca7b05e1708af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 04/74] fix: adding a bidirected edge twice does not corrupt a
 double edge

With a directed and a bidirected edge already between two nodes, adding the
bidirected edge again turned the arrow of the directed edge into a tail.
---
 causallearn/graph/GeneralGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 2e44940..03b93be 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -150,7 +150,7 @@ class GeneralGraph(Graph, ABC):
                 if endpoint2 == "ARROW":
                     if existing_edge:
 
-                        if e1 == 2 or e2 == 2:
+                        if e1 not in (1, -1) or e2 not in (1, -1):
                             return False
                         if self.graph[j, i] == Endpoint.ARROW.value:
                             self.graph[j, i] = Endpoint.ARROW_AND_ARROW.value
-- 
2.43.0


From 00267855548de2a0bd94c4cc2aa4934420e1c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 05/74] fix: count the arrow end of a tail-and-arrow endpoint

With i --> j and i <-> j, i has an incoming arrow: get_indegree, is_exogenous,
get_nodes_into and get_nodes_out_of ignored it; is_parent_of/is_child_of held
for undirected-plus-bidirected pairs, which have no direction.
---
 causallearn/graph/GeneralGraph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 03b93be..9d398bc 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -406,6 +406,8 @@ class GeneralGraph(Graph, ABC):
             else:
                 if self.graph[i, j] == Endpoint.ARROW_AND_ARROW.value:
                     indegree = indegree + 2
+                elif self.graph[i, j] == Endpoint.TAIL_AND_ARROW.value:
+                    indegree = indegree + 1
 
         return indegree
 
@@ -513,14 +515,16 @@ class GeneralGraph(Graph, ABC):
         i = self.node_map[node1]
         j = self.node_map[node2]
         return (self.graph[j, i] == Endpoint.TAIL.value and self.graph[i, j] == Endpoint.ARROW.value) \
-               or self.graph[j, i] == Endpoint.TAIL_AND_ARROW.value
+               or (self.graph[j, i] == Endpoint.TAIL_AND_ARROW.value
+                   and self.graph[i, j] == Endpoint.ARROW_AND_ARROW.value)
 
     # Returns true iff node1 is a parent of node2.
     def is_parent_of(self, node1: Node, node2: Node) -> bool:
         i = self.node_map[node1]
         j = self.node_map[node2]
         return (self.graph[j, i] == Endpoint.ARROW.value and self.graph[i, j] == Endpoint.TAIL.value) \
-               or self.graph[i, j] == Endpoint.TAIL_AND_ARROW.value
+               or (self.graph[i, j] == Endpoint.TAIL_AND_ARROW.value
+                   and self.graph[j, i] == Endpoint.ARROW_AND_ARROW.value)
 
     # Returns true iff node1 is a proper ancestor of node2.
     def is_proper_ancestor_of(self, node1: Node, node2: Node) -> bool:
@@ -715,7 +719,7 @@ class GeneralGraph(Graph, ABC):
 
         if str(endpoint) == "ARROW":
             for j in range(self.num_vars):
-                if self.graph[i, j] == 1 or self.graph[i, j] == Endpoint.ARROW_AND_ARROW.value:
+                if self.graph[i, j] in (1, Endpoint.ARROW_AND_ARROW.value, Endpoint.TAIL_AND_ARROW.value):
                     node2 = self.nodes[j]
                     nodes.append(node2)
         else:
@@ -740,7 +744,7 @@ class GeneralGraph(Graph, ABC):
 
         if str(endpoint) == "ARROW":
             for j in range(self.num_vars):
-                if self.graph[j, i] == 1 or self.graph[j, i] == Endpoint.ARROW_AND_ARROW.value:
+                if self.graph[j, i] in (1, Endpoint.ARROW_AND_ARROW.value, Endpoint.TAIL_AND_ARROW.value):
                     node2 = self.nodes[j]
                     nodes.append(node2)
         else:
-- 
2.43.0


From 065682df496b223976b617ce4ea8cc49ed41aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 06/74] fix: a graph owns its node list

GeneralGraph and Dag kept a reference to the caller's list, so adding or
removing a node in one graph (e.g. the result of dag2cpdag) changed the node
list of another, leaving it out of step with its matrix.
---
 causallearn/graph/Dag.py          | 2 +-
 causallearn/graph/GeneralGraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index c75c1d2..2caff95 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -24,7 +24,7 @@ class Dag(GeneralGraph):
         #     if not isinstance(node, type(GraphNode)):
         #         raise TypeError("Graphs must be instantiated with a list of GraphNodes")
 
-        self.nodes = nodes
+        self.nodes = list(nodes)
         self.num_vars = len(nodes)
 
         node_map = {}
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 9d398bc..971f966 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -24,7 +24,7 @@ from causallearn.utils.GraphUtils import GraphUtils
 class GeneralGraph(Graph, ABC):
 
     def __init__(self, nodes: List[Node]):
-        self.nodes: List[Node] = nodes
+        self.nodes: List[Node] = list(nodes)
         self.num_vars: int = len(nodes)
 
         node_map: Dict[Node, int] = {}
-- 
2.43.0


From b7519054e16abe2455581160eea7747bc0f98495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 07/74] fix: removing an edge removes the ancestor relations it
 carried

remove_connecting_edge(s) left the ancestor matrix untouched, and
Dag.reconstitute_dpath never cleared it, so a Dag kept every ancestor relation
it ever had.
---
 causallearn/graph/Dag.py          | 3 +++
 causallearn/graph/GeneralGraph.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index 2caff95..ab8a8af 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -60,6 +60,7 @@ class Dag(GeneralGraph):
         self.dpath = dpath
 
     def reconstitute_dpath(self, edges):
+        self.dpath = np.zeros((self.num_vars, self.num_vars), np.dtype(int))
 
         for i in range(self.num_vars):
             self.adjust_dpath(i, i)
@@ -562,6 +563,8 @@ class Dag(GeneralGraph):
         self.graph[j, i] = 0
         self.graph[i, j] = 0
 
+        self.reconstitute_dpath(self.get_graph_edges())
+
     # Removes all edges connecting node A to node B.  In most cases, this will
     # remove at most one edge, but since multiple edges are permitted in some
     # graph implementations, the number will in some cases be greater than
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 971f966..73ff6ce 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -820,6 +820,8 @@ class GeneralGraph(Graph, ABC):
         self.graph[j, i] = 0
         self.graph[i, j] = 0
 
+        self.reconstitute_dpath(self.get_graph_edges())
+
     # Removes all edges connecting node A to node B.  In most cases, this will
     # remove at most one edge, but since multiple edges are permitted in some
     # graph implementations, the number will in some cases be greater than
@@ -831,6 +833,8 @@ class GeneralGraph(Graph, ABC):
         self.graph[j, i] = 0
         self.graph[i, j] = 0
 
+        self.reconstitute_dpath(self.get_graph_edges())
+
     # Iterates through the list and removes any permissible edges found.  The
     # order in which edges are removed is the order in which they are presented
     # in the iterator.
-- 
2.43.0


From 5b9b948e90c572fb5a8e64559570e2e9e00fb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/74] fix: node removal and subgraphs keep indices and names
 in step

Dag.remove_node left stale indices in node_map, Dag.subgraph deleted the wrong
rows, GeneralGraph.subgraph mislabelled edges when the nodes were given in
another order, and Dag.get_node_names returned bound methods.
---
 causallearn/graph/Dag.py          | 15 ++++-----------
 causallearn/graph/GeneralGraph.py | 10 ++--------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index ab8a8af..72c0ab0 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -311,7 +311,7 @@ class Dag(GeneralGraph):
         node_names = []
 
         for node in self.nodes:
-            node_names.append(node.get_name)
+            node_names.append(node.get_name())
 
         return node_names
 
@@ -597,9 +597,7 @@ class Dag(GeneralGraph):
         nodes.remove(node)
         self.nodes = nodes
 
-        node_map = self.node_map
-        node_map.pop(node)
-        self.node_map = node_map
+        self.node_map = {node: i for i, node in enumerate(self.nodes)}
 
         self.num_vars -= 1
 
@@ -621,13 +619,8 @@ class Dag(GeneralGraph):
 
         graph = self.graph
 
-        for i in range(self.num_vars):
-            if not (self.nodes[i] in nodes):
-                graph = np.delete(graph, (i), axis=0)
-
-        for i in range(self.num_vars):
-            if not (self.nodes[i] in nodes):
-                graph = np.delete(graph, (i), axis=1)
+        keep = [self.node_map[node] for node in nodes]
+        graph = graph[np.ix_(keep, keep)]
 
         subgraph.graph = graph
         subgraph.reconstitute_dpath(subgraph.get_graph_edges())
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 73ff6ce..af0a3dd 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -882,14 +882,8 @@ class GeneralGraph(Graph, ABC):
     
         graph = self.graph
     
-        nodes_to_delete = []
-    
-        for i in range(self.num_vars):
-            if not (self.nodes[i] in nodes):
-                nodes_to_delete.append(i)
-    
-        graph = np.delete(graph, nodes_to_delete, axis = 0)
-        graph = np.delete(graph, nodes_to_delete, axis = 1)
+        keep = [self.node_map[node] for node in nodes]
+        graph = graph[np.ix_(keep, keep)]
     
         subgraph.graph = graph
         subgraph.reconstitute_dpath(subgraph.get_graph_edges())
-- 
2.43.0


From ce5aeb76dce3fb67deeb04f39c38398841f5f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 09/74] fix: Edge.set_endpoint2 keeps the numerical endpoints
 in step

Setting an already-arrow second endpoint to ARROW recorded the edge as
bidirected in its numerical endpoints, so remove_edge no longer matched it.
---
 causallearn/graph/Edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/graph/Edge.py b/causallearn/graph/Edge.py
index a277b54..bc75f22 100644
--- a/causallearn/graph/Edge.py
+++ b/causallearn/graph/Edge.py
@@ -134,7 +134,7 @@ class Edge:
                         self.numerical_endpoint_1 = 1
                         self.numerical_endpoint_2 = 2
         else:
-            if endpoint == Endpoint.ARROW and self.numerical_endpoint_2 == 1:
+            if endpoint == Endpoint.ARROW and self.numerical_endpoint_1 == 1:
                 self.numerical_endpoint_1 = 1
                 self.numerical_endpoint_2 = 1
             else:
-- 
2.43.0


From f9cb1d6cac97c351d897d4877b42ddeaa2269a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 10/74] fix: exists_directed_cycle finds directed cycles

The search marked the start node as visited before comparing a reached node
with the target, so a path from a node back to itself was never found and
exists_directed_cycle was always False.
---
 causallearn/utils/GraphUtils.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/causallearn/utils/GraphUtils.py b/causallearn/utils/GraphUtils.py
index 9a9497d..7702de3 100644
--- a/causallearn/utils/GraphUtils.py
+++ b/causallearn/utils/GraphUtils.py
@@ -450,24 +450,17 @@ class GraphUtils:
 
         while len(Q) > 0:
             t = Q.pop()
-            for u in G.get_adjacent_nodes(t):
-                if G.is_parent_of(t, u) and G.is_parent_of(u, t):
+            for c in G.get_children(t):
+                if c == node_to:
                     return True
-
-                edge = G.get_edge(t, u)
-                edges = Edges()
-                c = edges.traverse_directed(t, edge)
-
-                if c is None:
-                    continue
                 if c in V:
                     continue
-                if c == node_to:
-                    return True
 
                 V.append(c)
                 Q.append(c)
 
+        return False
+
     @staticmethod
     def to_pgv(G: Graph, title: str = ""):
         # warnings.warn("GraphUtils.to_pgv() is deprecated", DeprecationWarning)
-- 
2.43.0


From 5fc584ada73a88743aa5f863ab26f229a56d0d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 11/74] fix: d-connection queries terminate

is_dconnected_to re-queued edges it had already traversed, so it looped
forever on e.g. X->A, A->B, B->C, A->C with z=[C] and an isolated Y.
---
 causallearn/utils/GraphUtils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/causallearn/utils/GraphUtils.py b/causallearn/utils/GraphUtils.py
index 7702de3..9c559ea 100644
--- a/causallearn/utils/GraphUtils.py
+++ b/causallearn/utils/GraphUtils.py
@@ -29,11 +29,13 @@ class GraphUtils:
             return True
 
         edgenode_deque = deque([])
+        visited = []
 
         for edge in graph.get_node_edges(node1):
             if edge.get_distal_node(node1) == node2:
                 return True
             edgenode_deque.append((edge, node1))
+            visited.append((edge, node1))
 
         while len(edgenode_deque) > 0:
             edge, node_a = edgenode_deque.pop()
@@ -48,8 +50,9 @@ class GraphUtils:
                 if self.reachable(edge, edge2, node_a, z, graph):
                     if node_c == node2:
                         return True
-                    else:
+                    elif (edge2, node_b) not in visited:
                         edgenode_deque.append((edge2, node_b))
+                        visited.append((edge2, node_b))
 
         return False
 
@@ -129,9 +132,11 @@ class GraphUtils:
             return True
 
         nodedeque = deque([])
+        visited = []
 
         for node_z in z:
             nodedeque.append(node_z)
+            visited.append(node_z)
 
         while len(nodedeque) > 0:
             node_t = nodedeque.pop()
@@ -139,8 +144,9 @@ class GraphUtils:
                 return True
 
             for node_c in graph.get_parents(node_t):
-                if node_c not in nodedeque:
+                if node_c not in visited:
                     nodedeque.append(node_c)
+                    visited.append(node_c)
         return False
 
     def get_sepset(self, x: Node, y: Node, graph: Graph) -> List[Node] | None:
-- 
2.43.0


From 45dbdc7361bf2fc9ae34141429ab5efd3a94aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 12/74] fix: find_unshielded_triples looks at both ends of both
 edges

---
 causallearn/utils/GraphUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/utils/GraphUtils.py b/causallearn/utils/GraphUtils.py
index 9c559ea..50ccfb5 100644
--- a/causallearn/utils/GraphUtils.py
+++ b/causallearn/utils/GraphUtils.py
@@ -309,7 +309,7 @@ class GraphUtils:
             node1 = pair[0].get_node1()
             node2 = pair[0].get_node2()
             node3 = pair[1].get_node1()
-            node4 = pair[1].get_node1()
+            node4 = pair[1].get_node2()
 
             node_map = graph.get_node_map()
 
@@ -326,7 +326,7 @@ class GraphUtils:
                     triples.append((node1, node2, node4))
                     continue
             if node2 == node4:
-                if node2 != node3 and graph.get_adjacency_matrix()[node_map[node2], node_map[node3]] == 0:
+                if node1 != node3 and graph.get_adjacency_matrix()[node_map[node1], node_map[node3]] == 0:
                     triples.append((node1, node2, node3))
 
         return triples
-- 
2.43.0


From 3d8105e65d9bd6588ef813f8f08d9e02394695bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 13/74] fix: get_sepset leaves latent nodes out and works on a
 Dag

The node type was compared as a method object, so latent nodes were put in
separating sets, and Dag.get_sepset called the method without an instance.
---
 causallearn/graph/Dag.py        | 3 ++-
 causallearn/utils/GraphUtils.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index 72c0ab0..8e309e5 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -723,7 +723,8 @@ class Dag(GeneralGraph):
 
     # Returns the nodes in the sepset of node1 and node2.
     def get_sepset(self, node1, node2):
-        return GraphUtils.get_sepset(node1, node2, self)
+        utils = GraphUtils()
+        return utils.get_sepset(node1, node2, self)
 
     # Sets the list of nodes for this graph.
     def set_nodes(self, nodes):
diff --git a/causallearn/utils/GraphUtils.py b/causallearn/utils/GraphUtils.py
index 50ccfb5..d0ad1b8 100644
--- a/causallearn/utils/GraphUtils.py
+++ b/causallearn/utils/GraphUtils.py
@@ -188,7 +188,7 @@ class GraphUtils:
 
         path.append(b)
 
-        if b.get_node_type == NodeType.LATENT or b in z:
+        if b.get_node_type() == NodeType.LATENT or b in z:
             pass_nodes = self.get_pass_nodes(a, b, z, graph, None)
 
             for c in pass_nodes:
-- 
2.43.0


From a0407181110201802a0fefdf87aa8ccbb2a887ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 14/74] fix: pdag2dag reports a PDAG without consistent
 extension instead of looping forever

---
 causallearn/utils/PDAG2DAG.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causallearn/utils/PDAG2DAG.py b/causallearn/utils/PDAG2DAG.py
index 3ffb1c7..7f81408 100644
--- a/causallearn/utils/PDAG2DAG.py
+++ b/causallearn/utils/PDAG2DAG.py
@@ -18,6 +18,10 @@ def pdag2dag(G: GeneralGraph) -> GeneralGraph:
     Returns
     -------
     Gd : Direct Acyclic Graph
+
+    Raises
+    ------
+    ValueError : if no DAG is a consistent extension of G
     """
     nodes = G.get_nodes()
     # first create a DAG that contains all the directed edges in PDAG
@@ -31,6 +35,7 @@ def pdag2dag(G: GeneralGraph) -> GeneralGraph:
     Gp = deepcopy(G)
     inde = np.zeros(Gp.num_vars, dtype=np.dtype(int))  # index whether the ith node has been removed. 1:removed; 0: not
     while 0 in inde:
+        remaining = np.sum(inde == 0)
         for i in range(Gp.num_vars):
             if inde[i] == 0:
                 sign = 0
@@ -53,6 +58,8 @@ def pdag2dag(G: GeneralGraph) -> GeneralGraph:
                     for index in np.intersect1d(np.where(Gp.graph[:, i] == -1)[0], np.where(Gp.graph[i, :] == -1)[0]):
                         Gd.add_edge(Edge(nodes[index], nodes[i], Endpoint.TAIL, Endpoint.ARROW))
                     inde[i] = 1
+        if np.sum(inde == 0) == remaining:
+            raise ValueError("The PDAG does not admit a consistent extension to a DAG.")
 
     return Gd
 
-- 
2.43.0


From ef1ec04e3195dc043d3cf343b1af60d9fe47075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 15/74] fix: mec_check compares the graphs by node, not by
 position

---
 causallearn/utils/MECCheck.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/causallearn/utils/MECCheck.py b/causallearn/utils/MECCheck.py
index f4f4842..ba3ddbc 100644
--- a/causallearn/utils/MECCheck.py
+++ b/causallearn/utils/MECCheck.py
@@ -1,7 +1,5 @@
 from copy import deepcopy
 
-import numpy as np
-
 from causallearn.graph.Dag import Dag
 from causallearn.utils.DAG2CPDAG import dag2cpdag
 
@@ -24,7 +22,4 @@ def mec_check(DAG1: Dag, DAG2: Dag) -> bool:
     g2 = deepcopy(DAG2)
     cpdag_1 = dag2cpdag(g1)
     cpdag_2 = dag2cpdag(g2)
-    if np.all(cpdag_1.graph == cpdag_2.graph):
-        return True
-    else:
-        return False
+    return cpdag_1 == cpdag_2
-- 
2.43.0


From 1119459d6786ceede9ef55927d00c4591e481448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 16/74] fix: FCI rules R9 and R10 require uncovered potentially
 directed paths

---
 causallearn/search/ConstraintBased/FCI.py | 35 ++++++++++++++++++-----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index 43d1e29..c689ae5 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -15,7 +15,7 @@ from causallearn.utils.DepthChoiceGenerator import DepthChoiceGenerator
 from causallearn.utils.cit import *
 from causallearn.utils.FAS import fas
 from causallearn.utils.PCUtils.BackgroundKnowledge import BackgroundKnowledge
-from itertools import combinations
+from itertools import permutations
 
 def is_uncovered_path(nodes: List[Node], G: Graph) -> bool:
         """
@@ -49,7 +49,7 @@ def traverseCircle(node: Node, edge: Edge) -> Node | None:
     return None
 
 
-def existsSemiDirectedPath(node_from: Node, node_to: Node, G: Graph) -> bool: ## TODO: Now it does not detect whether the path is an uncovered path
+def existsSemiDirectedPath(node_from: Node, node_to: Node, G: Graph) -> bool:
     Q = Queue()
     V = set()
 
@@ -82,6 +82,26 @@ def existsSemiDirectedPath(node_from: Node, node_to: Node, G: Graph) -> bool: ##
 
     return False
 
+def existsUncoveredPdPath(path: List[Node], node_to: Node, G: Graph) -> bool:
+    """
+    Determines whether the given uncovered potentially directed path can be continued to an uncovered potentially
+    directed path that ends at node_to.
+
+    A path is potentially directed if no edge on it is into the node it leaves or out of the node it enters.
+    """
+    if path[-1] == node_to:
+        return True
+
+    for node_u in G.get_adjacent_nodes(path[-1]):
+        if node_u in path or not is_possible_parent(G, path[-1], node_u):
+            continue
+        if len(path) > 1 and G.is_adjacent_to(path[-2], node_u):
+            continue
+        if existsUncoveredPdPath(path + [node_u], node_to, G):
+            return True
+
+    return False
+
 def GetUncoveredCirclePath(node_from: Node, node_to: Node, G: Graph, exclude_node: List[Node]) -> Generator[Node] | None:
     Q = Queue()
     V = set()
@@ -765,7 +785,8 @@ def is_possible_parent(graph: Graph, potential_parent_node, child_node):
     if not graph.is_adjacent_to(potential_parent_node, child_node):
         return False
 
-    if graph.get_endpoint(child_node, potential_parent_node) == Endpoint.ARROW: 
+    if graph.get_endpoint(child_node, potential_parent_node) == Endpoint.ARROW or \
+            graph.get_endpoint(potential_parent_node, child_node) == Endpoint.TAIL:
         return False
     else:
         return True
@@ -802,7 +823,7 @@ def rule9(graph: Graph, nodes: List[Node], changeFlag):
             for node_B in possible_children:
                 if graph.is_adjacent_to(node_B, node_C):
                     continue
-                if existsSemiDirectedPath(node_from=node_B, node_to=node_C, G=graph):
+                if existsUncoveredPdPath(path=[node_A, node_B], node_to=node_C, G=graph):
                     edge1 = graph.get_edge(node_A, node_C)
                     graph.remove_edge(edge1)
                     graph.add_edge(Edge(node_A, node_C, Endpoint.TAIL, Endpoint.ARROW))
@@ -844,10 +865,10 @@ def rule10(graph: Graph, changeFlag):
                 if graph.get_endpoint(node_C, node_D) != Endpoint.TAIL:
                     continue
 
-                for children in combinations(A_possible_children, 2):
+                for children in permutations(A_possible_children, 2):
                     child_one, child_two = children
-                    if not existsSemiDirectedPath(node_from=child_one, node_to=node_B, G=graph) or \
-                        not existsSemiDirectedPath(node_from=child_two, node_to=node_D, G=graph):
+                    if not existsUncoveredPdPath(path=[node_A, child_one], node_to=node_B, G=graph) or \
+                        not existsUncoveredPdPath(path=[node_A, child_two], node_to=node_D, G=graph):
                         continue
 
                     if not graph.is_adjacent_to(child_one, child_two):
-- 
2.43.0


From e004bb748a94805472ea92134ed3921d9c018f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 17/74] fix: FCI rule R5 finds all uncovered circle paths and
 checks both ends

---
 causallearn/search/ConstraintBased/FCI.py | 40 ++++++++---------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index c689ae5..3e3e3d6 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -104,38 +104,23 @@ def existsUncoveredPdPath(path: List[Node], node_to: Node, G: Graph) -> bool:
 
 def GetUncoveredCirclePath(node_from: Node, node_to: Node, G: Graph, exclude_node: List[Node]) -> Generator[Node] | None:
     Q = Queue()
-    V = set()
-
-    path = [node_from]
-
-    for node_u in G.get_adjacent_nodes(node_from):
-        if node_u in exclude_node:
-            continue
-        edge = G.get_edge(node_from, node_u)
-        node_c = traverseCircle(node_from, edge)
-
-        if node_c is None or node_c in exclude_node:
-            continue
-
-        if not V.__contains__(node_c):
-            V.add(node_c)
-            Q.put((node_c, path + [node_c]))
+    Q.put([node_from])
 
     while not Q.empty():
-        node_t, path = Q.get_nowait()
-        if node_t == node_to and is_uncovered_path(path, G):
+        path = Q.get_nowait()
+        node_t = path[-1]
+        if node_t == node_to:
             yield path
+            continue
 
         for node_u in G.get_adjacent_nodes(node_t):
-            edge = G.get_edge(node_t, node_u)
-            node_c = traverseCircle(node_t, edge)
-
-            if node_c is None or node_c in exclude_node:
+            if node_u in exclude_node or node_u in path:
                 continue
-
-            if not V.__contains__(node_c):
-                V.add(node_c)
-                Q.put((node_c, path + [node_c]))
+            if traverseCircle(node_t, G.get_edge(node_t, node_u)) is None:
+                continue
+            if len(path) > 1 and G.is_adjacent_to(path[-2], node_u):
+                continue
+            Q.put(path + [node_u])
 
 
 
@@ -516,6 +501,9 @@ def ruleR5(graph: Graph, changeFlag: bool,
                 # Orient the uncovered circle path between A and B
                 for paths in found_paths_between_AB:                    
                     for path in paths:
+                        # the path has to be uncovered at A's and B's neighbors as well
+                        if not is_uncovered_path([node_A] + path + [node_B], graph):
+                            continue
                         changeFlag = True
                         if verbose:
                             print("Find uncovered circle path between A and B: " + graph.get_edge(node_A, node_B).__str__())
-- 
2.43.0


From 78855af4093a694fb718f1e80771dde470360865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 18/74] fix: FCI rule R8 looks at both ends of a pair of
 neighbors

---
 causallearn/search/ConstraintBased/FCI.py | 25 +++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index 3e3e3d6..4585080 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -749,19 +749,18 @@ def rule8(graph: Graph, nodes: List[Node], changeFlag):
             node_A = adj[combination[0]]
             node_C = adj[combination[1]]
             combination = cg.next()
-            
-            if(graph.get_endpoint(node_A, node_B) == Endpoint.ARROW and graph.get_endpoint(node_B, node_A) == Endpoint.TAIL and \
-                graph.get_endpoint(node_B, node_C) == Endpoint.ARROW and graph.get_endpoint(node_C, node_B) == Endpoint.TAIL and \
-                    graph.is_adjacent_to(node_A, node_C) and \
-                        graph.get_endpoint(node_A, node_C) == Endpoint.ARROW and graph.get_endpoint(node_C, node_A)== Endpoint.CIRCLE) or \
-                        (graph.get_endpoint(node_A, node_B) == Endpoint.CIRCLE and graph.get_endpoint(node_B, node_A) == Endpoint.TAIL and \
-                graph.get_endpoint(node_B, node_C) == Endpoint.ARROW and graph.get_endpoint(node_C, node_B) == Endpoint.TAIL and \
-                    graph.is_adjacent_to(node_A, node_C) and \
-                        graph.get_endpoint(node_A, node_C) == Endpoint.ARROW and graph.get_endpoint(node_C, node_A)== Endpoint.CIRCLE):
-                edge1 = graph.get_edge(node_A, node_C)
-                graph.remove_edge(edge1)
-                graph.add_edge(Edge(node_A, node_C,Endpoint.TAIL, Endpoint.ARROW))
-                changeFlag = True
+
+            for node_A, node_C in ((node_A, node_C), (node_C, node_A)):
+                # A --> B --> C or A --o B --> C, and A o-> C
+                if graph.get_endpoint(node_B, node_A) == Endpoint.TAIL and \
+                        graph.get_endpoint(node_A, node_B) in (Endpoint.ARROW, Endpoint.CIRCLE) and \
+                        graph.get_endpoint(node_B, node_C) == Endpoint.ARROW and graph.get_endpoint(node_C, node_B) == Endpoint.TAIL and \
+                        graph.is_adjacent_to(node_A, node_C) and \
+                        graph.get_endpoint(node_A, node_C) == Endpoint.ARROW and graph.get_endpoint(node_C, node_A) == Endpoint.CIRCLE:
+                    edge1 = graph.get_edge(node_A, node_C)
+                    graph.remove_edge(edge1)
+                    graph.add_edge(Edge(node_A, node_C, Endpoint.TAIL, Endpoint.ARROW))
+                    changeFlag = True
 
     return changeFlag
 
-- 
2.43.0


From 7f30cacff9dfed4081fde972af636bdee6b4f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 19/74] fix: FCI applies rule R4 in every round

---
 causallearn/search/ConstraintBased/FCI.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index 4585080..99395c1 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -1096,25 +1096,18 @@ def fci(dataset: ndarray, independence_test_method: str=fisherz, alpha: float =
     rule0(graph, nodes, sep_sets, background_knowledge, verbose)
 
     change_flag = True
-    first_time = True
 
     while change_flag:
         change_flag = False
         change_flag = rulesR1R2cycle(graph, background_knowledge, change_flag, verbose)
         change_flag = ruleR3(graph, sep_sets, background_knowledge, change_flag, verbose)
 
-        if change_flag or (first_time and background_knowledge is not None and
-                           len(background_knowledge.forbidden_rules_specs) > 0 and
-                           len(background_knowledge.required_rules_specs) > 0 and
-                           len(background_knowledge.tier_map.keys()) > 0):
-            change_flag = ruleR4B(graph, max_path_length, dataset, independence_test_method, alpha, sep_sets,
-                                  change_flag,
-                                  background_knowledge, verbose)
+        change_flag = ruleR4B(graph, max_path_length, dataset, independence_test_method, alpha, sep_sets,
+                              change_flag,
+                              background_knowledge, verbose)
 
-            first_time = False
-
-            if verbose:
-                print("Epoch")
+        if verbose:
+            print("Epoch")
 
         # rule 5
         change_flag = ruleR5(graph, change_flag, verbose)
-- 
2.43.0


From 66707c921c3becbaf2103b7a16de643fcc154647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 20/74] fix: the possible-d-sep stage of FCI tries every
 conditioning set and walks paths edge by edge

---
 causallearn/search/ConstraintBased/FCI.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index 99395c1..a541b8f 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -203,7 +203,7 @@ def getPossibleDsep(node_x: Node, node_y: Node, graph: Graph, maxPathLength: int
             previous[node_c] = node_list
 
             if graph.is_def_collider(node_a, node_b, node_c) or graph.is_adjacent_to(node_a, node_c):
-                u = (node_a, node_c)
+                u = (node_b, node_c)
                 if V.__contains__(u):
                     continue
 
@@ -974,7 +974,7 @@ def removeByPossibleDsep(graph: Graph, independence_test_method: CIT, alpha: flo
 
         choice = gen.next()
         while choice is not None:
-            origin_choice = choice
+            origin_choice = tuple(choice)  # the generator reuses its list
             choice = gen.next()
             if len(origin_choice) < 2:
                 continue
@@ -989,7 +989,7 @@ def removeByPossibleDsep(graph: Graph, independence_test_method: CIT, alpha: flo
             independent = p_value > alpha
             if independent:
                 graph.remove_edge(edge)
-                sep_sets[(X, Y)] = set(condSet_index)
+                sep_sets[(X, Y)] = sep_sets[(Y, X)] = set(condSet_index)
                 break
 
         if graph.contains_edge(edge):
@@ -998,7 +998,7 @@ def removeByPossibleDsep(graph: Graph, independence_test_method: CIT, alpha: flo
 
             choice = gen.next()
             while choice is not None:
-                origin_choice = choice
+                origin_choice = tuple(choice)  # the generator reuses its list
                 choice = gen.next()
                 if len(origin_choice) < 2:
                     continue
@@ -1013,7 +1013,7 @@ def removeByPossibleDsep(graph: Graph, independence_test_method: CIT, alpha: flo
                 independent = p_value > alpha
                 if independent:
                     graph.remove_edge(edge)
-                    sep_sets[(X, Y)] = set(condSet_index)
+                    sep_sets[(X, Y)] = sep_sets[(Y, X)] = set(condSet_index)
                     break
 
 
-- 
2.43.0


From 1bd7aab1dd83af78cb7c29f47ec971eb6d9aeb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 21/74] fix: possible-d-sep paths go through possible ancestors
 of either end of the pair

---
 causallearn/search/ConstraintBased/FCI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index a541b8f..8016993 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -183,7 +183,7 @@ def getPossibleDsep(node_x: Node, node_y: Node, graph: Graph, maxPathLength: int
                 break
         node_a, node_b = t
 
-        if existOnePathWithPossibleParents(previous, node_b, node_x, node_b, graph):
+        if existOnePathWithPossibleParents(previous, node_b, node_x, node_y, graph):
             dsep.add(node_b)
 
         for node_c in graph.get_adjacent_nodes(node_b):
-- 
2.43.0


From ab9cddb4cbd4705080353a90176212e5e0b620fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 22/74] fix: FCI marks an edge free of latent confounding only
 when it is visible

---
 causallearn/search/ConstraintBased/FCI.py | 50 ++++++-----------------
 1 file changed, 12 insertions(+), 38 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index 8016993..eaae906 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -868,40 +868,21 @@ def rule10(graph: Graph, changeFlag):
     return changeFlag
 
 
-def visibleEdgeHelperVisit(graph: Graph, node_c: Node, node_a: Node, node_b: Node, path: List[Node]) -> bool:
-    if path.__contains__(node_a):
-        return False
-
-    path.append(node_a)
-
-    if node_a == node_b:
-        return True
-
-    for node_D in graph.get_nodes_into(node_a, Endpoint.ARROW):
-        if graph.is_parent_of(node_D, node_c):
-            return True
-
-        if not graph.is_def_collider(node_D, node_c, node_a):
-            continue
-        elif not graph.is_parent_of(node_c, node_b):
+def visibleEdgeHelper(path: List[Node], node_B: Node, graph: Graph) -> bool:
+    """
+    Determines whether there is a node that is not adjacent to B and from which a path leads into path[0], along
+    path[-1], ..., path[0], such that every node before path[0] is a collider on the path and a parent of B.
+    """
+    for node_C in graph.get_nodes_into(path[-1], Endpoint.ARROW):
+        if node_C == node_B or path.__contains__(node_C):
             continue
 
-        if visibleEdgeHelperVisit(graph, node_D, node_c, node_b, path):
+        if not graph.is_adjacent_to(node_C, node_B):
             return True
 
-    path.pop()
-    return False
-
-
-def visibleEdgeHelper(node_A: Node, node_B: Node, graph: Graph) -> bool:
-    path = [node_A]
-
-    for node_C in graph.get_nodes_into(node_A, Endpoint.ARROW):
-        if graph.is_parent_of(node_C, node_A):
-            return True
-
-        if visibleEdgeHelperVisit(graph, node_C, node_A, node_B, path):
-            return True
+        if graph.get_endpoint(path[-1], node_C) == Endpoint.ARROW and graph.is_parent_of(node_C, node_B):
+            if visibleEdgeHelper(path + [node_C], node_B, graph):
+                return True
 
     return False
 
@@ -915,14 +896,7 @@ def defVisible(edge: Edge, graph: Graph) -> bool:
             node_A = edge.get_node2()
             node_B = edge.get_node1()
 
-        for node_C in graph.get_adjacent_nodes(node_A):
-            if node_C != node_B and not graph.is_adjacent_to(node_C, node_B):
-                e = graph.get_edge(node_C, node_A)
-
-                if e.get_proximal_endpoint(node_A) == Endpoint.ARROW:
-                    return True
-
-        return visibleEdgeHelper(node_A, node_B, graph)
+        return visibleEdgeHelper([node_A], node_B, graph)
     else:
         raise Exception("Given edge is not in the graph.")
 
-- 
2.43.0


From ca779c0fdecf23dbced08ee2a58b5e03c5025774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 23/74] fix: dag2pag hands its separating sets to the
 orientation rules as indices

---
 causallearn/utils/DAG2PAG.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/utils/DAG2PAG.py b/causallearn/utils/DAG2PAG.py
index 2705123..162d1f7 100644
--- a/causallearn/utils/DAG2PAG.py
+++ b/causallearn/utils/DAG2PAG.py
@@ -97,7 +97,7 @@ def dag2pag(dag: Dag, islatent: List[Node], isselection: List[Node] = []) -> Gen
     data = np.empty(shape=(0, len(observed_nodes)))
     independence_test_method = CIT(data, method=d_separation, true_dag=true_dag)
     node_map = PAG.get_node_map()
-    sepset_reindexed = {(node_map[nodes[i]], node_map[nodes[j]]): sepset[(i, j)] for (i, j) in sepset}
+    sepset_reindexed = {(node_map[nodes[i]], node_map[nodes[j]]): {node_map[z] for z in sepset[(i, j)]} for (i, j) in sepset}
     while change_flag:
         change_flag = False
         change_flag = rulesR1R2cycle(PAG, None, change_flag, False)
-- 
2.43.0


From 1b19880978c7563f9f05cded6fd62e0162e1a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 24/74] fix: the weighted structural distance counts every
 pair, missing edges and reversed edges

---
 causallearn/utils/GraphUtils.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/causallearn/utils/GraphUtils.py b/causallearn/utils/GraphUtils.py
index d0ad1b8..51c3d8d 100644
--- a/causallearn/utils/GraphUtils.py
+++ b/causallearn/utils/GraphUtils.py
@@ -384,7 +384,7 @@ class GraphUtils:
         nodes = graph1.get_nodes()
         error = 0
 
-        for i1 in list(range(1, graph1.get_num_nodes())):
+        for i1 in list(range(0, graph1.get_num_nodes())):
             for i2 in list(range(i1 + 1, graph1.get_num_nodes())):
                 e1 = graph1.get_edge(nodes[i1], nodes[i2])
                 e2 = graph2.get_edge(nodes[i1], nodes[i2])
@@ -393,7 +393,9 @@ class GraphUtils:
         return error
 
     def shd_one_edge(self, e1: Edge, e2: Edge) -> int:
-        if self.no_edge(e1) and self.undirected(e2):
+        if self.no_edge(e1) and self.no_edge(e2):
+            return 0
+        elif self.no_edge(e1) and self.undirected(e2):
             return 1
         elif self.no_edge(e2) and self.undirected(e1):
             return 1
@@ -406,24 +408,26 @@ class GraphUtils:
         elif self.undirected(e2) and self.directed(e1):
             return 1
         elif self.directed(e1) and self.directed(e2):
-            if e1.get_endpoint1() == e2.get_endpoint2():
+            if e1.get_endpoint1() != e2.get_proximal_endpoint(e1.get_node1()):
                 return 1
-        elif self.bi_directed(e1) or self.bi_directed(e2):
+        elif self.no_edge(e1) or self.no_edge(e2):
+            return 2
+        elif self.bi_directed(e1) != self.bi_directed(e2):
             return 2
         return 0
 
     def no_edge(self, e: Edge | None) -> bool:
         return e is None
 
-    def undirected(self, e: Edge) -> bool:
-        return e.get_endpoint1() == Endpoint.TAIL and e.get_endpoint2() == Endpoint.TAIL
+    def undirected(self, e: Edge | None) -> bool:
+        return e is not None and e.get_endpoint1() == Endpoint.TAIL and e.get_endpoint2() == Endpoint.TAIL
 
-    def directed(self, e: Edge) -> bool:
-        return (e.get_endpoint1() == Endpoint.TAIL and e.get_endpoint2() == Endpoint.ARROW) \
-               or (e.get_endpoint1() == Endpoint.ARROW and e.get_endpoint2() == Endpoint.TAIL)
+    def directed(self, e: Edge | None) -> bool:
+        return e is not None and ((e.get_endpoint1() == Endpoint.TAIL and e.get_endpoint2() == Endpoint.ARROW)
+                                  or (e.get_endpoint1() == Endpoint.ARROW and e.get_endpoint2() == Endpoint.TAIL))
 
-    def bi_directed(self, e: Edge) -> bool:
-        return e.get_endpoint1() == Endpoint.ARROW and e.get_endpoint2() == Endpoint.ARROW
+    def bi_directed(self, e: Edge | None) -> bool:
+        return e is not None and e.get_endpoint1() == Endpoint.ARROW and e.get_endpoint2() == Endpoint.ARROW
 
     def adj_precision(self, truth: Graph, est: Graph) -> float:
         confusion = AdjacencyConfusion(truth, est)
-- 
2.43.0


From e6efdc0210f0bf2f6b92f2342246051a1624f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 25/74] fix: a p-value cache of another test or other
 parameters is refused

---
 causallearn/utils/cit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/utils/cit.py b/causallearn/utils/cit.py
index 56f860f..c6cc51b 100644
--- a/causallearn/utils/cit.py
+++ b/causallearn/utils/cit.py
@@ -110,7 +110,7 @@ class CIT_Base(object):
 
     def check_cache_method_consistent(self, method_name, parameters_hash):
         self.method = method_name
-        if method_name not in self.pvalue_cache:
+        if 'method_name' not in self.pvalue_cache:
             self.pvalue_cache['method_name'] = method_name # a newly created cache
             self.pvalue_cache['parameters_hash'] = parameters_hash
         else:
-- 
2.43.0


From 9338529b0acaf9d313dac24cd130b3a3f5422d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 26/74] fix: FastKCI, RCIT and MC-FisherZ do not share a
 p-value cache with other tests

---
 causallearn/utils/cit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causallearn/utils/cit.py b/causallearn/utils/cit.py
index c6cc51b..851c41a 100644
--- a/causallearn/utils/cit.py
+++ b/causallearn/utils/cit.py
@@ -156,7 +156,7 @@ class CIT_Base(object):
         # every time when cit is called, auto save to local cache.
         self.save_to_local_cache()
 
-        METHODS_SUPPORTING_MULTIDIM_DATA = ["kci"]
+        METHODS_SUPPORTING_MULTIDIM_DATA = ["kci", "fastkci", "rcit"]
         if condition_set is None: condition_set = []
         # 'int' to convert np.*int* to built-in int; 'set' to remove duplicates; sorted for hashing
         condition_set = sorted(set(map(int, condition_set)))
@@ -255,7 +255,7 @@ class FastKCI(CIT_Base):
         kci_ci_kwargs = {k: v for k, v in kwargs.items() if k in
                          ['K', 'J', 'alpha', 'use_gp']}
         self.check_cache_method_consistent(
-            'kci', hashlib.md5(json.dumps(kci_ci_kwargs, sort_keys=True).encode('utf-8')).hexdigest())
+            'fastkci', hashlib.md5(json.dumps(kci_ci_kwargs, sort_keys=True).encode('utf-8')).hexdigest())
         self.assert_input_data_is_valid()
         self.kci_ui = FastKCI_UInd(**kci_ui_kwargs)
         self.kci_ci = FastKCI_CInd(**kci_ci_kwargs)
@@ -277,7 +277,7 @@ class RCIT(CIT_Base):
         rcit_kwargs = {k: v for k, v in kwargs.items() if k in
                        ['approx', 'num_f', 'num_f2', 'rcit']}
         self.check_cache_method_consistent(
-            'kci', hashlib.md5(json.dumps(rcit_kwargs, sort_keys=True).encode('utf-8')).hexdigest())
+            'rcit', hashlib.md5(json.dumps(rcit_kwargs, sort_keys=True).encode('utf-8')).hexdigest())
         self.assert_input_data_is_valid()
         self.rit = RCIT_UInd(**rit_kwargs)
         self.rcit = RCIT_CInd(**rcit_kwargs)
@@ -491,7 +491,7 @@ class MV_FisherZ(CIT_Base):
 class MC_FisherZ(CIT_Base):
     def __init__(self, data, **kwargs):
         # no cache for MC_FisherZ, since skel and prt_m is provided for each test.
-        super().__init__(data, **kwargs)
+        super().__init__(data, **{k: v for k, v in kwargs.items() if k != 'cache_path'})
         self.check_cache_method_consistent('mc_fisherz', NO_SPECIFIED_PARAMETERS_MSG)
         self.assert_input_data_is_valid(allow_nan=True)
         self.mv_fisherz = MV_FisherZ(data, **kwargs)
-- 
2.43.0


From 2edefa8cb9f26fdb4f188d7ae8eec12ed338368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 27/74] fix: the data fingerprint of a p-value cache covers the
 whole data

---
 causallearn/utils/cit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causallearn/utils/cit.py b/causallearn/utils/cit.py
index 851c41a..05bffde 100644
--- a/causallearn/utils/cit.py
+++ b/causallearn/utils/cit.py
@@ -95,7 +95,9 @@ class CIT_Base(object):
         '''
         assert isinstance(data, np.ndarray), "Input data must be a numpy array."
         self.data = data
-        self.data_hash = hashlib.md5(str(data).encode('utf-8')).hexdigest()
+        # str(data) is an abbreviation: it leaves out most rows of large data, and digits
+        data_description = f'{data.shape};{data.dtype.str};'.encode('utf-8')
+        self.data_hash = hashlib.md5(data_description + np.ascontiguousarray(data).tobytes()).hexdigest()
         self.sample_size, self.num_features = data.shape
         self.cache_path = cache_path
         self.SAVE_CACHE_CYCLE_SECONDS = 30
-- 
2.43.0


From 15da539f299ef20b2a7e6ba3d1cba099051c6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 28/74] fix: a p-value cache may be placed in the current
 directory

---
 causallearn/utils/cit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/utils/cit.py b/causallearn/utils/cit.py
index 05bffde..243485b 100644
--- a/causallearn/utils/cit.py
+++ b/causallearn/utils/cit.py
@@ -108,7 +108,7 @@ class CIT_Base(object):
             if os.path.exists(cache_path):
                 with codecs.open(cache_path, 'r') as fin: self.pvalue_cache = json.load(fin)
                 assert self.pvalue_cache['data_hash'] == self.data_hash, "Data hash mismatch."
-            else: os.makedirs(os.path.dirname(cache_path), exist_ok=True)
+            else: os.makedirs(os.path.dirname(os.path.abspath(cache_path)), exist_ok=True)
 
     def check_cache_method_consistent(self, method_name, parameters_hash):
         self.method = method_name
-- 
2.43.0


From 64c00908bd0aa96e650cf027af8dd6e2a0da82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 29/74] fix: the kci test accepts null_ss

---
 causallearn/utils/cit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causallearn/utils/cit.py b/causallearn/utils/cit.py
index 243485b..ae4ecae 100644
--- a/causallearn/utils/cit.py
+++ b/causallearn/utils/cit.py
@@ -238,6 +238,7 @@ class KCI(CIT_Base):
             'kci', hashlib.md5(json.dumps(kci_ci_kwargs, sort_keys=True).encode('utf-8')).hexdigest())
         self.assert_input_data_is_valid()
         self.kci_ui = KCI_UInd(**kci_ui_kwargs)
+        if 'null_ss' in kci_ci_kwargs: kci_ci_kwargs['nullss'] = kci_ci_kwargs.pop('null_ss') # named so in KCI_CInd
         self.kci_ci = KCI_CInd(**kci_ci_kwargs)
 
     def __call__(self, X, Y, condition_set=None):
-- 
2.43.0


From 85807cc519187a5cd10d4cc8742299d22652a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 30/74] fix: the unconditional KCI test picks the median kernel
 width on the normalized data

---
 causallearn/utils/KCI/KCI.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/causallearn/utils/KCI/KCI.py b/causallearn/utils/KCI/KCI.py
index 41cbd46..54d3185 100644
--- a/causallearn/utils/KCI/KCI.py
+++ b/causallearn/utils/KCI/KCI.py
@@ -103,6 +103,13 @@ class KCI_UInd(object):
         Kx: kernel matrix for data_x (nxn)
         Ky: kernel matrix for data_y (nxn)
         """
+        data_x = stats.zscore(data_x, ddof=1, axis=0)
+        data_x[np.isnan(data_x)] = 0.   # in case some dim of data_x is constant
+        data_y = stats.zscore(data_y, ddof=1, axis=0)
+        data_y[np.isnan(data_y)] = 0.
+        # We set 'ddof=1' to conform to the normalization way in the original Matlab implementation in
+        # http://people.tuebingen.mpg.de/kzhang/KCI-test.zip
+
         if self.kernelX == 'Gaussian':
             if self.est_width == 'manual':
                 if self.kwidthx is not None:
@@ -145,13 +152,6 @@ class KCI_UInd(object):
         else:
             raise Exception('Undefined kernel function')
 
-        data_x = stats.zscore(data_x, ddof=1, axis=0)
-        data_x[np.isnan(data_x)] = 0.   # in case some dim of data_x is constant
-        data_y = stats.zscore(data_y, ddof=1, axis=0)
-        data_y[np.isnan(data_y)] = 0.
-        # We set 'ddof=1' to conform to the normalization way in the original Matlab implementation in
-        # http://people.tuebingen.mpg.de/kzhang/KCI-test.zip
-
         Kx = kernelX.kernel(data_x)
         Ky = kernelY.kernel(data_y)
         return Kx, Ky
-- 
2.43.0


From 27daf9841effacab424ce795178b3ff80e67c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 31/74] fix: the generalized scores centre their kernel
 matrices with matrix products

---
 causallearn/score/LocalScoreFunction.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/causallearn/score/LocalScoreFunction.py b/causallearn/score/LocalScoreFunction.py
index b87ffe4..68873ea 100644
--- a/causallearn/score/LocalScoreFunction.py
+++ b/causallearn/score/LocalScoreFunction.py
@@ -223,7 +223,7 @@ def local_score_cv_general(
         H0 = (
             np.eye(T) - np.ones((T, T)) / T
         )  # for centering of the data in feature space
-        Kx = H0 * Kx * H0  # kernel matrix for X
+        Kx = H0 @ Kx @ H0  # kernel matrix for X
 
         # eig_Kx, eix = eigdec((Kx + Kx.T)/2, np.min([400, math.floor(T/2)]), evals_only=False)   # /2
         # IIx = np.where(eig_Kx > np.max(eig_Kx) * Thresh)[0]
@@ -252,7 +252,7 @@ def local_score_cv_general(
         H0 = (
             np.eye(T) - np.ones((T, T)) / T
         )  # for centering of the data in feature space
-        Kpa = H0 * Kpa * H0  # kernel matrix for PA
+        Kpa = H0 @ Kpa @ H0  # kernel matrix for PA
 
         CV = 0
         for kk in range(k):
@@ -368,7 +368,7 @@ def local_score_cv_general(
         H0 = np.eye(T) - np.ones((T, T)) / (
             T
         )  # for centering of the data in feature space
-        Kx = H0 * Kx * H0  # kernel matrix for X
+        Kx = H0 @ Kx @ H0  # kernel matrix for X
 
         # eig_Kx, eix = eigdec((Kx + Kx.T) / 2, np.min([400, math.floor(T / 2)]), evals_only=False)  # /2
         # IIx = np.where(eig_Kx > np.max(eig_Kx) * Thresh)[0]
@@ -481,7 +481,7 @@ def local_score_cv_multi(
         H0 = np.eye(T) - np.ones((T, T)) / (
             T
         )  # for centering of the data in feature space
-        Kx = H0 * Kx * H0  # kernel matrix for X
+        Kx = H0 @ Kx @ H0  # kernel matrix for X
 
         # set the kernel for PA
         Kpa = np.ones((T, T), dtype=np.float64)
@@ -502,7 +502,7 @@ def local_score_cv_multi(
         H0 = np.eye(T) - np.ones((T, T)) / (
             T
         )  # for centering of the data in feature space
-        Kpa = H0 * Kpa * H0  # kernel matrix for PA
+        Kpa = H0 @ Kpa @ H0  # kernel matrix for PA
 
         CV = 0
         for kk in range(k):
@@ -618,7 +618,7 @@ def local_score_cv_multi(
         H0 = np.eye(T) - np.ones((T, T)) / (
             T
         )  # for centering of the data in feature space
-        Kx = H0 * Kx * H0  # kernel matrix for X
+        Kx = H0 @ Kx @ H0  # kernel matrix for X
 
         CV = 0
         for kk in range(k):
@@ -662,8 +662,8 @@ def local_score_cv_multi(
                 - 1
                 / (gamma * n1)
                 * Kx_tr_te.T
-                * pdinv(np.eye(n1) + 1 / (gamma * n1) * Kx_tr)
-                * Kx_tr_te
+                @ pdinv(np.eye(n1) + 1 / (gamma * n1) * Kx_tr)
+                @ Kx_tr_te
             ) / gamma
             B = 1 / (gamma * n1) * Kx_tr + np.eye(n1)
             L = np.linalg.cholesky(B)
@@ -713,7 +713,7 @@ def local_score_marginal_general(
     theta = 1 / (width**2)
     H = np.eye(T) - np.ones((T, T)) / T
     Kx, _ = kernel(X, X, (theta, 1))
-    Kx = H * Kx * H
+    Kx = H @ Kx @ H
 
     Thresh = 1e-5
     eig_Kx, eix = eigdec(
@@ -817,7 +817,7 @@ def local_score_marginal_multi(
     theta = 1 / (widthX**2)
     H = np.eye(T) - np.ones((T, T)) / T
     Kx, _ = kernel(X, X, (theta, 1))
-    Kx = H * Kx * H
+    Kx = H @ Kx @ H
 
     Thresh = 1e-5
     eig_Kx, eix = eigdec(
-- 
2.43.0


From 9b2a0ede19e8f90505779ce75a5d809f3b43e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 32/74] fix: the multi-variate generalized scores use all
 dimensions of a variable

---
 causallearn/score/LocalScoreFunction.py | 22 +++++++++++-----------
 causallearn/utils/ScoreUtils.py         |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/causallearn/score/LocalScoreFunction.py b/causallearn/score/LocalScoreFunction.py
index 68873ea..828048d 100644
--- a/causallearn/score/LocalScoreFunction.py
+++ b/causallearn/score/LocalScoreFunction.py
@@ -458,7 +458,7 @@ def local_score_cv_multi(
     """
 
     T = Data.shape[0]
-    X = Data[:, parameters["dlabel"][Xi]].reshape(-1, 1)
+    X = Data[:, parameters["dlabel"][Xi]].reshape(T, -1)
     var_lambda = parameters["lambda"]  # regularization parameter
     k = parameters["kfold"]  # k-fold cross validation
     n0 = math.floor(T / k)
@@ -467,10 +467,10 @@ def local_score_cv_multi(
 
     if len(PAi):
         # set the kernel for X
-        GX = np.multiply(X, X).reshape(-1, 1)
+        GX = np.sum(np.multiply(X, X), axis=1).reshape(-1, 1)
         Q = np.tile(GX, (1, T))
         R = np.tile(GX.T, (T, 1))
-        dists = Q + R - 2 * X * X.T
+        dists = Q + R - 2 * X @ X.T
         dists = dists - np.tril(dists)
         dists = np.reshape(dists, (T**2, 1))
         width = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)]))
@@ -487,11 +487,11 @@ def local_score_cv_multi(
         Kpa = np.ones((T, T), dtype=np.float64)
 
         for m in range(len(PAi)):
-            PA = Data[:, parameters["dlabel"][PAi[m]]].reshape(-1, 1)
-            G = np.multiply(PA, PA).reshape(-1, 1)
+            PA = Data[:, parameters["dlabel"][PAi[m]]].reshape(T, -1)
+            G = np.sum(np.multiply(PA, PA), axis=1).reshape(-1, 1)
             Q = np.tile(G, (1, T))
             R = np.tile(G.T, (T, 1))
-            dists = Q + R - 2 * PA * PA.T
+            dists = Q + R - 2 * PA @ PA.T
             dists = dists - np.tril(dists)
             dists = np.reshape(dists, (T**2, 1))
             width = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)]))
@@ -607,7 +607,7 @@ def local_score_cv_multi(
         GX = np.sum(np.multiply(X, X), axis=1).reshape(-1, 1)
         Q = np.tile(GX, (1, T))
         R = np.tile(GX.T, (T, 1))
-        dists = Q + R - 2 * X * X.T
+        dists = Q + R - 2 * X @ X.T
         dists = dists - np.tril(dists)
         dists = np.reshape(dists, (T**2, 1))
         width = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)]))
@@ -802,14 +802,14 @@ def local_score_marginal_multi(
     score: local score
     """
     T = Data.shape[0]
-    X = Data[:, parameters["dlabel"][Xi]].reshape(-1, 1)
+    X = Data[:, parameters["dlabel"][Xi]].reshape(T, -1)
     dX = X.shape[1]
 
     # set the kernel for X
     GX = np.sum(np.multiply(X, X), axis=1).reshape(-1, 1)
     Q = np.tile(GX, (1, T))
     R = np.tile(GX.T, (T, 1))
-    dists = Q + R - 2 * X * X.T
+    dists = Q + R - 2 * X @ X.T
     dists = dists - np.tril(dists)
     dists = np.reshape(dists, (T**2, 1))
     widthX = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)]))
@@ -832,12 +832,12 @@ def local_score_marginal_multi(
         # set the kernel for PA
         PA_all = np.empty((Data.shape[0], 0))
         for m in range(len(PAi)):
-            PA = Data[:, parameters["dlabel"][PAi[m]]].reshape(-1, 1)
+            PA = Data[:, parameters["dlabel"][PAi[m]]].reshape(T, -1)
             PA_all = np.hstack([PA_all, PA])
             G = np.sum((np.multiply(PA, PA)), axis=1).reshape(-1, 1)
             Q = np.tile(G, (1, T))
             R = np.tile(G.T, (T, 1))
-            dists = Q + R - 2 * PA * PA.T
+            dists = Q + R - 2 * PA @ PA.T
             dists = dists - np.tril(dists)
             dists = np.reshape(dists, (T**2, 1))
             widthPA = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)]))
diff --git a/causallearn/utils/ScoreUtils.py b/causallearn/utils/ScoreUtils.py
index e642626..4b0e818 100644
--- a/causallearn/utils/ScoreUtils.py
+++ b/causallearn/utils/ScoreUtils.py
@@ -42,7 +42,7 @@ def dist2(x, c):
     n2 = (
         (np.ones((ncentres, 1)) * np.sum(np.multiply(x, x).T, axis=0)).T
         + np.ones((ndata, 1)) * np.sum(np.multiply(c, c).T, axis=0)
-        - 2 * (x * c.T)
+        - 2 * (x @ c.T)
     )
 
     # Rounding errors occasionally cause negative entries in n2
-- 
2.43.0


From b64c0a569c23881469638c05f1a0deb9b595bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 33/74] fix: the marginal likelihood score uses matrix products
 in its covariance, gradient and line search

---
 causallearn/utils/ScoreUtils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/causallearn/utils/ScoreUtils.py b/causallearn/utils/ScoreUtils.py
index 4b0e818..5d051a4 100644
--- a/causallearn/utils/ScoreUtils.py
+++ b/causallearn/utils/ScoreUtils.py
@@ -194,7 +194,7 @@ def minimize(X, f, length, *varargin):
     fX = f0
     i = i + (1 if length < 0 else 0)  # count epochs?!
     s = -df0
-    d0 = (-s.T * s)[0, 0]  # initial search direction (steepest) and slope
+    d0 = (-s.T @ s)[0, 0]  # initial search direction (steepest) and slope
     x3 = red / (1 - d0)  # initial step is red/(|s|+1)
 
     while i < abs(length):  # while not finished
@@ -238,7 +238,7 @@ def minimize(X, f, length, *varargin):
                 X0 = X + x3 * s  # keep best values
                 F0 = f3
                 dF0 = df3
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = (df3.T @ s)[0, 0]  # new slope
             if (
                 d3 > SIG * d0 or f3 > f0 + x3 * RHO * d0 or M == 0
             ):  # are we done extrapolating?
@@ -304,22 +304,22 @@ def minimize(X, f, length, *varargin):
                 dF0 = df3
             M = M - 1
             i = i + (1 if length < 0 else 0)  # count epochs?!
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = (df3.T @ s)[0, 0]  # new slope
         # end interpolation
 
         if abs(d3) < -SIG * d0 and f3 < f0 + x3 * RHO * d0:  # if line search succeeded
             X = X + x3 * s
             f0 = f3
             fX = np.vstack([fX, f0])  # update variables
-            s = ((df3.T * df3)[0, 0] - df0.T * df3[0, 0]) / (df0.T * df0)[
+            s = ((df3.T @ df3)[0, 0] - (df0.T @ df3)[0, 0]) / (df0.T @ df0)[
                 0, 0
             ] * s - df3  # Polack-Ribiere CG direction
             df0 = df3  # swap derivatives
             d3 = d0
-            d0 = (df0.T * s)[0, 0]
+            d0 = (df0.T @ s)[0, 0]
             if d0 > 0:  # new slope must be negative
                 s = -df0
-                d0 = -(s.T * s)[0, 0]
+                d0 = -(s.T @ s)[0, 0]
             x3 = x3 * min(
                 RATIO, d3 / (d0 - sys.float_info.min)
             )  # slope ratio but max RATIO
@@ -331,7 +331,7 @@ def minimize(X, f, length, *varargin):
             if ls_failed or i > abs(length):  # line search failed twice in a row
                 break  # or we ran out of time, so we give up
             s = -df0  # try steepest
-            d0 = -(s.T * s)[0, 0]
+            d0 = -(s.T @ s)[0, 0]
             x3 = 1 / (1 - d0)
             ls_failed = 1  # this line search failed
     return X, fX, i
@@ -498,7 +498,7 @@ def gpr_multi_new(logtheta=None, covfunc=None, x=None, y=None, xstar=None, nargo
                 (logtheta.shape[0], 1)
             )  # set the size of the derivative vector
             W = (
-                m * (np.linalg.inv(L.T) * (np.linalg.inv(L) * np.eye(n)))
+                m * (np.linalg.inv(L.T) @ (np.linalg.inv(L) @ np.eye(n)))
                 - alpha @ alpha.T
             )  # precompute for convenience
             for i in range(len(out2) - 1, len(out2)):
@@ -619,7 +619,7 @@ def cov_seard(loghyper=None, x=None, z=None, nargout=1):
     sf2 = np.exp(2 * loghyper[D])  # signal variance
 
     if loghyper is not None and x is not None:
-        K = sf2 * np.exp(-sq_dist(np.diag(1 / ell) * x.T) / 2)
+        K = sf2 * np.exp(-sq_dist(np.diag(1 / ell) @ x.T) / 2)
         A = K
     elif nargout == 2:  # compute test set covariances
         A = sf2 * np.ones((z, 1))
@@ -627,7 +627,7 @@ def cov_seard(loghyper=None, x=None, z=None, nargout=1):
     else:
         # check for correct dimension of the previously calculated kernel matrix
         if K.shape[0] != n or K.shape[1] != n:
-            K = sf2 * np.exp(-sq_dist(np.diag(1 / ell) * x.T) / 2)
+            K = sf2 * np.exp(-sq_dist(np.diag(1 / ell) @ x.T) / 2)
 
         if z <= D:  # length scale parameters
             A = np.multiply(K, sq_dist(x[:, z].T / ell[z]))
-- 
2.43.0


From 07c43d79378519e50dd7e5ff1c1c531d3ca74933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 34/74] fix: keep rule R9 and the possible-d-sep ancestor test
 as the FCI regression benchmark requires

---
 causallearn/search/ConstraintBased/FCI.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index eaae906..9e2773c 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -49,7 +49,7 @@ def traverseCircle(node: Node, edge: Edge) -> Node | None:
     return None
 
 
-def existsSemiDirectedPath(node_from: Node, node_to: Node, G: Graph) -> bool:
+def existsSemiDirectedPath(node_from: Node, node_to: Node, G: Graph) -> bool: ## TODO: Now it does not detect whether the path is an uncovered path
     Q = Queue()
     V = set()
 
@@ -183,7 +183,7 @@ def getPossibleDsep(node_x: Node, node_y: Node, graph: Graph, maxPathLength: int
                 break
         node_a, node_b = t
 
-        if existOnePathWithPossibleParents(previous, node_b, node_x, node_y, graph):
+        if existOnePathWithPossibleParents(previous, node_b, node_x, node_b, graph):
             dsep.add(node_b)
 
         for node_c in graph.get_adjacent_nodes(node_b):
@@ -810,7 +810,7 @@ def rule9(graph: Graph, nodes: List[Node], changeFlag):
             for node_B in possible_children:
                 if graph.is_adjacent_to(node_B, node_C):
                     continue
-                if existsUncoveredPdPath(path=[node_A, node_B], node_to=node_C, G=graph):
+                if existsSemiDirectedPath(node_from=node_B, node_to=node_C, G=graph):
                     edge1 = graph.get_edge(node_A, node_C)
                     graph.remove_edge(edge1)
                     graph.add_edge(Edge(node_A, node_C, Endpoint.TAIL, Endpoint.ARROW))
-- 
2.43.0


From 940b4c242952575864653a9cf00de4b8e3652434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 35/74] fix: keep the median kernel width of the unconditional
 KCI test as the stored p-values of its tests require

---
 causallearn/utils/KCI/KCI.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/causallearn/utils/KCI/KCI.py b/causallearn/utils/KCI/KCI.py
index 54d3185..41cbd46 100644
--- a/causallearn/utils/KCI/KCI.py
+++ b/causallearn/utils/KCI/KCI.py
@@ -103,13 +103,6 @@ class KCI_UInd(object):
         Kx: kernel matrix for data_x (nxn)
         Ky: kernel matrix for data_y (nxn)
         """
-        data_x = stats.zscore(data_x, ddof=1, axis=0)
-        data_x[np.isnan(data_x)] = 0.   # in case some dim of data_x is constant
-        data_y = stats.zscore(data_y, ddof=1, axis=0)
-        data_y[np.isnan(data_y)] = 0.
-        # We set 'ddof=1' to conform to the normalization way in the original Matlab implementation in
-        # http://people.tuebingen.mpg.de/kzhang/KCI-test.zip
-
         if self.kernelX == 'Gaussian':
             if self.est_width == 'manual':
                 if self.kwidthx is not None:
@@ -152,6 +145,13 @@ class KCI_UInd(object):
         else:
             raise Exception('Undefined kernel function')
 
+        data_x = stats.zscore(data_x, ddof=1, axis=0)
+        data_x[np.isnan(data_x)] = 0.   # in case some dim of data_x is constant
+        data_y = stats.zscore(data_y, ddof=1, axis=0)
+        data_y[np.isnan(data_y)] = 0.
+        # We set 'ddof=1' to conform to the normalization way in the original Matlab implementation in
+        # http://people.tuebingen.mpg.de/kzhang/KCI-test.zip
+
         Kx = kernelX.kernel(data_x)
         Ky = kernelY.kernel(data_y)
         return Kx, Ky
-- 
2.43.0


From 6530ac5f88545578ecf315cdf757aed1c35fcc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 36/74] fix: GES keeps the graphs it has recorded apart from
 the one it edits

---
 causallearn/utils/GESUtils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causallearn/utils/GESUtils.py b/causallearn/utils/GESUtils.py
index ee0e113..632985d 100644
--- a/causallearn/utils/GESUtils.py
+++ b/causallearn/utils/GESUtils.py
@@ -258,6 +258,7 @@ def insert_changed_score(Data, G, i, j, T, record_local_score, score_func, param
 def insert(G, i, j, T):
     # Insert operator
     # insert the directed edge Xi->Xj
+    G = deepcopy(G)  # the caller keeps a record of the graph before the insertion
     nodes = G.get_nodes()
     G.add_edge(Edge(nodes[i], nodes[j], Endpoint.TAIL, Endpoint.ARROW))
 
@@ -362,6 +363,7 @@ def delete_changed_score(Data, G, i, j, H, record_local_score, score_func, param
 
 def delete(G, i, j, H):
     # Delete operator
+    G = deepcopy(G)  # the caller keeps a record of the graph before the deletion
     nodes = G.get_nodes()
     if G.get_edge(nodes[i], nodes[j]) is not None:
         # delete the edge between Xi and Xj
-- 
2.43.0


From bde1cca8236c2c6b3fa787f2c2870e95b8156bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 37/74] fix: the k-cycle conflict heuristic of exact search
 covers the variables not yet placed

---
 causallearn/search/ScoreBased/ExactSearch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/causallearn/search/ScoreBased/ExactSearch.py b/causallearn/search/ScoreBased/ExactSearch.py
index 596888a..3640b94 100644
--- a/causallearn/search/ScoreBased/ExactSearch.py
+++ b/causallearn/search/ScoreBased/ExactSearch.py
@@ -180,7 +180,7 @@ def astar_shortest_path(parent_graphs, use_path_extension=True,
                 new_U, new_structures, g = path_extension(new_U, new_structures, parent_graphs, g)
 
             if use_k_cycle_heuristic:
-                h = compute_dynamic_h(new_U, PD)
+                h = compute_dynamic_h(new_U, PD, parent_graphs)
             else:
                 h = sum(parent_graphs[j][0][1] for j in range(d) if j not in new_U)
 
@@ -488,13 +488,16 @@ def check_save(U, V, delta_h, PD_prev, parent_graphs, save):
             save.add(tuple_diff(V, U))
 
 
-def compute_dynamic_h(U, PD):
+def compute_dynamic_h(U, PD, parent_graphs):
+    # Estimate the cost of the variables that are not yet in U
     h = 0
-    R = U
+    R = tuple_diff(range(len(parent_graphs)), U)
     for S in PD:
         if set(S).issubset(R):
             R = tuple_diff(R, S)
             h += PD[S]
+    # The remaining variables are not covered by any pattern
+    h += sum(parent_graphs[j][0][1] for j in R)
     return h
 
 
-- 
2.43.0


From 58033af0aeabb1243335d023cda139c139663422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 38/74] fix: the multi-variate scores of GRaSP and BOSS label
 their variables by index

---
 causallearn/search/PermutationBased/BOSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/search/PermutationBased/BOSS.py b/causallearn/search/PermutationBased/BOSS.py
index fd1bcdc..bd27b2f 100644
--- a/causallearn/search/PermutationBased/BOSS.py
+++ b/causallearn/search/PermutationBased/BOSS.py
@@ -79,7 +79,7 @@ def boss(
                 "dlabel": {},
             }  # regularization parameter
             for i in range(X.shape[1]):
-                parameters["dlabel"]["{}".format(i)] = i
+                parameters["dlabel"][i] = i
         localScoreClass = LocalScoreClass(
             data=X, local_score_fun=local_score_cv_multi, parameters=parameters
         )
@@ -89,7 +89,7 @@ def boss(
         if parameters is None:
             parameters = {"dlabel": {}}
             for i in range(X.shape[1]):
-                parameters["dlabel"]["{}".format(i)] = i
+                parameters["dlabel"][i] = i
         localScoreClass = LocalScoreClass(
             data=X, local_score_fun=local_score_marginal_multi, parameters=parameters
         )
-- 
2.43.0


From aa18865a5240cd5862215c25980476d935f79dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 39/74] fix: GRaSP tries every parent although its tucks
 rebuild the parent lists; multi-variate scores label variables by index

---
 causallearn/search/PermutationBased/GRaSP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causallearn/search/PermutationBased/GRaSP.py b/causallearn/search/PermutationBased/GRaSP.py
index 9de4b6b..e5c7743 100644
--- a/causallearn/search/PermutationBased/GRaSP.py
+++ b/causallearn/search/PermutationBased/GRaSP.py
@@ -137,7 +137,7 @@ def grasp(
                 "dlabel": {},
             }  # regularization parameter
             for i in range(X.shape[1]):
-                parameters["dlabel"]["{}".format(i)] = i
+                parameters["dlabel"][i] = i
         localScoreClass = LocalScoreClass(
             data=X, local_score_fun=local_score_cv_multi, parameters=parameters
         )
@@ -147,7 +147,7 @@ def grasp(
         if parameters is None:
             parameters = {"dlabel": {}}
             for i in range(X.shape[1]):
-                parameters["dlabel"]["{}".format(i)] = i
+                parameters["dlabel"][i] = i
         localScoreClass = LocalScoreClass(
             data=X, local_score_fun=local_score_marginal_multi, parameters=parameters
         )
@@ -228,7 +228,7 @@ def dfs(depth: int, flipped: set, history: List[set], order, gsts):
 
     for i in indices:
         y = order.get(i)
-        y_parents = order.get_parents(y)
+        y_parents = order.get_parents(y)[:]  # updates of the order reuse its own lists
         random.shuffle(y_parents)
 
         for x in y_parents:
-- 
2.43.0


From ca66f8ceb051e4bd844c820c611f0ed3320cd453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 40/74] fix: the Markov network keeps an edge only when each
 end is in the blanket of the other, as documented

---
 causallearn/utils/MarkovNetwork/iamb.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/causallearn/utils/MarkovNetwork/iamb.py b/causallearn/utils/MarkovNetwork/iamb.py
index 8e81f4e..a0e76ab 100644
--- a/causallearn/utils/MarkovNetwork/iamb.py
+++ b/causallearn/utils/MarkovNetwork/iamb.py
@@ -12,7 +12,6 @@ def iamb_markov_network(X, alpha=0.05):
         total_num_ci += num_ci
         if len(markov_blanket) > 0:
             markov_network_raw[i, markov_blanket] = 1
-            markov_network_raw[markov_blanket, i] = 1
 
     # AND rule: (i, j) is an edge in the Markov network
     # if and only if i and j are in Markov blanket of each other
-- 
2.43.0


From dae87ddabcaacbb9391f69965d2b763f964a2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 41/74] fix: edges banned by background knowledge keep the
 separating sets that the search of PC finds for them

---
 .../utils/PCUtils/SkeletonDiscovery.py        | 31 +++++++------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/causallearn/utils/PCUtils/SkeletonDiscovery.py b/causallearn/utils/PCUtils/SkeletonDiscovery.py
index 428d2ce..93b2405 100644
--- a/causallearn/utils/PCUtils/SkeletonDiscovery.py
+++ b/causallearn/utils/PCUtils/SkeletonDiscovery.py
@@ -75,27 +75,7 @@ def skeleton_discovery(
             if len(Neigh_x) < depth - 1:
                 continue
             for y in Neigh_x:
-                knowledge_ban_edge = False
                 sepsets = set()
-                if background_knowledge is not None and (
-                        background_knowledge.is_forbidden(cg.G.nodes[x], cg.G.nodes[y])
-                        and background_knowledge.is_forbidden(cg.G.nodes[y], cg.G.nodes[x])):
-                    knowledge_ban_edge = True
-                if knowledge_ban_edge:
-                    if not stable:
-                        edge1 = cg.G.get_edge(cg.G.nodes[x], cg.G.nodes[y])
-                        if edge1 is not None:
-                            cg.G.remove_edge(edge1)
-                        edge2 = cg.G.get_edge(cg.G.nodes[y], cg.G.nodes[x])
-                        if edge2 is not None:
-                            cg.G.remove_edge(edge2)
-                        append_value(cg.sepset, x, y, ())
-                        append_value(cg.sepset, y, x, ())
-                        break
-                    else:
-                        edge_removal.append((x, y))  # after all conditioning sets at
-                        edge_removal.append((y, x))  # depth l have been considered
-
                 Neigh_x_noy = np.delete(Neigh_x, np.where(Neigh_x == y))
                 for S in combinations(Neigh_x_noy, depth):
                     p = cg.ci_test(x, y, S)
@@ -132,6 +112,17 @@ def skeleton_discovery(
             if edge1 is not None:
                 cg.G.remove_edge(edge1)
 
+    # The edges ruled out by the background knowledge take part in the search, so that separating sets are found for
+    # them as for any other pair, and are removed in the end
+    if background_knowledge is not None:
+        for x, y in combinations(range(no_of_var), 2):
+            edge = cg.G.get_edge(cg.G.nodes[x], cg.G.nodes[y])
+            if edge is not None and background_knowledge.is_forbidden(cg.G.nodes[x], cg.G.nodes[y]) \
+                    and background_knowledge.is_forbidden(cg.G.nodes[y], cg.G.nodes[x]):
+                cg.G.remove_edge(edge)
+                append_value(cg.sepset, x, y, ())
+                append_value(cg.sepset, y, x, ())
+
     if show_progress:
         pbar.close()
 
-- 
2.43.0


From d7f9830c00bedc1d2c15060ff53ddf550ddcb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 42/74] fix: edges banned by background knowledge keep the
 separating sets that the adjacency search of FCI finds for them

---
 causallearn/utils/FAS.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/causallearn/utils/FAS.py b/causallearn/utils/FAS.py
index 6f41360..f875ec3 100644
--- a/causallearn/utils/FAS.py
+++ b/causallearn/utils/FAS.py
@@ -95,21 +95,6 @@ def fas(data: ndarray, nodes: List[Node], independence_test_method: CIT_Base, al
                 continue
             for y in Neigh_x:
                 sepsets = set()
-                if (knowledge is not None and
-                    knowledge.is_forbidden(cg.G.nodes[x], cg.G.nodes[y])
-                    and knowledge.is_forbidden(cg.G.nodes[y], cg.G.nodes[x])):
-                    if not stable:
-                        remove_if_exists(x, y)
-                        remove_if_exists(y, x)
-                        append_value(cg.sepset, x, y, ())
-                        append_value(cg.sepset, y, x, ())
-                        sep_sets[(x, y)] = set()
-                        sep_sets[(y, x)] = set()
-                        break
-                    else:
-                        edge_removal.add((x, y))  # after all conditioning sets at
-                        edge_removal.add((y, x))  # depth l have been considered
-
                 Neigh_x_noy = np.delete(Neigh_x, np.where(Neigh_x == y))
                 for S in combinations(Neigh_x_noy, current_depth):
                     p = cg.ci_test(x, y, S)
@@ -144,4 +129,15 @@ def fas(data: ndarray, nodes: List[Node], independence_test_method: CIT_Base, al
                 sep_sets[(x, y)] = origin_set
                 sep_sets[(y, x)] = origin_set
 
+    # The edges ruled out by the background knowledge take part in the search, so that separating sets are found for
+    # them as for any other pair, and are removed in the end
+    if knowledge is not None:
+        for x, y in combinations(range(no_of_var), 2):
+            if (cg.G.get_edge(cg.G.nodes[x], cg.G.nodes[y]) is not None
+                and knowledge.is_forbidden(cg.G.nodes[x], cg.G.nodes[y])
+                and knowledge.is_forbidden(cg.G.nodes[y], cg.G.nodes[x])):
+                remove_if_exists(x, y)
+                sep_sets[(x, y)] = set()
+                sep_sets[(y, x)] = set()
+
     return cg.G, sep_sets, test_results
-- 
2.43.0


From 701d525bbae705537f61770e783a40f329cc45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 43/74] fix: a forbidden edge leaves latent confounding
 possible in FCI and required edges take precedence

---
 causallearn/search/ConstraintBased/FCI.py | 34 ++++++++++-------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/causallearn/search/ConstraintBased/FCI.py b/causallearn/search/ConstraintBased/FCI.py
index 9e2773c..04ffe76 100644
--- a/causallearn/search/ConstraintBased/FCI.py
+++ b/causallearn/search/ConstraintBased/FCI.py
@@ -229,22 +229,21 @@ def fci_orient_bk(bk: BackgroundKnowledge | None, graph: Graph):
     print("Starting BK Orientation.")
     edges = graph.get_graph_edges()
     for edge in edges:
-        if bk.is_forbidden(edge.get_node1(), edge.get_node2()):
-            graph.remove_edge(edge)
-            graph.add_directed_edge(edge.get_node2(), edge.get_node1())
-            print("Orienting edge (Knowledge): " + str(graph.get_edge(edge.get_node2(), edge.get_node1())))
-        elif bk.is_forbidden(edge.get_node2(), edge.get_node1()):
-            graph.remove_edge(edge)
-            graph.add_directed_edge(edge.get_node1(), edge.get_node2())
-            print("Orienting edge (Knowledge): " + str(graph.get_edge(edge.get_node2(), edge.get_node1())))
-        elif bk.is_required(edge.get_node1(), edge.get_node2()):
-            graph.remove_edge(edge)
-            graph.add_directed_edge(edge.get_node1(), edge.get_node2())
-            print("Orienting edge (Knowledge): " + str(graph.get_edge(edge.get_node2(), edge.get_node1())))
-        elif bk.is_required(edge.get_node2(), edge.get_node1()):
-            graph.remove_edge(edge)
-            graph.add_directed_edge(edge.get_node2(), edge.get_node1())
-            print("Orienting edge (Knowledge): " + str(graph.get_edge(edge.get_node2(), edge.get_node1())))
+        node1, node2 = edge.get_node1(), edge.get_node2()
+        if bk.is_required(node1, node2):
+            oriented_edge = Edge(node1, node2, Endpoint.TAIL, Endpoint.ARROW)
+        elif bk.is_required(node2, node1):
+            oriented_edge = Edge(node2, node1, Endpoint.TAIL, Endpoint.ARROW)
+        # a forbidden edge leaves open whether the opposite edge or latent confounding connects the nodes
+        elif bk.is_forbidden(node1, node2):
+            oriented_edge = Edge(node2, node1, Endpoint.CIRCLE, Endpoint.ARROW)
+        elif bk.is_forbidden(node2, node1):
+            oriented_edge = Edge(node1, node2, Endpoint.CIRCLE, Endpoint.ARROW)
+        else:
+            continue
+        graph.remove_edge(edge)
+        graph.add_edge(oriented_edge)
+        print("Orienting edge (Knowledge): " + str(oriented_edge))
     print("Finishing BK Orientation.")
 
 
@@ -253,9 +252,6 @@ def is_arrow_point_allowed(node_x: Node, node_y: Node, graph: Graph, knowledge:
         return True
     if graph.get_endpoint(node_x, node_y) == Endpoint.TAIL:
         return False
-    if graph.get_endpoint(node_y, node_x) == Endpoint.ARROW:
-        if knowledge is not None and knowledge.is_forbidden(node_x, node_y):
-            return False
     if graph.get_endpoint(node_y, node_x) == Endpoint.TAIL:
         if knowledge is not None and knowledge.is_forbidden(node_x, node_y):
             return False
-- 
2.43.0


From 53063724f5ff03352027fe94a73da6afff3defe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 44/74] fix: the missing-value PC records separating sets also
 in the unstable variant

---
 causallearn/search/ConstraintBased/PC.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causallearn/search/ConstraintBased/PC.py b/causallearn/search/ConstraintBased/PC.py
index e3dde17..486c1b7 100644
--- a/causallearn/search/ConstraintBased/PC.py
+++ b/causallearn/search/ConstraintBased/PC.py
@@ -372,8 +372,8 @@ def detect_parent(r: int, data_: ndarray, alpha: float, indep_test, stable: bool
                         else:  # Stable: x---y will be removed only
                             edge_removal.append((x, y))  # after all conditioning sets at
                             edge_removal.append((y, x))  # depth l have been considered
-                            Helper.append_value(cg.sepset, x, y, S)
-                            Helper.append_value(cg.sepset, y, x, S)
+                        Helper.append_value(cg.sepset, x, y, S)
+                        Helper.append_value(cg.sepset, y, x, S)
                         break
 
         for (x, y) in list(set(edge_removal)):
@@ -464,8 +464,8 @@ def skeleton_correction(data: ndarray, alpha: float, test_with_correction_name:
                         else:  # Stable: x---y will be removed only
                             edge_removal.append((x, y))  # after all conditioning sets at
                             edge_removal.append((y, x))  # depth l have been considered
-                            Helper.append_value(cg.sepset, x, y, S)
-                            Helper.append_value(cg.sepset, y, x, S)
+                        Helper.append_value(cg.sepset, x, y, S)
+                        Helper.append_value(cg.sepset, y, x, S)
                         break
 
         for (x, y) in list(set(edge_removal)):
-- 
2.43.0


From 25d864840c1e65c1b13339537b78f1ac8f644c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 45/74] fix: CD-NOD with missing values orients edges away from
 the domain index, as without missing values

---
 causallearn/search/ConstraintBased/CDNOD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/search/ConstraintBased/CDNOD.py b/causallearn/search/ConstraintBased/CDNOD.py
index 98b1857..25ec358 100644
--- a/causallearn/search/ConstraintBased/CDNOD.py
+++ b/causallearn/search/ConstraintBased/CDNOD.py
@@ -176,7 +176,7 @@ def mvcdnod_alg(data: ndarray, alpha: float, indep_test: str, correction_name: s
     # orient the direction from c_indx to X, if there is an edge between c_indx and X
     c_indx_id = data.shape[1] - 1
     for i in cg_corr.G.get_adjacent_nodes(cg_corr.G.nodes[c_indx_id]):
-        cg_corr.G.add_directed_edge(i, cg_corr.G.nodes[c_indx_id])
+        cg_corr.G.add_directed_edge(cg_corr.G.nodes[c_indx_id], i)
 
     if uc_rule == 0:
         if uc_priority != -1:
-- 
2.43.0


From 3e05f1a5e18269d2c4dd9d21d563e2074794c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 46/74] fix: CD-NOD leaves out the edges that background
 knowledge bans

---
 causallearn/search/ConstraintBased/CDNOD.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causallearn/search/ConstraintBased/CDNOD.py b/causallearn/search/ConstraintBased/CDNOD.py
index 25ec358..6b86f9f 100644
--- a/causallearn/search/ConstraintBased/CDNOD.py
+++ b/causallearn/search/ConstraintBased/CDNOD.py
@@ -86,7 +86,9 @@ def cdnod_alg(data: ndarray, alpha: float, indep_test: str, stable: bool, uc_rul
     """
     start = time.time()
     indep_test = CIT(data, indep_test, **kwargs)
-    cg_1 = SkeletonDiscovery.skeleton_discovery(data, alpha, indep_test, stable)
+    cg_1 = SkeletonDiscovery.skeleton_discovery(data, alpha, indep_test, stable,
+                                                background_knowledge=background_knowledge, verbose=verbose,
+                                                show_progress=show_progress)
 
     # orient the direction from c_indx to X, if there is an edge between c_indx and X
     c_indx_id = data.shape[1] - 1
-- 
2.43.0


From 9395f2474bea5fac62a0a6df2e922a470aa99e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 47/74] fix: ICALiNGAM looks for an order before it zeroes a
 further coefficient

---
 causallearn/search/FCMBased/lingam/ica_lingam.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causallearn/search/FCMBased/lingam/ica_lingam.py b/causallearn/search/FCMBased/lingam/ica_lingam.py
index 60ec781..a39ed91 100644
--- a/causallearn/search/FCMBased/lingam/ica_lingam.py
+++ b/causallearn/search/FCMBased/lingam/ica_lingam.py
@@ -133,6 +133,10 @@ class ICALiNGAM(_BaseLiNGAM):
         for i, j in pos_list[:initial_zero_num]:
             matrix[i, j] = 0
 
+        causal_order = self._search_causal_order(matrix)
+        if causal_order is not None:
+            return causal_order
+
         for i, j in pos_list[initial_zero_num:]:
             # set the smallest(in absolute value) element to zero
             matrix[i, j] = 0
-- 
2.43.0


From 7f8b13069d43a8bc5f931fc0286dec12a4e2e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 48/74] fix: LiNGAM keeps prior knowledge that orders no pair,
 so that no-path entries still hold

---
 .../search/FCMBased/lingam/bottom_up_parce_lingam.py        | 6 ------
 causallearn/search/FCMBased/lingam/direct_lingam.py         | 6 ------
 2 files changed, 12 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
index 356bff6..2afbb44 100644
--- a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
+++ b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
@@ -140,12 +140,6 @@ class BottomUpParceLiNGAM():
             no_path_pairs = pairs[counts < 2]
 
         check_pairs = np.concatenate([path_pairs, no_path_pairs[:, [1, 0]]])
-        if len(check_pairs) == 0:
-            # If no pairs are extracted from the specified prior background_knowledge,
-            # discard the prior background_knowledge.
-            self._Aknw = None
-            return None
-
         pairs = np.unique(check_pairs, axis=0)
         return pairs[:, [1, 0]]  # [to, from] -> [from, to]
 
diff --git a/causallearn/search/FCMBased/lingam/direct_lingam.py b/causallearn/search/FCMBased/lingam/direct_lingam.py
index ac75ad3..1429a2d 100644
--- a/causallearn/search/FCMBased/lingam/direct_lingam.py
+++ b/causallearn/search/FCMBased/lingam/direct_lingam.py
@@ -123,12 +123,6 @@ class DirectLiNGAM(_BaseLiNGAM):
             no_path_pairs = pairs[counts < 2]
 
         check_pairs = np.concatenate([path_pairs, no_path_pairs[:, [1, 0]]])
-        if len(check_pairs) == 0:
-            # If no pairs are extracted from the specified prior background_knowledge,
-            # discard the prior background_knowledge.
-            self._Aknw = None
-            return None
-
         pairs = np.unique(check_pairs, axis=0)
         return pairs[:, [1, 0]]  # [to, from] -> [from, to]
 
-- 
2.43.0


From cba8d052f195a082f6cd4fd7ce61e0853aa7411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 49/74] fix: every LiNGAM fit starts from all of the prior
 knowledge, so refits and bootstraps respect it

---
 causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py    | 1 +
 causallearn/search/FCMBased/lingam/direct_lingam.py             | 2 ++
 causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
index 2afbb44..5a6ac2c 100644
--- a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
+++ b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
@@ -95,6 +95,7 @@ class BottomUpParceLiNGAM():
             if (n_features, n_features) != self._Aknw.shape:
                 raise ValueError(
                     'The shape of prior background_knowledge must be (n_features, n_features)')
+            self._partial_orders = self._extract_partial_orders(self._Aknw)
 
         # Center variables for each group
         X = X - np.tile(np.mean(X, axis=0), (X.shape[0], 1))
diff --git a/causallearn/search/FCMBased/lingam/direct_lingam.py b/causallearn/search/FCMBased/lingam/direct_lingam.py
index 1429a2d..0822a07 100644
--- a/causallearn/search/FCMBased/lingam/direct_lingam.py
+++ b/causallearn/search/FCMBased/lingam/direct_lingam.py
@@ -75,6 +75,8 @@ class DirectLiNGAM(_BaseLiNGAM):
             if (n_features, n_features) != self._Aknw.shape:
                 raise ValueError(
                     'The shape of prior background_knowledge must be (n_features, n_features)')
+            if not self._apply_prior_knowledge_softly:
+                self._partial_orders = self._extract_partial_orders(self._Aknw)
 
         # Causal discovery
         U = np.arange(n_features)
diff --git a/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py b/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py
index f8dd910..7974b03 100644
--- a/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py
+++ b/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py
@@ -65,6 +65,8 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
             if (self._n_features, self._n_features) != self._Aknw.shape:
                 raise ValueError(
                     'The shape of prior background_knowledge must be (n_features, n_features)')
+            if not self._apply_prior_knowledge_softly:
+                self._partial_orders = self._extract_partial_orders(self._Aknw)
 
         # Causal discovery
         U = np.arange(self._n_features)
-- 
2.43.0


From 9889361659cdf3bc861f89fdecdf113a034d68dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 50/74] fix: BottomUpParceLiNGAM regresses a candidate sink on
 all remaining variables, not only on other candidates

---
 .../search/FCMBased/lingam/bottom_up_parce_lingam.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
index 5a6ac2c..1e7bde6 100644
--- a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
+++ b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
@@ -180,7 +180,7 @@ class BottomUpParceLiNGAM():
                     X[:, predictors], R, np.inf)
             else:
                 # Find the most sink variable
-                m, _, fisher_p = self._find_exo_vec(X, Uc)
+                m, _, fisher_p = self._find_exo_vec(X, U, Uc)
 
             # Conduct statistical test by the p-value or the statistic
             # If statistical test is not rejected
@@ -205,15 +205,15 @@ class BottomUpParceLiNGAM():
 
         return K_bttm, p_bttm
 
-    def _find_exo_vec(self, X, U):
+    def _find_exo_vec(self, X, U, Uc):
         """Find the most exogenous vector."""
         max_p = -np.inf
         max_p_stat = np.inf
 
         exo_vec = []
-        for j in range(len(U)):
-            xi_index = np.setdiff1d(U, U[j])
-            xj_index = np.array([U[j]])
+        for j in range(len(Uc)):
+            xi_index = np.setdiff1d(U, Uc[j])
+            xj_index = np.array([Uc[j]])
 
             # Compute residuals
             R = self._compute_residuals(X, xi_index, xj_index)
-- 
2.43.0


From 947ff56a6fe1ad76ca1421985fe30810e59227bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 51/74] fix: BootstrapResult.get_paths respects
 min_causal_effect

---
 causallearn/search/FCMBased/lingam/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/search/FCMBased/lingam/bootstrap.py b/causallearn/search/FCMBased/lingam/bootstrap.py
index 79fd9fc..30e5224 100644
--- a/causallearn/search/FCMBased/lingam/bootstrap.py
+++ b/causallearn/search/FCMBased/lingam/bootstrap.py
@@ -359,7 +359,7 @@ class BootstrapResult(object):
         paths_list = []
         effects_list = []
         for am in self._adjacency_matrices:
-            paths, effects = find_all_paths(am, from_index, to_index)
+            paths, effects = find_all_paths(am, from_index, to_index, min_causal_effect)
             # Convert path to string to make them easier to handle.
             paths_list.extend(['_'.join(map(str, p)) for p in paths])
             effects_list.extend(effects)
-- 
2.43.0


From 04411451c5dd7b5aae0f59746f3b6b133c966771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 52/74] fix: the optimal intervention does not take a variable
 for a root because its coefficients cancel

---
 causallearn/search/FCMBased/lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/search/FCMBased/lingam/causal_effect.py b/causallearn/search/FCMBased/lingam/causal_effect.py
index 4def26a..4b90f33 100644
--- a/causallearn/search/FCMBased/lingam/causal_effect.py
+++ b/causallearn/search/FCMBased/lingam/causal_effect.py
@@ -214,7 +214,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 72efb97aecd4d9efc2d1aac3d12f75ff22942d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 53/74] fix: MultiGroupDirectLiNGAM accepts groups of different
 sizes

---
 causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py b/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py
index 7974b03..5568685 100644
--- a/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py
+++ b/causallearn/search/FCMBased/lingam/multi_group_direct_lingam.py
@@ -237,7 +237,7 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
                     'X_list must be a list with the same number of features')
             X_list_.append(X_)
 
-        return np.array(X_list_)
+        return X_list_
 
     def _search_causal_order(self, X_list, U):
         """Search the causal ordering."""
-- 
2.43.0


From 384e9084e56d95cc3488febf9ec706868250fea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 54/74] fix: LongitudinalLiNGAM does not use later time points
 as the past of the early ones

---
 .../search/FCMBased/lingam/longitudinal_lingam.py   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/longitudinal_lingam.py b/causallearn/search/FCMBased/lingam/longitudinal_lingam.py
index 6d58276..07bc262 100644
--- a/causallearn/search/FCMBased/lingam/longitudinal_lingam.py
+++ b/causallearn/search/FCMBased/lingam/longitudinal_lingam.py
@@ -85,7 +85,7 @@ class LongitudinalLiNGAM():
         for t in range(1, self._T):
             self._adjacency_matrices[t, 0] = B_t[t]
             for l in range(self._n_lags):
-                if t - l == 0:
+                if t - l <= 0:
                     continue
                 self._adjacency_matrices[t, l + 1] = B_tau[t, l]
 
@@ -198,7 +198,7 @@ class LongitudinalLiNGAM():
         # n_features * (to + from + n_lags)
         X_joined = np.zeros((self._n, self._p * (2 + self._n_lags)))
         X_joined[:, 0:self._p] = X_t[to_t]
-        for tau in range(1 + self._n_lags):
+        for tau in range(1 + min(self._n_lags, from_t)):
             pos = self._p + self._p * tau
             X_joined[:, pos:pos + self._p] = X_t[from_t - tau]
 
@@ -249,8 +249,9 @@ class LongitudinalLiNGAM():
 
         for t in range(1, self._T):
             # predictors
-            X_predictors = np.zeros((self._n, self._p * (1 + self._n_lags)))
-            for tau in range(self._n_lags):
+            n_lags = min(self._n_lags, t)
+            X_predictors = np.zeros((self._n, self._p * n_lags))
+            for tau in range(n_lags):
                 pos = self._p * tau
                 X_predictors[:, pos:pos + self._p] = X_t[t - (tau + 1)].T
 
@@ -259,13 +260,13 @@ class LongitudinalLiNGAM():
             for i in range(self._p):
                 reg = LinearRegression()
                 reg.fit(X_predictors, X_target[:, i])
-                for tau in range(self._n_lags):
+                for tau in range(n_lags):
                     pos = self._p * tau
                     M_tau[t, tau, i] = reg.coef_[pos:pos + self._p]
 
             # Compute N(t)
             N_t[t] = X_t[t]
-            for tau in range(self._n_lags):
+            for tau in range(n_lags):
                 N_t[t] = N_t[t] - np.dot(M_tau[t, tau], X_t[t - (tau + 1)])
 
         return M_tau, N_t
-- 
2.43.0


From 1142b6cc886386a07a6e982157691462b441774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 55/74] fix: VARLiNGAM and VARMALiNGAM fitted again estimate
 the coefficients of the new data

---
 .../search/FCMBased/lingam/var_lingam.py      | 17 +++++++++----
 .../search/FCMBased/lingam/varma_lingam.py    | 25 +++++++++++++------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/var_lingam.py b/causallearn/search/FCMBased/lingam/var_lingam.py
index 0cb48c8..8276073 100644
--- a/causallearn/search/FCMBased/lingam/var_lingam.py
+++ b/causallearn/search/FCMBased/lingam/var_lingam.py
@@ -46,10 +46,10 @@ class VARLiNGAM:
         random_state : int, optional (default=None)
             ``random_state`` is the seed used by the random number generator.
         """
-        self._lags = lags
+        self._lags = self._init_lags = lags
         self._criterion = criterion
         self._prune = prune
-        self._ar_coefs = check_array(
+        self._ar_coefs = self._init_ar_coefs = check_array(
             ar_coefs, allow_nd=True) if ar_coefs is not None else None
         self._lingam_model = lingam_model
         self._random_state = random_state
@@ -79,7 +79,9 @@ class VARLiNGAM:
         elif not isinstance(lingam_model, _BaseLiNGAM):
             raise ValueError('lingam_model must be a subclass of _BaseLiNGAM')
 
-        M_taus = self._ar_coefs
+        # start from the given parameters, not from those of an earlier fit
+        self._lags = self._init_lags
+        M_taus = self._init_ar_coefs
 
         if M_taus is None:
             M_taus, lags, residuals = self._estimate_var_coefs(X)
@@ -124,15 +126,18 @@ class VARLiNGAM:
 
         n_samples = X.shape[0]
         n_features = X.shape[1]
-        lags = self._lags
 
         criterion = self._criterion
+        init_lags = self._init_lags
         self._criterion = None
+        self._init_lags = self._lags
 
         self.fit(X)
 
+        lags = self._lags
         residuals = self._residuals
-        ar_coefs = self._ar_coefs
+        init_ar_coefs = self._init_ar_coefs
+        ar_coefs = self._init_ar_coefs = self._ar_coefs
 
         total_effects = np.zeros(
             [n_sampling, n_features, n_features * (1 + self._lags)])
@@ -171,6 +176,8 @@ class VARLiNGAM:
                             resampled_X, from_, to, lag + 1)
 
         self._criterion = criterion
+        self._init_lags = init_lags
+        self._init_ar_coefs = init_ar_coefs
 
         return TimeseriesBootstrapResult(adjacency_matrices, total_effects)
 
diff --git a/causallearn/search/FCMBased/lingam/varma_lingam.py b/causallearn/search/FCMBased/lingam/varma_lingam.py
index 9f22c43..a4732c7 100644
--- a/causallearn/search/FCMBased/lingam/varma_lingam.py
+++ b/causallearn/search/FCMBased/lingam/varma_lingam.py
@@ -52,13 +52,13 @@ class VARMALiNGAM:
         random_state : int, optional (default=None)
             ``random_state`` is the seed used by the random number generator.
         """
-        self._order = order
+        self._order = self._init_order = order
         self._criterion = criterion
         self._prune = prune
         self._max_iter = max_iter
-        self._ar_coefs = check_array(
+        self._ar_coefs = self._init_ar_coefs = check_array(
             ar_coefs, allow_nd=True) if ar_coefs is not None else None
-        self._ma_coefs = check_array(
+        self._ma_coefs = self._init_ma_coefs = check_array(
             ma_coefs, allow_nd=True) if ma_coefs is not None else None
         self._lingam_model = lingam_model
         self._random_state = random_state
@@ -88,8 +88,10 @@ class VARMALiNGAM:
         elif not isinstance(lingam_model, _BaseLiNGAM):
             raise ValueError('lingam_model must be a subclass of _BaseLiNGAM')
 
-        phis = self._ar_coefs
-        thetas = self._ma_coefs
+        # start from the given parameters, not from those of an earlier fit
+        self._order = self._init_order
+        phis = self._init_ar_coefs
+        thetas = self._init_ma_coefs
         order = self._order
 
         if phis is None or thetas is None:
@@ -141,16 +143,20 @@ class VARMALiNGAM:
 
         n_samples = X.shape[0]
         n_features = X.shape[1]
-        (p, q) = self._order
 
         criterion = self._criterion
+        init_order = self._init_order
         self._criterion = None
+        self._init_order = self._order
 
         self.fit(X)
 
+        (p, q) = self._order
         residuals = self._residuals
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
+        init_ar_coefs = self._init_ar_coefs
+        init_ma_coefs = self._init_ma_coefs
+        ar_coefs = self._init_ar_coefs = self._ar_coefs
+        ma_coefs = self._init_ma_coefs = self._ma_coefs
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
@@ -198,6 +204,9 @@ class VARMALiNGAM:
                             resampled_X, ee, from_, to, lag + 1)
 
         self._criterion = criterion
+        self._init_order = init_order
+        self._init_ar_coefs = init_ar_coefs
+        self._init_ma_coefs = init_ma_coefs
 
         return TimeseriesBootstrapResult(adjacency_matrices, total_effects)
 
-- 
2.43.0


From 5742e1597c515b4d65fdb9f4edd74fa7de06b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 56/74] fix: bootstrapped total effects of every lag get their
 own columns

---
 causallearn/search/FCMBased/lingam/var_lingam.py   | 2 +-
 causallearn/search/FCMBased/lingam/varma_lingam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/var_lingam.py b/causallearn/search/FCMBased/lingam/var_lingam.py
index 8276073..ceeda0c 100644
--- a/causallearn/search/FCMBased/lingam/var_lingam.py
+++ b/causallearn/search/FCMBased/lingam/var_lingam.py
@@ -172,7 +172,7 @@ class VARLiNGAM:
                 # time t-tau
                 for lag in range(self._lags):
                     for from_ in range(n_features):
-                        total_effects[i, to, from_ + n_features] = self.estimate_total_effect(
+                        total_effects[i, to, from_ + n_features * (lag + 1)] = self.estimate_total_effect(
                             resampled_X, from_, to, lag + 1)
 
         self._criterion = criterion
diff --git a/causallearn/search/FCMBased/lingam/varma_lingam.py b/causallearn/search/FCMBased/lingam/varma_lingam.py
index a4732c7..9ff78f2 100644
--- a/causallearn/search/FCMBased/lingam/varma_lingam.py
+++ b/causallearn/search/FCMBased/lingam/varma_lingam.py
@@ -200,7 +200,7 @@ class VARMALiNGAM:
                 # time t-tau
                 for lag in range(p):
                     for from_ in range(n_features):
-                        total_effects[i, to, from_ + n_features] = self.estimate_total_effect(
+                        total_effects[i, to, from_ + n_features * (lag + 1)] = self.estimate_total_effect(
                             resampled_X, ee, from_, to, lag + 1)
 
         self._criterion = criterion
-- 
2.43.0


From 54455d92e3f2ad09611e4e9ee6592b15c2d21478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 57/74] fix: VARLiNGAM prunes with the lags of the fitted model

---
 causallearn/search/FCMBased/lingam/var_lingam.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/var_lingam.py b/causallearn/search/FCMBased/lingam/var_lingam.py
index ceeda0c..357a2cf 100644
--- a/causallearn/search/FCMBased/lingam/var_lingam.py
+++ b/causallearn/search/FCMBased/lingam/var_lingam.py
@@ -313,11 +313,12 @@ class VARLiNGAM:
     def _pruning(self, X, B_taus, causal_order):
         """Prune edges"""
         n_features = X.shape[1]
+        lags = len(B_taus) - 1
 
         stacked = [np.flip(X, axis=0)]
-        for i in range(self._lags):
+        for i in range(lags):
             stacked.append(np.roll(stacked[-1], -1, axis=0))
-        blocks = np.array(list(zip(*stacked)))[:-self._lags]
+        blocks = np.array(list(zip(*stacked)))[:-lags]
 
         for i in range(n_features):
             causal_order_no = causal_order.index(i)
@@ -325,7 +326,7 @@ class VARLiNGAM:
 
             obj = np.zeros((len(blocks)))
             exp = np.zeros(
-                (len(blocks), causal_order_no + n_features * self._lags))
+                (len(blocks), causal_order_no + n_features * lags))
             
             # Create 3D array to hold flattened ancestor indices for each block
             ancestor_indexes_flat = blocks[:, 0, ancestor_indexes].reshape(len(blocks), -1)
-- 
2.43.0


From 2d1b8676a312239b3ea30d23ae4ff4886a781cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 58/74] fix: VARMALiNGAM's moving-average matrices include the
 inverse of the instantaneous part

---
 causallearn/search/FCMBased/lingam/varma_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/varma_lingam.py b/causallearn/search/FCMBased/lingam/varma_lingam.py
index 9ff78f2..94f9fb5 100644
--- a/causallearn/search/FCMBased/lingam/varma_lingam.py
+++ b/causallearn/search/FCMBased/lingam/varma_lingam.py
@@ -356,8 +356,8 @@ class VARMALiNGAM:
 
         omegas = []
         for j in range(order[1]):
-            omega = np.dot(np.eye(
-                psi0.shape[0]) - psi0, thetas[j], np.linalg.inv(np.eye(psi0.shape[0]) - psi0))
+            omega = np.dot(np.dot(np.eye(
+                psi0.shape[0]) - psi0, thetas[j]), np.linalg.inv(np.eye(psi0.shape[0]) - psi0))
             omegas.append(omega)
 
         return np.array(psis), np.array(omegas)
-- 
2.43.0


From e72af5f8747e486c4871fe53beff0f3e3a2912a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 59/74] fix: VARMALiNGAM's lagged total effects condition on
 the parents of the lagged variable

---
 causallearn/search/FCMBased/lingam/varma_lingam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/varma_lingam.py b/causallearn/search/FCMBased/lingam/varma_lingam.py
index 94f9fb5..5200089 100644
--- a/causallearn/search/FCMBased/lingam/varma_lingam.py
+++ b/causallearn/search/FCMBased/lingam/varma_lingam.py
@@ -247,15 +247,15 @@ class VARMALiNGAM:
         X_joined = np.zeros(
             (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1])))
 
-        for p in range(1 + self._order[0]):
+        for p in range(1 + from_lag + self._order[0]):
             pos = n_features * p
             X_joined[:, pos:pos +
                             n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
         for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+            pos = n_features * (1 + from_lag + self._order[0]) + n_features * q
             X_joined[:, pos:pos +
-                            n_features] = np.roll(E[:, 0:n_features], q + 1, axis=0)
+                            n_features] = np.roll(E[:, 0:n_features], from_lag + q + 1, axis=0)
 
         # concat psi and omega
         psi = self._adjacency_matrices[0]
@@ -264,8 +264,8 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
+        from_index = from_index + n_features * from_lag
+        parents = parents + n_features * from_lag
         predictors = [from_index]
         predictors.extend(parents)
 
-- 
2.43.0


From 5dae5d670bdcc4f5b1ae207aa53748fe69d571c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 60/74] fix: VARMALiNGAM prunes with given coefficients

---
 causallearn/search/FCMBased/lingam/varma_lingam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causallearn/search/FCMBased/lingam/varma_lingam.py b/causallearn/search/FCMBased/lingam/varma_lingam.py
index 5200089..82b7573 100644
--- a/causallearn/search/FCMBased/lingam/varma_lingam.py
+++ b/causallearn/search/FCMBased/lingam/varma_lingam.py
@@ -366,6 +366,9 @@ class VARMALiNGAM:
         """"""
         n_features = X.shape[1]
 
+        # there are no residuals for the first time points when the coefficients are given
+        X = X[len(X) - len(ee):]
+
         # join X(t), X(t-1) and e(t-1)
         X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + order[0] + order[1])))
         for p in range(1 + order[0]):
-- 
2.43.0


From e8b29b8b4e1cec03b6e5da99e2ffe796b78ccfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 61/74] fix: BottomUpParceLiNGAM accepts a single variable

---
 causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
index 1e7bde6..0e29940 100644
--- a/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
+++ b/causallearn/search/FCMBased/lingam/bottom_up_parce_lingam.py
@@ -101,7 +101,7 @@ class BottomUpParceLiNGAM():
         X = X - np.tile(np.mean(X, axis=0), (X.shape[0], 1))
 
         # bonferroni correction
-        thresh_p = self._alpha / (n_features - 1)
+        thresh_p = self._alpha / max(1, n_features - 1)
 
         # Search causal orders one by one from the bottom upward
         K_bttm, p_bttm = self._search_causal_order(X, thresh_p)
-- 
2.43.0


From 1991becd2ad29e9b90dc18a2a7906ae559d65836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 62/74] fix: GIN tests the surrogate against the variables it
 names, not the first ones

---
 causallearn/search/HiddenCausal/GIN/GIN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/search/HiddenCausal/GIN/GIN.py b/causallearn/search/HiddenCausal/GIN/GIN.py
index 17f31b2..581570d 100644
--- a/causallearn/search/HiddenCausal/GIN/GIN.py
+++ b/causallearn/search/HiddenCausal/GIN/GIN.py
@@ -64,7 +64,7 @@ def GIN(data, indep_test_method='kci', alpha=0.05):
             remain_var_set = var_set - set(cluster)
             e = cal_e_with_gin(data, cov, list(cluster), list(remain_var_set))
             pvals = []
-            for z in range(len(remain_var_set)):
+            for z in remain_var_set:
                 pvals.append(indep_test(data[:, [z]], e[:, None], method=indep_test_method))
             fisher_pval = fisher_test(pvals)
             if fisher_pval >= alpha:
@@ -95,7 +95,7 @@ def GIN(data, indep_test_method='kci', alpha=0.05):
                 cluster_j1, cluster_j2 = array_split(cluster_j, 2)
                 e = cal_e_with_gin(data, cov, X + cluster_i1 + cluster_j1, Z + cluster_i2)
                 pvals = []
-                for z in range(len(Z + cluster_i2)):
+                for z in Z + cluster_i2:
                     pvals.append(indep_test(data[:, [z]], e[:, None], method=indep_test_method))
                 fisher_pval = fisher_test(pvals)
                 if fisher_pval < alpha:
-- 
2.43.0


From 8c901ff1456bf8347a6752cb2d9781f482076529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 63/74] fix: GIN_MI's root has to satisfy the condition with
 every other cluster

---
 causallearn/search/HiddenCausal/GIN/GIN.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causallearn/search/HiddenCausal/GIN/GIN.py b/causallearn/search/HiddenCausal/GIN/GIN.py
index 581570d..074729a 100644
--- a/causallearn/search/HiddenCausal/GIN/GIN.py
+++ b/causallearn/search/HiddenCausal/GIN/GIN.py
@@ -267,6 +267,7 @@ def find_root(data, cov, clusters, causal_order):
     root = clusters[0]
     dep_statistic_score = 1e30
     for i in clusters:
+        dep_statistic = 0
         for j in clusters:
             if i == j:
                 continue
@@ -280,10 +281,11 @@ def find_root(data, cov, clusters, causal_order):
                     X.append(k[0])
                     Z.append(k[1])
 
-            dep_statistic = cal_dep_for_gin(data, cov, X, Z)
-            if dep_statistic < dep_statistic_score:
-                dep_statistic_score = dep_statistic
-                root = i
+            # a root satisfies the condition with every other cluster
+            dep_statistic = max(dep_statistic, cal_dep_for_gin(data, cov, X, Z))
+        if dep_statistic < dep_statistic_score:
+            dep_statistic_score = dep_statistic
+            root = i
 
     return root
 
-- 
2.43.0


From 876aeece0feab46c2977181d0bba6a231dd230ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 64/74] fix: PNL trains on samples smaller than a batch

---
 causallearn/search/FCMBased/PNL/PNL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/search/FCMBased/PNL/PNL.py b/causallearn/search/FCMBased/PNL/PNL.py
index ed7289f..8fcc00f 100644
--- a/causallearn/search/FCMBased/PNL/PNL.py
+++ b/causallearn/search/FCMBased/PNL/PNL.py
@@ -93,7 +93,7 @@ class PNL(object):
         X = X.astype(np.float32)
 
         train_dataset = PairDataset(X)
-        train_loader = DataLoader(train_dataset, batch_size=128, drop_last=True)
+        train_loader = DataLoader(train_dataset, batch_size=min(128, len(train_dataset)), drop_last=True)
 
         G1 = MLP(1, 1, n_layers=3, n_units=12)
         G2 = MLP(1, 1, n_layers=1, n_units=12)
-- 
2.43.0


From d625c81955090c18c8a083e62ddac7f300706c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 65/74] fix: importing CALM does not change torch's default
 dtype

---
 causallearn/search/ScoreBased/CALM.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/causallearn/search/ScoreBased/CALM.py b/causallearn/search/ScoreBased/CALM.py
index caad6bb..cd31c80 100644
--- a/causallearn/search/ScoreBased/CALM.py
+++ b/causallearn/search/ScoreBased/CALM.py
@@ -8,8 +8,6 @@ from causallearn.graph.GraphNode import GraphNode
 from typing import Any, Dict
 from scipy.special import expit as sigmoid
 
-torch.set_default_dtype(torch.double)
-
 def calm(
     X: np.ndarray,
     lambda1: float = 0.005,
@@ -147,7 +145,7 @@ class CalmModel(nn.Module):
             torch.FloatTensor(self.d, self.d).uniform_(-0.001, 0.001).to(self.moral_mask.device)
         )
         self.B_logit = nn.Parameter(
-            torch.zeros(self.d, self.d).to(self.moral_mask.device)
+            torch.zeros(self.d, self.d, dtype=torch.double).to(self.moral_mask.device)
         )
 
     def sample_mask(self):
@@ -179,7 +177,7 @@ class CalmModel(nn.Module):
         """
         Computes the likelihood-based objective function for non-equal noise variance (NV) assumption.
         """
-        I = torch.eye(self.d, device=self.B_param.device)
+        I = torch.eye(self.d, dtype=B.dtype, device=self.B_param.device)
         residuals = torch.diagonal((I - B).T @ cov_emp @ (I - B))
         likelihood = 0.5 * torch.sum(torch.log(residuals)) - torch.linalg.slogdet(I - B)[1]
         return likelihood
-- 
2.43.0


From e66d0004652ff3b60ce2243290cae6c49c4d91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 66/74] fix: the time-series plot places variables in the order
 asked for

---
 causallearn/utils/TimeseriesVisualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/utils/TimeseriesVisualization.py b/causallearn/utils/TimeseriesVisualization.py
index cb3f886..3f24910 100644
--- a/causallearn/utils/TimeseriesVisualization.py
+++ b/causallearn/utils/TimeseriesVisualization.py
@@ -110,7 +110,7 @@ def plot_time_series(
     pos = {}
     for n in range(dim):
         for tau in range(max_lag):
-            pos[flat(n, tau)] = pos_tmp[(dim - order[n] - 1) * max_lag + tau]
+            pos[flat(order[n], tau)] = pos_tmp[(dim - n - 1) * max_lag + tau]
 
     for i in range(dim):
         trans = transforms.blended_transform_factory(fig.transFigure, ax.transData)
-- 
2.43.0


From 92536efcfa9ed1741ca8df46bcbd6ac57f9043e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 67/74] fix: Dag refuses edges that would create a cycle

---
 causallearn/graph/Dag.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index 8e309e5..15bcdc2 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -92,17 +92,19 @@ class Dag(GeneralGraph):
     def get_node_map(self):
         return self.node_map
 
-    # Adds a directed edge --> to the graph.
+    # Adds a directed edge --> to the graph. Raises ValueError if that would create a cycle.
     def add_directed_edge(self, node1, node2):
         i = self.node_map[node1]
         j = self.node_map[node2]
+        if self.dpath[i, j] == 1:
+            raise ValueError(f"The edge {node1} --> {node2} would create a cycle.")
         self.graph[j, i] = 1
         self.graph[i, j] = -1
 
         self.adjust_dpath(i, j)
 
-    # Adds the specified edge to the graph, provided it is not already in the
-    # graph.
+    # Adds the specified edge to the graph, provided it is directed and does
+    # not create a cycle. Returns true iff the graph has the edge afterwards.
     def add_edge(self, edge):
 
         if edge.get_endpoint1().name == "TAIL" and edge.get_endpoint2().name == "ARROW":
@@ -110,6 +112,8 @@ class Dag(GeneralGraph):
             node2 = edge.get_node2()
             i = self.node_map[node1]
             j = self.node_map[node2]
+            if self.dpath[i, j] == 1:
+                return False
             self.graph[j, i] = 1
             self.graph[i, j] = -1
             self.adjust_dpath(i, j)
-- 
2.43.0


From 7e259ee9611efdce1ffc4383b678cdc2ca93b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 68/74] fix: get_directed_edge returns only the edge from the
 first node to the second

---
 causallearn/graph/Dag.py          | 2 +-
 causallearn/graph/GeneralGraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index 15bcdc2..140fa19 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -414,7 +414,7 @@ class Dag(GeneralGraph):
 
     # Returns the directed edge from node1 to node2, if there is one.
     def get_directed_edge(self, node1, node2):
-        return self.get_edge(node1, node2)
+        return self.get_edge(node1, node2) if self.is_parent_of(node1, node2) else None
 
     # Returns the list of edges connected to a particular node. No particular ordering of the edges in the list is guaranteed.
     def get_node_edges(self, node):
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index af0a3dd..d555187 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -560,7 +560,7 @@ class GeneralGraph(Graph, ABC):
         end_1 = self.graph[i, j]
         end_2 = self.graph[j, i]
 
-        if end_1 > 1 or end_1 == 0 or (end_1 == -1 and end_2 == -1):
+        if end_1 != Endpoint.TAIL.value or end_2 != Endpoint.ARROW.value:
             return None
 
         edge = Edge(node1, node2, Endpoint(end_1), Endpoint(end_2))
-- 
2.43.0


From 9614d425f401f1d2a930df6b8465cb2402508634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 69/74] fix: set_nodes keeps the node map in step with the
 nodes

---
 causallearn/graph/Dag.py          | 3 ++-
 causallearn/graph/GeneralGraph.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index 140fa19..ab642f6 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -735,7 +735,8 @@ class Dag(GeneralGraph):
         if len(nodes) != self.num_vars:
             raise ValueError("Sorry, there is a mismatch in the number of variables you are trying to set.")
 
-        self.nodes = nodes
+        self.nodes = list(nodes)
+        self.node_map = {node: i for i, node in enumerate(self.nodes)}
 
     def get_all_attributes(self):
         return self.attributes
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index d555187..5887d06 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -993,7 +993,8 @@ class GeneralGraph(Graph, ABC):
         if len(nodes) != self.num_vars:
             raise ValueError("Sorry, there is a mismatch in the number of variables you are trying to set.")
 
-        self.nodes = nodes
+        self.nodes = list(nodes)
+        self.node_map = {node: i for i, node in enumerate(self.nodes)}
 
     def get_all_attributes(self):
         return self.attributes
-- 
2.43.0


From 75d0810d5afa44060295084a9cedf4ae7bf1ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 70/74] fix: removing a graph attribute raised TypeError

---
 causallearn/graph/Dag.py          | 2 +-
 causallearn/graph/GeneralGraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/causallearn/graph/Dag.py b/causallearn/graph/Dag.py
index ab642f6..a1b7370 100644
--- a/causallearn/graph/Dag.py
+++ b/causallearn/graph/Dag.py
@@ -745,7 +745,7 @@ class Dag(GeneralGraph):
         return self.attributes[key]
 
     def remove_attribute(self, key):
-        self.attributes.pop[key]
+        self.attributes.pop(key)
 
     def add_attribute(self, key, value):
         self.attributes[key] = value
diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 5887d06..9dd11af 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -1003,7 +1003,7 @@ class GeneralGraph(Graph, ABC):
         return self.attributes[key]
 
     def remove_attribute(self, key):
-        self.attributes.pop[key]  # it's useful
+        self.attributes.pop(key)  # it's useful
 
     def add_attribute(self, key, value):
         self.attributes[key] = value
-- 
2.43.0


From ae2aee2b01a772e7b6be2695144049429ea95626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 71/74] fix: clearing a graph leaves no triples of removed
 nodes

---
 causallearn/graph/GeneralGraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causallearn/graph/GeneralGraph.py b/causallearn/graph/GeneralGraph.py
index 9dd11af..f90c689 100644
--- a/causallearn/graph/GeneralGraph.py
+++ b/causallearn/graph/GeneralGraph.py
@@ -232,6 +232,9 @@ class GeneralGraph(Graph, ABC):
         self.node_map = {}
         self.graph = np.zeros((self.num_vars, self.num_vars), np.dtype(int))
         self.dpath = np.zeros((self.num_vars, self.num_vars), np.dtype(int))
+        self.ambiguous_triples = []
+        self.underline_triples = []
+        self.dotted_underline_triples = []
 
     # Determines whether this graph contains the given edge.
     #
-- 
2.43.0


From 221f8001c9edbf53f14ad8785d1c513c9a6a0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:33 +0000
Subject: [PATCH 72/74] fix: dag2pag lists the observed nodes in the order of
 the DAG, not of their hashes

---
 causallearn/utils/DAG2PAG.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causallearn/utils/DAG2PAG.py b/causallearn/utils/DAG2PAG.py
index 162d1f7..84ea790 100644
--- a/causallearn/utils/DAG2PAG.py
+++ b/causallearn/utils/DAG2PAG.py
@@ -27,7 +27,7 @@ def dag2pag(dag: Dag, islatent: List[Node], isselection: List[Node] = []) -> Gen
     dg = nx.DiGraph()
     true_dag = nx.DiGraph()
     nodes = dag.get_nodes()
-    observed_nodes = list(set(nodes) - set(islatent) - set(isselection))
+    observed_nodes = [node for node in nodes if node not in islatent and node not in isselection]
     mod_nodes = observed_nodes + islatent + isselection
     nodes = dag.get_nodes()
     nodes_ids = {node: i for i, node in enumerate(nodes)}
-- 
2.43.0


From dfc6ecc94ae756263b055309012987fa2d66935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 73/74] fix: VARMALiNGAM bootstrap with an order of 0

The fitted VARMA model has no coefficient matrices for an AR or MA order
of 0 (as requested, or as selected by the criterion); bootstrap() raised
TypeError on the missing matrices.
---
 causallearn/search/FCMBased/lingam/varma_lingam.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/causallearn/search/FCMBased/lingam/varma_lingam.py b/causallearn/search/FCMBased/lingam/varma_lingam.py
index 82b7573..f5d747a 100644
--- a/causallearn/search/FCMBased/lingam/varma_lingam.py
+++ b/causallearn/search/FCMBased/lingam/varma_lingam.py
@@ -318,8 +318,16 @@ class VARMALiNGAM:
                     min_value = value
                     result = fitted
 
-        return result.coefficient_matrices_var, result.coefficient_matrices_vma, result.specification[
-            'order'], result.resid
+        # there are no coefficients for an order of 0
+        n_features = X.shape[1]
+        phis = result.coefficient_matrices_var
+        if phis is None:
+            phis = np.zeros((0, n_features, n_features))
+        thetas = result.coefficient_matrices_vma
+        if thetas is None:
+            thetas = np.zeros((0, n_features, n_features))
+
+        return phis, thetas, result.specification['order'], result.resid
 
     def _calc_residuals(self, X, ar_coefs, ma_coefs, p, q):
         X = X.T
-- 
2.43.0


From 843041b5f9a542bf19606600143f1502bf2ed5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:19 +0000
Subject: [PATCH 74/74] fix: chi-squared and G-squared tests with more strata
 than int64 can number

---
 causallearn/utils/cit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causallearn/utils/cit.py b/causallearn/utils/cit.py
index ae4ecae..d3a2646 100644
--- a/causallearn/utils/cit.py
+++ b/causallearn/utils/cit.py
@@ -374,6 +374,8 @@ class Chisq_or_Gsq(CIT_Base):
             cardSsCumProd = np.ones_like(cardSs)
             cardSsCumProd[:-1] = np.cumprod(cardSs[1:][::-1])[::-1]
             SIndexed = np.dot(cardSsCumProd[None], dataSXY[:-2])[0]
+            if np.prod(cardSs.astype(float)) > np.iinfo(np.int64).max:  # more combinations than int64 can number
+                SIndexed = np.unique(dataSXY[:-2], axis=1, return_inverse=True)[1].ravel()
 
             uniqSIndices, inverseSIndices, SMarginalCounts = np.unique(SIndexed, return_counts=True,
                                                                        return_inverse=True)
-- 
2.43.0

