From 7433f9eeda04a848d98c37a37129efcfc92c8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:56 +0000
Subject: [PATCH 01/62] fix: dense graphs sum the weights of repeated edges
 instead of keeping the last

---
 src/graph_ensembles/graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 227a1e1..3fc4277 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -182,7 +182,8 @@ class Graph:
             self.adj = np.zeros(
                 (self.num_vertices, self.num_vertices), dtype=val_array.dtype
             )
-            self.adj[src_array, dst_array] = val_array
+            # Sum the weights of repeated edges
+            np.add.at(self.adj, (src_array, dst_array), val_array)
 
         else:
             self.weighted = False
@@ -847,7 +848,7 @@ class MultiGraph(Graph):
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
             )
-            self.adj[lbl_array, src_array, dst_array] = val_array
+            np.add.at(self.adj, (lbl_array, src_array, dst_array), val_array)
         else:
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices), dtype=bool
-- 
2.43.0


From baf762f09238d0061634385d9ad9f9fb830a3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:20 +0000
Subject: [PATCH 02/62] fix: dense strengths by group are no longer truncated
 to integers

---
 src/graph_ensembles/graphs.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 3fc4277..ef69ffa 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -253,7 +253,7 @@ class Graph:
         """Compute the undirected degree sequence to and from each group."""
         if not hasattr(self, "_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=False, weighted=False)
-            self._degree_by_group = self.sum_by_group(adj, self.groups)
+            self._degree_by_group = self.sum_by_group(adj, self.groups, np.int64)
 
         return self._degree_by_group
 
@@ -368,13 +368,13 @@ class Graph:
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def sum_by_group(mat, g_arr):
+    def sum_by_group(mat, g_arr, dtype=np.float64):
         """Sums the values of the matrix along the second axis using the
         provided grouping.
         """
         # Initialize empty result
         M = g_arr.max() + 1
-        res = np.zeros((mat.shape[0], M), dtype=np.int64)
+        res = np.zeros((mat.shape[0], M), dtype=dtype)
 
         # Count group occurrences
         for i in range(M):
@@ -552,8 +552,8 @@ class DiGraph(Graph):
         """Compute the out degree sequence to each group."""
         if not hasattr(self, "_out_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(adj, self.groups, np.int64)
+            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups, np.int64)
 
         return self._out_degree_by_group
 
@@ -561,8 +561,8 @@ class DiGraph(Graph):
         """Compute the in degree sequence from each group."""
         if not hasattr(self, "_in_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(adj, self.groups, np.int64)
+            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups, np.int64)
 
         return self._in_degree_by_group
 
-- 
2.43.0


From 4d5d4190a257d6dd5a9916f5ff5bbcc4f595315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:20 +0000
Subject: [PATCH 03/62] fix: dense multigraph projection counts self-loops and
 unweighted parallel edges once

---
 src/graph_ensembles/graphs.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index ef69ffa..208dd26 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -857,16 +857,20 @@ class MultiGraph(Graph):
 
     def adjacency_matrix(self, directed=False, weighted=False):
         """Return the adjacency matrix of the graph."""
-        # Project tensor to two dimensions
-        adj = self.adj.sum(axis=0)
+        # Project tensor to two dimensions (if unweighted parallel edges count once)
+        if self.adj.dtype == bool:
+            adj = self.adj.any(axis=0)
+        else:
+            adj = self.adj.sum(axis=0)
 
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
+            diag = np.diag(adj).copy()
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         else:
             adj = adj != 0
@@ -1122,18 +1126,22 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
     def adjacency_matrix(self, directed=True, weighted=False):
         """Return the adjacency matrix of the graph."""
-        # Project tensor to two dimensions
-        adj = self.adj.sum(axis=0)
+        # Project tensor to two dimensions (if unweighted parallel edges count once)
+        if self.adj.dtype == bool:
+            adj = self.adj.any(axis=0)
+        else:
+            adj = self.adj.sum(axis=0)
 
         if directed and not weighted:
             adj = adj != 0
 
         elif not directed and weighted:
             # Symmetrize
+            diag = np.diag(adj).copy()
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         elif not directed and not weighted:
             adj = adj != 0
-- 
2.43.0


From dc5b8b9c585e4377d3375cc9b9356a94d1290042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:20 +0000
Subject: [PATCH 04/62] fix: dense nearest neighbour averages exclude
 self-loops also for in-neighbours

---
 src/graph_ensembles/graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 208dd26..7dd88af 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -387,7 +387,8 @@ class Graph:
         """Computes the sum of the nearest neighbours' properties."""
         # If no self loops remove diagonal
         if not selfloops:
-            adj.ravel()[:: adj.shape[1] + 1] = 0
+            adj = adj.copy()
+            np.fill_diagonal(adj, 0)
 
         # Compute sum
         res = adj.dot(prop)
-- 
2.43.0


From efbc9ccb324bc8645097fa09fc53b53eb164afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:20 +0000
Subject: [PATCH 05/62] fix: sparse unweighted graphs keep self-loops in the
 undirected weighted adjacency

---
 src/graph_ensembles/sparse/graphs.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index e4a826b..2d40f81 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -215,11 +215,7 @@ class Graph:
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrise(self.adj)
         else:
             adj = self.adj != 0
             adj = adj + adj.T
@@ -362,6 +358,14 @@ class Graph:
 
         return G
 
+    @staticmethod
+    def symmetrise(adj):
+        """Sum the matrix and its transpose counting the diagonal only once."""
+        if adj.dtype == bool:
+            return adj + adj.T
+        else:
+            return adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+
     @staticmethod
     def get_num_bytes(num_items):
         """Determine the number of bytes needed for storing ids for num_items."""
@@ -539,11 +543,7 @@ class DiGraph(Graph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrise(self.adj)
 
         else:
             adj = self.adj != 0
@@ -951,7 +951,7 @@ class MultiGraph(Graph):
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrise(adj)
 
         else:
             adj = adj != 0
@@ -967,7 +967,7 @@ class MultiGraph(Graph):
             sym = []
             for lbl in range(self.num_labels):
                 adj = self.adj[lbl]
-                sym.append(adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape))
+                sym.append(self.symmetrise(adj))
 
         else:
             sym = []
@@ -1225,7 +1225,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrise(adj)
 
         elif not directed and not weighted:
             adj = adj != 0
@@ -1248,7 +1248,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
             adj = []
             for lbl in range(self.num_labels):
                 tmp = self.adj[lbl]
-                adj.append(tmp + tmp.T - sp.spdiags(tmp.diagonal(), 0, m=tmp.shape))
+                adj.append(self.symmetrise(tmp))
 
         else:
             adj = []
-- 
2.43.0


From f93423384570d242cbd95d4675a8c7c26c34a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:20 +0000
Subject: [PATCH 06/62] fix: exporting an undirected multigraph sums the
 weights of both orientations of an edge

---
 src/graph_ensembles/graphs.py        | 5 +++--
 src/graph_ensembles/sparse/graphs.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 7dd88af..ff17b22 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -959,7 +959,8 @@ class MultiGraph(Graph):
             lbl_list[i] = lbl_id
 
         # Add edges per layer
-        lbl, row, col = np.nonzero(self.adj)
+        adj = np.triu(self.adjacency_tensor(directed=False, weighted=True))
+        lbl, row, col = np.nonzero(adj)
         G.add_edges_from(
             zip(
                 row,
@@ -967,7 +968,7 @@ class MultiGraph(Graph):
                 lbl,
                 [
                     dict(weight=i, label=lbl_list[j])
-                    for i, j in zip(self.adj[self.adj != 0].ravel(), lbl)
+                    for i, j in zip(adj[adj != 0].ravel(), lbl)
                 ],
             )
         )
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 2d40f81..3b00b92 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -1049,8 +1049,9 @@ class MultiGraph(Graph):
             lbl_list[i] = lbl_id
 
         # Add edges per layer
+        sym = self.adjacency_tensor(directed=False, weighted=True)
         for k in range(self.num_labels):
-            adj = self.adj[k].tocoo()
+            adj = sp.triu(sym[k], format="coo")
             lbl = np.empty(adj.nnz)
             lbl[:] = k
             G.add_edges_from(
-- 
2.43.0


From 3c70639368aeecb75e0fd804a90246d3fc88b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:48 +0000
Subject: [PATCH 07/62] fix: graph nearest neighbour averages do not count
 ignored self-loops as neighbours

---
 src/graph_ensembles/graphs.py        | 13 ++++++++++---
 src/graph_ensembles/sparse/graphs.py |  8 ++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index ff17b22..7030214 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -293,9 +293,12 @@ class Graph:
         deg = self.degree(recompute=deg_recompute)
 
         # It is necessary to select the elements or pickling will fail
-        av_nn = self.av_nn_prop(
-            self.adjacency_matrix(directed=False, weighted=False), prop, selfloops
-        )
+        adj = self.adjacency_matrix(directed=False, weighted=False)
+        av_nn = self.av_nn_prop(adj, prop, selfloops)
+
+        # Self-loops that are ignored must not be counted as neighbours
+        if not selfloops:
+            deg = deg - np.diag(adj)
 
         # Test that mask is the same
         ind = deg != 0
@@ -634,6 +637,10 @@ class DiGraph(Graph):
         # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj, prop, selfloops)
 
+        # Self-loops that are ignored must not be counted as neighbours
+        if not selfloops:
+            deg = deg - np.diag(adj)
+
         # Test that mask is the same
         ind = deg != 0
         msg = "Got a av_nn for an empty neighbourhood."
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 3b00b92..78298b4 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -310,6 +310,10 @@ class Graph:
         adj = self.adjacency_matrix(directed=False, weighted=False)
         av_nn = self.av_nn_prop(adj.indptr, adj.indices, prop, selfloops)
 
+        # Self-loops that are ignored must not be counted as neighbours
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
         # Test that mask is the same
         ind = deg != 0
         msg = "Got a av_nn for an empty neighbourhood."
@@ -705,6 +709,10 @@ class DiGraph(Graph):
         # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj.indptr, adj.indices, prop, selfloops)
 
+        # Self-loops that are ignored must not be counted as neighbours
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
         # Test that mask is the same
         ind = deg != 0
         msg = "Got a av_nn for an empty neighbourhood."
-- 
2.43.0


From 55e0fb577045897774ff6feea9908ea4315734a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:48 +0000
Subject: [PATCH 08/62] fix: graph nearest neighbour averages of vector
 properties

---
 src/graph_ensembles/graphs.py        | 4 ++--
 src/graph_ensembles/sparse/graphs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 7030214..510d6c0 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -306,7 +306,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -647,7 +647,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 78298b4..03fc334 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -320,7 +320,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -719,7 +719,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
-- 
2.43.0


From 74da4016a02ab006ee05104b8ecf7feab6880b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:48 +0000
Subject: [PATCH 09/62] fix: graph nearest neighbour degree cache no longer
 ignores the self-loops option

---
 src/graph_ensembles/graphs.py        | 8 ++++++--
 src/graph_ensembles/sparse/graphs.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 510d6c0..6bd6116 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -314,7 +314,8 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
+        cached = getattr(self, name + "_selfloops", None) == selfloops
+        if not cached or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -325,6 +326,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
@@ -666,7 +668,8 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
+        cached = getattr(self, name + "_selfloops", None) == selfloops
+        if not cached or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -685,6 +688,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 03fc334..c03fa13 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -328,7 +328,8 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
+        cached = getattr(self, name + "_selfloops", None) == selfloops
+        if not cached or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -339,6 +340,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
@@ -738,7 +740,8 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
+        cached = getattr(self, name + "_selfloops", None) == selfloops
+        if not cached or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
 
@@ -757,6 +760,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
         return getattr(self, name)
 
-- 
2.43.0


From bca650b24d3dd04f87c499b41262f5c4feac66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:56 +0000
Subject: [PATCH 10/62] fix: dense expected number of edges by label has one
 entry per label

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index df3b200..366ee09 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1734,7 +1734,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Compute the expected number of edges with one parameter controlling
         for the density for each label.
         """
-        num_labels = len(prop_out)
+        num_labels = prop_out.shape[1]
         exp_edges = np.zeros(num_labels, dtype=np.float64)
 
         for k in range(num_labels):
-- 
2.43.0


From af264572f59b40014bd6c8dbdbae303a6e4ca5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:56 +0000
Subject: [PATCH 11/62] fix: expected degrees by label no longer count
 reciprocal pairs twice

---
 src/graph_ensembles/spark/models.py            | 3 +++
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ece4f12..5124f84 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2748,6 +2748,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     pij = p_ijk(param, f_out_i, f_in_j, pdyad(ind_i, ind_j))
 
                     if (ind_i in ind_in) and (ind_j in ind_out):
+                        # Reciprocal pairs are iterated over twice, count them once
+                        if ind_i > ind_j:
+                            continue
                         f_in_i = prop_in[np.where(ind_in == ind_i)][0]
                         f_out_j = prop_out[np.where(ind_out == ind_j)][0]
                         pji = p_ijk(param, f_out_j, f_in_i, pdyad(ind_i, ind_j))
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 424ee6e..da94b10 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1008,6 +1008,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         p_out_j = 0.0
 
                     if i != j:
+                        # Reciprocal pairs are iterated over twice, count them once
+                        if np.any(loc_i) and np.any(loc_j) and i > j:
+                            continue
+
                         pij = p_ijk(param[lbl], p_out_i, p_in_j, prop_dyad(i, j))
                         pji = p_ijk(param[lbl], p_out_j, p_in_i, prop_dyad(j, i))
                         p = pij + pji - pij * pji
-- 
2.43.0


From 39cd29fc945e0b5bfb66ba96f913ae056bf3c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:56 +0000
Subject: [PATCH 12/62] fix: multi-label models accept sparse fitnesses with
 unsorted indices

---
 src/graph_ensembles/spark/models.py          | 8 +++++---
 src/graph_ensembles/sparse/models/fitness.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 5124f84..fc9ac63 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3261,9 +3261,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert isinstance(self.prop_in, np.ndarray) or sp.issparse(self.prop_in), msg
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
-        # Convert to csr matrices
-        self.prop_out = sp.csr_matrix(self.prop_out)
-        self.prop_in = sp.csr_matrix(self.prop_in)
+        # Convert to csr matrices with sorted indices
+        self.prop_out = sp.csr_matrix(self.prop_out, copy=True)
+        self.prop_out.sum_duplicates()
+        self.prop_in = sp.csr_matrix(self.prop_in, copy=True)
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 6a02a46..0c121b0 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -466,9 +466,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert isinstance(self.prop_in, np.ndarray) or sp.issparse(self.prop_in), msg
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
-        # Convert to csr matrices
-        self.prop_out = sp.csr_array(self.prop_out)
-        self.prop_in = sp.csr_array(self.prop_in)
+        # Convert to csr matrices with sorted indices
+        self.prop_out = sp.csr_array(self.prop_out, copy=True)
+        self.prop_out.sum_duplicates()
+        self.prop_in = sp.csr_array(self.prop_in, copy=True)
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
-- 
2.43.0


From 6c7f5763d00f976ecdc09edceecf31835559e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:56 +0000
Subject: [PATCH 13/62] fix: distributed multi-label expectations are
 recomputed when asked, and only then

---
 src/graph_ensembles/spark/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index fc9ac63..4083764 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1939,7 +1939,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
-        if not hasattr(self, "_exp_num_edges_label") or recompute:
+        if not hasattr(self, "_exp_num_edges") or recompute:
             # It is necessary to select the elements or pickling will fail
             delta = self.param
             slflp = self.selfloops
@@ -2114,14 +2114,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
     def expected_out_degree_by_label(self, recompute=False):
         """Compute the expected out degree."""
         if not hasattr(self, "_exp_out_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_out_degree_label
 
     def expected_in_degree_by_label(self, recompute=False):
         """Compute the expected in degree."""
         if not hasattr(self, "_exp_in_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_in_degree_label
 
-- 
2.43.0


From b79515c2bdb875b4091d0639f6022ecb9c8f50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:56 +0000
Subject: [PATCH 14/62] fix: distributed expected degrees by label of models
 without possible edges

---
 src/graph_ensembles/spark/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4083764..bae3e6c 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2093,9 +2093,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
             # Initialize results
             res = tmp.fold(([], [], []), lambda x, y: app_fun(x, y))
-            d = np.array(res[0])
-            d_out = np.array(res[1])
-            d_in = np.array(res[2])
+            d = np.array(res[0], dtype=np.float64).reshape(-1, 3)
+            d_out = np.array(res[1], dtype=np.float64).reshape(-1, 3)
+            d_in = np.array(res[2], dtype=np.float64).reshape(-1, 3)
             self._exp_degree_label = sp.coo_array(
                 (d[:, 2], (d[:, 0], d[:, 1])),
                 shape=(self.num_vertices, self.num_labels),
-- 
2.43.0


From cb2bfeda66d0eef332493710dc6812709fd85c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 15/62] fix: a refused neighbour direction no longer changes
 the model's self-loops option

---
 src/graph_ensembles/models.py                 | 14 +++++++++++
 src/graph_ensembles/spark/models.py           | 24 +++++++++++++++++++
 .../sparse/models/ensembles.py                | 10 ++++++++
 src/graph_ensembles/sparse/models/random.py   |  4 ++++
 4 files changed, 52 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 366ee09..f6fd54d 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -182,6 +182,10 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before modifying the self-loops option
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -246,6 +250,12 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        # Check directions before modifying the self-loops option
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
@@ -772,6 +782,10 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before modifying the self-loops option
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index bae3e6c..7c77f06 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -211,6 +211,10 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before modifying the self-loops option
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -275,6 +279,12 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        # Check directions before modifying the self-loops option
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
@@ -1135,6 +1145,10 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before modifying the self-loops option
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2143,6 +2157,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before modifying the self-loops option
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2221,6 +2239,12 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        # Check directions before modifying the self-loops option
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index da94b10..53f20d2 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -176,6 +176,10 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before modifying the self-loops option
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -240,6 +244,12 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        # Check directions before modifying the self-loops option
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8dcebfe..8891f9a 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -232,6 +232,10 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        # Check direction before modifying the self-loops option
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
-- 
2.43.0


From 59f783678256003d0a5f269d1bf1de283d168d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 16/62] fix: expected nearest neighbour degree cache no longer
 ignores the self-loops option

---
 src/graph_ensembles/models.py                 | 14 +++++++---
 src/graph_ensembles/spark/models.py           | 28 +++++++++++++------
 .../sparse/models/ensembles.py                | 14 +++++++---
 3 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index f6fd54d..c245676 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -259,12 +259,17 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        if (
+            getattr(self, name + "_selfloops", None) != selfloops
+            or recompute
+            or deg_recompute
+        ):
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -283,6 +288,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 7c77f06..4197d02 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -288,12 +288,17 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        if (
+            getattr(self, name + "_selfloops", None) != selfloops
+            or recompute
+            or deg_recompute
+        ):
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -312,6 +317,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
@@ -2248,12 +2254,17 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        if (
+            getattr(self, name + "_selfloops", None) != selfloops
+            or recompute
+            or deg_recompute
+        ):
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -2272,6 +2283,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 53f20d2..2460f95 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -253,12 +253,17 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        if (
+            getattr(self, name + "_selfloops", None) != selfloops
+            or recompute
+            or deg_recompute
+        ):
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -277,6 +282,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, name + "_selfloops", selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
-- 
2.43.0


From ba82a9ace9828dbf5618e64c8015a9c20df5d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 17/62] fix: expected nearest neighbour averages of vector
 properties

---
 src/graph_ensembles/models.py                  | 10 +++++-----
 src/graph_ensembles/spark/models.py            |  6 +++---
 src/graph_ensembles/sparse/models/ensembles.py |  2 +-
 src/graph_ensembles/sparse/models/random.py    |  8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index c245676..8506eed 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -222,7 +222,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -811,13 +811,13 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute expected property
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
+            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
         else:
@@ -829,7 +829,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4197d02..f526b73 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -251,7 +251,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -1192,7 +1192,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -2217,7 +2217,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 2460f95..f851af2 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -216,7 +216,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8891f9a..a655222 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -255,13 +255,13 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute av_nn_prop
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
+            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
         else:
@@ -273,7 +273,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
-- 
2.43.0


From f52d003eb0f2fd68af790da34f3307c7e7558584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 18/62] fix: random graph expected neighbour averages weigh a
 self-loop by its probability

---
 src/graph_ensembles/models.py               | 5 +++--
 src/graph_ensembles/spark/models.py         | 5 +++--
 src/graph_ensembles/sparse/models/random.py | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 8506eed..3824a0b 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -818,8 +818,9 @@ class RandomDiGraph(DiGraphEnsemble):
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index f526b73..3dbe68b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1181,8 +1181,9 @@ class RandomDiGraph(DiGraphEnsemble):
                 av_nn -= self.param[0] * prop
         elif ndir == "out-in":
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index a655222..7c8d211 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -262,8 +262,9 @@ class RandomDiGraph(DiGraphEnsemble):
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
-- 
2.43.0


From 6350d200e00da988f912f7fa938b68b5ff03b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 19/62] fix: expected neighbour averages keep small
 probabilities and single vertices

---
 src/graph_ensembles/models.py                  | 4 ++--
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 3824a0b..9a3bb5a 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -485,7 +485,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     av_nn[i] += pji * prop[j]
                     av_nn[j] += pij * prop[i]
                 elif ndir == "out-in":
-                    p = 1 - (1 - pij) * (1 - pji)
+                    p = pij + pji - pij * pji
                     av_nn[i] += p * prop[j]
                     av_nn[j] += p * prop[i]
                 else:
@@ -493,7 +493,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index f851af2..4cc1726 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -482,7 +482,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     av_nn[i] += pji * prop[j]
                     av_nn[j] += pij * prop[i]
                 elif ndir == "out-in":
-                    p = 1 - (1 - pij) * (1 - pji)
+                    p = pij + pji - pij * pji
                     av_nn[i] += p * prop[j]
                     av_nn[j] += p * prop[i]
                 else:
@@ -490,7 +490,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
-- 
2.43.0


From dd109291b6c233323f1a9610c3a0de1f2340ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 20/62] fix: zeros stored in a sparse adjacency matrix are not
 edges

---
 src/graph_ensembles/spark/models.py           | 25 ++++++++++++++-----
 .../sparse/models/conditional.py              |  4 ++-
 .../sparse/models/ensembles.py                | 13 +++++++---
 src/graph_ensembles/sparse/models/random.py   |  4 ++-
 4 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3dbe68b..bcf29ce 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -345,7 +345,9 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -414,7 +416,9 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -1215,7 +1219,9 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -2317,7 +2323,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -2329,7 +2337,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_matrix(x) for x in g]
+            adj = [sp.csr_matrix(x, copy=True) for x in g]
+            for x in adj:
+                x.sum_duplicates()
+                x.eliminate_zeros()
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
@@ -2454,7 +2465,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5fd068c..ab6d4e0 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -278,7 +278,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 4cc1726..17e792f 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -310,7 +310,9 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
@@ -731,7 +733,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -743,7 +747,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_array(x) for x in g]
+            adj = [sp.csr_array(x, copy=True) for x in g]
+            for x in adj:
+                x.sum_duplicates()
+                x.eliminate_zeros()
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 7c8d211..f41791b 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -296,7 +296,9 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr", copy=True)
+            adj.sum_duplicates()
+            adj.eliminate_zeros()
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
-- 
2.43.0


From c524b4028a8efe3e090a9fa96cb00061cc47aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 21/62] fix: random graph likelihood of certain and impossible
 edges

---
 src/graph_ensembles/models.py               | 31 +++++++++++----------
 src/graph_ensembles/spark/models.py         | 29 +++++++++++--------
 src/graph_ensembles/sparse/models/random.py | 29 +++++++++++--------
 3 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9a3bb5a..c105475 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -868,25 +868,28 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Compute log likelihood of graph
-        if (self.param[0] == 0) and (np.count_nonzero(adj) > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (np.count_nonzero(adj) != 0):
-            return -np.infty
-
-        like = np.count_nonzero(adj) * log(self.param[0])
+        # Compute number of edges and of pairs without an edge
+        num_edges = np.count_nonzero(adj)
         if selfloops:
-            like += (self.num_vertices**2 - np.count_nonzero(adj)) * log1p(
-                -self.param[0]
-            )
+            num_empty = self.num_vertices**2 - num_edges
         else:
-            like += (
-                self.num_vertices * (self.num_vertices - 1) - np.count_nonzero(adj)
-            ) * log1p(-self.param[0])
+            num_empty = self.num_vertices * (self.num_vertices - 1) - num_edges
             # Ensure that the matrix has no elements on the diagonal
-            if np.count_nonzero(adj.ravel()[:: adj.shape[1] + 1]) > 0:
+            if np.count_nonzero(adj.diagonal()) > 0:
                 return -np.infty
 
+        # Compute log likelihood of graph
+        if (self.param[0] == 0) and (num_edges > 0):
+            return -np.infty
+        if (self.param[0] == 1) and (num_empty > 0):
+            return -np.infty
+
+        like = 0.0
+        if num_edges > 0:
+            like += num_edges * log(self.param[0])
+        if num_empty > 0:
+            like += num_empty * log1p(-self.param[0])
+
         return like
 
     def sample(
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index bcf29ce..abb2ee5 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1237,23 +1237,28 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        # Compute number of edges and of pairs without an edge
+        num_edges = adj.nnz
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
+            num_empty = self.num_vertices**2 - num_edges
         else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_empty = self.num_vertices * (self.num_vertices - 1) - num_edges
             # Ensure that the matrix has no elements on the diagonal
-            if adj.diagonal().sum() > 0:
+            if np.count_nonzero(adj.diagonal()) > 0:
                 return -np.infty
 
+        # Compute log likelihood of graph
+        if (self.param[0] == 0) and (num_edges > 0):
+            return -np.infty
+        if (self.param[0] == 1) and (num_empty > 0):
+            return -np.infty
+
+        like = 0.0
+        if num_edges > 0:
+            like += num_edges * log(self.param[0])
+        if num_empty > 0:
+            like += num_empty * log1p(-self.param[0])
+
         return like
 
     def sample(
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index f41791b..c2ad93d 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -314,23 +314,28 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        # Compute number of edges and of pairs without an edge
+        num_edges = adj.nnz
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
+            num_empty = self.num_vertices**2 - num_edges
         else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_empty = self.num_vertices * (self.num_vertices - 1) - num_edges
             # Ensure that the matrix has no elements on the diagonal
-            if adj.diagonal().sum() > 0:
+            if np.count_nonzero(adj.diagonal()) > 0:
                 return -np.infty
 
+        # Compute log likelihood of graph
+        if (self.param[0] == 0) and (num_edges > 0):
+            return -np.infty
+        if (self.param[0] == 1) and (num_empty > 0):
+            return -np.infty
+
+        like = 0.0
+        if num_edges > 0:
+            like += num_edges * log(self.param[0])
+        if num_empty > 0:
+            like += num_empty * log1p(-self.param[0])
+
         return like
 
     def sample(
-- 
2.43.0


From 01892ecfb9f444d7daaeefeee7e9cbe417956a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 22/62] fix: likelihood no longer ignores the self-loops
 argument

---
 src/graph_ensembles/models.py                  | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index c105475..19f6bb8 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -341,7 +341,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_in,
             self.prop_dyad,
             adj,
-            self.selfloops,
+            selfloops,
         )
 
         return like
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 17e792f..3b08078 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -338,7 +338,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_dyad,
             adj.indptr,
             adj.indices,
-            self.selfloops,
+            selfloops,
         )
 
         return like
-- 
2.43.0


From 83fe2bd7126d49334d695afbd83aba64e2e5ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 23/62] fix: graphs with a disabled self-loop have zero
 likelihood

---
 src/graph_ensembles/models.py                  | 6 ++++++
 src/graph_ensembles/spark/models.py            | 9 +++++++++
 src/graph_ensembles/sparse/models/ensembles.py | 6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 19f6bb8..7abcf61 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -522,6 +522,9 @@ class DiGraphEnsemble(GraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif adj[i, j] != 0:
+                    # Self-loop which is not allowed
+                    return -np.inf
 
         return like
 
@@ -1830,6 +1833,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                             return tmp
 
                         like += tmp
+                    elif adj[k, i, j] != 0:
+                        # Self-loop which is not allowed
+                        return -np.inf
 
         return like
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index abb2ee5..eb4a9f5 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -742,6 +742,9 @@ class DiGraphEnsemble(GraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif ind_j in j_list:
+                    # Self-loop which is not allowed
+                    return -np.inf
 
         return like
 
@@ -2974,6 +2977,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif f_in_j in j_list:
+                    # Self-loop which is not allowed
+                    return -np.inf
 
         return like
 
@@ -3009,6 +3015,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
                 j_list = indices[n:m]
                 for j in j_list:
+                    # Self-loop which is not allowed
+                    if (i == j) and not selfloops:
+                        return -np.infty
                     ind = ind_in == j
                     if not np.any(ind):
                         return -np.infty
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 3b08078..d082da2 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -526,6 +526,9 @@ class DiGraphEnsemble(GraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif j in j_list:
+                    # Self-loop which is not allowed
+                    return -np.inf
 
         return like
 
@@ -1102,6 +1105,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
                 j_list = indices[n:m]
                 for j in j_list:
+                    # Self-loop which is not allowed
+                    if (i == j) and not selfloops:
+                        return -np.infty
                     ind = prop_in[0] == j
                     if not np.any(ind):
                         return -np.infty
-- 
2.43.0


From 54a89942ff69d8f485dfd79363f86133f1936729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 24/62] fix: dense multi-label likelihood of a list of sparse
 layers

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 7abcf61..f7fdd4d 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1586,7 +1586,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list) and sp.issparse(g[0]):
-            adj = [x.todense() for x in g]
+            adj = np.array([x.toarray() for x in g])
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
-- 
2.43.0


From d2f29371467512282f418fddcfe3a4e4bc1d20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:58 +0000
Subject: [PATCH 25/62] fix: fitness model log-probability of a missing edge
 keeps its precision for large fitnesses

---
 src/graph_ensembles/models.py                | 4 ++--
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index f7fdd4d..13d79be 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1368,7 +1368,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -2455,7 +2455,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index eb4a9f5..f3c838b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1819,7 +1819,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -3916,7 +3916,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 0c121b0..d8c35d0 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -325,7 +325,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiFitnessModel(MultiDiGraphEnsemble):
@@ -1005,4 +1005,4 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
-- 
2.43.0


From b9b20f2a9d2c6555c377948ef03eaebd46165b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 26/62] fix: weighted samples of the random graph

---
 src/graph_ensembles/models.py               | 6 ++++--
 src/graph_ensembles/spark/models.py         | 6 ++++--
 src/graph_ensembles/sparse/models/random.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 13d79be..b3e6fe8 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1001,7 +1001,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1019,7 +1019,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1040,6 +1040,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index f3c838b..527d40b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1370,7 +1370,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1388,7 +1388,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1409,6 +1409,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index c2ad93d..bd20e6c 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -444,7 +444,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -462,7 +462,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -486,6 +486,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
-- 
2.43.0


From b747dd316c786cba7b864ac42195b8e7869e6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 27/62] fix: expected total weight of the random graph

---
 src/graph_ensembles/models.py               | 7 ++++---
 src/graph_ensembles/spark/models.py         | 7 ++++---
 src/graph_ensembles/sparse/models/random.py | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index b3e6fe8..981d30a 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -681,7 +681,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Either num_edges or param must be set.")
 
         # Check if weight information is present
-        if not hasattr(self, "discrete_weights") and hasattr(self, "total_weight"):
+        if not hasattr(self, "discrete_weights"):
             self.discrete_weights = False
 
         # Ensure total weight is a number
@@ -738,10 +738,11 @@ class RandomDiGraph(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        num_edges = self.expected_num_edges()
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = num_edges / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = num_edges / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 527d40b..5a704d4 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -982,7 +982,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Either num_edges or param must be set.")
 
         # Check if weight information is present
-        if not hasattr(self, "discrete_weights") and hasattr(self, "total_weight"):
+        if not hasattr(self, "discrete_weights"):
             self.discrete_weights = False
 
         # Ensure total weight is a number
@@ -1102,10 +1102,11 @@ class RandomDiGraph(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        num_edges = self.expected_num_edges()
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = num_edges / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = num_edges / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index bd20e6c..f70250c 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -122,7 +122,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Either num_edges or param must be set.")
 
         # Check if weight information is present
-        if not hasattr(self, "discrete_weights") and hasattr(self, "total_weight"):
+        if not hasattr(self, "discrete_weights"):
             self.discrete_weights = False
 
         # Ensure total weight is a number
@@ -179,10 +179,11 @@ class RandomDiGraph(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        num_edges = self.expected_num_edges()
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = num_edges / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = num_edges / self.param[1]
 
         return self.exp_tot_weight
 
-- 
2.43.0


From 2dfed214c245a846a1094c95f221d1a5a852ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:01 +0000
Subject: [PATCH 28/62] fix: weighted samples of the dense multi-label models

---
 src/graph_ensembles/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 981d30a..3a7b7d8 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1864,13 +1864,11 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _cremb_sample_layer(
+    def _cremb_sample_tensor(
         p_ijk, param, prop_out, prop_in, prop_dyad, s_out, s_in, selfloops
     ):
         """Sample from the ensemble with weights from the CremB model."""
-        s_tot = np.sum(s_out[1])
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
 
         lbls = List()
         rows = List()
@@ -1878,6 +1876,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         vals = List()
 
         for k in range(prop_out.shape[1]):
+            s_tot = np.sum(s_out[:, k])
+            assert np.abs(s_tot - np.sum(s_in[:, k])) <= 1e-6 * s_tot, msg
             for i, p_out_i in enumerate(prop_out[:, k]):
                 for j, p_in_j in enumerate(prop_in[:, k]):
                     if (i != j) | selfloops:
-- 
2.43.0


From 77977758ac06a0509f64e22c66855ba679b6d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:01 +0000
Subject: [PATCH 29/62] fix: weighted multi-label samples with strengths
 missing at one end of an edge

---
 src/graph_ensembles/spark/models.py            | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 5a704d4..c2243ef 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3155,7 +3155,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out_ind == i
                         ind_in = s_in_ind == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out_val[ind_out][0]
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index d082da2..3a555d4 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1172,7 +1172,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out[0] == i
                         ind_in = s_in[0] == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out[1][ind_out][0]
-- 
2.43.0


From 3a5ef4e0042430c4489580ab204d8fadf4020957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:02 +0000
Subject: [PATCH 30/62] fix: weighted multi-label samples with empty labels

---
 src/graph_ensembles/spark/models.py            | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index c2243ef..39ec778 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3141,7 +3141,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Sample from the ensemble."""
         s_tot = np.sum(s_out_val)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in_val) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in_val)) <= 1e-6 * s_tot, msg
 
         rows = List()
         cols = List()
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 3a555d4..37f367a 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1157,7 +1157,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out[1])
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in[1])) <= 1e-6 * s_tot, msg
 
         rows = List()
         cols = List()
-- 
2.43.0


From 3766126d5a38a83b56125b37191b523953836516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:02 +0000
Subject: [PATCH 31/62] fix: sampling no longer ignores the self-loops argument

---
 src/graph_ensembles/models.py                  | 16 ++++++++--------
 src/graph_ensembles/spark/models.py            | 10 ++++------
 src/graph_ensembles/sparse/models/ensembles.py |  8 ++++----
 src/graph_ensembles/sparse/models/random.py    |  8 ++++----
 4 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 3a7b7d8..f903927 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -395,7 +395,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -412,7 +412,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             g.adj[rows, cols] = vals
@@ -940,7 +940,7 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -948,11 +948,11 @@ class RandomDiGraph(DiGraphEnsemble):
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             g.adj[rows, cols] = vals
         elif weights == "cremb":
@@ -962,7 +962,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
             g.adj[rows, cols] = vals
         else:
@@ -1735,7 +1735,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -1747,7 +1747,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_dyad,
                 s_out_l,
                 s_in_l,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 39ec778..e5a96d4 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1309,17 +1309,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -1327,7 +1327,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -2622,7 +2622,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         if weights is None:
             e_fun = self._binary_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
@@ -2650,7 +2649,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         elif weights == "cremb":
             e_fun = self._cremb_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 37f367a..b20fe26 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -392,7 +392,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -408,7 +408,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -950,7 +950,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     prop_out[i],
                     prop_in[i],
                     self.prop_dyad,
-                    self.selfloops,
+                    selfloops,
                 )
                 vals = np.ones(len(rows), dtype=bool)
             elif weights == "cremb":
@@ -962,7 +962,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.prop_dyad,
                     s_out_l[i],
                     s_in_l[i],
-                    self.selfloops,
+                    selfloops,
                 )
             else:
                 raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index f70250c..e77010f 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -383,17 +383,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -401,7 +401,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From a5d3aef6a4d17be779cad8a58bce8e1fb88a26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:59 +0000
Subject: [PATCH 32/62] fix: distributed weighted multi-label samples accept
 strengths as sparse arrays

---
 src/graph_ensembles/spark/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index e5a96d4..d7d8681 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2594,7 +2594,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_out_l = out_strength_label.tocsc()
+                s_out_l = sp.csc_matrix(out_strength_label)
             else:
                 raise ValueError("Out strength by label must be an array.")
 
@@ -2613,7 +2613,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_in_l = in_strength_label.tocsc()
+                s_in_l = sp.csc_matrix(in_strength_label)
             else:
                 raise ValueError("In strength by label must be an array.")
 
-- 
2.43.0


From 7f0a11df48e87f7a138bc65bf7a4953425f00a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:59 +0000
Subject: [PATCH 33/62] fix: strength preserving weights of the sparse random
 graph

---
 src/graph_ensembles/sparse/models/random.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index e77010f..2785099 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -475,9 +475,6 @@ class RandomDiGraph(DiGraphEnsemble):
         rows = []
         cols = []
         vals = []
-        rows = []
-        cols = []
-        vals = []
         p = param[0]
         for i in range(num_v):
             for j in range(num_v):
-- 
2.43.0


From a7277d00ce3a3432eddeaa0f81017668ad8dfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:26 +0000
Subject: [PATCH 34/62] fix: conditional expected degrees with one-way macro
 links and links inside a group

---
 .../sparse/models/conditional.py              | 117 +++++++++---------
 1 file changed, 58 insertions(+), 59 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index ab6d4e0..bd567da 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -596,73 +596,72 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         for i, p_out_i in enumerate(prop_out):
             p_in_i = prop_in[i]
             a = groups[i]
-            n = adj_i[a]
-            m = adj_i[a + 1]
-            gr_list = adj_j[n:m]
+            a_list = adj_j[adj_i[a] : adj_i[a + 1]]
             for j in range(i + 1):
                 b = groups[j]
-                if b in gr_list:
-                    p_out_j = prop_out[j]
-                    p_in_j = prop_in[j]
-                    if i != j:
-                        if not selfloops and (a == b):
-                            pij = p_ij(
-                                param,
-                                p_out_i,
-                                p_in_j,
-                                1.0,
-                                agg_p_out[a],
-                                agg_p_in[b],
-                                1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                            )
-                            pji = p_ij(
-                                param,
-                                p_out_j,
-                                p_in_i,
-                                1.0,
-                                agg_p_out[b],
-                                agg_p_in[a],
-                                1 - agg_diag[a] / (agg_p_out[b] * agg_p_in[a]),
-                            )
-                        else:
-                            pij = p_ij(
-                                param,
-                                p_out_i,
-                                p_in_j,
-                                1.0,
-                                agg_p_out[a],
-                                agg_p_in[b],
-                                1.0,
-                            )
-                            pji = p_ij(
-                                param,
-                                p_out_j,
-                                p_in_i,
-                                1.0,
-                                agg_p_out[b],
-                                agg_p_in[a],
-                                1.0,
-                            )
-                        p = pij + pji - pij * pji
-                        exp_d[i] += p
-                        exp_d[j] += p
-                        exp_d_out[i] += pij
-                        exp_d_out[j] += pji
-                        exp_d_in[j] += pij
-                        exp_d_in[i] += pji
-                    elif selfloops:
-                        pii = p_ij(
+                b_list = adj_j[adj_i[b] : adj_i[b + 1]]
+                p_out_j = prop_out[j]
+                p_in_j = prop_in[j]
+                if i != j:
+                    # Macro links in the two directions can differ
+                    z_ab = 1.0
+                    if not selfloops and (a == b) and (b in a_list):
+                        z_ab = 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b])
+                    pij = 0.0
+                    if b in a_list:
+                        pij = p_ij(
                             param,
                             p_out_i,
                             p_in_j,
                             1.0,
-                            agg_p_out[groups[i]],
-                            agg_p_in[groups[j]],
+                            agg_p_out[a],
+                            agg_p_in[b],
+                            z_ab,
+                        )
+                    pji = 0.0
+                    if a in b_list:
+                        pji = p_ij(
+                            param,
+                            p_out_j,
+                            p_in_i,
                             1.0,
+                            agg_p_out[b],
+                            agg_p_in[a],
+                            z_ab,
                         )
-                        exp_d[i] += pii
-                        exp_d_out[i] += pii
-                        exp_d_in[j] += pii
+                    if a == b and b in a_list:
+                        # Both edges belong to the same macro link and are
+                        # therefore not independent
+                        p = p_ij(
+                            param,
+                            p_out_i * p_in_j + p_out_j * p_in_i,
+                            1.0,
+                            1.0,
+                            agg_p_out[a],
+                            agg_p_in[b],
+                            z_ab,
+                        )
+                    else:
+                        p = pij + pji - pij * pji
+                    exp_d[i] += p
+                    exp_d[j] += p
+                    exp_d_out[i] += pij
+                    exp_d_out[j] += pji
+                    exp_d_in[j] += pij
+                    exp_d_in[i] += pji
+                elif selfloops and (b in a_list):
+                    pii = p_ij(
+                        param,
+                        p_out_i,
+                        p_in_j,
+                        1.0,
+                        agg_p_out[groups[i]],
+                        agg_p_in[groups[j]],
+                        1.0,
+                    )
+                    exp_d[i] += pii
+                    exp_d_out[i] += pii
+                    exp_d_in[j] += pii
 
         return exp_d, exp_d_out, exp_d_in
 
-- 
2.43.0


From 6c050bf4535b2df3011e9b9db0b6b35cc5b4e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:26 +0000
Subject: [PATCH 35/62] fix: conditional sampling no longer ignores the
 self-loops argument

---
 src/graph_ensembles/sparse/models/conditional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index bd567da..2151ae9 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -383,7 +383,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.groups,
                 self.adj.indptr,
                 self.adj.indices,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -401,7 +401,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.indices,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         elif weights == "wagg":
             if out_strength is None:
@@ -419,7 +419,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.data,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From 2ca96526da3a9741c6182471fdc7d4f82adf0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:26 +0000
Subject: [PATCH 36/62] fix: conditional model accepts the observed graph in
 any sparse format

---
 src/graph_ensembles/sparse/models/conditional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 2151ae9..0f80037 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -197,9 +197,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 " and the partitioning groups of the graph must be set."
             )
 
-        # If adj is sparse set to dense
-        if not sp.issparse(self.adj):
-            self.adj = sp.csr_array(self.adj)
+        # Ensure adj is a sparse csr array which stores only existing links
+        self.adj = sp.csr_array(self.adj, copy=True)
+        self.adj.sum_duplicates()
+        self.adj.eliminate_zeros()
 
         # Check that the two are consistent
         self.num_groups = self.adj.shape[0]
-- 
2.43.0


From c14af3e0daba7b2927e9624c4615f3ab8b9b8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:26 +0000
Subject: [PATCH 37/62] fix: conditional likelihood with groups that have no in
 or out fitness

---
 .../sparse/models/conditional.py              | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 0f80037..b284026 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -1060,21 +1060,16 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             j_list = adj_j[n:m]
             for j, p_in_j in enumerate(agg_p_in):
                 if not selfloops and (i == j):
+                    # Groups without in or out fitness have no possible edges
+                    z_ij = 0.0
+                    if (p_out_i != 0) and (p_in_j != 0):
+                        z_ij = 1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j])
+
                     # Check if link exists
                     if j in j_list:
-                        tmp = logp(
-                            param,
-                            p_out_i,
-                            p_in_j,
-                            1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j]),
-                        )
+                        tmp = logp(param, p_out_i, p_in_j, z_ij)
                     else:
-                        tmp = log1mp(
-                            param,
-                            p_out_i,
-                            p_in_j,
-                            1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j]),
-                        )
+                        tmp = log1mp(param, p_out_i, p_in_j, z_ij)
                 else:
                     # Check if link exists
                     if j in j_list:
-- 
2.43.0


From 9141f319b8b564968dc1bdc2cb556d63042107a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:37 +0000
Subject: [PATCH 38/62] fix: conditional samples always realise the observed
 links also for vanishing probabilities

---
 .../sparse/models/conditional.py              | 99 ++++++++++++-------
 1 file changed, 63 insertions(+), 36 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index b284026..74e58d2 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -378,6 +378,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         if weights is None:
             rows, cols = self._binary_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -394,6 +395,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -411,6 +413,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 in_strength = self.prop_in
             rows, cols, vals = self._wagg_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -668,7 +671,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _binary_sample(p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, selfloops):
+    def _binary_sample(
+        p_ij, cond_p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, selfloops
+    ):
         """Sample from the ensemble."""
         rows = []
         cols = []
@@ -701,32 +706,38 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                prop_ab = agg_p_out[a] * agg_p_in[b]
                 if not selfloops and (a == b):
-                    pnorm = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
+                    prop_ab -= agg_diag[a]
+
+                # Pairs that can still realise A_ab
+                prop_left = prop_ab
 
                 for i in i_in_a:
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            prop_pair = p_out_i * prop_in[j]
 
                             if atleastone:
-                                p_sample = p
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1)
                             else:
-                                p_sample = p / pnorm
+                                p_sample = cond_p_ij(
+                                    param,
+                                    p_out_i,
+                                    prop_in[j],
+                                    1.0,
+                                    max(prop_left, prop_pair),
+                                    1.0,
+                                    1.0,
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
                                 cols.append(j)
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                prop_left -= prop_pair
 
         return rows, cols
 
@@ -734,6 +745,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
     @jit(nopython=True)  # pragma: no cover
     def _cremb_sample(
         p_ij,
+        cond_p_ij,
         param,
         prop_out,
         prop_in,
@@ -782,39 +794,47 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                p_ab = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                prop_ab = agg_p_out[a] * agg_p_in[b]
                 if not selfloops and (a == b):
-                    p_ab = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
-                pnorm = p_ab
+                    prop_ab -= agg_diag[a]
+
+                # Pairs that can still realise A_ab
+                prop_left = prop_ab
 
                 for i in i_in_a:
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            prop_pair = p_out_i * prop_in[j]
 
                             if atleastone:
-                                p_sample = p
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1)
                             else:
-                                p_sample = p / pnorm
+                                p_sample = cond_p_ij(
+                                    param,
+                                    p_out_i,
+                                    prop_in[j],
+                                    1.0,
+                                    max(prop_left, prop_pair),
+                                    1.0,
+                                    1.0,
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
                                 cols.append(j)
+                                p_cond = cond_p_ij(
+                                    param, p_out_i, prop_in[j], 1.0, prop_ab, 1.0, 1.0
+                                )
                                 vals.append(
                                     rng.exponential(
-                                        s_out[i] * s_in[j] / (s_tot * (p / p_ab))
+                                        s_out[i] * s_in[j] / (s_tot * p_cond)
                                     )
                                 )
 
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                prop_left -= prop_pair
 
         return rows, cols, vals
 
@@ -822,6 +842,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
     @jit(nopython=True)  # pragma: no cover
     def _wagg_sample(
         p_ij,
+        cond_p_ij,
         param,
         prop_out,
         prop_in,
@@ -869,14 +890,12 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                prop_ab = agg_p_out[a] * agg_p_in[b]
                 if not selfloops and (a == b):
-                    pnorm = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
+                    prop_ab -= agg_diag[a]
+
+                # Pairs that can still realise A_ab
+                prop_left = prop_ab
 
                 # Keep track of new samples to sample the weights
                 s_start = len(rows)
@@ -885,12 +904,20 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            prop_pair = p_out_i * prop_in[j]
 
                             if atleastone:
-                                p_sample = p
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1)
                             else:
-                                p_sample = p / pnorm
+                                p_sample = cond_p_ij(
+                                    param,
+                                    p_out_i,
+                                    prop_in[j],
+                                    1.0,
+                                    max(prop_left, prop_pair),
+                                    1.0,
+                                    1.0,
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
@@ -899,7 +926,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 vals.append(s_out[i] * s_in[j])
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                prop_left -= prop_pair
 
                 # Iterate over the samples of macro link ab
                 for n in range(s_start, len(rows)):
-- 
2.43.0


From f936ed5b1238b8eeb93cbe48ef24f0a9ad41daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:02 +0000
Subject: [PATCH 39/62] fix: conditional expected neighbour averages use the
 conditioned probabilities

---
 .../sparse/models/conditional.py              | 78 +++++++++++++++++++
 1 file changed, 78 insertions(+)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 74e58d2..74d7af8 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -669,6 +669,84 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
         return exp_d, exp_d_out, exp_d_in
 
+    def exp_av_nn_prop(
+        self, p_ij, param, prop_out, prop_in, prop_dyad, prop, ndir, selfloops
+    ):
+        """Compute the expected sum of the property over the neighbours."""
+        return self._cond_av_nn_prop(
+            self.cond_p_ij,
+            param,
+            prop_out,
+            prop_in,
+            self.groups,
+            self.adj.indptr,
+            self.adj.indices,
+            prop,
+            ndir,
+            selfloops,
+        )
+
+    @staticmethod
+    @jit(nopython=True)  # pragma: no cover
+    def _cond_av_nn_prop(
+        p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, prop, ndir, selfloops
+    ):
+        """Compute the expected sum of the property over the neighbours using
+        the probabilities conditioned on the observed macro links.
+        """
+        # Compute aggregate properties
+        M = np.max(groups) + 1
+        agg_p_out = np.zeros(M, np.float64)
+        agg_p_in = np.zeros(M, np.float64)
+        agg_diag = np.zeros(M, np.float64)
+        for i, gr in enumerate(groups):
+            agg_p_out[gr] += prop_out[i]
+            agg_p_in[gr] += prop_in[i]
+            if not selfloops:
+                agg_diag[gr] += prop_out[i] * prop_in[i]
+
+        av_nn = np.zeros(prop.shape, dtype=np.float64)
+        for i, p_out_i in enumerate(prop_out):
+            p_in_i = prop_in[i]
+            a = groups[i]
+            a_list = adj_j[adj_i[a] : adj_i[a + 1]]
+            for j, p_out_j in enumerate(prop_out):
+                if (i == j) and not selfloops:
+                    continue
+
+                p_in_j = prop_in[j]
+                b = groups[j]
+                b_list = adj_j[adj_i[b] : adj_i[b + 1]]
+                prop_ab = agg_p_out[a] * agg_p_in[b]
+                prop_ba = agg_p_out[b] * agg_p_in[a]
+                if a == b:
+                    prop_ab -= agg_diag[a]
+                    prop_ba -= agg_diag[a]
+
+                pij = 0.0
+                if b in a_list:
+                    pij = p_ij(param, p_out_i, p_in_j, 1.0, prop_ab, 1.0, 1.0)
+                pji = 0.0
+                if a in b_list:
+                    pji = p_ij(param, p_out_j, p_in_i, 1.0, prop_ba, 1.0, 1.0)
+
+                if ndir == "out":
+                    p = pij
+                elif ndir == "in":
+                    p = pji
+                elif i == j:
+                    p = pij
+                elif a == b and b in a_list:
+                    # Edges belong to the same macro link
+                    p_pair = p_out_i * p_in_j + p_out_j * p_in_i
+                    p = p_ij(param, p_pair, 1.0, 1.0, prop_ab, 1.0, 1.0)
+                else:
+                    p = pij + pji - pij * pji
+
+                av_nn[i] += p * prop[j]
+
+        return av_nn
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def _binary_sample(
-- 
2.43.0


From 42589271e86b02239554ace4852d8534d7304f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:33 +0000
Subject: [PATCH 40/62] fix: multi-label invariant fit does not count
 impossible pairs at the upper bound

---
 src/graph_ensembles/models.py                  | 8 ++------
 src/graph_ensembles/spark/models.py            | 8 ++------
 src/graph_ensembles/sparse/models/invariant.py | 8 ++------
 3 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index f903927..b9f3a2e 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2508,10 +2508,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         val = np.float64(0.0)
 
@@ -2524,10 +2520,10 @@ class MultiInvariantModel(MultiFitnessModel):
                 else:
                     val += tmp
 
-        val1 = d[0] * val
-        if val1 == 0.0:
+        if (val == 0.0) or (d[0] == 0.0):
             return 0.0, val
         else:
+            val1 = d[0] * val
             return -expm1(-val1), val * exp(-val1)
 
     @staticmethod
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index d7d8681..3f81084 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3967,10 +3967,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         i = 0
         j = 0
@@ -3992,10 +3988,10 @@ class MultiInvariantModel(MultiFitnessModel):
             else:
                 j += 1
 
-        val1 = d[0] * val
-        if val1 == 0.0:
+        if (val == 0.0) or (d[0] == 0.0):
             return 0.0, val
         else:
+            val1 = d[0] * val
             return -expm1(-val1), val * exp(-val1)
 
     @staticmethod
diff --git a/src/graph_ensembles/sparse/models/invariant.py b/src/graph_ensembles/sparse/models/invariant.py
index 9e0fc10..2cfad37 100644
--- a/src/graph_ensembles/sparse/models/invariant.py
+++ b/src/graph_ensembles/sparse/models/invariant.py
@@ -152,10 +152,6 @@ class MultiInvariantModel(MultiFitnessModel):
         param is expected to be an array with num_labels elements. All
         properties must be a tuple (indices, values) from a sparse matrix.
         """
-        # Check that parameter is not inf
-        if isinf(d[0]):
-            return 1.0, 0.0
-
         # Initialize result
         i = 0
         j = 0
@@ -181,10 +177,10 @@ class MultiInvariantModel(MultiFitnessModel):
             else:
                 j += 1
 
-        val1 = d[0] * val
-        if val1 == 0.0:
+        if (val == 0.0) or (d[0] == 0.0):
             return 0.0, val
         else:
+            val1 = d[0] * val
             return -expm1(-val1), val * exp(-val1)
 
     @staticmethod
-- 
2.43.0


From 258c13921005a1cf3411ca6de16aeeacf77d6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:33 +0000
Subject: [PATCH 41/62] fix: fits per label are not truncated to integers by an
 integer starting point

---
 src/graph_ensembles/models.py                | 2 +-
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index b9f3a2e..fc72eee 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2190,7 +2190,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 for i in range(self.num_labels):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3f81084..140ce82 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3557,7 +3557,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Initialize each layer with solver function
                 d_fit = self.density_fit_layer
@@ -3589,7 +3589,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Collect solution to array
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
                 self.solver_output = [None] * self.num_labels
                 tmp = sol_rdd.collect()
                 for i, sol in tmp:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index d8c35d0..6e889a4 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -633,7 +633,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 prop_out = sp.csr_array(
-- 
2.43.0


From e37493bd413ecfa648a8179b5cb463d5fe95d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:33 +0000
Subject: [PATCH 42/62] fix: solver tolerance for negative targets and exact
 starting points

---
 src/graph_ensembles/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 052aff5..95ec813 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -42,7 +42,7 @@ class Solution:
                 and hasattr(self, "rtol")
                 and hasattr(self, "norm_seq")
             ):
-                if self.norm_seq[-1] <= self.atol + self.rtol * target:
+                if self.norm_seq[-1] <= self.atol + self.rtol * np.abs(target):
                     self.converged = True
                 else:
                     self.converged = False
@@ -134,7 +134,7 @@ def monotonic_newton_solver(
         diff_seq = diff
 
     # Initialize bounds on x
-    if norm < atol:
+    if norm <= atol:
         if full_return:
             return Solution(
                 x,
@@ -174,7 +174,7 @@ def monotonic_newton_solver(
         print("x0 = {}".format(x))
         print("|f(x0)| = {}".format(norm))
 
-    while norm > (atol + rtol * target) and n_iter < max_iter and diff > rtol:
+    while norm > (atol + rtol * np.abs(target)) and n_iter < max_iter and diff > rtol:
         # Save previous iteration
         x_old = x
 
@@ -258,7 +258,7 @@ def monotonic_newton_solver(
         print(" ")
 
     if verbose:
-        print("Converged: ", norm <= atol + rtol * target)
+        print("Converged: ", norm <= atol + rtol * np.abs(target))
         print("Final distance from root: ", norm)
         print("Last relative change in x: ", diff)
         print("Iterations: ", n_iter)
-- 
2.43.0


From f2636e8e8e6f57325ebf072dc8ac3433d4e73a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:03 +0000
Subject: [PATCH 43/62] fix: solver no longer crawls when the function is flat
 at the starting point

---
 src/graph_ensembles/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 95ec813..2e26962 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -182,11 +182,12 @@ def monotonic_newton_solver(
         if f_p != 0:
             dx = -f / f_p
         else:
-            dx = -f / atol
+            # Flat function, there is no newton step
+            dx = np.nan
 
         # Check that new x exists within the bound (x_u, x_l)
         # otherwise use secant method
-        if (x + dx >= x_u) or (x + dx <= x_l):
+        if not ((x + dx < x_u) and (x + dx > x_l)):
             if f_u is None:
                 x = x_u
             elif f_l is None:
-- 
2.43.0


From 7eaddf16420b0e64939c46ca4aa7c5633543c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 44/62] fix: conditional likelihood in the limit of vanishing
 parameter

---
 .../sparse/models/conditional.py              | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 74d7af8..acbb011 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -305,6 +305,25 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         if (agg_adj != (self.adj > 0)).nnz != 0:
             return -np.infty
 
+        # In the limit of vanishing parameter each macro link is realised by a
+        # single edge
+        if self.param[0] == 0:
+            adj = adj.tocoo()
+            if adj.nnz != self.adj.nnz:
+                return -np.infty
+            if not self.selfloops and np.any(adj.row == adj.col):
+                return -np.infty
+            a = self.groups[adj.row]
+            b = self.groups[adj.col]
+            agg_prop = np.outer(Gmat.dot(self.prop_out), Gmat.dot(self.prop_in))
+            if not self.selfloops:
+                diag = Gmat.dot(self.prop_out * self.prop_in)
+                agg_prop = agg_prop - np.diag(diag)
+            prop = self.prop_out[adj.row] * self.prop_in[adj.col]
+            if np.any(prop == 0):
+                return -np.infty
+            return np.sum(np.log(prop / agg_prop[a, b]))
+
         # Compute log likelihood of graph
         like = self._likelihood(
             self.logp,
-- 
2.43.0


From 861fb208e76d1df4f88d7d99bf54513971cbc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 45/62] fix: random graph fit with more edges than possible
 pairs

---
 src/graph_ensembles/models.py               | 4 ++++
 src/graph_ensembles/spark/models.py         | 4 ++++
 src/graph_ensembles/sparse/models/random.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index fc72eee..b074715 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -710,6 +710,10 @@ class RandomDiGraph(DiGraphEnsemble):
         else:
             p = self.num_edges / (self.num_vertices * (self.num_vertices - 1))
 
+        if p > 1:
+            warnings.warn("Fit did not converge", UserWarning)
+            p = 1.0
+
         if hasattr(self, "total_weight"):
             if self.discrete_weights:
                 q = 1 - self.num_edges / self.total_weight
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 140ce82..296cc6e 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1074,6 +1074,10 @@ class RandomDiGraph(DiGraphEnsemble):
         else:
             p = self.num_edges / (self.num_vertices * (self.num_vertices - 1))
 
+        if p > 1:
+            warnings.warn("Fit did not converge", UserWarning)
+            p = 1.0
+
         if hasattr(self, "total_weight"):
             if self.discrete_weights:
                 q = 1 - self.num_edges / self.total_weight
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 2785099..e41f46b 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -151,6 +151,10 @@ class RandomDiGraph(DiGraphEnsemble):
         else:
             p = self.num_edges / (self.num_vertices * (self.num_vertices - 1))
 
+        if p > 1:
+            warnings.warn("Fit did not converge", UserWarning)
+            p = 1.0
+
         if hasattr(self, "total_weight"):
             if self.discrete_weights:
                 q = 1 - self.num_edges / self.total_weight
-- 
2.43.0


From 916df25ef2b8cc0ca9f2c662be6fb75574474ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:30 +0000
Subject: [PATCH 46/62] fix: solver stays in the bracket when the target cannot
 be reached

---
 src/graph_ensembles/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 2e26962..81c824d 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -199,6 +199,9 @@ def monotonic_newton_solver(
                     x = x_l + 2 * np.abs(x_l)
             elif np.isinf(x_l):
                 x = x_u - 2 * np.abs(x_u)
+            elif (f_u > 0) == (f_l > 0):
+                # No root in the bracket, the secant would leave it
+                x = (x_u + x_l) / 2
             else:
                 x = x_u - (f_u * (x_u - x_l)) / (f_u - f_l)
         else:
-- 
2.43.0


From 2ad0b6a918b1351bde4030057502a528083b4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:30 +0000
Subject: [PATCH 47/62] fix: solver no longer stops at a flat starting point on
 the edge of the bracket

---
 src/graph_ensembles/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 81c824d..7046810 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -165,7 +165,10 @@ def monotonic_newton_solver(
         x_u = x
         f_u = f
     elif f_p == 0:
-        pass
+        if x == x_u:
+            f_u = f
+        elif x == x_l:
+            f_l = f
     else:
         msg = "The function does not respect the expected monotonicity."
         assert False, msg
-- 
2.43.0


From daa3425356db69717512b31d14121b8c2c379ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:46 +0000
Subject: [PATCH 48/62] fix: solver stays in the bracket when the secant step
 is inaccurate

---
 src/graph_ensembles/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 7046810..5b1b51c 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -207,6 +207,8 @@ def monotonic_newton_solver(
                 x = (x_u + x_l) / 2
             else:
                 x = x_u - (f_u * (x_u - x_l)) / (f_u - f_l)
+                if not ((x <= x_u) and (x >= x_l)):
+                    x = (x_u + x_l) / 2
         else:
             x = x + dx
 
-- 
2.43.0


From 24da22be009e9af0292423ff477ecde77f81eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 49/62] fix: sampled graphs declare whether they are weighted

---
 src/graph_ensembles/models.py                    | 3 +++
 src/graph_ensembles/spark/models.py              | 3 +++
 src/graph_ensembles/sparse/models/conditional.py | 1 +
 src/graph_ensembles/sparse/models/ensembles.py   | 2 ++
 src/graph_ensembles/sparse/models/random.py      | 1 +
 5 files changed, 10 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index b074715..6266821 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -370,6 +370,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -924,6 +925,7 @@ class RandomDiGraph(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -1667,6 +1669,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
         g.num_labels = self.num_labels
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 296cc6e..8859ce6 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -489,6 +489,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -1293,6 +1294,7 @@ class RandomDiGraph(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -2557,6 +2559,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
         g.num_labels = self.num_labels
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index acbb011..a28b3cc 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -376,6 +376,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index b20fe26..fd4f408 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -367,6 +367,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
@@ -860,6 +861,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
         g.num_labels = self.num_labels
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index e41f46b..1a9fbaa 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -367,6 +367,7 @@ class RandomDiGraph(DiGraphEnsemble):
 
         # Initialise common object attributes
         g.num_vertices = self.num_vertices
+        g.weighted = weights is not None
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
 
-- 
2.43.0


From c81d7c9f7a1addd88e85e0960471e9512e52a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 50/62] fix: unweighted samples of the dense multi-label models
 are boolean

---
 src/graph_ensembles/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 6266821..5f6eff6 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1760,7 +1760,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = np.zeros((g.num_labels, g.num_vertices, g.num_vertices))
+        dtype = bool if weights is None else np.float64
+        g.adj = np.zeros((g.num_labels, g.num_vertices, g.num_vertices), dtype=dtype)
         g.adj[lbls, rows, cols] = vals
 
         return g
-- 
2.43.0


From 0e240ee0ecbf41b0274ac9acaef02c693ae73e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:42 +0000
Subject: [PATCH 51/62] fix: graphs sampled by the distributed models hold
 sparse arrays like all others

---
 src/graph_ensembles/spark/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 8859ce6..c8f7e2e 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -548,7 +548,7 @@ class DiGraphEnsemble(GraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = sp.csr_matrix(
+        g.adj = sp.csr_array(
             (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
         )
 
@@ -1339,7 +1339,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = sp.csr_matrix(
+        g.adj = sp.csr_array(
             (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
         )
 
@@ -2649,7 +2649,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             for i, (rows, cols) in tmp.collect():
                 # Convert to adjacency matrix
-                g.adj[i] = sp.csr_matrix(
+                g.adj[i] = sp.csr_array(
                     (np.ones(len(rows), dtype=bool), (rows, cols)),
                     shape=(g.num_vertices, g.num_vertices),
                 )
@@ -2680,7 +2680,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             for i, (rows, cols, vals) in tmp.collect():
                 # Convert to adjacency matrix
-                g.adj[i] = sp.csr_matrix(
+                g.adj[i] = sp.csr_array(
                     (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
                 )
 
-- 
2.43.0


From 110a4ac353eb510e7f4f4cfc3acab0be2a483fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:22 +0000
Subject: [PATCH 52/62] fix: pagerank of integer weighted and unweighted graphs

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index cb10f89..6a72d32 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -7,7 +7,7 @@ from numba import jit
 
 @jit(nopython=True)  # pragma: no cover
 def normalise_rows(rows, clms, weights):
-    new_w = np.zeros(len(weights), dtype=weights.dtype)
+    new_w = np.zeros(len(weights), dtype=np.float64)
     for i in range(len(rows) - 1):
         n = rows[i]
         m = rows[i + 1]
-- 
2.43.0


From 2b5f75b045632b1e643f754ecd0eb67f72cd7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:22 +0000
Subject: [PATCH 53/62] fix: trophic depth of graphs with sparse array
 adjacency

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 6a72d32..0a40dd5 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -101,7 +101,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     w = adj.data
 
     # Initialise result
-    strength = adj.sum(axis=1).A1 + final
+    strength = np.asarray(adj.sum(axis=1)).ravel() + final
     idx = strength != 0
     depth = final
 
-- 
2.43.0


From 046c86fac0b48da48f8d9849a4a0deaf211bc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:14 +0000
Subject: [PATCH 54/62] fix: automatic thresholds of the confusion matrix

---
 src/graph_ensembles/spark/models.py | 63 ++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index c8f7e2e..94d1b6a 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -388,6 +388,19 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return like
 
+    def _auto_thresholds(self, num):
+        """Return num thresholds logarithmically spaced between the smallest
+        and the largest non-zero probabilities of the model.
+        """
+        x = self.prop_out[self.prop_out > 0]
+        y = self.prop_in[self.prop_in > 0]
+        if len(x) == 0 or len(y) == 0 or self.param[0] == 0:
+            return np.ones(num, dtype=np.float64)
+
+        p_max = self.p_ij(self.param, x.max(), y.max(), None)
+        p_min = self.p_ij(self.param, x.min(), y.min(), None)
+        return np.sort(np.geomspace(p_min, p_max, num))
+
     def confusion_matrix(self, g, thresholds=None, selfloops=None):
         """Compute the true/false positive/negative rates for the model
         at the given probability thresholds levels.
@@ -400,14 +413,10 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # If thresholds are not given or is an int compute automatically
         if thresholds is None:
-            p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
-            p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
-            thresholds = np.logspace(log(p_min), log(p_max), 20)
+            thresholds = self._auto_thresholds(20)
 
         elif isinstance(thresholds, int):
-            p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
-            p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
-            thresholds = np.logspace(log(p_min), log(p_max), thresholds)
+            thresholds = self._auto_thresholds(thresholds)
 
         elif not isinstance(thresholds, np.ndarray):
             raise ValueError("Thresholds must be an array or an integer.")
@@ -1345,6 +1354,10 @@ class RandomDiGraph(DiGraphEnsemble):
 
         return g
 
+    def _auto_thresholds(self, num):
+        """Return the only threshold at which the predictions change."""
+        return np.full(num, self.param[0], dtype=np.float64)
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def _binary_sample(param, num_v, selfloops):
@@ -2446,6 +2459,28 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         return like
 
+    def _auto_thresholds(self, num):
+        """Return num thresholds logarithmically spaced between the smallest
+        and the largest non-zero probabilities of the model.
+        """
+        prop_out = self.prop_out.tocsc()
+        prop_in = self.prop_in.tocsc()
+        p_min = 1.0
+        not_p_max = 1.0
+        for k in range(self.num_labels):
+            x = prop_out[:, [k]].data
+            y = prop_in[:, [k]].data
+            x = x[x > 0]
+            y = y[y > 0]
+            if len(x) > 0 and len(y) > 0 and self.param[k] > 0:
+                p_min = min(p_min, self.p_ijk(self.param[k], x.min(), y.min(), None))
+                not_p_max *= 1 - self.p_ijk(self.param[k], x.max(), y.max(), None)
+
+        if not_p_max == 1:
+            return np.ones(num, dtype=np.float64)
+
+        return np.sort(np.geomspace(p_min, 1 - not_p_max, num))
+
     def confusion_matrix(self, g, thresholds=None, selfloops=None):
         """Compute the likelihood a graph given the fitted model.
         Accepts as input either a graph or an adjacency matrix.
@@ -2458,22 +2493,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # If thresholds are not given or is an int compute automatically
         if thresholds is None:
-            p_max = -expm1(-self.param[0] * self.prop_out.max() * self.prop_in.max())
-            p_min = -expm1(
-                -self.param[0]
-                * self.prop_out[self.prop_out != 0].min()
-                * self.prop_in[self.prop_in != 0].min()
-            )
-            thresholds = np.logspace(log(p_min), log(p_max), 20)
+            thresholds = self._auto_thresholds(20)
 
         elif isinstance(thresholds, int):
-            p_max = -expm1(-self.param[0] * self.prop_out.max() * self.prop_in.max())
-            p_min = -expm1(
-                -self.param[0]
-                * self.prop_out[self.prop_out != 0].min()
-                * self.prop_in[self.prop_in != 0].min()
-            )
-            thresholds = np.logspace(log(p_min), log(p_max), thresholds)
+            thresholds = self._auto_thresholds(thresholds)
 
         elif not isinstance(thresholds, np.ndarray):
             raise ValueError("Thresholds must be an array or an integer.")
-- 
2.43.0


From c66d860a99faf727282ca7f7362a0a8d2919b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:46 +0000
Subject: [PATCH 55/62] fix: number of edges of the multi-label models is
 validated also next to num_edges_label

---
 src/graph_ensembles/models.py                | 6 ++++--
 src/graph_ensembles/spark/models.py          | 6 ++++--
 src/graph_ensembles/sparse/models/fitness.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 5f6eff6..9d4d525 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2088,8 +2088,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
-        elif hasattr(self, "num_edges"):
-            self.per_label = False
+        if hasattr(self, "num_edges") and not isinstance(self.num_edges, np.ndarray):
+            if not hasattr(self, "num_edges_label"):
+                self.per_label = False
+
             try:
                 tmp = len(self.num_edges)
                 if tmp == 1:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 94d1b6a..4794261 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3405,8 +3405,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
-        elif hasattr(self, "num_edges"):
-            self.per_label = False
+        if hasattr(self, "num_edges") and not isinstance(self.num_edges, np.ndarray):
+            if not hasattr(self, "num_edges_label"):
+                self.per_label = False
+
             try:
                 tmp = len(self.num_edges)
                 if tmp == 1:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 6e889a4..cb305e7 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -523,8 +523,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
-        elif hasattr(self, "num_edges"):
-            self.per_label = False
+        if hasattr(self, "num_edges") and not isinstance(self.num_edges, np.ndarray):
+            if not hasattr(self, "num_edges_label"):
+                self.per_label = False
+
             try:
                 tmp = len(self.num_edges)
                 if tmp == 1:
-- 
2.43.0


From 8c847c8a6c6773878d294d32bac8a9713bbbfe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:46 +0000
Subject: [PATCH 56/62] fix: explicit number of edges of a multi-label model
 overrides the one of the graph

---
 src/graph_ensembles/models.py                | 5 +++++
 src/graph_ensembles/spark/models.py          | 5 +++++
 src/graph_ensembles/sparse/models/fitness.py | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9d4d525..317ca00 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1986,6 +1986,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 setattr(self, name, kwargs[name])
 
+        # An explicit number of edges replaces the constraints of the graph
+        if "num_edges" in kwargs and "num_edges_label" not in kwargs:
+            if hasattr(self, "num_edges_label"):
+                del self.num_edges_label
+
         # Ensure that all necessary fields have been set
         if not hasattr(self, "num_vertices"):
             raise ValueError("Number of vertices not set.")
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4794261..03ea034 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3303,6 +3303,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 setattr(self, name, kwargs[name])
 
+        # An explicit number of edges replaces the constraints of the graph
+        if "num_edges" in kwargs and "num_edges_label" not in kwargs:
+            if hasattr(self, "num_edges_label"):
+                del self.num_edges_label
+
         # Ensure that all necessary fields have been set
         if not hasattr(self, "num_vertices"):
             raise ValueError("Number of vertices not set.")
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index cb305e7..1198f9b 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -413,6 +413,11 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 setattr(self, name, kwargs[name])
 
+        # An explicit number of edges replaces the constraints of the graph
+        if "num_edges" in kwargs and "num_edges_label" not in kwargs:
+            if hasattr(self, "num_edges_label"):
+                del self.num_edges_label
+
         # Ensure that all necessary fields have been set
         if not hasattr(self, "num_vertices"):
             raise ValueError("Number of vertices not set.")
-- 
2.43.0


From 308df3a708b8d6ea79122c95c308d0ee0d6eb24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:19 +0000
Subject: [PATCH 57/62] fix: groups of the conditional model are checked
 against the vertices

---
 src/graph_ensembles/sparse/models/conditional.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index a28b3cc..dd3e13d 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -212,6 +212,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         assert (
             np.max(self.groups) + 1 == self.num_groups
         ), "Number of groups in adj and groups array does not match."
+        assert (
+            len(self.groups) == self.num_vertices
+        ), "The length of the groups array does not match the number of vertices."
+        assert np.min(self.groups) >= 0, "Groups must be numbered from zero."
 
     def expected_num_edges(self, recompute=False):
         """Compute the expected number of edges."""
-- 
2.43.0


From 833c94e009a1153a7ed74cd7b4c85c518478ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:45 +0000
Subject: [PATCH 58/62] fix: distributed models pass the vertices of the pair
 to the dyadic property

The kernels called prop_dyad with positions inside the block, so any result
depended on the partitioning as soon as a dyadic property was defined.
---
 src/graph_ensembles/spark/models.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 03ea034..677ecef 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -609,11 +609,13 @@ class DiGraphEnsemble(GraphEnsemble):
         """Compute the expected number of edges."""
         exp_e = 0.0
         for i in range(ind_out[1] - ind_out[0]):
+            ind_i = ind_out[0] + i
             p_out_i = prop_out[i]
             for j in range(ind_in[1] - ind_in[0]):
+                ind_j = ind_in[0] + j
                 p_in_j = prop_in[j]
-                if (ind_out[0] + i != ind_in[0] + j) | selfloops:
-                    exp_e += p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                if (ind_i != ind_j) | selfloops:
+                    exp_e += p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
 
         return exp_e
 
@@ -641,8 +643,8 @@ class DiGraphEnsemble(GraphEnsemble):
                 p_out_j = prop_out[1][j]
                 p_in_j = prop_in[0][j]
                 if ind_i != ind_j:
-                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
-                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(j, i))
+                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
+                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(ind_j, ind_i))
                     p = pij + pji - pij * pji
                     exp_d[ind_i] += p
                     exp_d[ind_j] += p
@@ -651,7 +653,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     exp_d_in[ind_j] += pij
                     exp_d_in[ind_i] += pji
                 elif selfloops:
-                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     exp_d[ind_i] += pii
                     exp_d_out[ind_i] += pii
                     exp_d_in[ind_j] += pii
@@ -689,8 +691,8 @@ class DiGraphEnsemble(GraphEnsemble):
                 p_out_j = prop_out[1][j]
                 p_in_j = prop_in[0][j]
                 if ind_i != ind_j:
-                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
-                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(j, i))
+                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
+                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(ind_j, ind_i))
                     if ndir == "out":
                         av_nn[ind_i] += pij * prop[ind_j]
                         av_nn[ind_j] += pji * prop[ind_i]
@@ -704,7 +706,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     else:
                         raise ValueError("Direction of neighbourhood not right.")
                 elif selfloops:
-                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if ndir == "out":
                         av_nn[ind_i] += pii * prop[ind_i]
                     elif ndir == "in":
@@ -745,9 +747,9 @@ class DiGraphEnsemble(GraphEnsemble):
                 if (ind_i != ind_j) | selfloops:
                     # Check if link exists
                     if ind_j in j_list:
-                        tmp = logp(param, p_out_i, p_in_j, prop_dyad(i, j))
+                        tmp = logp(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     else:
-                        tmp = log1mp(param, p_out_i, p_in_j, prop_dyad(i, j))
+                        tmp = log1mp(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
 
                     if isinf(tmp):
                         return tmp
@@ -790,7 +792,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 ind_j = ind_in[0] + j
                 if (ind_i != ind_j) | selfloops:
                     p_in_j = prop_in[j]
-                    p = pij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    p = pij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if ind_j in j_list:
                         for k, th in enumerate(thresholds):
                             if p >= th:
@@ -821,7 +823,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 ind_j = ind_in[0] + j
                 p_in_j = prop_in[j]
                 if (ind_i != ind_j) | selfloops:
-                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if rng.random() < p:
                         rows.append(ind_i)
                         cols.append(ind_j)
@@ -856,7 +858,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 ind_j = ind_in[0] + j
                 p_in_j = prop_in[j]
                 if (ind_i != ind_j) | selfloops:
-                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if rng.random() < p:
                         rows.append(ind_i)
                         cols.append(ind_j)
-- 
2.43.0


From c7c265156fb157093e06124741a24f74dc365bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:45 +0000
Subject: [PATCH 59/62] fix: integer edge weights narrower than 64 bits are
 summed without overflow

Weights of repeated edges were accumulated in the type of the weight column,
so that e.g. 8-bit weights wrapped around.
---
 src/graph_ensembles/graphs.py        | 8 ++++++++
 src/graph_ensembles/sparse/graphs.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 6bd6116..8933f9d 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -175,6 +175,10 @@ class Graph:
         if weight is not None:
             self.weighted = True
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu":
+                # Sums of narrow integer weights would overflow
+                kind = np.uint64 if val_array.dtype.kind == "u" else np.int64
+                val_array = val_array.astype(kind)
 
             # Ensure all weights are positive
             msg = "Zero or negative edge weights are not supported."
@@ -856,6 +860,10 @@ class MultiGraph(Graph):
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu":
+                # Sums of narrow integer weights would overflow
+                kind = np.uint64 if val_array.dtype.kind == "u" else np.int64
+                val_array = val_array.astype(kind)
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index c03fa13..6812218 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -175,6 +175,10 @@ class Graph:
         if weight is not None:
             self.weighted = True
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu":
+                # Sums of narrow integer weights would overflow
+                kind = np.uint64 if val_array.dtype.kind == "u" else np.int64
+                val_array = val_array.astype(kind)
 
             # Ensure all weights are positive
             msg = "Zero or negative edge weights are not supported."
@@ -926,6 +930,10 @@ class MultiGraph(Graph):
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
             val_array = e[weight].values
+            if val_array.dtype.kind in "biu":
+                # Sums of narrow integer weights would overflow
+                kind = np.uint64 if val_array.dtype.kind == "u" else np.int64
+                val_array = val_array.astype(kind)
 
             # Define adjacency tensor as list of sparse matrices
             self.adj = []
-- 
2.43.0


From 52008769d7cb260ded462be88f3dd5e883bff586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:56 +0000
Subject: [PATCH 60/62] fix: page rank and trophic depth of single precision
 weights

---
 src/graph_ensembles/lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 0a40dd5..c9f4662 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -11,7 +11,7 @@ def normalise_rows(rows, clms, weights):
     for i in range(len(rows) - 1):
         n = rows[i]
         m = rows[i + 1]
-        vals = weights[n:m]
+        vals = weights[n:m].astype(np.float64)
 
         if n == m:
             continue
@@ -94,6 +94,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     """
     # Get adj in csc for fast propagation
     adj = g.adjacency_matrix(directed=True, weighted=True).tocsc()
+    adj = adj.astype(np.float64)
 
     # Extract data from csc matrix
     i = adj.indices
-- 
2.43.0


From 5bfa5dc1b4e4db2bceaa508cc198df453dd2955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:39 +0000
Subject: [PATCH 61/62] fix: building a graph leaves the caller's tables
 unchanged

The constructors added working columns to the vertex and edge tables they
were given, overwriting any of the same name.
---
 src/graph_ensembles/graphs.py        | 13 +++++++++++++
 src/graph_ensembles/sparse/graphs.py | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 8933f9d..4776dc9 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -95,6 +95,10 @@ class Graph:
         assert isinstance(v, pd.DataFrame), "Only dataframe input supported."
         assert isinstance(e, pd.DataFrame), "Only dataframe input supported."
 
+        # Do not modify the tables of the caller
+        v = v.copy(deep=False)
+        e = e.copy(deep=False)
+
         # If column names are passed as lists with one elements extract str
         if isinstance(v_id, list) and len(v_id) == 1:
             v_id = v_id[0]
@@ -836,6 +840,15 @@ class MultiGraph(Graph):
             v, e, v_id=v_id, src=src, dst=dst, weight=weight, v_group=v_group
         )
 
+        # Do not modify the tables of the caller
+        e = e.copy(deep=False)
+        for name, clms in [("_src", src), ("_dst", dst)]:
+            if isinstance(clms, list) and len(clms) > 1:
+                e[name] = list(zip(*[e[x] for x in clms]))
+            else:
+                e[name] = e[clms[0]] if isinstance(clms, list) else e[clms]
+            e[name] = e[name].map(lambda x: self.id_dict.get(x))
+
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 6812218..a5807a4 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -95,6 +95,10 @@ class Graph:
         assert isinstance(v, pd.DataFrame), "Only dataframe input supported."
         assert isinstance(e, pd.DataFrame), "Only dataframe input supported."
 
+        # Do not modify the tables of the caller
+        v = v.copy(deep=False)
+        e = e.copy(deep=False)
+
         # If column names are passed as lists with one elements extract str
         if isinstance(v_id, list) and len(v_id) == 1:
             v_id = v_id[0]
@@ -906,6 +910,15 @@ class MultiGraph(Graph):
             v, e, v_id=v_id, src=src, dst=dst, weight=weight, v_group=v_group
         )
 
+        # Do not modify the tables of the caller
+        e = e.copy(deep=False)
+        for name, clms in [("_src", src), ("_dst", dst)]:
+            if isinstance(clms, list) and len(clms) > 1:
+                e[name] = list(zip(*[e[x] for x in clms]))
+            else:
+                e[name] = e[clms[0]] if isinstance(clms, list) else e[clms]
+            e[name] = e[name].map(lambda x: self.id_dict.get(x))
+
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
-- 
2.43.0


From 05614373dbdd67a858c61ee52f9b383fdea5876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:40 +0000
Subject: [PATCH 62/62] fix: labelled graphs accept the weight column as a
 one-element list

as unlabelled graphs do.
---
 src/graph_ensembles/graphs.py        | 2 ++
 src/graph_ensembles/sparse/graphs.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 4776dc9..9b49634 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -852,6 +852,8 @@ class MultiGraph(Graph):
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
+        if isinstance(weight, list) and len(weight) == 1:
+            weight = weight[0]
 
         # Get dictionary of label to numeric internal label
         if isinstance(edge_label, list):
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index a5807a4..7ca5eb6 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -922,6 +922,8 @@ class MultiGraph(Graph):
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
+        if isinstance(weight, list) and len(weight) == 1:
+            weight = weight[0]
 
         # Get dictionary of label to numeric internal label
         if isinstance(edge_label, list):
-- 
2.43.0

