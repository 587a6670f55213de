From e5fbb3bf6602904df7650f3d8a385b33c5ed1c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/31] fix: rule_1 subtracts edges between removed vertices
 only once

---
 medil/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/medil/graph.py b/medil/graph.py
index 42a31e4..77666c4 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -217,8 +217,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # my own addition:
                 # self.nbrhood[:, vert] = 0
 
-            # remove isolated_verts from common neighborhoods
-            self.common_neighbors[:, isolated_verts] = 0
+                # remove vert from common neighborhoods before the next
+                # one, so that edges between them aren't subtracted twice
+                self.common_neighbors[:, vert] = 0
 
         # max_num_edges = self.n_choose_2(self.unreduced.max_num_verts)
         # mask = lambda edge_idx: np.array(self.common_neighbors[edge_idx], dtype=bool)
-- 
2.43.0


From 727de4678d3f6d71bc498505c4a8315c15eccf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 02/31] fix: rule_3 and its reconstruction yield covers of
 exactly the input graph

Prisoners and exits are determined by all edges between the remaining
vertices, not only the uncovered ones; deleted vertices are added back
in reverse order and only to cliques they complete; siblings in the
search tree no longer share the record of deleted vertices; and covers
found while reducing are reconstructed as well.
---
 medil/ecc_algorithms.py |  2 +-
 medil/graph.py          | 51 ++++++++++++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..eef16f1 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -116,7 +116,7 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
         return None
 
     if branch_graph.num_edges == 0:  # equiv to len(branch_graph.extant_edges_idx)==0
-        return (
+        return branch_graph.reconstruct_cover(
             branch_graph.the_cover
         )  # not in paper, but speeds it up slightly; or rather return None?
 
diff --git a/medil/graph.py b/medil/graph.py
index 77666c4..221e0f9 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -161,8 +161,11 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.nbrs = udg.nbrs
         self.get_edge = udg.get_edge
 
-        if hasattr(udg, "reduced_away"):  # then rule_3 wasn't applied
-            self.reduced_away = udg.reduced_away
+        # vertices deleted by rule_3, in order, each with its prisoners;
+        # copied, so that sibling branches don't affect each other
+        if hasattr(udg, "reduced_away"):
+            self.reduced_away = udg.reduced_away.copy()
+            self.reduced_order = udg.reduced_order.copy()
 
     def reset(self):
         self.__init__(self.unreduced)
@@ -274,22 +277,28 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         # a solution for the unreduced instance, add v to every clique
         # containing a prisoner of v.
 
-        for vert, nbrhood in enumerate(self.adj_matrix):
-            if nbrhood[vert] == 0:  # then nbrhood is empty
+        # prisoners and exits depend on all edges between the remaining
+        # vertices, including those already covered
+        adj = self.remaining_adj()
+        uncovered = self.adj_matrix.astype(bool)
+        np.fill_diagonal(uncovered, False)
+
+        for vert, nbrhood in enumerate(adj):
+            if not uncovered[vert].any():
                 continue
-            exits = np.zeros(self.unreduced.max_num_verts, bool)
-            nbrs = np.flatnonzero(nbrhood)
-            for nbr in nbrs:
-                if (nbrhood.astype(int) - self.adj_matrix[nbr].astype(int) == -1).any():
-                    exits[nbr] = True
             # exits[j] == True iff j is an exit for vert
             # prisoners[j] == True iff j is a prisoner of vert
-            prisoners = np.logical_and(~exits, self.adj_matrix[vert])
+            exits = np.logical_and(nbrhood, (adj & ~nbrhood).any(1))
+            prisoners = np.logical_and(~exits, nbrhood)
             prisoners[vert] = False  # a vert isn't its own prisoner
 
-            # check if each exit is adjacent to at least one prisoner
-            prisoners_dominate_exits = self.adj_matrix[prisoners][:, exits].sum(0)
-            if prisoners_dominate_exits.all():  # apply the rule
+            # check if each vertex to be covered together with vert is
+            # also to be covered together with one of its prisoners
+            others = uncovered.copy()
+            others[:, vert] = False
+            dominated = others[prisoners].any(0)
+            dominated |= np.logical_and(prisoners, others.any(1))
+            if dominated[uncovered[vert]].all():  # apply the rule
                 self.reducing = True
                 if self.verbose:
                     print("\t\t\tapplying Rule 3...")
@@ -308,9 +317,16 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # keep track of deleted nodes and their prisoners for reconstructing solution
                 if not hasattr(self, "reduced_away"):
                     self.reduced_away = np.zeros_like(self.adj_matrix, bool)
+                    self.reduced_order = []
                 self.reduced_away[vert] = prisoners
+                self.reduced_order.append(vert)
                 break
 
+    def remaining_adj(self):
+        # adjacency (covered edges included) among the remaining vertices
+        remaining = self.adj_matrix.diagonal().astype(bool)
+        return self.unreduced.adj_matrix.astype(bool) & np.outer(remaining, remaining)
+
     def choose_nbrhood(self):
         # only compute for existing edges
         common_neighbors = self.common_neighbors[self.extant_edges_idx]
@@ -382,9 +398,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         if not hasattr(self, "reduced_away"):  # then rule_3 wasn't applied
             return the_cover
 
-        # add the reduced away vert to all covering cliques containing at least one of its prisoners
-        to_expand = np.flatnonzero(self.reduced_away.sum(1))
-        for vert in to_expand:
+        # add the reduced away vert to all covering cliques containing at
+        # least one of its prisoners, starting from the last one deleted
+        for vert in reversed(self.reduced_order):
             prisoners = self.reduced_away[vert]
             tiled_prisoners = np.tile(
                 prisoners, (len(the_cover), 1)
@@ -392,6 +408,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
             cliques_to_update_mask = (
                 np.logical_and(tiled_prisoners, the_cover).sum(1).astype(bool)
             )
+            # cliques from before vert was deleted can have nonneighbors
+            nonnbrs = np.logical_not(self.unreduced.adj_matrix[vert])
+            cliques_to_update_mask &= ~np.logical_and(nonnbrs, the_cover).any(1)
             the_cover[cliques_to_update_mask, vert] = 1
 
         return the_cover
-- 
2.43.0


From 3d0ed088b5450331645baa0c259f3e58b82c1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/31] fix: branch over cliques of the graph, not only of its
 uncovered edges

Otherwise the cover found can be larger than minimum.
---
 medil/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index 221e0f9..9f7e300 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -338,7 +338,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
         mask = common_neighbors[chosen_edge_idx].astype(bool)
 
-        chosen_nbrhood = self.adj_matrix.copy()
+        # covered edges still count, otherwise cliques are needlessly small
+        chosen_nbrhood = self.remaining_adj()
         chosen_nbrhood[~mask, :] = 0
         chosen_nbrhood[:, ~mask] = 0
         if chosen_nbrhood.sum() <= mask.sum():
-- 
2.43.0


From 1f22e523bed7c330e0f74038f9b983aff5590713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 04/31] fix: find_clique_min_cover never returns a partial
 cover

Stopping at a depth of 3 returned whatever was covered so far.  Now the
search is limited by the number of visited nodes, and completing the
cover greedily, with a warning, when the limit is reached.
---
 medil/ecc_algorithms.py | 47 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index eef16f1..4af4c7f 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -1,5 +1,7 @@
 """Implementations of edge clique clover finding algorithms."""
+import itertools
 import subprocess, os, shutil
+import warnings
 from collections import deque
 
 import numpy as np
@@ -44,6 +46,7 @@ def find_clique_min_cover(graph, verbose=False):
 
     num_cliques = 1
     the_cover = None
+    iteration = itertools.count(1)
     if True:  # verbose:
         # find bound for cliques in solution
         max_intersect_num = graph.num_vertices**2 // 4
@@ -59,7 +62,13 @@ def find_clique_min_cover(graph, verbose=False):
                     num_cliques, max_intersect_num
                 )
             )
-        the_cover = branch(graph, num_cliques, the_cover, iteration=0, iteration_max=3)
+        try:
+            the_cover = branch(
+                graph, num_cliques, the_cover, iteration, iteration_max=5000
+            )
+        except IterationLimit:
+            warnings.warn("Search cut short: the cover found may not be minimum.")
+            the_cover = greedy_cover(graph)
         num_cliques += 1
 
     return add_isolated_verts(the_cover)
@@ -82,9 +91,9 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
     the_cover : np.array
                 Biadjacency matrix representing (possibly partial) edge clique cover.
 
-    iteration: current iteration
+    iteration: iterator counting the nodes of the search tree visited so far
 
-    iteration_max: maximum number of iteration_max
+    iteration_max: maximum number of nodes to visit before giving up by raising `IterationLimit`
 
     Returns
     -------
@@ -93,7 +102,8 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
 
     """
 
-    iteration = iteration + 1
+    if next(iteration) > iteration_max:
+        raise IterationLimit
     branch_graph = graph.reducible_copy()
     # if the_cover is not None:
     #     print(the_cover)
@@ -133,10 +143,6 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
             else np.vstack((branch_graph.the_cover, clique))
         )
 
-        # print(iteration)
-        if iteration > iteration_max:
-            return branch_graph.the_cover
-
         the_cover_prime = branch(
             branch_graph,
             k_num_cliques - 1,
@@ -149,6 +155,31 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
     return None
 
 
+class IterationLimit(Exception):
+    """Raised by `branch()` if it doesn't finish within `iteration_max`."""
+
+
+def greedy_cover(graph):
+    """Helper function for `find_clique_min_cover()`.
+
+    Same reduction rules as in `branch()` but without ever backtracking,
+    so the result is a clique cover but not necessarily a minimum one.
+
+    """
+    graph = graph.reducible_copy()
+    graph.reduzieren(np.inf)
+    while graph.num_edges > 0:
+        clique_nodes = max(max_cliques(graph.choose_nbrhood()), key=len)
+        clique = np.zeros((1, graph.unreduced.num_vertices), dtype=int)
+        clique[0, clique_nodes] = 1
+        graph.the_cover = (
+            clique if graph.the_cover is None else np.vstack((graph.the_cover, clique))
+        )
+        graph.cover_edges()
+        graph.reduzieren(np.inf)
+    return graph.reconstruct_cover(graph.the_cover)
+
+
 def max_cliques(nbrhood):
     """Adaptation of NetworkX code for finding all maximal cliques.
 
-- 
2.43.0


From f03d793d0cd89410721d0a965722dc427399915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 05/31] fix: find_clique_min_cover accepts graphs without ones
 on the diagonal

Estimated UDGs have zeros there, as do networkx adjacency matrices.
---
 medil/ecc_algorithms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 4af4c7f..82526c2 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -37,12 +37,14 @@ def find_clique_min_cover(graph, verbose=False):
     :cite:`Gramm_2009`.
 
     """
+    graph = np.array(graph, dtype=int)  # copy, as the diag is set to 1
+    np.fill_diagonal(graph, 1)
     graph = UndirectedDependenceGraph(graph, verbose)
     try:
         graph.make_aux()
     except ValueError:
         print("The input graph doesn't appear to have any edges!")
-        return graph.adj_matrix
+        return graph.adj_matrix.astype(bool)
 
     num_cliques = 1
     the_cover = None
-- 
2.43.0


From 60d58b6e5b08545353f7a5a51c74e1e28b8588dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 06/31] fix: find_heuristic_1pc on graphs not covered by its
 independent set

The set of uncovered edges was one of (unhashable) arrays.
---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 82526c2..0ef3a1c 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -279,7 +279,7 @@ def find_heuristic_1pc(graph):
 
     uncovered_edges = deque(
         {
-            edge
+            (edge[0], edge[1])
             for edge in np.argwhere(np.triu(graph, 1))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
         }
-- 
2.43.0


From 74a04e8508c5cef86ee0e56d56e5ba0265eb31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 07/31] fix: dcov sums over all entries of the centered
 distance matrices

It left out the lower triangles and diagonals, thus returning less than
half of the (squared) sample distance covariance, possibly negative.
---
 medil/independence_testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index dd9f1ac..c1dde2a 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -27,6 +27,7 @@ def dcov(samples):
     num_samps, num_feats = samples.shape
     num_pairs = num_samps * (num_samps - 1) // 2
     dists = np.zeros((num_feats, num_pairs))
+    diags = np.zeros((num_feats, num_samps))
     d_bars = np.zeros(num_feats)
     # compute doubly centered distance matrix for every feature:
     for feat_idx in range(num_feats):
@@ -37,10 +38,11 @@ def dcov(samples):
         # doubly centered:
         d_bar = d.mean()
         d -= t(d.mean(0), (n, 1)) + t(d.mean(1), (n, 1)).T - t(d_bar, (n, n))
+        diags[feat_idx] = d.diagonal()
         d = squareform(d, checks=False)  # ignore assymmetry due to numerical error
         dists[feat_idx] = d
         d_bars[feat_idx] = d_bar
-    return dists @ dists.T / num_samps**2, d_bars
+    return (2 * dists @ dists.T + diags @ diags.T) / num_samps**2, d_bars
 
 
 def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
-- 
2.43.0


From 884a89438f4463a364d5d082184b90cea90eafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/31] fix: xicorr ranks tied values as in its definition

With average ranks (instead of max, as in the R implementation), xi was
far from 0 for independent variables with ties.
---
 medil/independence_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index c1dde2a..d1a0259 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -107,8 +107,8 @@ def _xicorr(x: npt.NDArray[np.float64], y: npt.NDArray[np.float64]) -> _XiCorr:
     # https://github.com/cran/XICOR/blob/master/R/calculateXI.R
     n = x.size
     PI = rankdata(x, method="average")
-    fr = rankdata(y, method="average") / n
-    gr = rankdata(-y, method="average") / n
+    fr = rankdata(y, method="max") / n
+    gr = rankdata(-y, method="max") / n
     cu = np.mean(gr * (1 - gr))
     A1 = np.abs(np.diff(fr[np.argsort(PI, kind="quicksort")])).sum() / (2 * n)
     xi = 1.0 - A1 / cu
-- 
2.43.0


From ad92b36ef0809556dd70bdd4321baecd3fba8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/31] fix: estimated UDG of GaussianMCM doesn't depend on the
 units of measurement

The BIC criterion is about the squared correlation, not cov * corr.
---
 medil/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..53bf87c 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -118,9 +118,8 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        cov = np.cov(self.dataset, rowvar=False)
         corr = np.corrcoef(self.dataset, rowvar=False)
-        inner_numerator = 1 - cov * corr  # should never be <= 0?
+        inner_numerator = 1 - corr**2  # only <= 0 for collinear variables
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
-- 
2.43.0


From 3691c8f10df90b904b33666ef07c75cc6fb67a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 10/31] fix: error variances fitted by GaussianMCM are not
 negative

Sampling from such a model silently used their absolute values.
---
 medil/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 53bf87c..40a8f5a 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -98,7 +98,10 @@ class GaussianMCM(MedilCausalModel):
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
             ).sum()
 
-        result = minimize(_objective, np.ones(num_weights + num_err_vars))
+        bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
+        result = minimize(
+            _objective, np.ones(num_weights + num_err_vars), bounds=bounds
+        )
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
 
-- 
2.43.0


From 9c17416a1e487dd8b9cb80f33495ff5fb25dc8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 11/31] fix: GaussianMCM fits datasets of any scale

For data in small (or very large) units of measurement, the optimization
stopped far from the optimum, without a warning.
---
 medil/models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 40a8f5a..f7f6199 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -82,7 +82,10 @@ class GaussianMCM(MedilCausalModel):
 
         self.parameters.error_means = self.dataset.mean(0)
 
-        cov = np.cov(self.dataset, rowvar=False)
+        # the optimizer's tolerances are only suitable for data of about unit scale
+        std = self.dataset.std(0).mean()
+        scale = 10.0 ** np.round(np.log10(std)) if std > 0 else 1.0
+        cov = np.cov(self.dataset / scale, rowvar=False)
 
         num_weights = self.biadj.sum()
         num_err_vars = self.biadj.shape[1]
@@ -105,10 +108,10 @@ class GaussianMCM(MedilCausalModel):
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
 
-        self.parameters.error_variances = result.x[num_weights:]
+        self.parameters.error_variances = result.x[num_weights:] * scale**2
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights]
+        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights] * scale
 
         return self
 
-- 
2.43.0


From 2d8791caef2834b59853996df235748f1a4e2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 12/31] fix: sample.mcm draws the structure from the given rng,
 too

---
 medil/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..c27c8c4 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,7 +14,7 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
         mcm = GaussianMCM(biadj=biadj)
         params = mcm.parameters
-- 
2.43.0


From 8890cb4c1304c6282e743dc10eeaa3d1805ed349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 13/31] fix: permutation distances don't truncate true weights
 to integers

This happened if the predicted ones were an integer array.
---
 medil/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 7784dcb..a7604f4 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -53,7 +53,7 @@ def recover_ug(biadj_mat):
 
 
 def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, dtype=np.result_type(predicted_W, true_W))
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
@@ -75,7 +75,7 @@ def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
 
 
 def min_perm_squared_l2_dist_abs(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, dtype=np.result_type(predicted_W, true_W))
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
-- 
2.43.0


From a9df13238feb1b1d886b8fded483a9c9f18061d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 14/31] fix: names missing from visualize

show_obs_adj_mat and show_pairwise_plot always raised NameError.
---
 medil/visualize.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/medil/visualize.py b/medil/visualize.py
index a59f5ce..7c2051e 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -1,5 +1,6 @@
 """ Create and display various graphs, plots, and visualizations."""
 import numpy as np
+import pandas as pd
 import matplotlib.pyplot as plt
 import seaborn as sns
 import networkx as nx
@@ -86,6 +87,14 @@ def show_dag(biadj_mat):
     plt.show()
 
     
+# %%
+def get_adj_from_incidence(incidence_mat):
+
+    incidence_mat = np.asarray(incidence_mat, dtype=int)
+
+    return (incidence_mat.T @ incidence_mat).astype(bool)
+
+
 # %%
 def get_dag_from_biadj(biadj_mat):
 
-- 
2.43.0


From f00887054ffc9b4a000eda753e0f3d97fdca077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 15/31] fix: training.log is written inside of the given path

Without a trailing slash, it was written next to it.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index f7f6199..d095788 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -185,7 +185,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From bdf2073663235ea4b8f2b031410da1bf915b5db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 16/31] fix: NCFA training is determined by the seed

Only NumPy's generator was seeded, though PyTorch's is the one used.
---
 medil/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/models.py b/medil/models.py
index d095788..e2ab94b 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -208,6 +208,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         valid_loader = self._data_loader(valid_split)
 
         np.random.seed(self.seed)
+        torch.manual_seed(self.seed)
 
         model_recon, loss_recon, error_recon = self._train_vae(
             train_loader, valid_loader
-- 
2.43.0


From 9d9e96d58601897e10787864fe9d624a419b52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 17/31] fix: NCFA trains in training mode in every epoch

After the first validation, the latents weren't sampled anymore.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index e2ab94b..f6ccda2 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -279,12 +279,12 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
             self.log(f"Training on epoch {idx}...")
+            model.train()  # as validation sets evaluation mode
             train_lb, train_er, nbatch = 0.0, 0.0, 0
 
             for x_batch, _ in train_loader:
-- 
2.43.0


From fa79352630d8ed86cd97e477ba762ea7c0a6671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 18/31] fix: NCFA standardizes the data for explicit splits,
 too

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index f6ccda2..07fba92 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -201,8 +201,8 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
                 standardized, train_size=0.7, random_state=self.seed
             )
         else:
-            train_split = dataset[split_idcs[0]]
-            valid_split = dataset[split_idcs[1]]
+            train_split = standardized[split_idcs[0]]
+            valid_split = standardized[split_idcs[1]]
 
         train_loader = self._data_loader(train_split)
         valid_loader = self._data_loader(valid_split)
-- 
2.43.0


From 876c197dfac684a2f1189f5ab6968d1831ec4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 19/31] fix: hidden layers of the decoder are trained

Layers in a plain dict aren't registered as submodules, so the optimizer
didn't know about their parameters.
---
 medil/vae.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/medil/vae.py b/medil/vae.py
index ba9677d..96a6836 100644
--- a/medil/vae.py
+++ b/medil/vae.py
@@ -94,22 +94,26 @@ class Decoder(Block):
         hidden_blocks = [hidden_block for _ in range(num_meas)]
         hidden_mask = torch.block_diag(*hidden_blocks)
 
-        self.mean_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
-        self.cov_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
+        self.mean_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
+        self.cov_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
 
         output_block = torch.ones(1, width_per_meas)
         output_blocks = [output_block for _ in range(num_meas)]
-- 
2.43.0


From 3de66c4f3eac914982ffdc2a9cbe24a22aece684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 20/31] fix: Gaussian log-likelihood in the ELBO uses the log
 determinant

With the determinant itself it's not a bound on the log-likelihood.
---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 07fba92..a3faa2c 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -402,7 +402,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
         diff = x - x_recon
         recon_loss = torch.sum(
-            torch.det(cov)
+            torch.logdet(cov)
             + torch.diagonal(
                 torch.mm(
                     torch.mm(diff, torch.inverse(cov)), torch.transpose(diff, 0, 1)
@@ -446,7 +446,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         diff = x - x_recon
         if weighted:
             error = torch.sum(
-                torch.det(cov)
+                torch.logdet(cov)
                 + torch.diagonal(
                     torch.mm(
                         torch.mm(diff, torch.inverse(cov)), torch.transpose(diff, 0, 1)
-- 
2.43.0


From 605abf72e3160376cef3c5a32150d24a4e8c2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 21/31] fix: DevMedil can be sampled after fitting

The estimates weren't stored under the names used by sample().
---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index a3faa2c..fbca047 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -525,6 +525,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
@@ -579,6 +580,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
-- 
2.43.0


From 5ee0eb1282a8e59474a763963c05085f08f8bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 22/31] fix: error variances of DevMedil are nonnegative in
 objective and estimate

Otherwise the estimates could be negative (mle) or, due to the absolute
value being taken only afterwards, far from the optimum (lse).
---
 medil/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index fbca047..161454c 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -499,7 +499,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_mle_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             Sigma = self.compute_sigma(W, D)
             Sigma_inv = np.linalg.inv(Sigma)
@@ -524,7 +524,7 @@ class DevMedil(MedilCausalModel):
         result = minimize(penalized_mle_loss, initial_W_and_D, method="BFGS")
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
-        self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
         self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
@@ -562,7 +562,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_lse_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
             # nuclear norm for the first penalty term
-- 
2.43.0


From 7cc231b7b5baaa2cf4259b40a727bff9f31479ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 23/31] fix: biadjacency matrices of 0s and 1s aren't used as
 indices

E.g., the identity as an integer array led to nonzero weights off the
diagonal; most others led to an exception.
---
 medil/models.py | 1 +
 medil/sample.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index 161454c..07c490e 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -79,6 +79,7 @@ class GaussianMCM(MedilCausalModel):
         self.dataset = dataset
         if self.biadj.size == 0:
             self._compute_biadj()
+        self.biadj = self.biadj.astype(bool)  # as it is used as a mask
 
         self.parameters.error_means = self.dataset.mean(0)
 
diff --git a/medil/sample.py b/medil/sample.py
index c27c8c4..dfea159 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -15,6 +15,7 @@ def mcm(
 ) -> GaussianMCM:
     if biadj.size == 0:
         biadj = _biadj(rng=rng, **kwargs)
+    biadj = biadj.astype(bool)  # as it is used as a mask
     if parameterization == "Gaussian":
         mcm = GaussianMCM(biadj=biadj)
         params = mcm.parameters
-- 
2.43.0


From fe384834c9b1a9bcc22ece02173f7f09cbf6b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 24/31] fix: resetting a reduced graph forgets the vertices
 deleted by rule_3

---
 medil/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index 9f7e300..79e4dd7 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -168,7 +168,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
             self.reduced_order = udg.reduced_order.copy()
 
     def reset(self):
-        self.__init__(self.unreduced)
+        unreduced = self.unreduced
+        self.__dict__.clear()  # also forget vertices deleted by rule_3
+        self.__init__(unreduced)
 
     def reduzieren(self, k_num_cliques):
         # reduce by first applying rule 1 and then repeatedly applying
-- 
2.43.0


From 17839d8b46e2023534acecf81054b73688471b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 25/31] fix: GaussianMCM doesn't stop fitting far from the
 minimum

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 07c490e..b467fd1 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -104,8 +104,8 @@ class GaussianMCM(MedilCausalModel):
 
         bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
         result = minimize(
-            _objective, np.ones(num_weights + num_err_vars), bounds=bounds
-        )
+            _objective, np.ones(num_weights + num_err_vars), bounds=bounds, tol=1e-11
+        )  # with the default tolerance, it sometimes stops far from any minimum
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
 
-- 
2.43.0


From 1e017093b04fd4458ca2e2a79b961f49a1d5da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 26/31] fix: structural Hamming distances don't overflow for
 small integer types

---
 medil/evaluate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index a7604f4..17ab7a3 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -45,7 +45,9 @@ def recover_ug(biadj_mat):
     ug: the recovered undirected graph
     """
 
-    # get the undirected graph from the directed graph
+    # get the undirected graph from the directed graph; as booleans, because
+    # counts of shared latents can overflow small integer types
+    biadj_mat = biadj_mat.astype(bool)
     ug = biadj_mat.T @ biadj_mat
     np.fill_diagonal(ug, False)
 
-- 
2.43.0


From 4abe2e0a5eddd317c84f63e26587fb42f30e68c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 27/31] fix: a failed refit of a GaussianMCM doesn't change its
 error means

---
 medil/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index b467fd1..5a9a509 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -81,8 +81,6 @@ class GaussianMCM(MedilCausalModel):
             self._compute_biadj()
         self.biadj = self.biadj.astype(bool)  # as it is used as a mask
 
-        self.parameters.error_means = self.dataset.mean(0)
-
         # the optimizer's tolerances are only suitable for data of about unit scale
         std = self.dataset.std(0).mean()
         scale = 10.0 ** np.round(np.log10(std)) if std > 0 else 1.0
@@ -109,6 +107,9 @@ class GaussianMCM(MedilCausalModel):
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
 
+        # only now, so that the parameters stay consistent if anything fails
+        self.parameters.error_means = self.dataset.mean(0)
+
         self.parameters.error_variances = result.x[num_weights:] * scale**2
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-- 
2.43.0


From 176b7b8fb2560ca0221520112371be59f767dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 28/31] fix: distance correlation test loses all precision for
 data far from the origin

The fast algorithm computing the distance covariance subtracts large
numbers, so that independent variables with an offset of 1e6 to 1e7
standard deviations were found dependent (p-value 0) or made the
statistic infinite. Center the variables, which changes no distance.
---
 medil/independence_testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index d1a0259..70368ef 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -79,7 +79,9 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
 
 def dcor_test(x_y):
     x, y = x_y
-    return distance_correlation_t_test(x, y).pvalue
+    # distances are invariant to location, but not the rounding errors
+    # made in computing them
+    return distance_correlation_t_test(x - np.mean(x), y - np.mean(y)).pvalue
 
 
 def xicor_test(x_y):
-- 
2.43.0


From 83732cb8143fe351fd660620e1d8b9af70310a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 29/31] fix: xicorr of unsigned integers (negating them wraps
 around)

---
 medil/independence_testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index 70368ef..1b98d37 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -110,7 +110,7 @@ def _xicorr(x: npt.NDArray[np.float64], y: npt.NDArray[np.float64]) -> _XiCorr:
     n = x.size
     PI = rankdata(x, method="average")
     fr = rankdata(y, method="max") / n
-    gr = rankdata(-y, method="max") / n
+    gr = (n + 1 - rankdata(y, method="min")) / n  # as -y wraps if unsigned
     cu = np.mean(gr * (1 - gr))
     A1 = np.abs(np.diff(fr[np.argsort(PI, kind="quicksort")])).sum() / (2 * n)
     xi = 1.0 - A1 / cu
-- 
2.43.0


From db055e50a9c7aa93c4eb63fe6dda5f60f573adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 30/31] fix: least squares fits of latents with the same
 children end in a saddle point

---
 medil/models.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 5a9a509..7e2dcc4 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -100,9 +100,19 @@ class GaussianMCM(MedilCausalModel):
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
             ).sum()
 
+        # latents with the same children need different starting points
+        # or else their weights would always stay the same
+        start_weights = np.ones(self.biadj.shape)
+        repeated = np.ones(len(self.biadj), bool)
+        repeated[np.unique(self.biadj, axis=0, return_index=True)[1]] = False
+        start_weights[repeated] += np.random.default_rng(0).uniform(
+            -0.1, 0.1, start_weights[repeated].shape
+        )
+        start = np.concatenate([start_weights[self.biadj], np.ones(num_err_vars)])
+
         bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
         result = minimize(
-            _objective, np.ones(num_weights + num_err_vars), bounds=bounds, tol=1e-11
+            _objective, start, bounds=bounds, tol=1e-11
         )  # with the default tolerance, it sometimes stops far from any minimum
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
-- 
2.43.0


From 879be9a30ca1112be175e9ffa40ebf372dc64747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:13 +0000
Subject: [PATCH 31/31] fix: reported upper bound on the number of cliques can
 be below the minimum

---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 0ef3a1c..76ed079 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -54,7 +54,7 @@ def find_clique_min_cover(graph, verbose=False):
         max_intersect_num = graph.num_vertices**2 // 4
         if max_intersect_num < graph.num_edges:
             p = graph.n_choose_2(graph.num_vertices) - graph.num_edges
-            t = int(np.sqrt(p))
+            t = int((1 + np.sqrt(1 + 4 * p)) / 2)  # largest with t**2 - t <= p
             max_intersect_num = p + t if p > 0 else 1
         print("solution has at most {} cliques.".format(max_intersect_num))
     while the_cover is None:
-- 
2.43.0

