From fa5e8d140246be2fb28c09334cc38d8e8cfd2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 01/32] fix: accept list and tuple boundaries in RHG_graph

---
 flamingpy/codes/surface_code.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 0750d83..34deb63 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -167,6 +167,9 @@ def RHG_graph(
     # Dealing with boundaries.
     if isinstance(boundaries, str):
         boundaries = str_to_bound(boundaries)
+    else:
+        # Allow any list-type input; arrays are required for the comparisons below.
+        boundaries = np.asarray(boundaries)
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From d0bb34fc2a8c888c55c37afe51595527034c5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 02/32] fix: do not truncate fractional weights with the
 rustworkx backends

---
 flamingpy/codes/graphs/stabilizer_graph.py |  2 +-
 flamingpy/decoders/mwpm/matching.py        | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index f1c4761..898f939 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -496,7 +496,7 @@ class RxStabilizerGraph(StabilizerGraph):
     def _path_weight(self, path):
         weight = 0
         for e in range(len(path) - 1):
-            weight += int(rx_weight_fn(self.graph.get_edge_data(path[e], path[e + 1])))
+            weight += self.graph.get_edge_data(path[e], path[e + 1])["weight"]
         return weight
 
     def _all_path_nodes(self, paths):
diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 15f6065..1452baa 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -237,19 +237,21 @@ class RxEdgePayload:
         path: the nodes in the stabilizer graph along the minimum-weight-path.
     """
 
-    weight: int
+    weight: Union[int, float]
     path: List[Node]
 
 
 class RxMatchingGraph(MatchingGraph):
     """A matching graph backed by rustworkx.
 
-    The edge weights must be of type int.
+    The edge weights can be either of type int or float. Since rustworkx only
+    supports integer weights for matching, floats are scaled and rounded
+    when the matching is computed.
 
     See the MatchingGraph class for more details.
     """
 
-    Weight = int
+    Weight = Union[int, float]
 
     def __init__(self, ec, code=None):
         self.graph = rx.PyGraph(multigraph=False)
@@ -284,10 +286,13 @@ class RxMatchingGraph(MatchingGraph):
         return self.graph.get_edge_data(self.node_index(edge[0]), self.node_index(edge[1])).path
 
     def min_weight_perfect_matching(self) -> List[Edge]:
+        # The matching weights must be integers: rescale floats before rounding.
+        only_ints = all(isinstance(edge.weight, (int, np.integer)) for edge in self.graph.edges())
+        scale = 1 if only_ints else 2**40
         matches = rx.max_weight_matching(
             self.graph,
             max_cardinality=True,
-            weight_fn=lambda edge: -edge.weight,
+            weight_fn=lambda edge: -round(scale * edge.weight),
         )
         return [(self.index_to_node[pair[0]], self.index_to_node[pair[1]]) for pair in matches]
 
-- 
2.43.0


From 913ba818b4b2b2fbb8501276c3ea6d1eb1adbeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 03/32] fix: do not grow odd erasure clusters that already
 reach the boundary

The union-find decoder grew such clusters by half an edge, so two of them could
merge across the code and apply a logical operator for an erasure below the distance.
---
 flamingpy/decoders/unionfind/algos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 11e568c..8402799 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -125,7 +125,8 @@ def initialize_cluster_trees(stabilizer_graph):
                     ),
                 ),
             )
-        if cluster_root.parity:
+        # Clusters that reach the boundary can be neutralized without growing.
+        if cluster_root.parity and not cluster_root.boundary:
             odd_clusters += [cluster_root]
         cluster_trees += [cluster_root]
 
-- 
2.43.0


From d71885776683cecb38d8edf674cab475ba7f6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 04/32] fix: honour replace_undefined='bin_location' in
 Z_err_cond for all input shapes

The scalar branch returned the string itself, the array branch failed when only
some denominators vanish or when a scalar variance meets an array of outcomes, and
used the whole outcome instead of its position within the bin.
---
 flamingpy/cv/gkp.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 4cac738..d5f1365 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -129,11 +129,10 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         denominator = np.sum(ex_val(np.arange(-n_max, n_max)))
         if denominator != 0:
             return numerator / denominator
-        else:
-            return replace_undefined
+        if replace_undefined == "bin_location":
+            return np.abs(frac) / np.sqrt(np.pi)
+        return replace_undefined
     else:
-        # Initiate a list with length same as var
-        error = np.zeros(np.shape(var))
 
         def ex(z, n):
             return np.exp(-((z - n * np.sqrt(np.pi)) ** 2) / var)
@@ -141,21 +140,16 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max, n_max)], 0)
         denominator = np.sum([ex(val, i) for i in range(-n_max, n_max)], 0)
         # Dealing with 0 denonimators
-        where_0 = np.where(denominator == 0)[0]
-        the_rest = np.delete(np.arange(np.size(var)), where_0)
-        error = np.empty(np.size(var))
+        numerator = np.atleast_1d(numerator)
+        denominator = np.atleast_1d(denominator)
+        is_0 = denominator == 0
+        error = np.empty(numerator.shape)
         # For 0 denominator, populate error according to replace_undefined
-        if len(where_0):
-            if replace_undefined == "bin_location":
-                zero_dem_result = np.abs(val) / np.sqrt(np.pi)
-            else:
-                zero_dem_result = replace_undefined
-            error[where_0] = np.full(len(where_0), zero_dem_result)
-        if np.size(var) == 1:
-            numerator = np.array([numerator])
-            denominator = np.array([denominator])
-        if the_rest.size > 0:
-            error[the_rest] = numerator[the_rest] / denominator[the_rest]
-        if np.size(var) == 1:
-            error = error[0]
+        if replace_undefined == "bin_location":
+            error[is_0] = np.broadcast_to(np.abs(frac) / np.sqrt(np.pi), is_0.shape)[is_0]
+        else:
+            error[is_0] = replace_undefined
+        error[~is_0] = numerator[~is_0] / denominator[~is_0]
+        if error.size == 1:
+            error = error.flat[0]
         return error
-- 
2.43.0


From efa3a97cde8708fdbd5dd6b9143dab527d59d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 05/32] fix: make SCZ_mat and SCZ_apply honour sparse matrices
 and real weights

SCZ_mat(csr_matrix, sparse=False) returned a sparse matrix, and the block mode of
SCZ_apply truncated real-weighted sums when the quadratures were integers.
---
 flamingpy/cv/ops.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 225545a..ad21f62 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -29,8 +29,8 @@ def invert_permutation(p):
 
 
 def issparse(array):
-    """Check if an array is sparse. Backwards-compatible with old SciPy versions."""
-    return isinstance(array, getattr(sp, "sparray", sp.coo_matrix))
+    """Check if an array (or matrix) is sparse."""
+    return sp.issparse(array)
 
 
 def SCZ_mat(adj, sparse=True):
@@ -85,9 +85,7 @@ def SCZ_apply(adj, quads, one_shot=True):
         else:
             old_qs = quads[:N]
             old_ps = quads[N:]
-            new_quads = np.empty(2 * N, quads.dtype)
-            new_quads[:N] = old_qs
-            new_quads[N:] = adj.dot(old_qs) + old_ps
+            new_quads = np.concatenate([old_qs, adj.dot(old_qs) + old_ps])
     if len(quads.shape) == 2:
         if one_shot:
             SCZ = SCZ_mat(adj)
-- 
2.43.0


From 99472b1b646cc85cb5ac0c4b6a48b8aace27dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 06/32] fix: regenerate EGraph adjacency matrices of the other
 format and after removals

adj_generator returned the cached matrix whatever format was asked for (so
is_lc_equivalent failed after a sparse call) and raised KeyError when removing a
qubit had left a gap in the indices.
---
 flamingpy/codes/graphs/egraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cd9b80e..8793b1d 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -164,11 +164,12 @@ class EGraph(nx.Graph):
         self.index_generator(). This function demands that the indices
         match.
         """
-        if self.adj_mat is not None:
+        if self.adj_mat is not None and isinstance(self.adj_mat, np.ndarray) != sparse:
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-        sorted_nodes = [self.to_points[i] for i in range(self.order())]
+        # Removing qubits may leave gaps in the indices.
+        sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
         # TODO: Reconsider data type for more intricate weights.
         if sparse:
             adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
-- 
2.43.0


From 457843db3c0f1b2a07596c3cfafcb8ae12b36eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/32] fix: resolve the neighbours before adding a qubit to an
 EGraph

Integer neighbours were looked up in indices generated after the insertion, unknown
neighbours were half-added, a rejected call left the qubit behind, and indices could
not be generated for qubits outside the macronodes or on emptied graphs.
---
 flamingpy/codes/graphs/egraph.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 8793b1d..a75ac76 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -149,6 +149,8 @@ class EGraph(nx.Graph):
             points = []
             for vertex in sorted_macro:
                 points += self.macro_to_micro[vertex]
+            # Qubits that do not belong to a macronode come last.
+            points += sorted(set(self.nodes()).difference(points))
             ind_dict = {points[i]: i for i in range(N)}
         self.to_indices = ind_dict
         self.to_points = {index: point for point, index in ind_dict.items()}
@@ -267,13 +269,8 @@ class EGraph(nx.Graph):
                 "Cannot add a qubit to macronode because current EGraph is not macronized."
             )
 
-        # Add node
-        self.add_node(qubit)
-
-        # Update dictionaries when adding qubit
-        self._update_attributes_add_qubit(qubit, add_to_macronode)
-
-        # Update neighbors
+        # Find the neighbors before changing the graph
+        neighborhood = []
         if neighbors is not None:
             if len(neighbors) != 0:
                 if isinstance(neighbors[0], int):
@@ -288,8 +285,18 @@ class EGraph(nx.Graph):
                         f" {type(neighbors[0])} was given. Type int can only be used when "
                         "macro is False."
                     )
+                missing = [tup for tup, _ in neighborhood if tup not in self]
+                if missing:
+                    raise ValueError(f"Could not find the neighbors {missing} in the graph.")
 
-                self.add_edges_from(neighborhood)
+        # Add node
+        self.add_node(qubit)
+
+        # Update dictionaries when adding qubit
+        self._update_attributes_add_qubit(qubit, add_to_macronode)
+
+        # Update neighbors
+        self.add_edges_from(neighborhood)
 
         self.adj_mat = None
 
@@ -307,7 +314,7 @@ class EGraph(nx.Graph):
 
         # Update dictionaries
         if self.to_indices is not None:
-            new_index = max(self.to_points) + 1
+            new_index = max(self.to_points, default=-1) + 1
             self.to_points[new_index] = qubit
             self.to_indices[qubit] = new_index
 
-- 
2.43.0


From 9e576a0791d35973a75429175f655a19726f8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 08/32] fix: find every local Clifford equivalence of graph
 states

The search skipped single basis vectors of the solution space and, for disconnected
graphs, pairs of basis vectors are not exhaustive, so equivalent graphs were reported
as inequivalent. Solve each connected component separately.
---
 flamingpy/utils/linalg.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index cf76e24..7dc9c5e 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -1,6 +1,7 @@
 """Helper functions for linear algebra used for testing LC equivalence."""
 
 import numpy as np
+from scipy.sparse.csgraph import connected_components
 
 
 def reduce_RREform_mod2(M, max_cols=None):
@@ -103,8 +104,8 @@ def nullspace_basis(M):
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
 
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
+     Search through basis vectors of the nullspace and sums of pairs of them
+     and see if any satisfy the determinant constraints. If no solution is found,
      output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
 
@@ -125,13 +126,13 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
-    # search through distinct pairs of basis vectors
+    # search through basis vectors (i = j) and distinct pairs of them
     for i in range(d):
-        for j in range(i):
+        for j in range(i + 1):
             # boolean for checking solution constraints
             sat = True
             # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
+            sol = np.vectorize(lambda x: x % 2)(basis[i] if i == j else np.add(basis[i], basis[j]))
             # store potential solution
             sols.append(sol)
             for k in range(n):
@@ -270,12 +271,24 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # local complementations never join or split connected components
+    components = [
+        {tuple(np.nonzero(labels == k)[0]) for k in range(n_comps)}
+        for n_comps, labels in (connected_components(G), connected_components(H))
+    ]
+    solution_vector = np.zeros((4, len(G)), dtype=int) if components[0] == components[1] else None
+    for component in components[0] if solution_vector is not None else []:
+        inds = np.array(component)
+        # construct system of constraints for two adjacency matrices G and H
+        system = lc_constraint_system(G[np.ix_(inds, inds)], H[np.ix_(inds, inds)])
+        # construct nullspace basis of system of constraints
+        nullspace = nullspace_basis(system)
+        # search nullspace for solution vector
+        sub_solution = search_nullspace(nullspace)
+        if sub_solution is None:
+            solution_vector = None
+            break
+        solution_vector[:, inds] = sub_solution.reshape(4, -1)
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
@@ -285,11 +298,11 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
     # tensor factors
     elif clifford_form == "tensor":
         equivalent = True
-        clifford_output = clifford_vec_to_tensors(solution_vector)
+        clifford_output = clifford_vec_to_tensors(solution_vector.flatten())
     # if graphs are equivalent and clifford_form == "global", convert clifford_output to
     # global form
     elif clifford_form == "global":
         equivalent = True
-        clifford_output = clifford_vec_to_global(solution_vector)
+        clifford_output = clifford_vec_to_global(solution_vector.flatten())
     # return equivalence and clifford_output
     return equivalent, clifford_output
-- 
2.43.0


From 289f19cd648245530aeb3b92d61a10406a27e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 09/32] fix: keep macronode displacements exact and padding
 clear of micronodes

---
 flamingpy/codes/graphs/egraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index a75ac76..bc3884b 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -67,7 +67,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
         distance = np.linalg.norm(direction_vec)
         periodic_flip = -1 if can_graph.edges[edge].get("periodic") else 1
         shortened_vec = periodic_flip * disp * direction_vec / distance
-        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 2)
+        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 10)
         new_point_1 = tuple(old_point_1 + shortened_vec)
         new_point_2 = tuple(old_point_2 - shortened_vec)
         macro_graph.add_node(new_point_1, **can_graph.nodes[edge[0]])
@@ -89,7 +89,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
                 n_new = 4 - macro_size
                 for i in range(n_new):
                     new_node = list(node)
-                    new_node[i] = new_node[i] + 0.05
+                    new_node[i] = new_node[i] + disp / 2
                     new_node_tup = tuple(new_node)
                     macro_graph.add_node(new_node_tup, **can_graph.nodes[node])
                     macro_dict[node].append(new_node_tup)
-- 
2.43.0


From ae384931ba443e848f5cb71e1393d7be45422e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 10/32] fix: sample GKP indices afresh on every application of
 CV noise

---
 flamingpy/noise/cv.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1103b05..ffdc2ee 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -92,7 +92,10 @@ class CVLayer:
         # Set some noise model parameters.
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
-        self.states = supplied_states or {"p": np.empty(0, dtype=int)}
+        self.states = {"p": np.empty(0, dtype=int)}
+        # Copy the supplied indices, as self.states is updated with each noise sample.
+        if supplied_states:
+            self.states = {psi: np.array(inds, dtype=int) for psi, inds in supplied_states.items()}
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
@@ -307,7 +310,9 @@ class CVLayer:
         """Associate all indices not in self.states with GKP states."""
         used_inds = np.empty(0, dtype=int)
         for psi in self.states:
-            used_inds = np.concatenate([used_inds, self.states[psi]])
+            # Ignore the GKP indices of a previous noise sample.
+            if psi != "GKP":
+                used_inds = np.concatenate([used_inds, self.states[psi]])
         remaining_inds = list(set(range(self._N)) - set(used_inds))
         self.states["GKP"] = np.array(remaining_inds, dtype=int)
 
-- 
2.43.0


From b52b56b5718240c9c5d63e441b3a98c8e5219567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 11/32] fix: measure the syndrome of a CVLayer with two-step
 sampling

---
 flamingpy/noise/cv.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index ffdc2ee..7baaaea 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -190,6 +190,9 @@ class CVLayer:
         # Determine which means and covs to use for the probability distribution
         if updated_means is None:
             means = self._means_sampler(propagate=propagate, rng=rng)
+            # In the two-step order, only the measured quadratures are sampled.
+            if self._sampling_order == "two-step":
+                means = means[:N][inds] if quad == "q" else means[N:][inds]
         else:
             if quad == "q":
                 means = updated_means[:N][inds]
@@ -298,11 +301,7 @@ class CVLayer:
             N_inds = len(inds)
             covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)
             if self._perfect_inds:
-                inds_to_0 = set(inds).intersection(self._perfect_inds)
-                ind_arr = np.empty(len(inds_to_0), dtype=np.int64)
-                for i, perfect_ind in enumerate(inds_to_0):
-                    ind_arr[i] = (inds == perfect_ind).nonzero()[0][0]
-                covs[ind_arr] = 0
+                covs[np.isin(inds, self._perfect_inds)] = 0
 
         return covs
 
-- 
2.43.0


From 8bdd82f47d76858fef420acfaa793bcfb21f828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 12/32] fix: use the beamsplitter network supplied to
 CVMacroLayer

---
 flamingpy/noise/cv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 7baaaea..e7af0f4 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -378,8 +378,7 @@ class CVMacroLayer(CVLayer):
         # Instantiate the CVLayer parent class with the right noise model.
         super().__init__(macro_graph, delta=delta, sampling_order="two-step", **kwargs)
         self.reduced_graph = code.graph
-        if bs_network is None:
-            self.bs_network = splitter_symp()
+        self.bs_network = splitter_symp() if bs_network is None else bs_network
 
     def apply_noise(self, rng=default_rng()):
         """Reduce the macronode code lattice to the canonical code lattice.
-- 
2.43.0


From e0da6023dbc39c8727927f08175471c0874cdae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 13/32] fix: account for edge weights when reducing macronodes

---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index e7af0f4..fc8b620 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -606,7 +606,9 @@ class CVMacroLayer(CVLayer):
         for i in (1, 2, 3, 4):
             if types[i - 1] == "p":
                 num_p += 1
-                outcome -= Z_arr[i]
+                # The outcome propagates through a CZ gate of the weight of the edge.
+                micro = self._to_points[self.permuted_inds[j + i - 1]]
+                outcome -= macro_graph.edges[micro, neighbors[i - 1]].get("weight", 1) * Z_arr[i]
             if types[i - 1] == "GKP":
                 if delta > 0:
                     p_err += Z_err_cond(2 * delta, Z_arr[i], use_hom_val=True)
-- 
2.43.0


From bd598a09b6239a4a862b75aa2126606af4faf527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 14/32] fix: quote simulation arguments in the results file

---
 flamingpy/simulations.py | 46 ++++++++++++----------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 30852a0..5951d6c 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -16,6 +16,7 @@
 # pylint: disable=wrong-import-position,consider-using-with,unused-import
 
 import argparse
+import csv
 import sys
 import warnings
 import logging
@@ -155,43 +156,22 @@ def run_ec_simulation(
         # Create a CSV file if it doesn't already exist.
         try:
             file = open(file_name, "x", newline="", encoding="utf8")
-            file.write("code,")
-            for key in code_args:
-                file.write("%s," % (key))
-            file.write("noise,")
-            for key in noise_args:
-                file.write("%s," % (key))
-            file.write("decoder,")
-            for key in decoder_args:
-                file.write("%s," % (key))
-            file.write("errors,trials,current_time,simulation_time,mpi_size\n")
+            writer = csv.writer(file, lineterminator="\n")
+            writer.writerow(
+                ["code", *code_args, "noise", *noise_args, "decoder", *decoder_args]
+                + ["errors", "trials", "current_time", "simulation_time", "mpi_size"]
+            )
         # Open the file for appending if it already exists.
         except FileExistsError:
             file = open(file_name, "a", newline="", encoding="utf8")
-            # writer = csv.writer(file)
-        file.write("%s," % (code.__name__))
-        for value in code_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (noise.__name__))
-        for value in noise_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (decoder))
-        for key, value in decoder_args.items():
-            if key == "weight_opts":
-                file.write('"%s",' % (value))
-            else:
-                file.write("%s," % (value))
+            writer = csv.writer(file, lineterminator="\n")
         current_time = datetime.now().time().strftime("%H:%M:%S")
-        file.write(
-            "%i,%i,%s,%f,%i\n"
-            % (
-                errors,
-                trials,
-                current_time,
-                (simulation_stop_time - simulation_start_time),
-                mpi_size,
-            )
-        )
+        simulation_time = "%f" % (simulation_stop_time - simulation_start_time)
+        # Values that contain commas or quotes are quoted by the writer.
+        record = [code.__name__, *code_args.values(), noise.__name__, *noise_args.values()]
+        record += [decoder, *decoder_args.values()]
+        record += [errors, trials, current_time, simulation_time, mpi_size]
+        writer.writerow([str(value) for value in record])
         file.close()
 
 
-- 
2.43.0


From e554cbed41776f6cbc91fde23c7702d5e5c9a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 15/32] fix: draw a copy of the stabilizer graph instead of
 removing its nodes

---
 flamingpy/utils/viz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index b685e12..7820cfe 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -728,11 +728,13 @@ def draw_dec_graph(graph, label_edges=False, node_labels=None, title=""):
     if not isinstance(graph.graph, nx.Graph):
         raise ValueError("The graph must be implemented with the networkx backend.")
 
-    # Remove 'low' and 'high' nodes, which are not important for visualization.
+    # Leave out the 'low' and 'high' nodes, which are not important for visualization. They
+    # are removed from a copy, because decoding needs them in the original graph.
+    nx_graph = graph.graph.copy()
     if graph.__class__.__name__ == "NxStabilizerGraph":
-        graph.graph.remove_nodes_from({"low", "high"})
+        nx_graph.remove_nodes_from({"low", "high"})
 
-    graph = graph.graph
+    graph = nx_graph
     layout = nx.circular_layout(graph)
 
     fig, ax = plt.subplots()
-- 
2.43.0


From 8154e30f515cf98d2794b632d2acb59b06767405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 16/32] fix: plotly hover text without indices or without a
 label

---
 flamingpy/utils/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 7820cfe..2e78dc2 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -624,8 +624,8 @@ def _get_node_info(egraph, node, information="coordinates"):
         information = ["index"] + info_list
 
     # add index if desired
-    if "index" in information:
-        info_dict["index"] = egraph.to_indices[node]
+    if information is not None and "index" in information:
+        info_dict["index"] = egraph.index_generator()[node]
 
     # returning relevant information
     if information == "coordinates":
-- 
2.43.0


From 168d4f10e7cf07ad27fc6c1f9896569b6d6eb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 17/32] fix: report missing labels when a graph is drawn
 without a title

---
 flamingpy/utils/viz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 2e78dc2..c393131 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -551,6 +551,8 @@ def _plot_EGraph_nodes(ax, egraph, color_nodes, label, name, legend):
 
     if label and n_uncomputed > 0:
         message = "{} at {} node(s) have not yet been computed."
+        # Without a title, name the values that are missing after the label.
+        name = name or _get_title(True, label)
         print(message.format(name.lower(), n_uncomputed))
 
     # Plotting nodes legend
-- 
2.43.0


From a93387ee47acb397660b95d5a9d6a2cce1616ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 18/32] fix: plotly draws edges in their chosen colors and
 accepts matplotlib color names

---
 flamingpy/utils/viz.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index c393131..9cf02e1 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -412,7 +412,9 @@ def draw_EGraph_plotly(
     nodes = np.array(egraph.nodes)
     x_nodes, y_nodes, z_nodes = nodes[:, 0], nodes[:, 1], nodes[:, 2]
 
-    nodeColors = [_get_node_color(egraph, node, color_nodes) for node in egraph.nodes]
+    nodeColors = [
+        _to_plotly_color(_get_node_color(egraph, node, color_nodes)) for node in egraph.nodes
+    ]
     nodeInfo = [_get_node_info(egraph, node, information=label) for node in egraph.nodes]
 
     fig.add_traces(
@@ -443,7 +445,10 @@ def draw_EGraph_plotly(
         y_edges.extend([y0, y1, None])
         z_edges.extend([z0, z1, None])
 
-    edgeColors = [_get_edge_color(egraph, edge, color_edges) for edge in egraph.edges]
+    # The colors of a line are given per point, and every edge adds three points.
+    edgeColors = []
+    for edge in egraph.edges:
+        edgeColors += [_to_plotly_color(_get_edge_color(egraph, edge, color_edges) or "grey")] * 3
 
     fig.add_traces(
         go.Scatter3d(
@@ -451,9 +456,8 @@ def draw_EGraph_plotly(
             x=x_edges,
             y=y_edges,
             z=z_edges,
-            line=dict(color="black", width=1),
+            line=dict(color=edgeColors or "grey", width=1),
             mode="lines",
-            marker=dict(color=edgeColors),
             hoverinfo="none",
         )
     )
@@ -599,6 +603,12 @@ def _get_node_color(egraph, node, color_nodes):
     return color
 
 
+def _to_plotly_color(color):
+    """Return a color understood by plotly, which lacks some matplotlib names
+    (such as 'b')."""
+    return mpl.colors.to_hex(color) if mpl.colors.is_color_like(color) else color
+
+
 def _get_node_info(egraph, node, information="coordinates"):
     """Information to be displayed when hovering over a node based on
     ``information``
-- 
2.43.0


From 8fe839f03cc7aac7eb4013089633d4a7bc72b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 19/32] fix: peel long spanning forests without recursion

---
 flamingpy/decoders/unionfind/algos.py | 36 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 8402799..5ee5f4e 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -269,23 +269,25 @@ def trim_forest(spanning_forest, leaf, parity_dict, recovery):
     Returns:
         NoneType
     """
-    edges = list(spanning_forest.out_edges(leaf))
-    if edges:
-        edge = edges[0]
-    else:
-        return
-    edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
-    spanning_forest.remove_edge(edge[0], edge[1])
-    if edge[0] == leaf:
-        new_leaf = edge[1]
-    else:
-        new_leaf = edge[0]
-    if parity_dict[leaf] == 1:
-        recovery.add(edge_qubit_index)
-        parity_dict[leaf] = 0
-        parity_dict[new_leaf] ^= 1
-    if spanning_forest.degree(new_leaf) == 1:
-        trim_forest(spanning_forest, new_leaf, parity_dict, recovery)
+    while True:
+        edges = list(spanning_forest.out_edges(leaf))
+        if edges:
+            edge = edges[0]
+        else:
+            return
+        edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
+        spanning_forest.remove_edge(edge[0], edge[1])
+        if edge[0] == leaf:
+            new_leaf = edge[1]
+        else:
+            new_leaf = edge[0]
+        if parity_dict[leaf] == 1:
+            recovery.add(edge_qubit_index)
+            parity_dict[leaf] = 0
+            parity_dict[new_leaf] ^= 1
+        if spanning_forest.degree(new_leaf) != 1:
+            return
+        leaf = new_leaf
 
 
 def peeling(spanning_forest, parity_dict):
-- 
2.43.0


From 186e0d0a798981f5999aea564c7c5570653f3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 20/32] fix: keep the qubits of very large ring graphs distinct

---
 flamingpy/utils/graph_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flamingpy/utils/graph_states.py b/flamingpy/utils/graph_states.py
index 16a69c6..3a1f083 100644
--- a/flamingpy/utils/graph_states.py
+++ b/flamingpy/utils/graph_states.py
@@ -78,13 +78,15 @@ def ring_graph(n):
     if n == 1:
         ring_graph_state.add_node((0, 0, 0))
     else:
+        # Enough digits to tell the points of a large ring apart.
+        digits = max(5, len(str(n)) + 2)
         x, y = np.cos(0), np.sin(0)
         for i in range(1, n + 1):
             degs = 2 * np.pi * i / (n)
             x_next, y_next = np.cos(degs), np.sin(degs)
             edge = [
-                (float(round(x, 5)), float(round(y, 5)), 0),
-                (float(round(x_next, 5)), float(round(y_next, 5)), 0),
+                (float(round(x, digits)), float(round(y, digits)), 0),
+                (float(round(x_next, digits)), float(round(y_next, digits)), 0),
             ]
             ring_graph_state.add_edge(*edge)
             x, y = x_next, y_next
-- 
2.43.0


From 64399a523adface1c138d90764987847577fe092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 21/32] fix: reject boundary sequences of the wrong length in
 RHG_graph

---
 flamingpy/codes/surface_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 34deb63..0a02588 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -170,6 +170,8 @@ def RHG_graph(
     else:
         # Allow any list-type input; arrays are required for the comparisons below.
         boundaries = np.asarray(boundaries)
+    if boundaries.shape != (3,):
+        raise ValueError("boundaries must be a valid name or a sequence of three boundary types.")
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From 775b7aa0c5dccb3b745fc6b572cd0b9df43bb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 22/32] fix: reject unknown sampling orders, which silently
 removed all noise

---
 flamingpy/noise/cv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index fc8b620..29d6552 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -97,6 +97,8 @@ class CVLayer:
         if supplied_states:
             self.states = {psi: np.array(inds, dtype=int) for psi, inds in supplied_states.items()}
         self._sampling_order = kwargs.get("sampling_order") or "initial"
+        if self._sampling_order not in ("initial", "two-step"):
+            raise ValueError("Invalid sampling order; options are 'initial' and 'two-step'.")
         self._translator = kwargs.get("translator") or GKP_binner
 
         if self.p_swap is not None and supplied_states is not None:
-- 
2.43.0


From 269637c355eda891e393e10f88e4c1295938f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 23/32] fix: reject unknown weight assignment methods, which
 left stale weights in place

---
 flamingpy/decoders/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/decoders/decoder.py b/flamingpy/decoders/decoder.py
index 37f8ec2..4610603 100644
--- a/flamingpy/decoders/decoder.py
+++ b/flamingpy/decoders/decoder.py
@@ -114,6 +114,8 @@ def assign_weights(code, decoder, **kwargs):
         else:
             for node in qubit_coords:
                 G.nodes[node]["weight"] = 1
+    else:
+        raise ValueError("Invalid weight assignment; options are 'uniform' and 'blueprint'.")
     # Also assign the weights to the stabilizer graph edges.
     for ec in code.ec:
         getattr(code, f"{ec}_stab_graph").assign_weights(code)
-- 
2.43.0


From e4aeddfda83453f6cbe9fb8c6627fc0d590b343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 24/32] fix: converting a stabilizer graph to networkx keeps
 all nodes, stabilizers and boundary points

---
 flamingpy/codes/graphs/stabilizer_graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index 898f939..2621d3c 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -337,6 +337,11 @@ class StabilizerGraph(ABC):
         if isinstance(self, NxStabilizerGraph):
             return self
         nx_graph = NxStabilizerGraph()
+        nx_graph.add_stabilizers(self.stabilizers)
+        nx_graph.add_low_bound_points(self.low_bound_points)
+        nx_graph.add_high_bound_points(self.high_bound_points)
+        for node in self.nodes():
+            nx_graph.add_node(node)
         for edge in self.edges():
             nx_graph.add_edge(*edge, self.edge_data(*edge)["common_vertex"])
             if "weight" in self.edge_data(*edge):
-- 
2.43.0


From 622a6f968b59f6a57fcc5ac38b009d1756a1b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 25/32] fix: RxStabilizerGraph.edge_data raises KeyError for
 absent edges, as documented

---
 flamingpy/codes/graphs/stabilizer_graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index 2621d3c..335fd6f 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -453,7 +453,10 @@ class RxStabilizerGraph(StabilizerGraph):
     def edge_data(self, node1, node2):
         index1 = self.node_to_index[node1]
         index2 = self.node_to_index[node2]
-        return self.graph.get_edge_data(index1, index2)
+        try:
+            return self.graph.get_edge_data(index1, index2)
+        except rx.NoEdgeBetweenNodes as err:
+            raise KeyError((node1, node2)) from err
 
     def edges(self):
         return (
-- 
2.43.0


From 154d20ee4aa7c9cb78b4b4724ea2db6fd18a8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 26/32] fix: RxMatchingGraph queries no longer insert nodes
 into the graph

---
 flamingpy/decoders/mwpm/matching.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 1452baa..ba1b0b5 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -280,10 +280,13 @@ class RxMatchingGraph(MatchingGraph):
         )
 
     def edge_weight(self, edge: Edge):
-        return self.graph.get_edge_data(self.node_index(edge[0]), self.node_index(edge[1])).weight
+        # Queries must not insert the nodes of an edge that is not in the graph.
+        index0, index1 = self.node_to_index[edge[0]], self.node_to_index[edge[1]]
+        return self.graph.get_edge_data(index0, index1).weight
 
     def edge_path(self, edge: Edge):
-        return self.graph.get_edge_data(self.node_index(edge[0]), self.node_index(edge[1])).path
+        index0, index1 = self.node_to_index[edge[0]], self.node_to_index[edge[1]]
+        return self.graph.get_edge_data(index0, index1).path
 
     def min_weight_perfect_matching(self) -> List[Edge]:
         # The matching weights must be integers: rescale floats before rounding.
-- 
2.43.0


From 4002afc6cfedc04146105a98fcae6912247f1f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 27/32] fix: NxStabilizerGraph searches paths through every
 node but the terminals, as documented

---
 flamingpy/codes/graphs/stabilizer_graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index 335fd6f..8609c09 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -395,9 +395,7 @@ class NxStabilizerGraph(StabilizerGraph):
         return self.graph.edges(node)
 
     def shortest_paths_without_high_low(self, source):
-        subgraph = self.graph.subgraph(
-            self.stabilizers + self.low_bound_points + self.high_bound_points
-        )
+        subgraph = self.graph.subgraph(node for node in self.graph if node not in ("low", "high"))
         return nx_shortest_paths_from(subgraph, source)
 
     def shortest_paths_from_high(self):
-- 
2.43.0


From 9a54b663163397a868010d9c16ac141ef1dd68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 28/32] fix: union-find picks the boundary point of a cluster
 independently of memory addresses

---
 flamingpy/decoders/unionfind/algos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 5ee5f4e..ba8e5cb 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -214,7 +214,9 @@ def obtain_spanning_forest(stabilizer_graph, support):
         for node_index in tree:
             node = spanning_forest_nodes[node_index]
             if isinstance(node, tuple):
-                boundary_node = node_index
+                # Several boundary nodes: the choice must not depend on memory addresses.
+                if boundary_node is None or node < spanning_forest_nodes[boundary_node]:
+                    boundary_node = node_index
                 parity_dict[node_index] = 0
             elif isinstance(node, Stabilizer):
                 parity = node.parity
-- 
2.43.0


From 5bd98937b0f940289a07bf544db3761cd922e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:12 +0000
Subject: [PATCH 29/32] fix: a title given as text is used whatever the labels
 are

---
 flamingpy/utils/viz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 9cf02e1..1370c12 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -245,6 +245,10 @@ def _get_title(title=None, label="index"):
     if not title:
         return None
 
+    # Return title directly...
+    if isinstance(title, str):
+        return title
+
     # Unpack list or tuple...
     if isinstance(label, (tuple, list)):
         if len(label) > 1:
@@ -252,9 +256,6 @@ def _get_title(title=None, label="index"):
         # or convert to a single string
         label = label[0]
 
-    # Return title directly...
-    if isinstance(title, str):
-        return title
     # ... or base it on label value
     if isinstance(label, str):
         if isinstance(title, bool):
-- 
2.43.0


From c3d88ee7b9342478394eecb0614d5b71ad7277b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:12 +0000
Subject: [PATCH 30/32] fix: text-valued attributes, such as the state, can be
 used as node labels

---
 flamingpy/utils/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 1370c12..9dc4ddb 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -539,9 +539,9 @@ def _plot_EGraph_nodes(ax, egraph, color_nodes, label, name, legend):
         if label:
             value = egraph.nodes[node].get(label) if label != "index" else indices[node]
             if value is not None:
-                # Raise negative sign above node.
-                sign = "^{-}" if value < 0 else " "
-                if not isinstance(value, int):
+                if not isinstance(value, (int, str)):
+                    # Raise negative sign above node.
+                    sign = "^{-}" if value < 0 else " "
                     value = r"${}{:.2g}$".format(sign, np.abs(value))
                 ax.text(
                     x + 0.05,
-- 
2.43.0


From ad043807b5f2b6ed40990a6c2148b385bab7afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 31/32] fix: syndrome plots place stabilizers and recovery on
 the labelled axes, where the qubits are drawn

---
 flamingpy/utils/viz.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 9dc4ddb..6f031f8 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -893,14 +893,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
         fig = plt.figure()
         ax = fig.add_subplot(projection="3d")
         plt.xticks(range(0, 2 * shape[0] - 1))
-        plt.yticks(range(0, 2 * shape[1] - 1))
-        ax.set_zticks(range(0, 2 * shape[2] - 1))
+        plt.yticks(range(0, 2 * shape[2] - 1))
+        ax.set_zticks(range(0, 2 * shape[1] - 1))
         ax.set_xlabel("x", labelpad=20)
         ax.set_ylabel("z", labelpad=20)
         ax.set_zlabel("y", labelpad=20)
         leg = None
     # Illustrate stabilizers with voxels colored green for even
-    # parity and red for odd pariy.
+    # parity and red for odd pariy. As for the nodes, y and z are
+    # swapped so that z goes into the page.
     positions, colors, sizes = [], [], []
     for cube in cubes:
         # Obtain smallest, largest, and middle coordinates for each
@@ -917,15 +918,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
 
         # gap defines the distance between adjacent cubes
         gap = 0.15
-        min_arr = np.array([xmin, ymin, zmin])
-        max_arr = np.array([xmax, ymax, zmax])
+        min_arr = np.array([xmin, zmin, ymin])
+        max_arr = np.array([xmax, zmax, ymax])
         positions.append(min_arr + gap)
         sizes.append(np.abs(max_arr - min_arr) - 2 * gap)
         colors.append(color)
 
         if drawing_opts["label_stabilizers"] and index_dict:
             if cube in index_dict:
-                ax.text(xmid, ymid, zmid, index_dict[cube])
+                ax.text(xmid, zmid, ymid, index_dict[cube])
 
     # draw cubes
     pc = _plot_cubes_at(positions, colors=colors, sizes=sizes)
@@ -934,14 +935,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
     # setting plot limits to give some room to the boxes
     ymin = 0 if ec == "primal" else -2
     ax.set_xlim(0, 2 * shape[0])
-    ax.set_ylim(ymin, 2 * shape[1])
-    ax.set_zlim(0, 2 * shape[2])
+    ax.set_ylim(0, 2 * shape[2])
+    ax.set_zlim(ymin, 2 * shape[1])
 
     if drawing_opts["label_boundary"] and index_dict:
         bound_points = getattr(code, ec + "_bound_points")
         for point in bound_points:
-            ax.scatter(*point, s=5, c="k")
-            ax.text(*point, index_dict[point])
+            x, z, y = point
+            ax.scatter(x, y, z, s=5, c="k")
+            ax.text(x, y, z, index_dict[point])
 
     # Define a legend for red/green cubes.
     legend_elements = [
@@ -1018,7 +1020,8 @@ def add_recovery_drawing(ax, **kwargs):
     recovery_set = kwargs.get("recovery_set")
     if recovery_set:
         for point in recovery_set:
-            ax.plot(*point, "o", c="k", markersize=6)
+            x, z, y = point
+            ax.plot(x, y, z, "o", c="k", markersize=6)
     matching = kwargs.get("matching")
     G_match = kwargs.get("matching_graph")
     if matching:
@@ -1029,9 +1032,9 @@ def add_recovery_drawing(ax, **kwargs):
                 path = G_match.edge_path(pair)
                 for node in path:
                     if isinstance(node, Stabilizer):
-                        x, y, z = node.midpoint()
+                        x, z, y = node.midpoint()
                     else:
-                        x, y, z = node
+                        x, z, y = node
                         plt.plot(x, y, z, marker="2", markersize=15, c="k")
                     xlist += [x]
                     ylist += [y]
-- 
2.43.0


From 81fc7c533ba39c36d2ad00587e84b5aa51e6d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:38 +0000
Subject: [PATCH 32/32] fix: NaN is rejected as an error probability

---
 flamingpy/noise/iid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/iid.py b/flamingpy/noise/iid.py
index 7db8652..82e5df5 100644
--- a/flamingpy/noise/iid.py
+++ b/flamingpy/noise/iid.py
@@ -28,7 +28,8 @@ class IidNoise:
     def __init__(self, code, error_probability):
         self.egraph = code.graph
 
-        if error_probability < 0.0 or error_probability > 1.0:
+        # Negated, so that NaN is rejected as well.
+        if not 0.0 <= error_probability <= 1.0:
             raise ValueError("Probability is not between 0 and 1.")
 
         self.error_probability = error_probability
-- 
2.43.0

