From b7e7b7a074cb0f8bcd9710326985a1acf18a9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 01/44] fix: query_best_solution removes start/goal from the
 roadmap when the query fails

---
 nonasymptotic/prm.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 9a6bc40..5c981ce 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -71,23 +71,25 @@ class SimplePRM(ABC):
         i_goal = self.prm_graph.addNodes(2)
         i_start = i_goal - 1
 
-        # adding edge locally in a loop is faster than coming up with a big sparse
-        # adjacency matrix and merging a converted graph in.
-        for s_neighbor, d_sn in zip(start_nns_ids, start_nns_dists):
-            self.prm_graph.addEdge(i_start, s_neighbor, w=d_sn)
+        try:
+            # adding edge locally in a loop is faster than coming up with a big sparse
+            # adjacency matrix and merging a converted graph in.
+            for s_neighbor, d_sn in zip(start_nns_ids, start_nns_dists):
+                self.prm_graph.addEdge(i_start, s_neighbor, w=d_sn)
 
-        for g_neighbor, d_gn in zip(goal_nns_ids, goal_nns_dists):
-            self.prm_graph.addEdge(i_goal, g_neighbor, w=d_gn)
+            for g_neighbor, d_gn in zip(goal_nns_ids, goal_nns_dists):
+                self.prm_graph.addEdge(i_goal, g_neighbor, w=d_gn)
 
-        biDij = nk.distance.BidirectionalDijkstra(self.prm_graph, i_start, i_goal)
-        biDij.run()
+            biDij = nk.distance.BidirectionalDijkstra(self.prm_graph, i_start, i_goal)
+            biDij.run()
 
-        sol_dist = biDij.getDistance()
-        sol_path = self.prm_samples[biDij.getPath()]
+            sol_dist = biDij.getDistance()
+            sol_path = self.prm_samples[biDij.getPath()]
 
-        # delete start/goal from graph for next query
-        self.prm_graph.removeNode(i_start)
-        self.prm_graph.removeNode(i_goal)
+        finally:
+            # delete start/goal from graph for next query (also if this one failed or was interrupted)
+            self.prm_graph.removeNode(i_start)
+            self.prm_graph.removeNode(i_goal)
 
         return sol_dist, sol_path
 
-- 
2.43.0


From 80cf657d13d9b3c4df78e6d5caaa92e3cb868dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 02/44] fix: set_connection_radius does not skip edges it
 should remove

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 5c981ce..a45ec0d 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -461,7 +461,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in self._g_prm.iterEdgesWeights():
+        # (collect them first: removing edges while iterating over them skips some)
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
             if w >= new_conn_r:
                 self._g_prm.removeEdge(u, v)
 
-- 
2.43.0


From 6a33a0b783d9d832b26aa859fbedbca14544bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 03/44] fix: SimpleFullConnRadiusPRM raises instead of
 returning an exception as the graph distances

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index a45ec0d..b52ed05 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -310,7 +310,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
         return ids_within_conn_r[valid_motions], dists_from_query[within_conn_r][valid_motions]
 
     def _distance_in_graph(self, starts, goals):
-        return NotImplementedError('Cannot compute graph distance efficiently with this version.')
+        raise NotImplementedError('Cannot compute graph distance efficiently with this version.')
 
     @property
     def prm_graph(self) -> nk.Graph:
-- 
2.43.0


From a90d3adc073b1e416fb66ddad4e4ddb01af55ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 04/44] fix: set_nearest_neighbors keeps edges that the other
 endpoint still lists

---
 nonasymptotic/prm.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index b52ed05..91598a4 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -434,12 +434,16 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
-        # next, throw away edges we don't need.
-        throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
-        for u, vs in enumerate(throw_away_edge_list):
-            for v in vs:
-                if self._g_prm.hasEdge(u, v):
-                    self._g_prm.removeEdge(u, v)
+        # next, throw away edges we don't need (an edge stays while its other endpoint still lists it).
+        ids = np.arange(self.master_edges.shape[0])
+        kept = self.master_edges[:, :new_k_nearest_neighbors]
+        thrown_away = self.master_edges[:, new_k_nearest_neighbors:]
+        kept_pairs = ids.repeat(kept.shape[1]) * ids.size + kept.flatten()
+        us, vs = ids.repeat(thrown_away.shape[1]), thrown_away.flatten()
+        unlisted = ~np.isin(vs.astype(ids.dtype) * ids.size + us, kept_pairs)
+        for u, v in zip(us[unlisted], vs[unlisted]):
+            if self._g_prm.hasEdge(u, v):
+                self._g_prm.removeEdge(u, v)
 
         self.k_neighbors = new_k_nearest_neighbors
 
-- 
2.43.0


From cfc8053d22d3d6c7eedfa8c6313224b5e7e6be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 05/44] fix: nearest-neighbor PRM keeps both limits in force
 across reloads and regrows with all its neighbors

---
 nonasymptotic/prm.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 91598a4..8fe3628 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -389,8 +389,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._samples = np.concatenate([self._samples, new_samples])
 
         # build the index
-        # if we are growing the graph, it means that a previous check with a larger radius worked.
-        # so know the PRM is complete for a larger radius, so we can lose NNs losslessly.
+        # the master graph holds as many neighbors as we may be asked for later (see set_nearest_neighbors).
+        self.k_neighbors = self.max_k_neighbors
         effective_k = min(n_samples - 1, self.k_neighbors)
 
         # build the master graph
@@ -433,17 +433,11 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we need to grow the graph, then reload the master graph.
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            if self.conn_r is not None:
+                self._remove_longer_edges(self.conn_r)
 
-        # next, throw away edges we don't need (an edge stays while its other endpoint still lists it).
-        ids = np.arange(self.master_edges.shape[0])
-        kept = self.master_edges[:, :new_k_nearest_neighbors]
-        thrown_away = self.master_edges[:, new_k_nearest_neighbors:]
-        kept_pairs = ids.repeat(kept.shape[1]) * ids.size + kept.flatten()
-        us, vs = ids.repeat(thrown_away.shape[1]), thrown_away.flatten()
-        unlisted = ~np.isin(vs.astype(ids.dtype) * ids.size + us, kept_pairs)
-        for u, v in zip(us[unlisted], vs[unlisted]):
-            if self._g_prm.hasEdge(u, v):
-                self._g_prm.removeEdge(u, v)
+        # next, throw away edges we don't need.
+        self._remove_further_neighbors(new_k_nearest_neighbors)
 
         self.k_neighbors = new_k_nearest_neighbors
 
@@ -454,6 +448,18 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= self.conn_r]
             self.g_sp_lookup, self.sample_to_lookup_ind = self._compute_spsp(samples_within_conn_r)
 
+    def _remove_further_neighbors(self, new_k_nearest_neighbors):
+        # an edge stays while either of its endpoints still lists the other.
+        ids = np.arange(self.master_edges.shape[0])
+        kept = self.master_edges[:, :new_k_nearest_neighbors]
+        thrown_away = self.master_edges[:, new_k_nearest_neighbors:]
+        kept_pairs = ids.repeat(kept.shape[1]) * ids.size + kept.flatten()
+        us, vs = ids.repeat(thrown_away.shape[1]), thrown_away.flatten()
+        unlisted = ~np.isin(vs.astype(ids.dtype) * ids.size + us, kept_pairs)
+        for u, v in zip(us[unlisted], vs[unlisted]):
+            if self._g_prm.hasEdge(u, v):
+                self._g_prm.removeEdge(u, v)
+
     def set_connection_radius(self, new_conn_r):
         # there may be a way to do this with networkit.sparsification, but I can't find it
         if new_conn_r > self.certified_max_conn_r:
@@ -463,12 +469,10 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we are growing the radius, we need to reload the master graph
         if self.conn_r is not None and new_conn_r > self.conn_r:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            self._remove_further_neighbors(self.k_neighbors)
 
         # then iterate over and remove the edges that are too large
-        # (collect them first: removing edges while iterating over them skips some)
-        for u, v, w in list(self._g_prm.iterEdgesWeights()):
-            if w >= new_conn_r:
-                self._g_prm.removeEdge(u, v)
+        self._remove_longer_edges(new_conn_r)
 
         self.conn_r = new_conn_r
 
@@ -479,6 +483,12 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= self.conn_r]
             self.g_sp_lookup, self.sample_to_lookup_ind = self._compute_spsp(samples_within_conn_r)
 
+    def _remove_longer_edges(self, new_conn_r):
+        # collect the edges first: removing edges while iterating over them skips some
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
+            if w >= new_conn_r:
+                self._g_prm.removeEdge(u, v)
+
     def reset(self):
         self.conn_r = None
 
-- 
2.43.0


From f96090275f45048013d0be17057eef538c1c8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 06/44] fix: SimpleRadiusPRM connects exactly the pairs within
 its radius when it is first built and when it grows

---
 nonasymptotic/prm.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 8fe3628..85e5ee5 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -1,5 +1,4 @@
 from nonasymptotic.ann import get_ann
-from networkit.graphtools import GraphTools
 from abc import ABC, abstractmethod
 
 import matplotlib.animation as animation
@@ -547,8 +546,6 @@ class SimpleRadiusPRM(SimplePRM):
         self.g_sp_lookup = None
         self.sample_to_lookup_ind = None
 
-        self.GT = GraphTools()
-
         # these are attributes that are accessed by properties for code-sharing inheritance/niceness,
         # so they are underscored.
         self._samples = None
@@ -579,7 +576,8 @@ class SimpleRadiusPRM(SimplePRM):
 
             # apply a doubling scheme for connection neighbors to obtain the threshold graph
             adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
-            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr)
+            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
+                                                                           threshold_rad=self.conn_r)
 
         else:  # otherwise, we (try to) reuse past computation
             past_n_samples = self._samples.shape[0]
@@ -592,20 +590,14 @@ class SimpleRadiusPRM(SimplePRM):
             self._samples = np.concatenate([self._samples, new_samples])
             adj_arr, dists_arr = self.ann.update_graph_with_data(new_samples)
 
-            # check to make sure we are still within threshold. if not, we need to build a new graph with
-            # new neighbors
-            if np.all(dists_arr[:, -1] > self.conn_r) or self.k_neighbors >= self.max_k_neighbors:
-                self.prm_graph.addNodes(m_new_samples)
-                g_new_conns = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
-                                                                               include_starting=past_n_samples,
-                                                                               threshold_rad=self.conn_r)
-                self.GT.merge(self._g_prm, g_new_conns)
-
-            else:
-                self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-                adj_arr, dists_arr = self.ann.new_graph_from_data(self.prm_samples, self.k_neighbors)
-                self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
-                                                                               threshold_rad=self.conn_r)
+            # check to make sure we are still within threshold. if not, we need to build a new index with
+            # more neighbors
+            if not (np.all(dists_arr[:, -1] > self.conn_r) or self.k_neighbors >= self.max_k_neighbors):
+                adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
+
+            # new samples can also displace neighbors of the old ones, so take all connections from the index
+            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
+                                                                           threshold_rad=self.conn_r)
 
         if self.in_mp_exp_mode:
             n_samples = self._samples.shape[0]
-- 
2.43.0


From 22a202c56fbcf2b0da66cefba0487f1a51cd1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 07/44] fix: a failed growth or limit change leaves the PRM and
 its cached graph as they were

---
 nonasymptotic/prm.py | 51 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 85e5ee5..690daf5 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -5,6 +5,7 @@ import matplotlib.animation as animation
 import matplotlib.pyplot as plt
 import numpy as np
 import networkit as nk
+import functools
 import uuid
 import os
 
@@ -14,6 +15,23 @@ import os
 
 # create abstract properties that need to be implemented as the standard names of things
 
+def _all_or_nothing(operation):
+    """
+    Makes a PRM operation leave the PRM as it was if it fails part way (e.g. the disk is full, or the ANN fails).
+    """
+    @functools.wraps(operation)
+    def wrapper(self, *args, **kwargs):
+        attributes = dict(self.__dict__)
+        try:
+            return operation(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(attributes)
+            raise
+
+    return wrapper
+
+
 class SimplePRM(ABC):
     def __init__(self, motion_validity_checker, valid_state_sampler, seed, verbose, in_mp_exp_mode=False):
         self.check_motion = motion_validity_checker
@@ -160,6 +178,17 @@ class SimplePRM(ABC):
 
         return new_graph
 
+    def _write_graph_cache(self, graph):
+        # swap the new file in once it is complete, so that a failed write does not destroy the old one.
+        fresh_cache_path = self.tmp_graph_cache_path + '.new'
+        try:
+            nk.writeGraph(graph, fresh_cache_path, nk.Format.NetworkitBinary)
+            os.replace(fresh_cache_path, self.tmp_graph_cache_path)
+        except BaseException:
+            if os.path.exists(fresh_cache_path):
+                os.remove(fresh_cache_path)
+            raise
+
     def num_vertices(self):
         return self.prm_graph.numberOfNodes() if self.prm_graph is not None else 0
 
@@ -211,6 +240,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
 
         self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')
 
+    @_all_or_nothing
     def grow_to_n_samples(self, n_samples):
 
         if self._samples is None:  # if new, initialize everything
@@ -258,13 +288,14 @@ class SimpleFullConnRadiusPRM(SimplePRM):
             master_graph.addEdge(start, goal, w=dist, checkMultiEdge=True)
 
         master_graph.indexEdges()
-        nk.writeGraph(master_graph, self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+        self._write_graph_cache(master_graph)
 
         self._g_prm = master_graph
         # self.max_conn_r = self.conn_r  # update max_conn_r to reflect rad of master graph.
 
         return valid_dists_in_range
 
+    @_all_or_nothing
     def set_connection_radius(self, new_conn_r):
         # there may be a way to do this with networkit.sparsification, but I can't find it
 
@@ -362,6 +393,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
     def prm_samples(self) -> np.ndarray:
         return self._samples
 
+    @_all_or_nothing
     def grow_to_n_samples(self, n_samples):
 
         self.conn_r = None  # clear the connection radius
@@ -399,7 +431,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         master_graph.indexEdges()
 
         # we'll save the master graph -- don't want to hold multiple PRMs in RAM.
-        nk.writeGraph(master_graph, self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+        self._write_graph_cache(master_graph)
 
         # then write in the master graph.
         self._g_prm = master_graph
@@ -425,6 +457,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             # (could make gigabytes of a difference)
             return self.certified_max_conn_r, np.unique(self.master_dists, axis=None)
 
+    @_all_or_nothing
     def set_nearest_neighbors(self, new_k_nearest_neighbors):
         if new_k_nearest_neighbors > self.max_k_neighbors:
             raise ArithmeticError('Cannot grow KNN PRM past the original set number of neighbors.')
@@ -459,6 +492,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             if self._g_prm.hasEdge(u, v):
                 self._g_prm.removeEdge(u, v)
 
+    @_all_or_nothing
     def set_connection_radius(self, new_conn_r):
         # there may be a way to do this with networkit.sparsification, but I can't find it
         if new_conn_r > self.certified_max_conn_r:
@@ -552,6 +586,14 @@ class SimpleRadiusPRM(SimplePRM):
         self._g_prm = None
 
     def grow_to_n_samples(self, n_samples):
+        try:
+            self._grow_to_n_samples(n_samples)
+        except BaseException:
+            self.ann = None  # it may hold samples that we do not, so do not update it any further
+            raise
+
+    @_all_or_nothing
+    def _grow_to_n_samples(self, n_samples):
 
         def _build_threshold_index(samples):
             ann_builder = get_ann("kgraph")
@@ -588,7 +630,10 @@ class SimpleRadiusPRM(SimplePRM):
                 new_samples[i, :] = self.sample_state()
 
             self._samples = np.concatenate([self._samples, new_samples])
-            adj_arr, dists_arr = self.ann.update_graph_with_data(new_samples)
+            if self.ann is not None:
+                adj_arr, dists_arr = self.ann.update_graph_with_data(new_samples)
+            else:
+                adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
 
             # check to make sure we are still within threshold. if not, we need to build a new index with
             # more neighbors
-- 
2.43.0


From bbd196d5a03ff5276ba891daf35149f6cf55ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 08/44] fix: KGraphANN removes its text file and notices when
 it is cut short

---
 nonasymptotic/ann.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nonasymptotic/ann.py b/nonasymptotic/ann.py
index e93e176..b017c1a 100644
--- a/nonasymptotic/ann.py
+++ b/nonasymptotic/ann.py
@@ -57,10 +57,15 @@ class KGraphANN(ApproximateNearestNeighbor):
         nn_index.build(reverse=0, K=self.k_neighbors, L=self.k_neighbors + 50, S=30)
 
         # save, since we only want the graph (not to use as an index)
-        nn_index.save_text(self.save_txt_path)
+        try:
+            nn_index.save_text(self.save_txt_path)
 
-        # parse the text file and return
-        lines = open(self.save_txt_path, 'r').readlines()
+            # parse the text file and return
+            with open(self.save_txt_path, 'r') as txt_file:
+                lines = txt_file.readlines()
+        finally:
+            if os.path.exists(self.save_txt_path):
+                os.remove(self.save_txt_path)
 
         # line 0 has the number of nodes. so skip that.
         # line i corresponds to row i-1 in the input data.
@@ -74,6 +79,10 @@ class KGraphANN(ApproximateNearestNeighbor):
             edge_list.append(nns_ids_and_dists[1::2][:self.k_neighbors])
             dist_list.append(nns_ids_and_dists[2::2][:self.k_neighbors])
 
+        # a full disk can cut the file short without anyone noticing
+        if len(edge_list) != data.shape[0] or not lines[-1].endswith('\n'):
+            raise RuntimeError('The neighbor lists saved to %s are incomplete.' % self.save_txt_path)
+
         # for numerical stability, kgraph computes distances in half \ell_2 squared.
         # so we undo that to convert.
         return np.array(edge_list, dtype='int'), np.sqrt(np.array(dist_list, dtype='float32') * 2)
-- 
2.43.0


From cd2fc7457d012968ca0a0ba886977fa3748670f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 09/44] fix: experiment checkpoints are replaced atomically

---
 exps/run_knn_radius_trial.py               |  3 ++-
 exps/run_narrow_passage_clearance_trial.py |  3 ++-
 exps/run_straight_line_optimality_trial.py |  3 ++-
 nonasymptotic/util.py                      | 18 ++++++++++++++++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index c2c712d..18f85f0 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -10,6 +10,7 @@ import os
 
 from nonasymptotic.envs import StraightLine
 from nonasymptotic.ann import get_ann
+from nonasymptotic.util import save_csv_atomically
 
 
 def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):
@@ -97,4 +98,4 @@ for _dim, _trial in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    save_csv_atomically(all_tasks_record_df, df_save_path)
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index f0578ec..378dcb3 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -14,6 +14,7 @@ import sys
 import os
 
 from nonasymptotic.envs import NarrowPassage
+from nonasymptotic.util import save_csv_atomically
 from nonasymptotic.prm import SimpleFullConnRadiusPRM, SimpleNearestNeighborRadiusPRM
 
 
@@ -286,4 +287,4 @@ if __name__ == '__main__':
             all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
         # we output intermediate results just to see progress.
-        all_tasks_record_df.to_csv(df_save_path)
+        save_csv_atomically(all_tasks_record_df, df_save_path)
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 3d3442c..32837b9 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -38,6 +38,7 @@ import os
 
 from envs import StraightLine
 from prm import SimpleNearestNeighborRadiusPRM
+from nonasymptotic.util import save_csv_atomically
 
 
 def straight_line_trial(delta_clear, dim, rng_seed,
@@ -196,4 +197,4 @@ for _dim, _trial in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    save_csv_atomically(all_tasks_record_df, df_save_path)
diff --git a/nonasymptotic/util.py b/nonasymptotic/util.py
index 5aefcd2..22ef553 100644
--- a/nonasymptotic/util.py
+++ b/nonasymptotic/util.py
@@ -1,4 +1,5 @@
 import numpy as np
+import os
 
 
 def cross_2d(v, w):
@@ -52,3 +53,20 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
     )
 
     return np.logical_or(is_cleanly_intersecting, is_collinear)
+
+
+def save_csv_atomically(df, path):
+    """
+    Replace the csv at path with df in one step, so that being stopped (or a full disk) never leaves half a table behind.
+    """
+    tmp_path = path + '.tmp'
+    try:
+        with open(tmp_path, 'w', newline='') as f:
+            df.to_csv(f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
-- 
2.43.0


From 9de98ebd8a2d2b8c4ef309e2060537d1d5df9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 10/44] fix: resumed experiments skip exactly the completed
 trials and do not reuse their seeds

---
 exps/run_knn_radius_trial.py               | 7 ++++++-
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 exps/run_straight_line_optimality_trial.py | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 18f85f0..b4560f4 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -76,7 +76,12 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # there is one seed per trial (which can have several rows), so count those to see by how many we need to skip ahead.
+    n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+    for _ in range(n_seeds):
+        rng.integers(0, 2 ** 32)  # ... and move past the seeds they have used
 else:
     all_tasks_record_df = None
 
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 378dcb3..c3450a0 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -263,6 +263,8 @@ if __name__ == '__main__':
         # see by how many we need to skip ahead.
         n_seeds = all_tasks_record_df['seed'].unique().shape[0]
         tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+        for _ in range(n_seeds):
+            rng.integers(0, 2 ** 32)  # ... and move past the seeds they have used
     else:
         all_tasks_record_df = None
 
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 32837b9..7bc5e25 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -173,7 +173,12 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # there is one seed per trial (which can have several rows), so count those to see by how many we need to skip ahead.
+    n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+    for _ in range(n_seeds):
+        rng.integers(0, 2 ** 32)  # ... and move past the seeds they have used
 else:
     all_tasks_record_df = None
 
-- 
2.43.0


From 6a37ceaa0f99afb371be3d155cd03a41373c88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 11/44] fix: the kNN experiment seeds its environment instead
 of stretching it to the length of the seed

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index b4560f4..7682bcb 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -14,7 +14,7 @@ from nonasymptotic.util import save_csv_atomically
 
 
 def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):
-    env = StraightLine(dim, delta_clear, rng_seed)
+    env = StraightLine(dim, delta_clear, seed=rng_seed)
     knn_builder = get_ann("kgraph")
     record = []
 
-- 
2.43.0


From fdaf17c3f895d833b71eeb437b9ade102845f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 12/44] fix: the kNN experiment skips neighbor counts its
 samples cannot provide instead of dying on them

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 7682bcb..cebb299 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -32,7 +32,7 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
         build_time = graph_build_et - graph_build_st
 
         for nn in neighbor_schedule:
-            if nn > s:
+            if nn >= s:
                 break
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
-- 
2.43.0


From 9c087eee0bda3f3e622a467dd72180054334d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 13/44] fix: the clearance trial records that no connections
 were made instead of dying on its incomplete record

---
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index c3450a0..c706b84 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -75,6 +75,8 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                  n_samples,
                  np.nan,
                  np.nan,
+                 np.nan,
+                 np.nan,
                  build_runtime,
                  0,
                  'no connections made',
-- 
2.43.0


From 779a0e18422063443b04ed138b83a12c10045299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 14/44] fix: the clearance trial tests the largest connection
 setting that it reports

---
 exps/run_narrow_passage_clearance_trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index c706b84..c79b031 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -102,11 +102,11 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
 
                 if prm_type == 'knn' and i_conn_ub >= nn_ks.size - 1:
                     print('max %i asked for %i' % (prm.max_k_neighbors, nn_ks[-1]))
-                    prm.set_nearest_neighbors(max_connections)
+                    prm.set_nearest_neighbors(min(nn_ks[-1], max_connections))
                     sus_of_no_path = True
 
                 elif prm_type == 'radius' and i_conn_ub >= nn_rads.size - 1:
-                    prm.set_connection_radius(max_connections)
+                    prm.set_connection_radius(nn_rads[-1])
                     sus_of_no_path = True
 
                 if sus_of_no_path:
-- 
2.43.0


From 686b60a3b4e83f0db129e0f3ebb33364ecf93fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 15/44] fix: the clearance trial decides kNN limits with a
 single candidate instead of reporting it as both failing and succeeding

---
 exps/run_narrow_passage_clearance_trial.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index c79b031..359773b 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -124,15 +124,18 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
 
             elif i_conn_lb >= i_conn_ub:
                 # the only instance for this to come up if there is only one connecting pair in a radius prm
-                # (which happens)
-                if prm_type == 'radius' and i_conn_lb == i_conn_ub:
-                    prm.set_connection_radius(nn_rads[-1])
+                # (which happens), or only one number of neighbors to test in a knn prm
+                if i_conn_lb == i_conn_ub:
+                    if prm_type == 'knn':
+                        prm.set_nearest_neighbors(min(nn_ks[-1], max_connections))
+                    else:
+                        prm.set_connection_radius(nn_rads[-1])
                     dist, path = prm.query_best_solution(query_start, query_end)
                     path_len = len(path)
 
                     if not path_len:
                         info = 'only one connection; and no path found.'
-                        i_conn_lb = nn_rads.size - 1
+                        i_conn_lb = 0
                         i_conn_ub = np.nan
 
                     else:
@@ -140,7 +143,7 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                         threshold_path_dist = dist
                         threshold_path_len = path_len
                         i_conn_lb = np.nan
-                        i_conn_ub = nn_rads.size - 1
+                        i_conn_ub = 0
 
                     break
 
-- 
2.43.0


From 5a7c2d2f8836079ac4010cd55b14c46acfa83de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 16/44] fix: launching without a config file does not submit a
 job

---
 exps/submit_and_run_experiment_job.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index 4e3b488..d95c336 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -70,6 +70,7 @@ if __name__ == "__main__":
 
         except FileNotFoundError:
             print("Could not find the config file '%s'." % args.config_path)
+            sys.exit(1)
 
         # generate the submission script (and store in experiment directory)
         script_name = 'run_straight_line_trial.py' if args.type == 'line' else 'run_knn_radius_trial.py'
-- 
2.43.0


From 8c58bdd441d8ac4a615ad0deb098d81b4b94dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 17/44] fix: launching reports failure when the job could not
 be submitted

---
 exps/submit_and_run_experiment_job.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index d95c336..5e7e8f9 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -107,5 +107,5 @@ if __name__ == "__main__":
         triples_args = config['triples']
 
     # submit and queue up the JobArray
-    subprocess.run(['chmod', 'u+x', submit_script_path])
-    subprocess.run(['LLsub', submit_script_path, '[%i,%i,%i]' % tuple(triples_args)])
+    subprocess.run(['chmod', 'u+x', submit_script_path], check=True)
+    subprocess.run(['LLsub', submit_script_path, '[%i,%i,%i]' % tuple(triples_args)], check=True)
-- 
2.43.0


From 65217950b4d9ed05c24b5b7be7998089b2628990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 18/44] fix: resuming picks the last completely launched
 experiment of exactly the given name

---
 exps/submit_and_run_experiment_job.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index 5e7e8f9..f41d961 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -67,6 +67,8 @@ if __name__ == "__main__":
 
             with open(config_path, 'w') as handle:
                 json.dump(config, handle, indent=2)
+                handle.flush()
+                os.fsync(handle.fileno())
 
         except FileNotFoundError:
             print("Could not find the config file '%s'." % args.config_path)
@@ -83,16 +85,24 @@ if __name__ == "__main__":
         submit_script_text = submit_sh_script_prototype_text.format(script_name=script_name,
                                                                     arg0=config_path, arg1=save_path)
         submit_script_path = os.path.join(save_path, 'submit_job.sh')
-        with open(submit_script_path, 'w') as submit_script_file:
+        # the script appears last and in one piece: it marks the experiment as completely set up (see --resume).
+        with open(submit_script_path + '.tmp', 'w') as submit_script_file:
             submit_script_file.write(submit_script_text)
+            submit_script_file.flush()
+            os.fsync(submit_script_file.fileno())
+        os.replace(submit_script_path + '.tmp', submit_script_path)
 
         # obtain triples args
         triples_args = args.triples_args
 
     else:  # for resuming, we just launch the corresponding script
         try:
-            dirs_with_exp_name = glob.glob('./results/%s*' % args.name)
-            dirs_with_exp_name.sort(key=os.path.getmtime)
+            # only experiments of exactly this name that were completely set up. The latest is the one launched last
+            # (modification times also change when a job writes its results).
+            launch_time = '[0-9]' * 8 + '-' + '[0-9]' * 6
+            dirs_with_exp_name = glob.glob('./results/%s_%s' % (glob.escape(args.name), launch_time))
+            dirs_with_exp_name = [d for d in dirs_with_exp_name if os.path.exists(os.path.join(d, 'submit_job.sh'))]
+            dirs_with_exp_name.sort()
             latest_exp_path = dirs_with_exp_name[-1]
             submit_script_path = os.path.join(latest_exp_path, 'submit_job.sh')
 
-- 
2.43.0


From ac1ded70810138fffa0271568b8c0959895d17bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 19/44] fix: aggregating again does not count an earlier output
 as a task's results

---
 exps/aggregate_runtimes_for_tuning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index a262b52..d8b77af 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -6,6 +6,7 @@ import pandas as pd
 import argparse
 import glob
 import os
+import re
 
 if __name__ == '__main__':
     parser = argparse.ArgumentParser()
@@ -17,7 +18,9 @@ if __name__ == '__main__':
     exp_dirs.sort(key=os.path.getmtime)
     latest_exp_dir = exp_dirs[-1]
 
-    mini_out_csvs = glob.glob(latest_exp_dir + '/out*.csv')
+    # only the result files of the tasks, not an earlier output of this script
+    mini_out_csvs = [p for p in glob.glob(latest_exp_dir + '/out*.csv')
+                     if re.fullmatch(r'out\d+\.csv', os.path.basename(p))]
     mini_out_dfs = list(map(lambda p: pd.read_csv(p, index_col=0), mini_out_csvs))
     big_out = pd.concat(mini_out_dfs)
 
-- 
2.43.0


From 495c21cca8626b39558cdf55af22c51cafabf410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 20/44] fix: deployers submit nothing while the queue length is
 unknown

---
 exps/tamp_environment/deploy_tamp_experiments.py      | 2 +-
 exps/tamp_environment/deploy_tamp_experiments_kuka.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/deploy_tamp_experiments.py b/exps/tamp_environment/deploy_tamp_experiments.py
index 487b373..54a2058 100644
--- a/exps/tamp_environment/deploy_tamp_experiments.py
+++ b/exps/tamp_environment/deploy_tamp_experiments.py
@@ -27,7 +27,7 @@ def count_lines_of_command_output():
     
     except subprocess.CalledProcessError as e:
         print(f"Error executing command: {e}")
-        return 0
+        return MAX_TOTAL  # queue size unknown, so assume that it is full
     
 def deploy_with_args(min_samples, max_samples, adaptive, debug=False):
     command_str = f"sbatch --array=1-{NUM_RUNS_PER} deploy_experiments.sh {min_samples} {max_samples} {adaptive}"
diff --git a/exps/tamp_environment/deploy_tamp_experiments_kuka.py b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
index 9179b55..66df14c 100644
--- a/exps/tamp_environment/deploy_tamp_experiments_kuka.py
+++ b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
@@ -27,7 +27,7 @@ def count_lines_of_command_output():
     
     except subprocess.CalledProcessError as e:
         print(f"Error executing command: {e}")
-        return 0
+        return MAX_TOTAL  # queue size unknown, so assume that it is full
     
 def deploy_with_args(min_samples, max_samples, adaptive, debug=False):
     command_str = f"sbatch --array=1-1 deploy_experiments_kuka.sh {min_samples} {max_samples} {adaptive}"
-- 
2.43.0


From 07aac56e74ec28597d23592f1deccc8b337c6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 21/44] fix: deployers count every pending task of a job array

---
 exps/tamp_environment/deploy_tamp_experiments.py      | 2 +-
 exps/tamp_environment/deploy_tamp_experiments_kuka.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/deploy_tamp_experiments.py b/exps/tamp_environment/deploy_tamp_experiments.py
index 54a2058..b59f5ce 100644
--- a/exps/tamp_environment/deploy_tamp_experiments.py
+++ b/exps/tamp_environment/deploy_tamp_experiments.py
@@ -8,7 +8,7 @@ NUM_RUNS_PER = 50
 
 def count_lines_of_command_output():
     try:
-        squeue_command = "squeue -u \"`echo $USER`\""
+        squeue_command = "squeue -r -u \"`echo $USER`\""
         cancel_command = "scancel -u \"`echo $USER`\""
         # Execute the command and capture its output
         result = subprocess.run(squeue_command, shell=True, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
diff --git a/exps/tamp_environment/deploy_tamp_experiments_kuka.py b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
index 66df14c..644d024 100644
--- a/exps/tamp_environment/deploy_tamp_experiments_kuka.py
+++ b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
@@ -8,7 +8,7 @@ NUM_RUNS_PER = 50
 
 def count_lines_of_command_output():
     try:
-        squeue_command = "squeue -u \"`echo $USER`\""
+        squeue_command = "squeue -r -u \"`echo $USER`\""
         cancel_command = "scancel -u \"`echo $USER`\""
         # Execute the command and capture its output
         result = subprocess.run(squeue_command, shell=True, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
-- 
2.43.0


From 00ed8dbaf22f1da9940a0c15c96760725da7d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 22/44] fix: removing the stop file also stops a deployer that
 waits for the queue

---
 exps/tamp_environment/deploy_tamp_experiments.py      | 1 +
 exps/tamp_environment/deploy_tamp_experiments_kuka.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/exps/tamp_environment/deploy_tamp_experiments.py b/exps/tamp_environment/deploy_tamp_experiments.py
index b59f5ce..33a8629 100644
--- a/exps/tamp_environment/deploy_tamp_experiments.py
+++ b/exps/tamp_environment/deploy_tamp_experiments.py
@@ -61,6 +61,7 @@ if __name__ == "__main__":
                 queue_size = count_lines_of_command_output()
                 time.sleep(30)
         
+        assert os.path.isfile("./tmux_lock.txt")
         print("deploying {}/{}".format(i, len(arg_sets)))
         deploy_with_args(*arg_set, debug=debug)
         time.sleep(60*3)
\ No newline at end of file
diff --git a/exps/tamp_environment/deploy_tamp_experiments_kuka.py b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
index 644d024..5fae876 100644
--- a/exps/tamp_environment/deploy_tamp_experiments_kuka.py
+++ b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
@@ -65,6 +65,7 @@ if __name__ == "__main__":
                 queue_size = count_lines_of_command_output()
                 time.sleep(30)
         
+        assert os.path.isfile("./tmux_lock.txt")
         print("deploying {}/{}".format(i, len(arg_sets)))
         experiments = queue[:50]
         queue = queue[50:]
-- 
2.43.0


From 620e5fddb0fca7967469584b784c43d1115c2fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 23/44] fix: the robot's motion check accepts an empty batch

---
 exps/tamp_environment/turtlebot_move/streams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 790ae18..575ce63 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -89,6 +89,8 @@ class BagOfBoundingBoxes(Environment):
     def is_motion_valid(self, start, goal):
 
         valids = np.ones(start.shape[0]).astype(bool)
+        if start.shape[0] == 0:
+            return valids
         start_exp  = np.tile(np.expand_dims(start, axis=1), (1, self.robot_verts.shape[0], 1))
         goal_exp  = np.tile(np.expand_dims(goal, axis=1), (1, self.robot_verts.shape[0], 1))
         robot_start_verts = np.tile(np.expand_dims(self.robot_verts, axis=0), (start.shape[0], 1, 1)) + start_exp
-- 
2.43.0


From d4ba03a3e12fe4fe4488fc6d3cc53f4b44958428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 24/44] fix: the robot's motion planner asks for more samples
 at every growth

---
 exps/tamp_environment/turtlebot_move/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 575ce63..51d964b 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -177,7 +177,7 @@ def get_anytime_motion_fn(problem,
             _, path = prm.query_best_solution(start, goal)
             if(len(path)>0):
                 break
-            num_samples = num_samples*factor
+            num_samples = max(num_samples*factor, int(num_samples)+1)
 
 
         print("Path: "+str(path))
-- 
2.43.0


From e58825f209596f9e0590e870c7ca521e2c41691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 25/44] fix: the robot's motion planner removes its scratch
 files

---
 exps/tamp_environment/turtlebot_move/streams.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 51d964b..709d805 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -13,6 +13,7 @@ from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM, animate_knn_prm
 from typing import List
 from scipy.spatial import ConvexHull
 from tqdm import tqdm
+import contextlib
 import itertools
 import random
 import copy
@@ -133,6 +134,10 @@ def get_anytime_motion_fn(problem,
         return test(rover, q1, q2, obj=obj)
 
     def test(rover, q1, q2, obj=None):
+        with contextlib.ExitStack() as cleanup:
+            return plan(cleanup, rover, q1, q2, obj=obj)
+
+    def plan(cleanup, rover, q1, q2, obj=None):
 
         start = np.array(q1.values[:2])
         goal = np.array(q2.values[:2])
@@ -166,6 +171,7 @@ def get_anytime_motion_fn(problem,
                                      prm_env_2d.sample_from_env,
                                      prm_env_2d.distance_to_path,
                                      seed=seed, truncate_to_eff_rad=False, verbose=False)
+        cleanup.callback(prm.reset)
 
         assert prm_env_2d.is_motion_valid(np.expand_dims(start, axis=0), np.expand_dims(start, axis=0)), "Start in collision"
         assert prm_env_2d.is_motion_valid(np.expand_dims(goal, axis=0), np.expand_dims(goal, axis=0)), "Goal in collision"
-- 
2.43.0


From 4051a515be6539892836cfbaf4f14ec54e090635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 26/44] fix: resuming does not start over when looking for the
 result file fails

---
 exps/run_knn_radius_trial.py               | 8 ++++----
 exps/run_narrow_passage_clearance_trial.py | 8 ++++----
 exps/run_straight_line_optimality_trial.py | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index cebb299..4bffaaf 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -74,16 +74,16 @@ rng = np.random.default_rng(seed=task_id)
 
 # run the experiments! check to see if an out file already exists and the experiment is resuming.
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
-if os.path.exists(df_save_path):
+try:
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-
+except FileNotFoundError:
+    all_tasks_record_df = None
+else:
     # there is one seed per trial (which can have several rows), so count those to see by how many we need to skip ahead.
     n_seeds = all_tasks_record_df['seed'].unique().shape[0]
     tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
     for _ in range(n_seeds):
         rng.integers(0, 2 ** 32)  # ... and move past the seeds they have used
-else:
-    all_tasks_record_df = None
 
 for _dim, _trial in tasks:
     print('initiating knn trial dim: %f, trial%f' % (_dim, _trial))
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 359773b..1ab9111 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -261,17 +261,17 @@ if __name__ == '__main__':
 
     # run the experiments! check to see if an out file already exists and the experiment is resuming.
     df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
-    if os.path.exists(df_save_path):
+    try:
         all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-
+    except FileNotFoundError:
+        all_tasks_record_df = None
+    else:
         # there is one seed per 'master' task, so we can count unique seeds to
         # see by how many we need to skip ahead.
         n_seeds = all_tasks_record_df['seed'].unique().shape[0]
         tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
         for _ in range(n_seeds):
             rng.integers(0, 2 ** 32)  # ... and move past the seeds they have used
-    else:
-        all_tasks_record_df = None
 
     for _prm_type, _clearance, _dim, _trial in tasks:
         print('initiating line trial dim: %f, trial%f' % (_dim, _trial))
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 7bc5e25..f35f2e5 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -171,16 +171,16 @@ rng = np.random.default_rng(seed=task_id)
 
 # run the experiments! check to see if an out file already exists and the experiment is resuming.
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
-if os.path.exists(df_save_path):
+try:
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-
+except FileNotFoundError:
+    all_tasks_record_df = None
+else:
     # there is one seed per trial (which can have several rows), so count those to see by how many we need to skip ahead.
     n_seeds = all_tasks_record_df['seed'].unique().shape[0]
     tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
     for _ in range(n_seeds):
         rng.integers(0, 2 ** 32)  # ... and move past the seeds they have used
-else:
-    all_tasks_record_df = None
 
 for _dim, _trial in tasks:
     print('initiating line trial dim: %f, trial%f' % (_dim, _trial))
-- 
2.43.0


From 19119870430c97ebd7f7037b4e6530c114d430d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 27/44] fix: the insertion planner's motion check accepts an
 empty batch

---
 exps/tamp_environment/kuka_carry/run.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index b16cee2..a8f2407 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -76,6 +76,8 @@ class BagOfBoundingBoxes(Environment):
     
     def is_motion_valid(self, start, goal):
         valids = np.ones(start.shape[0]).astype(bool)
+        if start.shape[0] == 0:
+            return valids
         obb_interps = []
         # print(start.shape[0])
         num_steps = int(np.max(np.linalg.norm(start-goal, axis=1))/0.03)
-- 
2.43.0


From 5706a81229fe7a97621ae2c805aa95e7af547bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 28/44] fix: the insertion planner removes its scratch files

---
 exps/tamp_environment/kuka_carry/run.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index a8f2407..5d08599 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -21,6 +21,7 @@ from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM, SimplePRM
 from nonasymptotic.envs import Environment
 import os
 import argparse
+import contextlib
 import pybullet as p
 import copy
 import string
@@ -130,6 +131,10 @@ def get_insert_motion_gen(robot,
                           adaptive_n=False):
     
     def fn(conf1, conf2, body, grasp, fluents=[]):
+        with contextlib.ExitStack() as cleanup:
+            return plan(cleanup, conf1, conf2, body, grasp)
+
+    def plan(cleanup, conf1, conf2, body, grasp):
         print("Planning for object:"+str(body))
         conf1.assign()
         grasp.attachment().assign()
@@ -174,6 +179,7 @@ def get_insert_motion_gen(robot,
                                      prm_env_2d.sample_from_env, 
                                      prm_env_2d.distance_to_path, 
                                      seed=seed, verbose=False)
+        cleanup.callback(prm.reset)
         start_vec = np.expand_dims(to_flat(start_oobb.pose), axis=0)
         end_vec = np.expand_dims(to_flat(end_oobb.pose), axis=0)
         assert prm_env_2d.is_motion_valid(start_vec, start_vec), "Start in collision"
-- 
2.43.0


From 579000e039b74558be386233989cfa5f1a7d0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 29/44] fix: the insertion planner's collision test scales a
 rotated box along the box's own axes

---
 exps/tamp_environment/kuka_carry/separating_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/separating_axis.py b/exps/tamp_environment/kuka_carry/separating_axis.py
index e1563d5..eeb9117 100644
--- a/exps/tamp_environment/kuka_carry/separating_axis.py
+++ b/exps/tamp_environment/kuka_carry/separating_axis.py
@@ -46,7 +46,7 @@ def compute_vertices_vectorized(centers, half_extents, orientations):
     signs = np.array([[-1, -1, -1], [-1, -1, 1], [-1, 1, -1], [-1, 1, 1],
                       [1, -1, -1], [1, -1, 1], [1, 1, -1], [1, 1, 1]])
     vertices = centers[:, np.newaxis, :] + np.sum(
-        half_extents[:, np.newaxis, :, np.newaxis] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
+        half_extents[:, np.newaxis, np.newaxis, :] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
         axis=-1
     )
     return vertices
-- 
2.43.0


From 06cb8488e4e0481ae90e6d39c26318de9536311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 30/44] fix: the insertion planner asks for more samples at
 every growth

---
 exps/tamp_environment/kuka_carry/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 5d08599..3275a8b 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -201,7 +201,7 @@ def get_insert_motion_gen(robot,
 
             if(len(path)>0):
                 break
-            num_samples = num_samples*factor
+            num_samples = max(num_samples*factor, int(num_samples)+1)
         
         
         print("Path: "+str(path))
-- 
2.43.0


From 3a5a9e1e4224d067a29643d0950b6a4184674437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 31/44] fix: give every robot planning run a directory of its
 own

Two runs with the same --save-dir that read the same time shared a directory: the second one
died at creating pddl/, or after it both wrote to one log.
---
 exps/tamp_environment/kuka_carry/run.py     | 16 +++++++++++++---
 exps/tamp_environment/turtlebot_move/run.py | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 3275a8b..c6dcce1 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -252,6 +252,18 @@ def get_insert_motion_gen(robot,
 
     return fn
 
+def make_save_dir(save_dir):
+    """Creates a directory of this run's own, also when another run of the same moment took the name."""
+    attempt, i = save_dir, 0
+    while True:
+        try:
+            os.makedirs(attempt)
+            return attempt
+        except FileExistsError:
+            i += 1
+            attempt = "{}-{}".format(save_dir, i)
+
+
 def setup_logging(save_dir):
     log_level = logging.DEBUG
     logging.basicConfig(
@@ -632,9 +644,7 @@ def main():
 
     pbu.connect(use_gui=args.vis)
 
-    save_dir = os.path.join(args.save_dir, "{}_{}".format(str( np.random.randint(0,10000)), str(time.time())))
-    if not os.path.exists(save_dir):
-        os.makedirs(save_dir)
+    save_dir = make_save_dir(os.path.join(args.save_dir, "{}_{}".format(str( np.random.randint(0,10000)), str(time.time()))))
     setup_logging(save_dir=save_dir)
 
     os.makedirs(os.path.join(save_dir, "pddl"))
diff --git a/exps/tamp_environment/turtlebot_move/run.py b/exps/tamp_environment/turtlebot_move/run.py
index e84d587..60f3490 100644
--- a/exps/tamp_environment/turtlebot_move/run.py
+++ b/exps/tamp_environment/turtlebot_move/run.py
@@ -33,6 +33,18 @@ class StreamToLogger:
     def flush(self):
         pass
 
+def make_save_dir(save_dir):
+    """Creates a directory of this run's own, also when another run of the same moment took the name."""
+    attempt, i = save_dir, 0
+    while True:
+        try:
+            os.makedirs(attempt)
+            return attempt
+        except FileExistsError:
+            i += 1
+            attempt = "{}-{}".format(save_dir, i)
+
+
 def setup_logging(save_dir):
     log_level = logging.DEBUG
     logging.basicConfig(
@@ -185,9 +197,7 @@ def main():
 
     connect(use_gui=args.vis)
     
-    save_dir = os.path.join(args.save_dir, str(time.time()))
-    if not os.path.exists(save_dir):
-        os.makedirs(save_dir)
+    save_dir = make_save_dir(os.path.join(args.save_dir, str(time.time())))
     setup_logging(save_dir=save_dir)
     
     os.makedirs(os.path.join(save_dir, "pddl"))
-- 
2.43.0


From 0e65458187339e97e72c42f482645811f8db1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 32/44] fix: quote the experiment's paths in its job script

An experiment called 'my exp' was launched with its paths cut in pieces.
---
 exps/submit_and_run_experiment_job.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index f41d961..40afa57 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -7,6 +7,7 @@ from datetime import datetime
 import argparse
 import json
 import glob
+import shlex
 import sys
 import os
 import subprocess
@@ -83,7 +84,7 @@ if __name__ == "__main__":
         else:
             script_name = 'run_narrow_passage_clearance_trial.py'
         submit_script_text = submit_sh_script_prototype_text.format(script_name=script_name,
-                                                                    arg0=config_path, arg1=save_path)
+                                                                    arg0=shlex.quote(config_path), arg1=shlex.quote(save_path))
         submit_script_path = os.path.join(save_path, 'submit_job.sh')
         # the script appears last and in one piece: it marks the experiment as completely set up (see --resume).
         with open(submit_script_path + '.tmp', 'w') as submit_script_file:
-- 
2.43.0


From e6f6637fa951759847fbceadb3e60a66dd1ae708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 33/44] fix: aggregate experiments whose names hold pattern
 characters

The name prefix and the experiment's directory were used as patterns, so results of an experiment
called 'exp[1]' were not found.
---
 exps/aggregate_runtimes_for_tuning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index d8b77af..8c14899 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -14,12 +14,12 @@ if __name__ == '__main__':
     parser.add_argument('--df-out-name', type=str, default=None)
     args = parser.parse_args()
 
-    exp_dirs = glob.glob('results/%s*' % args.name_prefix)
+    exp_dirs = glob.glob('results/%s*' % glob.escape(args.name_prefix))
     exp_dirs.sort(key=os.path.getmtime)
     latest_exp_dir = exp_dirs[-1]
 
     # only the result files of the tasks, not an earlier output of this script
-    mini_out_csvs = [p for p in glob.glob(latest_exp_dir + '/out*.csv')
+    mini_out_csvs = [p for p in glob.glob(glob.escape(latest_exp_dir) + '/out*.csv')
                      if re.fullmatch(r'out\d+\.csv', os.path.basename(p))]
     mini_out_dfs = list(map(lambda p: pd.read_csv(p, index_col=0), mini_out_csvs))
     big_out = pd.concat(mini_out_dfs)
-- 
2.43.0


From bca30f96a9b03501e366ca7eabffab3e20e7beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 34/44] fix: the success plot reads the arguments runs log and
 counts every run

---
 .../turtlebot_move/time_success_plot.py        | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/time_success_plot.py b/exps/tamp_environment/turtlebot_move/time_success_plot.py
index 949af72..ddb8942 100644
--- a/exps/tamp_environment/turtlebot_move/time_success_plot.py
+++ b/exps/tamp_environment/turtlebot_move/time_success_plot.py
@@ -1,3 +1,4 @@
+import ast
 import numpy as np
 import matplotlib.pyplot as plt
 import os
@@ -21,21 +22,20 @@ for root, dirs, files in os.walk(parent_directory):
     for file in files:
         print(file)
         if file.endswith(".log"):  # Checks if the file is a log file
+            # (runs that start at the same moment have logs of the same name, in different directories)
             file_path = os.path.join(root, file)
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
-                    if("Namespace" in line):
-                        match = re.search(r"adaptive_n=([^ ,]+),", line)
-                        adaptive_n[file] = int(bool(match.group(1)=="True"))
-                        match = re.search(r"min_samples=([^ ,]+),", line)
-                        min_samples[file] = int(match.group(1))
-                        match = re.search(r"max_samples=([^ ,]+),", line)
-                        max_samples[file] = int(match.group(1))
+                    if line.startswith("Experiment arguments:") and i+1 < len(lines):
+                        run_args = ast.literal_eval(lines[i+1].strip())
+                        adaptive_n[file_path] = int(run_args["adaptive_n"])
+                        min_samples[file_path] = run_args["min_samples"]
+                        max_samples[file_path] = run_args["max_samples"]
                     if line.startswith("Solved:"):
-                        successes[file] = int(("True" in lines[i].strip()))
+                        successes[file_path] = int(("True" in lines[i].strip()))
                     if(line.startswith("Time:")):
-                        times[file] = float(lines[i].strip().replace("Time: ", ""))
+                        times[file_path] = float(lines[i].strip().replace("Time: ", ""))
 
 print(len(adaptive_n))
 print(len(min_samples))
-- 
2.43.0


From 6ad504aea12f66c8112fb86658c2c15722b9253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 35/44] fix: the bound plot reads current logs, counts every
 run and accepts runs without a route

---
 exps/tamp_environment/turtlebot_move/bound_plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index 63fb471..d589b06 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -1,4 +1,4 @@
-from nonasymptotic.util import compute_numerical_bound
+from nonasymptotic.bound import compute_numerical_bound
 import numpy as np
 import matplotlib.pyplot as plt
 import os
@@ -21,11 +21,11 @@ for root, dirs, files in os.walk(parent_directory):
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
-                    if "Delta:" in line and i+1 < len(lines):
-                        numbers[file] = float(lines[i+1].strip())
+                    if line.startswith("Delta:"):
+                        numbers[file_path] = float(line.strip().replace("Delta: ", ""))
 
                     if "Found solution in" in line and i+1 < len(lines):
-                        samples[file] = float(lines[i+1].strip())
+                        samples[file_path] = float(lines[i+1].strip())
 
 print(len(samples))
 bounds = []
@@ -34,7 +34,7 @@ for delta in space:
     n, _ = compute_numerical_bound(delta, 0.9, 1, 2, None)
     bounds.append(n)
 plt.plot(space, bounds)
-plt.scatter(*zip(*[(numbers[k], v) for k, v in samples.items()]))
+plt.scatter([numbers[k] for k in samples], list(samples.values()))
 plt.xlabel("Delta")
 plt.ylabel("Num required samples")
 plt.title("Pybullet navigation")
-- 
2.43.0


From 940d60f496f7cf8181124e8574ec31d018f49590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 36/44] fix: robot planning runs accept fractional growth
 factors

---
 exps/tamp_environment/kuka_carry/run.py     | 2 +-
 exps/tamp_environment/turtlebot_move/run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index c6dcce1..cb42f88 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -628,7 +628,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--min-samples', default=500, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=30000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.04, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--theta-margin', default=np.pi/12.0, type=float, help='')
     parser.add_argument('--collision-buffer', default=0.02, type=float, help='')
diff --git a/exps/tamp_environment/turtlebot_move/run.py b/exps/tamp_environment/turtlebot_move/run.py
index 60f3490..6755387 100644
--- a/exps/tamp_environment/turtlebot_move/run.py
+++ b/exps/tamp_environment/turtlebot_move/run.py
@@ -182,7 +182,7 @@ def main():
     parser.add_argument('--optimal', action='store_true', help='Runs in an anytime mode')
     parser.add_argument('--min-samples', default=10, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=2000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.05, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--seed', default=-1, type=int, help='Seed for selection of robot size and collision placement')
     parser.add_argument('--save-dir', default="./logs/debug", type=str, help='Directory to save planning results')
-- 
2.43.0


From 8dd4813411167ffe60126fbe3d59655b65bd3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 37/44] fix: the arm experiment uses its seed

---
 exps/tamp_environment/kuka_carry/run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index cb42f88..57318db 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -651,7 +651,10 @@ def main():
 
     print("Experiment arguments:")
     print(vars(args))
-    
+
+    if(args.seed >= 0):
+        random.seed(args.seed)
+        np.random.seed(args.seed)
 
     while(True):
         teleport = False
-- 
2.43.0


From 735fac85d183e399f7e144cdc3a5441aaa8abcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 38/44] fix: the scatter notebooks count every run and pass
 over runs stopped early

---
 .../kuka_carry/time_success_scatter.ipynb            | 12 +++++++-----
 .../kuka_carry/time_success_scatter_adaptive.ipynb   | 12 +++++++-----
 .../turtlebot_move/time_success_scatter.ipynb        | 12 +++++++-----
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb b/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb
index d0fa422..87ef92c 100644
--- a/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb
+++ b/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb
@@ -96,7 +96,9 @@
     "            file_path = os.path.join(root, file)\n",
     "            with open(file_path, 'r') as f:\n",
     "                lines = f.readlines()\n",
-    "                args[file] = ast.literal_eval(lines[1])\n",
+    "                if(len(lines) < 2 or not lines[1].endswith(\"\\n\")):\n",
+    "                    continue  # a run stopped before its arguments were recorded\n",
+    "                args[file_path] = ast.literal_eval(lines[1])\n",
     "                # print(float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\")))\n",
     "                time = float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\"))\n",
     "                \n",
@@ -104,15 +106,15 @@
     "                \n",
     "                for i, line in enumerate(lines):\n",
     "                    if line.startswith(\"Solved:\"):\n",
-    "                        if(args[file][\"adaptive_n\"]):\n",
+    "                        if(args[file_path][\"adaptive_n\"]):\n",
     "                            print(line)\n",
-    "                        successes[file] = int((\"True\" in lines[i].strip()))\n",
+    "                        successes[file_path] = int((\"True\" in lines[i].strip()))\n",
     "\n",
-    "                        if (args[file][\"adaptive_n\"] and not successes[file]):\n",
+    "                        if (args[file_path][\"adaptive_n\"] and not successes[file_path]):\n",
     "                            print(file_path)\n",
     "                    if(line.startswith(\"Time:\")):\n",
     "                        # print(file_path)\n",
-    "                        times[file] = float(lines[i].strip().replace(\"Time: \", \"\"))\n",
+    "                        times[file_path] = float(lines[i].strip().replace(\"Time: \", \"\"))\n",
     "           \n"
    ]
   },
diff --git a/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb b/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb
index 39e1df4..8740a89 100644
--- a/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb
+++ b/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb
@@ -200,7 +200,9 @@
     "            file_path = os.path.join(root, file)\n",
     "            with open(file_path, 'r') as f:\n",
     "                lines = f.readlines()\n",
-    "                args[file] = ast.literal_eval(lines[1])\n",
+    "                if(len(lines) < 2 or not lines[1].endswith(\"\\n\")):\n",
+    "                    continue  # a run stopped before its arguments were recorded\n",
+    "                args[file_path] = ast.literal_eval(lines[1])\n",
     "                # print(float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\")))\n",
     "                time = float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\"))\n",
     "                \n",
@@ -208,15 +210,15 @@
     "                \n",
     "                for i, line in enumerate(lines):\n",
     "                    if line.startswith(\"Solved:\"):\n",
-    "                        if(args[file][\"adaptive_n\"]):\n",
+    "                        if(args[file_path][\"adaptive_n\"]):\n",
     "                            print(line)\n",
-    "                        successes[file] = int((\"True\" in lines[i].strip()))\n",
+    "                        successes[file_path] = int((\"True\" in lines[i].strip()))\n",
     "\n",
-    "                        if (args[file][\"adaptive_n\"] and not successes[file]):\n",
+    "                        if (args[file_path][\"adaptive_n\"] and not successes[file_path]):\n",
     "                            print(file_path)\n",
     "                    if(line.startswith(\"Time:\")):\n",
     "                        # print(file_path)\n",
-    "                        times[file] = float(lines[i].strip().replace(\"Time: \", \"\"))\n",
+    "                        times[file_path] = float(lines[i].strip().replace(\"Time: \", \"\"))\n",
     "           \n"
    ]
   },
diff --git a/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb b/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb
index 9b133df..c27b2be 100644
--- a/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb
+++ b/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb
@@ -45,10 +45,12 @@
     "            file_path = os.path.join(root, file)\n",
     "            with open(file_path, 'r') as f:\n",
     "                lines = f.readlines()\n",
-    "                args[file] = ast.literal_eval(lines[1])\n",
+    "                if(len(lines) < 2 or not lines[1].endswith(\"\\n\")):\n",
+    "                    continue  # a run stopped before its arguments were recorded\n",
+    "                args[file_path] = ast.literal_eval(lines[1])\n",
     "                # print(float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\")))\n",
     "                time = float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\"))\n",
-    "                # if(args[file][\"adaptive_n\"]):\n",
+    "                # if(args[file_path][\"adaptive_n\"]):\n",
     "    \n",
     "                #     continue\n",
     "                \n",
@@ -56,13 +58,13 @@
     "                for i, line in enumerate(lines):\n",
     "                    if line.startswith(\"Solved:\"):\n",
     "                        \n",
-    "                        successes[file] = int((\"True\" in lines[i].strip()))\n",
+    "                        successes[file_path] = int((\"True\" in lines[i].strip()))\n",
     "\n",
-    "                        if (args[file][\"adaptive_n\"] and not successes[file]):\n",
+    "                        if (args[file_path][\"adaptive_n\"] and not successes[file_path]):\n",
     "                            print(file_path)\n",
     "                    if(line.startswith(\"Time:\")):\n",
     "                        # print(file_path)\n",
-    "                        times[file] = float(lines[i].strip().replace(\"Time: \", \"\"))\n",
+    "                        times[file_path] = float(lines[i].strip().replace(\"Time: \", \"\"))\n",
     "           \n"
    ]
   },
-- 
2.43.0


From de6d10645e5fc6360a900e23249f08f23818013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 39/44] fix: kNN trials record every neighbor count their
 samples can provide in any order of the schedule

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 4bffaaf..0c1ea93 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -33,7 +33,7 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
 
         for nn in neighbor_schedule:
             if nn >= s:
-                break
+                continue
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
                 (dim, s, nn, effective_rad, build_time, delta_clear, rng_seed)
-- 
2.43.0


From 966c63b8d52fbd2f29b9afc29c11e11b37bab48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 40/44] fix: a kNN trial passes over sample counts too small
 for any of its neighbor counts

---
 exps/run_knn_radius_trial.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 0c1ea93..9285360 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -23,7 +23,10 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
         for i_s in range(s):
             data[i_s, :] = env.sample_from_env()
 
-        k_neighbors = np.max([_nn for _nn in neighbor_schedule if _nn < s])
+        feasible_neighbors = [_nn for _nn in neighbor_schedule if _nn < s]
+        if len(feasible_neighbors) == 0:
+            continue  # too few samples for any of the neighbor counts
+        k_neighbors = np.max(feasible_neighbors)
 
         graph_build_st = time.time()
         _, dist_list = knn_builder.new_graph_from_data(data, k_neighbors)
@@ -39,11 +42,11 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
                 (dim, s, nn, effective_rad, build_time, delta_clear, rng_seed)
             )
 
-        df_record = pd.DataFrame(record, columns=[
-            "dim", "n_samples", "n_neighbors",
-            "eff_rad", "build_time",
-            "delta_clearance", "seed"
-        ])
+    df_record = pd.DataFrame(record, columns=[
+        "dim", "n_samples", "n_neighbors",
+        "eff_rad", "build_time",
+        "delta_clearance", "seed"
+    ])
 
     return df_record
 
-- 
2.43.0


From beebb2d34833e283e689c95ee188f7f04b8b6b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 41/44] fix: aggregating kNN-radius results prints their time
 statistics instead of dying

---
 exps/aggregate_runtimes_for_tuning.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index 8c14899..e9977cf 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -35,8 +35,10 @@ if __name__ == '__main__':
     build_mean = cut_big_out['build_time'].mean()
     build_std = cut_big_out['build_time'].std()
 
-    check_mean = cut_big_out['check_time'].mean()
-    check_std = cut_big_out['check_time'].std()
-
     print('Trial build time mean: %f +/- %f' % (build_mean, build_std))
-    print('Trial check time mean: %f +/- %f' % (check_mean, check_std))
+
+    # (the kNN-radius trials check nothing)
+    if 'check_time' in cut_big_out:
+        check_mean = cut_big_out['check_time'].mean()
+        check_std = cut_big_out['check_time'].std()
+        print('Trial check time mean: %f +/- %f' % (check_mean, check_std))
-- 
2.43.0


From ae6255ec4c55ed6a75706a383b48b2bf2624bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:12 +0000
Subject: [PATCH 42/44] fix: an insertion fails when the arm cannot follow its
 path instead of leaving configurations out

---
 exps/tamp_environment/kuka_carry/run.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 57318db..528661d 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -240,10 +240,13 @@ def get_insert_motion_gen(robot,
             pbu.set_pose(body, pose)
             body_pose = BodyPose(body, pose)
             conf = get_ik_fn(robot, body, body_pose, grasp, randomize=False, teleport=teleport)
-            if(conf is not None):
-                conf_path.append(conf.values)
-                conf_joints = conf.joints
-                grasp.assign()
+            if(conf is None):
+                # (leaving it out would join configurations whose motion nobody checked)
+                print("The arm cannot follow the path. Cannot complete planning.")
+                raise SubplanFailed
+            conf_path.append(conf.values)
+            conf_joints = conf.joints
+            grasp.assign()
 
         command = Command(
             [BodyPath(robot, conf_path, joints=conf_joints, attachments=[grasp])]
-- 
2.43.0


From dd1e6cb9f68b41aa87dde928d24fd9e13f80545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:53 +0000
Subject: [PATCH 43/44] fix: a failure late in a growth or limit change leaves
 the roadmap and the saved graph as they were

---
 nonasymptotic/prm.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 690daf5..f361d88 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -6,6 +6,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 import networkit as nk
 import functools
+import copy
 import uuid
 import os
 
@@ -430,9 +431,6 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         master_graph = self._nn_edge_list_and_dist_list_to_nk_prm_graph(self.master_edges, self.master_dists)
         master_graph.indexEdges()
 
-        # we'll save the master graph -- don't want to hold multiple PRMs in RAM.
-        self._write_graph_cache(master_graph)
-
         # then write in the master graph.
         self._g_prm = master_graph
 
@@ -452,6 +450,11 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         if self.truncate_to_eff_rad:
             self.set_connection_radius(self.certified_max_conn_r)
 
+        # we'll save the master graph -- don't want to hold multiple PRMs in RAM. This comes last, so that the
+        # saved graph stays that of the samples we have if anything above fails.
+        self._write_graph_cache(master_graph)
+
+        if self.truncate_to_eff_rad:
             # returned the certified max and the neighbor dists (since they will be used in experiment runs)
             # it's a bit of a kludge, but we return here so we do not need to duplicate the sorted dists
             # (could make gigabytes of a difference)
@@ -468,7 +471,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             if self.conn_r is not None:
                 self._remove_longer_edges(self.conn_r)
 
-        # next, throw away edges we don't need.
+        # next, throw away edges we don't need (from a copy, since we keep the graph we have if anything below fails).
+        self._g_prm = copy.copy(self._g_prm)
         self._remove_further_neighbors(new_k_nearest_neighbors)
 
         self.k_neighbors = new_k_nearest_neighbors
@@ -505,6 +509,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._remove_further_neighbors(self.k_neighbors)
 
         # then iterate over and remove the edges that are too large
+        # (from a copy, since we keep the graph we have if anything below fails)
+        self._g_prm = copy.copy(self._g_prm)
         self._remove_longer_edges(new_conn_r)
 
         self.conn_r = new_conn_r
-- 
2.43.0


From f819f0200ea098623161d7d2415df823fa1e5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:45 +0000
Subject: [PATCH 44/44] fix: clearance trials accept configs that list their
 dimensions once, such as narrow_micro_test_run

---
 exps/run_narrow_passage_clearance_trial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 1ab9111..4a23652 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -237,17 +237,21 @@ if __name__ == '__main__':
     # generate the options and select the ones this task will perform
     print('beginning task id %i num_tasks %i' % (task_id, num_tasks))
 
+    # configs can also list the dimensions once, for both types of PRM (e.g. narrow_micro_test_run.json)
+    radius_dims = config['radius_dims_to_test'] if 'radius_dims_to_test' in config else config['dims_to_test']
+    knn_dims = config['knn_dims_to_test'] if 'knn_dims_to_test' in config else config['dims_to_test']
+
     radius_exp_combos = it.product(
         ['radius'],
         config['deltas'],
-        config['radius_dims_to_test'],
+        radius_dims,
         range(config['n_trials'])
     )
 
     knn_exp_combos = it.product(
         ['knn'],
         config['deltas'],
-        config['knn_dims_to_test'],
+        knn_dims,
         range(config['n_trials'])
     )
 
-- 
2.43.0

