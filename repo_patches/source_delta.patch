From 65ea8d0b3c8b0695a643645d5e74eec5457881e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 01/72] fix: max-product on graphs without edges and on
 parallel edges

is_chain compared by broadcasting, so two nodes without an edge (and two
nodes with a repeated edge) were handed to the Viterbi code as a chain, which
then read past the end of the potentials; is_forest failed on an empty edge list.
---
 pystruct/inference/maxprod.py     | 2 ++
 pystruct/utils/graph_functions.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index b08900e..64b056a 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -15,6 +15,8 @@ def edges_to_graph(edges, n_vertices=None):
 
 def is_chain(edges, n_vertices):
     """Check if edges specify a chain and are in order."""
+    if len(edges) != n_vertices - 1:
+        return False
     return (np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
             and np.all(edges[:, 1] == np.arange(1, n_vertices)))
 
diff --git a/pystruct/utils/graph_functions.py b/pystruct/utils/graph_functions.py
index c7004c2..fba1051 100644
--- a/pystruct/utils/graph_functions.py
+++ b/pystruct/utils/graph_functions.py
@@ -4,7 +4,8 @@ import numpy as np
 def is_forest(edges, n_vertices=None):
     if n_vertices is not None and len(edges) > n_vertices - 1:
         return False
-    n_vertices = np.max(edges) + 1
+    if n_vertices is None:
+        n_vertices = np.max(edges) + 1 if len(edges) else 0
     parents = -np.ones(n_vertices)
     visited = np.zeros(n_vertices, dtype=np.bool)
     neighbors = [[] for i in range(n_vertices)]
-- 
2.43.0


From f3ed40ea7a2eec463dfc0840464a758279d9c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 02/72] fix: max-product on trees returned a non-maximal
 labeling if there are ties

Each node took the argmax of its own max-marginals; with several maximizers
the nodes could pick from different ones. Decode from the roots instead.
---
 pystruct/inference/maxprod.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 64b056a..0dc64d4 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -76,7 +76,6 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
         neighbors[edge[1]].append(edge[0])
         pairwise_weights[edge[1]].append(pw.T)
 
-    messages_forward = np.zeros((n_vertices, n_states))
     messages_backward = np.zeros((n_vertices, n_states))
     pw_forward = np.zeros((n_vertices, n_states, n_states))
     # build a breadth first search of the tree
@@ -111,20 +110,15 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
                              pw_forward[node], axis=1)
             message -= message.max()
             messages_backward[parent] += message
-    # messages from root back to leaves
+    # decode from root to leaves. Maximizing the max-marginals of each node
+    # separately would mix different maximizers if there are ties.
+    y = np.zeros(n_vertices, dtype=np.int)
     for node in traversal:
-        parent = parents[node]
-        if parent != -1:
-            message = messages_forward[parent] + unary_potentials[parent] + pw_forward[node].T
-            # leaves to root messages from other children
-            message += messages_backward[parent] - np.max(messages_backward[node]
-                                                          + unary_potentials[node]
-                                                          + pw_forward[node], axis=1)
-            message = message.max(axis=1)
-            message -= message.max()
-            messages_forward[node] += message
-
-    return np.argmax(unary_potentials + messages_forward + messages_backward, axis=1)
+        belief = unary_potentials[node] + messages_backward[node]
+        if parents[node] != -1:
+            belief = belief + pw_forward[node][y[parents[node]]]
+        y[node] = np.argmax(belief)
+    return y
 
 
 def iterative_max_product(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 62ee9c71d0dfdebd8f3e091b2a8062ffdb1b5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 03/72] fix: DirectionalGridCRF with neighborhood=8 has four
 edge directions

edge_list_to_features always produced two columns, so all but the first
direction were merged and 8-connected directional grids could not be used.
---
 pystruct/utils/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystruct/utils/graph.py b/pystruct/utils/graph.py
index affd1d5..d8e5198 100644
--- a/pystruct/utils/graph.py
+++ b/pystruct/utils/graph.py
@@ -21,7 +21,9 @@ def make_grid_edges(x, neighborhood=4, return_lists=False):
 
 def edge_list_to_features(edge_list):
     edges = np.vstack(edge_list)
-    edge_features = np.zeros((edges.shape[0], 2))
-    edge_features[:len(edge_list[0]), 0] = 1
-    edge_features[len(edge_list[0]):, 1] = 1
+    edge_features = np.zeros((edges.shape[0], len(edge_list)))
+    start = 0
+    for i, direction in enumerate(edge_list):
+        edge_features[start:start + len(direction), i] = 1
+        start += len(direction)
     return edge_features
-- 
2.43.0


From 36f6485c5c48515b3aa224202b7c4712d13fe8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 04/72] fix: BinaryClf loss-augmented inference returned label
 0 on the margin

np.sign is 0 where score and loss cancel, which is no label: joint_feature
then raised, and the batch version counted a non-existing class.
---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..35fbd94 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,10 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From bc5d0bfefc5383c97bbc615b3fc036fa4449d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 05/72] fix: integer class weights broke loss-augmented
 inference

The Cython helper takes float64 weights only, so class_weight=[1, 2] raised
'Buffer dtype mismatch' in loss_augmented_inference.
---
 pystruct/models/base.py      | 2 +-
 pystruct/models/typed_crf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index 8e3fa44..b0b9690 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -112,7 +112,7 @@ class StructuredModel(object):
             if len(self.class_weight) != n_things:
                 raise ValueError("class_weight must have length n_states or"
                                  " be None")
-            self.class_weight = np.array(self.class_weight)
+            self.class_weight = np.array(self.class_weight, dtype=np.float64)
             self.uniform_class_weight = False
         else:
             self.class_weight = np.ones(n_things)
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..90418b2 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -86,7 +86,7 @@ class TypedCRF(CRF):
                                      " per node type. Wrong for type %d" % i)
 
             # class weights are computed by type and simply concatenated
-            self.l_class_weight = [np.asarray(class_weight)
+            self.l_class_weight = [np.asarray(class_weight, dtype=np.float64)
                                    for class_weight in l_class_weight]
         else:
             self.l_class_weight = [np.ones(n) for n in self.l_n_states]
-- 
2.43.0


From 3de0a348a0c805b1c41b6b29d8225c4b11db2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 06/72] fix: return_energy was silently ignored by max-product
 and unary inference

The documented (labels, energy) pair was not returned, so callers that unpack
it, like GridCRF.inference(..., return_energy=True), broke or mixed up labels.
---
 pystruct/inference/inference_methods.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 1b85793..afdb373 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from .linear_programming import lp_general_graph
 from .maxprod import inference_max_product
-from .common import _validate_params
+from .common import _validate_params, compute_energy
 
 def get_installed(method_filter=None):
     if method_filter is None:
@@ -112,14 +112,19 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
         return inference_ogm(unary_potentials, pairwise_potentials, edges,
                              return_energy=return_energy, **kwargs)
     elif inference_method == "unary":
-        return inference_unaries(unary_potentials, pairwise_potentials, edges,
-                                 **kwargs)
+        y = inference_unaries(unary_potentials, pairwise_potentials, edges,
+                              **kwargs)
     elif inference_method == "max-product":
-        return inference_max_product(unary_potentials, pairwise_potentials,
-                                     edges, **kwargs)
+        y = inference_max_product(unary_potentials, pairwise_potentials,
+                                  edges, **kwargs)
     else:
         raise ValueError("inference_method must be 'max-product', 'lp', 'ad3',"
                          " 'qpbo' or 'ogm', got %s" % inference_method)
+    # these solvers don't report an energy themselves
+    if return_energy:
+        return y, -compute_energy(unary_potentials, pairwise_potentials, edges,
+                                  y)
+    return y
 
 
 def inference_ogm(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 779f3450d1f676778271fa0428cd74cb71e6cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 07/72] fix: LatentDirectionalGridCRF.loss_augmented_inference
 lacked return_energy

It overrides a method that has the parameter and without it raised TypeError.
---
 pystruct/models/latent_grid_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index ed312b1..34c9e7d 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -85,7 +85,9 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
                         symmetric=False)
         return np.array(H).reshape(Y.shape)
 
-    def loss_augmented_inference(self, x, h, w, relaxed=False):
+    def loss_augmented_inference(self, x, h, w, relaxed=False,
+                                 return_energy=False):
         h = LatentGridCRF.loss_augmented_inference(self, x, h, w,
-                                                   relaxed=relaxed)
+                                                   relaxed=relaxed,
+                                                   return_energy=return_energy)
         return h
-- 
2.43.0


From 48adf19d73fcdadeef001b67cc059acb6135e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 08/72] fix: MultiLabelClf.joint_feature of relaxed labels
 failed for integer features

---
 pystruct/models/multilabel_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index ed305a8..3c083cf 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -86,7 +86,8 @@ class MultiLabelClf(CRF):
             y_cont, pairwise_marginals = y
             y_signs = 2 * y_cont[:, 1] - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            # not in-place: x may be an integer array
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
         else:
             # discrete y
             y_signs = 2 * y - 1
-- 
2.43.0


From 902192570dee83a43f0cd02e01292eb70cb7cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 09/72] fix: MultiLabelClf(n_features=...) failed if n_labels
 is to be inferred

---
 pystruct/models/multilabel_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 3c083cf..2bee751 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -42,7 +42,7 @@ class MultiLabelClf(CRF):
 
     def _set_size_joint_feature(self):
         # try to set the size of joint_feature if possible
-        if self.n_features is not None and self.n_states is not None:
+        if self.n_features is not None and self.n_labels is not None:
             if self.edges is None:
                 self.edges = np.zeros(shape=(0, 2), dtype=np.int)
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
-- 
2.43.0


From ba3905e8dac3209139e2f995e878f4d525b71e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 10/72] fix: TypedCRF.initialize checked nothing in Python 3

---
 pystruct/models/typed_crf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 90418b2..7bef79c 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -155,9 +155,12 @@ class TypedCRF(CRF):
         It is optional to call it. Does data checking only!
         """
         if isinstance(X, list):
-            map(self._check_size_x, X)
+            # no map() here: it is lazy in Python 3
+            for x in X:
+                self._check_size_x(x)
             if not (Y is None):
-                map(self._check_size_xy, X, Y)
+                for x, y in zip(X, Y):
+                    self._check_size_xy(x, y)
         else:
             self._check_size_x(X)
             self._check_size_xy(X, Y)
-- 
2.43.0


From 11f162154bad6d0223803f243143fdb7ae56164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 11/72] fix: forbidden states of latent CRFs were chosen for
 large weights

---
 pystruct/models/latent_graph_crf.py |  6 ++++--
 pystruct/models/latent_node_crf.py  | 20 ++++++++++++--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index c77e5b6..b209e20 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -174,9 +174,11 @@ class LatentGraphCRF(GraphCRF):
         # forbid h that is incompoatible with y
         # by modifying unary params
         other_states = self._states_map != y[:, np.newaxis]
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[other_states] = -1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
+        max_entry = np.max(np.abs(np.hstack([unary_potentials.ravel(),
+                                             pairwise_potentials.ravel(),
+                                             1])))
+        unary_potentials[other_states] = -1e2 * max_entry
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 14cbd84..c3f0174 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -204,7 +204,9 @@ class LatentNodeCRF(GraphCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
-        max_entry = np.maximum(np.max(unaries), 1)
+        pairwise = self._get_pairwise_potentials(x, w)
+        max_entry = np.max(np.abs(np.hstack([unaries.ravel(),
+                                             pairwise.ravel(), 1])))
         unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
         # forbid observed states for latent nodes
         unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
@@ -231,9 +233,9 @@ class LatentNodeCRF(GraphCRF):
 
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
-        # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
+        # clamp observed nodes by forbidding all other states
+        other_states = np.arange(self.n_states) != y[:, np.newaxis]
+        unary_potentials[:len(y)][other_states] = np.min(unary_potentials)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
@@ -504,7 +506,9 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
-        max_entry = np.maximum(np.max(unaries), 1)
+        pairwise = self._get_pairwise_potentials(x, w)
+        max_entry = np.max(np.abs(np.hstack([unaries.ravel(),
+                                             pairwise.ravel(), 1])))
         unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
         # forbid observed states for latent nodes
         unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
@@ -531,9 +535,9 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
 
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
-        # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
+        # clamp observed nodes by forbidding all other states
+        other_states = np.arange(self.n_states) != y[:, np.newaxis]
+        unary_potentials[:len(y)][other_states] = np.min(unary_potentials)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From aec22602415235e84368755ea5cb2767b4b4a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 12/72] fix: initial hidden states of instances without hidden
 nodes (LatentNodeCRF)

---
 pystruct/models/latent_node_crf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index c3f0174..b0feae3 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -43,7 +43,7 @@ def kmeans_init(X, Y, n_labels, n_hidden_states, latent_node_features=False):
 
         graph = sparse.coo_matrix((np.ones(edges.shape[0]), edges.T),
                                   (n_visible + n_hidden, n_visible + n_hidden))
-        graph = (graph + graph.T)[-n_hidden:, :n_visible]
+        graph = (graph + graph.T)[n_visible:, :n_visible]
 
         neighbors = graph * labels_one_hot.reshape(n_visible, -1)
         # normalize (for borders)
@@ -60,7 +60,11 @@ def kmeans_init(X, Y, n_labels, n_hidden_states, latent_node_features=False):
     km.fit(all_feats_stacked)
     H = []
     for y, feats in zip(Y, all_feats):
-        H.append(np.hstack([y, km.predict(feats) + n_labels]))
+        if len(feats):
+            H.append(np.hstack([y, km.predict(feats) + n_labels]))
+        else:
+            # no hidden nodes
+            H.append(y.copy())
 
     return H
 
-- 
2.43.0


From efc500d0ae6c59f7477e9dfed3a0b9d43db0dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 13/72] fix: unflattenY failed if there are no nodes of some
 type (None)

---
 pystruct/models/typed_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 7bef79c..9713ec1 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -138,7 +138,7 @@ class TypedCRF(CRF):
         """
         lY = list()
         i_start_node = 0
-        (l_node_features, l_edges, l_edge_features) = X
+        l_node_features = self._get_node_features(X)
         for n_start_state, nf in zip(self._l_type_startindex, l_node_features):
             n_nodes = nf.shape[0]
             Y = flatY[i_start_node: i_start_node+n_nodes] - n_start_state
-- 
2.43.0


From 041acd5f2136b366a5b86e29748f1e5bf3a5f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 14/72] fix: multi-type inference failed on edges without
 features

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index de1e770..0905f0f 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -291,7 +291,9 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
             else:
                 # first reshaping above complains: "ValueError: total size of
                 # new array must be unchanged"
-                l_pairwise_potentials.append(np.array([]))
+                # edges without features don't contribute anything
+                l_pairwise_potentials.append(np.zeros((n_edges, n_states1,
+                                                       n_states2)))
             i_w += n_w
 
         return l_pairwise_potentials
-- 
2.43.0


From 2635df18dd4675fcc8aa49f5ede3dc1b45878abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 15/72] fix: ad3+ failed with one pairwise matrix shared by all
 edges

---
 pystruct/inference/inference_methods.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index afdb373..b7c2b7b 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -504,10 +504,11 @@ def inference_ad3plus(l_unary_potentials, l_pairwise_potentials, l_edges
 
     """
     import ad3
-#     n_states, pairwise_potentials = \
-#         _validate_params(unary_potentials, pairwise_potentials, edges)
-#     unaries = unary_potentials.reshape(-1, n_states)
     bMultiType = isinstance(l_unary_potentials, list)
+    if not bMultiType:
+        n_states, l_pairwise_potentials = _validate_params(
+            l_unary_potentials, l_pairwise_potentials, l_edges)
+        l_unary_potentials = l_unary_potentials.reshape(-1, n_states)
 
     res = ad3.general_constrained_graph(l_unary_potentials, l_edges
                                         , l_pairwise_potentials, constraints
-- 
2.43.0


From 68311b371349a2cde01627c8ecfa5e2107be96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 16/72] fix: joint features of labels stored in small integer
 types

---
 pystruct/models/edge_feature_graph_crf.py           | 3 ++-
 pystruct/models/multilabel_svm.py                   | 2 +-
 pystruct/models/node_type_edge_feature_graph_crf.py | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index 72cd6d4..e3368a4 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -187,8 +187,9 @@ class EdgeFeatureGraphCRF(GraphCRF):
 
             ## pairwise
             pw = np.zeros((edges.shape[0], self.n_states ** 2))
+            # small integer types of y can not hold the pair index
             class_pair_ind = (y[edges[:, 1]] + self.n_states *
-                              y[edges[:, 0]])
+                              y[edges[:, 0]].astype(np.int))
             pw[np.arange(len(edges)), class_pair_ind] = 1
 
         pw = np.dot(edge_features.T, pw)
diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 2bee751..883b693 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -90,7 +90,7 @@ class MultiLabelClf(CRF):
             unary_marginals = unary_marginals * y_signs[:, np.newaxis]
         else:
             # discrete y
-            y_signs = 2 * y - 1
+            y_signs = 2 * y.astype(np.int) - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
             unary_marginals *= y_signs[:, np.newaxis]
             pairwise_marginals = []
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 0905f0f..a5cf41f 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -406,7 +406,8 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                     assert (0 <= y2).all() and (y2 <=
                                                 self.l_n_states[typ2]).all()
                     # set the 1s where they should
-                    class_pair_ind = (y2 + _n_states_typ2 * y1)
+                    class_pair_ind = (y2 + _n_states_typ2 *
+                                      y1.astype(np.int))
                     _pw[np.arange(_n_edges), class_pair_ind] = 1
                 l_pw.append(_pw)
 
-- 
2.43.0


From 678ff8cdd3c2c9785420956dc0b5e9c902fa31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 17/72] fix: inference cache of OneSlackSSVM failed for models
 with rescale_C

---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..5a49bb1 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -325,8 +325,11 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-- 
2.43.0


From d351521a0eb14c2fb554531907ff8252a2e73a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 18/72] fix: inference cache of OneSlackSSVM failed on equal
 relaxed labelings

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 5a49bb1..f99b57b 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -298,7 +298,7 @@ class OneSlackSSVM(BaseSSVM):
                         and all(np.all(_pw1 == _pw2) for _pw1, _pw2
                                 in zip(pw_m_1, pw_m_2))
                 else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
+                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1 == pw_m_2)
             else:
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
-- 
2.43.0


From 6f8f3375df1d22c9143936e37bde0ffa192f2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 19/72] fix: FrankWolfeSSVM failed for models with rescale_C

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..045ef23 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -132,7 +132,7 @@ class FrankWolfeSSVM(BaseSSVM):
         joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -158,7 +158,7 @@ class FrankWolfeSSVM(BaseSSVM):
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
-- 
2.43.0


From 1e68b2c5076a5930f721101b5499bd9aa8355a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 20/72] fix: FrankWolfeSSVM failed for BinaryClf

---
 pystruct/models/unstructured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 35fbd94..e740b33 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -64,7 +64,7 @@ class BinaryClf(StructuredModel):
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
         return y * x / 2.
 
-    def batch_joint_feature(self, X, Y):
+    def batch_joint_feature(self, X, Y, Y_true=None):
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
-- 
2.43.0


From 47852d7b17fde67ff10a8f200960856c4be9cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 21/72] fix: mini batches of SubgradientSSVM failed for models
 with rescale_C

---
 pystruct/learners/subgradient_ssvm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..77eb24d 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -301,8 +301,14 @@ class SubgradientSSVM(BaseSSVM):
                 Y_b = Y[batch]
                 Y_hat = self.model.batch_loss_augmented_inference(
                     X_b, Y_b, w, relaxed=True)
-                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b)
-                                       - self.model.batch_joint_feature(X_b, Y_hat))
+                if getattr(self.model, 'rescale_C', False):
+                    delta_joint_feature = (
+                        self.model.batch_joint_feature(X_b, Y_b, Y_b)
+                        - self.model.batch_joint_feature(X_b, Y_hat, Y_b))
+                else:
+                    delta_joint_feature = (
+                        self.model.batch_joint_feature(X_b, Y_b)
+                        - self.model.batch_joint_feature(X_b, Y_hat))
                 loss = np.sum(self.model.batch_loss(Y_b, Y_hat))
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
-- 
2.43.0


From a320c49d1bc486560ea1454540a82c119c2407b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 22/72] fix: SubgradientSSVM with mini batches never stopped
 without constraints

---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 77eb24d..cfd8b3e 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -313,6 +313,7 @@ class SubgradientSSVM(BaseSSVM):
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
                 objective += violation
-                positive_slacks += self.batch_size
+                if violation > 0:
+                    positive_slacks += len(X_b)
                 self._solve_subgradient(delta_joint_feature / len(X_b), n_samples, w)
         return objective, positive_slacks, w
-- 
2.43.0


From f8962352ddfa137152e66393a313c5e5153a0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 23/72] fix: NotImplementedError for negative averaging windows
 of StructuredPerceptron

---
 pystruct/learners/structured_perceptron.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index e130fc5..5fcde38 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -104,10 +104,11 @@ class StructuredPerceptron(BaseSSVM):
             if self.average is True:
                 self.average = 0
             elif self.average < -1:
-                raise NotImplemented("The only negative value for averaging "
-                                     "implemented at the moment is `-1`. Try "
-                                     "`max_iter - k` but be aware of the "
-                                     "possibility of early stopping.")
+                raise NotImplementedError(
+                    "The only negative value for averaging "
+                    "implemented at the moment is `-1`. Try "
+                    "`max_iter - k` but be aware of the "
+                    "possibility of early stopping.")
             w_bar = np.zeros(size_joint_feature)
             n_obs = 0
         self.loss_curve_ = []
-- 
2.43.0


From 6559a19d60ee667637e56fec83b36032100c0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 24/72] fix: find_constraint_latent computed the loss of labels
 instead of hidden states

---
 pystruct/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From 80a15b5c5b50a5b512e4f57144ccb89fe2112908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 25/72] fix: SubgradientLatentSSVM failed for n_jobs > 1

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..55b7e9b 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -176,7 +176,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From 4c1814a754406e652fcaa780a9e4f9ef87e368f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 26/72] fix: LatentSSVM.fit did not return the learner

---
 pystruct/learners/latent_structured_svm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index a5c4fa3..3dd8912 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -125,6 +125,7 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        return self
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
-- 
2.43.0


From 1e61378bfb7db16a9ce7a5b130e8eee6622d401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 27/72] fix: LatentSSVM.fit ignored the initialize argument

---
 pystruct/learners/latent_structured_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index 3dd8912..253d595 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -78,7 +78,8 @@ class LatentSSVM(BaseSSVM):
             Leave this true except if you really know what you are doing.
         """
 
-        self.model.initialize(X, Y)
+        if initialize:
+            self.model.initialize(X, Y)
         w = np.zeros(self.model.size_joint_feature)
         constraints = None
         ws = []
-- 
2.43.0


From f27a7a40afdff3d0568912c83fcb88b36ce57de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 28/72] fix: setting C of LatentSSVM overwrote the weights

---
 pystruct/learners/latent_structured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index 253d595..74b87dd 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -181,7 +181,7 @@ class LatentSSVM(BaseSSVM):
 
     @C.setter
     def C(self, C_):
-        self.base_ssvm.w = C_
+        self.base_ssvm.C = C_
 
     @property
     def n_jobs(self):
-- 
2.43.0


From 982fa2fe58c5672d2dc1574f22cf6c4d80ea63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 29/72] fix: SubgradientLatentSSVM.score compared labels with
 hidden states

---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 55b7e9b..d8a09f0 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -262,12 +262,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
-- 
2.43.0


From 4e3aa3c7eab41facf5d28a6803bce2d167722666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 30/72] fix: NSlackSSVM ignored violated constraints of labels
 with zero loss

With hidden states (or class weights of zero) training stopped although such
labels were the most violated ones, far from the optimum and unlike
OneSlackSSVM.
---
 pystruct/learners/n_slack_ssvm.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..f5ce3fc 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -322,11 +322,6 @@ class NSlackSSVM(BaseSSVM):
                         if self.verbose > 3:
                             print("current slack: %f" % slack)
 
-                        if not loss > 0:
-                            # can have y != y_hat but loss = 0 in latent svm.
-                            # we need this here as djoint_feature is then != 0
-                            continue
-
                         if self._check_bad_constraint(y_hat, slack,
                                                       constraints[i]):
                             continue
-- 
2.43.0


From 18d999f1ae5614c1391d4de8c2f791af046d4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 31/72] fix: NSlackSSVM.fit failed if it found no constraint or
 was interrupted early

The names objective and verbose were unbound.
---
 pystruct/learners/n_slack_ssvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index f5ce3fc..7316d59 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -270,6 +270,8 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.zeros(self.model.size_joint_feature)
         n_samples = len(X)
         stopping_criterion = False
+        # dual objective without any constraints
+        objective = 0.
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
@@ -385,7 +387,7 @@ class NSlackSSVM(BaseSSVM):
         if self.verbose and self.n_jobs == 1:
             print("calls to inference: %d" % self.model.inference_calls)
 
-        if verbose:
+        if self.verbose:
             print("Computing final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-- 
2.43.0


From 913d06083c72fd40a1fe0f8b37da9f3ada2f2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 32/72] fix: OneSlackSSVM.fit failed if it was interrupted
 early and could not be continued

The name objective was unbound, constraints_ missing, or constraints_ and
alphas had different lengths.
---
 pystruct/learners/one_slack_ssvm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index f99b57b..07ac4c8 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -454,6 +454,13 @@ class OneSlackSSVM(BaseSSVM):
         else:
             constraints = self.constraints_
 
+        # interrupted fits can have a constraint without dual solution
+        del constraints[len(self.alphas):]
+        self.constraints_ = constraints
+        # dual objective of the constraints so far
+        objective = (self.objective_curve_[-1]
+                     if warm_start and warm_start != "soft"
+                     and len(self.objective_curve_) else 0.)
         self.last_slack_ = -1
 
         # get the joint_feature of the ground truth
-- 
2.43.0


From 8493a4605968652446def75b638a3bbdffdd08c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 33/72] fix: FrankWolfeSSVM.fit failed without dual checks or
 when interrupted early

dual_gap was unbound for check_dual_every=0 and the objective curve empty.
---
 pystruct/learners/frankwolfe_ssvm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 045ef23..e2421cc 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -260,6 +260,8 @@ class FrankWolfeSSVM(BaseSSVM):
                 if self.verbose > 0:
                     print("dual: %f, dual_gap: %f, primal: %f"
                           % (dual_val, dual_gap, primal_val))
+            else:
+                dual_gap = np.inf
 
             if self.logger is not None:
                 self.logger(self, iteration)
@@ -303,7 +305,12 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        if len(self.objective_curve_):
+            dual_objective = self.objective_curve_[-1]
+        else:
+            # nothing recorded: trivial lower bound
+            dual_objective = 0.
+        self.objective_curve_.append(dual_objective)
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From b569539eae4fe5d76c1c2ddf6ac4863ca9597d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 34/72] fix: fitting a FrankWolfeSSVM again kept the weights of
 the previous fit

The block weights start from zero, so that the old weights were never removed:
the solution and the duality gap were wrong.
---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index e2421cc..bb90ee0 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -292,8 +292,8 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
-- 
2.43.0


From 143fdf5289bf676d1aad92186300019ff9c9bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 35/72] fix: fitting a subgradient learner again continued the
 previous fit

Without warm_start, the step counter (step sizes and averaging weights) and
the weights of SubgradientSSVM were kept.
---
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 pystruct/learners/subgradient_ssvm.py        | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index d8a09f0..90d0b12 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -136,6 +136,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         if not warm_start:
             self.w = getattr(self, "w", np.random.normal(
                 0, 1, size=self.model.size_joint_feature))
+            self.t = 0
             self.timestamps_ = [time()]
             self.objective_curve_ = []
             if self.learning_rate == "auto":
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index cfd8b3e..dab2cac 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -179,9 +179,9 @@ class SubgradientSSVM(BaseSSVM):
         if self.verbose:
             print("Training primal subgradient structural SVM")
         self.grad_old = np.zeros(self.model.size_joint_feature)
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        w = self.w.copy()
         if not warm_start:
+            self.w = np.zeros(self.model.size_joint_feature)
+            self.t = 0
             self.objective_curve_ = []
             self.timestamps_ = [time()]
             if self.learning_rate == "auto":
@@ -190,6 +190,7 @@ class SubgradientSSVM(BaseSSVM):
                 self.learning_rate_ = self.learning_rate
         else:
             self.timestamps_ = (np.array(self.timestamps_) - time()).tolist()
+        w = self.w.copy()
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-- 
2.43.0


From 20e93b8b99e6738f12ff3d24e45e2b743cd23792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 36/72] fix: timestamps_ of SubgradientSSVM were wrong after a
 warm start

---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index dab2cac..516e6fb 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -189,7 +189,8 @@ class SubgradientSSVM(BaseSSVM):
             else:
                 self.learning_rate_ = self.learning_rate
         else:
-            self.timestamps_ = (np.array(self.timestamps_) - time()).tolist()
+            # continue the clock of the previous fit
+            self.timestamps_[0] = time() - self.timestamps_[-1]
         w = self.w.copy()
         try:
             # catch ctrl+c to stop training
-- 
2.43.0


From 2af642301524686de020cfbdd16ed9f84f8d1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 37/72] fix: loss_curve_ contained the losses of previous fits

---
 pystruct/learners/n_slack_ssvm.py            | 1 +
 pystruct/learners/one_slack_ssvm.py          | 1 +
 pystruct/learners/ssvm.py                    | 5 +++++
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 pystruct/learners/subgradient_ssvm.py        | 1 +
 5 files changed, 9 insertions(+)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 7316d59..4e169c2 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -278,6 +278,7 @@ class NSlackSSVM(BaseSSVM):
             self.last_active = [[] for i in range(n_samples)]
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
+            self._reset_loss_curve()
             self.timestamps_ = [time()]
         else:
             # warm start
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 07ac4c8..5879bc7 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -437,6 +437,7 @@ class OneSlackSSVM(BaseSSVM):
             constraints = []
             self.objective_curve_, self.primal_objective_curve_ = [], []
             self.cached_constraint_ = []
+            self._reset_loss_curve()
             self.alphas = []  # dual solutions
             # append constraint given by ground truth to make our life easier
             constraints.append((np.zeros(self.model.size_joint_feature), 0))
diff --git a/pystruct/learners/ssvm.py b/pystruct/learners/ssvm.py
index 35a1d56..47d0085 100644
--- a/pystruct/learners/ssvm.py
+++ b/pystruct/learners/ssvm.py
@@ -83,6 +83,11 @@ class BaseSSVM(BaseEstimator):
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
+    def _reset_loss_curve(self):
+        # forget the training losses of previous fits
+        if hasattr(self, 'loss_curve_'):
+            del self.loss_curve_
+
     def _compute_training_loss(self, X, Y, iteration):
         # optionally compute training loss for output / training curve
         if (self.show_loss_every != 0
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 90d0b12..e7c845e 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -137,6 +137,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
             self.w = getattr(self, "w", np.random.normal(
                 0, 1, size=self.model.size_joint_feature))
             self.t = 0
+            self._reset_loss_curve()
             self.timestamps_ = [time()]
             self.objective_curve_ = []
             if self.learning_rate == "auto":
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 516e6fb..d80454a 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -183,6 +183,7 @@ class SubgradientSSVM(BaseSSVM):
             self.w = np.zeros(self.model.size_joint_feature)
             self.t = 0
             self.objective_curve_ = []
+            self._reset_loss_curve()
             self.timestamps_ = [time()]
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
-- 
2.43.0


From e919cba740d88ce144ed2da9260260e831a09ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 38/72] fix: NSlackSSVM.fit failed for given constraints

Except for a learner fitted before with as many constraints per sample, and for
samples without constraints.
---
 pystruct/learners/n_slack_ssvm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 4e169c2..1268b1b 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -282,7 +282,14 @@ class NSlackSSVM(BaseSSVM):
             self.timestamps_ = [time()]
         else:
             # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            if not hasattr(self, 'objective_curve_'):
+                self.objective_curve_ = []
+                self.primal_objective_curve_ = []
+                self.timestamps_ = [time()]
+            self.last_active = [np.zeros(len(sample))
+                                for sample in constraints]
+            if any(len(sample) for sample in constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
-- 
2.43.0


From 7372d6be657158deb697236d3dede0bf20388aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 39/72] fix: objective curves had different lengths after an
 interrupted fit

---
 pystruct/learners/n_slack_ssvm.py   | 5 ++---
 pystruct/learners/one_slack_ssvm.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 1268b1b..5cc0c4d 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -345,13 +345,12 @@ class NSlackSSVM(BaseSSVM):
                                                            n_samples)
                         new_constraints += new_constraints_batch
 
-                self.objective_curve_.append(objective)
-                self._compute_training_loss(X, Y, iteration)
-
                 primal_objective = (self.C
                                     * slack_sum
                                     + np.sum(self.w ** 2) / 2)
+                self.objective_curve_.append(objective)
                 self.primal_objective_curve_.append(primal_objective)
+                self._compute_training_loss(X, Y, iteration)
 
                 if self.verbose > 0:
                     print("new constraints: %d, "
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 5879bc7..a0c9eef 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -514,8 +514,6 @@ class OneSlackSSVM(BaseSSVM):
                 primal_objective = (self.C * len(X)
                                     * max(last_slack, 0)
                                     + np.sum(self.w ** 2) / 2)
-                self.primal_objective_curve_.append(primal_objective)
-                self.cached_constraint_.append(cached_constraint)
 
                 objective = self._solve_1_slack_qp(constraints,
                                                    n_samples=len(X))
@@ -536,6 +534,8 @@ class OneSlackSSVM(BaseSSVM):
                 # we only do this here because we didn't add the gt to the
                 # constraints, which makes the dual behave a bit oddly
                 self.objective_curve_.append(objective)
+                self.primal_objective_curve_.append(primal_objective)
+                self.cached_constraint_.append(cached_constraint)
                 self.constraints_ = constraints
                 if self.logger is not None:
                     self.logger(self, iteration)
-- 
2.43.0


From 0603cd183271284fab23de1aa6e8131814744f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 40/72] fix: OneSlackSSVM with inference cache could not be
 continued if interrupted early

_constraint_from_cache failed for samples without cached labels.
---
 pystruct/learners/one_slack_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index a0c9eef..bf246d5 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -332,8 +332,9 @@ class OneSlackSSVM(BaseSSVM):
             sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
+        # interrupted fits can leave samples without cached labels
         if (not getattr(self, 'inference_cache_', False) or
-                self.inference_cache_ is False):
+                not all(self.inference_cache_)):
             if self.verbose > 10:
                 print("Empty cache.")
             raise NoConstraint
-- 
2.43.0


From 8c7073e67732390fc781cdaaf70f59af3c35c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 41/72] fix: SaveLogger failed for the final model if the file
 name contains %d

---
 pystruct/utils/logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..3e4067e 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -1,3 +1,5 @@
+import os
+
 try:
     import cPickle as pickle
 except ImportError:
@@ -47,7 +49,7 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                file_name = file_name.replace("%d", str(iteration))
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From d62fdc29d0e0f7dd9d1bf084434feb2db865441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 42/72] fix: a failed save of SaveLogger destroyed the previous
 backup and the inference cache

---
 pystruct/utils/logging.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 3e4067e..f6fb3a6 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -56,15 +56,26 @@ class SaveLogger(object):
 
     def save(self, learner, file_name):
         """Save the model to location specified in file_name."""
-        with open(file_name, "wb") as f:
-            if hasattr(learner, 'inference_cache_'):
-                # don't store the large inference cache!
-                learner.inference_cache_, tmp = (None,
-                                                 learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
-            else:
-                pickle.dump(learner, f, -1)
+        # write to a temporary file first, so that an existing file is only
+        # replaced by a complete one.
+        temp_name = file_name + ".tmp"
+        try:
+            with open(temp_name, "wb") as f:
+                if hasattr(learner, 'inference_cache_'):
+                    # don't store the large inference cache!
+                    learner.inference_cache_, tmp = (None,
+                                                     learner.inference_cache_)
+                    try:
+                        pickle.dump(learner, f, -1)
+                    finally:
+                        learner.inference_cache_ = tmp
+                else:
+                    pickle.dump(learner, f, -1)
+            getattr(os, 'replace', os.rename)(temp_name, file_name)
+        except Exception:
+            if os.path.exists(temp_name):
+                os.remove(temp_name)
+            raise
 
     def load(self):
         """Load the model stoed in file_name and return it."""
-- 
2.43.0


From 63a9d08a3008cd63164a63e4c4cb74fb6e9b54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 43/72] fix: OneSlackSSVM kept the weights of the previous fit
 if C changed before a warm start

---
 pystruct/learners/one_slack_ssvm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index bf246d5..73cd614 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -464,6 +464,12 @@ class OneSlackSSVM(BaseSSVM):
                      if warm_start and warm_start != "soft"
                      and len(self.objective_curve_) else 0.)
         self.last_slack_ = -1
+        if warm_start and warm_start != "soft":
+            # C may have changed since the previous fit.  Pruning may have
+            # removed the constraint given by ground truth.
+            constraints.append((np.zeros(self.model.size_joint_feature), 0))
+            objective = self._solve_1_slack_qp(constraints,
+                                               n_samples=len(X))
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
-- 
2.43.0


From f3e4e8c50a83c95146a37ac890849a2ecffed3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 44/72] fix: OneSlackSSVM with n_jobs > 1 failed for
 MultiClassClf

---
 pystruct/models/unstructured_svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index e740b33..e30843c 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -233,6 +233,8 @@ class MultiClassClf(StructuredModel):
         return result.ravel()
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        # parallel inference yields lists
+        Y = np.asarray(Y)
         result = np.zeros((self.n_states, self.n_features))
         if self.rescale_C:
             if Y_true is None:
-- 
2.43.0


From 3af173bf8a03dc4e339a9e47b347bbda40fecc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 45/72] fix: training loss of LatentGraphCRF with latent states
 as labels

---
 pystruct/models/latent_graph_crf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index b209e20..5281faa 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -151,6 +151,10 @@ class LatentGraphCRF(GraphCRF):
         return kmeans_init(features, Y, edges, n_labels=self.n_labels,
                            n_states_per_label=self.n_states_per_label)
 
+    def max_loss(self, h):
+        # labels have no weights, so this works for labels and latent states
+        return np.asarray(h).size
+
     def loss_augmented_inference(self, x, h, w, relaxed=False,
                                  return_energy=False):
         self.inference_calls += 1
-- 
2.43.0


From 542ad24964e6dcda8df7fc7a3666d192173cdd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 46/72] fix: StructuredPerceptron.fit changed the parameter
 average

---
 pystruct/learners/structured_perceptron.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 5fcde38..67800eb 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -100,10 +100,11 @@ class StructuredPerceptron(BaseSSVM):
             self.model.initialize(X, Y)
         size_joint_feature = self.model.size_joint_feature
         self.w = np.zeros(size_joint_feature)
-        if self.average is not False:
-            if self.average is True:
-                self.average = 0
-            elif self.average < -1:
+        average = self.average
+        if average is not False:
+            if average is True:
+                average = 0
+            elif average < -1:
                 raise NotImplementedError(
                     "The only negative value for averaging "
                     "implemented at the moment is `-1`. Try "
@@ -115,7 +116,7 @@ class StructuredPerceptron(BaseSSVM):
         max_losses = np.sum([self.model.max_loss(y) for y in Y])
         try:
             for iteration in range(self.max_iter):
-                if self.average == -1:
+                if average == -1:
                     # By resetting at every iteration we effectively get
                     # averaging over the last one.
                     n_obs = 0
@@ -135,7 +136,7 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                    if self.average is not False and iteration >= self.average:
+                    if average is not False and iteration >= average:
                         n_obs += 1
                         w_bar = ((1 - 1. / n_obs) * w_bar +
                                  (1. / n_obs) * self.w)
@@ -148,8 +149,8 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                        if (self.average is not False and
-                                iteration >= self.average):
+                        if (average is not False and
+                                iteration >= average):
                             n_obs += 1
                             w_bar = ((1 - 1. / n_obs) * w_bar +
                                      (1. / n_obs) * self.w)
@@ -166,6 +167,6 @@ class StructuredPerceptron(BaseSSVM):
         except KeyboardInterrupt:
             pass
         finally:
-            if self.average is not False:
+            if average is not False:
                 self.w = w_bar
         return self
-- 
2.43.0


From 22b59be8c0c740226012d3d9651caac467110bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 47/72] fix: generate_bars failed if all bars are vertical

---
 pystruct/datasets/synthetic_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/datasets/synthetic_grids.py b/pystruct/datasets/synthetic_grids.py
index 2bc4008..134d15d 100644
--- a/pystruct/datasets/synthetic_grids.py
+++ b/pystruct/datasets/synthetic_grids.py
@@ -115,7 +115,7 @@ def generate_bars(n_samples=5, noise=5, bars_size=3, total_size=8,
                     Y[i, t, l:l + bars_size] = 1
 
     Y_flips = Y.copy()
-    n_classes = len(np.unique(Y))
+    n_classes = 3 if separate_labels else 2
     for y in Y_flips:
         flips = np.random.randint(total_size, size=[noise, 2])
         y[flips[:, 0], flips[:, 1]] = np.random.randint(n_classes, size=noise)
-- 
2.43.0


From 8b2d42f6fe94ef6813f8816d730167338bb1f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 48/72] fix: FrankWolfeSSVM ignored show_loss_every

---
 pystruct/learners/frankwolfe_ssvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index bb90ee0..673dfb5 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -188,6 +188,7 @@ class FrankWolfeSSVM(BaseSSVM):
             self.w = (1.0 - gamma) * self.w + gamma * ws
             l = (1.0 - gamma) * l + gamma * ls
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -263,6 +264,7 @@ class FrankWolfeSSVM(BaseSSVM):
             else:
                 dual_gap = np.inf
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -292,6 +294,7 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
+        self._reset_loss_curve()
         self.w = np.zeros(self.model.size_joint_feature)
         self.l = 0
         try:
-- 
2.43.0


From 35a6592d337c27d0471f603c3c1b5d0f3f932df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 49/72] fix: forbidden states of latent CRFs were chosen at
 nodes with many edges

---
 pystruct/models/latent_graph_crf.py | 18 ++++++++++++++----
 pystruct/models/latent_node_crf.py  | 15 +++++++--------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index 5281faa..1941249 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -58,6 +58,18 @@ def kmeans_init(X, Y, all_edges, n_labels, n_states_per_label,
     return H
 
 
+def forbidden_potential(unary_potentials, pairwise_potentials, edges):
+    """Unary potential for states that may not be part of any solution.
+
+    It outweighs all pairwise potentials of the node with the most edges.
+    """
+    max_entry = np.max(np.abs(np.hstack([unary_potentials.ravel(),
+                                         pairwise_potentials.ravel(), 1])))
+    max_degree = np.max(np.hstack([
+        np.bincount(np.asarray(edges, dtype=np.int).ravel()), 0]))
+    return -(1e2 + 2 * max_degree) * max_entry
+
+
 class LatentGraphCRF(GraphCRF):
     """CRF with latent states for variables.
 
@@ -179,11 +191,9 @@ class LatentGraphCRF(GraphCRF):
         # by modifying unary params
         other_states = self._states_map != y[:, np.newaxis]
         pairwise_potentials = self._get_pairwise_potentials(x, w)
-        max_entry = np.max(np.abs(np.hstack([unary_potentials.ravel(),
-                                             pairwise_potentials.ravel(),
-                                             1])))
-        unary_potentials[other_states] = -1e2 * max_entry
         edges = self._get_edges(x)
+        unary_potentials[other_states] = forbidden_potential(
+            unary_potentials, pairwise_potentials, edges)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (self.label_from_latent(h) != y).any():
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index b0feae3..3909ea0 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -14,6 +14,7 @@ from scipy import sparse
 from sklearn.cluster import KMeans
 
 from . import GraphCRF
+from .latent_graph_crf import forbidden_potential
 from ..inference import inference_dispatch
 from ..utils import expand_sym, compress_sym
 
@@ -209,11 +210,10 @@ class LatentNodeCRF(GraphCRF):
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
         pairwise = self._get_pairwise_potentials(x, w)
-        max_entry = np.max(np.abs(np.hstack([unaries.ravel(),
-                                             pairwise.ravel(), 1])))
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        forbidden = forbidden_potential(unaries, pairwise, self._get_edges(x))
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -511,11 +511,10 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
         pairwise = self._get_pairwise_potentials(x, w)
-        max_entry = np.max(np.abs(np.hstack([unaries.ravel(),
-                                             pairwise.ravel(), 1])))
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        forbidden = forbidden_potential(unaries, pairwise, self._get_edges(x))
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
-- 
2.43.0


From eaad0065e4ad66e8ee0c6396f0045cee989c69cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 50/72] fix: MultiLabelClf.joint_feature failed for unsigned
 integer features

---
 pystruct/models/multilabel_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 883b693..1ddcb60 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -92,7 +92,7 @@ class MultiLabelClf(CRF):
             # discrete y
             y_signs = 2 * y.astype(np.int) - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
             pairwise_marginals = []
             for edge in self.edges:
                 # indicator of one of four possible states of the edge
-- 
2.43.0


From 06404ee8743b3f2208f5120ca5bdef04c71636b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 51/72] fix: EdgeFeatureLatentNodeCRF truncated integer edge
 features

---
 pystruct/models/latent_node_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 3909ea0..df488dd 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -616,7 +616,8 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             pw = [np.outer(unary_marginals[edge[0]].T,
                            unary_marginals[edge[1]]).ravel()
                   for edge in edges]
-            pw = np.vstack(pw)
+            # not integer: symmetric features take means
+            pw = np.vstack(pw).astype(np.float)
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 17885f7f4a016b54dda967ccf5d2382ba7cbba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 52/72] fix: joint features of EdgeFeatureLatentNodeCRF without
 edges

---
 pystruct/models/latent_node_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index df488dd..ae69d66 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -617,7 +617,8 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
                            unary_marginals[edge[1]]).ravel()
                   for edge in edges]
             # not integer: symmetric features take means
-            pw = np.vstack(pw).astype(np.float)
+            pw = np.array(pw, dtype=np.float).reshape(len(edges),
+                                                      self.n_states ** 2)
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 02958a0b96f0d4afc919fd01ac8790321a23b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 53/72] fix: loss-augmented inference failed or lost fractions
 for integer and single precision weights

---
 pystruct/models/crf.py              | 2 ++
 pystruct/models/latent_graph_crf.py | 2 ++
 pystruct/models/latent_node_crf.py  | 4 ++++
 pystruct/models/unstructured_svm.py | 3 +++
 4 files changed, 11 insertions(+)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index ba46682..40fbed0 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -107,6 +107,8 @@ class CRF(StructuredModel):
         """
         self.inference_calls += 1
         self._check_size_w(w)
+        # losses are added in place: no integer or single precision potentials
+        w = np.asarray(w, dtype=np.float64)
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index 1941249..2471c81 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -171,6 +171,8 @@ class LatentGraphCRF(GraphCRF):
                                  return_energy=False):
         self.inference_calls += 1
         self._check_size_w(w)
+        # losses are added in place: no integer or single precision potentials
+        w = np.asarray(w, dtype=np.float64)
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index ae69d66..03ed331 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -220,6 +220,8 @@ class LatentNodeCRF(GraphCRF):
                                  return_energy=False):
         self.inference_calls += 1
         self._check_size_w(w)
+        # losses are added in place: no integer or single precision potentials
+        w = np.asarray(w, dtype=np.float64)
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
@@ -521,6 +523,8 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
                                  return_energy=False):
         self.inference_calls += 1
         self._check_size_w(w)
+        # losses are added in place: no integer or single precision potentials
+        w = np.asarray(w, dtype=np.float64)
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index e30843c..9f24f27 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -306,6 +306,8 @@ class MultiClassClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
+        # losses are added in place: no integer or single precision scores
+        w = np.asarray(w, dtype=np.float64)
         scores = np.dot(w.reshape(self.n_states, -1), x)
         other_classes = np.arange(self.n_states) != y
         if self.rescale_C:
@@ -317,6 +319,7 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores)
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
+        w = np.asarray(w, dtype=np.float64)
         scores = np.dot(X, w.reshape(self.n_states, -1).T)
         other_classes = (np.arange(self.n_states) != Y[:, np.newaxis])
         if self.rescale_C or self.uniform_class_weight:
-- 
2.43.0


From d5e3a3c7333164cc0cc9d70a9132401c0367eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 54/72] fix: loss-augmented inference failed for read-only
 labels and some unsigned integer types

---
 pystruct/models/crf.py                              | 3 ++-
 pystruct/models/node_type_edge_feature_graph_crf.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index 40fbed0..3b56d20 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -56,7 +56,8 @@ class CRF(StructuredModel):
         """
         we define it as a method so that subclasses can specialize it.
         """
-        loss_augment_unaries(unary_potentials, np.asarray(y),
+        # a writeable copy of a type known to the compiled function
+        loss_augment_unaries(unary_potentials, np.array(y, dtype=np.int),
                              self.class_weight)
 
     def loss_augmented_inference(self, x, y, w, relaxed=False,
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index a5cf41f..b9175a3 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -432,7 +432,7 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
         we do it type-wise
         """
         i_start = 0
-        a_y = np.asarray(y)
+        a_y = np.asarray(y, dtype=np.int)
 
         for typ, (unary_potentials, class_weight) in enumerate(
                 zip(l_unary_potentials, self.l_class_weight)):
-- 
2.43.0


From abe7880e08df1ef111ce05b24a866936ecffbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 55/72] fix: MultiClassClf.batch_joint_feature failed for
 integer, single precision or read-only features

---
 pystruct/models/unstructured_svm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 9f24f27..b768bad 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -249,7 +249,9 @@ class MultiClassClf(StructuredModel):
             # implementation
             assert(X.shape[0] == Y.shape[0])
             assert(X.shape[1] == self.n_features)
-            crammer_singer_joint_feature(X, Y, result)
+            # writeable arrays of types known to the compiled function
+            crammer_singer_joint_feature(np.require(X, np.float64, 'W'),
+                                         np.require(Y, np.int, 'W'), result)
         return result.ravel()
 
     def inference(self, x, w, relaxed=None, return_energy=False):
-- 
2.43.0


From 69a52e17ec83edd789f04ba4b70a51c51efe268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 56/72] fix: joint_feature failed for labels of type uint64

---
 pystruct/models/edge_feature_graph_crf.py           | 2 +-
 pystruct/models/node_type_edge_feature_graph_crf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index e3368a4..f03c5c2 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -188,7 +188,7 @@ class EdgeFeatureGraphCRF(GraphCRF):
             ## pairwise
             pw = np.zeros((edges.shape[0], self.n_states ** 2))
             # small integer types of y can not hold the pair index
-            class_pair_ind = (y[edges[:, 1]] + self.n_states *
+            class_pair_ind = (y[edges[:, 1]].astype(np.int) + self.n_states *
                               y[edges[:, 0]].astype(np.int))
             pw[np.arange(len(edges)), class_pair_ind] = 1
 
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index b9175a3..f4c589d 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -406,7 +406,7 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                     assert (0 <= y2).all() and (y2 <=
                                                 self.l_n_states[typ2]).all()
                     # set the 1s where they should
-                    class_pair_ind = (y2 + _n_states_typ2 *
+                    class_pair_ind = (y2.astype(np.int) + _n_states_typ2 *
                                       y1.astype(np.int))
                     _pw[np.arange(_n_edges), class_pair_ind] = 1
                 l_pw.append(_pw)
-- 
2.43.0


From 155185d0beb8ad518a2146bf78abdfa8627be5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 57/72] fix: inference_lp was wrong or failed for unsigned and
 single precision potentials

---
 pystruct/inference/inference_methods.py  | 3 ++-
 pystruct/inference/linear_programming.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index b7c2b7b..038e861 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -327,7 +327,8 @@ def inference_lp(unary_potentials, pairwise_potentials, edges, relaxed=False,
         _validate_params(unary_potentials, pairwise_potentials, edges)
 
     unaries = unary_potentials.reshape(-1, n_states)
-    res = lp_general_graph(-unaries, edges, -pairwise_potentials)
+    res = lp_general_graph(-unaries.astype(np.float64), edges,
+                           -pairwise_potentials.astype(np.float64))
     unary_marginals, pairwise_marginals, energy = res
     if relaxed:
         unary_marginals = unary_marginals.reshape(unary_potentials.shape)
diff --git a/pystruct/inference/linear_programming.py b/pystruct/inference/linear_programming.py
index abd24b1..8fed54b 100644
--- a/pystruct/inference/linear_programming.py
+++ b/pystruct/inference/linear_programming.py
@@ -72,7 +72,7 @@ def lp_general_graph(unaries, edges, edge_weights):
     coef = np.ravel(unaries)
     # pairwise:
     repeated_pairwise = edge_weights.ravel()
-    coef = np.hstack([coef, repeated_pairwise])
+    coef = np.hstack([coef, repeated_pairwise]).astype(np.float64)
     c = cvxopt.matrix(coef, tc='d')
     # for positivity inequalities
     G = cvxopt.spdiag(cvxopt.matrix(-np.ones(n_variables)))
-- 
2.43.0


From db82d7fd2da332ff3812a5a8978a2bc1ef88b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 58/72] fix: ad3 inference failed for edges of type uint64

---
 pystruct/inference/inference_methods.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 038e861..e3643d1 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -341,6 +341,13 @@ def inference_lp(unary_potentials, pairwise_potentials, edges, relaxed=False,
     return y
 
 
+def _signed_edges(l_edges):
+    # numpy turns the sum of an uint64 and an integer into a float, which the
+    # ad3 package would then use as an index
+    return [None if edges is None else np.asarray(edges, dtype=np.int64)
+            for edges in l_edges]
+
+
 def inference_ad3(unary_potentials, pairwise_potentials, edges, relaxed=False,
                   verbose=0, return_energy=False, branch_and_bound=False,
                   inference_exception=None):
@@ -392,6 +399,7 @@ def inference_ad3(unary_potentials, pairwise_potentials, edges, relaxed=False,
     import ad3
     bMultiType = isinstance(unary_potentials, list)
     if bMultiType:
+        edges = _signed_edges(edges)
         res = ad3.general_graph(unary_potentials, edges, pairwise_potentials
                                 , verbose=verbose
                                 , n_iterations=4000, exact=branch_and_bound)
@@ -510,6 +518,9 @@ def inference_ad3plus(l_unary_potentials, l_pairwise_potentials, l_edges
         n_states, l_pairwise_potentials = _validate_params(
             l_unary_potentials, l_pairwise_potentials, l_edges)
         l_unary_potentials = l_unary_potentials.reshape(-1, n_states)
+        l_edges = l_edges.astype(np.int64)
+    else:
+        l_edges = _signed_edges(l_edges)
 
     res = ad3.general_constrained_graph(l_unary_potentials, l_edges
                                         , l_pairwise_potentials, constraints
-- 
2.43.0


From a1f6cf5d6d801eb14e743edef11e7474d5d43fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 59/72] fix: MultiLabelClf failed for edges given as "full" or
 as a list

---
 pystruct/models/multilabel_svm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 1ddcb60..5026de5 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -45,6 +45,13 @@ class MultiLabelClf(CRF):
         if self.n_features is not None and self.n_labels is not None:
             if self.edges is None:
                 self.edges = np.zeros(shape=(0, 2), dtype=np.int)
+            elif isinstance(self.edges, str):
+                if self.edges != 'full':
+                    raise ValueError("Unknown edges %r" % self.edges)
+                self.edges = np.vstack(np.triu_indices(self.n_labels, 1)).T
+            elif not isinstance(self.edges, np.ndarray):
+                self.edges = np.array(self.edges,
+                                      dtype=np.int).reshape(-1, 2)
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
                                        self.edges.shape[0])
 
-- 
2.43.0


From 59ae4f22f5d10215256c308273a7faefea6dbff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 60/72] fix: loss and loss-augmented inference of MultiLabelClf
 failed for a single label

---
 pystruct/models/base.py           | 10 ++++++----
 pystruct/models/multilabel_svm.py |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index b0b9690..a1b8895 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -97,15 +97,17 @@ class StructuredModel(object):
         return [self.loss_augmented_inference(x, y, w, relaxed=relaxed)
                 for x, y in zip(X, Y)]
 
+    def _n_weighted_classes(self):
+        if hasattr(self, 'n_labels'):
+            return self.n_labels
+        return self.n_states
+
     def _set_class_weight(self):
         if not hasattr(self, 'size_joint_feature'):
             # we are not initialized yet
             return
 
-        if hasattr(self, 'n_labels'):
-            n_things = self.n_labels
-        else:
-            n_things = self.n_states
+        n_things = self._n_weighted_classes()
 
         if self.class_weight is not None:
 
diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 5026de5..d6b2a96 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -73,6 +73,10 @@ class MultiLabelClf(CRF):
         self._set_size_joint_feature()
         self._set_class_weight()
 
+    def _n_weighted_classes(self):
+        # each label is a variable with two states
+        return self.n_states
+
     def _get_edges(self, x):
         return self.edges
 
-- 
2.43.0


From e8c0ace6bd1741b85730ce710a866e7f55e81615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 61/72] fix: loopy max-product lost all precision on dense
 graphs

---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 0dc64d4..4694819 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -149,7 +149,7 @@ def iterative_max_product(unary_potentials, pairwise_potentials, edges,
                       - messages[e, 0])
             old_message = messages[e, 1].copy()
             new_message = np.max(update, axis=1)
-            new_message -= np.max(messages[e, 1])
+            new_message -= np.max(new_message)
             new_message = damping * old_message + (1 - damping) * new_message
             messages[e, 1] = new_message
             update = new_message - old_message
-- 
2.43.0


From 9cb199f7268cd6759f7eaca4834bd0487d2b2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 62/72] fix: inference_max_product ignored tol on loopy graphs

---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 4694819..5090668 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -60,7 +60,7 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
         y = tree_max_product(unary_potentials, pairwise_potentials, edges)
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
-                                  max_iter=max_iter, damping=damping)
+                                  max_iter=max_iter, damping=damping, tol=tol)
     return y
 
 
-- 
2.43.0


From a0599d2cb24b2232d57eaf5883b7dda1dc59d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 63/72] fix: StructuredPerceptron never called its logger

---
 pystruct/learners/structured_perceptron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 67800eb..a68f325 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -159,6 +159,8 @@ class StructuredPerceptron(BaseSSVM):
                     print("avg loss: %f w: %s" % (self.loss_curve_[-1],
                                                   str(self.w)))
                     print("effective learning rate: %f" % effective_lr)
+                if self.logger is not None:
+                    self.logger(self, iteration)
                 if self.loss_curve_[-1] == 0:
                     if self.verbose:
                         print("Loss zero. Stopping.")
@@ -169,4 +171,6 @@ class StructuredPerceptron(BaseSSVM):
         finally:
             if average is not False:
                 self.w = w_bar
+        if self.logger is not None:
+            self.logger(self, 'final')
         return self
-- 
2.43.0


From 4e49cf32d2261814211768dcc956843ab7a23ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 64/72] fix: OneSlackSSVM cached one result more than
 inference_cache

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 73cd614..9d0799d 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -319,7 +319,7 @@ class OneSlackSSVM(BaseSSVM):
                              for cache in sample]
             if np.any(already_there):
                 continue
-            if len(sample) > self.inference_cache:
+            if len(sample) >= self.inference_cache:
                 sample.pop(0)
             # we computed both of these before, but summed them up immediately
             # this makes it a little less efficient in the caching case.
-- 
2.43.0


From 74ba59fbdb129d46effc806e80c3d747d6ca7dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 65/72] fix: plot_learning failed for training without
 iterations

---
 pystruct/plot_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 4f69a0a..3eec944 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -62,7 +62,7 @@ def plot_learning(ssvm, time=True):
         print("loading timestamps")
         inds = np.array(ssvm.timestamps_)
         inds = inds[2:len(ssvm.objective_curve_) + 1] / 60.
-        inds = np.hstack([inds, [inds[-1]]])
+        inds = np.hstack([inds, [ssvm.timestamps_[-1] / 60.]])
         axes[0].set_xlabel('training time (min)')
     else:
         inds = np.arange(len(ssvm.objective_curve_))
-- 
2.43.0


From 0817072053754ed398d1a7b11baec5b7dea0577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 66/72] fix: plot_learning showed losses at iterations instead
 of times

---
 pystruct/plot_learning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 3eec944..eaf3d83 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -88,7 +88,8 @@ def plot_learning(ssvm, time=True):
             axes[1].set_xlabel('QP iterations')
 
         try:
-            axes[1].plot(inds[::ssvm.show_loss_every], ssvm.loss_curve_)
+            # the last entry of the other curves belongs to no iteration
+            axes[1].plot(inds[:-1:ssvm.show_loss_every], ssvm.loss_curve_)
         except:
             axes[1].plot(ssvm.loss_curve_)
 
-- 
2.43.0


From de9034f0249b89507b6a5812f41897cfa829e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 67/72] fix: plot_learning failed for StructuredPerceptron

---
 pystruct/plot_learning.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index eaf3d83..020235e 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -43,6 +43,15 @@ def plot_learning(ssvm, time=True):
     print(ssvm)
     if hasattr(ssvm, 'base_ssvm'):
         ssvm = ssvm.base_ssvm
+    if not hasattr(ssvm, 'objective_curve_'):
+        # perceptron: there is no objective
+        print("Iterations: %d" % len(ssvm.loss_curve_))
+        fig, axes = plt.subplots(1, 1)
+        axes.set_xlabel('iterations')
+        axes.plot(ssvm.loss_curve_)
+        axes.set_title("Training Error")
+        plt.show()
+        return
     print("Iterations: %d" % len(ssvm.objective_curve_))
     print("Objective: %f" % ssvm.objective_curve_[-1])
     inference_run = None
-- 
2.43.0


From 1221281f028035b8e171681e179fa31cf445620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 68/72] fix: plot_grid failed with current matplotlib versions

---
 pystruct/utils/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/plotting.py b/pystruct/utils/plotting.py
index cf3a32c..eb57fa2 100644
--- a/pystruct/utils/plotting.py
+++ b/pystruct/utils/plotting.py
@@ -30,7 +30,7 @@ def plot_grid(x, cmap=None, border_color=None, axes=None, linewidth=1):
     if axes is not None:
         axes.matshow(x, cmap=cmap)
     else:
-        axes = plt.matshow(x, cmap=cmap).get_axes()
+        axes = plt.matshow(x, cmap=cmap).axes
     axes.set_xticks(np.arange(1, x.shape[1]) - .5)
     axes.set_yticks(np.arange(1, x.shape[0]) - .5)
     if border_color is None:
-- 
2.43.0


From df641ea5fd6cd6809239005900a51fbdef1ba265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 69/72] fix: inference_ad3 ignored inference_exception for a
 single node type

---
 pystruct/inference/inference_methods.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index e3643d1..8bfaa09 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -425,11 +425,10 @@ def inference_ad3(unary_potentials, pairwise_potentials, edges, relaxed=False,
             y = (unary_marginals, pairwise_marginals)
         #print solver_status, pairwise_marginals
     else:
+        if inference_exception and solver_status in ["fractional", "unsolved"]:
+            raise InferenceException(solver_status)
         if bMultiType:
             #we now get a list of unary marginals
-            if inference_exception and solver_status in ["fractional"
-                                                         , "unsolved"]:
-                raise InferenceException(solver_status)
             ly = list()
             _cum_n_states = 0
             for unary_marg in unary_marginals:
-- 
2.43.0


From 10f7000dae0e9d1f3581a1e98a4d50c55af7218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 70/72] fix: setInferenceException of typed models had no
 effect

---
 pystruct/models/crf.py       | 12 +++++++++---
 pystruct/models/typed_crf.py |  5 +++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index 3b56d20..3385aa1 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -118,7 +118,8 @@ class CRF(StructuredModel):
 
         return inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                   self.inference_method, relaxed=relaxed,
-                                  return_energy=return_energy)
+                                  return_energy=return_energy,
+                                  **self._inference_options())
 
     def inference(self, x, w, relaxed=False, return_energy=False,
                   constraints=None):
@@ -177,10 +178,15 @@ class CRF(StructuredModel):
                                       self.inference_method,
                                       relaxed=relaxed,
                                       return_energy=return_energy,
-                                      constraints=constraints)
+                                      constraints=constraints,
+                                      **self._inference_options())
         else:
             return inference_dispatch(unary_potentials, pairwise_potentials,
                                       edges,
                                       self.inference_method,
                                       relaxed=relaxed,
-                                      return_energy=return_energy)
+                                      return_energy=return_energy,
+                                      **self._inference_options())
+
+    def _inference_options(self):
+        return {}
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 9713ec1..a41ca7f 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -172,6 +172,11 @@ class TypedCRF(CRF):
         self.inference_exception = bRaiseExceptionWhenInferenceNotSuccessful
         return self.inference_exception
 
+    def _inference_options(self):
+        if self.inference_exception:
+            return {'inference_exception': True}
+        return {}
+
     # -------------- INTERNAL STUFF --------------------------
     def _set_size_joint_feature(self):
         """
-- 
2.43.0


From 44bffd32f4251a9101667171319e968632d9f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 71/72] fix: PrimalDSStructuredSVM did not initialize its model

---
 pystruct/learners/downhill_simplex_ssvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/learners/downhill_simplex_ssvm.py b/pystruct/learners/downhill_simplex_ssvm.py
index b0f90e7..585833d 100644
--- a/pystruct/learners/downhill_simplex_ssvm.py
+++ b/pystruct/learners/downhill_simplex_ssvm.py
@@ -13,6 +13,8 @@ class PrimalDSStructuredSVM(BaseSSVM):
     """
 
     def fit(self, X, Y):
+        self.model.initialize(X, Y)
+
         def func(w):
             objective = 0
             for x, y in zip(X, Y):
-- 
2.43.0


From 2584e4c982b1706a112ec74a556727b8c443e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 72/72] fix: PrimalDSStructuredSVM minimized another objective
 than the other learners

---
 pystruct/learners/downhill_simplex_ssvm.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pystruct/learners/downhill_simplex_ssvm.py b/pystruct/learners/downhill_simplex_ssvm.py
index 585833d..eb310a3 100644
--- a/pystruct/learners/downhill_simplex_ssvm.py
+++ b/pystruct/learners/downhill_simplex_ssvm.py
@@ -2,7 +2,7 @@ import numpy as np
 from scipy.optimize import fmin
 
 from .ssvm import BaseSSVM
-from ..utils import find_constraint
+from ..utils import objective_primal
 
 
 class PrimalDSStructuredSVM(BaseSSVM):
@@ -16,14 +16,7 @@ class PrimalDSStructuredSVM(BaseSSVM):
         self.model.initialize(X, Y)
 
         def func(w):
-            objective = 0
-            for x, y in zip(X, Y):
-                y_hat, delta_joint_feature, slack, loss = find_constraint(self.model,
-                                                                x, y, w)
-                objective += slack
-            objective /= float(len(X))
-            objective += np.sum(w ** 2) / float(self.C) / 2.
-            return objective
+            return objective_primal(self.model, w, X, Y, self.C)
         w = 1e-5 * np.ones(self.model.size_joint_feature)
         res = fmin(func, x0=w + 1, full_output=1)
         res2 = fmin(func, x0=w, full_output=1)
-- 
2.43.0

