From 90ae0fe479d9728614c08c5f414ff1076b54f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 01/27] fix: orient triangles in B2 relative to the stored edge
 orientations

---
 pytspl/simplicial_complex/simplicial_complex.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 89233e9..faa7140 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -98,22 +98,28 @@ class SimplicialComplex:
         B2 = np.zeros((len(edges), len(triangles)))
         for j, triangle in enumerate(triangles):
             a, b, c = triangle
+            # a triangle inherits the orientation of its first edge, the
+            # signs of the other edges are relative to that orientation
+            sign_a, sign_b, sign_c = 1, 1, 1
             try:
                 index_a = edges.index((a, b))
             except ValueError:
                 index_a = edges.index((b, a))
+                sign_a = -1
             try:
                 index_b = edges.index((b, c))
             except ValueError:
                 index_b = edges.index((c, b))
+                sign_b = -1
             try:
                 index_c = edges.index((a, c))
             except ValueError:
                 index_c = edges.index((c, a))
+                sign_c = -1
 
             B2[index_a, j] = 1
-            B2[index_c, j] = -1
-            B2[index_b, j] = 1
+            B2[index_c, j] = -1 * sign_a * sign_c
+            B2[index_b, j] = sign_a * sign_b
 
         return B2
 
-- 
2.43.0


From 0f27a4198fbe59c17ebafbec96afbd47d73c2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 02/27] fix: read the features of an edge from the row that
 describes the edge

---
 pytspl/io/network_reader.py | 62 ++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index da6b74c..4045a4d 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -64,6 +64,44 @@ def _extract_nodes_edges(
     return nodes, edges
 
 
+def _extract_edge_features(
+    df: pd.DataFrame,
+    src_col: str,
+    dest_col: str,
+    feature_cols: list,
+    edges: list,
+    start_index_zero: bool,
+) -> dict:
+    """
+    Extract the features of the edges from the network dataframe. The
+    features of an edge are those of the first row describing the edge.
+
+    Args:
+        df (pd.DataFrame): The dataframe containing the edges.
+        src_col (str): The name of the column containing the source nodes.
+        dest_col (str): The name of the column containing the destination
+        feature_cols (list): The names of the feature columns.
+        edges (list): The extracted edges.
+        start_index_zero (bool): True, if the node ids start from 0. False,
+        if the node ids start from 1.
+
+    Returns:
+        dict: Features of each edge.
+    """
+    offset = 0 if start_index_zero else 1
+
+    first_row = {}
+    for i in range(len(df)):
+        row = df.iloc[i]
+        edge = (int(row[src_col]) - offset, int(row[dest_col]) - offset)
+        first_row.setdefault(edge, i)
+
+    return {
+        edge: df.iloc[first_row[edge]][feature_cols].to_dict()
+        for edge in edges
+    }
+
+
 def read_tntp(
     filename: str,
     src_col: str,
@@ -113,10 +151,14 @@ def read_tntp(
     edge_features = {}
     node_features = {}
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+        edge_features = _extract_edge_features(
+            df=df,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            edges=edges,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
@@ -164,10 +206,14 @@ def read_csv(
     node_features = {}
 
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+        edge_features = _extract_edge_features(
+            df=df,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            edges=edges,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
-- 
2.43.0


From ae1ed7d65fc83d3adc551fae44ca96b98e6e9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 03/27] fix: accept the default feature_cols=None in read_csv

---
 pytspl/io/network_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index 4045a4d..f911932 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -205,7 +205,7 @@ def read_csv(
     edge_features = {}
     node_features = {}
 
-    if len(feature_cols) > 0:
+    if feature_cols is not None and len(feature_cols) > 0:
         edge_features = _extract_edge_features(
             df=df,
             src_col=src_col,
-- 
2.43.0


From e30275b70563195bb79ad2d6b7da4fa809118dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 04/27] fix: keep the edges of read_B1_B2 aligned with the
 columns of B1

---
 pytspl/io/network_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index f911932..1f74ada 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -282,7 +282,6 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
         edges.append((from_node, to_node))
 
     nodes = list(range(max(nodes) + 1))
-    edges.sort()
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
     triangles = read_B2(B2_filename, np.asarray(edges))
-- 
2.43.0


From d770a648104ceab09d81a68cd2fde202860cd0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 05/27] fix: pass a dense Laplacian to get_total_variance

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index faa7140..62892cb 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -486,7 +486,7 @@ class SimplicialComplex:
         Returns:
             np.ndarray: The total variance of the SC.
         """
-        laplacian_matrix = self.laplacian_matrix()
+        laplacian_matrix = self.laplacian_matrix().toarray()
         return get_total_variance(laplacian_matrix)
 
     def get_divergence(self, flow: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 2a8cb243186335318d1d15957296909af778c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 06/27] fix: apply the shifting operators the requested number
 of times

---
 pytspl/simplicial_complex/simplicial_complex.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 62892cb..e8fcae0 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -361,12 +361,9 @@ class SimplicialComplex:
         """
         L1L = self.lower_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, l) @ f
+        # L(1, l)**steps @ f
+        for _ in range(steps):
             flow = L1L @ flow
-        else:
-            # L(1, l)**2 @ f
-            flow = L1L @ (L1L @ flow)
 
         return flow
 
@@ -386,12 +383,9 @@ class SimplicialComplex:
         """
         L1U = self.upper_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, u) @ f
+        # L(1, u)**steps @ f
+        for _ in range(steps):
             flow = L1U @ flow
-        else:
-            # L(1, u)**2 @ f
-            flow = L1U @ (L1U @ flow)
 
         return flow
 
-- 
2.43.0


From 90706a1a83403da341cdadcfd2bdcda81d517ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 07/27] fix: look up triangle distances in either edge
 direction, allow distance 0

---
 pytspl/simplicial_complex/scbuilder.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index e6066a3..372763d 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -48,6 +48,14 @@ class SCBuilder:
         triangle_nodes = [sorted(tri) for tri in triangle_nodes]
         return triangle_nodes
 
+    def _edge_distance(self, src, dest, dist_col_name: str) -> float:
+        """Get the distance of the edge between two nodes, regardless of the
+        direction in which the edge is stored."""
+        edge = (src, dest)
+        if edge not in self.edge_features:
+            edge = (dest, src)
+        return self.edge_features[edge][dist_col_name]
+
     def triangles_dist_based(self, dist_col_name: str, epsilon: float) -> list:
         """
         Get a list of triangles in the graph that satisfy the condition:
@@ -65,15 +73,15 @@ class SCBuilder:
 
         conditional_tri = []
         for a, b, c in triangle_nodes:
+            dist_ab = self._edge_distance(a, b, dist_col_name)
+            dist_ac = self._edge_distance(a, c, dist_col_name)
+            dist_bc = self._edge_distance(b, c, dist_col_name)
+
             if (
-                self.edge_features[(a, b)][dist_col_name]
-                and self.edge_features[(b, c)][dist_col_name]
-                and self.edge_features[(a, c)][dist_col_name]
+                dist_ab is not None
+                and dist_ac is not None
+                and dist_bc is not None
             ):
-                dist_ab = self.edge_features[(a, b)][dist_col_name]
-                dist_ac = self.edge_features[(b, c)][dist_col_name]
-                dist_bc = self.edge_features[(a, c)][dist_col_name]
-
                 if (
                     dist_ab < epsilon
                     and dist_ac < epsilon
-- 
2.43.0


From 41c51c7360bc243d79054bab7bf9eaf947254e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 08/27] fix: derive the weights and the layout of a generated
 complex from the seed

---
 pytspl/io/sc_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/sc_generator.py b/pytspl/io/sc_generator.py
index bf3ca79..e14d648 100644
--- a/pytspl/io/sc_generator.py
+++ b/pytspl/io/sc_generator.py
@@ -26,7 +26,8 @@ def generate_random_simplicial_complex(
     # get random weights
     import random
 
-    weights = [random.random() for i in range(G.number_of_edges())]
+    rng = random.Random(seed)
+    weights = [rng.random() for i in range(G.number_of_edges())]
     # set the weights
     for i, (u, v) in enumerate(G.edges()):
         G[u][v]["distance"] = weights[i]
@@ -45,6 +46,6 @@ def generate_random_simplicial_complex(
     ).to_simplicial_complex(
         condition="distance", dist_threshold=dist_threshold
     )
-    coordinates = nx.spring_layout(G)
+    coordinates = nx.spring_layout(G, seed=seed)
 
     return sc, coordinates
-- 
2.43.0


From 86fe8d6f3a6ed4f80e7d9296714f70334c964115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 09/27] fix: keep the gradient and curl histories of the
 grid-based filter apart

---
 pytspl/filters/grid_based_filter_design.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index 0d522ed..2514770 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -272,6 +272,8 @@ class GridBasedFilterDesign(BaseFilter):
             np.ndarray: The estimated curl component.
             np.ndarray: The estimated gradient component.
         """
+        self._reset_history()
+
         f_est_g, f_est_c, f_est_h = 0, 0, 0
 
         history = {
@@ -286,6 +288,7 @@ class GridBasedFilterDesign(BaseFilter):
             )
             f_est_g = self.history["f_estimated"]
             history["L1"] = self.history
+            self._reset_history()
 
         # curl extraction
         if L2 > 0:
-- 
2.43.0


From 6786cbafa21b1c4882e41fece2ffbd55c432a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 10/27] fix: reset every key of the filter history

---
 pytspl/filters/base_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 9ec2bd9..e60d2c6 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -30,6 +30,7 @@ class BaseFilter:
         self.history = {
             "filter": None,
             "f_estimated": None,
+            "frequency_responses": None,
             "extracted_component_error": None,
             "filter_error": None,
         }
-- 
2.43.0


From f6163764fd09f9a0fc528615416eb5a2c9184cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 11/27] fix: raise ValueError for kernel types that forex does
 not implement

---
 pytspl/hogde_gp/kernel_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/kernel_serializer.py b/pytspl/hogde_gp/kernel_serializer.py
index 3f695da..0755a02 100644
--- a/pytspl/hogde_gp/kernel_serializer.py
+++ b/pytspl/hogde_gp/kernel_serializer.py
@@ -53,6 +53,10 @@ class KernelSerializer:
 
         if data_name == "forex":
             kernels = Kernels.get_forex_kernels()
+            if kernel_type not in kernels:
+                raise ValueError(
+                    f"Invalid kernel type. Choose from {list(kernels)}"
+                )
             kernel = kernels[kernel_type]
             return kernel
         else:
-- 
2.43.0


From 664eb55bedcaed639601642d9dc08e28f4bf57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 12/27] fix: report an untrained Hodge GP model with ValueError

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index edabcd7..2c376ff 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -29,6 +29,7 @@ class HodgeGPTrainer:
         """
         self.sc = sc
         self.y = y
+        self.model = None
 
         self.output_device = torch.device(output_device)
 
-- 
2.43.0


From e2c2b9de61900cbfba1ce82ef423f95ac94d00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 13/27] fix: regularize the curl in the l2 trend filter when
 asked to

---
 pytspl/filters/simplicial_trend_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 15e2e6c..4521eb8 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -207,7 +207,11 @@ class SimplicialTrendFilter(BaseFilter):
         # compute the noise variance
         power_noise, snr = self.get_power_noise(flow=flow, snr_db=snr_db)
 
-        L1l = self.sc.lower_laplacian_matrix(rank=1)
+        # regularize the divergence or the curl
+        if component == "divergence":
+            laplacian = self.sc.lower_laplacian_matrix(rank=1)
+        else:
+            laplacian = self.sc.upper_laplacian_matrix(rank=1)
         num_edges = len(self.sc.edges)
         # identity matrix
         I = np.eye(num_edges)
@@ -232,7 +236,7 @@ class SimplicialTrendFilter(BaseFilter):
                 errors_noisy[i, j] = self.calculate_error_NRMSE(f_noisy, flow)
 
                 # compute the filter
-                H = np.linalg.inv(I + mu * L1l)
+                H = np.linalg.inv(I + mu * laplacian)
                 frequency_responses[:, i, j] = H @ f_noisy
 
                 # compute the error
-- 
2.43.0


From d952fe9ef31da043f7f93735dbc10d55270db7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 14/27] fix: return the Hodge Laplacian of rank 2

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index e8fcae0..d4bd150 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -342,6 +342,8 @@ class SimplicialComplex:
             return self.lower_laplacian_matrix(
                 rank=rank
             ) + self.upper_laplacian_matrix(rank=rank)
+        elif rank == 2:
+            return self.lower_laplacian_matrix(rank=rank)
         else:
             raise ValueError("Rank must be between 0 and 2.")
 
-- 
2.43.0


From 00f1329ddb79c6857421d2025b4b11d4c6b7433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 15/27] fix: exclude curl eigenvalues at the tolerance like the
 other components

---
 pytspl/decomposition/eigendecomposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/decomposition/eigendecomposition.py b/pytspl/decomposition/eigendecomposition.py
index fdf7b79..3bfaf1b 100644
--- a/pytspl/decomposition/eigendecomposition.py
+++ b/pytspl/decomposition/eigendecomposition.py
@@ -95,8 +95,8 @@ def get_curl_eigenpair(
     """
     eigenvectors, eigenvalues = get_eigendecomposition(upper_lap_mat)
     # get columns with non-zero eigenvalues
-    u_c = eigenvectors[:, np.where(eigenvalues >= tolerance)[0]]
-    eigenvalues = eigenvalues[np.where(eigenvalues >= tolerance)[0]]
+    u_c = eigenvectors[:, np.where(eigenvalues > tolerance)[0]]
+    eigenvalues = eigenvalues[np.where(eigenvalues > tolerance)[0]]
     return u_c, eigenvalues
 
 
-- 
2.43.0


From 540ca7e852f80e36860291e8387b9a75f9fa1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 16/27] fix: do not divide by a zero norm in the power
 iteration

---
 pytspl/filters/base_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index e60d2c6..6bab1e6 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -88,7 +88,10 @@ class BaseFilter:
 
         for _ in range(iterations):
             v = P @ v
-            v = v / np.linalg.norm(v)
+            norm = np.linalg.norm(v)
+            # v stays zero if it is in the null space of P
+            if norm > 0:
+                v = v / norm
 
         # add machine epsilon to avoid zero division
         v = v + np.finfo(float).eps
-- 
2.43.0


From eb50bb643dd4d1433eb37c72371cd867ba127fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 17/27] fix: allow a Chebyshev order above the number of
 coefficients

---
 pytspl/filters/chebyshev_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index cb0a129..b440ea8 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -87,7 +87,7 @@ class ChebyshevFilterDesign(BaseFilter):
 
         # combine all approximations using the coefficients
         H_cheb_approx_out = np.sum(
-            coeffs[:, np.newaxis, np.newaxis] * H_cheb_approx, axis=0
+            coeffs[:, np.newaxis, np.newaxis] * H_cheb_approx[:K], axis=0
         )
         return H_cheb_approx_out
 
-- 
2.43.0


From 636ba7c560d7c1641aebbc898931f2fc925c518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 18/27] fix: only suppress the zero eigenvalue in the LS filter
 design

---
 pytspl/filters/ls_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index de8cccf..1a573fa 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -179,7 +179,7 @@ class LSFilterDesign(BaseFilter):
         f_true = self.get_true_signal(component=component, f=f)
 
         # filter coefficients
-        alpha = [0] + [1] * (len(eigenvals) - 1)
+        alpha = [0 if eigenval == 0 else 1 for eigenval in eigenvals]
 
         # apply the filter
         H, f_estimated, frequency_responses, errors = self._apply_filter(
-- 
2.43.0


From 774b33fd1af8e82add772f680dce96b054eedc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 19/27] fix: keep nodes without edges when reading B1

---
 pytspl/io/network_reader.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index 1f74ada..7a48001 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -267,8 +267,7 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
     """
     B1 = pd.read_csv(B1_filename, header=None).to_numpy()
 
-    num_edges = B1.shape[1]
-    nodes = set()
+    num_nodes, num_edges = B1.shape
     edges = []
 
     for j in range(num_edges):
@@ -276,12 +275,9 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
         from_node = np.where(col == -1)[0][0]
         to_node = np.where(col == 1)[0][0]
 
-        nodes.add(from_node)
-        nodes.add(to_node)
-
         edges.append((from_node, to_node))
 
-    nodes = list(range(max(nodes) + 1))
+    nodes = list(range(num_nodes))
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
     triangles = read_B2(B2_filename, np.asarray(edges))
-- 
2.43.0


From d1dc25d7cba866f18fb57a3b3b73d575709f9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 20/27] fix: apply the Chebyshev filter to complexes with one
 edge

---
 pytspl/filters/chebyshev_filter_design.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index b440ea8..ad6e610 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -231,19 +231,17 @@ class ChebyshevFilterDesign(BaseFilter):
         error_tilde = np.zeros(L)
 
         for k in range(L):
-            g_cheb_approx = np.diag(
-                U_l.T @ np.squeeze(H_cheb_approx[k, :, :]) @ U_l
-            )
+            g_cheb_approx = np.diag(U_l.T @ H_cheb_approx[k, :, :] @ U_l)
             # compute the error with respect to the true component extraction
             errors_response[k] = self.calculate_error_NRMSE(
                 g_cheb_approx, h_ideal
             )
             errors_filter[k] = np.linalg.norm(
-                np.squeeze(H_cheb_approx[k, :, :]) - H_ideal, ord=2
+                H_cheb_approx[k, :, :] - H_ideal, ord=2
             )
 
             # compute the component error with respect to the true signal
-            f_cheb[k] = np.squeeze(H_cheb_approx[k, :, :]) @ f
+            f_cheb[k] = H_cheb_approx[k, :, :] @ f
             extracted_comp_error[k] = self.calculate_error_NRMSE(
                 f_cheb[k], f_true
             )
-- 
2.43.0


From 5afb2234860e442f93be34b87259a9f31a3da99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 21/27] fix: compare visited edges of the flow table in one
 indexing

---
 pytspl/io/data_loaders/transportation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/io/data_loaders/transportation_loader.py b/pytspl/io/data_loaders/transportation_loader.py
index 35cec5d..556531d 100644
--- a/pytspl/io/data_loaders/transportation_loader.py
+++ b/pytspl/io/data_loaders/transportation_loader.py
@@ -64,7 +64,7 @@ def load_flow_transportation(dataset: str, edges: list) -> pd.DataFrame:
             source += 1
             target += 1
 
-            if (source, target) not in visited_nodes:
+            if (source - 1, target - 1) not in visited_nodes:
                 # get the flow volume in the positive direction
                 flow_pos = df_flow[
                     (df_flow["From "] == source) & (df_flow["To "] == target)
-- 
2.43.0


From 32cf3111f6eb458afb6f18e5180c6a73df50fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:02 +0000
Subject: [PATCH 22/27] fix: power iteration could return exact zeros, making
 the eigenvalue estimate NaN

---
 pytspl/filters/base_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 6bab1e6..ac24e21 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -95,6 +95,8 @@ class BaseFilter:
 
         # add machine epsilon to avoid zero division
         v = v + np.finfo(float).eps
+        # the sum can cancel out to zero
+        v[v == 0] = np.finfo(float).eps
         v = v.astype(float)
         return v
 
-- 
2.43.0


From 586ea3b4e3636324b72a42e2bb583750a3d4ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 23/27] fix: an empty edge feature name is a name like any
 other

get_edge_features("") returned the full feature mapping instead of raising
KeyError (or returning the values of a feature of that name).
---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index d4bd150..ad61a8e 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -180,7 +180,7 @@ class SimplicialComplex:
     def get_edge_features(self, name: str = None) -> list[dict]:
         """Return the list of edge features."""
         edge_features = self.edge_features
-        if name:
+        if name is not None:
 
             try:
                 return {
-- 
2.43.0


From f4dd53a5a4e25fe949da11c3b99eb1051c50577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:54 +0000
Subject: [PATCH 24/27] fix: the spring layout places nodes without edges too

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 6aa13fb..9479410 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -47,6 +47,7 @@ class SCPlot:
         if self.pos is None:
             # use spring layout if no coordinates are provided
             G = nx.Graph()
+            G.add_nodes_from(self.sc.nodes)
             G.add_edges_from(self.sc.edges)
             layout = nx.spring_layout(G)
             self.pos = layout
-- 
2.43.0


From 96c9fb836796f943d68960bc11805428769896bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:54 +0000
Subject: [PATCH 25/27] fix: color the nodes with the color map of their
 colorbar

---
 pytspl/plot/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 9479410..9b67e9c 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -139,6 +139,8 @@ class SCPlot:
 
         self._init_axes(ax=ax)
 
+        color_options = {}
+
         if np.iterable(node_color) and np.all(
             [isinstance(c, Number) for c in node_color]
         ):
@@ -159,6 +161,8 @@ class SCPlot:
             fig = ax.get_figure()
             fig.colorbar(mappable=color_map, ax=ax)
 
+            color_options = {"cmap": cmap, "vmin": vmin, "vmax": vmax}
+
         nodes = self.sc.nodes
 
         node_collection = ax.scatter(
@@ -167,9 +171,8 @@ class SCPlot:
             s=node_size,
             c=node_color,
             edgecolors=node_edge_colors,
-            vmin=vmin,
-            vmax=vmax,
             alpha=alpha,
+            **color_options,
         )
 
         if margins is not None:
-- 
2.43.0


From 27143f1c44971512a4bf2a38d943f8dc4799ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:54 +0000
Subject: [PATCH 26/27] fix: draw the node labels on the axes of the nodes

---
 pytspl/plot/plot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 9b67e9c..b81512c 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -187,6 +187,7 @@ class SCPlot:
                 font_weight=font_weight,
                 font_color=font_color,
                 alpha=alpha,
+                ax=ax,
             )
 
         node_collection.set_zorder(2)
@@ -197,6 +198,7 @@ class SCPlot:
         font_color: str = "k",
         font_weight: str = "normal",
         alpha=None,
+        ax=None,
     ) -> None:
         """
         Draw the labels of the nodes.
@@ -210,10 +212,15 @@ class SCPlot:
             Defaults to 'normal'.
             alpha (float, optional): The transparency of the node labels.
             Defaults to None.
+            ax (matplotlib.axes.Axes, optional): The axes object.
+            Defaults to None.
         """
+        if ax is None:
+            ax = plt.gca()
+
         for node_id in self.sc.nodes:
             (x, y) = self.pos[node_id]
-            plt.text(
+            ax.text(
                 x,
                 y,
                 node_id,
-- 
2.43.0


From c143bb65b976d1a5233565f85c9bd8125d03ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:15 +0000
Subject: [PATCH 27/27] fix: draw an empty edge flow instead of failing on its
 limits

---
 pytspl/plot/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index b81512c..7330314 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -294,8 +294,10 @@ class SCPlot:
         graph.add_edges_from(edges)
 
         # edge color is iterable and all elements are numbers
-        if np.iterable(edge_color) and np.all(
-            [isinstance(c, Number) for c in edge_color]
+        if (
+            np.iterable(edge_color)
+            and len(edge_color) > 0
+            and np.all([isinstance(c, Number) for c in edge_color])
         ):
             # check if edge_cmap is a colormap
             if edge_cmap is not None:
-- 
2.43.0

