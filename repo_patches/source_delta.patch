From 609416d02f2cdd24301db73487692b18f9ff2c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 01/15] fix: cSIL incremental updates of the
 cluster-to-centroid distances

The new-cluster branch dropped the factor 2 of the cross term of ||x - v||^2,
and the existing-cluster branch subtracted the cross term of the new sample
twice (it is already part of ||x - v||^2), so the incremental value differed
from the batch value of the same samples.
---
 src/cvi/modules/cSIL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..21d1dd3 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From 107a0b23b9a167df6eafe5dc0214bf6baf2d46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 02/15] fix: batch mode compares labels with the label values,
 not 0..k-1

Clusters were selected by comparing the labels with 0..k-1, so any other set
of labels (one-based, negative, with gaps) gave empty clusters and NaN.
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/PS.py   | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 src/cvi/modules/cSIL.py | 4 ++--
 src/cvi/modules/rCIP.py | 2 +-
 9 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 8a26113..47ee935 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -148,7 +148,7 @@ class CH(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index 56275cd..a350aba 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -175,7 +175,7 @@ class DB(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 388780a..0ef6fba 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -169,7 +169,7 @@ class GD43(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 4134a40..640cece 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -170,7 +170,7 @@ class GD53(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/PS.py b/src/cvi/modules/PS.py
index 83b9101..4bd53b3 100644
--- a/src/cvi/modules/PS.py
+++ b/src/cvi/modules/PS.py
@@ -139,7 +139,7 @@ class PS(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index d1694eb..32998cc 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -150,7 +150,7 @@ class WB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index 53dea02..d5b1e1c 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -166,7 +166,7 @@ class XB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 21d1dd3..7bb9512 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -195,7 +195,7 @@ class cSIL(_base.CVI):
         D = np.zeros((self._n_samples, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
@@ -211,7 +211,7 @@ class cSIL(_base.CVI):
 
         for ix in range(self._n_clusters):
             for jx in range(self._n_clusters):
-                subset_ind = [x for x in range(len(labels)) if labels[x] == jx]
+                subset_ind = [x for x in range(len(labels)) if labels[x] == u[jx]]
                 self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]
 
     @_base._add_docs(_base._evaluate_doc)
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..5b3b419 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -175,7 +175,7 @@ class rCIP(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
-- 
2.43.0


From 67915e758b4f2380667abef7f1594fcd1e155180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 03/15] fix: CH and WB keep a copy of the first sample as the
 initial mean

The running mean was the caller's own array, so reusing that buffer for the
next sample changed the state of the index.
---
 src/cvi/modules/CH.py | 2 +-
 src/cvi/modules/WB.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 47ee935..fc4669f 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -54,7 +54,7 @@ class CH(_base.CVI):
 
         # CH-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = np.copy(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index 32998cc..e3fc4ac 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -56,7 +56,7 @@ class WB(_base.CVI):
 
         # WB-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = np.copy(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
-- 
2.43.0


From 39adc28aa3ecd9bb7dfd2b87e9f582907aa361d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 04/15] fix: reject incremental updates after a batch
 evaluation

The documentation says that switching is not supported, but a 1-D sample after
a batch was accepted and silently mixed with the batch parameters, with the
label map still empty.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..b611fa8 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -136,6 +138,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From f7a31b8d90e5c9e534bd9a82f5ff95252a2c4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 05/15] fix: convert samples to floating point before any
 arithmetic

Products of narrow integer samples (uint8 images, say) wrapped around in cSIL
incremental and rCIP batch mode.
---
 src/cvi/modules/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index b611fa8..6414034 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -136,6 +136,9 @@ class CVI():
             The CVI's criterion value.
         """
 
+        # Do all arithmetic in floating point, whatever the type of the samples
+        data = np.asarray(data, dtype=float)
+
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
 
-- 
2.43.0


From 59f6c46cacfdabf5cf7cc5135af78e454c4c985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 06/15] fix: CP_update keeps the sign of its correction term

The term 2 <delta_v, g> is zero up to rounding and often slightly negative, and
its square root was NaN, which then stuck in the compactness for good.
---
 src/cvi/compat/v0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b8f5d1a..b73219e 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -209,11 +209,12 @@ def CP_update(
     delta_v = v_old - v_new
     z = x - v_new
     g_new = g_old + z + n_old * delta_v
+    cross = 2 * np.dot(delta_v, g_old)
     cp_new = (
         cp_old
         + np.linalg.norm(z, q) ** p
         + n_old * np.linalg.norm(delta_v, q) ** p
-        + np.sqrt(2 * np.dot(delta_v, g_old)) ** p
+        + np.sign(cross) * np.abs(cross) ** (p / 2)
     )
 
     return cp_new, g_new, v_new, n_new
-- 
2.43.0


From 0cfd5f95ad090c242b467e5ee007fe97ebccb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 07/15] fix: iXB uses the current distances between the
 centroids

The smallest distance was a running minimum over the whole stream, so it stayed
behind when the centroids moved apart.
---
 src/cvi/compat/v0.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b73219e..84ef690 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -311,15 +311,16 @@ class iXB:
 
         # self.WGSS_i[c_i] = CP(self.clusters[c_i].center,self.clusters[c_i],2,2)
         self.WGSS += self.WGSS_i[c_i]
-        self.min_v_i[c_i] = np.inf
-        for j in range(len(self.cluster_centers)):
-            if j != c_i:
-                self.min_v_i[c_i] = np.minimum(
-                    self.min_v_i[c_i],
-                    norm22(self.cluster_centers[c_i]-self.cluster_centers[j])
-                )
+        for i in range(len(self.cluster_centers)):
+            self.min_v_i[i] = np.inf
+            for j in range(len(self.cluster_centers)):
+                if j != i:
+                    self.min_v_i[i] = np.minimum(
+                        self.min_v_i[i],
+                        norm22(self.cluster_centers[i]-self.cluster_centers[j])
+                    )
 
-        self.min_v = min([self.min_v, self.min_v_i[c_i]])
+        self.min_v = min(self.min_v_i)
 
         self.output = (self.WGSS / self.N) / self.min_v
         return self.output
-- 
2.43.0


From e2e0cbcd90049f775d0b53a999085fc85ddf8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 08/15] fix: iCH recognises new clusters and follows the moving
 data center

New clusters were compared with the length of an unused, always empty list, so
the third one raised an IndexError, and only the between-cluster term of the
current cluster was refreshed although the data center moves with every sample.
---
 src/cvi/compat/v0.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 84ef690..1aeff66 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -450,7 +450,7 @@ class iCH:
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
         )
-        if c_i == len(self.clusters):
+        if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
@@ -473,12 +473,11 @@ class iCH:
             )
             self.WGSS += self.WGSS_i[c_i]
 
-        self.BGSS -= self.BGSS_i[c_i]
-        self.BGSS_i[c_i] = (
-            self.cluster_sizes[c_i]
-            * norm22(self.cluster_centers[c_i] - self.data_center)
-        )
-        self.BGSS += self.BGSS_i[c_i]
+        self.BGSS_i = [
+            n_i * norm22(v_i - self.data_center)
+            for n_i, v_i in zip(self.cluster_sizes, self.cluster_centers)
+        ]
+        self.BGSS = sum(self.BGSS_i)
 
         if (len(self.cluster_centers) > 1) and (self.N - len(self.cluster_centers) > 0):
             self.output = (
-- 
2.43.0


From 4ca43b0cc2461be421068b74c40c051a52c62c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:40 +0000
Subject: [PATCH 09/15] fix: iPS evaluates the partition separation of the
 current clusters

With a second cluster the update raised a TypeError (sum of a generator).  The
mean of the centroids was a sum over features as well, the output was only
updated while there was one cluster, and the terms of the other clusters were
left as they were although they depend on all centroids and the largest size.
---
 src/cvi/compat/v0.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 1aeff66..06f7cf8 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -378,30 +378,26 @@ class iPS:
         self.max_cluster_size = (
             np.maximum(self.max_cluster_size, self.cluster_sizes[c_i])
         )
-        b_ = ([
-            norm22(self.cluster_centers[c_i] - self.cluster_centers[c_j])
-            for c_j in range(len(self.cluster_centers))
-            if c_j != c_i
-        ])
-        if b_:
-            b = np.min(b_)
-            self.mean_cluster_center = (
-                np.sum(self.cluster_centers) / len(self.cluster_centers)
-            )
-            Bt = (
-                np.sum(
-                    norm22(cc - self.mean_cluster_center)
-                    for cc in self.cluster_centers
-                ) / len(self.cluster_centers)
-            )
-            self.PS_i[c_i] = (
-                self.cluster_sizes[c_i] / self.max_cluster_size
-                - np.exp(-b / Bt)
-            )
+        if len(self.cluster_centers) > 1:
+            self.mean_cluster_center = np.mean(self.cluster_centers, axis=0)
+            Bt = np.mean([
+                norm22(cc - self.mean_cluster_center)
+                for cc in self.cluster_centers
+            ])
+            for i in range(len(self.cluster_centers)):
+                b = np.min([
+                    norm22(self.cluster_centers[i] - self.cluster_centers[j])
+                    for j in range(len(self.cluster_centers))
+                    if j != i
+                ])
+                self.PS_i[i] = (
+                    self.cluster_sizes[i] / self.max_cluster_size
+                    - np.exp(-b / Bt)
+                )
         else:
             self.PS_i[c_i] = 0
 
-            self.output = np.sum(self.PS_i)
+        self.output = np.sum(self.PS_i)
         return self.output
 
 
-- 
2.43.0


From 513d1c6dcb36169f2174147ca9f2063657fd604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:02 +0000
Subject: [PATCH 10/15] fix: iXB, iCH and iPS are left as they were by a
 refused update

A cluster number that skips ahead was counted (iXB, iCH) or half stored, with an
IndexError (iPS), before or instead of the ValueError the others raise.
---
 src/cvi/compat/v0.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 06f7cf8..9fca535 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -286,14 +286,14 @@ class iXB:
             TODO
         """
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
         self.N += 1
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.min_v_i.append(np.inf)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
@@ -362,7 +362,9 @@ class iPS:
             TODO
         """
 
-        if c_i >= len(self.cluster_centers):
+        if c_i > len(self.cluster_centers):
+            raise ValueError('Invalid Cluster Ordering')
+        if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.PS_i.append(0)
@@ -442,6 +444,8 @@ class iCH:
             TODO
         """
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
         self.N += 1
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
@@ -451,8 +455,6 @@ class iCH:
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.BGSS_i.append(0)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
-- 
2.43.0


From 5c88b52a92e4fafe6dcefeb6df0e4de73c0af9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:02 +0000
Subject: [PATCH 11/15] fix: iXB, iCH and iPS keep a copy of the first sample
 of a cluster

It was the caller's array itself, so refilling that array moved the centroid;
integer arrays are converted for the same reason as in the current indices.
---
 src/cvi/compat/v0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 9fca535..4d7ab90 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -290,7 +290,7 @@ class iXB:
             raise ValueError('Invalid Cluster Ordering')
         self.N += 1
         if c_i == len(self.cluster_sizes):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(np.array(x, dtype=float))
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.min_v_i.append(np.inf)
@@ -365,7 +365,7 @@ class iPS:
         if c_i > len(self.cluster_centers):
             raise ValueError('Invalid Cluster Ordering')
         if c_i == len(self.cluster_centers):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(np.array(x, dtype=float))
             self.cluster_sizes.append(1)
             self.PS_i.append(0)
         else:
@@ -451,7 +451,7 @@ class iCH:
             ((self.N - 1) * self.data_center + x) / self.N
         )
         if c_i == len(self.cluster_sizes):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(np.array(x, dtype=float))
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.BGSS_i.append(0)
-- 
2.43.0


From 66073f9270682b14165ae3a1ff5782983483763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:22 +0000
Subject: [PATCH 12/15] fix: Clusters.from_list fills its clusters with the
 points

It appended the class itself and added the cluster number as the point.
---
 src/cvi/compat/v0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 4d7ab90..1ee4ab6 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -141,10 +141,10 @@ class Clusters(list):
     Base clusters class.
     """
     def from_list(self, X, C):
-        for x, c in zip(X, C):
+        for i, (x, c) in enumerate(zip(X, C)):
             if c >= self.__len__():
-                self.append(Cluster)
-            self[c].add_point(c, c)
+                self.append(Cluster())
+            self[c].add_point(x, i)
 
 
 def norm22(x: np.ndarray):
-- 
2.43.0


From 5378a77207fdeb4aa769ad97aa8d340ef7451199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:22 +0000
Subject: [PATCH 13/15] fix: a boxed Cluster accepts a second point

The truth value of the bounding box, an array, was ambiguous.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 1ee4ab6..d7869a7 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -59,7 +59,7 @@ class Cluster:
             assert np.max(x) <= 1
             assert np.min(x) >= 0
             cc_x = np.append(x, 1-x)
-            if self.bounding_box:
+            if len(self.bounding_box):
                 self.bounding_box = np.minimum(self.bounding_box, cc_x)
             else:
                 self.bounding_box = cc_x
-- 
2.43.0


From 3f1704ffcaf7e4e4f0c728c33dd60aaeeedb6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:22 +0000
Subject: [PATCH 14/15] fix: Cluster keeps copies of its points

Refilling the array of a point changed the distances to it.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index d7869a7..ef3c925 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -64,7 +64,7 @@ class Cluster:
             else:
                 self.bounding_box = cc_x
 
-        self.points.append(x)
+        self.points.append(np.array(x))
         if i is not None:
             self.indicies.append(i)
         self.len += 1
-- 
2.43.0


From 08a0c5c1d5036b609c11d1aea95e4d59ce4c3394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:10 +0000
Subject: [PATCH 15/15] fix: refuse samples and labels of the wrong length
 before anything is changed

---
 src/cvi/modules/_base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 6414034..cbf40d7 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -148,6 +148,12 @@ class CVI():
                     "Switching from batch to incremental not supported"
                 )
 
+            # Check that the sample has as many features as those before it
+            if self._is_setup and len(data) != self._dim:
+                raise ValueError(
+                    f"Expected a sample of {self._dim} features, received {len(data)}"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
@@ -162,6 +168,12 @@ class CVI():
                         "Batch CVI mode requires at least two unique labels"
                     )
 
+                # Check that there is one label for each sample
+                if len(label) != len(data):
+                    raise ValueError(
+                        f"Expected {len(data)} labels, received {len(label)}"
+                    )
+
                 # Do a batch update
                 self._param_batch(data, label)
 
-- 
2.43.0

