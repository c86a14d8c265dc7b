From 9d8d5b5e9d6cc9c07fc7236037f853f3900f6034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:35 +0000
Subject: [PATCH 01/56] fix: VARLiNGAM refit reuses AR coefficients and lags
 estimated from earlier data

---
 lingam/var_lingam.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 6883b9b..3d69a9a 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -105,8 +105,8 @@ class VARLiNGAM:
         if self._prune:
             B_taus = self._pruning(X, B_taus, model.causal_order_)
 
-        self._ar_coefs = M_taus
-        self._lags = lags
+        self._fitted_ar_coefs = M_taus
+        self._fitted_lags = lags
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -135,20 +135,15 @@ class VARLiNGAM:
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        lags = self._lags
-
         criterion = self._criterion
         self._criterion = None
 
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
+        lags = self._fitted_lags
 
-        total_effects = np.zeros(
-            [n_sampling, n_features, n_features * (1 + self._lags)]
-        )
+        total_effects = np.zeros([n_sampling, n_features, n_features * (1 + lags)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
@@ -166,10 +161,6 @@ class VARLiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j]
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._lags = lags
-
             self.fit(resampled_X)
             am = np.concatenate([*self._adjacency_matrices], axis=1)
             adjacency_matrices.append(am)
@@ -183,7 +174,7 @@ class VARLiNGAM:
                     )
 
                 # time t-tau
-                for lag in range(self._lags):
+                for lag in range(lags):
                     for from_ in range(n_features):
                         total_effects[
                             i, to, from_ + n_features * (lag + 1)
@@ -226,8 +217,9 @@ class VARLiNGAM:
                 )
 
         # X + lagged X
-        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._lags + from_lag)))
-        for p in range(1 + self._lags + from_lag):
+        lags = self._fitted_lags
+        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + lags + from_lag)))
+        for p in range(1 + lags + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-- 
2.43.0


From d9d32a61755dfb939dd44dd36a43b02a582cd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:35 +0000
Subject: [PATCH 02/56] fix: VARLiNGAM bootstrap resamples residuals of the
 previous replicate

---
 lingam/var_lingam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 3d69a9a..1e1ae8f 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -142,12 +142,13 @@ class VARLiNGAM:
 
         fitted_ar_coefs = self._fitted_ar_coefs
         lags = self._fitted_lags
+        residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + lags)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
-- 
2.43.0


From e3b2fd3497553cd43dfcdb200b1c83ae627bf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:35 +0000
Subject: [PATCH 03/56] fix: VARLiNGAM pruning regresses on lags beyond the
 selected one

---
 lingam/var_lingam.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 1e1ae8f..b02c40e 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -360,18 +360,19 @@ class VARLiNGAM:
     def _pruning(self, X, B_taus, causal_order):
         """Prune edges"""
         n_features = X.shape[1]
+        lags = len(B_taus) - 1
 
         stacked = [np.flip(X, axis=0)]
-        for i in range(self._lags):
+        for i in range(lags):
             stacked.append(np.roll(stacked[-1], -1, axis=0))
-        blocks = np.array(list(zip(*stacked)))[: -self._lags]
+        blocks = np.array(list(zip(*stacked)))[:-lags]
 
         for i in range(n_features):
             causal_order_no = causal_order.index(i)
             ancestor_indexes = causal_order[:causal_order_no]
 
             obj = np.zeros((len(blocks)))
-            exp = np.zeros((len(blocks), causal_order_no + n_features * self._lags))
+            exp = np.zeros((len(blocks), causal_order_no + n_features * lags))
             for j, block in enumerate(blocks):
                 obj[j] = block[0][i]
                 exp[j:] = np.concatenate(
-- 
2.43.0


From 1f6f280369e5231aaa6018f5a1fd37f279c8a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:35 +0000
Subject: [PATCH 04/56] fix: VARLiNGAM total effect regresses on lagged values
 wrapped around from the series end

---
 lingam/var_lingam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index b02c40e..caec3ea 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -223,6 +223,8 @@ class VARLiNGAM:
         for p in range(1 + lags + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
+        # drop the rows whose lagged values wrapped around
+        X_joined = X_joined[lags + from_lag :]
 
         # from_index + parents indices
         am = np.concatenate([*self._adjacency_matrices], axis=1)
-- 
2.43.0


From b05a0a0a16d5f6673045fdaa6d98461040eb8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:53 +0000
Subject: [PATCH 05/56] fix: VARLiNGAM lagged total effect ignores paths
 through lagged variables

---
 lingam/var_lingam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index caec3ea..2011625 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -270,9 +270,12 @@ class VARLiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # from_index + parents indices
-        am = np.concatenate([*self._adjacency_matrices], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
+        # unroll the effects between all the time points from t-lags to t
+        n_blocks = len(self._adjacency_matrices)
+        am = np.zeros((n_features * n_blocks, n_features * n_blocks))
+        for i in range(n_blocks):
+            row = np.concatenate([*self._adjacency_matrices[: n_blocks - i]], axis=1)
+            am[n_features * i : n_features * (i + 1), n_features * i :] = row
         from_index = (
             from_index if from_lag == 0 else from_index + (n_features * from_lag)
         )
-- 
2.43.0


From b8def7b4a45cb888478d8dbde6648e12573cef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:23 +0000
Subject: [PATCH 06/56] fix: VARMALiNGAM refit reuses ARMA coefficients and
 order estimated from earlier data

The bootstrap likewise resampled the residuals of the previous replicate instead of
those of the original fit.
---
 lingam/varma_lingam.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..de81efe 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -126,9 +126,9 @@ class VARMALiNGAM:
             ).T
             psis, omegas = self._pruning(X, ee, order, model.causal_order_)
 
-        self._ar_coefs = phis
-        self._ma_coefs = thetas
-        self._order = order
+        self._fitted_ar_coefs = phis
+        self._fitted_ma_coefs = thetas
+        self._fitted_order = order
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -156,25 +156,22 @@ class VARMALiNGAM:
 
         n_samples = X.shape[0]
         n_features = X.shape[1]
-        (p, q) = self._order
-
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
 
         criterion = self._criterion
         self._criterion = None
 
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
-        fitted_ma_coefs = self._ma_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_ma_coefs = self._fitted_ma_coefs
+        (p, q) = self._fitted_order
+        residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
@@ -192,10 +189,6 @@ class VARMALiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._ma_coefs = ma_coefs
-
             self.fit(resampled_X)
 
             psi = self._adjacency_matrices[0]
@@ -220,7 +213,7 @@ class VARMALiNGAM:
 
         self._criterion = criterion
 
-        return VARMABootstrapResult(adjacency_matrices, total_effects, self._order)
+        return VARMABootstrapResult(adjacency_matrices, total_effects, (p, q))
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
         """Estimate total effect using causal model.
@@ -258,16 +251,17 @@ class VARMALiNGAM:
                 )
 
         # X + lagged X
+        order = self._fitted_order
         X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
+            (X.shape[0], X.shape[1] * (1 + from_lag + order[0] + order[1]))
         )
 
-        for p in range(1 + self._order[0]):
+        for p in range(1 + order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+        for q in range(order[1]):
+            pos = n_features * (1 + order[0]) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
-- 
2.43.0


From 28bdc7b53757626639ffd91074c5f4e3f47b85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:23 +0000
Subject: [PATCH 07/56] fix: VARMALiNGAM lagged total effects use the wrong lag
 and parents

---
 lingam/varma_lingam.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index de81efe..89f1383 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -256,16 +256,19 @@ class VARMALiNGAM:
             (X.shape[0], X.shape[1] * (1 + from_lag + order[0] + order[1]))
         )
 
-        for p in range(1 + order[0]):
+        for p in range(1 + from_lag + order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
         for q in range(order[1]):
-            pos = n_features * (1 + order[0]) + n_features * q
+            pos = n_features * (1 + from_lag + order[0]) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
-                E[:, 0:n_features], q + 1, axis=0
+                E[:, 0:n_features], q + 1 + from_lag, axis=0
             )
 
+        # drop the rows whose lagged values wrapped around
+        X_joined = X_joined[max(order) + from_lag :]
+
         # concat psi and omega
         psi = self._adjacency_matrices[0]
         omega = self._adjacency_matrices[1]
@@ -273,8 +276,8 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
+        from_index = from_index + n_features * from_lag
+        parents = parents + n_features * from_lag
         predictors = [from_index]
         predictors.extend(parents)
 
@@ -312,13 +315,15 @@ class VARMALiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # concat psi and omega
+        # unroll the effects between all the time points from t-p to t
         psi = self._adjacency_matrices[0]
-        am = np.concatenate([*psi], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
+        n_blocks = len(psi)
+        am = np.zeros((n_features * n_blocks, n_features * n_blocks))
+        for i in range(n_blocks):
+            row = np.concatenate([*psi[: n_blocks - i]], axis=1)
+            am[n_features * i : n_features * (i + 1), n_features * i :] = row
 
-        # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        from_index = from_index + n_features * from_lag
 
         # Estimate total effect
         effect = calculate_total_effect(am, from_index, to_index)
-- 
2.43.0


From fd0119079d8101761ece43298e20eadd6f6c2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:23 +0000
Subject: [PATCH 08/56] fix: VARMALiNGAM omega lacks the (I - psi0)^-1 factor

---
 lingam/varma_lingam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 89f1383..e0beb97 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -418,10 +418,12 @@ class VARMALiNGAM:
 
         omegas = []
         for j in range(order[1]):
-            omega = np.dot(
-                np.eye(psi0.shape[0]) - psi0,
-                thetas[j],
-                np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+            omega = np.linalg.multi_dot(
+                [
+                    np.eye(psi0.shape[0]) - psi0,
+                    thetas[j],
+                    np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+                ]
             )
             omegas.append(omega)
 
-- 
2.43.0


From 4a47eb0974e51b5eb7fcf250fd70001425486250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:42 +0000
Subject: [PATCH 09/56] fix: VARMALiNGAM pruning fails with given coefficients
 and uses wrapped-around lags

---
 lingam/varma_lingam.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index e0beb97..6192914 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -433,6 +433,9 @@ class VARMALiNGAM:
         """"""
         n_features = X.shape[1]
 
+        # the residuals of the first samples are not available with given coefficients
+        X = X[-len(ee) :]
+
         # join X(t), X(t-1) and e(t-1)
         X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + order[0] + order[1])))
         for p in range(1 + order[0]):
@@ -445,6 +448,9 @@ class VARMALiNGAM:
                 ee[:, 0:n_features], q + 1, axis=0
             )
 
+        # drop the rows whose lagged values wrapped around
+        X_joined = X_joined[max(order) :]
+
         # pruned by adaptive lasso
         psi_omega = np.zeros((n_features, n_features * (1 + order[0] + order[1])))
         for i, target in enumerate(causal_order):
-- 
2.43.0


From 93710d2be74b86eef4346c661979b3f7f409194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:42 +0000
Subject: [PATCH 10/56] fix: VARMALiNGAM ignores random_state when coefficients
 are given

---
 lingam/varma_lingam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 6192914..16e9442 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -8,7 +8,7 @@ import warnings
 
 import numpy as np
 from sklearn.linear_model import LinearRegression
-from sklearn.utils import check_array, resample
+from sklearn.utils import check_array, check_random_state, resample
 from statsmodels.tsa.statespace.varmax import VARMAX
 
 from .base import _BaseLiNGAM
@@ -389,11 +389,12 @@ class VARMALiNGAM:
         n_samples = X.shape[1]
 
         start_index = max(p, q)
+        random_state = check_random_state(self._random_state)
 
         epsilon = np.zeros([n_features, n_samples])
         for t in range(n_samples):
             if t < start_index:
-                epsilon[:, t] = np.random.normal(size=(n_features))
+                epsilon[:, t] = random_state.normal(size=(n_features))
                 continue
 
             ar = np.zeros([n_features, 1])
-- 
2.43.0


From 5d1da0397a8cc812a9ae4a184a977ce9b27bca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:07 +0000
Subject: [PATCH 11/56] fix: integer data are truncated or overflow while
 residuals are computed

---
 lingam/camuv.py                     | 2 +-
 lingam/direct_lingam.py             | 2 +-
 lingam/high_dim_direct_lingam.py    | 2 +-
 lingam/multi_group_camuv.py         | 2 +-
 lingam/multi_group_direct_lingam.py | 2 +-
 lingam/multi_group_rcd.py           | 2 +-
 lingam/rcd.py                       | 2 +-
 lingam/utils/__init__.py            | 2 +-
 lingam/utils/_rcd.py                | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 89a683f..e63d08d 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -172,7 +172,7 @@ class CAMUV:
         d = X.shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y = copy.deepcopy(X)
+        Y = X.astype(np.float64)
 
         while True:
             changed = False
diff --git a/lingam/direct_lingam.py b/lingam/direct_lingam.py
index 7987bcb..fda1024 100644
--- a/lingam/direct_lingam.py
+++ b/lingam/direct_lingam.py
@@ -90,7 +90,7 @@ class DirectLiNGAM(_BaseLiNGAM):
         # Causal discovery
         U = np.arange(n_features)
         K = []
-        X_ = np.copy(X)
+        X_ = X.astype(np.float64)
         if self._measure == "kernel":
             X_ = scale(X_)
 
diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 2251888..c1aa9a5 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -61,7 +61,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
             Fitted model.
         """
 
-        self._Y = check_array(X)
+        self._Y = check_array(X, dtype=np.float64)
 
         self._yty = self._Y.T @ self._Y
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 5ae2d23..391f35b 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -215,7 +215,7 @@ class MultiGroupCAMUV:
         d = X_list[0].shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y_list = [copy.deepcopy(X) for X in X_list]
+        Y_list = [X.astype(np.float64) for X in X_list]
 
         while True:
             changed = False
diff --git a/lingam/multi_group_direct_lingam.py b/lingam/multi_group_direct_lingam.py
index 89c1032..a1a6469 100644
--- a/lingam/multi_group_direct_lingam.py
+++ b/lingam/multi_group_direct_lingam.py
@@ -80,7 +80,7 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
         # Causal discovery
         U = np.arange(self._n_features)
         K = []
-        X_list_ = [np.copy(X) for X in X_list]
+        X_list_ = [X.astype(np.float64) for X in X_list]
         for _ in range(self._n_features):
             m = self._search_causal_order(X_list_, U)
             for i in U:
diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..36ea2b2 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -346,7 +346,7 @@ class MultiGroupRCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros_like(X, dtype=np.float64)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/rcd.py b/lingam/rcd.py
index c772d38..ad9dbef 100644
--- a/lingam/rcd.py
+++ b/lingam/rcd.py
@@ -146,7 +146,7 @@ class RCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros_like(X, dtype=np.float64)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6be6c0c..91e6cab 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -206,7 +206,7 @@ def remove_effect(X, remove_features, return_coefs=False):
         The order of the coefficients in the list is the same
         as in remove_features. Only provided if return_coefs is True.
     """
-    X = np.copy(check_array(X))
+    X = check_array(X).astype(np.float64)
     coefs = {}
     features_ = [i for i in np.arange(X.shape[1]) if i not in remove_features]
     for feature in features_:
diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index 0f221a7..c6797eb 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -127,7 +127,7 @@ def get_residual_matrix(X, U, H_U):
     if len(H_U) == 0:
         return X
 
-    Y = np.zeros_like(X)
+    Y = np.zeros_like(X, dtype=np.float64)
     for xj in U:
         Y[:, xj], _ = get_resid_and_coef(X, xj, list(H_U))
     return Y
-- 
2.43.0


From 40a795c2f9ef2e83c60e81c824789bf5ab41d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:07 +0000
Subject: [PATCH 12/56] fix: HighDimDirectLiNGAM only evaluates the first
 conditioning set

---
 lingam/high_dim_direct_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index c1aa9a5..4fc7de7 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -141,7 +141,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
                     - resid_k * (1.0 / n) * np.dot(resid.T, self._Y[:, an_sets[z, i]])
                 ret[an_sets[z, i]] = np.min([ret[an_sets[z, i]], abs(value)])
 
-            return ret
+        return ret
 
     def _get_prune_stats(self, i, j, K, last_root, condition_set, J):
         j = list(set(j) - {i})
-- 
2.43.0


From 9619674578d5e1f4fff8e7dd9e1272c58cc2ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 13/56] fix: optimal intervention treats variables with
 cancelling coefficients as roots

---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..0c9c710 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 5188450976e775800780a8ea7f2b9986e190c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:31 +0000
Subject: [PATCH 14/56] fix: variables with cancelling coefficients are taken
 for root nodes

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 91e6cab..651a205 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1047,7 +1047,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
 
     # find root nodes
     root_indices = np.argwhere(
-        np.isclose(np.sum(adjacency_matrix, axis=1), 0) == True
+        np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True
     ).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
-- 
2.43.0


From 0825ad93d0d00d79ea5eb0992d28050ec10daf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:01 +0000
Subject: [PATCH 15/56] fix: BottomUpParceLiNGAM accepts all variables as sinks
 when every p-value is zero

---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 8fdfa57..b387b68 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -258,7 +258,7 @@ class BottomUpParceLiNGAM:
                     )
 
                     # Update output
-                    if fisher_stat < max_p_stat:
+                    if len(exo_vec) == 0 or fisher_stat < max_p_stat:
                         exo_vec = xi_index
                         eval = fisher_p
                         max_p_stat = fisher_stat
-- 
2.43.0


From 146e4e6dcc02104c798e58bc554d7c1248b822df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:01 +0000
Subject: [PATCH 16/56] fix: BottomUpParceLiNGAM leaves non-candidate variables
 out of the sink test

---
 lingam/bottom_up_parce_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index b387b68..5fd36c1 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -245,7 +245,7 @@ class BottomUpParceLiNGAM:
         else:
             max_p_stat = np.inf
             for j in range(len(Uc)):
-                xi_index = np.setdiff1d(Uc, Uc[j])
+                xi_index = np.setdiff1d(U, Uc[j])
                 xj_index = np.array([Uc[j]])
 
                 # Compute residuals
@@ -271,7 +271,7 @@ class BottomUpParceLiNGAM:
                         exo_vec = xi_index
                         eval = f_corr
 
-            m = np.setdiff1d(Uc, exo_vec)
+            m = np.setdiff1d(U, exo_vec)
 
         return m, exo_vec, eval
 
-- 
2.43.0


From 15d1159635eb5385e20f44ceb2a34937421f7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:01 +0000
Subject: [PATCH 17/56] fix: BottomUpParceLiNGAM never returns when prior
 knowledge is cyclic

---
 lingam/bottom_up_parce_lingam.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 5fd36c1..041669c 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -7,6 +7,7 @@ import itertools
 import numbers
 import warnings
 
+import networkx as nx
 import numpy as np
 from scipy.stats.distributions import chi2
 from sklearn.linear_model import LinearRegression
@@ -119,6 +120,9 @@ class BottomUpParceLiNGAM:
             else:
                 # Extract all partial orders in prior knowledge matrix
                 self._partial_orders = self._extract_partial_orders(self._Aknw)
+                orders = nx.DiGraph(self._partial_orders.tolist())
+                if not nx.is_directed_acyclic_graph(orders):
+                    raise ValueError("The prior knowledge contains a cyclic order.")
 
         # Center variables for each group
         X = X - np.tile(np.mean(X, axis=0), (X.shape[0], 1))
-- 
2.43.0


From e23fbb0040d20e77018de67f424f920dfc8eb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:49 +0000
Subject: [PATCH 18/56] fix: LongitudinalLiNGAM reports lagged effects in
 reversed lag order

---
 lingam/longitudinal_lingam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..41f8927 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -168,7 +168,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -410,7 +409,7 @@ class LongitudinalLiNGAM:
         X_t = np.array(X_t)
 
         for t in range(self._n_lags, self._T):
-            X = np.vstack(X_t[t - self._n_lags:t])
+            X = np.vstack(X_t[t - self._n_lags:t][::-1])
             y = X_t[t]
 
             reg = LinearRegression()
-- 
2.43.0


From ce1f02d418a20874fe397f85eb1db3dc3e3d33dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:49 +0000
Subject: [PATCH 19/56] fix: LongitudinalLiNGAM bootstrap fails with more than
 one lag

---
 lingam/longitudinal_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 41f8927..df59b08 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -239,7 +239,7 @@ class LongitudinalLiNGAM:
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            for from_t in range(max(start_from_t, self._n_lags), self._T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
-- 
2.43.0


From 55afe08d345ea01ebbb2ebc3e883a68ad7444466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:49 +0000
Subject: [PATCH 20/56] fix: LongitudinalLiNGAM error independence tests
 undefined residuals with more than one lag

---
 lingam/longitudinal_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index df59b08..8a7a667 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -386,7 +386,7 @@ class LongitudinalLiNGAM:
 
         p_values_list = np.zeros([self._T, self._p, self._p])
         p_values_list[:, :, :] = np.nan
-        for t in range(1, self._T):
+        for t in range(self._n_lags, self._T):
             p_values = np.zeros([self._p, self._p])
             for i, j in itertools.combinations(range(self._p), 2):
                 _, p_value = hsic_test_gamma(
-- 
2.43.0


From 9ec17d2554df1e5b9a079cffbf4ecb361180a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:49 +0000
Subject: [PATCH 21/56] fix: LongitudinalLiNGAM has no or stale residuals when
 prior knowledge is given

---
 lingam/longitudinal_lingam.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a7a667..36f3bfb 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -185,6 +185,16 @@ class LongitudinalLiNGAM:
                 causal_order = causal_order - min(causal_order)
                 causal_orders.append(causal_order.tolist())
 
+            # residuals of the reduced form
+            X_t = X_t.reshape(self._T, self._p, self._n)
+            self._residuals = np.full((self._T, self._n, self._p), np.nan)
+            for t in range(self._n_lags, self._T):
+                lagged = sum(
+                    adjs[t, tau] @ X_t[t - tau] for tau in range(1, n_taus)
+                )
+                B_t = np.eye(self._p) - adjs[t, 0]
+                self._residuals[t] = (X_t[t] - np.linalg.solve(B_t, lagged)).T
+
             self._adjacency_matrices = adjs
             self._causal_orders = causal_orders
 
-- 
2.43.0


From 90438dfbdf5cb1ae00481642b1116e8c7aa3176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:26 +0000
Subject: [PATCH 22/56] fix: MultiGroupRCD ignores all but the last data set's
 F-correlation

---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 36ea2b2..a0479bb 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -411,7 +411,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From 4d522a6262c2c3085aa41d8beaca2da564097c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:26 +0000
Subject: [PATCH 23/56] fix: MultiGroupRCD returns no total effects for
 confounded sources instead of nan

---
 lingam/multi_group_rcd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index a0479bb..bfce405 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -166,7 +166,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             # from_index + parents indices
             parents = np.where(np.abs(am[from_index]) > 0)[0]
@@ -212,7 +213,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             effect = calculate_total_effect(am, from_index, to_index)
             effects.append(effect)
-- 
2.43.0


From 4c19b8456140e66c0f716330343554f1f9fc4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:49 +0000
Subject: [PATCH 24/56] fix: LiM optimises a different loss when an instance is
 fitted again

---
 lingam/lim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e25e9db..e05dccc 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -96,21 +96,21 @@ class LiM:
         def _loss(W):
             """Evaluate value and gradient of loss."""
             M = X @ W
-            if self._loss_type == "logistic":
+            if loss_type == "logistic":
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
-            elif self._loss_type == "poisson":
+            elif loss_type == "poisson":
                 loss = -np.sum(X.T @ M) + np.exp(M).sum()
                 for j in range(X.shape[0]):
                     for k in range(X.shape[1]):
                         loss += np.log(_factorial(X[j][k]))
                 loss = 1.0 / X.shape[0] * loss
                 G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
-            elif self._loss_type == "laplace":
+            elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
                 G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
-            elif self._loss_type == "mixed":
+            elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
                 loss_dis = (
@@ -129,7 +129,7 @@ class LiM:
                 G_dis = X.T @ (sigmoid(M) - X) * W_dis
                 G_con = -X.T @ np.tanh(R) * W_con
                 G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
-            elif self._loss_type == "mixed_dag":
+            elif loss_type == "mixed_dag":
                 dag = nx.DiGraph(W)
                 lingam_data = np.transpose(X)
                 df = pd.DataFrame(X)
@@ -277,6 +277,7 @@ class LiM:
                 return y * _factorial(y - 1)
 
         n, d = X.shape
+        loss_type = self._loss_type
         w_est, rho, alpha, h = (
             np.random.random(2 * d * d),
             1.0,
@@ -322,7 +323,7 @@ class LiM:
         print("W_est (without the 2nd phase) is: \n", W_est)
 
         if not only_global:
-            self._loss_type = "mixed_dag"
+            loss_type = "mixed_dag"
             aa, aaa = _loss(W_est)  # loss
             I = np.where(W_est != 0)
             # check directions
-- 
2.43.0


From b758ed24ee1526504c779bd162ed6bf323ec1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:04 +0000
Subject: [PATCH 25/56] fix: nonlinear causal effects are not adjusted for
 parents with weights other than 1

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 3fb1266..402ffd5 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -201,7 +201,7 @@ def _calculate(
 
     for m, sub_index in zip(adj_matrices, index_list):
         # parents of cause except effect
-        covariate = np.where(m[cause_index, :] == 1)[0].tolist()
+        covariate = np.where(np.abs(m[cause_index, :]) > 0)[0].tolist()
         covariate = np.delete(covariate, np.argwhere(covariate == effect_index))
 
         # train
-- 
2.43.0


From 1290747d602ce54e13c8892f961c1057c174fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:04 +0000
Subject: [PATCH 26/56] fix: nonlinear causal effects use row labels as
 positions and drop replicates without indices

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 402ffd5..71dd64f 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -117,11 +117,11 @@ def visualize_nonlinear_causal_effect(
         adj_matrices = cd_result.adjacency_matrices_
         index_list = cd_result.resampled_indices_
         if index_list is None:
-            index_list = [X.index]
+            index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
         adj_matrices = [cd_result]
-        index_list = [X.index]
+        index_list = [np.arange(len(X))]
         disable_percentile = True
 
     effect_info = _calculate(
-- 
2.43.0


From 6866b8a68e9a87f187fc67b36ec5bc377f831440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 27/56] fix: CausalDataGenerator fails to generate data when
 there are no adjustments

---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index db4efbe..627ed17 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -213,7 +213,7 @@ class CausalDataGenerator:
                 generated[self._cause] = predicted
                 if self._X[self._cause].dtype == "category":
                     generated[self._cause] = pd.Categorical(generated[self._cause])
-            else:
+            elif self.model_cause_ is not None:
                 if self._X[self._cause].dtype != "category":
                     predicted = self.model_cause_.predict(generated[self._adjustments])
                     generated[self._cause] += np.array(predicted)
-- 
2.43.0


From 8fcd4e7b9db812c84c6032eeed151c3b75ae743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 28/56] fix: CausalDataGenerator fails to generate data when X
 has further columns

---
 lingam/experimental/cdg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 627ed17..afd7bac 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -270,7 +270,8 @@ class CausalDataGenerator:
                     generated[self._effect] = np.array(predicted)
                     generated[self._effect] = pd.Categorical(generated[self._effect])
 
-        generated_values = generated.loc[self._X.index, self._X.columns]
+        columns = [col for col in self._X.columns if col in generated.columns]
+        generated_values = generated[columns]
 
         return generated_values
 
-- 
2.43.0


From 2056438cacc68015dc9b4b3df9227031b9e5db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 29/56] fix: OutOfSampleCausalTuning does not refuse
 configurations without a model

---
 lingam/experimental/oct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/oct.py b/lingam/experimental/oct.py
index c26621e..b61ac0d 100644
--- a/lingam/experimental/oct.py
+++ b/lingam/experimental/oct.py
@@ -208,7 +208,7 @@ class OutOfSampleCausalTuning():
                 config_[key] = value
 
             # check
-            if config_["all_others"] is False and "model" not in config_.keys():
+            if config_["all_others"] is False and config_["model"] is None:
                 raise ValueError(f"model is not specified (config[{config_idx}])")
             elif config_["all_others"] is True:
                 config_["model"] = None
-- 
2.43.0


From 801ff55b575fbc8764ce72ffabc123ffc0fdbf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:07 +0000
Subject: [PATCH 30/56] fix: make_dot_highlight does not highlight the nodes of
 the path

---
 lingam/utils/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 651a205..1983cf0 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -666,9 +666,9 @@ def make_dot_highlight(
             for i, node in enumerate(nodes):
                 node_id = get_node_id(cls_name, node)
                 pos_x = hmargin * i + offset_x
-                kwargs = {}
+                kwargs = {"color": color}
                 if path is not None:
-                    if node in path_nodes:
+                    if node_names[node] in path_nodes:
                         kwargs["fontcolor"] = path_color
                         kwargs["color"] = path_color
                     if node == path_start or node == path_end:
@@ -677,7 +677,6 @@ def make_dot_highlight(
                     node_id,
                     node_names[node],
                     pos=f"{pos_x},{pos_y}!",
-                    color=color,
                     **kwargs,
                 )
                 node_ids[node].append((node_id, dist))
-- 
2.43.0


From 253d3c16fc989085441ce41b53c5f6715973fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:07 +0000
Subject: [PATCH 31/56] fix: make_dot_highlight draws an isolated target node
 twice

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 1983cf0..480b348 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -555,7 +555,7 @@ def make_dot_highlight(
     # node indices
     dsc_indices = set(dsc_path_length.keys())
     anc_indices = set(anc_path_length.keys())
-    isolate_indices = set(nx.isolates(G))
+    isolate_indices = set(nx.isolates(G)) - set([node_index])
     other_indices = (
         set(np.arange(adj.shape[0]))
         - dsc_indices
-- 
2.43.0


From 0f5bfa7c27a9484cc12368f104561c97c94f4719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 32/56] fix: CausalBasedSimulator fails on exogenous values
 that are not numpy arrays

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..c58f43f 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -221,7 +221,7 @@ class CausalBasedSimulator:
             if s.shape[0] != n_samples:
                 raise RuntimeError(f"Wrong length. ({s.shape[0]} != {n_samples})")
 
-            changing_exog_[var_name] = values
+            changing_exog_[var_name] = s
 
         return changing_exog_
 
-- 
2.43.0


From c56dd4b7c391e30ab3d04f4f1100dfb0d89449dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 33/56] fix: CausalBasedSimulator does not refuse to run before
 training

---
 lingam/causal_based_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index c58f43f..84f9d02 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -26,6 +26,9 @@ class CausalBasedSimulator:
         Information about trained models.
     """
 
+    def __init__(self):
+        self._train_result = None
+
     def train(self, X, causal_graph, cd_algo_name=None, models=None, is_discrete=None):
         """
         Estimate functional relations between variables and variable
-- 
2.43.0


From cdbb3f1853f3c10512ab0940b0fb34ec0fa3e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 34/56] fix: CausalBasedSimulator picks wrong discrete
 variables of time series from arrays

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 84f9d02..491800d 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -753,7 +753,7 @@ class CBSITimeSeriesLiNGAM(CBSILiNGAM):
             is_discrete = [False for _ in range(n_features)]
             is_discrete *= self._n_lags + 1
         else:
-            is_discrete = is_discrete * (self._n_lags + 1)
+            is_discrete = list(is_discrete) * (self._n_lags + 1)
 
         discrete_endog_names = np.array(endog_names)[is_discrete].tolist()
 
-- 
2.43.0


From c6080bffe664d2cf6f750438ff229336f5456fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 35/56] fix: evaluate_model_fit rounds coefficients to six
 decimals

---
 lingam/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 480b348..bba5225 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -986,7 +986,8 @@ def evaluate_model_fit(adjacency_matrix, X, is_ordinal=None):
                 if eta_name not in eta_names:
                     eta_names.append(eta_name)
             elif not np.isclose(elem, 0):
-                desc += f"{elem:f} * x{j:d} + "
+                coef = np.format_float_positional(elem, trim="-")
+                desc += f"{coef} * x{j:d} + "
         desc = desc[: -len(" * ")] + "\n"
 
     if len(eta_names) > 0:
-- 
2.43.0


From cdd7ef640762aa5fd3b05d6beff6af855b091923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:25 +0000
Subject: [PATCH 36/56] fix: find_all_paths does not refuse a cycle through the
 start variable

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index bba5225..51a9d00 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -824,7 +824,7 @@ def find_all_paths(dag, from_index, to_index, min_causal_effect=0.0):
     # DFS
     paths = []
     stack = [from_index]
-    stack_to_indice = [to_indices[from_index]]
+    stack_to_indice = [to_indices[from_index].copy()]
     while stack:
         if len(stack) > dag.shape[0]:
             raise ValueError(
-- 
2.43.0


From 31a5295b8c7b35d4dab1af3c9372d336eb8a480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:32 +0000
Subject: [PATCH 37/56] fix: HSIC and VARMA estimation overflow or fail on
 narrow integer data

---
 lingam/hsic.py         | 2 ++
 lingam/varma_lingam.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lingam/hsic.py b/lingam/hsic.py
index fa89b89..196980e 100644
--- a/lingam/hsic.py
+++ b/lingam/hsic.py
@@ -29,6 +29,7 @@ def get_kernel_width(X):
     float
         The bandwidth parameter.
     """
+    X = np.asarray(X, dtype=np.float64)
     n_samples = X.shape[0]
     if n_samples > 100:
         X_med = X[:100, :]
@@ -46,6 +47,7 @@ def get_kernel_width(X):
 
 def _rbf_dot(X, width):
     """rbf dot, in special case with X dot X"""
+    X = np.asarray(X, dtype=np.float64)
     G = np.sum(X * X, axis=1)
     H = G[None, :] + G[:, None] - 2 * np.dot(X, X.T)
     return np.exp(-H / 2 / (width**2))
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 16e9442..bdfee14 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -93,7 +93,7 @@ class VARMALiNGAM:
         self._causal_order = None
         self._adjacency_matrices = None
 
-        X = check_array(X)
+        X = check_array(X, dtype=np.float64)
 
         lingam_model = self._lingam_model
         if lingam_model is None:
-- 
2.43.0


From 34752d89b05b5e6d2c83226c5b7e2c40f671b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:25 +0000
Subject: [PATCH 38/56] fix: RESIT.get_error_independence_p_values fails on
 lists

---
 lingam/resit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/resit.py b/lingam/resit.py
index f84be41..bbfd8e5 100644
--- a/lingam/resit.py
+++ b/lingam/resit.py
@@ -171,6 +171,6 @@ class RESIT(_BaseLiNGAM):
         independence_p_values : array-like, shape (n_features, n_features)
             **RESIT always returns zero**
         """
-        n_features = X.shape[1]
+        n_features = check_array(X).shape[1]
         p_values = np.zeros([n_features, n_features])
         return p_values
-- 
2.43.0


From d3cb5cb2af6dd42bf8a87807b7c8029820c45168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:25 +0000
Subject: [PATCH 39/56] fix: LiM fails on data frames and lists

---
 lingam/lim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lingam/lim.py b/lingam/lim.py
index e05dccc..5dc6d9c 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -13,6 +13,7 @@ from scipy.special import expit as sigmoid
 from sklearn.linear_model import (LinearRegression, LogisticRegression,
                                   PoissonRegressor)
 from sklearn.metrics import log_loss
+from sklearn.utils import check_array
 
 import lingam.utils as ut
 
@@ -86,6 +87,9 @@ class LiM:
             Returns the instance of self.
         """
 
+        X = check_array(X)
+        dis_con = check_array(dis_con)
+
         W_min_lss = self._estimate_LiM(X, dis_con, only_global, is_poisson)
         self._adjacency_matrix = W_min_lss
         return self._adjacency_matrix
-- 
2.43.0


From 7f5f2a388bc044ffe6db97cee7e9211da0ae88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:18 +0000
Subject: [PATCH 40/56] fix: CausalBasedSimulator fails on lists and unnamed
 columns of time series

---
 lingam/causal_based_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 491800d..c90ded7 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -734,10 +734,10 @@ class CBSITimeSeriesLiNGAM(CBSILiNGAM):
         return causal_graph_
 
     def _make_var_names(self, causal_graph, X, is_discrete):
-        n_features = X.shape[1]
+        n_features = len(causal_graph) // (self._n_lags + 1)
 
         if isinstance(X, pd.DataFrame):
-            endog_names_ = X.columns.tolist()
+            endog_names_ = [str(name) for name in X.columns]
         else:
             endog_names_ = [f"{i:d}" for i in range(n_features)]
 
-- 
2.43.0


From 9bb274248cca84d33e6bdbad0e2c9bc02b878afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:28 +0000
Subject: [PATCH 41/56] fix: VARMALiNGAM bootstrap fails when the AR or MA
 order is zero

---
 lingam/varma_lingam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index bdfee14..14c4823 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -180,11 +180,13 @@ class VARMALiNGAM:
                     continue
 
                 ar = np.zeros((1, n_features))
-                for t, M in enumerate(fitted_ar_coefs):
+                for t in range(p):
+                    M = fitted_ar_coefs[t]
                     ar += np.dot(M, resampled_X[j - t - 1, :].T).T
 
                 ma = np.zeros((1, n_features))
-                for t, M in enumerate(fitted_ma_coefs):
+                for t in range(q):
+                    M = fitted_ma_coefs[t]
                     ma += np.dot(M, sampled_residuals[j - t - 1, :].T).T
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
-- 
2.43.0


From 5239e5c498cc738889e2ac9af023b2efcb5a9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:06 +0000
Subject: [PATCH 42/56] fix: VARLiNGAM and VARMALiNGAM lose their criterion
 when a bootstrap fails

---
 lingam/var_lingam.py   | 14 +++++++++-----
 lingam/varma_lingam.py | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 2011625..fd62403 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -132,11 +132,17 @@ class VARLiNGAM:
         """
         X = check_array(X)
 
-        n_samples = X.shape[0]
-        n_features = X.shape[1]
-
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling)
+        finally:
+            self._criterion = criterion
+
+    def _bootstrap(self, X, n_sampling):
+        """Bootstrap with the lags or orders fixed."""
+        n_samples = X.shape[0]
+        n_features = X.shape[1]
 
         self.fit(X)
 
@@ -181,8 +187,6 @@ class VARLiNGAM:
                             i, to, from_ + n_features * (lag + 1)
                         ] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
 
-        self._criterion = criterion
-
         return VARBootstrapResult(adjacency_matrices, total_effects)
 
     def estimate_total_effect(self, X, from_index, to_index, from_lag=0):
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 14c4823..b5c65f2 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -154,11 +154,17 @@ class VARMALiNGAM:
         """
         X = check_array(X)
 
-        n_samples = X.shape[0]
-        n_features = X.shape[1]
-
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling)
+        finally:
+            self._criterion = criterion
+
+    def _bootstrap(self, X, n_sampling):
+        """Bootstrap with the lags or orders fixed."""
+        n_samples = X.shape[0]
+        n_features = X.shape[1]
 
         self.fit(X)
 
@@ -213,8 +219,6 @@ class VARMALiNGAM:
                             self.estimate_total_effect2(n_features, from_, to, lag + 1)
                         )
 
-        self._criterion = criterion
-
         return VARMABootstrapResult(adjacency_matrices, total_effects, (p, q))
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
-- 
2.43.0


From db4e4fcc66a8a3ef338cd778af6e0df005c5ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:01 +0000
Subject: [PATCH 43/56] fix: CAM-UV with F-correlation and more than one
 explanatory variable raised a shape error

---
 lingam/camuv.py             | 2 +-
 lingam/multi_group_camuv.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index e63d08d..f4a8c8a 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -150,7 +150,7 @@ class CAMUV:
             _, value = hsic_test_gamma(X, Y)
             is_independent = value > threshold
         elif self._independence == "fcorr":
-            value = f_correlation(X, Y)
+            value = max(f_correlation(X, Y[:, [i]]) for i in range(Y.shape[1]))
             is_independent = value < threshold
         return is_independent, value
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 391f35b..042a224 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -186,9 +186,10 @@ class MultiGroupCAMUV:
         elif self._independence == "fcorr":
             max_f_corr = 0.0
             for X, Y in zip(X_list, Y_list):
-                f_corr = f_correlation(X, Y)
-                if f_corr > max_f_corr:
-                    max_f_corr = f_corr
+                for i in range(Y.shape[1]):
+                    f_corr = f_correlation(X, Y[:, [i]])
+                    if f_corr > max_f_corr:
+                        max_f_corr = f_corr
             is_independent = max_f_corr < threshold
             value = max_f_corr
         return is_independent, value
-- 
2.43.0


From cea8f4ff12f1bdd9a7c61617e6033190264cd2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:38 +0000
Subject: [PATCH 44/56] fix: VARMALiNGAM ignored supplied coefficients beyond
 the default order

---
 lingam/varma_lingam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index b5c65f2..40842d5 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -110,6 +110,7 @@ class VARMALiNGAM:
         else:
             p = phis.shape[0]
             q = thetas.shape[0]
+            order = (p, q)
             residuals = self._calc_residuals(X, phis, thetas, p, q)
 
         model = lingam_model
-- 
2.43.0


From 504ae4eaf97f7228e854171822fc82d978f3434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 45/56] fix: CausalBasedSimulator shared the training data with
 the caller

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index c90ded7..6411af0 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -514,7 +514,7 @@ class CBSILiNGAM(CBSImpl):
     """ Class for data handling for ICALiNGAM and DirectLiNGAM. """
 
     def __init__(self, X, causal_graph, is_discrete=None):
-        X_ = check_array(X)
+        X_ = check_array(X, copy=True)
 
         n_samples, n_features = X_.shape
 
-- 
2.43.0


From 869813b2a73b15f1478fc08adb3d5f9f8a780b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 46/56] fix: CausalBasedSimulator failed when a replaced
 discrete model had a replaced discrete parent

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 6411af0..78a28d6 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -785,7 +785,7 @@ class _LogisticRegression():
     def predict(self, X):
         if len(self._coef) == 0:
             return np.zeros((len(X), 1))
-        return expit((self._coef @ X.T).T) >= 0.5
+        return (expit((self._coef @ X.T).T) >= 0.5).astype(int)
 
     @property
     def coef_(self):
-- 
2.43.0


From 352f1fdbcb5ff8d98494d3aaafee4b1779c85cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 47/56] fix: make_dot, print_causal_directions and print_dagc
 refused labels given as an array

---
 lingam/utils/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 51a9d00..c3836d5 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -62,7 +62,7 @@ def print_causal_directions(cdc, n_sampling, labels=None):
     """
     for i, (fr, to, co) in enumerate(zip(cdc["from"], cdc["to"], cdc["count"])):
         sign = "" if "sign" not in cdc else "(b>0)" if cdc["sign"][i] > 0 else "(b<0)"
-        if labels:
+        if labels is not None:
             print(f"{labels[to]} <--- {labels[fr]} {sign} ({100*co/n_sampling:.1f}%)")
         else:
             print(f"x{to} <--- x{fr} {sign} ({100*co/n_sampling:.1f}%)")
@@ -88,7 +88,7 @@ def print_dagc(dagc, n_sampling, labels=None):
             sign = (
                 "" if "sign" not in dag else "(b>0)" if dag["sign"][j] > 0 else "(b<0)"
             )
-            if labels:
+            if labels is not None:
                 print("\t" + f"{labels[to]} <--- {labels[fr]} {sign}")
             else:
                 print("\t" + f"x{to} <--- x{fr} {sign}")
@@ -340,7 +340,7 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels else [f"x{i}" for i in range(len(B))]
+    names = labels if labels is not None else [f"x{i}" for i in range(len(B))]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From 80f5dd3358cfbd0885321c33d065b11589b860dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 48/56] fix: make_dot of a non-square matrix without labels
 raised an IndexError

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index c3836d5..66712b7 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -340,7 +340,7 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels is not None else [f"x{i}" for i in range(len(B))]
+    names = labels if labels is not None else [f"x{i}" for i in range(B.shape[1])]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From ed23858f484d6d7022fee132e92674cf7ccf966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 49/56] fix: make_dot drew edges of labels containing a colon
 from other nodes

---
 lingam/utils/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 66712b7..a80f699 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -309,6 +309,11 @@ def make_dot(
         if not isinstance(detect_cycle, bool):
             raise TypeError("'detect_cycle' should be boolean.")
 
+    names = labels if labels is not None else [f"x{i}" for i in range(B.shape[1])]
+    # graphviz takes what follows a colon in the ends of an edge for a port
+    names = [name.replace(":", "&#58;") for name in names]
+    prediction_target_label = prediction_target_label.replace(":", "&#58;")
+
     idx = np.abs(B) > lower_limit
 
     nx_graph = None
@@ -324,10 +329,7 @@ def make_dot(
             path_edges |= set(zip(path_, path_[1:]))
 
         path_nodes = np.unique([list(edge) for edge in path_edges])
-        if labels is None:
-            path_nodes = [f"x{node}" for node in path_nodes]
-        else:
-            path_nodes = [labels[node] for node in path_nodes]
+        path_nodes = [names[node] for node in path_nodes]
 
     # simple cycles
     cycle_edges = []
@@ -340,7 +342,6 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels is not None else [f"x{i}" for i in range(B.shape[1])]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From 4237cc32f6be5bde047d5d8a19eee7286f35aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 50/56] fix: LiM with Poisson variables preferred the graphs of
 lowest likelihood

---
 lingam/lim.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index 5dc6d9c..24b6269 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -10,6 +10,7 @@ import numpy as np
 import pandas as pd
 import scipy.optimize as sopt
 from scipy.special import expit as sigmoid
+from scipy.special import gammaln
 from sklearn.linear_model import (LinearRegression, LogisticRegression,
                                   PoissonRegressor)
 from sklearn.metrics import log_loss
@@ -202,19 +203,15 @@ class LiM:
 
                     elif parents_i:
                         # Count variable, likelihood using poisson regression model.
-                        for iii in range(len(parents_i)):
-                            X = lingam_data[parents_i[iii]]
-                            X = X.reshape(-1, 1)
-                            y = lingam_data[i]
-                            poisson = PoissonRegressor()
-                            poisson.fit(X, y)
-                            beta = poisson.coef_
-                            # compute likelihood
-                            likekihood_poisson = -np.sum(
-                                y * lingam_data[parents_i[iii]] * beta
-                            ) + np.sum(np.exp(lingam_data[parents_i[iii]] * beta))
-                            for j in range(len(y)):
-                                likekihood_poisson += np.log(_factorial(y[j]))
+                        X = lingam_data[parents_i].T
+                        y = lingam_data[i]
+                        poisson = PoissonRegressor()
+                        poisson.fit(X, y)
+                        # compute log-likelihood
+                        mu = poisson.predict(X)
+                        likekihood_poisson = np.sum(
+                            y * np.log(mu) - mu - gammaln(y + 1)
+                        )
                         total_score += likekihood_poisson
                         # # or we can compute likelihood via nn
                         # pnllloss = nn.PoissonNLLLoss()
-- 
2.43.0


From 671e2db0be1c9c813d618d1b51d576b34b94dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:19 +0000
Subject: [PATCH 51/56] fix: bootstrap_with_imputation lost the imputed values
 when the imputer worked in place

---
 lingam/tools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/tools/__init__.py b/lingam/tools/__init__.py
index 06688ec..481fa7e 100644
--- a/lingam/tools/__init__.py
+++ b/lingam/tools/__init__.py
@@ -132,6 +132,7 @@ def bootstrap_with_imputation(
         # make a bootstrap sample
         resampled_index = random_state.choice(np.arange(X.shape[0]), replace=True, size=len(X))
         bootstrap_sample = X[resampled_index]
+        pos = np.isnan(bootstrap_sample)
 
         # send bootstrap_sample that has not been imputed yet
         cd_model.before_imputation(bootstrap_sample)
@@ -150,7 +151,6 @@ def bootstrap_with_imputation(
         # hold values only if NaN
         datasets = np.array(datasets)
         imputation_result = np.full(datasets.shape, np.nan)
-        pos = np.isnan(bootstrap_sample)
         imputation_result[:, pos] = datasets[:, pos]
 
         resampled_indices.append(resampled_index)
-- 
2.43.0


From 7020a7552a52d12c7f0e38415367579cec90cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:29 +0000
Subject: [PATCH 52/56] fix: CausalDataGenerator.generate ignored interv_endog
 on adjustment variables

---
 lingam/experimental/cdg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index afd7bac..a431299 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -196,6 +196,10 @@ class CausalDataGenerator:
         for name, interv_exog_ in interv_exog.items():
             generated[name] = interv_exog_
 
+        for name in self._adjustments:
+            if name in interv_endog.keys():
+                generated[name] = interv_endog[name]
+
         # cause
         if self._cause in interv_endog.keys():
             generated[self._cause] = interv_endog[self._cause]
-- 
2.43.0


From 840924eee1bed456dff7911e18e32cd8f6f7dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:25 +0000
Subject: [PATCH 53/56] fix: visualize_nonlinear_causal_effect drew into the
 axes a given figure already had

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 71dd64f..9c17443 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -251,10 +251,9 @@ def _draw(
         alpha = 1.0
         colors = ["green"]
 
+    axes = []
     for i in range(len(effect_info)):
-        fig.add_subplot(1, len(effect_info), i + 1)
-
-    axes = np.array(fig.get_axes()).flatten()
+        axes.append(fig.add_subplot(1, len(effect_info), i + 1))
 
     for ax, (class_name, effects) in zip(axes, effect_info.items()):
         per_plot = {per: [] for per in percentile}
-- 
2.43.0


From f20a0b979c93dda833ec03337a344a45cf565b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:25 +0000
Subject: [PATCH 54/56] fix: visualize_nonlinear_causal_effect refused an
 adjacency matrix given as nested list or frame

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 9c17443..cab470a 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -120,7 +120,7 @@ def visualize_nonlinear_causal_effect(
             index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
-        adj_matrices = [cd_result]
+        adj_matrices = [check_array(cd_result)]
         index_list = [np.arange(len(X))]
         disable_percentile = True
 
@@ -159,7 +159,7 @@ def _is_bootstrap_result(cd_result):
 
 
 def _is_adjacency_matrix(cd_result, col_num):
-    check_array(cd_result)
+    cd_result = check_array(cd_result)
 
     if cd_result.shape[0] != col_num or cd_result.shape[1] != col_num:
         return False
-- 
2.43.0


From 2c36929be9def2018dbc1457790beeff75aadb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:16 +0000
Subject: [PATCH 55/56] fix: bootstrap of longitudinal, VAR and VARMA models
 accepted n_sampling=0

---
 lingam/longitudinal_lingam.py | 6 ++++++
 lingam/var_lingam.py          | 7 +++++++
 lingam/varma_lingam.py        | 7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 36f3bfb..cc5375e 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -234,6 +234,12 @@ class LongitudinalLiNGAM:
                 raise ValueError("X_list must be a list with the same shape")
             X_t.append(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         # Bootstrapping
         adjacency_matrices = np.zeros(
             (n_sampling, self._T, 1 + self._n_lags, self._p, self._p)
diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index fd62403..6dab783 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -3,6 +3,7 @@ Python implementation of the LiNGAM algorithms.
 The LiNGAM Project: https://sites.google.com/view/sshimizu06/lingam
 """
 import itertools
+import numbers
 import warnings
 
 import numpy as np
@@ -132,6 +133,12 @@ class VARLiNGAM:
         """
         X = check_array(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         criterion = self._criterion
         self._criterion = None
         try:
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 40842d5..101ffae 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -4,6 +4,7 @@ The LiNGAM Project: https://sites.google.com/view/sshimizu06/lingam
 """
 
 import itertools
+import numbers
 import warnings
 
 import numpy as np
@@ -155,6 +156,12 @@ class VARMALiNGAM:
         """
         X = check_array(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         criterion = self._criterion
         self._criterion = None
         try:
-- 
2.43.0


From 4a47f7ca46094da6e4f8af4c204d8f65741108e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:24 +0000
Subject: [PATCH 56/56] fix: bottom-up search: residuals no longer depend on
 the units of the variables

---
 lingam/bottom_up_parce_lingam.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 041669c..0c9a586 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -293,11 +293,8 @@ class BottomUpParceLiNGAM:
         """Compute residuals"""
         if self._reg is None:
             # Compute residuals of least square regressions
-            cov = np.cov(X.T)
-            coef = np.dot(
-                np.linalg.pinv(cov[np.ix_(predictors, predictors)]),
-                cov[np.ix_(target, predictors)].reshape(predictors.shape[0], 1),
-            )
+            # (X is centered; the covariance matrix would square the ratio of the scales)
+            coef = np.linalg.lstsq(X[:, predictors], X[:, target], rcond=None)[0]
             R = X[:, target] - np.dot(X[:, predictors], coef)
         else:
             self._reg.fit(X[:, predictors], np.ravel(X[:, target]))
-- 
2.43.0

