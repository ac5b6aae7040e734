From c0fcc81837866568c5674e0c76e1c82d3a168861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:08 +0000
Subject: [PATCH 01/31] fix: prediction_paths() looks up the wrong rows below
 the second level

The child indices are relative to the parent's index array, but were passed on as if
they were row numbers of X, so paths in trees of depth > 2 belonged to other rows.
---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 84a8b7f..d05cb01 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -63,11 +63,11 @@ class BasePerpendicularTree(BaseTree, ABC):
 
             if len(indices1) > 0 and not self.child1_.is_leaf():
                 paths1 = [paths[i] for i in indices1]
-                self.child1_._update_prediction_paths(X, indices1, paths1)
+                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
 
             if len(indices2) > 0 and not self.child2_.is_leaf():
                 paths2 = [paths[i] for i in indices2]
-                self.child2_._update_prediction_paths(X, indices2, paths2)
+                self.child2_._update_prediction_paths(X, indices[indices2], paths2)
 
     @staticmethod
     def _create_merged_paths_array(n_rows):
-- 
2.43.0


From d080281b07c863256162c9791a27c3f405ffb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:09 +0000
Subject: [PATCH 02/31] fix: hyperplane split positions are computed from
 unsorted projections

Gaps between *consecutive* projections decide where a split is possible, so they have to be
computed in sorted order. Otherwise the number of admissible splits and their positions
depend on the row order, and points with identical projections could be split.
---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 7608640..302abc3 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -50,7 +50,7 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections)) > self.split_precision)[0]  # we can only split between *different* data points
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From 04502811a852dee737e584fdc197d082b1303be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 03/31] fix: hyperplane trees can split identical data points
 due to rounding errors

The matrix-vector product can return projections for identical rows that differ in the last
bits, which was treated as a possible split between them. Ignore gaps below rounding error.
---
 bayesian_decision_tree/hyperplane_optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 302abc3..dcc668a 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -22,6 +22,7 @@ class HyperplaneOptimizationFunction:
         self.log_p_data_no_split = log_p_data_no_split
         self.search_space_is_unit_hypercube = search_space_is_unit_hypercube
         self.split_precision = split_precision
+        self.X_abs_max = abs(X).max(axis=0) if isinstance(X, np.ndarray) else abs(X).max(axis=0).toarray()[0]
 
         # results of the optimization - to be set later during the actual optimization
         self.function_evaluations = 0
@@ -50,7 +51,9 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
+        rounding_error = 4 * len(hyperplane_normal) * np.finfo(np.float64).eps * np.dot(np.abs(hyperplane_normal), self.X_abs_max)
+        min_distance = max(self.split_precision, rounding_error)  # the projections of *identical* data points can differ by rounding errors
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > min_distance)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From 20ec1fbcd2915ce584d9626b1708b54b38dfd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 04/31] fix: integer data overflows and boolean sparse matrices
 cannot be used

_ensure_float64() returned integer data unconverted, so split values (sum of two data points),
gaps between data points and squared regression targets wrapped around for small integer
types. Convert all types to np.float64. Boolean data needs no check for loss of precision
(which raised an unrelated error for sparse matrices).
---
 bayesian_decision_tree/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 91af875..ccf485e 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -224,14 +224,18 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
+        if data.dtype == np.float64:
+            return data
+
+        # convert to np.float64 because integer arithmetic would overflow, and for performance
+        # reasons (matrices with floats but of type object are very slow)
+        X_float = data.astype(np.float64)
         if data.dtype in (
                 np.int8, np.int16, np.int32, np.int64,
                 np.uint8, np.uint16, np.uint32, np.uint64,
-                np.float32, np.float64):
-            return data
+                np.float32, np.bool_):
+            return X_float
 
-        # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
-        X_float = data.astype(np.float64)
         if not np.all(data == X_float):
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
-- 
2.43.0


From ba1ecc89b805e40fe5b11d66f6a571ff1d73aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 05/31] fix: fit() fails for or misinterprets targets that are
 not NumPy arrays

A pandas Series was indexed by label rather than by position (KeyError, or wrong targets if
its index is not 0..n-1), a tuple raised an AttributeError, and a single sample was squeezed
to 0 dimensions and then rejected.
---
 bayesian_decision_tree/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index ccf485e..5a4a621 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -54,10 +54,7 @@ class BaseTree(ABC, BaseEstimator):
         """
 
         # validation and input transformation
-        if isinstance(y, list):
-            y = np.array(y)
-
-        y = y.squeeze()
+        y = np.atleast_1d(np.asarray(y).squeeze())
         y = self._ensure_float64(y)
         self._check_target(y)
 
-- 
2.43.0


From 1ed1c997149d8487460126fb0e77a88ab23a49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 06/31] fix: perpendicular split value can put training data on
 the wrong side

The midpoint of two adjacent floats can be rounded down to the smaller one, and the sum of
two large floats overflows to infinity. In both cases the data points left of the split
during training ended up on the right hand side (or vice versa) in predict().
---
 bayesian_decision_tree/base_perpendicular.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index d05cb01..ba83940 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -143,10 +143,12 @@ class BasePerpendicularTree(BaseTree, ABC):
             # store split info, create children and continue training them if there's data left to split
             self.split_dimension_ = best_split_dimension
             self.split_feature_name_ = feature_names[best_split_dimension]
-            self.split_value_ = 0.5 * (
-                    X[indices1[-1], best_split_dimension]
-                    + X[indices2[0], best_split_dimension]
-            )
+            split_left = X[indices1[-1], best_split_dimension]
+            split_right = X[indices2[0], best_split_dimension]
+            self.split_value_ = 0.5 * split_left + 0.5 * split_right
+            if self.split_value_ <= split_left:
+                # midpoint was rounded down to the left data point which must stay below the split value
+                self.split_value_ = split_right
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
 
-- 
2.43.0


From 2a5516d368ef599a45beb0b4c91f57daded372e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 07/31] fix: leaves that are not trained further ignore the
 strengthened prior

With delta != 0 the posterior of a child with a single data point or a single target value was
computed from the parent's prior instead of from the child's own prior, unlike for any other child.
---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index ba83940..7aaf7f0 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -172,14 +172,14 @@ class BasePerpendicularTree(BaseTree, ABC):
             if n_data1 > 1 and len(np.unique(y1)) > 1:
                 self.child1_._fit(X, y, verbose, feature_names, 'LHS', sort_indices_by_dim_1)
             else:
-                self.child1_.posterior_ = self._compute_posterior(y1, prior)
+                self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                 self.child1_.n_data_ = n_data1
 
             y2 = y[indices2]
             if n_data2 > 1 and len(np.unique(y2)) > 1:
                 self.child2_._fit(X, y, verbose, feature_names, 'RHS', sort_indices_by_dim_2)
             else:
-                self.child2_.posterior_ = self._compute_posterior(y2, prior)
+                self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                 self.child2_.n_data_ = n_data2
         else:
             self._erase_split_info_base()
-- 
2.43.0


From 2fe04d2ecfdb41de0813b5815296e9548a67f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 08/31] fix: regression posterior beta is wrong for 0 < delta <
 1

The shrinkage term needs the effective number of data points, n*delta, in the denominator
as well (no change for delta = 1).
---
 bayesian_decision_tree/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d3aa5f7..7110ae8 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -99,7 +99,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post
         alpha_post = alpha + 0.5*n_delta
         beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n - mu) ** 2 / (kappa + n)
+                    y_sum / n - mu) ** 2 / kappa_post
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0


From 31af936d77272f74da452bf99cb57609352ee779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 09/31] fix: pruning can change predictions

Two children with the same prediction were merged even if the merged node predicts something
else, which happens with an asymmetric prior (classification) or with shrinkage towards the
prior mean (regression). Pruning should only remove splits that don't add information.
---
 bayesian_decision_tree/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 5a4a621..72507df 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -149,8 +149,9 @@ class BaseTree(ABC, BaseEstimator):
         n_leaves_start = self.get_n_leaves()
 
         if self.child1_.is_leaf() and self.child2_.is_leaf():
-            if self.child1_._predict_leaf() == self.child2_._predict_leaf():
-                # same prediction (class if classification, value if regression) -> no need to split
+            if self.child1_._predict_leaf() == self.child2_._predict_leaf() == self._predict_leaf():
+                # same prediction (class if classification, value if regression) with and without
+                # the split -> no need to split
                 self._erase_split_info_base()
                 self._erase_split_info()
         else:
-- 
2.43.0


From 8c8de2941d440221da3fa5a4787e5291d1ea8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 10/31] fix: classification trees cannot be fitted with the
 default prior

prior=None raised a TypeError when checking the target, and the default prior had one entry per
feature rather than one per class.
---
 bayesian_decision_tree/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index a60bae2..dc6dc20 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -49,16 +49,18 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
-        n_classes = len(self.prior)
+        n_classes = len(self.prior) if self.prior is not None else len(np.unique(y))
         if not np.all(np.unique(y) == np.arange(0, n_classes)):
             raise ValueError('Expected target values 0..{} but found {}..{}'.format(n_classes - 1, y.min(), y.max()))
 
+        self.n_classes_ = n_classes
+
     def _get_prior(self, n_data, n_dim):
         if self.prior is not None:
             return self.prior
         else:
             prior_pseudo_observation_count = max(1, n_data//100)
-            return prior_pseudo_observation_count * np.ones(n_dim)
+            return prior_pseudo_observation_count * np.ones(self.n_classes_)
 
     def _compute_log_p_data_no_split(self, y, prior):
         posterior = self._compute_posterior(y, prior)
-- 
2.43.0


From 927b7550b38eef2b955c1628dc34f6c8980def07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 11/31] fix: _get_raw_leaf_data() fails for a tree without
 splits fitted with the default prior

Return the default prior that was used instead of None.
---
 bayesian_decision_tree/classification.py | 3 ++-
 bayesian_decision_tree/regression.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index dc6dc20..c6c21a1 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -115,7 +115,8 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        prior = self.prior if self.prior is not None else self._get_prior(self.n_data_, self.n_dim_)
+        return np.array([prior, self.posterior_])
 
 
 class PerpendicularClassificationTree(BasePerpendicularTree, BaseClassificationTree):
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 7110ae8..431f847 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -121,7 +121,8 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        prior = self.prior if self.prior is not None else self._get_prior(self.n_data_, self.n_dim_)
+        return np.array([prior, self.posterior_])
 
 
 class PerpendicularRegressionTree(BasePerpendicularTree, BaseRegressionTree):
-- 
2.43.0


From 081b67f8fe4e075c7343c99f5ea4a0847a93e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 12/31] fix: feature_importance() is NaN for a tree without
 splits

There is nothing to normalize in this case, no feature is important.
---
 bayesian_decision_tree/base.py            | 3 ++-
 bayesian_decision_tree/base_hyperplane.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 72507df..79421a9 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -115,7 +115,8 @@ class BaseTree(ABC, BaseEstimator):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        feature_importance /= feature_importance.sum()
+        if not self.is_leaf():
+            feature_importance /= feature_importance.sum()
 
         return feature_importance
 
diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 27e0f1d..756a515 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -136,7 +136,8 @@ class BaseHyperplaneTree(BaseTree, ABC):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        feature_importance /= feature_importance.sum()
+        if not self.is_leaf():
+            feature_importance /= feature_importance.sum()
 
         return feature_importance
 
-- 
2.43.0


From 19d9d6327c1b4bf2ca8dcb623b10d5be90e386b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 13/31] fix: regression trees lose all precision for targets
 far away from 0

Sums of squares of the targets cancel out if the targets are large compared to their spread,
and the sums right of a split, computed as the difference to the total, cancel out if there is
a large target on the left. Both lead to a NaN or wrong likelihood and hence missed splits.
Use targets relative to the prior mean and sum from the right for the right hand side.
---
 bayesian_decision_tree/regression.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 431f847..b9bb24b 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -27,6 +27,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
     def _compute_log_p_data_no_split(self, y, prior):
+        y = y - prior[0]
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
         n = len(y)
@@ -37,13 +38,14 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         return log_p_prior + log_p_data
 
     def _compute_log_p_data_split(self, y, prior, n_dim, split_indices):
+        y = y - prior[0]
         n = len(y)
         n1 = np.arange(1, n)
         n2 = n - n1
         y_sum1 = y.cumsum()[:-1]
-        y_sum2 = y.sum() - y_sum1
+        y_sum2 = y[::-1].cumsum()[-2::-1]
         y_squared_sum1 = (y[:-1] ** 2).cumsum()
-        y_squared_sum2 = (y ** 2).sum() - y_squared_sum1
+        y_squared_sum2 = (y[::-1] ** 2).cumsum()[-2::-1]
 
         if len(split_indices) != len(y)-1:
             # we are *not* splitting between all data points -> indexing necessary
@@ -84,6 +86,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         if delta == 0:
             return prior
 
+        y = y - prior[0]
         n = len(y)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
@@ -93,13 +96,14 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
     def _compute_posterior_internal(self, prior, n, y_sum, y_squared_sum, delta=1):
         mu, kappa, alpha, beta = prior
 
-        # see https://www.cs.ubc.ca/~murphyk/Papers/bayesGauss.pdf, equations (86) - (89)
+        # see https://www.cs.ubc.ca/~murphyk/Papers/bayesGauss.pdf, equations (86) - (89); the sums
+        # are relative to mu in order not to lose all precision if the data is far away from 0
         n_delta = n*delta
         kappa_post = kappa + n_delta
-        mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post
+        mu_post = mu + (n_delta * y_sum / n) / kappa_post
         alpha_post = alpha + 0.5*n_delta
         beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n - mu) ** 2 / kappa_post
+                    y_sum / n) ** 2 / kappa_post
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0


From 5bc7a36ec22f49103abd12600081ad617a66389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 14/31] fix: hyperplane trees ignore delta

The documented strengthening of the prior as the tree grows deeper was only implemented for
perpendicular trees.
---
 bayesian_decision_tree/base_hyperplane.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 756a515..09bbe00 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -82,8 +82,8 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 n_data2 = X2.shape[0]
 
                 # compute posteriors of children and priors for further splitting
-                prior_child1 = self._compute_posterior(y1, prior, delta=0)
-                prior_child2 = self._compute_posterior(y2, prior, delta=0)
+                prior_child1 = self._compute_posterior(y1, prior, self.delta) if self.delta else prior
+                prior_child2 = self._compute_posterior(y2, prior, self.delta) if self.delta else prior
 
                 # store split info, create children and continue training them if there's data left to split
                 self.best_hyperplane_normal_ = optimization_function.best_hyperplane_normal
@@ -106,13 +106,13 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 if n_data1 > 1 and len(np.unique(y1)) > 1:
                     self.child1_._fit(X1, y1, verbose, feature_names, 'back ')
                 else:
-                    self.child1_.posterior_ = self._compute_posterior(y1, prior)
+                    self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                     self.child1_.n_data_ = n_data1
 
                 if n_data2 > 1 and len(np.unique(y2)) > 1:
                     self.child2_._fit(X2, y2, verbose, feature_names, 'front')
                 else:
-                    self.child2_.posterior_ = self._compute_posterior(y2, prior)
+                    self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                     self.child2_.n_data_ = n_data2
 
         # compute posterior
-- 
2.43.0


From a37c920e3ebdcbd6842c4d749614ae24d282a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 15/31] fix: hyperplane trees cannot be fitted to a single
 feature

All optimizers searching the unit hypercube (including the default one) raised unrelated errors
because there is nothing to search, and hypercube_to_hypersphere_surface() squeezed away
dimensions of length 1.
---
 bayesian_decision_tree/base_hyperplane.py | 6 +++++-
 bayesian_decision_tree/utils.py           | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 09bbe00..2799317 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -51,7 +51,11 @@ class BaseHyperplaneTree(BaseTree, ABC):
             self.split_precision)
 
         # create and run optimizer
-        optimizer.solve(optimization_function)
+        if n_dim > 1:
+            optimizer.solve(optimization_function)
+        else:
+            # there is only one possible orientation
+            optimization_function.compute(np.zeros(0) if optimizer.search_space_is_unit_hypercube else np.ones(1))
 
         self.optimization_function = optimization_function
 
diff --git a/bayesian_decision_tree/utils.py b/bayesian_decision_tree/utils.py
index 847d7aa..f7394ac 100755
--- a/bayesian_decision_tree/utils.py
+++ b/bayesian_decision_tree/utils.py
@@ -66,7 +66,8 @@ def hypercube_to_hypersphere_surface(
 
     n_dim_surface = hypercube_points.shape[-1]
     n_dim_embedding = 1+n_dim_surface
-    if hypercube_points.ndim == 1:
+    is_single_point = hypercube_points.ndim == 1
+    if is_single_point:
         hypercube_points = hypercube_points.reshape(1, -1)
         n_points = 1
     else:
@@ -133,7 +134,7 @@ def hypercube_to_hypersphere_surface(
             surface_points[2 * i - 1] = sqrt_rho * np.cos(phi)
             surface_points[2 * i] = sqrt_rho * np.sin(phi)
 
-    surface_points = surface_points.squeeze().T
+    surface_points = surface_points[:, 0] if is_single_point else surface_points.T
     surface_points = (surface_points.T / np.linalg.norm(surface_points, axis=-1)).T  # correct numerical round-off errors
 
     return surface_points
-- 
2.43.0


From d05312972bdc67cf7572de0a48b06440f9a2e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 16/31] fix: RandomTwoPointOptimizer never terminates for some
 integer regression targets

Negative targets cannot be classes; for e.g. targets -1 and 0 the search for a second class
was an infinite loop.
---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index dcc668a..5907ec5 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -164,7 +164,7 @@ class RandomTwoPointOptimizer(HyperplaneOptimizer):
         X = optimization_function.X
         y = optimization_function.y
 
-        if np.any(np.round(y) != y):
+        if np.any(np.round(y) != y) or np.any(y < 0):
             raise TypeError('Cannot use {} for regression problems as there are no classes to pick points from'.format(
                 RandomTwoPointOptimizer.__name__))
 
-- 
2.43.0


From 0ed3894915653cfa64d3341a9c2d9672566b81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:51 +0000
Subject: [PATCH 17/31] fix: version configuration is that of another project

_version.py was copied from another project, so release tags (ver-*) ended up with their prefix
in __version__ and any other tag was taken for a release. Use the values from setup.cfg.
---
 bayesian_decision_tree/_version.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/_version.py b/bayesian_decision_tree/_version.py
index bd7951c..d1249f5 100644
--- a/bayesian_decision_tree/_version.py
+++ b/bayesian_decision_tree/_version.py
@@ -40,10 +40,10 @@ def get_config():
     # _version.py
     cfg = VersioneerConfig()
     cfg.VCS = "git"
-    cfg.style = ""
-    cfg.tag_prefix = ""
-    cfg.parentdir_prefix = "hadoop-utils-"
-    cfg.versionfile_source = "hadoop_utils/_version.py"
+    cfg.style = "pep440-pre"
+    cfg.tag_prefix = "ver-"
+    cfg.parentdir_prefix = "bayesian_decision_tree"
+    cfg.versionfile_source = "bayesian_decision_tree/_version.py"
     cfg.verbose = False
     return cfg
 
-- 
2.43.0


From ac13ee5e7a69ec359107d4304130db5ff264bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:49:52 +0000
Subject: [PATCH 18/31] fix: a rejected fit() can change a fitted
 classification tree

---
 bayesian_decision_tree/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 79421a9..dcd2655 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -56,12 +56,13 @@ class BaseTree(ABC, BaseEstimator):
         # validation and input transformation
         y = np.atleast_1d(np.asarray(y).squeeze())
         y = self._ensure_float64(y)
-        self._check_target(y)
 
         X, feature_names = self._normalize_data_and_feature_names(X, feature_names)
         if X.shape[0] != len(y):
             raise ValueError('Invalid shapes: X={}, y={}'.format(X.shape, y.shape))
 
+        self._check_target(y)
+
         # fit
         self._fit(X, y, verbose, feature_names, 'root')
 
-- 
2.43.0


From 688c7a44111c13a5523d71970a0a129c359f2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:53:52 +0000
Subject: [PATCH 19/31] fix: the prior of a split underflows for a small
 partition prior

---
 bayesian_decision_tree/classification.py | 2 +-
 bayesian_decision_tree/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index c6c21a1..4f4ca82 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -81,7 +81,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
             k2[i] = total - k1[i]
 
         n_splits = len(split_indices)
-        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))
+        log_p_prior = (1+self.level) * np.log(self.partition_prior) - np.log(n_splits * n_dim)
 
         betaln_prior = multivariate_betaln(prior)
         log_p_data1 = self._compute_log_p_data(k1, prior, betaln_prior)
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index b9bb24b..cfb5acb 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -62,7 +62,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu2, kappa2, alpha2, beta2 = self._compute_posterior_internal(prior, n2, y_sum2, y_squared_sum2)
 
         n_splits = len(split_indices)
-        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))
+        log_p_prior = (1+self.level) * np.log(self.partition_prior) - np.log(n_splits * n_dim)
 
         log_p_data1 = self._compute_log_p_data(prior, alpha1, beta1, kappa1, n1)
         log_p_data2 = self._compute_log_p_data(prior, alpha2, beta2, kappa2, n2)
-- 
2.43.0


From 41b230ff421277fb0e1547d0257e9dc891380181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:44 +0000
Subject: [PATCH 20/31] fix: training a hyperplane tree reorders the entries of
 a sparse matrix in place

---
 bayesian_decision_tree/hyperplane_optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 5907ec5..401fb94 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -22,7 +22,8 @@ class HyperplaneOptimizationFunction:
         self.log_p_data_no_split = log_p_data_no_split
         self.search_space_is_unit_hypercube = search_space_is_unit_hypercube
         self.split_precision = split_precision
-        self.X_abs_max = abs(X).max(axis=0) if isinstance(X, np.ndarray) else abs(X).max(axis=0).toarray()[0]
+        # (copy sparse data because SciPy would otherwise sort and merge the entries of the caller's matrix in place)
+        self.X_abs_max = abs(X).max(axis=0) if isinstance(X, np.ndarray) else abs(X.copy()).max(axis=0).toarray()[0]
 
         # results of the optimization - to be set later during the actual optimization
         self.function_evaluations = 0
-- 
2.43.0


From 826f163822103336c7018cd615ad9940f45f1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:44 +0000
Subject: [PATCH 21/31] fix: feature_importance() is NaN if the only split is
 as probable as not splitting

---
 bayesian_decision_tree/base.py            | 2 +-
 bayesian_decision_tree/base_hyperplane.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index dcd2655..ee165bf 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -116,7 +116,7 @@ class BaseTree(ABC, BaseEstimator):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        if not self.is_leaf():
+        if feature_importance.sum() > 0:
             feature_importance /= feature_importance.sum()
 
         return feature_importance
diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 2799317..a66f6fe 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -140,7 +140,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        if not self.is_leaf():
+        if feature_importance.sum() > 0:
             feature_importance /= feature_importance.sum()
 
         return feature_importance
-- 
2.43.0


From dd45376ab907f1d0c9147063c65b295b392e8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:53 +0000
Subject: [PATCH 22/31] fix: fit() accepts data without samples or fails late
 for data without features

---
 bayesian_decision_tree/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index ee165bf..9171846 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -61,6 +61,9 @@ class BaseTree(ABC, BaseEstimator):
         if X.shape[0] != len(y):
             raise ValueError('Invalid shapes: X={}, y={}'.format(X.shape, y.shape))
 
+        if 0 in X.shape:
+            raise ValueError('Expected at least one sample and one feature but found X={}'.format(X.shape))
+
         self._check_target(y)
 
         # fit
-- 
2.43.0


From bd06f022be11ab1ca598672b64926a233b1e1825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:53 +0000
Subject: [PATCH 23/31] fix: regression trees accept targets that are not
 finite and then predict NaN

---
 bayesian_decision_tree/regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index cfb5acb..78c61ae 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -26,6 +26,9 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
+        if not np.all(np.isfinite(y)):
+            raise ValueError('Expected finite target values but found {}..{}'.format(y.min(), y.max()))
+
     def _compute_log_p_data_no_split(self, y, prior):
         y = y - prior[0]
         y_sum = y.sum()
-- 
2.43.0


From 2fec20ab434355deaf8b9e6d46a8df1e8475c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:53 +0000
Subject: [PATCH 24/31] fix: predict_proba() returns an array of the wrong
 shape for data without rows

---
 bayesian_decision_tree/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 4f4ca82..edb3cd3 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -40,10 +40,10 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
         X, _ = self._normalize_data_and_feature_names(X)
         self._ensure_is_fitted(X)
 
-        y_proba = [None] * X.shape[0]
+        y_proba = np.zeros((X.shape[0], len(self.posterior_)))
         self._predict(X, np.arange(X.shape[0]), False, y_proba)
 
-        return np.array(y_proba)
+        return y_proba
 
     def _check_target(self, y):
         if y.ndim != 1:
-- 
2.43.0


From 9978d37b1a880df0634d4a69c757a96e9f57ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:46:04 +0000
Subject: [PATCH 25/31] fix: fit() with a wrong number of feature names can
 corrupt a fitted model

---
 bayesian_decision_tree/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 9171846..1c7182e 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -223,6 +223,9 @@ class BaseTree(ABC, BaseEstimator):
         if X.ndim != 2:
             raise ValueError('X should have 2 dimensions but has {}'.format(X.ndim))
 
+        if len(feature_names) != X.shape[1]:
+            raise ValueError('Expected {} feature names but found {}'.format(X.shape[1], len(feature_names)))
+
         return X, feature_names
 
     @staticmethod
-- 
2.43.0


From 7efbb6b11fcfa2637fafae8b90551ad8a86c56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:37:47 +0000
Subject: [PATCH 26/31] fix: scikit-learn's scorers, cross_val_predict and
 meta-estimators fail for classification trees without classes_

---
 bayesian_decision_tree/classification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index edb3cd3..92b9868 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -54,6 +54,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
             raise ValueError('Expected target values 0..{} but found {}..{}'.format(n_classes - 1, y.min(), y.max()))
 
         self.n_classes_ = n_classes
+        self.classes_ = np.arange(n_classes)  # expected by scikit-learn
 
     def _get_prior(self, n_data, n_dim):
         if self.prior is not None:
-- 
2.43.0


From 7a67aaf07faa9793b6080114c72fc52374a4b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:38:33 +0000
Subject: [PATCH 27/31] fix: predicted classes are floats, which scikit-learn's
 majority vote can't count

---
 bayesian_decision_tree/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 1c7182e..e854736 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -97,7 +97,7 @@ class BaseTree(ABC, BaseEstimator):
         self._ensure_is_fitted(X)
 
         indices = np.arange(X.shape[0])
-        y = np.zeros(X.shape[0])
+        y = np.zeros(X.shape[0], dtype=float if self.is_regression else int)
         self._predict(X, indices, True, y)
 
         return y
-- 
2.43.0


From 2b4bbf85b54ffc47144c8ac538740e976f8d71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:49 +0000
Subject: [PATCH 28/31] fix: hyperplane trees predict wrong values for
 np.matrix (e.g. from todense()), training fails for it and for tuples

---
 bayesian_decision_tree/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index e854736..0bcd914 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -207,7 +207,7 @@ class BaseTree(ABC, BaseEstimator):
 
             X = X.values
         else:
-            if isinstance(X, list):
+            if isinstance(X, (list, tuple, np.matrix)):
                 X = np.array(X)
             elif np.isscalar(X):
                 X = np.array([X])
-- 
2.43.0


From 7ff29df21ce42ef53693082c520934cd240769e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:49 +0000
Subject: [PATCH 29/31] fix: feature names given as a Series are looked up by
 its index, so that splits get the names of other features

---
 bayesian_decision_tree/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 0bcd914..e0fa5a0 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -226,7 +226,8 @@ class BaseTree(ABC, BaseEstimator):
         if len(feature_names) != X.shape[1]:
             raise ValueError('Expected {} feature names but found {}'.format(X.shape[1], len(feature_names)))
 
-        return X, feature_names
+        # (a plain list because a Series would be accessed by its index instead of by position)
+        return X, list(feature_names)
 
     @staticmethod
     def _ensure_float64(data):
-- 
2.43.0


From bfe0c5d991d259803c677d1b5ef5342d4978aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:49 +0000
Subject: [PATCH 30/31] fix: a prior given as a Series is looked up by its
 index, and one of a narrow type is computed with in single precision

---
 bayesian_decision_tree/classification.py | 3 ++-
 bayesian_decision_tree/regression.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 92b9868..6b28cdc 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -58,7 +58,8 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
 
     def _get_prior(self, n_data, n_dim):
         if self.prior is not None:
-            return self.prior
+            # (an array of our own because a Series would be accessed by its index and narrow types lose precision)
+            return np.array(self.prior, dtype=np.float64)
         else:
             prior_pseudo_observation_count = max(1, n_data//100)
             return prior_pseudo_observation_count * np.ones(self.n_classes_)
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 78c61ae..ba5205f 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -74,7 +74,8 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
     def _get_prior(self, n_data, n_dim):
         if self.prior is not None:
-            return self.prior
+            # (an array of our own because a Series would be accessed by its index and narrow types lose precision)
+            return np.array(self.prior, dtype=np.float64)
         else:
             # TODO: use actual data to compute mu and tau
             prior_pseudo_observation_count = max(1, n_data//100)
-- 
2.43.0


From f5615b19375637896fefccce2d4e3ccbb6036e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 31/31] fix: regression trees with a weak prior lose all
 precision if the targets are far from the prior mean

---
 bayesian_decision_tree/regression.py | 58 ++++++++++++++++------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index ba5205f..8e56852 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -30,25 +30,22 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
             raise ValueError('Expected finite target values but found {}..{}'.format(y.min(), y.max()))
 
     def _compute_log_p_data_no_split(self, y, prior):
-        y = y - prior[0]
-        y_sum = y.sum()
-        y_squared_sum = (y ** 2).sum()
         n = len(y)
-        mu_post, kappa_post, alpha_post, beta_post = self._compute_posterior_internal(prior, n, y_sum, y_squared_sum)
+        y_mean, y_deviation = self._compute_cumulative_means_and_deviations(y, prior)
+        mu_post, kappa_post, alpha_post, beta_post = self._compute_posterior_internal(prior, n, y_mean[-1], y_deviation[-1])
         log_p_prior = np.log(1 - self.partition_prior**(1 + self.level))
         log_p_data = self._compute_log_p_data(prior, alpha_post, beta_post, kappa_post, n)
 
         return log_p_prior + log_p_data
 
     def _compute_log_p_data_split(self, y, prior, n_dim, split_indices):
-        y = y - prior[0]
         n = len(y)
         n1 = np.arange(1, n)
         n2 = n - n1
-        y_sum1 = y.cumsum()[:-1]
-        y_sum2 = y[::-1].cumsum()[-2::-1]
-        y_squared_sum1 = (y[:-1] ** 2).cumsum()
-        y_squared_sum2 = (y[::-1] ** 2).cumsum()[-2::-1]
+        y_mean1, y_deviation1 = self._compute_cumulative_means_and_deviations(y[:-1], prior)
+        y_mean2, y_deviation2 = self._compute_cumulative_means_and_deviations(y[:0:-1], prior)
+        y_mean2 = y_mean2[::-1]
+        y_deviation2 = y_deviation2[::-1]
 
         if len(split_indices) != len(y)-1:
             # we are *not* splitting between all data points -> indexing necessary
@@ -56,13 +53,13 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
             n1 = n1[split_indices_minus_1]
             n2 = n2[split_indices_minus_1]
-            y_sum1 = y_sum1[split_indices_minus_1]
-            y_sum2 = y_sum2[split_indices_minus_1]
-            y_squared_sum1 = y_squared_sum1[split_indices_minus_1]
-            y_squared_sum2 = y_squared_sum2[split_indices_minus_1]
+            y_mean1 = y_mean1[split_indices_minus_1]
+            y_mean2 = y_mean2[split_indices_minus_1]
+            y_deviation1 = y_deviation1[split_indices_minus_1]
+            y_deviation2 = y_deviation2[split_indices_minus_1]
 
-        mu1, kappa1, alpha1, beta1 = self._compute_posterior_internal(prior, n1, y_sum1, y_squared_sum1)
-        mu2, kappa2, alpha2, beta2 = self._compute_posterior_internal(prior, n2, y_sum2, y_squared_sum2)
+        mu1, kappa1, alpha1, beta1 = self._compute_posterior_internal(prior, n1, y_mean1, y_deviation1)
+        mu2, kappa2, alpha2, beta2 = self._compute_posterior_internal(prior, n2, y_mean2, y_deviation2)
 
         n_splits = len(split_indices)
         log_p_prior = (1+self.level) * np.log(self.partition_prior) - np.log(n_splits * n_dim)
@@ -90,24 +87,35 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         if delta == 0:
             return prior
 
-        y = y - prior[0]
         n = len(y)
-        y_sum = y.sum()
-        y_squared_sum = (y ** 2).sum()
+        y_mean, y_deviation = self._compute_cumulative_means_and_deviations(y, prior)
 
-        return self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+        return self._compute_posterior_internal(prior, n, y_mean[-1], y_deviation[-1], delta)
 
-    def _compute_posterior_internal(self, prior, n, y_sum, y_squared_sum, delta=1):
+    @staticmethod
+    def _compute_cumulative_means_and_deviations(y, prior):
+        # Means (relative to the prior mean mu) and sums of squared deviations from the mean of y[:1], y[:2], ..., y.
+        # These are computed relative to the first value and by adding up non-negative terms because the difference
+        # of the sum of squares and the squared sum loses all precision if the data is far away from mu.
+        n = np.arange(1, len(y)+1)
+        offset = y[0]
+        y = y - offset
+        mean = y.cumsum() / n
+        deviation = np.zeros(len(y))
+        deviation[1:] = ((y[1:] - mean[:-1])**2 * (n[:-1] / n[1:])).cumsum()
+
+        return mean + (offset - prior[0]), deviation
+
+    def _compute_posterior_internal(self, prior, n, y_mean, y_deviation, delta=1):
         mu, kappa, alpha, beta = prior
 
-        # see https://www.cs.ubc.ca/~murphyk/Papers/bayesGauss.pdf, equations (86) - (89); the sums
-        # are relative to mu in order not to lose all precision if the data is far away from 0
+        # see https://www.cs.ubc.ca/~murphyk/Papers/bayesGauss.pdf, equations (86) - (89); the mean
+        # is relative to mu in order not to lose all precision if the data is far away from 0
         n_delta = n*delta
         kappa_post = kappa + n_delta
-        mu_post = mu + (n_delta * y_sum / n) / kappa_post
+        mu_post = mu + n_delta * y_mean / kappa_post
         alpha_post = alpha + 0.5*n_delta
-        beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n) ** 2 / kappa_post
+        beta_post = beta + 0.5 * delta * y_deviation + 0.5 * kappa * n_delta * y_mean ** 2 / kappa_post
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0

