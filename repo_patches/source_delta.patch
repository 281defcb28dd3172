From 209650febff5af3a6aa499a21f1bf3eaa05df9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 01/20] fix: prediction_paths() used node-local row indices
 below depth 2

The indices returned by _compute_child1_and_child2_indices() are relative to
'indices', so they have to be mapped back before they are passed down (as
_predict() does); otherwise the paths of trees with depth >= 3 are those of
other rows.
---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 84a8b7f..d05cb01 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -63,11 +63,11 @@ class BasePerpendicularTree(BaseTree, ABC):
 
             if len(indices1) > 0 and not self.child1_.is_leaf():
                 paths1 = [paths[i] for i in indices1]
-                self.child1_._update_prediction_paths(X, indices1, paths1)
+                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
 
             if len(indices2) > 0 and not self.child2_.is_leaf():
                 paths2 = [paths[i] for i in indices2]
-                self.child2_._update_prediction_paths(X, indices2, paths2)
+                self.child2_._update_prediction_paths(X, indices[indices2], paths2)
 
     @staticmethod
     def _create_merged_paths_array(n_rows):
-- 
2.43.0


From d1044ada6d4c24e08f735fcf479819af973872c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 02/20] fix: hyperplane split candidates were derived from
 unsorted projections

The candidate positions index into the sorted projections, so they have to be
computed from the differences of the *sorted* projections. With unsorted data
positions between equal points were considered and valid ones were missed.
---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 7608640..302abc3 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -50,7 +50,7 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections)) > self.split_precision)[0]  # we can only split between *different* data points
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From 223bab67dcd38f0947ef617bcfce3f8a889657f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 03/20] fix: sparse matrices that need a dtype conversion (e.g.
 bool) were rejected

np.all() does not reduce sparse matrices, so the loss-of-precision check raised
'The truth value of an array ... is ambiguous' for them.
---
 bayesian_decision_tree/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 91af875..7a29539 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -2,7 +2,7 @@ from abc import ABC, abstractmethod
 
 import numpy as np
 import pandas as pd
-from scipy.sparse import csr_matrix, csc_matrix
+from scipy.sparse import csr_matrix, csc_matrix, issparse
 from sklearn.base import BaseEstimator
 
 
@@ -232,7 +232,8 @@ class BaseTree(ABC, BaseEstimator):
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
         X_float = data.astype(np.float64)
-        if not np.all(data == X_float):
+        is_same = (data != X_float).nnz == 0 if issparse(data) else np.all(data == X_float)
+        if not is_same:
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
         return X_float
-- 
2.43.0


From f8a946ef12672cb26cf39da7a2a50ff07f1e780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 04/20] fix: integer overflow when fitting integer features or
 targets

Split values (midpoints), differences between contiguous points and squared
targets were computed in the integer type of the input, e.g. np.uint8, and
silently wrapped around.
---
 bayesian_decision_tree/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 7a29539..b8743ca 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -224,13 +224,11 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
-        if data.dtype in (
-                np.int8, np.int16, np.int32, np.int64,
-                np.uint8, np.uint16, np.uint32, np.uint64,
-                np.float32, np.float64):
+        if data.dtype in (np.float32, np.float64):
             return data
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
+        # and because the computations (sums, squares, differences, ...) would overflow for integer types
         X_float = data.astype(np.float64)
         is_same = (data != X_float).nnz == 0 if issparse(data) else np.all(data == X_float)
         if not is_same:
-- 
2.43.0


From 059b89643bed13da2dc33918ed402c738557e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 05/20] fix: split value did not separate adjacent
 floating-point numbers

The midpoint of two adjacent floating-point numbers may be rounded to the lower
one (and the sum of two large ones may overflow), in which case the training
points on one side of the split were predicted by the child on the other side.
---
 bayesian_decision_tree/base_perpendicular.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index d05cb01..92b2836 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -143,10 +143,11 @@ class BasePerpendicularTree(BaseTree, ABC):
             # store split info, create children and continue training them if there's data left to split
             self.split_dimension_ = best_split_dimension
             self.split_feature_name_ = feature_names[best_split_dimension]
-            self.split_value_ = 0.5 * (
-                    X[indices1[-1], best_split_dimension]
-                    + X[indices2[0], best_split_dimension]
-            )
+            lower = X[indices1[-1], best_split_dimension]
+            upper = X[indices2[0], best_split_dimension]
+            split_value = 0.5*lower + 0.5*upper
+            # the midpoint is rounded to 'lower' if there's no floating-point number between the two
+            self.split_value_ = split_value if split_value > lower else upper
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
 
-- 
2.43.0


From 552d32f830565fe10f6357150c3204a85a1b7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 06/20] fix: pandas targets were indexed by label instead of by
 position

fit() failed with a KeyError (or silently associated the wrong targets with the
rows of X) if y was a pandas Series, e.g. one obtained from a shuffled DataFrame.
---
 bayesian_decision_tree/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index b8743ca..a99532f 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -54,10 +54,7 @@ class BaseTree(ABC, BaseEstimator):
         """
 
         # validation and input transformation
-        if isinstance(y, list):
-            y = np.array(y)
-
-        y = y.squeeze()
+        y = np.asarray(y).squeeze()
         y = self._ensure_float64(y)
         self._check_target(y)
 
-- 
2.43.0


From 026a1423909029c105a8d20362d9007df8155ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 07/20] fix: a single training sample was rejected

squeeze() turned the targets of a single sample into a 0-dimensional array which
was then rejected with 'y should have 1 dimension but has 0'.
---
 bayesian_decision_tree/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index a99532f..95af692 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -54,7 +54,10 @@ class BaseTree(ABC, BaseEstimator):
         """
 
         # validation and input transformation
-        y = np.asarray(y).squeeze()
+        y = np.asarray(y)
+        if y.ndim > 1:
+            y = np.atleast_1d(y.squeeze())
+
         y = self._ensure_float64(y)
         self._check_target(y)
 
-- 
2.43.0


From dbe3dba2bfdcbfb4a98fe5205718bba9221342a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 08/20] fix: regression posterior was not a conjugate update
 for 0 < delta < 1

All other terms count each observation with weight 'delta', so the mean term of
beta has to be normalized with kappa + n*delta rather than with kappa + n.
---
 bayesian_decision_tree/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d3aa5f7..7110ae8 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -99,7 +99,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post
         alpha_post = alpha + 0.5*n_delta
         beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n - mu) ** 2 / (kappa + n)
+                    y_sum / n - mu) ** 2 / kappa_post
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0


From e3fdc8deb395ae9cfe1a2b73fcfa1a5298e310bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 09/20] fix: hyperplane trees ignored delta

The documented strengthening of the prior with the tree depth had no effect on
hyperplane trees, and the default of HyperplaneClassificationTree was None instead
of the documented 0.
---
 bayesian_decision_tree/base_hyperplane.py | 4 ++--
 bayesian_decision_tree/classification.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 27e0f1d..59fb4a3 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -82,8 +82,8 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 n_data2 = X2.shape[0]
 
                 # compute posteriors of children and priors for further splitting
-                prior_child1 = self._compute_posterior(y1, prior, delta=0)
-                prior_child2 = self._compute_posterior(y2, prior, delta=0)
+                prior_child1 = self._compute_posterior(y1, prior, self.delta) if self.delta else prior
+                prior_child2 = self._compute_posterior(y2, prior, self.delta) if self.delta else prior
 
                 # store split info, create children and continue training them if there's data left to split
                 self.best_hyperplane_normal_ = optimization_function.best_hyperplane_normal
diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index a60bae2..fa302e0 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -259,7 +259,7 @@ class HyperplaneClassificationTree(BaseHyperplaneTree, BaseClassificationTree):
     See `demo_classification_perpendicular.py`.
     """
 
-    def __init__(self, partition_prior=0.99, prior=None, delta=None, prune=False, optimizer=None, split_precision=0.0, level=0):
+    def __init__(self, partition_prior=0.99, prior=None, delta=0, prune=False, optimizer=None, split_precision=0.0, level=0):
         child_type = HyperplaneClassificationTree
         BaseHyperplaneTree.__init__(self, partition_prior, prior, delta, prune, child_type, False, optimizer, split_precision, level)
         BaseClassificationTree.__init__(self, partition_prior, prior, delta, prune, child_type, split_precision, level)
-- 
2.43.0


From bba0d5f6c3a5d86019c7f92118a518bbfcd88ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 10/20] fix: pruning changed predictions

Two children with identical predictions were merged even if the prediction of the
merged node, which sees the prior only once, differs from theirs (e.g. for an
asymmetric Dirichlet prior, or a regression prior mean that differs from the
prediction). Only splits that don't add information are removed now.
---
 bayesian_decision_tree/base.py           | 5 +++--
 bayesian_decision_tree/classification.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 95af692..f66e236 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -152,8 +152,9 @@ class BaseTree(ABC, BaseEstimator):
         n_leaves_start = self.get_n_leaves()
 
         if self.child1_.is_leaf() and self.child2_.is_leaf():
-            if self.child1_._predict_leaf() == self.child2_._predict_leaf():
-                # same prediction (class if classification, value if regression) -> no need to split
+            if self.child1_._predict_leaf() == self.child2_._predict_leaf() == self._predict_leaf():
+                # same prediction (class if classification, value if regression) with and without
+                # the split -> no need to split
                 self._erase_split_info_base()
                 self._erase_split_info()
         else:
diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index fa302e0..b316175 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -149,7 +149,7 @@ class PerpendicularClassificationTree(BasePerpendicularTree, BaseClassificationT
 
     prune : boolean, default=False
         Prunes the tree after fitting if `True` by removing all splits that don't add information,
-        i.e., where the predictions of both children are identical. It's usually sensible to set
+        i.e., where the predictions of both children and of the node itself are identical. It's usually sensible to set
         this to `True` in the classification case if you're only interested in class predictions
         (`predict(X)`), but it makes sense to set it to `False` if you're looking for class
         probabilities (`predict_proba(X)`). It can safely be set to 'True' in the regression case
@@ -219,7 +219,7 @@ class HyperplaneClassificationTree(BaseHyperplaneTree, BaseClassificationTree):
 
     prune : boolean, default=False
         Prunes the tree after fitting if `True` by removing all splits that don't add information,
-        i.e., where the predictions of both children are identical. It's usually sensible to set
+        i.e., where the predictions of both children and of the node itself are identical. It's usually sensible to set
         this to `True` in the classification case if you're only interested in class predictions
         (`predict(X)`), but it makes sense to set it to `False` if you're looking for class
         probabilities (`predict_proba(X)`). It can safely be set to 'True' in the regression case
-- 
2.43.0


From 6788417166061033906d43d59521cd315b2372c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 11/20] fix: classification trees could not be fitted with the
 default prior

fit() raised a TypeError for prior=None, and the default prior had one
pseudo-observation count per feature rather than per class.
---
 bayesian_decision_tree/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index b316175..76e6c46 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -49,16 +49,18 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
-        n_classes = len(self.prior)
+        n_classes = len(self.prior) if self.prior is not None else len(np.unique(y))
         if not np.all(np.unique(y) == np.arange(0, n_classes)):
             raise ValueError('Expected target values 0..{} but found {}..{}'.format(n_classes - 1, y.min(), y.max()))
 
+        self.n_classes_ = n_classes
+
     def _get_prior(self, n_data, n_dim):
         if self.prior is not None:
             return self.prior
         else:
             prior_pseudo_observation_count = max(1, n_data//100)
-            return prior_pseudo_observation_count * np.ones(n_dim)
+            return prior_pseudo_observation_count * np.ones(self.n_classes_)
 
     def _compute_log_p_data_no_split(self, y, prior):
         posterior = self._compute_posterior(y, prior)
-- 
2.43.0


From 651e532e92cb89a9934f279947a5e12b89e5af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 12/20] fix: scikit-learn scorers failed on classification
 trees

scikit-learn requires the attribute 'classes_' of fitted classifiers, e.g. for
cross_val_score(..., scoring='accuracy') and cross_val_predict(..., method='predict_proba').
---
 bayesian_decision_tree/classification.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 76e6c46..b5ba46e 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -45,6 +45,15 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
 
         return np.array(y_proba)
 
+    @property
+    def classes_(self):
+        """The class labels, in the order of the columns of predict_proba(); required by scikit-learn."""
+
+        if not self.is_fitted():
+            raise AttributeError('classes_ is not available on an untrained model; call .fit() first')
+
+        return np.arange(len(self.posterior_))
+
     def _check_target(self, y):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
-- 
2.43.0


From 8d1f76f27db8d3310a91a5c24841654d3992ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 13/20] fix: hyperplane trees could not be fitted to a single
 feature

Optimizers that search the unit hypercube failed with an obscure error because
the search space has no dimensions if there is only one feature.
---
 bayesian_decision_tree/base_hyperplane.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 59fb4a3..58eceba 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -40,6 +40,9 @@ class BaseHyperplaneTree(BaseTree, ABC):
             # default to 'Differential Evolution' which works well and is reasonably fast
             optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)
 
+        # a single feature means that there is only one hyperplane orientation (and no search space for it)
+        is_single_orientation = n_dim == 1 and optimizer.search_space_is_unit_hypercube
+
         # the function to optimize (depends on X and y, hence we need to instantiate it for every data set anew)
         optimization_function = HyperplaneOptimizationFunction(
             X,
@@ -47,11 +50,14 @@ class BaseHyperplaneTree(BaseTree, ABC):
             prior,
             self._compute_log_p_data_split,
             log_p_data_no_split,
-            optimizer.search_space_is_unit_hypercube,
+            optimizer.search_space_is_unit_hypercube and not is_single_orientation,
             self.split_precision)
 
         # create and run optimizer
-        optimizer.solve(optimization_function)
+        if is_single_orientation:
+            optimization_function.compute(np.ones(1))
+        else:
+            optimizer.solve(optimization_function)
 
         self.optimization_function = optimization_function
 
-- 
2.43.0


From c16a484d9d83641a5ba4b1a0709cd34f3e4cebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 14/20] fix: float32 targets lost precision

---
 bayesian_decision_tree/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index f66e236..7f6b677 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -58,7 +58,8 @@ class BaseTree(ABC, BaseEstimator):
         if y.ndim > 1:
             y = np.atleast_1d(y.squeeze())
 
-        y = self._ensure_float64(y)
+        # sums of squares of float32 targets are far too inaccurate in float32 precision, so use float64 in any case
+        y = self._ensure_float64(y).astype(np.float64, copy=False)
         self._check_target(y)
 
         X, feature_names = self._normalize_data_and_feature_names(X, feature_names)
-- 
2.43.0


From 14a983e34e3d8d1e6285c5efbd74c04a4e020356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:06 +0000
Subject: [PATCH 15/20] fix: raw leaf data failed for a single leaf with the
 default prior

---
 bayesian_decision_tree/classification.py | 2 +-
 bayesian_decision_tree/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index b5ba46e..b264ac8 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -124,7 +124,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([self._get_prior(self.n_data_, None), self.posterior_])
 
 
 class PerpendicularClassificationTree(BasePerpendicularTree, BaseClassificationTree):
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 7110ae8..d148cc4 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -121,7 +121,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([self._get_prior(self.n_data_, None), self.posterior_])
 
 
 class PerpendicularRegressionTree(BasePerpendicularTree, BaseRegressionTree):
-- 
2.43.0


From b7f9181798d68795c176590eea3aee61834d3c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:48 +0000
Subject: [PATCH 16/20] fix: a rejected fit changed the number of classes

---
 bayesian_decision_tree/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 7f6b677..b22ce6c 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -60,12 +60,14 @@ class BaseTree(ABC, BaseEstimator):
 
         # sums of squares of float32 targets are far too inaccurate in float32 precision, so use float64 in any case
         y = self._ensure_float64(y).astype(np.float64, copy=False)
-        self._check_target(y)
 
         X, feature_names = self._normalize_data_and_feature_names(X, feature_names)
-        if X.shape[0] != len(y):
+        if X.shape[:1] != y.shape[:1]:
             raise ValueError('Invalid shapes: X={}, y={}'.format(X.shape, y.shape))
 
+        # only once everything else is known to be valid because this stores the number of classes
+        self._check_target(y)
+
         # fit
         self._fit(X, y, verbose, feature_names, 'root')
 
-- 
2.43.0


From 091c0e3c72b7d432b9bf5e679ba257017a29e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:23 +0000
Subject: [PATCH 17/20] fix: large integers were rounded silently instead of
 being rejected

---
 bayesian_decision_tree/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index b22ce6c..70e60e9 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -234,7 +234,9 @@ class BaseTree(ABC, BaseEstimator):
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
         # and because the computations (sums, squares, differences, ...) would overflow for integer types
         X_float = data.astype(np.float64)
-        is_same = (data != X_float).nnz == 0 if issparse(data) else np.all(data == X_float)
+        X_back = X_float.astype(data.dtype)  # large integers only differ from their rounded value if compared as integers
+        is_same = (data != X_float).nnz == 0 and (data != X_back).nnz == 0 if issparse(data) \
+            else np.all(data == X_float) and np.all(data == X_back)
         if not is_same:
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
-- 
2.43.0


From eaae3ceb52c9b4c88c86d7f9850325502e20a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:40 +0000
Subject: [PATCH 18/20] fix: compare and split float32 features in double
 precision

Midpoints and differences of np.float32 features were rounded to single precision, and split values were
rounded to it when np.float32 rows were queried, so these rows could be routed differently from the same
numbers given as np.float64, and cuts could be missed or lost.
---
 bayesian_decision_tree/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 70e60e9..ddde0e6 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -229,7 +229,8 @@ class BaseTree(ABC, BaseEstimator):
     @staticmethod
     def _ensure_float64(data):
         if data.dtype in (np.float32, np.float64):
-            return data
+            # convert np.float32, too, because differences, midpoints and comparisons would be rounded to its precision
+            return data.astype(np.float64, copy=False)
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
         # and because the computations (sums, squares, differences, ...) would overflow for integer types
-- 
2.43.0


From 2797a714b84a8ec677d0c601cf289b624b33c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:22 +0000
Subject: [PATCH 19/20] fix: the seed of OptunaOptimizer was passed as another
 argument

---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 302abc3..f1e300c 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -263,7 +263,7 @@ class OptunaOptimizer(HyperplaneOptimizer):
         from optuna.logging import set_verbosity
         from optuna.samplers import TPESampler
 
-        study = create_study(direction='minimize', sampler=TPESampler(self.seed))
+        study = create_study(direction='minimize', sampler=TPESampler(seed=self.seed))
         n_dim = optimization_function.X.shape[1]
         n_dim_surface = n_dim-1
 
-- 
2.43.0


From c14420db8338c407269a42ded826ca48b289d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:40:10 +0000
Subject: [PATCH 20/20] fix: large offsets of regression targets cancelled in
 the likelihoods

---
 bayesian_decision_tree/regression.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d148cc4..2b7a4e0 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -27,6 +27,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
     def _compute_log_p_data_no_split(self, y, prior):
+        y, prior = self._remove_offset(y, prior)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
         n = len(y)
@@ -37,6 +38,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         return log_p_prior + log_p_data
 
     def _compute_log_p_data_split(self, y, prior, n_dim, split_indices):
+        y, prior = self._remove_offset(y, prior)
         n = len(y)
         n1 = np.arange(1, n)
         n2 = n - n1
@@ -87,8 +89,23 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         n = len(y)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
+        mu_post, kappa_post, alpha_post, _ = self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
 
-        return self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+        y, prior = self._remove_offset(y, prior)
+        y_sum = y.sum()
+        y_squared_sum = (y ** 2).sum()
+        _, _, _, beta_post = self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+
+        return mu_post, kappa_post, alpha_post, beta_post
+
+    @staticmethod
+    def _remove_offset(y, prior):
+        # variances and likelihoods don't depend on a common offset of targets and prior mean, but a large
+        # one would cancel catastrophically in differences of sums of squares
+        mu, kappa, alpha, beta = prior
+        offset = y.min()
+
+        return y - offset, (mu - offset, kappa, alpha, beta)
 
     def _compute_posterior_internal(self, prior, n, y_sum, y_squared_sum, delta=1):
         mu, kappa, alpha, beta = prior
-- 
2.43.0

