From 5ca6b8403cc5ac2c018d39d0e036164da371b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 01/35] fix: restore the typing import swallowed by the licence
 comment in dsm/polytope.py

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 6b524a5..474c6c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -9,7 +9,8 @@
 #    TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NON-INFRINGEMENT. IN NO EVENT SHALL
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
-#    IN THE SOFTWARE.from typing import Set, List, Tuple
+#    IN THE SOFTWARE.
+from typing import Set, List, Tuple
 
 import numpy as np
 
-- 
2.43.0


From 8becacb9a7a7774d827e64f3ea1fbf480f302681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 02/35] fix: use the builtin float instead of the removed
 np.float alias

---
 aideme/active_learning/dsm/polytope.py | 2 +-
 aideme/active_learning/kernel.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 474c6c4..e678928 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -226,7 +226,7 @@ class CategoricalPolytope(PolytopeBase):
             return np.full(len(X), fill_value=0.5)
 
         X = np.argmax(X, axis=1)
-        return np.fromiter((self._predict_single(x) for x in X), np.float)
+        return np.fromiter((self._predict_single(x) for x in X), float)
 
     def _predict_single(self, x: np.ndarray) -> float:
         if x in self._pos_classes:
diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 618870a..976f461 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -120,7 +120,7 @@ class GaussianKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
-        return np.ones(len(X), dtype=np.float)
+        return np.ones(len(X), dtype=float)
 
 
 class PolynomialKernel(Kernel):
-- 
2.43.0


From 5d61fb12aff7c63a64d26666ee64731b54fb5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 03/35] fix: move_to_unknown must move the row of the point,
 not the row numbered like its index

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index a81d7d0..220b2cb 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -110,7 +110,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             pos = self.__index_to_row[idx]
 
             if pos < self.__unknown_start:
-                self.__move_right(idx, to_unknown=True)
+                self.__move_right(pos, to_unknown=True)
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
-- 
2.43.0


From a33d03973676d1aae8c1b7ef3e7c9412bafa371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 04/35] fix: keep stored labels aligned with the labeled rows
 when points leave the LABELED partition

---
 aideme/explore/partitioned.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 220b2cb..ce670e2 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -102,6 +102,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'inferred')
 
+        self.__sync_labeled_set()
+
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
@@ -114,6 +116,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
+        self.__sync_labeled_set()
+
     def __move_left(self, pos: int, to_labeled: bool) -> None:
         if pos >= self.__unknown_start:
             self.__swap_rows(pos, self.__unknown_start)
@@ -139,6 +143,10 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         self.__dataset.swap_rows(i, j)
         self.__index_to_row.swap_index(idx_i, idx_j)
 
+    def __sync_labeled_set(self) -> None:
+        # points may have left the LABELED partition: drop their labels, and follow the new order of the remaining rows
+        self.__labeled_set = self.__labeled_set.get_index(self.__dataset.index[:self.__inferred_start])
+
     def __raise_error(self, idx, pos: int, partition_name: str) -> None:
         raise ValueError("Index {}, at position {}, is already in {} set.".format(idx, pos, partition_name))
 
-- 
2.43.0


From 68a8bd2bef03f7f913c763556a849977d5abdb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 05/35] fix: predict_user_labels must not share the index array
 that later moves reorder in place

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index ce670e2..8599f94 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -290,7 +290,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         labels = np.empty(len(self.__dataset.data))
         labels[:self.labeled_size] = self.__labeled_set.labels
         labels[self.labeled_size:] = active_learner.predict(self.unlabeled.data)
-        return LabeledSet(labels, index=self.__dataset.index)
+        return LabeledSet(labels, index=self.__dataset.index.copy())
 
 
 class IndexedDataset:
-- 
2.43.0


From 090798d81602a348dbab5d660ee61223b52a8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 06/35] fix: process_callback must return a new list, since the
 manager appends to it

---
 aideme/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 31d3539..7fa9b93 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -58,4 +58,4 @@ def process_callback(callback):
     if not all(callable(f) for f in callback):
         raise ValueError("Expected callable or list of callable objects, got {}".format(callback))
 
-    return callback
+    return list(callback)
-- 
2.43.0


From 209aeb0595a4934885f3469e5f34404b122ef803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 07/35] fix: do not evaluate convergence criteria of a new run
 on metrics of a previous unfinished run

---
 aideme/explore/explore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index 8c6af47..984e88d 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -90,6 +90,7 @@ class PoolBasedExploration:
     def _run(self, manager: ExplorationManager, labeled_set: LabeledSet, seed: Optional[int]) -> RunType:
         set_random_state(seed)
 
+        metric_logger.flush()  # ignore any metrics left over from a previous, possibly unfinished, run
         manager.clear()
 
         while not manager.converged():
-- 
2.43.0


From 9a49127c4d8f313a6fcb899ae94bb7c736f244f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 08/35] fix: refine_step_size must not overwrite the
 class-level default parameters

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index de71e14..f0b04b1 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -298,7 +298,7 @@ class SimplifiedSwapLearner(SwapLearner):
         else:
             params = self.REFINE_CARS if cars else self.REFINE_DEFAULT_PARAMS
         if refine_step_size:
-            params['step_size'] = refine_step_size
+            params = {**params, 'step_size': refine_step_size}
 
         refined_model_optimizer = self.get_optimizer(use_fista=use_fista, max_iter=refine_max_iter, **params)
         penalty_term = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty, groups=one_hot_groups)
-- 
2.43.0


From d3c57fafd52184cd699e288f39b9e045b14cd3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 09/35] fix: set add_bias before the proximal penalty
 processing that reads it

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 3b5694a..1aae4a5 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -27,8 +27,8 @@ if TYPE_CHECKING:
 class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self.add_bias = add_bias
+        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self._weights = None
         self._bias = None
 
-- 
2.43.0


From 40efd0a8ab1ae517b2878b0ddb6ba8d4d2f92cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 10/35] fix: PolynomialKernel.diagonal must be the diagonal of
 the polynomial kernel matrix

---
 aideme/active_learning/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 976f461..aa7e7cb 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -155,7 +155,8 @@ class PolynomialKernel(Kernel):
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
         sqsum = np.einsum('ir, ir -> i', X, X)
-        return (self.gamma * sqsum + self.coef0) ** (1 / self.degree)
+        gamma = 1.0 / X.shape[1] if self.gamma is None else self.gamma
+        return (gamma * sqsum + self.coef0) ** self.degree
 
 
 class IncrementedDiagonalKernel(Kernel):
-- 
2.43.0


From 8f6b0bc668f652a339827877df63fdad1209130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 11/35] fix: Laplace approximation needs the lower Cholesky
 factor it is later solved with

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 010c971..05f4d3b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -92,7 +92,7 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = self._compute_map_estimator(X, y)
 
         H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H)
+        self._L = cholesky(H, lower=True)
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From fb6e7e33d51b9fdc5342391c66bdc4143a0dd24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 12/35] fix: QueryByDisagreement must size the background
 labels and weights by the sampled points

---
 aideme/active_learning/query_by_disagreement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index f20f68b..5ee3840 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -35,15 +35,16 @@ class QueryByDisagreement(ActiveLearner):
         self._learner.fit(X, y)
 
         background_points = data.unlabeled.sample(self._background_sample_size).data
+        n_labeled, n_background = len(X), len(background_points)  # fewer points than requested may remain
         X_train = np.r_[X, background_points]
 
         sample_weights = np.ones(len(X_train))
-        sample_weights[-self._background_sample_size:] *= self._background_sample_weight
+        sample_weights[n_labeled:] *= self._background_sample_weight
 
-        y_train = np.r_[y, np.ones(self._background_sample_size)]
+        y_train = np.r_[y, np.ones(n_background)]
         self._positively_biased_learner.fit(X_train, y_train, sample_weights)
 
-        y_train[-self._background_sample_size:] = 0
+        y_train[n_labeled:] = 0
         self._negatively_biased_learner.fit(X_train, y_train, sample_weights)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From c9523c768824ec879ce486f67fa0c9a73b8f2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 13/35] fix: give masked divisions an initialised output
 instead of uninitialised memory

---
 aideme/active_learning/factorization/penalty.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index a2382d0..c7bb1df 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -89,20 +89,20 @@ class L2SqrtPenalty(PenaltyTerm):
         res = np.zeros_like(x)
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
-            factor = np.true_divide(self._penalty, norm, where=norm > 0)
+            factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
             res[:, g] = x[:, g] * factor.reshape(-1, 1)
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
         norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, where=norm > 0)  # avoid dividing by zero
+        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
         factor = np.maximum(0, 1 - factor)
         return x * factor.reshape(-1, 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
         not_zero = (norm > 0)
-        n = np.true_divide(x, norm, where=not_zero)  # avoid dividing by zero
+        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
         u = np.linalg.norm(v - self._penalty * n, axis=1)
         u[~not_zero.ravel()] -= self._penalty
         return np.all(u <= tol)
@@ -156,7 +156,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
-        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
+        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
-- 
2.43.0


From 4d337f1bc0904db68abbd0c50cfc9a1b6b507fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 14/35] fix: read the class labels from the fitted classifier,
 its clone has none

---
 aideme/active_learning/margin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index a522958..215a4bb 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -74,8 +74,8 @@ class RatioMargin(SimpleMargin):
         return -np.array([self.__compute_margin_ratio(clf, x) for x in X])
 
     def __compute_margin_ratio(self, clf, x):
-        margin0 = self.__compute_margin(clf, x, clf.classes_[0])
-        margin1 = self.__compute_margin(clf, x, clf.classes_[1])
+        margin0 = self.__compute_margin(clf, x, self.clf.classes_[0])
+        margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
             return float('inf')
-- 
2.43.0


From 06ec25e4583c0560b642cc303c916dfa2d6abc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 15/35] fix: do not lose negative points labeled before the
 first positive one

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index e678928..2c9e540 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -101,7 +101,8 @@ class Polytope(PolytopeBase):
     def __update_negative(self, X: np.ndarray) -> None:
         for x in X:
             cone = NegativeCone(x, self.positive_region._tol)
-            cone.add_points_to_hull(self.positive_region.vertices)
+            if self.positive_region.vertices is not None:  # otherwise, they are added when the first positive points arrive
+                cone.add_points_to_hull(self.positive_region.vertices)
             self.negative_region.append(cone)
 
 
-- 
2.43.0


From 43f8b02efac5ee19a2e3dccd90761b760aa3d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 16/35] fix: report unknown connector functions of
 SubspaceLearner with a ValueError

---
 aideme/active_learning/version_space/subspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 19fb8c8..42e9e0f 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -92,12 +92,15 @@ class SubspaceLearner(FactorizedActiveLearner):
     @staticmethod
     def _get_function(function, name_to_function_map):
         if isinstance(function, str):
+            if function.upper() not in name_to_function_map:
+                raise ValueError("Unknown function {}. Available options are: {}".format(function, sorted(name_to_function_map)))
+
             return name_to_function_map[function.upper()]
 
         if function is None or callable(function):
             return function
 
-        raise ValueError("Expected callable or string, but received a " + type(function))
+        raise ValueError("Expected callable or string, but received a {}".format(type(function)))
 
     def clear(self):
         for learner in self.learners:
-- 
2.43.0


From ffd5e30bf8e7185d5af4b432c1ae45b6856b34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 17/35] fix: reject multi-digit tokens such as '10' as labels
 on the command line

---
 aideme/explore/command_line_explore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 73b45a2..da0e419 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -87,6 +87,10 @@ class CommandLineExploration:
             return False, None
 
         vals = s.split()
+        if not set(vals).issubset({'0', '1'}):
+            print("Invalid label. Labels must be 0 or 1, separated by ' '.\n")
+            return False, None
+
         if len(vals) != expected_size:
             print('Incorrect number of labels: got {} but expected {}\n'.format(len(vals), expected_size))
             return False, None
-- 
2.43.0


From 00145106abef444be8c3a71691f51220ef184b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 18/35] fix: reject NaN in positive and non-negative parameter
 checks

---
 aideme/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 7fa9b93..8f44cc0 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -45,7 +45,7 @@ def __assert_non_negative(type, value, name, allow_inf=False, allow_none=False):
             raise ValueError("{} cannot be infinity.".format(name))
         return
 
-    if not isinstance(value, type) or value < 0:
+    if not isinstance(value, type) or not value >= 0:  # also rejects NaN
         raise ValueError("'{}' must be a positive, got {}".format(name, value))
 
 def process_callback(callback):
-- 
2.43.0


From ba8306e71c0368e34118ee33a27879f6037cc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 19/35] fix: reject NaN in range checks

---
 aideme/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 8f44cc0..4a6376e 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -14,7 +14,7 @@
 import math
 
 def assert_in_range(value, name, low, high):
-    if value < low or value > high:
+    if not low <= value <= high:  # also rejects NaN
         raise ValueError("Expected {} < {} < {}, but got {}".format(low, name, high, value))
 
 def assert_positive(value, name, allow_inf=False, allow_none=False):
-- 
2.43.0


From c80c6778d396b1b196a9404473cf5d169a77deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 20/35] fix: reject NaN as noise probability

---
 aideme/utils/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/noise.py b/aideme/utils/noise.py
index 74bf30b..4db9aef 100644
--- a/aideme/utils/noise.py
+++ b/aideme/utils/noise.py
@@ -39,7 +39,7 @@ def random_noise_injector(noise: float, skip_initial: int = 0) -> NoiseInjector:
     :param skip_initial: number of initial iterations to skip the noise injection during exploration phase
     :return: a noise injector
     """
-    if noise < 0 or noise > 1:
+    if not 0 <= noise <= 1:  # also rejects NaN
         raise ValueError("Noise must be between 0 and 1, but got {}".format(noise))
 
     def injector(iteration: int, labeled_set: LabeledSet) -> LabeledSet:
-- 
2.43.0


From 9e2fbc4c4fce5792c1dd537080dbf5c63672c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 21/35] fix: accept the documented loss name 'SQUARED' of
 SubspatialVersionSpace

---
 aideme/active_learning/version_space/subspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 42e9e0f..8136da5 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -269,6 +269,7 @@ class SubspatialVersionSpace(SubspaceLearner):
         return super()._get_function(loss, {
             'GREEDY': lambda ps: np.prod(1 - 2 * ps * (1 - ps), axis=0),
             'SQUARE': lambda ps: np.square(ps - 0.5).sum(axis=0),
+            'SQUARED': lambda ps: np.square(ps - 0.5).sum(axis=0),
             'PRODUCT': lambda ps: np.abs(ps.prod(axis=0) - 0.5),
         })
 
-- 
2.43.0


From 7013b190fe5cbcc1ae93a91a1c88b1a92def00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:27 +0000
Subject: [PATCH 22/35] fix: L2SqrtPenalty.proximal ignored the groups of its
 loss

---
 aideme/active_learning/factorization/penalty.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index c7bb1df..bc524e9 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -94,10 +94,13 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-        norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
-        factor = np.maximum(0, 1 - factor)
-        return x * factor.reshape(-1, 1)
+        res = x.copy()
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1)
+            factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
+            factor = np.maximum(0, 1 - factor)
+            res[:, g] = x[:, g] * factor.reshape(-1, 1)
+        return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
-- 
2.43.0


From 9967f21077f683253711849afc3d9ca09b7ef28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 23/35] fix: gradient of L2SqrtPenalty lost contributions of
 overlapping groups

---
 aideme/active_learning/factorization/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index bc524e9..d83fb63 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -90,7 +90,7 @@ class L2SqrtPenalty(PenaltyTerm):
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
             factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
-            res[:, g] = x[:, g] * factor.reshape(-1, 1)
+            res[:, g] += x[:, g] * factor.reshape(-1, 1)
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-- 
2.43.0


From 6d06ed5d006dd653ee0b9b35427909a4cb02dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 24/35] fix: a conflict in the positive polytope must not hide
 the new points from the flipped one

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 2c9e540..0206380 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -187,7 +187,8 @@ class PersistentPolytope(PolytopeBase):
             raise RuntimeError("Attempting to update invalid polytope.")
 
         if self._pol.is_valid and self._flipped.is_valid:
-            return self._pol.update(X, y) and self._flipped.update(X, y)
+            updates = [pol.update(X, y) for pol in (self._pol, self._flipped)]  # both must see the new points
+            return all(updates)
 
         if self._pol.is_valid:
             return self._pol.update(X, y)
-- 
2.43.0


From 468738dc268194128a074f0938c992c7ed006f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 25/35] fix: a conflict in one subspace must not hide the new
 points from the polytopes of the next ones

---
 aideme/active_learning/dsm/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 961fbf9..1d98e75 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -96,7 +96,8 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         if not self.is_valid:
             raise RuntimeError("Cannot update invalid polytope.")
 
-        return all(pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements())
+        updates = [pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()]  # all of them must see the new points
+        return all(updates)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         val = 1.0 if self.is_all_valid else 0.5
-- 
2.43.0


From 721a80886b1d5e3a0b7c2c9c476d96f981082a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 26/35] fix: a negative point with positive items only
 contradicts a multi-set polytope

---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 0206380..43c989d 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -333,6 +333,9 @@ class MultiSetPolytope(PolytopeBase):
             return self.__update_positive_set(idx)
 
         idx -= self._pos_indexes
+        if not idx:  # a negative point whose items are all known to be positive
+            return False
+
         if len(idx) == 1:
             return self.__update_negative_set(idx)
 
-- 
2.43.0


From 92df47d7f27558394b0a1a5193acf1f2a0a7ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 27/35] fix: keep the insertion order of hull vertices when
 pickling (restored cones referred to the wrong vertex)

---
 aideme/active_learning/dsm/convex/convex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 27d437b..4b0896c 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -33,7 +33,7 @@ class ConvexHull:
         of "vertices" composing the convex hull.
         """
         return {
-            'vertices': self.vertices,
+            'vertices': self.hull.points[np.sort(self.hull.vertices)],  # in order of insertion: cones refer to their vertex by position
             'tol': self.tol
         }
 
-- 
2.43.0


From 854dc0e962afb1c57fd85c7076fe902295144b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 28/35] fix: the command line exploration must not reorder the
 data matrix of the caller

---
 aideme/explore/command_line_explore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index da0e419..90e45f4 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -48,7 +48,7 @@ class CommandLineExploration:
         self.convergence_criteria = process_callback(convergence_criteria)
 
     def run(self, X, active_learner: ActiveLearner) -> None:
-        data = PartitionedDataset(X, copy=False)
+        data = PartitionedDataset(X)
 
         manager = ExplorationManager(
             data, active_learner, self.subsampling, self.initial_sampler,
-- 
2.43.0


From 84099f8cd9543db449cb979f9e9ccf748c307589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 29/35] fix: the kernel Laplace approximation must not
 overwrite the kernel matrix it is given

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 05f4d3b..c5853e4 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -171,7 +171,7 @@ class KernelLaplaceBayesianLogisticRegression(LaplaceBayesianLogisticRegressionB
         self.C *= (1 - self.C)
         np.sqrt(self.C, out=self.C)
 
-        K *= self.C
+        K = K * self.C  # new matrix, K belongs to the caller
         K *= self.C.reshape(-1, 1)
         K[np.diag_indices_from(K)] += self._info
 
-- 
2.43.0


From 975544cfdac72690c901e156bcaa17020709bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 30/35] fix: copy of a factorization learner keeps the penalty
 of its proximal optimizer

---
 aideme/active_learning/factorization/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 1aae4a5..7cd6d71 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -79,8 +79,7 @@ class LinearFactorizationLearner:
         return 0 if self._weights is None else self._weights.shape[0]
 
     def copy(self) -> LinearFactorizationLearner:
-        learner = LinearFactorizationLearner(optimizer=self.optimizer, add_bias=self.add_bias)
-        learner.penalty_term = self.penalty_term
+        learner = LinearFactorizationLearner(optimizer=self.optimizer, penalty_term=self.penalty_term, add_bias=self.add_bias)
 
         learner._weights = self.weights
         if self.add_bias:
-- 
2.43.0


From 2c2bd119beb2b04f874341867416a9a6423f7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 31/35] fix: pruning subspaces of a learner without bias

---
 aideme/active_learning/factorization/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 49f1073..962b0c7 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -38,7 +38,8 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
 
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
-    pruned_learner._bias = learner._bias[relevant_rows]
+    if learner.add_bias:
+        pruned_learner._bias = learner._bias[relevant_rows]
 
     return pruned_learner
 
-- 
2.43.0


From d8bbe7ce41781fdb0520e510c90b8e34286dca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 32/35] fix: L2 penalty tests subgradients against its own
 gradient under proximal optimizers

---
 aideme/active_learning/factorization/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index d83fb63..cc7cd7f 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -178,7 +178,7 @@ class L2Penalty(PenaltyTerm):
         return x / (2 * eta * self._penalty + 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        return np.linalg.norm(self.grad(x) - v) <= tol
+        return np.linalg.norm(2 * self._penalty * x - v) <= tol
 
 
 class InteractionPenalty(PenaltyTerm):
-- 
2.43.0


From d5d8f2db12ad5ed89236cde4ea0f27f2279069b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 33/35] fix: group penalties test subgradients within each
 group

---
 aideme/active_learning/factorization/penalty.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index cc7cd7f..b86af1c 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -103,6 +103,9 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
+        return all(self.__is_group_subgradient(v[:, g], x[:, g], tol) for g in self.groups)
+
+    def __is_group_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
         not_zero = (norm > 0)
         n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
@@ -156,7 +159,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         return self.l2_sqrt_penalty.proximal(self.l1_penalty.proximal(x, eta), eta)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
+        lamb2 = self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
         n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
@@ -164,7 +167,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
             return False
 
         v = v[~not_zero]
-        return np.all(np.linalg.norm(v - np.clip(v, -lamb1, lamb1), axis=1) <= lamb2 + tol)
+        return np.all(np.linalg.norm(self.l1_penalty.proximal(v, 1), axis=1) <= lamb2 + tol)
 
 
 class L2Penalty(PenaltyTerm):
-- 
2.43.0


From e8e6b15f2388ce11a956e801fb755a154427e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 34/35] fix: FactorizedKernelTransform.fit_transform no longer
 asks the unfitted transformers for n_components

---
 aideme/active_learning/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index aa7e7cb..572160e 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -303,7 +303,6 @@ class FactorizedKernelTransform(KernelTransformer):
         return K
 
     def fit_transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.fit_transform(X[:, subspace])
-        return K
+        # n_components is unknown before the transformers are fitted
+        K = [transformer.fit_transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)]
+        return np.stack(K, axis=2)
-- 
2.43.0


From e4fedd6b44f461b6437f340cfad5c879afdd50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:23 +0000
Subject: [PATCH 35/35] fix: FactorizedKernelTransform.transform sizes its
 result by what the fitted transformers return, not by the requested number of
 components

---
 aideme/active_learning/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 572160e..bc23d5e 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -297,10 +297,9 @@ class FactorizedKernelTransform(KernelTransformer):
             transformer.fit(X[:, subspace])
 
     def transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.transform(X[:, subspace])
-        return K
+        # a transformer fitted on few points may have less components than requested
+        K = [transformer.transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)]
+        return np.stack(K, axis=2)
 
     def fit_transform(self, X: np.ndarray) -> np.ndarray:
         # n_components is unknown before the transformers are fitted
-- 
2.43.0

