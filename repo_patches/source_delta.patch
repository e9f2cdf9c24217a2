From aec8015c3ec2008b43a4cb29b47b64162be8fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:20 +0000
Subject: [PATCH 01/72] fix: put the typing import of dsm/polytope.py on its
 own line so that aideme can be imported

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 6b524a5..474c6c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -9,7 +9,8 @@
 #    TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NON-INFRINGEMENT. IN NO EVENT SHALL
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
-#    IN THE SOFTWARE.from typing import Set, List, Tuple
+#    IN THE SOFTWARE.
+from typing import Set, List, Tuple
 
 import numpy as np
 
-- 
2.43.0


From 2c35b72cd9e1dde9a54a696cc81701cf22e96dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 02/72] fix: use the builtin float, since numpy 1.24 removed
 the np.float alias used by the Gaussian kernel and the categorical polytope

---
 aideme/active_learning/dsm/polytope.py | 2 +-
 aideme/active_learning/kernel.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 474c6c4..e678928 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -226,7 +226,7 @@ class CategoricalPolytope(PolytopeBase):
             return np.full(len(X), fill_value=0.5)
 
         X = np.argmax(X, axis=1)
-        return np.fromiter((self._predict_single(x) for x in X), np.float)
+        return np.fromiter((self._predict_single(x) for x in X), float)
 
     def _predict_single(self, x: np.ndarray) -> float:
         if x in self._pos_classes:
diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 618870a..976f461 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -120,7 +120,7 @@ class GaussianKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
-        return np.ones(len(X), dtype=np.float)
+        return np.ones(len(X), dtype=float)
 
 
 class PolynomialKernel(Kernel):
-- 
2.43.0


From e763ad4d1075ad3ecbe0909da1a8861613348293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 03/72] fix: polynomial kernel diagonal uses the degree as
 exponent and the default gamma

---
 aideme/active_learning/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 976f461..e11d485 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -155,7 +155,8 @@ class PolynomialKernel(Kernel):
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
         sqsum = np.einsum('ir, ir -> i', X, X)
-        return (self.gamma * sqsum + self.coef0) ** (1 / self.degree)
+        gamma = 1 / X.shape[1] if self.gamma is None else self.gamma
+        return (gamma * sqsum + self.coef0) ** self.degree
 
 
 class IncrementedDiagonalKernel(Kernel):
-- 
2.43.0


From 0f5b6b66a4c937e2b083080584de1bab8bea5708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 04/72] fix: move_to_unknown moves the row of the requested
 index, not the row numbered like it

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index a81d7d0..220b2cb 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -110,7 +110,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             pos = self.__index_to_row[idx]
 
             if pos < self.__unknown_start:
-                self.__move_right(idx, to_unknown=True)
+                self.__move_right(pos, to_unknown=True)
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
-- 
2.43.0


From cdb3a1bf8d674db8c08f9895aaabdfc4eb6a0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 05/72] fix: a rejected move leaves the partitioned dataset
 untouched, instead of moving the points before the offending one without
 storing their labels

---
 aideme/explore/partitioned.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 220b2cb..b77890f 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -77,6 +77,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Move indexes to LABELED partition, and store its labels. Throws exception if any index is already in this partition.
         :param labeled_set: LabeledSet instance containing the labels and indexes of points to be moved
         """
+        self.__check_not_in(labeled_set.index, 0, self.__inferred_start, 'labeled')
+
         for idx in labeled_set.index:
             pos = self.__index_to_row[idx]
 
@@ -92,6 +94,9 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         """
         Move indexes to INFERRED partition. Throws exception if any index is already in this partition.
         """
+        indexes = list(indexes)
+        self.__check_not_in(indexes, self.__inferred_start, self.__unknown_start, 'inferred')
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
@@ -106,6 +111,9 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
         """
+        indexes = list(indexes)
+        self.__check_not_in(indexes, self.__unknown_start, len(self), 'unknown')
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
@@ -139,6 +147,19 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         self.__dataset.swap_rows(i, j)
         self.__index_to_row.swap_index(idx_i, idx_j)
 
+    def __check_not_in(self, indexes: Iterable, start: int, end: int, partition_name: str) -> None:
+        """
+        Checks that all indexes can be moved before moving any of them, so that a rejected move has no effect.
+        """
+        seen = set()
+        for idx in indexes:
+            pos = self.__index_to_row[idx]
+
+            if start <= pos < end or idx in seen:
+                self.__raise_error(idx, pos, partition_name)
+
+            seen.add(idx)
+
     def __raise_error(self, idx, pos: int, partition_name: str) -> None:
         raise ValueError("Index {}, at position {}, is already in {} set.".format(idx, pos, partition_name))
 
-- 
2.43.0


From 3f7d39c50aa10377d6fa34ee07481b91271b9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 06/72] fix: moving points out of the labeled partition also
 drops their labels, keeping the training set aligned

---
 aideme/explore/partitioned.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index b77890f..7b92069 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -107,6 +107,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'inferred')
 
+        self.__drop_moved_labels()
+
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
@@ -122,6 +124,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
+        self.__drop_moved_labels()
+
     def __move_left(self, pos: int, to_labeled: bool) -> None:
         if pos >= self.__unknown_start:
             self.__swap_rows(pos, self.__unknown_start)
@@ -147,6 +151,17 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         self.__dataset.swap_rows(i, j)
         self.__index_to_row.swap_index(idx_i, idx_j)
 
+    def __drop_moved_labels(self) -> None:
+        """
+        Forgets the labels of points which have left the LABELED partition, keeping labels and labeled rows aligned.
+        """
+        if len(self.__labeled_set) > self.labeled_size:
+            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)
+
+            labeled = set(self.labeled.index)
+            last = self.__last_user_labeled_set
+            self.__last_user_labeled_set = last.get_index([idx for idx in last.index if idx in labeled])
+
     def __check_not_in(self, indexes: Iterable, start: int, end: int, partition_name: str) -> None:
         """
         Checks that all indexes can be moved before moving any of them, so that a rejected move has no effect.
-- 
2.43.0


From 5295bb49db03df4a82835358522cf89fda625513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 07/72] fix: QueryByDisagreement no longer crashes once fewer
 unlabeled points remain than the background sample size

---
 aideme/active_learning/query_by_disagreement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index f20f68b..a5e32f6 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -38,12 +38,12 @@ class QueryByDisagreement(ActiveLearner):
         X_train = np.r_[X, background_points]
 
         sample_weights = np.ones(len(X_train))
-        sample_weights[-self._background_sample_size:] *= self._background_sample_weight
+        sample_weights[len(X):] *= self._background_sample_weight
 
-        y_train = np.r_[y, np.ones(self._background_sample_size)]
+        y_train = np.r_[y, np.ones(len(background_points))]
         self._positively_biased_learner.fit(X_train, y_train, sample_weights)
 
-        y_train[-self._background_sample_size:] = 0
+        y_train[len(X):] = 0
         self._negatively_biased_learner.fit(X_train, y_train, sample_weights)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From a8ed37a26d7e234381abf5e778c4834106bd98f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 08/72] fix: predict_proba of learners wrapping scikit-learn
 classifiers returns the positive class probability, as documented

---
 aideme/active_learning/active_learner.py        | 9 +++++++++
 aideme/active_learning/query_by_disagreement.py | 4 ++--
 aideme/active_learning/random.py                | 4 ++--
 aideme/active_learning/uncertainty.py           | 4 ++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/active_learner.py b/aideme/active_learning/active_learner.py
index 8ad1243..85615e3 100644
--- a/aideme/active_learning/active_learner.py
+++ b/aideme/active_learning/active_learner.py
@@ -116,3 +116,12 @@ class FactorizedActiveLearner(ActiveLearner):
         :param factorization_info: any extra factorization information the AL may rely on
         """
         pass
+
+
+def positive_class_proba(clf, X: np.ndarray) -> np.ndarray:
+    """
+    :return: the positive class probability of each point. Scikit-learn classifiers return a matrix with one column per
+    class seen during training, from which we keep the positive class only.
+    """
+    probas = clf.predict_proba(X)
+    return probas if np.ndim(probas) == 1 else probas[:, clf.classes_ == 1].sum(axis=1)
diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index a5e32f6..627cf6b 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -13,7 +13,7 @@
 import numpy as np
 import sklearn
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 from ..utils import assert_positive, assert_positive_integer
 
 
@@ -50,7 +50,7 @@ class QueryByDisagreement(ActiveLearner):
         return self._learner.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._learner.predict_proba(X)
+        return positive_class_proba(self._learner, X)
 
     def rank(self, X: np.ndarray) -> np.ndarray:
         """ Pick a random point for which the positively and negatively biased classifiers differ. """
diff --git a/aideme/active_learning/random.py b/aideme/active_learning/random.py
index 617d14f..b70031e 100644
--- a/aideme/active_learning/random.py
+++ b/aideme/active_learning/random.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 
 from aideme.utils import assert_positive_integer
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 if TYPE_CHECKING:
     import numpy as np
@@ -47,7 +47,7 @@ class RandomSampler(ActiveLearner):
         return self._clf.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._clf.predict_proba(X)
+        return positive_class_proba(self._clf, X)
 
     def _select_next(self, dataset: IndexedDataset) -> IndexedDataset:
         return dataset.sample(self._batch_size)
diff --git a/aideme/active_learning/uncertainty.py b/aideme/active_learning/uncertainty.py
index 633edaa..70ddf09 100644
--- a/aideme/active_learning/uncertainty.py
+++ b/aideme/active_learning/uncertainty.py
@@ -13,7 +13,7 @@
 
 import numpy as np
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 
 class UncertaintySampler(ActiveLearner):
@@ -40,7 +40,7 @@ class UncertaintySampler(ActiveLearner):
         return self.clf.predict(X)
 
     def predict_proba(self, X):
-        return self.clf.predict_proba(X)
+        return positive_class_proba(self.clf, X)
 
     def rank(self, X):
         return np.abs(self.predict_proba(X) - 0.5)
-- 
2.43.0


From b483410c7dbdd4f22922a6f5349ff1e8cc0266a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 09/72] fix: RatioMargin takes the classes from its fitted
 classifier, as the clone it ranks with is not fitted yet

---
 aideme/active_learning/margin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index a522958..215a4bb 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -74,8 +74,8 @@ class RatioMargin(SimpleMargin):
         return -np.array([self.__compute_margin_ratio(clf, x) for x in X])
 
     def __compute_margin_ratio(self, clf, x):
-        margin0 = self.__compute_margin(clf, x, clf.classes_[0])
-        margin1 = self.__compute_margin(clf, x, clf.classes_[1])
+        margin0 = self.__compute_margin(clf, x, self.clf.classes_[0])
+        margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
             return float('inf')
-- 
2.43.0


From f720590b14202a3685a8e4b2cabacb9c4fdb155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 10/72] fix: set add_bias before the proximal penalty setup
 which reads it, so that learners can use FISTA and ProximalGradientDescent

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 3b5694a..1aae4a5 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -27,8 +27,8 @@ if TYPE_CHECKING:
 class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self.add_bias = add_bias
+        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self._weights = None
         self._bias = None
 
-- 
2.43.0


From 64369fcc0abcb1d5699a71c064b0daaa1ce2085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 11/72] fix: copying a learner trained with a proximal
 optimizer no longer crashes

---
 aideme/active_learning/factorization/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 1aae4a5..7cd6d71 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -79,8 +79,7 @@ class LinearFactorizationLearner:
         return 0 if self._weights is None else self._weights.shape[0]
 
     def copy(self) -> LinearFactorizationLearner:
-        learner = LinearFactorizationLearner(optimizer=self.optimizer, add_bias=self.add_bias)
-        learner.penalty_term = self.penalty_term
+        learner = LinearFactorizationLearner(optimizer=self.optimizer, penalty_term=self.penalty_term, add_bias=self.add_bias)
 
         learner._weights = self.weights
         if self.add_bias:
-- 
2.43.0


From 6dbca339a9375e27f390ecbfbfdc122998bb181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 12/72] fix: pruning subspaces of a learner without bias no
 longer crashes

---
 aideme/active_learning/factorization/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 49f1073..962b0c7 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -38,7 +38,8 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
 
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
-    pruned_learner._bias = learner._bias[relevant_rows]
+    if learner.add_bias:
+        pruned_learner._bias = learner._bias[relevant_rows]
 
     return pruned_learner
 
-- 
2.43.0


From cf6f89551a232b6c0b0a78ad86e8876752252ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 13/72] fix: BFGS flattens the weight matrix it starts from, as
 scipy only accepts vectors

---
 aideme/active_learning/factorization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/optimization.py b/aideme/active_learning/factorization/optimization.py
index e3eefc7..9070715 100644
--- a/aideme/active_learning/factorization/optimization.py
+++ b/aideme/active_learning/factorization/optimization.py
@@ -98,7 +98,7 @@ class OptimizationAlgorithm:
 class BFGS(OptimizationAlgorithm):
     def minimize(self, x0: np.ndarray, func: Callable, grad: Union[bool, Callable]) -> OptimizeResult:
         jac = lambda x: grad(x).ravel()
-        return minimize(func, x0, jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
+        return minimize(func, x0.ravel(), jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
 
 
 class SearchDirectionOptimizer(OptimizationAlgorithm):
-- 
2.43.0


From 8743fbe1ce4739f9dd4000a2c21f76c787265ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 14/72] fix: penalties no longer read uninitialised memory for
 rows with zero norm

---
 aideme/active_learning/factorization/penalty.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index a2382d0..c7bb1df 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -89,20 +89,20 @@ class L2SqrtPenalty(PenaltyTerm):
         res = np.zeros_like(x)
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
-            factor = np.true_divide(self._penalty, norm, where=norm > 0)
+            factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
             res[:, g] = x[:, g] * factor.reshape(-1, 1)
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
         norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, where=norm > 0)  # avoid dividing by zero
+        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
         factor = np.maximum(0, 1 - factor)
         return x * factor.reshape(-1, 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
         not_zero = (norm > 0)
-        n = np.true_divide(x, norm, where=not_zero)  # avoid dividing by zero
+        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
         u = np.linalg.norm(v - self._penalty * n, axis=1)
         u[~not_zero.ravel()] -= self._penalty
         return np.all(u <= tol)
@@ -156,7 +156,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
-        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
+        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
-- 
2.43.0


From 9839b5ee8beb8ebc43d86c346c39ee02675ac502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 15/72] fix: proximal operator and subgradient test of the
 group penalty take its groups into account, as its loss and gradient do

---
 .../active_learning/factorization/penalty.py  | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index c7bb1df..ec1d751 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -94,18 +94,24 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-        norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
-        factor = np.maximum(0, 1 - factor)
-        return x * factor.reshape(-1, 1)
+        res = np.array(x)
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1)
+            factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
+            factor = np.maximum(0, 1 - factor)
+            res[:, g] = x[:, g] * factor.reshape(-1, 1)
+        return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
-        not_zero = (norm > 0)
-        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
-        u = np.linalg.norm(v - self._penalty * n, axis=1)
-        u[~not_zero.ravel()] -= self._penalty
-        return np.all(u <= tol)
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1).reshape(-1, 1)
+            not_zero = (norm > 0)
+            n = np.true_divide(x[:, g], norm, out=np.zeros_like(x[:, g]), where=not_zero)  # avoid dividing by zero
+            u = np.linalg.norm(v[:, g] - self._penalty * n, axis=1)
+            u[~not_zero.ravel()] -= self._penalty
+            if not np.all(u <= tol):
+                return False
+        return True
 
 
 class SparseGroupLassoPenalty(PenaltyTerm):
-- 
2.43.0


From f9a131989bc655c310d72dcddcbdce42a79b91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 16/72] fix: factorization reindexing follows the user order
 (inverse of the subspace to user subspace mapping)

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index de71e14..91d803f 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -253,7 +253,7 @@ class FactorizationManager:
             if i not in mapping:  # subspace is not compatible with any user subspace
                 return False
 
-        self.fact_reindexing = [mapping[i] for i in range(len(mapping))]
+        self.fact_reindexing = [inv_mapping[j] for j in range(len(inv_mapping))]
 
         return True
 
-- 
2.43.0


From 53edbf41be14ad9aaad3fce6f730f0274d7af8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 17/72] fix: the swap learner no longer crashes when no user
 factorization was given

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 91d803f..d373acb 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -237,7 +237,7 @@ class FactorizationManager:
         return self.__fact_count >= self._stable_count
 
     def __is_fact_compatible(self, factorization: List[List[int]]) -> bool:
-        if len(factorization) != len(self._user_fact):
+        if self._user_fact is None or len(factorization) != len(self._user_fact):
             return False
 
         mapping, inv_mapping = {}, {}
-- 
2.43.0


From 7e256aec6f73cfac4d7726273ba4f2edf75b6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 18/72] fix: refine_step_size no longer changes the default
 parameters shared by all SimplifiedSwapLearner instances

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index d373acb..baecf6b 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -298,7 +298,7 @@ class SimplifiedSwapLearner(SwapLearner):
         else:
             params = self.REFINE_CARS if cars else self.REFINE_DEFAULT_PARAMS
         if refine_step_size:
-            params['step_size'] = refine_step_size
+            params = {**params, 'step_size': refine_step_size}
 
         refined_model_optimizer = self.get_optimizer(use_fista=use_fista, max_iter=refine_max_iter, **params)
         penalty_term = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty, groups=one_hot_groups)
-- 
2.43.0


From e021729031edb5f30af30fe1af4cd49369bd6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 19/72] fix: Laplace posterior variance solves against the
 lower Cholesky factor it asks for

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 010c971..05f4d3b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -92,7 +92,7 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = self._compute_map_estimator(X, y)
 
         H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H)
+        self._L = cholesky(H, lower=True)
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From 5ebcd72ab3326033fbbb9e5026a1caa9a13b7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 20/72] fix: polytope keeps negative points labeled before any
 positive one

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index e678928..b19e024 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -101,7 +101,8 @@ class Polytope(PolytopeBase):
     def __update_negative(self, X: np.ndarray) -> None:
         for x in X:
             cone = NegativeCone(x, self.positive_region._tol)
-            cone.add_points_to_hull(self.positive_region.vertices)
+            if self.positive_region.vertices is not None:
+                cone.add_points_to_hull(self.positive_region.vertices)
             self.negative_region.append(cone)
 
 
-- 
2.43.0


From 4135073ab140849f6b6388521784c53e22650100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 21/72] fix: a conflict in one polytope no longer hides the
 labeled batch from the remaining ones

---
 aideme/active_learning/dsm/model.py    | 2 +-
 aideme/active_learning/dsm/polytope.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 961fbf9..bdb7265 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -96,7 +96,7 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         if not self.is_valid:
             raise RuntimeError("Cannot update invalid polytope.")
 
-        return all(pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements())
+        return all([pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()])
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         val = 1.0 if self.is_all_valid else 0.5
diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index b19e024..a8309c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -187,7 +187,8 @@ class PersistentPolytope(PolytopeBase):
             raise RuntimeError("Attempting to update invalid polytope.")
 
         if self._pol.is_valid and self._flipped.is_valid:
-            return self._pol.update(X, y) and self._flipped.update(X, y)
+            is_pol_success, is_flipped_success = self._pol.update(X, y), self._flipped.update(X, y)
+            return is_pol_success and is_flipped_success
 
         if self._pol.is_valid:
             return self._pol.update(X, y)
-- 
2.43.0


From c4e8a93b3fe13b0cf785c3eecb240f4fbc95a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 22/72] fix: multi-set polytope detects a negative point whose
 items are all known to be positive

---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index a8309c4..c381580 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -333,6 +333,9 @@ class MultiSetPolytope(PolytopeBase):
             return self.__update_positive_set(idx)
 
         idx -= self._pos_indexes
+        if not idx:
+            return False
+
         if len(idx) == 1:
             return self.__update_negative_set(idx)
 
-- 
2.43.0


From 5b4c2dc07f46dc1752d194d64e66ffa3bfe22603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 23/72] fix: documented name of the 'SQUARE' subspatial loss

---
 aideme/active_learning/version_space/subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 19fb8c8..4e9fa5f 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -188,7 +188,7 @@ class SubspatialVersionSpace(SubspaceLearner):
 
         :param loss: loss function used to select the next point to be labeled. Possible values are:
                 - 'GREEDY': prod(1 - 2 p_k (1 - p_k))
-                - 'SQUARED': sum_k (p_k - 0.5)^2
+                - 'SQUARE': sum_k (p_k - 0.5)^2
                 - 'PRODUCT': | (prod_k p_k) - 0.5 |. This assumes assumes either 'AND' label function or 'PROD' probability function
                 - Any callable computing the final ranks from a matrix of partial probabilities (n_partitions x n_points)
 
-- 
2.43.0


From 11d42d52f61858e2c106b8c8715d1a23f967db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 24/72] fix: the exploration manager no longer appends to the
 caller's list of convergence criteria, and accepts any sequence of them

---
 aideme/explore/manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aideme/explore/manager.py b/aideme/explore/manager.py
index 7558a28..8c95683 100644
--- a/aideme/explore/manager.py
+++ b/aideme/explore/manager.py
@@ -59,8 +59,7 @@ class ExplorationManager:
         self.callbacks = process_callback(callback)
         self.callback_skip = callback_skip
 
-        self.convergence_criteria = process_callback(convergence_criteria)
-        self.convergence_criteria.append(all_points_are_labeled)
+        self.convergence_criteria = [*process_callback(convergence_criteria), all_points_are_labeled]
 
         self.__iters = 0
 
-- 
2.43.0


From 7c1844d74b1e9faf3c6b8e33847c1c449088a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 25/72] fix: three-set metric is zero, not NaN, when all points
 are known to be negative

---
 aideme/utils/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/metrics.py b/aideme/utils/metrics.py
index 37030e7..a6a791f 100644
--- a/aideme/utils/metrics.py
+++ b/aideme/utils/metrics.py
@@ -45,7 +45,7 @@ def three_set_metric(dataset: PartitionedDataset, active_learner: ActiveLearner)
 
     pos = (pred == 1).sum()
     unknown = (pred == 0.5).sum()
-    tsm = pos / (pos + unknown)
+    tsm = pos / (pos + unknown) if pos + unknown > 0 else 0.
 
     return {'tsm': tsm}
 
-- 
2.43.0


From b95967be383bf1edce1c8835ee5d1f857f629939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 26/72] fix: SubspatialSimpleMargin can compute positive class
 probabilities for its 'AND' and 'OR' label functions

---
 aideme/active_learning/version_space/subspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 4e9fa5f..6cc8f7f 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -284,8 +284,9 @@ class SubspatialSimpleMargin(SubspaceLearner):
                 - Any callable computing the final labels from a matrix of partial labels (n_partitions x n_points)
         """
         base_learner = Cloneable(SimpleMargin, C=C, kernel=kernel, gamma=gamma)
+        probability_function = {'AND': 'MIN', 'OR': 'MAX'}.get(label_function.upper()) if isinstance(label_function, str) else None
         super().__init__(base_learner=base_learner, partition=partition,
-                         label_function=label_function, probability_function=None, ranking_function='SUM')
+                         label_function=label_function, probability_function=probability_function, ranking_function='SUM')
 
 
 class Cloneable:
-- 
2.43.0


From 94bcf3c4a54cb64b41db7914cc7cc5825f0ae015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 27/72] fix: categorical inference looks up hashable values and
 pairs each subspace with its own partition

---
 aideme/active_learning/inference/inference.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aideme/active_learning/inference/inference.py b/aideme/active_learning/inference/inference.py
index fe9ec12..e52680b 100644
--- a/aideme/active_learning/inference/inference.py
+++ b/aideme/active_learning/inference/inference.py
@@ -43,10 +43,10 @@ class Inference:
         return self.predict_partial(X).min(axis=1)
 
     def predict_partial(self, X: np.ndarray) -> np.ndarray:
-        return np.hstack([subspace.predict(X[:, p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]).T
+        return np.array([self._predict_single(x) for x in X]).reshape(len(X), len(self.partition))
 
     def _predict_single(self, x: np.ndarray):
-        return [subspace._predict_single(x[p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]
+        return [subspace._predict_single(tuple(x[p])) for (p, subspace) in zip(self.partition, self._subspatial_inference)]
 
     def update(self, X: np.ndarray, y: np.ndarray) -> None:
         X = np.atleast_2d(X)
@@ -61,7 +61,7 @@ class Inference:
         # for positive points, we infer all partial labels as positive (conjunctive property)
         if y == 1:
             for p, subspace in zip(self.partition, self._subspatial_inference):
-                subspace._update_single(x[p], 1)
+                subspace._update_single(tuple(x[p]), 1)
 
             self.__attempt_to_remove_neg_samples()
 
@@ -109,7 +109,7 @@ class Inference:
         idx_unknown, n_unknown = -1, 0
 
         for i, (p, subspace) in enumerate(zip(self.partition, self._subspatial_inference)):
-            y_partial = subspace._predict_single(x[p])
+            y_partial = subspace._predict_single(tuple(x[p]))
 
             if y_partial == 0:
                 return True, True
@@ -120,7 +120,7 @@ class Inference:
 
         if n_unknown == 1:
             # a single unknown partition remains, so its partial label must be negative
-            self._subspatial_inference[idx_unknown]._update_single(x[self.partition[idx_unknown]], 0)
+            self._subspatial_inference[idx_unknown]._update_single(tuple(x[self.partition[idx_unknown]]), 0)
             return True, False
 
         if n_unknown == 0:
-- 
2.43.0


From f67ebeb6aaab521976029a88529648355e79b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 28/72] fix: factorization gradients no longer vanish for
 negative points with margins above 37

---
 aideme/active_learning/factorization/linear.py        | 11 ++++-------
 .../factorization/partitioning/linear.py              |  4 +---
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 7cd6d71..0d2bf25 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -265,14 +265,11 @@ class LinearFactorizationLoss:
         return grad_b, grad_w
 
     def __compute_grad_weights(self, margins: np.ndarray, y: np.ndarray):
-        probas = expit(margins)
+        # computed from log-probabilities, since 1 - p is zero in floating-point arithmetic once margins are above 37
+        weights = np.asarray(utils.grad_weights(utils.compute_log_probas(margins), y))
+        weights = np.minimum(weights, np.finfo(float).max) / margins.shape[0]
 
-        weights = probas.prod(axis=1)
-        np.true_divide(weights, 1 - weights, out=weights, where=weights < 1)
-        weights[y > 0] = -1
-        weights /= margins.shape[0]
-
-        return (1 - probas) * weights.reshape(-1, 1)
+        return expit(-margins) * weights.reshape(-1, 1)
 
     def get_weights_matrix(self, weights: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         if self.factorization is None:
diff --git a/aideme/active_learning/factorization/partitioning/linear.py b/aideme/active_learning/factorization/partitioning/linear.py
index 7bc7c8d..e009b19 100644
--- a/aideme/active_learning/factorization/partitioning/linear.py
+++ b/aideme/active_learning/factorization/partitioning/linear.py
@@ -96,10 +96,8 @@ class FactorizedLinearClassifier:
         grads = np.ones((self.dim, len(X)))
 
         for begin, end, X_partial, w_partial in self.__generate_subspace_data(X, include_endpoints=True):
-            partial_proba = self._logistic_proba(X_partial, w_partial)
-
             grads[begin+1:end] = X_partial.T
-            grads[begin:end] *= (1 - partial_proba)
+            grads[begin:end] *= expit(-self._margin(X_partial, w_partial))  # 1 - proba, without cancellation
 
         return grads
 
-- 
2.43.0


From 89396bc178ce2e617a1250e71bbb39ef98a4bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 29/72] fix: setting partial labels no longer modifies the
 LabeledSet of whoever labeled the points

---
 aideme/explore/partitioned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 7b92069..7eb465d 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -303,7 +303,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Sets the partial labels for the current user labeled set of points
         :param y_partial: array of partial labels
         """
-        self.__labeled_set.set_partial_labels(y_partial)
+        # build a new object, since the current one may belong to whoever labeled the points
+        self.__labeled_set = LabeledSet(self.__labeled_set.labels, y_partial, self.__labeled_set.index)
 
     def predict_user_labels(self, active_learner: ActiveLearner) -> LabeledSet:
         """
-- 
2.43.0


From 6daec395df37e731dfd86b995195c3183492c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 30/72] fix: metrics left over by an abandoned run no longer
 stop the next exploration before it starts

---
 aideme/explore/explore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index 8c6af47..761ad26 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -91,6 +91,7 @@ class PoolBasedExploration:
         set_random_state(seed)
 
         manager.clear()
+        metric_logger.flush()  # metrics of an abandoned run must not stop this one
 
         while not manager.converged():
             metric_logger.flush()  # avoid overlapping metrics between iterations
-- 
2.43.0


From 31d094d0c146475ebe06e55803c5822063ac7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 31/72] fix: kernel version space no longer predicts NaN for
 training points because of rounding errors

---
 aideme/active_learning/version_space/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index f483650..6e3a74a 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -70,6 +70,7 @@ class KernelBayesianLogisticRegression:
             scipy.linalg.solve_triangular(self.__L_train, K.T, lower=True, trans=0, overwrite_b=True)  # inplace L^-1 K
 
             delta = self.kernel.diagonal(X) - np.einsum('ir, ir -> i', K, K)
+            np.maximum(delta, 0, out=delta)  # rounding errors may lead to tiny negative values
             np.sqrt(delta, out=delta)
 
             K = np.c_[K, delta]  # TODO: how to avoid copying data?
-- 
2.43.0


From c23a970100a1cecd9f9cd6ed3b245d53e6b6cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 32/72] fix: rounding restarts from the unit ball when the
 cached ellipsoid cannot be updated, instead of failing the exploration

---
 aideme/active_learning/version_space/hit_and_run/hit_and_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
index 25fb756..6fc8598 100644
--- a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
+++ b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
@@ -125,7 +125,7 @@ class HitAndRunSampler:
 
         if new_dim != d + 1:
             # TODO: is it possible to perform more general updates?
-            raise RuntimeError("Only +1 updates are supported.")
+            return None
 
         # kernel case: dimension grows with number of labeled points
         elp = Ellipsoid(new_dim, compute_scale_matrix=False)
-- 
2.43.0


From 1a7c0cdcc5f82a7a8b49d88c778d253a87ce78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 33/72] fix: rounding no longer divides by zero for
 one-dimensional version spaces

---
 .../version_space/hit_and_run/ellipsoid.py                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aideme/active_learning/version_space/hit_and_run/ellipsoid.py b/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
index 84839e2..5d0c5fb 100644
--- a/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
+++ b/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
@@ -76,6 +76,14 @@ class Ellipsoid:
         tau = (1 + self.dim * alpha) / (self.dim + 1)
         self.center -= tau * Pg
 
+        # one-dimensional ellipsoids are intervals, for which the general formulas below divide by zero
+        if self.dim == 1:
+            factor = np.square((1. - alpha) / 2.)
+            self.D *= factor
+            if self.scale is not None:
+                self.scale *= factor
+            return True
+
         # update LDL^T
         sigma = 2 * tau / (alpha + 1)
         delta = (1. - alpha * alpha) * ((self.dim * self.dim) / (self.dim * self.dim - 1.))
-- 
2.43.0


From 74c7f68363bb5c34d7b848d5adaed97ab51c01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 34/72] fix: the dual space model never trains on inferred
 labels which contradict the user's labels

---
 aideme/active_learning/dsm/base.py | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/aideme/active_learning/dsm/base.py b/aideme/active_learning/dsm/base.py
index 1379c0e..97b53ae 100644
--- a/aideme/active_learning/dsm/base.py
+++ b/aideme/active_learning/dsm/base.py
@@ -40,38 +40,33 @@ class DualSpaceModelBase(ActiveLearner):
         """
         Fits both active learner and polytope model.
         """
-        self.__fit_active_learner(data)
-
-        if not self.polytope_model.is_valid:
-            return
-
-        is_success = self.polytope_model.update_data(data)
+        is_success = self.polytope_model.update_data(data) if self.polytope_model.is_valid else True
 
         # if conflicting points were found, we must relabel the inferred partition and the DSM labeled points
         if not is_success:
             warnings.warn("Found conflicting point in polytope model. is_valid = {0}".format(self.polytope_model.is_valid))
 
             data.remove_inferred()
-            self.__verify_dsm_labeled_points(data)
+            self.__verify_dsm_labeled_points()
+
+        # train only on labels which are consistent with the updated polytope model
+        self.__fit_active_learner(data)
 
-            # if polytope became invalid with the last update, skip relabeling
-            if not self.polytope_model.is_valid:
-                return
+        # if polytope is or became invalid with the last update, skip relabeling
+        if not self.polytope_model.is_valid:
+            return
 
         if data.unknown_size > 0:
             unknown = data.unknown
             pred = self.polytope_model.predict(unknown.data)
             data.move_to_inferred(unknown.index[pred != 0.5])
 
-    def __verify_dsm_labeled_points(self, data: PartitionedDataset) -> None:
+    def __verify_dsm_labeled_points(self) -> None:
         if self._dsm_labeled_cache.is_empty:
             return
 
-        is_known = self.polytope_model.predict(self._dsm_labeled_cache.X) != 0.5
-
-        if not np.all(is_known):
-            self._dsm_labeled_cache.filter(is_known)
-            self.__fit_active_learner(data)  # retrain AL since labeled changed
+        # labels inferred before the conflict may have become unknown, or even have changed
+        self._dsm_labeled_cache.filter(self.polytope_model.predict(self._dsm_labeled_cache.X) == self._dsm_labeled_cache.y)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         """
@@ -163,6 +158,13 @@ class TrainingSetCache:
         """
         return np.vstack(self._X)
 
+    @property
+    def y(self) -> np.ndarray:
+        """
+        :return: the training labels as numpy array
+        """
+        return np.array(self._y)
+
     def clear(self) -> None:
         """
         Empties the cache
-- 
2.43.0


From 3c6f8451e0eab824faa0a54c73a0e383bbab21a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 35/72] fix: adapting the iterations of a refining model no
 longer changes the swap model of the next run

---
 aideme/active_learning/factorization/active_learning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index baecf6b..03c9609 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -152,9 +152,12 @@ class SwapLearner(ActiveLearner):
 
     def __fit_refining_model(self, data: PartitionedDataset) -> None:
         X, y = data.training_set()
+        optimizer = self._refining_model.optimizer
+        max_iter = optimizer._max_iter
         if self._max_iter_adapter is not None:
-            self._refining_model.optimizer._max_iter = self._max_iter_adapter(self.__it - self._swap_iter - 1)
+            optimizer._max_iter = self._max_iter_adapter(self.__it - self._swap_iter - 1)
         self._refining_model.fit(X, y, self._refining_model.num_subspaces, x0=self._refining_model.weight_matrix)
+        optimizer._max_iter = max_iter  # the swap model of the next run may share this optimizer
 
         if self._prune:
             self._refining_model = prune_irrelevant_subspaces(data.data, self._refining_model, threshold=self._prune_threshold)
-- 
2.43.0


From 7b596a1bd4e6267d347f6415f137ce86092c0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 36/72] fix: pruning never removes all subspaces, which made
 the next training fail

---
 aideme/active_learning/factorization/learn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 962b0c7..ac7ae49 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -36,6 +36,10 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
     )
     relevant_rows = np.where(is_relevant)[0]
 
+    # a learner without subspaces could not be trained any further
+    if len(relevant_rows) == 0:
+        return learner.copy()
+
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
     if learner.add_bias:
-- 
2.43.0


From 97b00b42fd193eecbf16eef7f0a9c692878a4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 37/72] fix: degenerate positive points no longer make the
 polytope model lose labels

---
 aideme/active_learning/dsm/convex/convex.py   |  5 +++++
 aideme/active_learning/dsm/convex/geometry.py | 14 +++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 27d437b..00c1205 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -14,6 +14,11 @@
 import numpy as np
 import scipy.spatial
 
+try:
+    from scipy.spatial import QhullError
+except ImportError:
+    from scipy.spatial.qhull import QhullError  # older scipy versions
+
 from aideme.utils import assert_positive
 
 
diff --git a/aideme/active_learning/dsm/convex/geometry.py b/aideme/active_learning/dsm/convex/geometry.py
index 9ba6f6f..56340e7 100644
--- a/aideme/active_learning/dsm/convex/geometry.py
+++ b/aideme/active_learning/dsm/convex/geometry.py
@@ -13,7 +13,7 @@
 import numpy as np
 
 from aideme.utils import assert_positive
-from .convex import ConvexHull, ConvexCone
+from .convex import ConvexHull, ConvexCone, QhullError
 from .one_dim_convex import OneDimensionalConvexHull, OneDimensionalConvexCone
 
 
@@ -51,7 +51,11 @@ class PositiveRegion:
         self._cache.update(pos_points)
 
         if self._cache.size > self._cache.dim:
-            self._hull = self.__build_convex_hull()
+            try:
+                self._hull = self.__build_convex_hull()
+            except QhullError:
+                return  # points are still degenerate (ex.: collinear): keep collecting
+
             self._cache.clear()
 
     def __build_convex_hull(self):
@@ -97,7 +101,11 @@ class NegativeCone:
         self._cache.update(points)
 
         if self._cache.size >= self._cache.dim:
-            self._cone = self.__build_convex_cone()
+            try:
+                self._cone = self.__build_convex_cone()
+            except QhullError:
+                return  # points are still degenerate (ex.: collinear): keep collecting
+
             self._cache.clear()
 
     def __build_convex_cone(self):
-- 
2.43.0


From 91451d1c3cc74bc00e227ecf39833e90a4a681ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 38/72] fix: convex hulls are rebuilt when points are added,
 since Qhull's incremental mode fails or crashes on degenerate points

---
 aideme/active_learning/dsm/convex/convex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 00c1205..111e2c0 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -49,7 +49,7 @@ class ConvexHull:
         self.__set_params(state['vertices'], state['tol'])
 
     def __set_params(self, points: np.ndarray, tol: float):
-        self.hull = scipy.spatial.ConvexHull(points, incremental=True)
+        self.hull = scipy.spatial.ConvexHull(points)
         self.tol = tol
 
     @property
@@ -70,8 +70,8 @@ class ConvexHull:
         Adds the points to the convex hull
         :param points: list of points to be added to the convex hull
         """
-        points = np.atleast_2d(points)
-        self.hull.add_points(points)
+        # Qhull's incremental mode fails (and may even crash the process) on degenerate points, so hull is rebuilt instead
+        self.__set_params(np.vstack([self.hull.points, points]), self.tol)
 
     def is_inside(self, points):
         """
-- 
2.43.0


From 2b261a3e29c646312b6dc6544ea2f8b86876a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 39/72] fix: cones which were pickled and restored keep their
 own vertex when points are added

---
 aideme/active_learning/dsm/convex/convex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 111e2c0..9d91c10 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -35,10 +35,10 @@ class ConvexHull:
         """
         Since scipy.spatial.ConvexHull objects are not picklable, we choose to serialize the minimum amount of data
         necessary for properly reconstructing the object. More precisely, we pickle both the "tol" parameter and the set
-        of "vertices" composing the convex hull.
+        of "vertices" composing the convex hull, in the order they were added: cones rely on their vertex being the first one.
         """
         return {
-            'vertices': self.vertices,
+            'vertices': self.hull.points[np.sort(self.hull.vertices)],
             'tol': self.tol
         }
 
-- 
2.43.0


From 0ab5b7b74ace996b1e858b7d0d70354fa5b72a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 40/72] fix: degenerate version spaces are reported even if
 rounding errors make the linear program look feasible

---
 .../version_space/hit_and_run/polyhedral_cone.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
index 39f9c2f..e130480 100644
--- a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
+++ b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
@@ -67,7 +67,7 @@ class BoundedPolyhedralCone:
         )
 
         # if optimization failed, raise error
-        if not res.success or res.x[0] >= 0:
+        if not res.success or res.x[0] >= 0 or not self.is_inside_polytope(res.x[1:]):
             print(res)
             raise RuntimeError("Linear programming failed! Check constrains for degeneracy of Version Space.")
 
-- 
2.43.0


From c72b68252eca746d35f74bc9c6743be78f89899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 41/72] fix: a line parallel to a violated constraint does not
 intersect the version space

---
 .../version_space/hit_and_run/polyhedral_cone.py              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
index e130480..7fda2f4 100644
--- a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
+++ b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
@@ -113,6 +113,10 @@ class BoundedPolyhedralCone:
     def __get_polytope_extremes(self, center: np.ndarray, direction: np.ndarray) -> Tuple[float, float]:
         num = self.A.dot(center)
         den = self.A.dot(direction)
+
+        if np.any(num[den == 0] > 0):
+            raise RuntimeError("Line does not intersect convex body.")
+
         extremes = -num / den
 
         lower = extremes[den < 0]
-- 
2.43.0


From e7e9c93fb73629b4bba08958453f152166c5ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 42/72] fix: factorized kernel transformers can be fitted and
 transform at once, and with more Nystroem components than points

---
 aideme/active_learning/kernel.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index e11d485..4a3e482 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -297,13 +297,7 @@ class FactorizedKernelTransform(KernelTransformer):
             transformer.fit(X[:, subspace])
 
     def transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.transform(X[:, subspace])
-        return K
+        return np.stack([t.transform(X[:, s]) for t, s in zip(self._transformers, self._factorization)], axis=-1)
 
     def fit_transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.fit_transform(X[:, subspace])
-        return K
+        return np.stack([t.fit_transform(X[:, s]) for t, s in zip(self._transformers, self._factorization)], axis=-1)
-- 
2.43.0


From 7254cb568d90f15bd19052c91cc6205d0ffcd4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 43/72] fix: Nystroem transformers accept the same kernel names
 as exact ones

---
 aideme/active_learning/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 4a3e482..1922d90 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -211,6 +211,7 @@ class KernelTransformer:
     def get(kernel: str = 'rbf', degree: int = 3, gamma: Optional[float] = None, coef0: float = 1, jitter: float = 0,
             nystroem_components: Optional[int] = None) -> KernelTransformer:
         if nystroem_components is not None:
+            kernel = kernel.lower().replace('gaussian', 'rbf')
             return NystroemTransformer(n_components=nystroem_components, kernel=kernel, degree=degree, gamma=gamma, coef0=coef0)
 
         kernel = Kernel.get(kernel, degree=degree, gamma=gamma, coef0=coef0)
-- 
2.43.0


From fb09f41d6163309200cf18fc33e36ff9444eb637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 44/72] fix: subgradient test of the sparse group penalty takes
 its groups into account for zero rows

---
 aideme/active_learning/factorization/penalty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index ec1d751..57f68bc 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -159,7 +159,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         return self.l2_sqrt_penalty.proximal(self.l1_penalty.proximal(x, eta), eta)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
+        lamb2 = self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
         n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
@@ -167,7 +167,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
             return False
 
         v = v[~not_zero]
-        return np.all(np.linalg.norm(v - np.clip(v, -lamb1, lamb1), axis=1) <= lamb2 + tol)
+        return np.all(np.linalg.norm(self.l1_penalty.proximal(v, 1), axis=1) <= lamb2 + tol)
 
 
 class L2Penalty(PenaltyTerm):
-- 
2.43.0


From d465019b0ba86f5ac8bcdbbb61ce2288d2388225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 45/72] fix: features of subspaces are accepted in any memory
 layout

---
 aideme/active_learning/factorization/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 0d2bf25..9314427 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -146,7 +146,7 @@ class LinearFactorizationLearner:
 
     def _margin(self, X: np.ndarray) -> np.ndarray:
         if X.ndim == 3:
-            margin = np.einsum('ijk, kj -> ik', X, self._weights)
+            margin = np.einsum('ijk, kj -> ik', X, self._weights, order='C')
         else:
             margin = X @ self._weights.T
 
@@ -243,7 +243,7 @@ class LinearFactorizationLoss:
 
     def __compute_margin(self, X: np.ndarray, bias: np.ndarray, weights: np.ndarray) -> np.ndarray:
         if X.ndim == 3:
-            margin = np.einsum('ijk, kj -> ik', X, weights)
+            margin = np.einsum('ijk, kj -> ik', X, weights, order='C')
         else:
             margin = X @ weights.T
 
-- 
2.43.0


From 1843b9aa81b3ac22a4287f43d7b9aee8d94f6417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 46/72] fix: factorization losses reject labels of another
 length, instead of reading outside of their memory

---
 aideme/active_learning/factorization/utils.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aideme/active_learning/factorization/utils.pyx b/aideme/active_learning/factorization/utils.pyx
index 887240b..8f4a73a 100644
--- a/aideme/active_learning/factorization/utils.pyx
+++ b/aideme/active_learning/factorization/utils.pyx
@@ -44,6 +44,8 @@ def compute_loss(double[:, ::1] margin, double[::1] y):
         double lp, loss = 0
         double[::1] log_probas = compute_log_probas(margin)
 
+    check_lengths(N, y.shape[0])
+
     for i in range(N):
         lp = log_probas[i]
 
@@ -90,6 +92,8 @@ def compute_classification_loss(double[::1] log_probas, double[::1] y):
         unsigned int i,  N = log_probas.shape[0]
         double loss = 0
 
+    check_lengths(log_probas.shape[0], y.shape[0])
+
     for i in range(N):
         if y[i] > 0:
             loss -= y[i] * log_probas[i]
@@ -108,6 +112,8 @@ def grad_weights(double[::1] x, double[::1] y):
         unsigned int i, N = x.shape[0]
         double[::1] res = np.empty(N)
 
+    check_lengths(x.shape[0], y.shape[0])
+
     for i in range(N):
         res[i] = -y[i] if y[i] > 0 else 1. / expm1(-x[i])
 
@@ -127,6 +133,12 @@ def log_sigmoid(double[::1] x):
     return res
 
 
+def check_lengths(points, labels):
+    # array bounds are not checked below: shorter labels would be read outside of their memory
+    if points != labels:
+        raise ValueError("Expected one label per point, but got {} labels for {} points.".format(labels, points))
+
+
 cdef double log1mexp(double x):
     """
     Computes log(1 - exp(x)) for x < 0
-- 
2.43.0


From 70dc9cc7303b16d0286e27714e3793bb38266cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 47/72] fix: penalties and optimizers can be shared between
 factorized learners, as training with a proximal optimizer no longer removes
 the gradient of the penalty it was given

---
 .../active_learning/factorization/linear.py   | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 9314427..b67349a 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -28,20 +28,20 @@ class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
         self.add_bias = add_bias
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
+        self.penalty_term = penalty_term
         self._weights = None
         self._bias = None
 
-    def __process_proximal_penalty(self, penalty_term: PenaltyTerm, optimizer: OptimizationAlgorithm) -> PenaltyTerm:
-        if isinstance(optimizer, ProximalGradientDescent):
-            # In the special case of ProximalGradientDescent algorithm, we must be careful to not mistakenly add
-            # the penalty gradient to the loss function gradient. Additionally, we must be careful to exclude the bias
-            # column from proximal function computations
-            penalty_term.grad = lambda x: 0
-            optimizer.remove_bias_column = self.add_bias
-            optimizer.penalty_term = penalty_term
+    @property
+    def __uses_proximal_penalty(self) -> bool:
+        return isinstance(self.optimizer, ProximalGradientDescent)
 
-        return penalty_term
+    def __set_proximal_penalty(self) -> None:
+        # In the special case of ProximalGradientDescent algorithm, we must be careful to exclude the bias column from
+        # proximal function computations. This is done before every training, as optimizers can be shared by learners.
+        if self.__uses_proximal_penalty:
+            self.optimizer.remove_bias_column = self.add_bias
+            self.optimizer.penalty_term = self.penalty_term
 
     def clear(self) -> None:
         self._weights = None
@@ -109,6 +109,7 @@ class LinearFactorizationLearner:
         if factorization is not None:
             x0 = x0[:, loss.factorization]
 
+        self.__set_proximal_penalty()
         opt_result = self.__run_optimizer(loss, x0)
         self._bias, self._weights = loss.get_weights_matrix(opt_result.x)
 
@@ -128,7 +129,9 @@ class LinearFactorizationLearner:
         return opt_result
 
     def _get_loss(self, X: np.ndarray, y: np.ndarray, factorization: Optional[List[List[int]]] = None) -> LinearFactorizationLoss:
-        return LinearFactorizationLoss(X=X, y=y, add_bias=self.add_bias, penalty_term=self.penalty_term, factorization=factorization)
+        # Proximal optimizers apply the penalty on their own: its gradient must not be added to the loss function gradient
+        return LinearFactorizationLoss(X=X, y=y, add_bias=self.add_bias, penalty_term=self.penalty_term, factorization=factorization,
+                                       penalty_gradient=not self.__uses_proximal_penalty)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         log_probas = utils.compute_log_probas(self._margin(X))
@@ -157,11 +160,12 @@ class LinearFactorizationLearner:
 
 class LinearFactorizationLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, add_bias: bool = True,
-                 penalty_term: PenaltyTerm = None, factorization: Optional[List[List[int]]] = None):
+                 penalty_term: PenaltyTerm = None, factorization: Optional[List[List[int]]] = None, penalty_gradient: bool = True):
         self.X = X
         self.y = y
         self.add_bias = add_bias
         self.penalty_term = penalty_term
+        self.penalty_gradient = penalty_gradient
         self.factorization = self.__compute_factorization_matrix(factorization)
         self._batch_size = None
         self._offsets = None
@@ -230,7 +234,7 @@ class LinearFactorizationLoss:
         grad_b, grad_w = self.__compute_grad(X, grad_weights)
 
         # add penalty terms
-        if self.penalty_term is not None:
+        if self.penalty_term is not None and self.penalty_gradient:
             grad_w += self.penalty_term.grad(weights)
 
         # restrict weights to factorization selection
-- 
2.43.0


From 990d5330f87d5c606b458faa0c07b3fbb3a030b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 48/72] fix: bias of trained learners without bias is zero, as
 intended, instead of missing

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index b67349a..f54aaee 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -58,7 +58,7 @@ class LinearFactorizationLearner:
 
     @property
     def bias(self) -> Optional[np.ndarray]:
-        if self._bias is None:
+        if self._weights is None:
             return None
 
         return self._bias.copy() if self.add_bias else np.zeros(self._weights.shape[0])
-- 
2.43.0


From 815dc297cfcf3acbdd2d820b62d4abbd79f6b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:49 +0000
Subject: [PATCH 49/72] fix: factorized learners with given subspaces can be
 trained by proximal optimizers

---
 aideme/active_learning/factorization/linear.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index f54aaee..59636c6 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -107,7 +107,8 @@ class LinearFactorizationLearner:
             x0 = x0.reshape((retries, num_subspaces, loss.dim))
 
         if factorization is not None:
-            x0 = x0[:, loss.factorization]
+            # proximal optimizers need whole rows of weights, in which those outside of the subspaces remain zero
+            x0 = x0 * loss.factorization if self.__uses_proximal_penalty else x0[:, loss.factorization]
 
         self.__set_proximal_penalty()
         opt_result = self.__run_optimizer(loss, x0)
@@ -222,6 +223,7 @@ class LinearFactorizationLoss:
         return loss
 
     def compute_grad(self, weights: np.ndarray):
+        is_matrix = weights.ndim == 2
         bias, weights = self.get_weights_matrix(weights)
 
         X, y = self.X, self.y
@@ -241,7 +243,7 @@ class LinearFactorizationLoss:
         grads = np.hstack([grad_w, grad_b.reshape(-1, 1)]) if self.add_bias else grad_w
 
         if self.factorization is not None:
-            grads = grads[self.factorization]
+            grads = grads * self.factorization if is_matrix else grads[self.factorization]
 
         return grads
 
@@ -276,7 +278,7 @@ class LinearFactorizationLoss:
         return expit(-margins) * weights.reshape(-1, 1)
 
     def get_weights_matrix(self, weights: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        if self.factorization is None:
+        if self.factorization is None or weights.ndim == 2:
             w = weights.reshape(-1, self.dim)
         else:
             w = np.zeros((len(self.factorization), self.dim))
-- 
2.43.0


From 97e03fe6932992995dbfd5518216c4d8186527ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 50/72] fix: subspaces are ordered like the user's, not like
 the sorted ones

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 03c9609..655498e 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -211,7 +211,7 @@ class FactorizationManager:
 
     def set_user_fact(self, user_fact):
         if user_fact is not None:
-            user_fact = sorted([sorted(s) for s in user_fact])
+            user_fact = [sorted(s) for s in user_fact]  # partial labels follow the order of the user's subspaces
         self._user_fact = user_fact
 
     def clear(self) -> None:
-- 
2.43.0


From d962e3856d55e4631c824ac2de31f36e642ca164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 51/72] fix: never switch to a factorization without attributes

---
 aideme/active_learning/factorization/active_learning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 655498e..71112cb 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -243,6 +243,10 @@ class FactorizationManager:
         if self._user_fact is None or len(factorization) != len(self._user_fact):
             return False
 
+        # no learner can be trained over a subspace without attributes
+        if any(len(subspace) == 0 for subspace in factorization):
+            return False
+
         mapping, inv_mapping = {}, {}
         for i, subspace in enumerate(factorization):
             for j, user_subspace in enumerate(self._user_fact):
-- 
2.43.0


From 39bb6544cfb1acb3f39dfec452e1013e42b1ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 52/72] fix: extract factorizations from models without bias

---
 aideme/active_learning/factorization/learn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index ac7ae49..29e5430 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -70,7 +70,7 @@ def compute_factorization_and_partial_labels(dataset: PartitionedDataset, linear
     # Step 1: refine the current FLM into a sparse model
     optimizer = FISTA(step_size=fista_step_size, **global_opt_params)
     penalty = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty)
-    refining_model = LinearFactorizationLearner(optimizer, penalty)
+    refining_model = LinearFactorizationLearner(optimizer, penalty, add_bias=linear_model.add_bias)
     refining_model.fit(X, y, linear_model.num_subspaces, x0=linear_model.weight_matrix)
 
     # Step 2: prune irrelevant subspaces and attributes
@@ -80,7 +80,7 @@ def compute_factorization_and_partial_labels(dataset: PartitionedDataset, linear
     # Step 3: train a model with fixed irrelevant attributes removed (set irrelevant weights to zero)
     subspaces = [list(np.where(s)[0]) for s in relevant_attrs]
     optimizer = Adam(step_size=0.1, **global_opt_params)
-    sparse_model = LinearFactorizationLearner(optimizer=optimizer)
+    sparse_model = LinearFactorizationLearner(optimizer=optimizer, add_bias=linear_model.add_bias)
     sparse_model.fit(X, y, subspaces, x0=pruned.weight_matrix)
 
     # Step 4: compute factorization structure and partial labels
-- 
2.43.0


From 816c8eba9518aa4beaf1d77529e1c16c97313fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 53/72] fix: greedy partition search respects the maximum
 number of partitions

---
 .../factorization/partitioning/learn.py       | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/partitioning/learn.py b/aideme/active_learning/factorization/partitioning/learn.py
index aa79bac..24322be 100644
--- a/aideme/active_learning/factorization/partitioning/learn.py
+++ b/aideme/active_learning/factorization/partitioning/learn.py
@@ -111,20 +111,42 @@ class GreedySelector(FactorizationSelector):
         opt_clf, opt_loss = learner.fit_and_loss(X, y, [[i] for i in range(N)])
 
         for k in range(N):
-            level_clf, level_loss = opt_clf, opt_loss
+            # merge regardless of the loss for as long as there are too many partitions
+            must_merge = len(opt_clf.partition) > max_partitions
+            level_clf, level_loss = (None, np.inf) if must_merge else (opt_clf, opt_loss)
 
             for i in range(N - k):
                 for j in range(i + 1, N - k):
                     merged_clf = opt_clf.merge_partitions(i, j, self.warm_start)
 
-                    if self._is_valid_partition(merged_clf.partition, max_dim):
+                    if self._is_valid_partition(merged_clf.partition, max_dim) and self.__can_reach(merged_clf.partition, max_dim, max_partitions):
                         clf, loss = learner.fit_and_loss(X, y, merged_clf.partition, merged_clf.weights)
-                        if loss < level_loss:
+                        if loss < level_loss or level_clf is None:
                             level_clf, level_loss = clf, loss
 
-            if level_loss < opt_loss:
+            if must_merge or level_loss < opt_loss:
                 opt_clf, opt_loss = level_clf, level_loss
             else:
                 break
 
         return opt_clf.partition
+
+    @classmethod
+    def __can_reach(cls, partition, max_dim: int, max_partitions: int) -> bool:
+        """
+        :return: whether further merges can lead to at most max_partitions groups of at most max_dim attributes
+        """
+        return len(partition) <= max_partitions or cls.__fits(sorted(map(len, partition), reverse=True), [max_dim] * max_partitions)
+
+    @classmethod
+    def __fits(cls, sizes, free) -> bool:
+        if not sizes:
+            return True
+
+        for room in {f for f in free if f >= sizes[0]}:
+            remaining = list(free)
+            remaining.remove(room)
+            if cls.__fits(sizes[1:], remaining + [room - sizes[0]]):
+                return True
+
+        return False
-- 
2.43.0


From d967b8259502977fe437e4b7f49a1502429d5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 54/72] fix: appending to a metric does not change the list
 which was logged

---
 aideme/utils/metric_logger.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aideme/utils/metric_logger.py b/aideme/utils/metric_logger.py
index 01d37cb..04acedf 100644
--- a/aideme/utils/metric_logger.py
+++ b/aideme/utils/metric_logger.py
@@ -91,8 +91,7 @@ def __get_value(key, value, on_duplicates):
         return value if cur_val is None else cur_val + value
 
     if on_duplicates == 'APPEND':
-        cur_val = __metrics.get(key, [])
-        cur_val.append(value)
-        return cur_val
+        # build a new list, since the current one may belong to whoever logged it
+        return [*__metrics.get(key, []), value]
 
     raise ValueError("Unknown option {} for on_duplicates. Available options are: 'overwrite', 'sum', or 'append'".format(on_duplicates))
-- 
2.43.0


From 97eb7762d7a2305c3000d01f007b4ae41c6daf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 55/72] fix: parameter checks reject NaN

---
 aideme/utils/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 31d3539..37fbdfd 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -14,7 +14,7 @@
 import math
 
 def assert_in_range(value, name, low, high):
-    if value < low or value > high:
+    if not low <= value <= high:
         raise ValueError("Expected {} < {} < {}, but got {}".format(low, name, high, value))
 
 def assert_positive(value, name, allow_inf=False, allow_none=False):
@@ -45,7 +45,7 @@ def __assert_non_negative(type, value, name, allow_inf=False, allow_none=False):
             raise ValueError("{} cannot be infinity.".format(name))
         return
 
-    if not isinstance(value, type) or value < 0:
+    if not isinstance(value, type) or not value >= 0:
         raise ValueError("'{}' must be a positive, got {}".format(name, value))
 
 def process_callback(callback):
-- 
2.43.0


From 3ef99cc8b713ca210b34ded1e75f7dc0fc5af93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 56/72] fix: noise probability must be a number

---
 aideme/utils/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/noise.py b/aideme/utils/noise.py
index 74bf30b..9713d4d 100644
--- a/aideme/utils/noise.py
+++ b/aideme/utils/noise.py
@@ -39,7 +39,7 @@ def random_noise_injector(noise: float, skip_initial: int = 0) -> NoiseInjector:
     :param skip_initial: number of initial iterations to skip the noise injection during exploration phase
     :return: a noise injector
     """
-    if noise < 0 or noise > 1:
+    if not 0 <= noise <= 1:
         raise ValueError("Noise must be between 0 and 1, but got {}".format(noise))
 
     def injector(iteration: int, labeled_set: LabeledSet) -> LabeledSet:
-- 
2.43.0


From d3c91f39e22c5430c9ecfcb9e8ab6ca90cb1d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 57/72] fix: kernel Laplace posterior variance uses the kernel
 of the test points

---
 .../version_space/bayesian/laplace.py              | 14 +++++++++++++-
 aideme/active_learning/version_space/kernel.py     |  9 +++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 05f4d3b..b4f13ad 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -12,6 +12,8 @@
 #    IN THE SOFTWARE.
 from __future__ import annotations
 
+from typing import Union
+
 import numpy as np
 from scipy.linalg import solve_triangular, cholesky
 from scipy.optimize import minimize
@@ -146,13 +148,23 @@ class LaplaceBayesianLogisticRegression(LaplaceBayesianLogisticRegressionBase):
 
 
 class KernelLaplaceBayesianLogisticRegression(LaplaceBayesianLogisticRegressionBase):
+    uses_kernel_diagonal = True
+
     def __init__(self, prior_std: float = 1.0, tol: float = 1e-6, max_iter: int = 10000):
         super().__init__(prior='gaussian', prior_std=prior_std, add_intercept=False, tol=tol, max_iter=max_iter)
 
+    def predict_proba(self, K_test: np.ndarray, diagonal: Union[float, np.ndarray] = 1.) -> np.ndarray:
+        """
+        :param K_test: kernel matrix between test and training points
+        :param diagonal: kernel of every test point with itself
+        """
+        self._diagonal = diagonal
+        return super().predict_proba(K_test)
+
     def _compute_variance(self, K_test: np.ndarray) -> np.ndarray:
         inner = solve_triangular(self._L, (K_test * self.C).T, lower=True, trans=0)
         inner = np.square(inner).sum(axis=0)
-        var = (1 - inner) / self._info
+        var = (self._diagonal - inner) / self._info
         return var
 
     def _compute_map_estimator(self, K, y):
diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index 6e3a74a..4a7c568 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -55,13 +55,18 @@ class KernelBayesianLogisticRegression:
         self.__X_train = X
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-        return self.__logreg.predict(self.__get_kernel_matrix(X))
+        return (self.predict_proba(X) > 0.5).astype('float')
 
     def predict_all(self, X: np.ndarray) -> np.ndarray:
         return self.__logreg._likelihood(self.__get_kernel_matrix(X))
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self.__logreg.predict_proba(self.__get_kernel_matrix(X))
+        K = self.__get_kernel_matrix(X)
+
+        if getattr(self.__logreg, 'uses_kernel_diagonal', False):
+            return self.__logreg.predict_proba(K, self.kernel.diagonal(X))
+
+        return self.__logreg.predict_proba(K)
 
     def __get_kernel_matrix(self, X: np.ndarray) -> np.ndarray:
         K = self.kernel(X, self.__X_train)
-- 
2.43.0


From b7cfcaa2874f0cbba52042dbc5ff1da1fbf72e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 58/72] fix: training the kernel Laplace model does not change
 its kernel matrix

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index b4f13ad..dd629cc 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -183,7 +183,7 @@ class KernelLaplaceBayesianLogisticRegression(LaplaceBayesianLogisticRegressionB
         self.C *= (1 - self.C)
         np.sqrt(self.C, out=self.C)
 
-        K *= self.C
+        K = K * self.C  # do not change the kernel matrix of the caller
         K *= self.C.reshape(-1, 1)
         K[np.diag_indices_from(K)] += self._info
 
-- 
2.43.0


From 9fa889ca77057536afbc15a4021c1a597f1c19bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 59/72] fix: Laplace posterior mode is found up to the
 requested tolerance

---
 aideme/active_learning/version_space/bayesian/laplace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index dd629cc..22e986b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -50,8 +50,11 @@ class LaplaceBayesianLogisticRegressionBase:
 
         self._opt_options = {
             'gtol': tol,
+            'ftol': 0,  # small improvements must not stop the solver far away from the minimum: only 'tol' does
             'maxiter': max_iter,
             'maxfun': max_iter,
+            'maxcor': 100,
+            'maxls': 100,
         }
 
     @staticmethod
-- 
2.43.0


From a17340d42ff34a65a8308568ebfc6679319adcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 60/72] fix: command line exploration computes its callbacks,
 so that criteria on their metrics can stop it

---
 aideme/explore/command_line_explore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 73b45a2..9c24622 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import Optional, TYPE_CHECKING
 
 from . import LabeledSet, ExplorationManager, PartitionedDataset
-from ..utils import assert_positive_integer, process_callback
+from ..utils import assert_positive_integer, metric_logger, process_callback
 
 if TYPE_CHECKING:
     from ..active_learning import ActiveLearner
@@ -58,10 +58,14 @@ class CommandLineExploration:
 
         print('Welcome to the manual exploration process. \n')
 
+        metric_logger.flush()  # metrics of previous explorations must not stop this one
+
         while not manager.converged() and self._is_willing:
+            metric_logger.flush()  # avoid overlapping metrics between iterations
             data_to_label = manager.get_next_to_label()
             new_labeled_set = self._label(data_to_label.index, data_to_label.data)
             manager.update(new_labeled_set)
+            metric_logger.log_metrics(manager.get_callback_metrics())
 
     @property
     def _is_willing(self) -> bool:
-- 
2.43.0


From 9e82e656855b9edd00167f7e3645f7f74ab78568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 61/72] fix: command line labels other than 0 and 1 are asked
 again

---
 aideme/explore/command_line_explore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 9c24622..5962f15 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -95,5 +95,9 @@ class CommandLineExploration:
             print('Incorrect number of labels: got {} but expected {}\n'.format(len(vals), expected_size))
             return False, None
 
+        if not set(vals).issubset({'0', '1'}):
+            print("Labels must be either 0 or 1, and separated by ' '.\n")
+            return False, None
+
         print()
         return True, [int(x) for x in vals]
-- 
2.43.0


From fee993db6d324d0081e5efa6b3facc9ce3bae035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 62/72] fix: rounding very thin version spaces no longer
 repeats cuts without effect forever

---
 aideme/active_learning/version_space/hit_and_run/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/ellipsoid.py b/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
index 5d0c5fb..4fa0ccf 100644
--- a/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
+++ b/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
@@ -65,8 +65,8 @@ class Ellipsoid:
         if alpha >= 1:
             raise RuntimeError("Invalid hyperplane: ellipsoid is contained in its positive semi-space (expected the negative one)")
 
-        # shallow cut
-        if alpha <= -1.0 / self.dim:
+        # shallow cut (the tolerance avoids endless cuts which change nothing but rounding errors)
+        if alpha <= -1.0 / self.dim + 1e-12:
             return False
 
         p = self.D * a_hat / gamma
-- 
2.43.0


From f663d192e9df88da78df2c801ac8faca13a128bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 63/72] fix: interior points are found for data of any scale

---
 .../version_space/hit_and_run/polyhedral_cone.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
index 7fda2f4..fcfbab2 100644
--- a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
+++ b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
@@ -58,9 +58,13 @@ class BoundedPolyhedralCone:
         """
         n, dim = self.A.shape
 
+        # the solver is not reliable for constraints of very large scale
+        norms = np.linalg.norm(self.A, axis=1).reshape(-1, 1)
+        A = self.A / np.where(norms > 0, norms, 1)
+
         res = scipy.optimize.linprog(
             c=np.array([1.0] + [0.0] * dim),
-            A_ub=np.hstack([-np.ones(shape=(n, 1)), self.A]),
+            A_ub=np.hstack([-np.ones(shape=(n, 1)), A]),
             b_ub=np.zeros(n),
             bounds=[(None, None)] + [(-1, 1)] * dim,  # type: ignore
             method='revised simplex'
-- 
2.43.0


From 8b7d175205b72a06dbd1a32b177116e9bcaac315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 64/72] fix: compiled Stan models are saved even when there is
 no folder for them yet

---
 aideme/active_learning/version_space/bayesian/stan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/bayesian/stan.py b/aideme/active_learning/version_space/bayesian/stan.py
index 10ee34a..15ba2a5 100644
--- a/aideme/active_learning/version_space/bayesian/stan.py
+++ b/aideme/active_learning/version_space/bayesian/stan.py
@@ -82,6 +82,7 @@ class StanLogisticRegressionSampler:
             return pickle.load(open(path_to_saved_model, 'rb'))
 
         model = StanModel(model_code=self.__parse_prior_options(prior))
+        os.makedirs(os.path.dirname(path_to_saved_model), exist_ok=True)
         pickle.dump(model, open(path_to_saved_model, 'wb'))
         return model
 
-- 
2.43.0


From 7bf854a15905366875b3ea4cfb9d0ab14ad1cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 65/72] fix: contradicting labels of identical points were not
 reported in several dimensions

---
 aideme/active_learning/dsm/convex/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/geometry.py b/aideme/active_learning/dsm/convex/geometry.py
index 56340e7..2c497d6 100644
--- a/aideme/active_learning/dsm/convex/geometry.py
+++ b/aideme/active_learning/dsm/convex/geometry.py
@@ -13,7 +13,7 @@
 import numpy as np
 
 from aideme.utils import assert_positive
-from .convex import ConvexHull, ConvexCone, QhullError
+from .convex import ConvexError, ConvexHull, ConvexCone, QhullError
 from .one_dim_convex import OneDimensionalConvexHull, OneDimensionalConvexCone
 
 
@@ -94,6 +94,9 @@ class NegativeCone:
         if points.shape[1] != len(self._vertex):
             raise ValueError("Bad input dimension: expected {0}, got {1}".format(len(self._vertex), points.shape[1]))
 
+        if np.any(np.all(points == self._vertex, axis=1)):
+            raise ConvexError  # convex hull routines may still see the vertex as outside of the hull
+
         if self._cone is not None:
             self._cone.add_points_to_hull(points)
             return
-- 
2.43.0


From 2377c55ee3908eaf3e0d45ba049bcbfa0b8623e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 66/72] fix: sampling failed when the rounding ellipsoid's
 center lies at a corner of the version space

---
 .../active_learning/version_space/hit_and_run/hit_and_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
index 6fc8598..3d4a8d3 100644
--- a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
+++ b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
@@ -95,7 +95,10 @@ class HitAndRunSampler:
 
     def __get_starting_point(self, version_space: BoundedPolyhedralCone, ellipsoid: Optional[Ellipsoid]) -> np.ndarray:
         if ellipsoid and version_space.is_inside_polytope(ellipsoid.center):
-            return ellipsoid.center / np.linalg.norm(ellipsoid.center)
+            # a corner of the version space would leave no room for moving
+            point = (0.99 / np.linalg.norm(ellipsoid.center)) * ellipsoid.center
+            if version_space.is_inside_polytope(point):
+                return point
 
         if self.cache and self.samples.shape[0] > 0:
             samples = self.__truncate_samples(version_space.dim)
-- 
2.43.0


From fe73039749c35cb0f4835d1719797355fe2737c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 67/72] fix: kernels compute with real numbers whatever the
 type of the data

Kernel matrices of integer data were integer matrices, to which the jitter cannot be added, and small integer types overflowed silently.
---
 aideme/active_learning/kernel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 1922d90..531d565 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -22,6 +22,11 @@ from sklearn.metrics.pairwise import linear_kernel, rbf_kernel, polynomial_kerne
 from aideme.utils.validation import assert_positive, assert_positive_integer
 
 
+def _as_float(X: Optional[np.ndarray]) -> Optional[np.ndarray]:
+    # kernel values of integer (or low precision) data are real numbers all the same
+    return None if X is None else np.asarray(X, dtype='float')
+
+
 class Kernel:
     @staticmethod
     def get(kernel: str, **kernel_params) -> Kernel:
@@ -83,7 +88,7 @@ class LinearKernel(Kernel):
         :param Y: a N x D matrix of data points. If None, we set Y = X
         :return: the M x N kernel matrix K_ij = k(X_i, Y_j)
         """
-        return linear_kernel(X, Y)
+        return linear_kernel(_as_float(X), _as_float(Y))
 
     def diagonal(self, X: np.ndarray) -> np.ndarray:
         """
@@ -92,6 +97,7 @@ class LinearKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
+        X = _as_float(X)
         return np.einsum('ir, ir -> i', X, X)
 
 
@@ -111,7 +117,7 @@ class GaussianKernel(Kernel):
         :param Y: a N x D matrix of data points. If None, we set Y = X
         :return: the M x N kernel matrix K_ij = k(X_i, Y_j)
         """
-        return rbf_kernel(X, Y, gamma=self.gamma)
+        return rbf_kernel(_as_float(X), _as_float(Y), gamma=self.gamma)
 
     def diagonal(self, X: np.ndarray) -> np.ndarray:
         """
@@ -145,7 +151,7 @@ class PolynomialKernel(Kernel):
         :param Y: a N x D matrix of data points. If None, we set Y = X
         :return: the M x N kernel matrix K_ij = k(X_i, Y_j)
         """
-        return polynomial_kernel(X, Y, degree=self.degree, gamma=self.gamma, coef0=self.coef0)
+        return polynomial_kernel(_as_float(X), _as_float(Y), degree=self.degree, gamma=self.gamma, coef0=self.coef0)
 
     def diagonal(self, X: np.ndarray) -> np.ndarray:
         """
@@ -154,6 +160,7 @@ class PolynomialKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
+        X = _as_float(X)
         sqsum = np.einsum('ir, ir -> i', X, X)
         gamma = 1 / X.shape[1] if self.gamma is None else self.gamma
         return (gamma * sqsum + self.coef0) ** self.degree
-- 
2.43.0


From b297f29339cabf53831489a79b417e52c67de233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 68/72] fix: train factorization models with labels of any type
 and memory layout

The compiled loss functions only take writable contiguous arrays of doubles: integer or boolean labels, or a column of a table, were refused.
---
 aideme/active_learning/factorization/linear.py              | 2 +-
 aideme/active_learning/factorization/partitioning/linear.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 59636c6..9448da9 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -163,7 +163,7 @@ class LinearFactorizationLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, add_bias: bool = True,
                  penalty_term: PenaltyTerm = None, factorization: Optional[List[List[int]]] = None, penalty_gradient: bool = True):
         self.X = X
-        self.y = y
+        self.y = np.array(y, dtype='float', order='C')  # compiled routines need a writable C array
         self.add_bias = add_bias
         self.penalty_term = penalty_term
         self.penalty_gradient = penalty_gradient
diff --git a/aideme/active_learning/factorization/partitioning/linear.py b/aideme/active_learning/factorization/partitioning/linear.py
index e009b19..47518cc 100644
--- a/aideme/active_learning/factorization/partitioning/linear.py
+++ b/aideme/active_learning/factorization/partitioning/linear.py
@@ -153,7 +153,7 @@ class FactorizedLinearLearner:
 class LinearLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, fact_clf: FactorizedLinearClassifier):
         self.X = X
-        self.y = y
+        self.y = np.array(y, dtype='float', order='C')  # compiled routines need a writable C array
         self.fact_clf = fact_clf
         self.x0 = self.fact_clf.weights.copy()
 
-- 
2.43.0


From f1a43680d1601f8335aca567da0d10b522ad06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 69/72] fix: penalties and training accept integer weights

Gradients of the group penalties were silently truncated to integers, the proximal operators likewise.
---
 aideme/active_learning/factorization/linear.py  | 2 +-
 aideme/active_learning/factorization/penalty.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 9448da9..3a28057 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -104,7 +104,7 @@ class LinearFactorizationLearner:
         if x0 is None:
             x0 = np.random.normal(size=(retries, num_subspaces, loss.dim))
         else:
-            x0 = x0.reshape((retries, num_subspaces, loss.dim))
+            x0 = np.asarray(x0, dtype='float').reshape((retries, num_subspaces, loss.dim))
 
         if factorization is not None:
             # proximal optimizers need whole rows of weights, in which those outside of the subspaces remain zero
diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index 57f68bc..a481d80 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -86,7 +86,7 @@ class L2SqrtPenalty(PenaltyTerm):
         return self._penalty * s
 
     def grad(self, x: np.ndarray) -> np.ndarray:
-        res = np.zeros_like(x)
+        res = np.zeros(x.shape)
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
             factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
@@ -94,7 +94,7 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-        res = np.array(x)
+        res = np.array(x, dtype='float')
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
             factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
@@ -106,7 +106,7 @@ class L2SqrtPenalty(PenaltyTerm):
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1).reshape(-1, 1)
             not_zero = (norm > 0)
-            n = np.true_divide(x[:, g], norm, out=np.zeros_like(x[:, g]), where=not_zero)  # avoid dividing by zero
+            n = np.true_divide(x[:, g], norm, out=np.zeros(x[:, g].shape), where=not_zero)  # avoid dividing by zero
             u = np.linalg.norm(v[:, g] - self._penalty * n, axis=1)
             u[~not_zero.ravel()] -= self._penalty
             if not np.all(u <= tol):
@@ -162,7 +162,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         lamb2 = self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
-        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
+        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros(x.shape), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
-- 
2.43.0


From 601ed3a58b55a40ab9a33dd6c5ca5aadda990599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 70/72] fix: an interrupted refinement keeps the maximum number
 of iterations of the optimizer

---
 aideme/active_learning/factorization/active_learning.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 71112cb..658b477 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -156,8 +156,10 @@ class SwapLearner(ActiveLearner):
         max_iter = optimizer._max_iter
         if self._max_iter_adapter is not None:
             optimizer._max_iter = self._max_iter_adapter(self.__it - self._swap_iter - 1)
-        self._refining_model.fit(X, y, self._refining_model.num_subspaces, x0=self._refining_model.weight_matrix)
-        optimizer._max_iter = max_iter  # the swap model of the next run may share this optimizer
+        try:
+            self._refining_model.fit(X, y, self._refining_model.num_subspaces, x0=self._refining_model.weight_matrix)
+        finally:
+            optimizer._max_iter = max_iter  # the swap model of the next run may share this optimizer
 
         if self._prune:
             self._refining_model = prune_irrelevant_subspaces(data.data, self._refining_model, threshold=self._prune_threshold)
-- 
2.43.0


From ffc1700e1d06a67adabb8c4d9e765977ca51910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 71/72] fix: an error or interruption inside a polytope update
 is silently dropped, leaving it half updated

---
 aideme/active_learning/dsm/convex/__init__.py | 2 +-
 aideme/active_learning/dsm/polytope.py        | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/dsm/convex/__init__.py b/aideme/active_learning/dsm/convex/__init__.py
index 4a3162f..afcac46 100644
--- a/aideme/active_learning/dsm/convex/__init__.py
+++ b/aideme/active_learning/dsm/convex/__init__.py
@@ -11,5 +11,5 @@
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 #    IN THE SOFTWARE.
 
-from .convex import ConvexError
+from .convex import ConvexError, QhullError
 from .geometry import PositiveRegion, NegativeCone
diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index c381580..37d0eb3 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -14,7 +14,7 @@ from typing import Set, List, Tuple
 
 import numpy as np
 
-from .convex import PositiveRegion, NegativeCone, ConvexError
+from .convex import PositiveRegion, NegativeCone, ConvexError, QhullError
 
 
 class PolytopeBase:
@@ -88,8 +88,10 @@ class Polytope(PolytopeBase):
         except ConvexError:
             self.__is_valid = False
 
-        finally:
-            return self.__is_valid
+        except QhullError:
+            pass  # new points make the regions degenerate: keep the current ones
+
+        return self.__is_valid
 
     def __update_positive(self, X: np.ndarray) -> None:
         if len(X) > 0:
-- 
2.43.0


From 7aaf8390f09944fcd1d0b46854a51b3132090019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 72/72] fix: contradicting labels of a conjunctive inference
 are detected

---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 37d0eb3..64e5481 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -266,6 +266,9 @@ class CategoricalPolytope(PolytopeBase):
         else:
             self._neg_classes.add(pt)
 
+        if pt in self._pos_classes and pt in self._neg_classes:
+            self.__is_valid = False
+
 
 class MultiSetPolytope(PolytopeBase):
     def __init__(self):
-- 
2.43.0

