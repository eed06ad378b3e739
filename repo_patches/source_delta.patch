From acc393fa72e9c6981fdaa3cde0dd0c898e3272b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 01/13] fix: reject covariance matrices which are not symmetric

---
 src/bmi/samplers/_splitmultinormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 1465923..70b4d8d 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -10,7 +10,7 @@ from bmi.samplers.base import BaseSampler, cast_to_rng
 
 def _can_be_covariance(mat):
     """Checks if `mat` can be a covariance matrix (positive-definite and symmetric)."""
-    if np.all(mat != mat.transpose()):
+    if not np.allclose(mat, mat.transpose()):
         raise ValueError("Covariance matrix is not symmetric.")
 
     if not np.all(np.linalg.eigvals(mat) > 0):
-- 
2.43.0


From 179b44fd0e53286da6183c971bbc2db4821331cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 02/13] fix: do not under- or overflow the determinant in the
 multinormal entropy

---
 src/bmi/samplers/_splitmultinormal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 70b4d8d..f254d2a 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -30,9 +30,6 @@ class _Multinormal:
         self._mean = np.asarray(mean)
         self._covariance = np.asarray(covariance)
 
-        # The determinant of the covariance, used to calculate entropy
-        self._det_covariance: float = np.linalg.det(self._covariance)
-
         # Dimensionality of the space
         self._dim = self._mean.shape[0]
 
@@ -46,6 +43,10 @@ class _Multinormal:
         # Validate symmetry, positive-definiteness
         _can_be_covariance(self._covariance)
 
+        # The log-determinant of the covariance, used to calculate entropy.
+        # (The determinant itself can easily underflow or overflow.)
+        self._logdet_covariance: float = np.linalg.slogdet(self._covariance)[1]
+
     def sample(self, n_samples: int, key: KeyArray) -> np.ndarray:
         """Sample from the distribution.
         Args:
@@ -67,7 +68,7 @@ class _Multinormal:
 
     def entropy(self) -> float:
         """Entropy in nats."""
-        return 0.5 * (np.log(self._det_covariance) + self.dim * (1 + np.log(2 * np.pi)))
+        return 0.5 * (self._logdet_covariance + self.dim * (1 + np.log(2 * np.pi)))
 
 
 class SplitMultinormal(BaseSampler):
-- 
2.43.0


From 8ef2fe65e8b060314ee05f5b2e525b8c51ddaae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 03/13] fix: zero-inflated Poissonization sampler has
 dimensions

---
 src/bmi/samplers/_discrete_continuous.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 64bc246..4a49855 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -132,6 +132,8 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
         Args:
             p: zero-inflation parameter. Must be in [0, 1).
         """
+        super().__init__(dim_x=1, dim_y=1)
+
         if p < 0 or p >= 1:
             raise ValueError(f"p must be in [0, 1), was {p}.")
         self._p = float(p)
-- 
2.43.0


From 18756f79b2c1d11f0f7740f9ac556073c89d9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 04/13] fix: Student-t MI correction for large and infinite
 degrees of freedom

---
 src/bmi/samplers/_split_student_t.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index acb8ff1..d292508 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
-from scipy.special import digamma, gamma
+from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
 from bmi.samplers.base import BaseSampler
@@ -21,7 +21,7 @@ def _differential_entropy(k: int, dof: int) -> float:
     half_sum = 0.5 * (dof + k)
     digamma_term = half_sum * (digamma(half_sum) - digamma(0.5 * dof))
 
-    log_term = -np.log(gamma(half_sum)) + np.log(gamma(0.5 * dof)) + 0.5 * k * np.log(dof * np.pi)
+    log_term = -gammaln(half_sum) + gammaln(0.5 * dof) + 0.5 * k * np.log(dof * np.pi)
 
     return log_term + digamma_term
 
@@ -160,6 +160,9 @@ class SplitStudentT(BaseSampler):
         decomposes as the sum of mutual information of Gaussian variables
         and the correction term.
         """
+        if np.isinf(df):  # The Gaussian limit
+            return 0.0
+
         h_x = _differential_entropy(k=dim_x, dof=df)
         h_y = _differential_entropy(k=dim_y, dof=df)
         h_xy = _differential_entropy(k=dim_x + dim_y, dof=df)
-- 
2.43.0


From 1005c856792c29e9dca21120e9c494a5319c1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 05/13] fix: Student-t sampler accepts JAX keys

---
 src/bmi/samplers/_split_student_t.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index d292508..6a7c85e 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -1,4 +1,4 @@
-from typing import Optional
+from typing import Optional, Union
 
 import numpy as np
 from numpy.typing import ArrayLike
@@ -6,6 +6,7 @@ from scipy import stats
 from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
+from bmi.interface import KeyArray
 from bmi.samplers.base import BaseSampler
 
 
@@ -86,12 +87,15 @@ class SplitStudentT(BaseSampler):
 
         self._dispersion = np.asarray(dispersion)
 
-    def sample(self, n_points: int, rng: int) -> tuple[np.ndarray, np.ndarray]:
+    def sample(self, n_points: int, rng: Union[KeyArray, int]) -> tuple[np.ndarray, np.ndarray]:
         """Sampling from multivariate Student distribution.
 
         Note:
             This function is based on SciPy's sampling.
         """
+        if not isinstance(rng, (int, np.integer)):  # SciPy does not understand JAX keys
+            rng = np.random.default_rng(np.asarray(rng))
+
         xy = stats.multivariate_t.rvs(
             loc=self._mean,
             shape=self._dispersion,
-- 
2.43.0


From 0a56996483a6d6ed158ecdcc568bc7aa006a96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 06/13] fix: repeated neighborhoods in the KSG ensemble are not
 counted twice

---
 src/bmi/estimators/ksg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index 43c7250..ac1a5c1 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -106,7 +106,7 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
             # Shape is also (batch_size, n_points)
             closest_points = np.argsort(distances_xy, axis=-1)
 
-            for k in self._params.neighborhoods:
+            for k in digammas_dict:
                 # Note that the points are 0-indexed and that the "0th neighbor"
                 # is the point itself (as distance(x, x) = 0 is the smallest possible)
                 # Hence, the kth neighbour is at index k
-- 
2.43.0


From 0a0cf4f631b253f7899b4d0a01e2383a1ae54403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 07/13] fix: compare the smoothed training MI with the value
 one window earlier

---
 src/bmi/estimators/neural/_training_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/neural/_training_log.py b/src/bmi/estimators/neural/_training_log.py
index 69a46a1..1275bfe 100644
--- a/src/bmi/estimators/neural/_training_log.py
+++ b/src/bmi/estimators/neural/_training_log.py
@@ -149,7 +149,7 @@ class TrainingLog:
                 )
 
         train_mi_smooth_fin = float(train_mi_smooth[-1])
-        train_mi_smooth_prv = float(train_mi_smooth[-w])
+        train_mi_smooth_prv = float(train_mi_smooth[-w - 1])
         if train_mi_smooth_fin > 1.05 * train_mi_smooth_prv:
             self._additional_information["training_mi_still_increasing"] = True
             if self.verbose:
-- 
2.43.0


From 28452eba341bfe3b672dd8012617fa57bb458133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 08/13] fix: Gaussian mixture estimator uses its concentration
 parameter

---
 src/bmi/estimators/external/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index 3760a7f..5424b33 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -189,7 +189,7 @@ class GMMEstimator(IMutualInformationPointEstimator):
             num_samples=self._params.mcmc_num_samples,
             num_warmup=self._params.mcmc_num_warmup,
         )
-        mcmc.run(subkey, data=space.xy, K=self._params.n_components)
+        mcmc.run(subkey, data=space.xy, K=self._params.n_components, alpha=self._params.alpha)
 
         self._mcmc = mcmc
         self._dim_x = space.dim_x
-- 
2.43.0


From 793cbb6b8c1f43e4ff5e4ef6db763fabe0c19c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 09/13] fix: MINE denominator weights the batch by alpha and
 starts with no history

---
 src/bmi/estimators/neural/_mine_estimator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bmi/estimators/neural/_mine_estimator.py b/src/bmi/estimators/neural/_mine_estimator.py
index b735a50..1197373 100644
--- a/src/bmi/estimators/neural/_mine_estimator.py
+++ b/src/bmi/estimators/neural/_mine_estimator.py
@@ -85,9 +85,14 @@ def _mine_value_neg_grad_log_denom(
 
     # compute denominator (with exponential smoothing)
     log_denom_batch = lme_T_u
-    log_denom = jnp.logaddexp(
-        jnp.log(alpha) + log_denom_prev,
-        jnp.log(1.0 - alpha) + log_denom_batch,
+    # Note: at the first step there is no history
+    log_denom = jnp.where(
+        jnp.isneginf(log_denom_prev),
+        log_denom_batch,
+        jnp.logaddexp(
+            jnp.log(alpha) + log_denom_batch,
+            jnp.log(1.0 - alpha) + log_denom_prev,
+        ),
     )
     correction = jnp.exp(log_denom_batch - log_denom)
 
-- 
2.43.0


From 86450102531ccb680d934c91f5da307afd0f7957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 10/13] fix: histogram estimator rejects zero bins for Y

---
 src/bmi/estimators/_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/_histogram.py b/src/bmi/estimators/_histogram.py
index 49e2b74..e9e35a0 100644
--- a/src/bmi/estimators/_histogram.py
+++ b/src/bmi/estimators/_histogram.py
@@ -33,7 +33,7 @@ class HistogramEstimator(IMutualInformationPointEstimator):
         """
         self._params = HistogramEstimatorParams(
             n_bins_x=n_bins_x,
-            n_bins_y=n_bins_y or n_bins_x,  # If `n_bins_y` is None, use `n_bins_x`.
+            n_bins_y=n_bins_x if n_bins_y is None else n_bins_y,  # If `n_bins_y` is None, use `n_bins_x`.
             standardize=standardize,
         )
 
-- 
2.43.0


From a6e463fa35588fda9c10d55ce2b0e885cd89b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 11/13] fix: report the wrong Y dimension in the error message

---
 src/bmi/samplers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/samplers/base.py b/src/bmi/samplers/base.py
index 6865fb8..9085d34 100644
--- a/src/bmi/samplers/base.py
+++ b/src/bmi/samplers/base.py
@@ -13,7 +13,7 @@ def _validate_dimensions(dim_x: int, dim_y: int) -> None:
     if dim_x < 1:
         raise ValueError(f"X variable space must be of positive dimension. Was {dim_x}.")
     if dim_y < 1:
-        raise ValueError(f"Y variable space must be of positive dimension. Was {dim_x}.")
+        raise ValueError(f"Y variable space must be of positive dimension. Was {dim_y}.")
 
 
 class BaseSampler(ISampler):
-- 
2.43.0


From 9c40f0bf05a6a074bfa3b45f48c4ad894da1e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:38 +0000
Subject: [PATCH 12/13] fix: BNSL estimator accepts exactly the documented
 procedures 0, 1, 2 and 10

---
 src/bmi/estimators/external/r_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/r_estimators.py b/src/bmi/estimators/external/r_estimators.py
index 6c56a53..b5506cd 100644
--- a/src/bmi/estimators/external/r_estimators.py
+++ b/src/bmi/estimators/external/r_estimators.py
@@ -89,7 +89,7 @@ class RLNNEstimator(ExternalEstimator):
 
 
 class BNSLParams(BaseModel):
-    proc: pydantic.PositiveInt
+    proc: Literal[0, 1, 2, 10]
 
 
 class RBNSLEstimator(ExternalEstimator):
-- 
2.43.0


From 0f28d5db3170b878f6156d9e089fed96bc1795ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:03 +0000
Subject: [PATCH 13/13] fix: a single Student-t sample point has the right
 shape

---
 src/bmi/samplers/_split_student_t.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index 6a7c85e..86e8057 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -103,6 +103,8 @@ class SplitStudentT(BaseSampler):
             size=n_points,
             random_state=rng,
         )
+        if n_points == 1:  # SciPy drops the first axis
+            xy = np.reshape(xy, (1, self.dim_total))
         assert xy.shape == (
             n_points,
             self.dim_total,
-- 
2.43.0

