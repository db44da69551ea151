From ee4a0d79b4af8163465adb4426df688266065627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 01/45] fix: clip starting values to the bounds of the
 standardized problem

_get_start_coef returns coefficients on the standardized scale but clipped
them to the user's unstandardized bounds. With columns whose standard deviation
is not one, the solver then started outside the feasible region, the line search
kept failing and the returned coefficients could violate the bounds.
---
 src/glum/_glm.py    | 18 ++++++++++++------
 src/glum/_glm_cv.py | 12 +++++++++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a7f0fd2..242870c 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -254,7 +254,11 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         col_means: np.ndarray,
         col_stds: Optional[np.ndarray],
         dtype,
+        lower_bounds: Optional[np.ndarray] = None,
+        upper_bounds: Optional[np.ndarray] = None,
     ) -> np.ndarray:
+        # Like the returned coefficients, ``lower_bounds`` and ``upper_bounds`` refer
+        # to the standardized problem.
         if self.warm_start and hasattr(self, "coef_"):
             coef = self.coef_  # type: ignore
             intercept = self.intercept_  # type: ignore
@@ -299,20 +303,20 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound.
         idx = int(self.fit_intercept)
-        if self.lower_bounds is not None:
-            if np.any(coef[idx:] < self.lower_bounds):
+        if lower_bounds is not None:
+            if np.any(coef[idx:] < lower_bounds):
                 warnings.warn(
                     "lower_bounds above starting value. Setting the starting values "
                     "to max(start_params, lower_bounds)."
                 )
-                coef[idx:] = np.maximum(coef[idx:], self.lower_bounds)
-        if self.upper_bounds is not None:
-            if np.any(coef[idx:] > self.upper_bounds):
+                coef[idx:] = np.maximum(coef[idx:], lower_bounds)
+        if upper_bounds is not None:
+            if np.any(coef[idx:] > upper_bounds):
                 warnings.warn(
                     "upper_bounds below starting value. Setting the starting values "
                     "to min(start_params, upper_bounds)."
                 )
-                coef[idx:] = np.minimum(coef[idx:], self.upper_bounds)
+                coef[idx:] = np.minimum(coef[idx:], upper_bounds)
 
         return coef
 
@@ -2832,6 +2836,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             self.col_means_,
             self.col_stds_,
             dtype=[np.float64, np.float32],
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         #######################################################################
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 612ef4f..6b8030f 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -731,6 +731,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 self.col_means_,
                 self.col_stds_,
                 dtype=[np.float64, np.float32],
+                lower_bounds=lower_bounds,
+                upper_bounds=upper_bounds,
             )
 
             if self.check_input:
@@ -861,7 +863,15 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
         coef = self._get_start_coef(
-            X, y, sample_weight, offset, self.col_means_, self.col_stds_, dtype=X.dtype
+            X,
+            y,
+            sample_weight,
+            offset,
+            self.col_means_,
+            self.col_stds_,
+            dtype=X.dtype,
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         if len(l1_ratio) > 1:
-- 
2.43.0


From 539e7583411afc8e4918ecfae546dcfe92bdd2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 02/45] fix: account for the offset in the intercept of the
 automatic alpha path

The gradient that defines the largest alpha included the offset, but was
evaluated at an intercept guessed without it, so the path started at a wrong
value.
---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 242870c..83a087e 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -490,6 +490,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 sample_weight=w,
                 link=self._link_instance,
                 distribution=self._family_instance,
+                eta=offset,
             )
         else:
             intercept_offset = 0
-- 
2.43.0


From 6f6ae4b6ab597a248f3557c3099e8b167b49a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 03/45] fix: accept arbitrary cluster labels in clustered
 covariance matrices

Cluster labels were used as row positions, so any labels other than the integers
0, ..., n_clusters - 1 raised an IndexError (or a TypeError for strings).
---
 src/glum/_glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 83a087e..1060921 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3341,7 +3341,9 @@ def setup_p2(
 
 def _group_sum(groups: np.ndarray, data: tm.MatrixBase):
     """Sum over groups."""
-    ngroups = len(np.unique(groups))
+    # Map arbitrary labels to the row positions 0, ..., ngroups - 1
+    labels, groups = np.unique(groups, return_inverse=True)
+    ngroups = len(labels)
     out = np.empty((ngroups, data.shape[1]))
     eye_n = sps.eye(ngroups, format="csc")[:, groups]
     for i in range(data.shape[1]):
-- 
2.43.0


From 10c679346291bab076c038300e77ea9b948be750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 04/45] fix: allow omitting r in wald_test with a restriction
 matrix

r=None was turned into a zero-dimensional array, so that the documented default
of testing R @ coef = 0 raised an IndexError.
---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 1060921..d38e5c6 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1219,7 +1219,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         }
 
         if R is not None:
-            return self._wald_test_matrix(R=R, r=np.asarray(r), **kwargs)
+            r_ = None if r is None else np.asarray(r)
+            return self._wald_test_matrix(R=R, r=r_, **kwargs)
         if features is not None:
             return self._wald_test_feature_names(features=features, values=r, **kwargs)
         if terms is not None:
-- 
2.43.0


From ee281a99fce76a279ab6a1638d7dbc03de65d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 05/45] fix: recompute information criteria instead of
 returning stale values

aic, aicc and bic were stored on first use and never refreshed, so that they
were wrong after refitting the estimator or for other sample weights.
---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index d38e5c6..bc97c76 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3133,8 +3133,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         context_: Optional[Mapping[str, Any]] = capture_context(context)
 
-        if not hasattr(self, "_info_criteria"):
-            self._compute_information_criteria(X, y, sample_weight, context=context_)
+        # Always recompute: a stored value may stem from a previous fit or from
+        # different sample weights.
+        self._compute_information_criteria(X, y, sample_weight, context=context_)
 
         if (
             self.alpha is None or (self.alpha is not None and self.alpha > 0)
-- 
2.43.0


From 63552a968e363aa16aefcbffe9ba3bc430b08a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 06/45] fix: information criteria with a list of alphas

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index bc97c76..7b2dffe 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3138,7 +3138,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         self._compute_information_criteria(X, y, sample_weight, context=context_)
 
         if (
-            self.alpha is None or (self.alpha is not None and self.alpha > 0)
+            self.alpha is None or np.any(np.asarray(self.alpha) > 0)
         ) and self.l1_ratio < 1.0:
             warnings.warn(
                 "There is no general definition for the model's degrees of "
-- 
2.43.0


From 78332158feab744ee8e4aef578864cbeaaa4d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 07/45] fix: tweedie deviance for negative power and negative
 targets

---
 src/glum/_functions.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index deab5ae..81280a2 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -382,9 +382,12 @@ def tweedie_deviance(
         mu1mp = mu[i] ** (1 - p)
         D += weights[i] * (mu1mp * mu[i]) / (2 - p)
 
+        # y can only be negative if p < 0
+        yo1mp = y[i] / (1 - p)
+        D += weights[i] * (-yo1mp * mu1mp)
+
         if y[i] > 0:
-            yo1mp = y[i] / (1 - p)
-            D += weights[i] * ((y[i] ** (1 - p)) * yo1mp / (2 - p) - yo1mp * mu1mp)
+            D += weights[i] * (y[i] ** (1 - p)) * yo1mp / (2 - p)
 
     return 2 * D
 
-- 
2.43.0


From 937c8a1deccdc02d78b3b7d295ed0ddd4de56b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 08/45] fix: discard model specs and paths of previous fits
 when refitting

---
 src/glum/_glm.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 7b2dffe..9aa083d 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1988,6 +1988,20 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         copy_X = self._should_copy_X()
         drop_first = getattr(self, "drop_first", False)
 
+        # Discard attributes of a previous fit that this fit may not set again
+        for attr in [
+            "X_model_spec_",
+            "y_model_spec_",
+            "_feature_dtypes_",
+            "_categorical_levels_",
+            "has_missing_category_",
+            "_alphas",
+            "coef_path_",
+            "intercept_path_",
+        ]:
+            if hasattr(self, attr):
+                delattr(self, attr)
+
         if nw.dependencies.is_into_dataframe(X):
             if getattr(self, "formula", None) is not None:
                 lhs, rhs = parse_formula(
-- 
2.43.0


From a05bc63925ce9792014250adadaeb61d49f1b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/45] fix: convert sample weights and offsets to a common
 floating point type

---
 src/glum/_validation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index a6b2c6d..8ea5036 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -153,6 +153,13 @@ def check_inequality_constraints(
     return A_ineq, b_ineq
 
 
+def _get_float_dtype(dtype):
+    """Return ``dtype`` if it is a floating point type and double precision if not."""
+    if isinstance(dtype, (type, np.dtype)) and np.issubdtype(dtype, np.floating):
+        return dtype
+    return np.float64
+
+
 def check_offset(
     offset: typing.Optional[typing.Union[VectorLike, float]], n_rows: int, dtype
 ) -> typing.Optional[np.ndarray]:
@@ -162,8 +169,9 @@ def check_offset(
     """
     if offset is None:
         return None
+    dtype = _get_float_dtype(dtype)
     if np.isscalar(offset):
-        return np.full(n_rows, offset)
+        return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
@@ -190,6 +198,7 @@ def check_weights(
     force_all_finite: bool = True,
 ) -> np.ndarray:
     """Check that sample weights are non-negative and have the right shape."""
+    dtype = _get_float_dtype(dtype)
     if sample_weight is None:
         return np.ones(n_samples, dtype=dtype)
     if np.isscalar(sample_weight):
@@ -201,7 +210,7 @@ def check_weights(
         sample_weight,
         accept_sparse=False,
         ensure_2d=False,
-        dtype=[np.float64, np.float32],
+        dtype=dtype,
         **{keyword_finiteness: force_all_finite},
     )
 
-- 
2.43.0


From f7934524509f4b09d0d46269fdd6a66ca35bf1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 10/45] fix: accept positive semi-definite P2 despite rounding
 errors and check large sparse P2

---
 src/glum/_linalg.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 9ccb4ea..0e10fbc 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -4,6 +4,7 @@ from typing import Optional, Union
 import numpy as np
 import tabmat as tm
 from scipy import linalg, sparse
+from scipy.sparse import linalg as splinalg
 
 from ._utils import safe_toarray
 
@@ -22,26 +23,29 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
         return not any_negative
 
     # 2d case
-    # About -6e-7 for 32-bit, -1e-15 for 64-bit
+    # The rounding errors of the eigenvalues scale with the magnitude of the matrix
     epsneg = -10 * np.finfo(np.result_type(float, p.dtype)).epsneg
+    epsneg *= max(1.0, abs(p).sum(axis=0).max())
 
     if sparse.issparse(p):
         # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
-        # not huge, convert to dense. Otherwise, calculate 10% of its eigenvalues.
+        # not huge, convert to dense. Otherwise, check the signs of the pivots of a
+        # symmetric factorization, which are the signs of the eigenvalues.
         p = typing.cast(sparse.spmatrix, p)
         if p.shape[0] < 2000:
             eigenvalues = linalg.eigvalsh(p.toarray())
         else:
-            n_evals_to_compuate = p.shape[0] // 10 + 1
-            sigma = -1000 * epsneg  # start searching near this value
-            which = "SA"  # find smallest algebraic eigenvalues first
-            eigenvalues = linalg.eigsh(
-                p,
-                k=n_evals_to_compuate,
-                sigma=sigma,
-                which=which,
-                return_eigenvectors=False,
-            )
+            shifted = p - 100 * epsneg * sparse.identity(p.shape[0])
+            try:
+                lu = splinalg.splu(
+                    shifted.tocsc(),
+                    permc_spec="MMD_AT_PLUS_A",
+                    diag_pivot_thresh=0.0,
+                    options={"SymmetricMode": True},
+                )
+            except RuntimeError:  # exactly singular, unlike any shifted psd matrix
+                return False
+            return np.array_equal(lu.perm_r, lu.perm_c) and np.all(lu.U.diagonal() > 0)
     else:  # dense
         eigenvalues = linalg.eigvalsh(p)
 
-- 
2.43.0


From 808166a1b7c4a0aad16d2a1f6abae63a8306a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 11/45] fix: reject L1 penalties along a path if the solver
 ignores them

---
 src/glum/_glm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 9aa083d..bc86d38 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -686,6 +686,16 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         A_ineq: Optional[np.ndarray],
         b_ineq: Optional[np.ndarray],
     ) -> np.ndarray:
+        if (
+            np.any(P1_no_alpha > 0)
+            and np.any(np.asarray(alphas) > 0)
+            and self._solver != "irls-cd"
+        ):
+            raise ValueError(
+                f"The chosen solver (solver={self._solver}) can't deal "
+                "with L1 penalties."
+            )
+
         self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
-- 
2.43.0


From c1648f26688ff47d0e4cedac57079285c2b428fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 12/45] fix: raise NotImplementedError for the likelihood of
 tweedie with negative power

---
 src/glum/_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index bb6f8a0..84eaa2e 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -747,7 +747,7 @@ class TweedieDistribution(ExponentialDispersionModel):
             return poisson_log_likelihood(y, sample_weight, mu, 1.0)
         elif p == 2:
             return gamma_log_likelihood(y, sample_weight, mu, float(dispersion))
-        elif p < 2:
+        elif 1 < p < 2:
             return tweedie_log_likelihood(
                 y, sample_weight, mu, float(p), float(dispersion)
             )
-- 
2.43.0


From 0026d43f62d099581888e91e3648cbcb6c417f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 13/45] fix: start values and warm starts for models with a
 single feature

---
 src/glum/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 320cd52..21f9977 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -275,10 +275,10 @@ def standardize_warm_start(  # noda D
     coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
 ) -> None:
     if col_stds is None:
-        coef[0] += np.squeeze(col_means).dot(coef[1:])
+        coef[0] += np.ravel(col_means).dot(coef[1:])
     else:
         coef[1:] *= col_stds
-        coef[0] += np.squeeze(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
+        coef[0] += np.ravel(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
             coef[1:]
         )
 
-- 
2.43.0


From 3b58a946cfe9cea61c91a786f13e700e4b12a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 14/45] fix: trust-constr stopped far from the constrained
 optimum

scipy ends the interior point iteration as soon as the gradient of the
Lagrangian is below gtol, whatever barrier parameter it has reached, so
coefficients on an active constraint could be off by 1e-3 without a warning.
Only accept that criterion once the barrier parameter is negligible.
---
 src/glum/_solvers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d7e6d0c..8ab07d6 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -958,8 +958,19 @@ def _trust_constr_solver(
             lb=-np.inf,
             ub=b_ineq,
         )
+
+        # Once the gradient of the Lagrangian vanishes, scipy stops at whatever
+        # barrier parameter it has reached, i.e. possibly far from the optimum.
+        def callback(_, state):
+            return (
+                state.optimality < gtol
+                and state.constr_violation < gtol
+                and state.barrier_parameter < 1e-8
+            )
+
     else:
         constraints = ()
+        callback = None
 
     res = minimize(
         fun=fun,
@@ -968,15 +979,16 @@ def _trust_constr_solver(
         method="trust-constr",
         hess=SR1(),
         constraints=constraints,
+        callback=callback,
         options={
             "xtol": xtol,
-            "gtol": gtol,
+            "gtol": gtol if callback is None else 0.0,
             "maxiter": max_iter,
             "verbose": 2 if verbose else 0,
         },
     )
 
-    if not res["success"]:
+    if res["status"] not in (1, 2, 3):
         warnings.warn(
             f"trust-constr failed with message: {res['message']}",
             ConvergenceWarning,
-- 
2.43.0


From 3025a67a720054f55ad867281ed65bc7f6f09c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 15/45] fix: warn when trust-constr stops away from the optimum

The trust region can collapse (xtol) at a point with a large gradient, which
was returned as a success.
---
 src/glum/_solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 8ab07d6..142c6bb 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -988,7 +988,8 @@ def _trust_constr_solver(
         },
     )
 
-    if res["status"] not in (1, 2, 3):
+    # also when the trust region has collapsed away from the optimum
+    if res["status"] not in (1, 2, 3) or res["optimality"] > 100 * gtol:
         warnings.warn(
             f"trust-constr failed with message: {res['message']}",
             ConvergenceWarning,
-- 
2.43.0


From 0fbeea00e85e6310df9ffd0d7f0d06b575e3d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 16/45] fix: monotonic constraints ignored a dropped base level
 and the level order

With drop_first, or for the default bs() basis, the first column is dropped and
acts as a coefficient of zero, but the first remaining coefficient was not
constrained against it. Levels of categoricals were ordered lexicographically
instead of in the order of the categories.
---
 src/glum/_formula.py | 27 +++++++++++++++++++--------
 src/glum/_glm.py     |  7 +++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 40c381c..d3bbe17 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -128,12 +128,16 @@ def _build_monotonic_constraints(
     n_features: int | None = None,
     *,
     separator: str = ":",
+    levels: Mapping[str, Sequence[str]] | None = None,
 ) -> tuple[np.ndarray, np.ndarray]:
     """Build ``(A_ineq, b_ineq)`` enforcing monotonicity on ordered terms.
 
     Multi-column terms (splines, ordered categoricals) get consecutive-pair
     constraints; single-column terms get a sign constraint.  Interactions
     are constrained within each level of the other factor(s).
+
+    ``levels`` maps the names of categorical factors to their ordered levels.
+    A dropped first column of a categorical or spline is a coefficient of zero.
     """
     if n_features is None:
         n_features = len(feature_names)
@@ -158,19 +162,26 @@ def _build_monotonic_constraints(
 
         sign = 1.0 if direction == "increasing" else -1.0
 
+        order = {
+            level: i for i, level in enumerate((levels or {}).get(factor_name, ()))
+        }
+
         for group_key, members in groups.items():
-            if len(members) > 1:
+            if order:
+                members.sort(key=lambda member: order.get(member[1], len(order)))
+                first_dropped = order.get(members[0][1], 0) > 0
+            else:
                 members.sort(key=_sort_key)
-            if len(members) == 1:
+                first_dropped = factor_name.startswith("bs(") and members[0][1] == "1"
+            if len(members) == 1 or first_dropped:
                 row = np.zeros(n_features)
                 row[members[0][0]] = -sign
                 rows.append(row)
-            else:
-                for (idx_i, _), (idx_j, _) in zip(members[:-1], members[1:]):
-                    row = np.zeros(n_features)
-                    row[idx_i] = sign
-                    row[idx_j] = -sign
-                    rows.append(row)
+            for (idx_i, _), (idx_j, _) in zip(members[:-1], members[1:]):
+                row = np.zeros(n_features)
+                row[idx_i] = sign
+                row[idx_j] = -sign
+                rows.append(row)
 
     A_ineq = np.vstack(rows)
     b_ineq = np.zeros(A_ineq.shape[0])
diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index bc86d38..eb87dce 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1966,10 +1966,17 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             self.monotonic_constraints,
         )
 
+        levels = {
+            name: [str(category) for category in state["categories"]]
+            for name, (_, state) in self.X_model_spec_.encoder_state.items()
+            if "categories" in state
+        }
+
         return _build_monotonic_constraints(
             self.feature_names_,
             factor_constraints,
             separator=self.interaction_separator,
+            levels=levels,
         )
 
     def _set_up_and_check_fit_args(
-- 
2.43.0


From bac0758b1717fbc74aa7c10678acbef5e0fb42a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 17/45] fix: covariance matrices for integer designs

covariance_matrix raised a TypeError for integer matrices, which fit and
predict accept.
---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index eb87dce..e190349 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1647,7 +1647,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 X,
                 y,
                 accept_sparse=["csr", "csc", "coo"],
-                dtype="numeric",
+                dtype=[np.float64, np.float32],
                 copy=self._should_copy_X(),
                 ensure_2d=True,
                 allow_nd=False,
-- 
2.43.0


From 6ee396004d8e289928d76944686497bc0331b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 18/45] fix: accept any array-like target in score

score failed with an AttributeError for lists, which all other methods accept.
---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e190349..a78d89e 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1799,6 +1799,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         float
             D^2 of self.predict(X) w.r.t. y.
         """
+        y = np.asanyarray(y)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
         mu = self.predict(X, offset=offset, context=context)
-- 
2.43.0


From 749716497abff28fba526ff770468da604e77b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 19/45] fix: accept P1 in any numeric type for single precision
 data

For float32 designs, P1 given as a list or as a float64 or integer array was
rejected as not numeric.
---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a78d89e..899d6ba 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3286,7 +3286,7 @@ def setup_p1(
     else:
         P1 = np.atleast_1d(P1)
         try:
-            P1 = P1.astype(dtype, casting="safe", copy=False)  # type: ignore
+            P1 = P1.astype(dtype, casting="same_kind", copy=False)  # type: ignore
         except TypeError as e:
             raise TypeError(
                 "The given P1 cannot be converted to a numeric array; "
-- 
2.43.0


From 3a57a16edbf2cc1c160e88b23367895655c9a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 20/45] fix: convert start values and warm starts to the type
 of the data

start_params in double precision (or a warm start from a double precision fit)
failed with a buffer type mismatch for float32 designs, and vice versa. A warm
start no longer shares memory with the coefficients of the previous fit.
---
 src/glum/_glm.py    | 6 +++---
 src/glum/_glm_cv.py | 2 --
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 899d6ba..a21ad16 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -253,7 +253,6 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         offset: Optional[np.ndarray],
         col_means: np.ndarray,
         col_stds: Optional[np.ndarray],
-        dtype,
         lower_bounds: Optional[np.ndarray] = None,
         upper_bounds: Optional[np.ndarray] = None,
     ) -> np.ndarray:
@@ -264,6 +263,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             intercept = self.intercept_  # type: ignore
             if self.fit_intercept:
                 coef = np.concatenate((np.array([intercept]), coef))
+            # as a copy: do not modify the coefficients of the previous fit in place
+            coef = coef.astype(_float_itemsize_to_dtype[X.dtype.itemsize])
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
@@ -285,7 +286,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 self.start_params,
                 accept_sparse=False,
                 ensure_2d=False,
-                dtype=dtype,
+                dtype=_float_itemsize_to_dtype[X.dtype.itemsize],
                 copy=True,
                 **{keyword_finiteness: True},
             )
@@ -2869,7 +2870,6 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             offset,
             self.col_means_,
             self.col_stds_,
-            dtype=[np.float64, np.float32],
             lower_bounds=lower_bounds,
             upper_bounds=upper_bounds,
         )
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 6b8030f..eedfe4c 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -730,7 +730,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 offset_train,
                 self.col_means_,
                 self.col_stds_,
-                dtype=[np.float64, np.float32],
                 lower_bounds=lower_bounds,
                 upper_bounds=upper_bounds,
             )
@@ -869,7 +868,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             offset,
             self.col_means_,
             self.col_stds_,
-            dtype=X.dtype,
             lower_bounds=lower_bounds,
             upper_bounds=upper_bounds,
         )
-- 
2.43.0


From 987dae680ddb85ec1e62c0fe6f4410d3f941e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 21/45] fix: covariance matrices for single precision designs

covariance_matrix, std_errors, coef_table and wald_test failed with a TypeError
for float32 designs because weights in double precision were passed on.
---
 src/glum/_distribution.py | 1 +
 src/glum/_glm.py          | 4 +++-
 src/glum/_linalg.py       | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 84eaa2e..0dfbc15 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -493,6 +493,7 @@ class ExponentialDispersionModel(metaclass=ABCMeta):
             * link.inverse_derivative(linpred)
             * (y - mu)
         ).reshape(-1, 1)
+        W = np.asarray(W, dtype=X.dtype)
         XW = X.multiply(W)
         if fit_intercept:
             return hstack((W, XW))
diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a21ad16..e2ce228 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1684,7 +1684,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             )
 
         if (
-            np.linalg.cond(safe_toarray(X.sandwich(np.ones(X.shape[0]))))
+            np.linalg.cond(
+                safe_toarray(X.sandwich(np.ones(X.shape[0], dtype=X.dtype)))
+            )
             > 1 / sys.float_info.epsilon**2
         ):
             raise np.linalg.LinAlgError(
diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 0e10fbc..f7353d8 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -83,6 +83,7 @@ def _safe_sandwich_dot(
     as first column of ``X``. ``X`` can be sparse; ``d`` must be an ndarray.
     Always returns an ndarray.
     """
+    d = np.asarray(d, dtype=X.dtype)
     result = X.sandwich(d, rows, cols)
     if isinstance(result, sparse.dia_matrix):
         result = result.toarray()
-- 
2.43.0


From b306ea2cfc994252a9202450ed50f6388358b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 22/45] fix: binomial log likelihood and information criteria
 for lists

All other families accept array-like targets there.
---
 src/glum/_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 0dfbc15..4702b6d 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -1328,6 +1328,8 @@ class BinomialDistribution(ExponentialDispersionModel):
         dispersion : float, optional (default=1)
             Ignored.
         """
+        y, mu, sample_weight = _as_float_arrays(y, mu, sample_weight)
+
         ll = special.xlogy(y, mu) + special.xlogy(1 - y, 1 - mu)
         return np.sum(ll) if sample_weight is None else np.dot(ll, sample_weight)
 
-- 
2.43.0


From bd847bec58f8fb45cc8894b346821c48583f7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 23/45] fix: weighted predictions for several alphas

predict with sample_weight and a list of alphas raised a broadcasting error or,
if there were as many alphas as observations, multiplied the wrong axis.
---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e2ce228..f75d9af 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1005,9 +1005,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if sample_weight is None:
             return mu
 
-        sample_weight = check_weights(sample_weight, X.shape[0], X.dtype)
+        sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
 
-        return mu * sample_weight
+        # with several alphas, there is one column of predictions for each of them
+        return mu * (sample_weight if mu.ndim == 1 else sample_weight[:, np.newaxis])
 
     def coef_table(
         self,
-- 
2.43.0


From 775275689cff4ee815be3e3c4e5de7e41b8a6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 24/45] fix: accept arrays of alphas in a regularization path
 with solver='auto'

alpha given as a numpy array with alpha_search=True and l1_ratio > 0 raised
'The truth value of an array with more than one element is ambiguous'.
---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index f75d9af..ae5c5e5 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -399,8 +399,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                         np.all(np.asarray(self.l1_ratio) == 0)
                         or (
                             hasattr(self, "alpha")
-                            and self.alpha == 0
                             and not self.alpha_search
+                            and self.alpha == 0
                         )
                     )
                 ):
@@ -408,7 +408,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 elif np.all(np.asarray(self.l1_ratio) == 0):
                     self._solver = "irls-ls"
                 elif (
-                    hasattr(self, "alpha") and self.alpha == 0 and not self.alpha_search
+                    hasattr(self, "alpha") and not self.alpha_search and self.alpha == 0
                 ):
                     self._solver = "irls-ls"
                 else:
-- 
2.43.0


From 188148c58809d2e5ff53b9674e34211552dbb865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 25/45] fix: cross-validation with splitters that need the data
 for their number of folds

LeaveOneOut and LeavePOut failed with a TypeError after all folds were fitted.
---
 src/glum/_glm_cv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index eedfe4c..e527e01 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -803,24 +803,26 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         paths_data = joblib.Parallel(n_jobs=self.n_jobs, prefer="processes")(jobs)
 
+        n_folds = cv.get_n_splits(X, y)
+
         self.intercept_path_ = np.reshape(
             [elmt[0] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_folds, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.coef_path_ = np.reshape(
             [elmt[1] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_folds, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.deviance_path_ = np.reshape(
             [elmt[2] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_folds, len(l1_ratio), len(alphas[0])),
         )
 
         self.train_deviance_path_ = np.reshape(
             [elmt[3] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_folds, len(l1_ratio), len(alphas[0])),
         )
 
         avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
-- 
2.43.0


From 1ce09c5a046122bae7bd11a11dfa926c6d6e3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 26/45] fix: accept positive semi-definite P2 in single
 precision

The tolerance for negative eigenvalues was always that of double precision, so
singular penalties (differences, say) were rejected for float32 designs.
---
 src/glum/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index f7353d8..68b6286 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -24,7 +24,8 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
 
     # 2d case
     # The rounding errors of the eigenvalues scale with the magnitude of the matrix
-    epsneg = -10 * np.finfo(np.result_type(float, p.dtype)).epsneg
+    precision = p.dtype if np.issubdtype(p.dtype, np.floating) else float
+    epsneg = -10 * np.finfo(precision).epsneg
     epsneg *= max(1.0, abs(p).sum(axis=0).max())
 
     if sparse.issparse(p):
-- 
2.43.0


From 6f391a70e77182d538d826142b8e0da6db61fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 27/45] fix: lbfgs and trust-constr on single-precision designs

trust-constr failed on float32 sparse designs, and after lbfgs predictions
failed for float32 split matrices because the coefficients were float64.
---
 src/glum/_linalg.py  | 3 ++-
 src/glum/_solvers.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 68b6286..a80b6e2 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -61,7 +61,8 @@ def _safe_lin_pred(
     """Compute the linear predictor taking care if intercept is present."""
     idx_offset = 0 if X.shape[1] == coef.shape[0] else 1
     nonzero_coefs = np.where(coef[idx_offset:] != 0.0)[0].astype(np.int32)
-    res = X.matvec(coef[idx_offset:], cols=nonzero_coefs)
+    # tabmat needs the vector in the precision of the matrix
+    res = X.matvec(coef[idx_offset:].astype(X.dtype), cols=nonzero_coefs)
 
     if idx_offset == 1:
         res += coef[0]
diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 142c6bb..3017c6b 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -912,7 +912,7 @@ def _lbfgs_solver(
         warnings.warn("lbfgs failed for the reason: {}".format(info["task"]))
     n_iter_ = info["nit"]
 
-    return coef, n_iter_, -1, None
+    return coef.astype(X.dtype), n_iter_, -1, None
 
 
 def _trust_constr_solver(
@@ -995,7 +995,7 @@ def _trust_constr_solver(
             ConvergenceWarning,
         )
 
-    return res["x"], res["nit"], -1, None
+    return res["x"].astype(X.dtype), res["nit"], -1, None
 
 
 def _build_monotonic_penalty(
-- 
2.43.0


From 0701b8848d58f23003734c60a78606872cef4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:09 +0000
Subject: [PATCH 28/45] fix: scale warm start and start_params without an
 intercept

The start values were given on the scale of the original columns to the
standardized problem, i.e. a warm start could begin far from the previous
solution.
---
 src/glum/_glm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index ae5c5e5..31cc09c 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -267,6 +267,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             coef = coef.astype(_float_itemsize_to_dtype[X.dtype.itemsize])
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef *= col_stds
 
         elif self.start_params is None:
             if self.fit_intercept:
@@ -300,6 +302,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef *= col_stds
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound.
-- 
2.43.0


From 6be7260beec6b01487c77e2820c5712c2183a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 29/45] fix: levels of Polars Categorical columns at prediction

The levels stored at fit were those of the global Polars string cache, in
order of appearance and possibly of other columns, whereas the design uses the
sorted levels of the column: predictions silently mixed up the levels.
---
 src/glum/_glm.py   |  3 ++-
 src/glum/_utils.py | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 31cc09c..b6b9ce0 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -59,6 +59,7 @@ from ._utils import (
     add_missing_categories,
     align_df_categories,
     expand_categorical_penalties,
+    get_category_levels,
     is_contiguous,
     safe_toarray,
     standardize,
@@ -2098,7 +2099,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 X = cast(nw.DataFrame, nw.from_native(X))  # avoid inferring `Never`
 
                 self._categorical_levels_ = {
-                    col: X[col].cat.get_categories().to_list()
+                    col: get_category_levels(X[col])
                     for col, dtype in X.schema.items()
                     if isinstance(dtype, (nw.Categorical, nw.Enum))
                 }
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 21f9977..c6f8de3 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -11,6 +11,17 @@ from scipy import sparse
 _logger = logging.getLogger(__name__)
 
 
+def get_category_levels(column: nw.Series) -> list[str]:
+    """Levels of a categorical column in the order of its columns in the design."""
+    if nw.get_native_namespace(column).__name__ == "polars" and isinstance(
+        column.dtype, nw.Categorical
+    ):
+        # The categories of a Polars Categorical (not Enum) are not those of the
+        # column but shared by all columns. tabmat uses the sorted observed levels.
+        return column.drop_nulls().unique().sort().to_list()
+    return column.cat.get_categories().to_list()
+
+
 def align_df_categories(
     df: nw.DataFrame,
     categorical_levels: dict[str, list[str]],
@@ -152,17 +163,10 @@ def expand_categorical_penalties(
             )
 
         expanded_penalty = []  # type: ignore
-        backend = nw.get_native_namespace(X).__name__
 
         for element, (column, dt) in zip(penalty, X.schema.items()):
             if isinstance(dt, (nw.Enum, nw.Categorical)):
-                # For Polars Categorical (not Enum), avoid .cat.get_categories()
-                # due to string cache issues. Enum is safe to use.
-                if backend == "polars" and isinstance(dt, nw.Categorical):
-                    num_categories = len(X[column].unique().drop_nulls())
-                else:
-                    num_categories = len(X[column].cat.get_categories())
-
+                num_categories = len(get_category_levels(X[column]))
                 length = num_categories + has_missing_category[column] - drop_first
                 expanded_penalty.extend(element for _ in range(length))
             else:
-- 
2.43.0


From ff08bc19d33d85a5dbdad0f51c51b1bf7b9fdc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 30/45] fix: accept two-dimensional penalties when categorical
 expansion keeps the number of columns

---
 src/glum/_utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index c6f8de3..20c265d 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -155,16 +155,10 @@ def expand_categorical_penalties(
         penalty = np.asanyarray(penalty)
 
     if penalty.shape[0] == X.shape[1]:
-        if penalty.ndim == 2:
-            raise ValueError(
-                "When the penalty is two-dimensional, it must have the "
-                "same length as the number of columns in the design "
-                "matrix `X` after expanding categorical columns."
-            )
-
         expanded_penalty = []  # type: ignore
+        elements = penalty if penalty.ndim == 1 else penalty.diagonal()
 
-        for element, (column, dt) in zip(penalty, X.schema.items()):
+        for element, (column, dt) in zip(elements, X.schema.items()):
             if isinstance(dt, (nw.Enum, nw.Categorical)):
                 num_categories = len(get_category_levels(X[column]))
                 length = num_categories + has_missing_category[column] - drop_first
@@ -172,6 +166,15 @@ def expand_categorical_penalties(
             else:
                 expanded_penalty.append(element)
 
+        if penalty.ndim == 2:
+            if len(expanded_penalty) == penalty.shape[0]:
+                return penalty
+            raise ValueError(
+                "When the penalty is two-dimensional, it must have the "
+                "same length as the number of columns in the design "
+                "matrix `X` after expanding categorical columns."
+            )
+
         return np.array(expanded_penalty)
 
     else:
-- 
2.43.0


From 4aca80e83106bd70bef5e98b6777c5748adceee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 31/45] fix: accept one-by-one sparse arrays as P2

---
 src/glum/_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index a80b6e2..dbf7820 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -19,7 +19,7 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
     """
     # 1d case
     if p.ndim == 1 or p.shape[0] == 1:
-        any_negative = (p < 0).max() if sparse.isspmatrix(p) else (p < 0).any()
+        any_negative = (p < 0).max() if sparse.issparse(p) else (p < 0).any()
         return not any_negative
 
     # 2d case
-- 
2.43.0


From c6e4b3af3e2ad7d438344eea00e88feb4392996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 32/45] fix: evaluate formula contexts in every method, also
 for the response

---
 src/glum/_glm.py    | 23 ++++++++++++++++-------
 src/glum/_glm_cv.py |  6 ++++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b6b9ce0..4e01682 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -897,7 +897,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             alpha_index=alpha_index,
             coef_path=self.coef_path_ if use_path else self.coef_,
             intercept_path=self.intercept_path_ if use_path else self.intercept_,
-            context=context,
+            context=capture_context(context),
         )
 
     def _compute_linear_predictor(
@@ -1643,12 +1643,15 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     )
                 return self.covariance_matrix_
 
+            context = capture_context(context)
+
             if hasattr(self, "y_model_spec_"):
-                y = self.y_model_spec_.get_model_matrix(X).toarray().ravel()
+                y = self.y_model_spec_.get_model_matrix(X, context=context)
+                y = y.toarray().ravel()
                 # This has to go first because X is modified in the next line
 
             if nw.dependencies.is_into_dataframe(X):
-                X = self._convert_from_df(X, context=capture_context(context))
+                X = self._convert_from_df(X, context=context)
 
             X, y = check_X_y_tabmat_compliant(
                 X,
@@ -1811,7 +1814,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         y = np.asanyarray(y)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
-        mu = self.predict(X, offset=offset, context=context)
+        mu = self.predict(X, offset=offset, context=capture_context(context))
         y_mean: float = np.average(y, weights=sample_weight)
 
         dev = self.family_instance.deviance(y, mu, sample_weight=sample_weight)
@@ -3076,7 +3079,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("aic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "aic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def aicc(
         self,
@@ -3115,7 +3120,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        aicc = self._get_info_criteria("aicc", X, y, sample_weight, context=context)
+        aicc = self._get_info_criteria(
+            "aicc", X, y, sample_weight, context=capture_context(context)
+        )
 
         if not aicc:
             msg = "Model degrees of freedom should be more than training data points."
@@ -3159,7 +3166,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("bic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "bic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def _get_info_criteria(
         self,
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index e527e01..aa61fc1 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -478,7 +478,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         alpha_index = self._resolve_alpha_index(alpha_index, alpha)
 
         if alpha_index is None:
-            return super().linear_predictor(X, offset, context=context)
+            return super().linear_predictor(
+                X, offset, context=capture_context(context)
+            )
 
         return self._compute_linear_predictor(
             X,
@@ -486,7 +488,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             alpha_index=alpha_index,
             coef_path=self._refit_coef_path,
             intercept_path=self._refit_intercept_path,
-            context=context,
+            context=capture_context(context),
         )
 
     def _validate_hyperparameters(self) -> None:
-- 
2.43.0


From 4197bd5d9234239621f50dfc05940e4e424d8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 33/45] fix: use cat_missing_name with formulas

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4e01682..63e5442 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2062,6 +2062,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     ensure_full_rank=self.drop_first,
                     categorical_format=self.categorical_format,
                     cat_missing_method=self.cat_missing_method,
+                    cat_missing_name=self.cat_missing_name,
                     interaction_separator=self.interaction_separator,
                     add_column_for_intercept=False,
                     context=context,
-- 
2.43.0


From 996d0b3cc719451932b01b4fee811bf69a8629c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:36 +0000
Subject: [PATCH 34/45] fix: reject crossed bounds in
 GeneralizedLinearRegressorCV

---
 src/glum/_glm_cv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index aa61fc1..a1d7938 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -636,6 +636,10 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         lower_bounds = check_bounds(self.lower_bounds, X.shape[1], X.dtype)
         upper_bounds = check_bounds(self.upper_bounds, X.shape[1], X.dtype)
 
+        if (lower_bounds is not None) and (upper_bounds is not None):
+            if np.any(lower_bounds > upper_bounds):
+                raise ValueError("Upper bounds must be higher than lower bounds.")
+
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
         elif self.A_ineq is not None and self.b_ineq is not None:
-- 
2.43.0


From 804f2cef2aae87dd15452533c541b2992312795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 35/45] fix: validate A_ineq and b_ineq in
 GeneralizedLinearRegressorCV

---
 src/glum/_glm_cv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index a1d7938..539215f 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -1,4 +1,3 @@
-import copy
 from collections.abc import Mapping, Sequence
 from typing import Any, Optional, Union
 
@@ -14,7 +13,7 @@ from ._linalg import _safe_lin_pred, is_pos_semidef
 from ._link import Link, LogLink
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
-from ._validation import check_bounds
+from ._validation import check_bounds, check_inequality_constraints
 
 
 class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
@@ -642,11 +641,12 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
-        elif self.A_ineq is not None and self.b_ineq is not None:
-            A_ineq = copy.copy(self.A_ineq)
-            b_ineq = copy.copy(self.b_ineq)
         else:
-            A_ineq, b_ineq = None, None
+            A_ineq, b_ineq = self.A_ineq, self.b_ineq
+
+        A_ineq, b_ineq = check_inequality_constraints(
+            A_ineq, b_ineq, n_features=X.shape[1], dtype=X.dtype
+        )
 
         cv = skl.model_selection.check_cv(self.cv)
 
-- 
2.43.0


From a3e9af1e41f215459d71429459fbe3ee787c89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 36/45] fix: cross-validation folds sharing state when run in
 threads

---
 src/glum/_glm.py    |  9 ++++++---
 src/glum/_glm_cv.py | 12 ++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 63e5442..70f0afa 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -702,7 +702,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 "with L1 penalties."
             )
 
-        self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
+        # local until complete: folds may run concurrently on the same estimator
+        coef_path = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
             P1 = P1_no_alpha * alpha
@@ -731,9 +732,11 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     f"alpha={alpha:.3e}, time={toc - tic:.2f}s, n_iter={self.n_iter_}"
                 )
 
-            self.coef_path_[k, :] = coef
+            coef_path[k, :] = coef
 
-        return self.coef_path_
+        self.coef_path_ = coef_path
+
+        return coef_path
 
     def report_diagnostics(
         self,
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 539215f..ecd83f8 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -702,8 +702,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
             (
                 x_train,
-                self.col_means_,
-                self.col_stds_,
+                col_means,
+                col_stds,
                 lower_bounds,
                 upper_bounds,
                 A_ineq,
@@ -734,8 +734,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 y_train,
                 w_train,
                 offset_train,
-                self.col_means_,
-                self.col_stds_,
+                col_means,
+                col_stds,
                 lower_bounds=lower_bounds,
                 upper_bounds=upper_bounds,
             )
@@ -771,7 +771,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             # x and coefficient rescaling differs by self.fit_intercept.
             if self.fit_intercept:
                 intercept_path_, coef_path_ = unstandardize(
-                    self.col_means_, self.col_stds_, coef[:, 0], coef[:, 1:]
+                    col_means, col_stds, coef[:, 0], coef[:, 1:]
                 )
                 assert isinstance(intercept_path_, np.ndarray)  # make mypy happy
                 full_coef_path = np.concatenate(
@@ -781,7 +781,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             else:
                 # set intercept to zero as the other linear models do
                 intercept_path_, coef_path_ = unstandardize(
-                    self.col_means_, self.col_stds_, np.zeros(coef.shape[0]), coef
+                    col_means, col_stds, np.zeros(coef.shape[0]), coef
                 )
                 deviance_path_ = [_get_deviance(_coef) for _coef in coef_path_]
 
-- 
2.43.0


From 5cdab9a40854e5ea9c5bc6c65f7d745eb80c766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 37/45] fix: keep P2 in the precision of the data when l1_ratio
 is a NumPy scalar

Cross-validation passes elements of an array of l1_ratios, which promoted a
single-precision P2 to double and so rejected positive semi-definite penalties.
---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 70f0afa..87ffccd 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3380,7 +3380,7 @@ def setup_p2(
             )
 
     # P1 and P2 are now for sure copies
-    P2 = alpha * (1 - l1_ratio) * P2  # type: ignore
+    P2 = float(alpha * (1 - l1_ratio)) * P2  # type: ignore
     # one only ever needs the symmetrized L2 penalty matrix 1/2 (P2 + P2')
     # reason: w' P2 w = (w' P2 w)', i.e. it is symmetric
     if P2.ndim == 2:  # type: ignore
-- 
2.43.0


From 4482574cd66cc94d25bc5a7b5cf749fc1a4a8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:45 +0000
Subject: [PATCH 38/45] fix: decide about convergence of monotonic IRLS with
 the penalty of the constraints violated by the current coefficients

---
 src/glum/_solvers.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 3017c6b..f5fb43a 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1072,17 +1072,6 @@ def _monotonic_irls_solver(
         while state.n_iter < data.max_iter and not state.converged:
             pb._update(state.n_iter, state.iteration_runtime, state.norm_min_subgrad)
 
-            violations = A_ineq @ state.coef[idx:] - b_ineq
-            if np.any(violations > 0):
-                constraint_lam = min(
-                    constraint_lam * constraint_lam_factor, constraint_lam_max
-                )
-
-            penalty_changed = _update_constraint_penalty(state.coef, constraint_lam)
-
-            if penalty_changed:
-                state.hessian_initialized = False
-
             state.old_active_set = state.active_set
             state.active_set = identify_active_set(state, data)
 
@@ -1102,6 +1091,20 @@ def _monotonic_irls_solver(
             ) = line_search(state, data, d)
             state.n_updated = np.sum(np.abs(d) > 0)
 
+            # The penalty is that of the constraints violated by the new
+            # coefficients. In particular, the others must not contribute to the
+            # gradient that decides about convergence.
+            violations = A_ineq @ state.coef[idx:] - b_ineq
+            if np.any(violations > 0):
+                constraint_lam = min(
+                    constraint_lam * constraint_lam_factor, constraint_lam_max
+                )
+            if _update_constraint_penalty(state.coef, constraint_lam):
+                state.hessian_initialized = False
+                state.obj_val -= 0.5 * (coef_P2 @ state.coef)
+                coef_P2 = _make_coef_P2(data.intercept_offset, data.P2, state.coef)
+                state.obj_val += 0.5 * (coef_P2 @ state.coef)
+
             state.gradient_rows, state.score, state.hessian_rows = update_quadratic(
                 state, data, coef_P2
             )
-- 
2.43.0


From 1d49b7a9eddac001c6ae19baf3fc8bb537ab453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:00 +0000
Subject: [PATCH 39/45] fix: predict and score with an offset given as a polars
 Series or an object array

---
 src/glum/_glm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 87ffccd..2aec6bc 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -931,6 +931,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 f"is expecting {self.n_features_in_} features as input."
             )
 
+        if offset is not None:
+            # not every container accepted by ``fit`` can be added to an array in place
+            offset = np.asarray(offset, dtype=np.float64)
+
         if alpha_index is None:
             xb = X @ coef_path + intercept_path
             if offset is not None:
@@ -945,7 +949,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 _xb.append(X @ coef_path[idx] + intercept_path[idx])  # type: ignore
             xb = np.stack(_xb, axis=1)
             if offset is not None:
-                xb += np.asanyarray(offset)[:, np.newaxis]
+                xb += offset[:, np.newaxis]
 
         return xb
 
-- 
2.43.0


From 97ec3fcb7e663225097ca879aac3fd700cf0c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:00 +0000
Subject: [PATCH 40/45] fix: score with an object-dtype response, as accepted
 by fit

---
 src/glum/_glm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2aec6bc..67b0e06 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1819,6 +1819,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             D^2 of self.predict(X) w.r.t. y.
         """
         y = np.asanyarray(y)
+        if y.dtype.kind == "O":  # as accepted by ``fit``
+            y = y.astype(np.float64)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
         mu = self.predict(X, offset=offset, context=capture_context(context))
-- 
2.43.0


From 2993b57d6b0787d0b007a8d7c5be34b6e7036041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 41/45] fix: evaluate the objective of a benchmark run at the
 alpha it was run with

---
 glum_benchmarks/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glum_benchmarks/util.py b/glum_benchmarks/util.py
index f5543b0..52e079d 100644
--- a/glum_benchmarks/util.py
+++ b/glum_benchmarks/util.py
@@ -490,8 +490,8 @@ def execute_problem_library(
         result["num_rows"] = dat["y"].shape[0]
 
         if "X" in dat:
-            # Use best_alpha from CV if available, otherwise use base alpha
-            alpha_for_obj = result.get("best_alpha", P.alpha)
+            # Use best_alpha from CV if available, otherwise the alpha of this run
+            alpha_for_obj = result.get("best_alpha", params.alpha)
             alpha_for_obj = (
                 alpha_for_obj / np.asarray(dat["sample_weight"]).mean()
                 if "sample_weight" in dat
-- 
2.43.0


From 85a8a40380df889d99ae21b6597a1ab68b58b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 42/45] fix: simulate sparse features reproducibly from
 random_seed

---
 glum_benchmarks/data/simulated_glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glum_benchmarks/data/simulated_glm.py b/glum_benchmarks/data/simulated_glm.py
index 6d945aa..4ea29a3 100644
--- a/glum_benchmarks/data/simulated_glm.py
+++ b/glum_benchmarks/data/simulated_glm.py
@@ -138,7 +138,9 @@ def simulate_mixed_data(
 
     # Creating sparse component
     sparse_feature_names = [f"sparse{i}" for i in range(sparse_features)]
-    X_sparse = sps.random(n_rows, sparse_features, density=sparse_density).toarray()
+    X_sparse = sps.random(
+        n_rows, sparse_features, density=sparse_density, random_state=random_seed
+    ).toarray()
     X_sparse = pd.DataFrame(data=X_sparse, columns=sparse_feature_names)
     coefs_sparse = rand.choice([0, 1, -1], size=sparse_features)
     coefs_sparse = pd.Series(data=coefs_sparse, index=sparse_feature_names)
-- 
2.43.0


From 702ee0e8e5d8a1de62c6a53b5c7e7b4287d960d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:55 +0000
Subject: [PATCH 43/45] fix: simulate data without dense or without categorical
 features

---
 glum_benchmarks/data/simulated_glm.py | 34 ++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/glum_benchmarks/data/simulated_glm.py b/glum_benchmarks/data/simulated_glm.py
index 4ea29a3..fee3146 100644
--- a/glum_benchmarks/data/simulated_glm.py
+++ b/glum_benchmarks/data/simulated_glm.py
@@ -122,19 +122,18 @@ def simulate_mixed_data(
     rand = np.random.default_rng(random_seed)
 
     # Creating dense component
-    if dense_features > 0:
-        dense_feature_names = [f"dense{i}" for i in range(dense_features)]
-        X_dense = rand.normal(
-            rand.integers(-2, 2, size=dense_features), size=(n_rows, dense_features)
-        )
-        X_dense = pd.DataFrame(data=X_dense, columns=dense_feature_names)
-        coefs_dense = np.concatenate(
-            [
-                [1, 0.5, 0.1, -0.1, -0.5, -1, 0, 0, 0, 0],
-                rand.choice([0, 1, -1], size=dense_features),
-            ]
-        )[:dense_features]
-        coefs_dense = pd.Series(data=coefs_dense, index=dense_feature_names)
+    dense_feature_names = [f"dense{i}" for i in range(dense_features)]
+    X_dense = rand.normal(
+        rand.integers(-2, 2, size=dense_features), size=(n_rows, dense_features)
+    )
+    X_dense = pd.DataFrame(data=X_dense, columns=dense_feature_names)
+    coefs_dense = np.concatenate(
+        [
+            [1, 0.5, 0.1, -0.1, -0.5, -1, 0, 0, 0, 0],
+            rand.choice([0, 1, -1], size=dense_features),
+        ]
+    )[:dense_features]
+    coefs_dense = pd.Series(data=coefs_dense, index=dense_feature_names)
 
     # Creating sparse component
     sparse_feature_names = [f"sparse{i}" for i in range(sparse_features)]
@@ -154,9 +153,12 @@ def simulate_mixed_data(
     # Convert categorical columns to dtype 'category'
     for col in X_cat.columns:
         X_cat[col] = X_cat[col].astype("category")
-    X_cat_ohe = pd.get_dummies(
-        X_cat, columns=cat_feature_names, drop_first=drop_first, dtype=float
-    )
+    if categorical_features > 0:
+        X_cat_ohe = pd.get_dummies(
+            X_cat, columns=cat_feature_names, drop_first=drop_first, dtype=float
+        )
+    else:
+        X_cat_ohe = X_cat
 
     coefs_cat = pd.Series(
         data=rand.uniform(size=len(X_cat_ohe.columns)), index=X_cat_ohe.columns
-- 
2.43.0


From ed4e0cd731a96bcdf8e5b9e94a5aca0363670211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:36 +0000
Subject: [PATCH 44/45] fix: cross-validation of a Tweedie(1.5) model does not
 require a log link

---
 src/glum/_glm_cv.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index ecd83f8..342a734 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -10,7 +10,7 @@ from ._distribution import ExponentialDispersionModel
 from ._formula import capture_context
 from ._glm import GeneralizedLinearRegressorBase, setup_p1, setup_p2
 from ._linalg import _safe_lin_pred, is_pos_semidef
-from ._link import Link, LogLink
+from ._link import Link
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
 from ._validation import check_bounds, check_inequality_constraints
@@ -589,11 +589,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         #########
         # Checks
         self._set_up_for_fit(y)
-        if (
-            hasattr(self._family_instance, "_power")
-            and self._family_instance._power == 1.5  # type: ignore
-        ):
-            assert isinstance(self._link_instance, LogLink)
 
         l1_ratio = np.atleast_1d(self.l1_ratio)
 
@@ -691,12 +686,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 )
                 return self._family_instance.deviance(y_test, mu, sample_weight=w_test)
 
-            if (
-                hasattr(self._family_instance, "_power")
-                and self._family_instance._power == 1.5
-            ):
-                assert isinstance(self._link_instance, LogLink)
-
             P1_no_alpha = setup_p1(P1, X, X.dtype, 1, l1)
             P2_no_alpha = setup_p2(P2, X, _stype, X.dtype, 1, l1)
 
-- 
2.43.0


From 4d5600b59528b987b02588beab5041031ec8d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:11 +0000
Subject: [PATCH 45/45] fix: the same columns count as constant when scaling
 and when unscaling

---
 src/glum/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 20c265d..830159d 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -313,7 +313,8 @@ def _one_over_var_inf_to_val(arr: np.ndarray, val: float) -> np.ndarray:
 
     If values are zeros, return val.
     """
-    zeros = np.where(np.abs(arr) < 10 * np.sqrt(np.finfo(arr.dtype).eps))
+    # the same threshold as in tabmat's ``standardize``, which scales the columns
+    zeros = np.where(np.abs(arr) < 1e-7)
     with np.errstate(divide="ignore"):
         one_over = 1 / arr
     one_over[zeros] = val
-- 
2.43.0

