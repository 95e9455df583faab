From f5e9f23fd213ccdefacaf3f54b75028f53615364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 01/34] fix: support problems that only have lower or only have
 upper bounds

_any_bounds_binding raised an UnboundLocalError if one of the two bounds was None.
---
 src/tranquilo/region.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index 52bbcc7..e1d9e3b 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -144,6 +144,7 @@ def _any_bounds_binding(bounds, center, radius):
     """Check if any bound is binding, i.e. inside the trustregion."""
     out = False
     if bounds is not None and bounds.has_any:
+        lower_binding, upper_binding = False, False
         if bounds.lower is not None:
             lower_binding = np.min(center - bounds.lower) <= radius
         if bounds.upper is not None:
-- 
2.43.0


From 7e5acc2dcc1cbf7c729a750e874922f1996be3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 02/34] fix: keep subproblem solutions inside spherical
 trustregions

The gqtpar solvers return points with a norm of up to 1.1 (k_easy) or even 2 (hard
case), i.e. candidates outside the trustregion that can violate nearby bounds.
---
 src/tranquilo/solve_subproblem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tranquilo/solve_subproblem.py b/src/tranquilo/solve_subproblem.py
index f08ed81..12ba5fa 100644
--- a/src/tranquilo/solve_subproblem.py
+++ b/src/tranquilo/solve_subproblem.py
@@ -206,6 +206,11 @@ def _solve_subproblem_template(
 
     if trustregion.shape == "cube":
         raw_result["x"] = np.clip(raw_result["x"], -1.0, 1.0)
+    else:
+        # The sphere solvers only satisfy the norm constraint approximately.
+        x_norm = np.linalg.norm(raw_result["x"])
+        if x_norm > 1.0:
+            raw_result["x"] = raw_result["x"] / x_norm
 
     # make sure expected improvement is calculated accurately in case of clipping and
     # does not depend on whether the subsolver ignores intercepts or not.
-- 
2.43.0


From a461a7e07fbf761015913ec9c3d1d451cd90be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 03/34] fix: do not evaluate line search points outside of the
 bounds

---
 src/tranquilo/acceptance_decision.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 534b339..2cf6b59 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -134,6 +134,11 @@ def accept_classic_line_search(
         line_search_xs = _sample_on_line(
             start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid
         )
+
+        # Points beyond the candidate can leave the trustregion but not the bounds
+        bounds = state.trustregion.bounds
+        if bounds is not None and bounds.has_any:
+            line_search_xs = np.clip(line_search_xs, bounds.lower, bounds.upper)
     else:
         line_search_xs = None
 
-- 
2.43.0


From 3c11649b6a3401fba8eb64f6832f562c0fab3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 04/34] fix: scale the interaction terms of a model correctly
 for cube regions

With one scaling factor per parameter, entry (i, j) of the square terms has to be
multiplied by factor[i] * factor[j], not by factor[j] ** 2.
---
 src/tranquilo/models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 50b63da..28c7821 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -162,7 +162,13 @@ def _scale_model(model, factor):
 
     """
     new_g = model.linear_terms * factor
-    new_h = None if model.square_terms is None else model.square_terms * factor**2
+
+    if model.square_terms is None:
+        new_h = None
+    elif np.ndim(factor) == 0:
+        new_h = model.square_terms * factor**2
+    else:
+        new_h = model.square_terms * np.outer(factor, factor)
 
     out = model._replace(
         linear_terms=new_g,
-- 
2.43.0


From fb3d989d20838baa2b7186005d2a14fde67fa39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 05/34] fix: allow to shift linear scalar models

---
 src/tranquilo/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 28c7821..153b894 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -190,7 +190,10 @@ def _shift_scalar_model(model, shift):
 
     """
     new_c = model.predict(shift)
-    new_g = model.linear_terms + model.square_terms @ shift
+    new_g = model.linear_terms
+
+    if model.square_terms is not None:
+        new_g = new_g + model.square_terms @ shift
 
     out = model._replace(
         intercept=new_c,
-- 
2.43.0


From d66fa75d16a9d91d33f66a9dc37e61b44cc1fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 06/34] fix: never reduce the trustregion radius below
 min_radius

With a finite max_radius_to_step_ratio a rejected step set the radius to zero.
---
 src/tranquilo/adjust_radius.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tranquilo/adjust_radius.py b/src/tranquilo/adjust_radius.py
index 94502c2..2f2c2de 100644
--- a/src/tranquilo/adjust_radius.py
+++ b/src/tranquilo/adjust_radius.py
@@ -35,6 +35,7 @@ def adjust_radius(radius, rho, step_length, options, n_evals_is_increased):
         max_radius = np.min(
             [options.max_radius, step_length * options.max_radius_to_step_ratio]
         )
+        max_radius = max(max_radius, options.min_radius)
     else:
         max_radius = options.max_radius
 
-- 
2.43.0


From 4e924688e7512fa1a3af1b05dffa0294cfe8d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 07/34] fix: use a positive initial radius if all start
 parameters are zero

---
 src/tranquilo/options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index c83eced..e2c8e6a 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -28,7 +28,9 @@ def get_default_sample_filter(batch_size):
 
 
 def get_default_radius_options(x):
-    return RadiusOptions(initial_radius=0.1 * np.max(np.abs(x)))
+    max_abs_x = np.max(np.abs(x))
+    initial_radius = 0.1 * max_abs_x if max_abs_x > 0 else 0.1
+    return RadiusOptions(initial_radius=initial_radius)
 
 
 def get_default_batch_size(n_cores):
-- 
2.43.0


From 10f9f1f6574e95e6a9e1fb4a37cc4b3d7dddf64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 08/34] fix: do not truncate the hardness option of the sampler
 to an integer

---
 src/tranquilo/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index e2c8e6a..2b98ddc 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -197,7 +197,7 @@ class FilterOptions(NamedTuple):
 
 class SamplerOptions(NamedTuple):
     distribution: str = None
-    hardness: float = 1
+    hardness: float = 1.0
     algorithm: str = "L-BFGS-B"
     algo_options: dict = None
     criterion: str = None
-- 
2.43.0


From 2924fecaa3efa7e0bcf60f3b4afbf616335a86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 09/34] fix: do not modify the user's algo_options in the
 sampler

The dimension dependent default for maxiter leaked into later optimizations.
---
 src/tranquilo/sample_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/sample_points.py b/src/tranquilo/sample_points.py
index 5ff0745..b49f6ed 100644
--- a/src/tranquilo/sample_points.py
+++ b/src/tranquilo/sample_points.py
@@ -241,7 +241,7 @@ def _optimal_hull_sampler(
     if criterion is None:
         criterion = "determinant" if n_points == 1 else "distance"
 
-    algo_options = {} if algo_options is None else algo_options
+    algo_options = {} if algo_options is None else dict(algo_options)
     if "maxiter" not in algo_options:
         algo_options["maxiter"] = 2 * n_params + 5
 
-- 
2.43.0


From fec6c701bd730aa9c9998f19a42c8640c73ed422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 10/34] fix: do not reseed the global numpy random state in the
 multistart solver

The start values are an unscrambled sobol sequence with its own seed.
---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 5192aad..0fdb711 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -39,7 +39,6 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
 
 
 def robust_cube_solver_multistart(model, x_candidate):
-    np.random.seed(12345)
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From f8dbe178462833c902b719fdc100b63a90a0e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 11/34] fix: make the built-in fallback solvers available as
 cube_subsolver

fallback_cube and fallback_multistart always solve the problem in the unit cube and
do not have bounds in their signature.
---
 src/tranquilo/solve_subproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/solve_subproblem.py b/src/tranquilo/solve_subproblem.py
index 12ba5fa..84e8b76 100644
--- a/src/tranquilo/solve_subproblem.py
+++ b/src/tranquilo/solve_subproblem.py
@@ -102,7 +102,7 @@ def get_subsolver(sphere_solver, cube_solver, retry_with_fallback, user_options=
         func_dict=built_in_cube_solvers,
         default_options=SubsolverOptions(),
         user_options=user_options,
-        mandatory_signature=["model", "x_candidate", "lower_bounds", "upper_bounds"],
+        mandatory_signature=["model", "x_candidate"],
     )
 
     _fallback_sphere_solver = get_component(
-- 
2.43.0


From bf025b478af00788f4380a71c8e751fcf0b67b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 12/34] fix: handle failed evaluations of vector valued
 criterion functions

Exceptions were replaced by a scalar infinity, such that a single failed evaluation in
a batch of least-squares or likelihood evaluations aborted the optimization.
---
 src/tranquilo/wrap_criterion.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/wrap_criterion.py b/src/tranquilo/wrap_criterion.py
index 13765d5..bce38b2 100644
--- a/src/tranquilo/wrap_criterion.py
+++ b/src/tranquilo/wrap_criterion.py
@@ -54,8 +54,9 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
 
         # The batch evaluator replaces exceptions with their traceback (str) when
         # error_handling="continue". We replace these cases with infinity.
+        failed_eval = _get_failed_eval(raw_evals, history)
         raw_evals_with_replaced_traceback = [
-            np.inf if isinstance(x, str) else x for x in raw_evals
+            failed_eval if isinstance(x, str) else x for x in raw_evals
         ]
 
         # replace NaNs but keep infinite values. NaNs would be problematic in many
@@ -73,6 +74,18 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
     return wrapper_criterion
 
 
+def _get_failed_eval(raw_evals, history):
+    """Get an infinite evaluation with the same shape as successful evaluations."""
+    successful_evals = [x for x in raw_evals if not isinstance(x, str)]
+    if successful_evals:
+        out = np.full(np.shape(successful_evals[0]), np.inf)
+    elif history.functype != "scalar" and history.fvecs is not None:
+        out = np.full(history.fvecs.shape[1], np.inf)
+    else:
+        out = np.inf
+    return out
+
+
 def process_batch_evaluator(batch_evaluator="joblib"):
     batch_evaluator = "joblib" if batch_evaluator is None else batch_evaluator
 
-- 
2.43.0


From d9a1d67f4329ce45c24cf7fb4f568bc1125c1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 13/34] fix: estimate the noise variance from successful
 repeated evaluations only

A single failed evaluation, or a lack of repeated evaluations, made the estimated
variance NaN, which aborted noisy optimizations with a ValueError.
---
 src/tranquilo/estimate_variance.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/estimate_variance.py b/src/tranquilo/estimate_variance.py
index 4a74e33..9866499 100644
--- a/src/tranquilo/estimate_variance.py
+++ b/src/tranquilo/estimate_variance.py
@@ -36,22 +36,32 @@ def _estimate_variance_classic(
         trustregion._replace(radius=trustregion.radius * max_distance_factor)
     )
 
-    n_evals = {idx: len(history.get_fvals(idx)) for idx in all_indices}
+    # failed evaluations are stored as infinite values and not informative about noise
+    is_finite = {
+        idx: np.isfinite(history.get_fvecs(idx)).all(axis=1) for idx in all_indices
+    }
+    n_evals = {idx: mask.sum() for idx, mask in is_finite.items()}
 
     # make sure we keep at least one sample from which we can estimate a variance
-    cutoff = min(max(n_evals.values()), min_n_evals)
+    cutoff = max(min(max(n_evals.values()), min_n_evals), 2)
 
     valid_indices = [idx for idx in all_indices if n_evals[idx] >= cutoff]
+
+    # assume that there is no noise until there is a point with multiple evaluations
+    if not valid_indices:
+        n_residuals = history.fvecs.shape[1]
+        return 0.0 if model_type == "scalar" else np.zeros((n_residuals, n_residuals))
+
     weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
     weights = weights / weights.sum()
 
     if model_type == "scalar":
-        samples = list(history.get_fvals(valid_indices).values())
+        samples = [history.get_fvals(idx)[is_finite[idx]] for idx in valid_indices]
         out = 0.0
         for weight, sample in zip(weights, samples):
             out += weight * np.var(sample, ddof=1)
     else:
-        samples = list(history.get_fvecs(valid_indices).values())
+        samples = [history.get_fvecs(idx)[is_finite[idx]] for idx in valid_indices]
 
         dim = samples[0].shape[1]
         out = np.zeros((dim, dim))
-- 
2.43.0


From 6f4175460d9b8eaa066025a00fd20beefe229f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 14/34] fix: residualize with the surrogate model of the
 previous iteration

State.vector_model was never updated, so that the old model was always the constant
model at the start value and fitting with residualize=True had no momentum.
---
 src/tranquilo/tranquilo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 845d2bb..9919f5e 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -311,6 +311,7 @@ def _internal_tranquilo(
         state = state._replace(
             model_indices=model_indices,
             model=scalar_model,
+            vector_model=vector_model,
             new_indices=np.setdiff1d(model_indices, old_indices),
             old_indices_used=np.intersect1d(model_indices, old_indices),
             old_indices_discarded=np.setdiff1d(old_indices, model_indices),
@@ -328,7 +329,7 @@ def _internal_tranquilo(
             rho_noise_vec = simulate_rho_noise(
                 xs=model_xs,
                 vector_model=vector_model,
-                old_vector_model=state.vector_model,
+                old_vector_model=states[-2].vector_model,
                 trustregion=state.trustregion,
                 noise_cov=noise_cov,
                 model_fitter=fit_model,
-- 
2.43.0


From 86d5147ee01482e87f53b04229bdecaebb41950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 15/34] fix: respect stopping_max_time

The option was processed but never used.
---
 src/tranquilo/tranquilo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 9919f5e..69902f8 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -1,4 +1,5 @@
 import functools
+import time
 from typing import NamedTuple
 
 import numpy as np
@@ -50,6 +51,8 @@ def _internal_tranquilo(
     estimate_variance,
     accept_candidate,
 ):
+    start_time = time.perf_counter()
+
     if n_evals_at_start > 1:
         eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}
     else:
@@ -382,6 +385,11 @@ def _internal_tranquilo(
             msg = "Maximum number of criterion evaluations reached."
             break
 
+        if time.perf_counter() - start_time >= stop_options.max_time:
+            converged = False
+            msg = "Maximum time reached."
+            break
+
     # ==================================================================================
     # results processing
     # ==================================================================================
-- 
2.43.0


From a853c01a791f63f9080461231e618029de7313e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 16/34] fix: respect convergence_min_trust_region_radius

The option was processed but never used.
---
 src/tranquilo/tranquilo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 69902f8..c9f12ba 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -380,6 +380,11 @@ def _internal_tranquilo(
             if converged:
                 break
 
+        if new_radius <= conv_options.min_radius and not conv_options.disable:
+            converged = True
+            msg = "Trustregion radius smaller than tolerance."
+            break
+
         if history.get_n_fun() >= stop_options.max_eval:
             converged = False
             msg = "Maximum number of criterion evaluations reached."
-- 
2.43.0


From c28c84c5add193dcf1fc97db1f20e44370f3b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 17/34] fix: map coefficients of lagrange polynomials to the
 correct square terms

For more than two parameters the order differed from the order of the features.
---
 src/tranquilo/poisedness.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/poisedness.py b/src/tranquilo/poisedness.py
index 1359e0d..3cb3c7f 100644
--- a/src/tranquilo/poisedness.py
+++ b/src/tranquilo/poisedness.py
@@ -176,8 +176,9 @@ def _reshape_coef_to_square_terms(coef, n_params):
     mat = np.empty((n_params, n_params))
     idx = -1
 
-    for j in range(n_params):
-        for i in range(j + 1):
+    # same order as in _scaled_polynomial_features
+    for i in range(n_params):
+        for j in range(i, n_params):
             idx += 1
             mat[i, j] = coef[idx]
             mat[j, i] = coef[idx]
-- 
2.43.0


From 2a98267d87ebce5a98f56cd144525d529f09b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 18/34] fix: respect all bounds and the trustregion in the
 linear trsbox solver

The bounds were checked in the order of the parameters and only once, which raised a
StopIteration or returned points outside of the trustregion.
---
 src/tranquilo/subsolvers/linear_subsolvers.py | 49 +++++++++----------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/tranquilo/subsolvers/linear_subsolvers.py b/src/tranquilo/subsolvers/linear_subsolvers.py
index fd33dda..2f8a84c 100644
--- a/src/tranquilo/subsolvers/linear_subsolvers.py
+++ b/src/tranquilo/subsolvers/linear_subsolvers.py
@@ -57,9 +57,6 @@ def minimize_trsbox_linear(
     indices_inactive_directions = np.where(np.abs(direction) < zero_treshold)[0]
     direction[indices_inactive_directions] = 0
 
-    active_directions = np.setdiff1d(np.arange(n), indices_inactive_directions)
-    set_active_directions = iter(active_directions)
-
     for _ in range(n):
         if np.linalg.norm(direction) < zero_treshold:
             break
@@ -69,10 +66,11 @@ def minimize_trsbox_linear(
         )
 
         active_bound, index_active_bound = _find_next_active_bound(
+            x_candidate,
+            direction,
             x_candidate_unconstr,
             lower_bounds_internal,
             upper_bounds_internal,
-            set_active_directions,
         )
 
         if active_bound is None:
@@ -179,26 +177,28 @@ def improve_geomtery_trsbox_linear(
 
 
 def _find_next_active_bound(
+    x_candidate,
+    direction,
     x_candidate_unconstr,
     lower_bounds,
     upper_bounds,
-    set_active_directions,
 ):
-    """Find the next active bound and return its index.
+    """Find the bound that is hit first on the way to the unconstrained candidate.
 
     A (lower or upper) bound is considered active if
-        x_candidate <= lower_bounds
-        x_candidate >= upper_bounds
+        x_candidate_unconstr <= lower_bounds
+        x_candidate_unconstr >= upper_bounds
 
     Args:
+        x_candidate (np.ndarray): Current candidate vector of shape (n,).
+        direction (np.ndarray): Direction vector of shape (n,). Zero in the directions
+            in which a bound has already been hit.
         x_candidate_unconstr (np.ndarray): Unconstrained candidate vector of shape (n,),
             which ignores bound constraints.
         lower_bounds (np.ndarray): 1d array of shape (n,) with lower bounds
             for the parameter vector x.
         upper_bounds (np.ndarray): 1d array of shape (n,) with upper bounds
             for the parameter vector x.
-        set_active_directions (iterator): Iterator over the indices of active search
-            directions, i.e. directions that are not zero.
 
     Returns:
         Tuple:
@@ -209,23 +209,22 @@ def _find_next_active_bound(
                 upper bound has been found. None, if no active bound has been detected.
 
     """
-    index_active = next(set_active_directions)
-
-    while True:
-        if x_candidate_unconstr[index_active] >= upper_bounds[index_active]:
-            active_bound = upper_bounds[index_active]
-            break
-
-        elif x_candidate_unconstr[index_active] <= lower_bounds[index_active]:
-            active_bound = lower_bounds[index_active]
-            break
+    active_bound, index_active = None, None
+    smallest_step_size = np.inf
 
+    for index in np.flatnonzero(direction):
+        if direction[index] > 0:
+            bound = upper_bounds[index]
+            is_active = x_candidate_unconstr[index] >= bound
         else:
-            try:
-                index_active = next(set_active_directions)
-            except StopIteration:
-                active_bound = None
-                break
+            bound = lower_bounds[index]
+            is_active = x_candidate_unconstr[index] <= bound
+
+        if is_active:
+            step_size = (bound - x_candidate[index]) / direction[index]
+            if step_size < smallest_step_size:
+                active_bound, index_active = bound, index
+                smallest_step_size = step_size
 
     return active_bound, index_active
 
-- 
2.43.0


From c07b47dff47b3db4b2a489458fcebbb9e69ea0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:59 +0000
Subject: [PATCH 19/34] fix: penalize infinite values relative to the finite
 values if those are all equal

---
 src/tranquilo/handle_infinity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index c250b64..8f5dcd2 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -34,7 +34,7 @@ def clip_relative(fvecs):
     # Due to the initial value of the masked min and max, the sign of the diff can
     # be negative if all values are infinite. In that case we want to switch the
     # signe of _diff, _mins and _maxs.
-    _signs = np.sign(_diff)
+    _signs = np.where(_diff < 0, -1, 1)
     _diff *= _signs
     _maxs *= _signs
     _mins *= _signs
-- 
2.43.0


From 4ce26300ee75e10c2031408568d744c74cdd605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 20/34] fix: interpolate all points in minimal frobenius norm
 fitting

---
 src/tranquilo/fit_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/fit_models.py b/src/tranquilo/fit_models.py
index 151ae5c..51c55bc 100644
--- a/src/tranquilo/fit_models.py
+++ b/src/tranquilo/fit_models.py
@@ -423,7 +423,7 @@ def _get_current_fit_minimal_frobenius_norm_of_hessian(
 
         rhs = y[:, k] - n_mat @ coeffs_second_stage
 
-        alpha, *_ = np.linalg.lstsq(m_mat, rhs[: n_params + 1], rcond=None)
+        alpha, *_ = np.linalg.lstsq(m_mat, rhs, rcond=None)
         coeffs_linear[k, :] = alpha[offset : (n_params + 1)]
 
         coeffs_square[k] = coeffs_second_stage
@@ -454,7 +454,7 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     )
 
     return (
-        m_mat[: n_params + 1, : n_params + 1],
+        m_mat,
         n_mat,
         z_mat[:, n_params + 1 : n_samples],
         n_z_mat[:, n_params + 1 : n_samples],
-- 
2.43.0


From a838544d816e07d28d4205858761a9690a7e7f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 21/34] fix: accept callables without a name as components

---
 src/tranquilo/get_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/get_component.py b/src/tranquilo/get_component.py
index 8707ff7..b051f46 100644
--- a/src/tranquilo/get_component.py
+++ b/src/tranquilo/get_component.py
@@ -111,7 +111,7 @@ def _get_function_and_name(name_or_func, component_name, func_dict):
             raise ValueError(msg)
     elif callable(name_or_func):
         _func = name_or_func
-        _name = _func.__name__
+        _name = getattr(_func, "__name__", type(_func).__name__)
     else:
         raise TypeError("name_or_func must be a string or a callable.")
 
-- 
2.43.0


From c55fbc4c07818bf92d1c2c2ff8e33128a76c7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 22/34] fix: warn about redundant arguments of components with
 options

---
 src/tranquilo/get_component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/get_component.py b/src/tranquilo/get_component.py
index b051f46..8917583 100644
--- a/src/tranquilo/get_component.py
+++ b/src/tranquilo/get_component.py
@@ -211,6 +211,9 @@ def _add_redundant_argument_handling(func, signature, warn):
 
     """
 
+    # func can be a partial, which does not have a name
+    _name = getattr(getattr(func, "func", func), "__name__", type(func).__name__)
+
     @functools.wraps(func)
     def _wrapper_add_redundant_argument_handling(*args, **kwargs):
         _kwargs = {**dict(zip(signature[: len(args)], args)), **kwargs}
@@ -221,7 +224,7 @@ def _add_redundant_argument_handling(func, signature, warn):
         if warn and _redundant:
             msg = (
                 f"The following arguments are not supported by the function "
-                f"{func.__name__} and will be ignored: {_redundant}."
+                f"{_name} and will be ignored: {_redundant}."
             )
             warnings.warn(msg)
 
-- 
2.43.0


From 91e5ba87343dd84b92c87aa30284973a6005aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 23/34] fix: start all trial steps of the gradient descent in
 bntr at the same point

The accepted step size was applied to the last trial point instead of the point
it was determined for, so that the criterion value did not belong to the parameters.
---
 src/tranquilo/subsolvers/bntr.py      | 6 +++---
 src/tranquilo/subsolvers/bntr_fast.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 1f8dae5..9c3e9a9 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -560,9 +560,9 @@ def _perform_gradient_descent_step(
     radius_lower_bound = 0
     step_size_accepted = 0
 
-    for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
+    x_old = x_candidate
 
+    for _ in range(maxiter_steepest_descent):
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -601,7 +601,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index b02cc19..df2a7a0 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -767,9 +767,9 @@ def _perform_gradient_descent_step(
     radius_lower_bound = 0
     step_size_accepted = 0
 
-    for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
+    x_old = x_candidate
 
+    for _ in range(maxiter_steepest_descent):
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -814,7 +814,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
-- 
2.43.0


From 9607f7e6ad626f88343f28a67ec0ba4e0bd95559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 24/34] fix: only treat negligible reductions as equal in bntr

All steps were accepted as long as the criterion increased by less than one.
---
 src/tranquilo/subsolvers/bntr.py      | 4 ++--
 src/tranquilo/subsolvers/bntr_fast.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 9c3e9a9..5e91322 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -628,9 +628,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = options["alpha1"] * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= EPSILON * max(1, abs(f_candidate)) and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= EPSILON * max(1, abs(f_candidate)):
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index df2a7a0..fa75ece 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -852,9 +852,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = alpha1 * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= EPSILON * max(1, abs(f_candidate)) and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= EPSILON * max(1, abs(f_candidate)):
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
-- 
2.43.0


From 74154a0e813010790a8a02fbd45e4a48d71d2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 25/34] fix: recognize steps to the trustregion boundary in
 bntr despite rounding errors

Whether the radius was increased depended on rounding errors, so bntr and bntr_fast
returned different solutions and often hit the maximum number of iterations.
---
 src/tranquilo/subsolvers/bntr.py      | 2 +-
 src/tranquilo/subsolvers/bntr_fast.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 5e91322..8b252c1 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -645,7 +645,7 @@ def _update_trustregion_radius_conjugate_gradient(
 
                 # Update the trust-region radius only if the computed step is at the
                 # trust-radius boundary
-                if x_norm_cg == trustregion_radius:
+                if x_norm_cg >= (1 - 1e-8) * trustregion_radius:
                     if kappa < options["eta2"]:
                         # Marginal bad step
                         trustregion_radius = options["alpha2"] * trustregion_radius
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index fa75ece..9990881 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -867,7 +867,7 @@ def _update_trustregion_radius_conjugate_gradient(
 
                 # Update the trust-region radius only if the computed step is at the
                 # trust-radius boundary
-                if x_norm_cg == trustregion_radius:
+                if x_norm_cg >= (1 - 1e-8) * trustregion_radius:
                     if kappa < eta2:
                         # Marginal bad step
                         trustregion_radius = alpha2 * trustregion_radius
-- 
2.43.0


From c1b9fd7a9e47c6854df3df1ede2465ab7513482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 26/34] fix: handle vanishing denominators in bntr_fast in the
 same way as in bntr

---
 src/tranquilo/subsolvers/bntr_fast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 9990881..78018d7 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -822,7 +822,7 @@ def _perform_gradient_descent_step(
     )
 
 
-@njit
+@njit(error_model="numpy")
 def _update_trustregion_radius_conjugate_gradient(
     f_candidate,
     predicted_reduction,
@@ -1016,7 +1016,7 @@ def _apply_bounds_to_conjugate_gradient_step(
     return cg_step
 
 
-@njit
+@njit(error_model="numpy")
 def _update_trustregion_radius_and_gradient_descent(
     trustregion_radius,
     radius_lower_bound,
-- 
2.43.0


From 7703b6d333de3320f9e75b914bf1694b14e23806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 27/34] fix: stop steihaug_toint after a step along a direction
 of nonpositive curvature

Iterating further divided by a curvature of zero or left the trustregion.
---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 2 ++
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index ad64c81..89ebebb 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -82,6 +82,8 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 1e87fcf..969def9 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -87,6 +87,8 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
-- 
2.43.0


From 6e34e66f9409d9f82722c6fc01484051cc4e3593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 28/34] fix: find solutions of the spherical subproblem if the
 gradient is zero

The step length did not match the unit sphere and the lower bound of the damping
factor could exceed its solution, so gqtpar stayed at the center of the trustregion
even if the hessian is indefinite.
---
 src/tranquilo/subsolvers/gqtpar.py      | 4 ++--
 src/tranquilo/subsolvers/gqtpar_fast.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index 15b2bd5..d34adf1 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -326,13 +326,13 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = estimate_smallest_singular_value(hessian_info.upper_triangular)
-    step_len = 2
+    step_len = 1
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambdas.candidate:
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambdas.lower_bound, lambdas.upper_bound - s_min**2)
+    lambda_lower_bound = max(lambdas.lower_bound, lambdas.candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambdas.candidate
     )
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index 26e4a8d..e3140eb 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -322,13 +322,13 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = _estimate_smallest_singular_value(hessian_upper_triangular)
-    step_len = 2
+    step_len = 1
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambda_candidate:
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambda_lower_bound, lambda_upper_bound - s_min**2)
+    lambda_lower_bound = max(lambda_lower_bound, lambda_candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambda_candidate
     )
-- 
2.43.0


From ba7ba09651166296846eb14a6c68bc6844dcaa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 29/34] fix: do not get stuck at a singular hessian in gqtpar

If the lower and the upper bound of the damping factor coincide, the damping factor
was never increased and the center of the trustregion was returned.
---
 src/tranquilo/subsolvers/gqtpar.py      | 5 ++++-
 src/tranquilo/subsolvers/gqtpar_fast.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index d34adf1..40ca9ca 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -359,8 +359,11 @@ def _update_lambdas_when_factorization_unsuccessful(
     lambda_lower_bound = max(
         lambdas.lower_bound, lambdas.candidate + delta / v_norm**2
     )
+    # The hessian is not positive definite at the lower bound, so the candidate has to
+    # be larger.
     lambda_new_candidate = _get_new_lambda_candidate(
-        lower_bound=lambda_lower_bound, upper_bound=lambdas.upper_bound
+        lower_bound=lambda_lower_bound,
+        upper_bound=max(lambdas.upper_bound, (1 + 1e-6) * lambda_lower_bound),
     )
 
     lambdas_new = lambdas._replace(
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index e3140eb..78a7e0f 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -358,8 +358,11 @@ def _update_lambdas_when_factorization_unsuccessful(
     v_norm = _norm(v, -1.0)
 
     lambda_lower_bound = max(lambda_lower_bound, lambda_candidate + delta / v_norm**2)
+    # The hessian is not positive definite at the lower bound, so the candidate has to
+    # be larger.
     lambda_new_candidate = _get_new_lambda_candidate(
-        lower_bound=lambda_lower_bound, upper_bound=lambda_upper_bound
+        lower_bound=lambda_lower_bound,
+        upper_bound=max(lambda_upper_bound, (1 + 1e-6) * lambda_lower_bound),
     )
     return lambda_new_candidate, lambda_lower_bound
 
-- 
2.43.0


From de3273a9a7220b823518e856b8c01c49ac319b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:35 +0000
Subject: [PATCH 30/34] fix: initialize the active bound in the compiled trsbox
 solver

Interpreted executions raised an error if no bound became active, compiled ones read
an undefined variable.
---
 src/tranquilo/subsolvers/_trsbox_fast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/subsolvers/_trsbox_fast.py b/src/tranquilo/subsolvers/_trsbox_fast.py
index c5cf225..90397dc 100644
--- a/src/tranquilo/subsolvers/_trsbox_fast.py
+++ b/src/tranquilo/subsolvers/_trsbox_fast.py
@@ -481,6 +481,8 @@ def _calc_upper_bound_on_tangent(
     """Calculate upper bound on tangent of half the angle to the boundary."""
     bound_on_tangent = 1
     free_variable_reached_bound = False
+    index_active_bound = np.zeros(0, dtype=np.int64)
+    active_bound = np.zeros(0, dtype=np.int64)
 
     for i in range(len(x_candidate)):
         if x_bounded[i] == 0:
-- 
2.43.0


From 8b5588d0d01eda71c8ddc87ed66fb11ccb47197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 31/34] fix: determine the active bounds of bntr at the start
 point

The gradient at the origin was used instead of the gradient at the start point. If the
center of the trustregion lies on its hull, bntr could loop forever, raise an error or
stay at the start point.
---
 src/tranquilo/subsolvers/bntr.py      | 6 +++---
 src/tranquilo/subsolvers/bntr_fast.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 8b252c1..31dfa76 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -269,14 +269,14 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model.linear_terms, model.square_terms
     )
 
+    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
+
     active_bounds_info = _get_information_on_active_bounds(
         x_candidate,
-        model.linear_terms,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
-
-    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, active_bounds_info
     )
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 78018d7..9516335 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -396,6 +396,8 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model_gradient, model_hessian
     )
 
+    gradient_unprojected = model_gradient + model_hessian @ x_candidate
+
     (
         active_lower_bounds,
         active_upper_bounds,
@@ -403,12 +405,10 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         inactive_bounds,
     ) = _get_information_on_active_bounds(
         x_candidate,
-        model_gradient,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
-
-    gradient_unprojected = model_gradient + model_hessian @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, inactive_bounds
     )
-- 
2.43.0


From 97231de63898c3c26c0d0f4cd717ca6718a03643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:28 +0000
Subject: [PATCH 32/34] fix: diagnostic plots of results with one parameter

---
 src/tranquilo/visualize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tranquilo/visualize.py b/src/tranquilo/visualize.py
index 7d02902..14d9d31 100644
--- a/src/tranquilo/visualize.py
+++ b/src/tranquilo/visualize.py
@@ -204,6 +204,10 @@ def _plot_sample_points(history, state, color_dict, fig, row, col):
         trustregion = state.trustregion
         radius = trustregion.radius
         center = trustregion.center
+        if len(center) == 1:
+            # points with one parameter are plotted on a horizontal line
+            center = np.append(center, 0.0)
+            sample_points[1] = 0.0
         fig.add_shape(
             type="circle",
             xref="x",
-- 
2.43.0


From 4546335410a603395892ac0a9159a314d3a91380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:28 +0000
Subject: [PATCH 33/34] fix: diagnostic plots of optimizations with repeated
 evaluations or scaled parameters

---
 src/tranquilo/visualize.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/visualize.py b/src/tranquilo/visualize.py
index 14d9d31..3c896e0 100644
--- a/src/tranquilo/visualize.py
+++ b/src/tranquilo/visualize.py
@@ -533,7 +533,17 @@ def _process_results(result):
                 )[0],
             )
     elif result.algorithm in ["tranquilo", "tranquilo_ls"]:
-        pass
+        tranquilo_history = result.algorithm_output.get("tranquilo_history")
+        if tranquilo_history is not None:
+            # The indices in the states refer to parameter vectors in the internal
+            # parameter space. The history of the optimization result contains external
+            # parameters and has one entry for each evaluation.
+            criterion_history = np.array(result.history["criterion"])
+            result.history["params"] = tranquilo_history.get_xs()
+            result.history["criterion"] = [
+                np.mean(criterion_history[f_indices])
+                for f_indices in tranquilo_history.index_mapper.values()
+            ]
     else:
         NotImplementedError(
             f"Diagnostic plots are not implemented for {result.algorithm}"
-- 
2.43.0


From 9509320a07c6b7d33785214fdc43b48f5a610c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:28 +0000
Subject: [PATCH 34/34] fix: diagnostic plots with iterations as dictionary and
 repeated points

---
 src/tranquilo/visualize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/visualize.py b/src/tranquilo/visualize.py
index 3c896e0..77de2b9 100644
--- a/src/tranquilo/visualize.py
+++ b/src/tranquilo/visualize.py
@@ -60,6 +60,8 @@ def visualize_tranquilo(results, iterations):
         results = _process_results(results)
         results = {f"iteration {i}": results for i in iterations}
         iterations = {f"iteration {iteration}": iteration for iteration in iterations}
+    else:
+        results = {case: _process_results(results[case]) for case in results}
 
     cases = results.keys()
     nrows = 8
@@ -591,10 +593,8 @@ def _find_index(xs, point):
     while len(out) == 0:
         out = _find_indices_in_trust_region(xs=xs, center=point, radius=radius)
         radius = np.sqrt(radius)
-    if len(out) == 1:
-        return out
-    else:
-        return out[0]
+    # the same point can be in the history several times
+    return out[:1]
 
 
 def _get_model_indices(xs, state):
-- 
2.43.0

