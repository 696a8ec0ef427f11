From 7c16eb411397efca88b859e07175dd5080d42bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 01/22] fix: allow one-sided bounds where the other side is
 None

Region construction raised UnboundLocalError if only one of lower and upper
bounds was given.
---
 src/tranquilo/region.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index 52bbcc7..bbff3ef 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -144,6 +144,7 @@ def _any_bounds_binding(bounds, center, radius):
     """Check if any bound is binding, i.e. inside the trustregion."""
     out = False
     if bounds is not None and bounds.has_any:
+        lower_binding = upper_binding = False
         if bounds.lower is not None:
             lower_binding = np.min(center - bounds.lower) <= radius
         if bounds.upper is not None:
-- 
2.43.0


From bd9f1babdfb1242d696c31d11e516984fd9939fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 02/22] fix: handle raising evaluations of vector valued
 criterion functions

The traceback of a failed evaluation was replaced by a scalar infinity, which
could not be combined with the vectors of the successful evaluations.
---
 src/tranquilo/wrap_criterion.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/wrap_criterion.py b/src/tranquilo/wrap_criterion.py
index 13765d5..91f4ad5 100644
--- a/src/tranquilo/wrap_criterion.py
+++ b/src/tranquilo/wrap_criterion.py
@@ -53,9 +53,11 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
         )
 
         # The batch evaluator replaces exceptions with their traceback (str) when
-        # error_handling="continue". We replace these cases with infinity.
+        # error_handling="continue". We replace these cases with infinity. The
+        # replacement needs to have the same shape as a successful evaluation.
+        failure_value = np.full(_get_eval_shape(raw_evals, history), np.inf)
         raw_evals_with_replaced_traceback = [
-            np.inf if isinstance(x, str) else x for x in raw_evals
+            failure_value if isinstance(x, str) else x for x in raw_evals
         ]
 
         # replace NaNs but keep infinite values. NaNs would be problematic in many
@@ -73,6 +75,20 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
     return wrapper_criterion
 
 
+def _get_eval_shape(raw_evals, history):
+    """Get the shape of a successful criterion evaluation."""
+    successful = [x for x in raw_evals if not isinstance(x, str)]
+
+    if successful:
+        shape = np.shape(successful[0])
+    elif history.functype != "scalar" and history.get_n_fun() > 0:
+        shape = history.fvecs.shape[1:]
+    else:
+        shape = ()
+
+    return shape
+
+
 def process_batch_evaluator(batch_evaluator="joblib"):
     batch_evaluator = "joblib" if batch_evaluator is None else batch_evaluator
 
-- 
2.43.0


From 8217fe0f0dc479a73e773a9356737d757f13e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 03/22] fix: use a positive default initial radius if all start
 parameters are zero

---
 src/tranquilo/options.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index c83eced..5d5eae5 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -28,7 +28,10 @@ def get_default_sample_filter(batch_size):
 
 
 def get_default_radius_options(x):
-    return RadiusOptions(initial_radius=0.1 * np.max(np.abs(x)))
+    max_abs_x = np.max(np.abs(x))
+    # a trustregion with radius zero would contain no other points
+    initial_radius = 0.1 * max_abs_x if max_abs_x > 0 else 0.1
+    return RadiusOptions(initial_radius=initial_radius)
 
 
 def get_default_batch_size(n_cores):
-- 
2.43.0


From ee50056523f0191a49f23011217b7a262292fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 04/22] fix: do not set the radius to zero after rejected steps

With a finite max_radius_to_step_ratio, the step length of zero of a rejected
step led to a trustregion radius of zero and a crash in the next iteration.
---
 src/tranquilo/adjust_radius.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/adjust_radius.py b/src/tranquilo/adjust_radius.py
index 94502c2..2c67270 100644
--- a/src/tranquilo/adjust_radius.py
+++ b/src/tranquilo/adjust_radius.py
@@ -31,13 +31,16 @@ def adjust_radius(radius, rho, step_length, options, n_evals_is_increased):
     else:
         new_radius = radius * options.shrinking_factor
 
-    if np.isfinite(options.max_radius_to_step_ratio):
+    # rejected steps have a step length of zero and carry no information on the radius
+    if np.isfinite(options.max_radius_to_step_ratio) and step_length > 0:
         max_radius = np.min(
             [options.max_radius, step_length * options.max_radius_to_step_ratio]
         )
     else:
         max_radius = options.max_radius
 
+    # the minimum radius takes precedence over the maximum radius to step ratio
+    max_radius = max(max_radius, options.min_radius)
     new_radius = np.clip(new_radius, options.min_radius, max_radius)
 
     return new_radius
-- 
2.43.0


From a174cc08fd49b8855d095da8fa8a4bd81fe4b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 05/22] fix: keep line search points inside the bounds

---
 src/tranquilo/acceptance_decision.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 534b339..d21f3b2 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -134,6 +134,7 @@ def accept_classic_line_search(
         line_search_xs = _sample_on_line(
             start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid
         )
+        line_search_xs = _clip_to_bounds(line_search_xs, state.trustregion.bounds)
     else:
         line_search_xs = None
 
@@ -496,6 +497,15 @@ def _sample_on_line(start_point, direction_point, alpha_grid):
     return xs
 
 
+def _clip_to_bounds(xs, bounds):
+    """Clip points into the bounds, if there are any."""
+    if bounds is not None and bounds.lower is not None:
+        xs = np.maximum(xs, bounds.lower)
+    if bounds is not None and bounds.upper is not None:
+        xs = np.minimum(xs, bounds.upper)
+    return xs
+
+
 def _is_on_border(trustregion, x, rtol):
     """Check whether a point is sufficiently close to the border of a trust region.
 
-- 
2.43.0


From 636e0f72381194c988b97d2e71350c2aa3fd15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 06/22] fix: do not reset the global random state in the
 multistart cube solver

---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 5192aad..0fdb711 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -39,7 +39,6 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
 
 
 def robust_cube_solver_multistart(model, x_candidate):
-    np.random.seed(12345)
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From d33ed2746ec7f0c92872daa5d9cfdcef877eca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 07/22] fix: do not modify user provided algo_options in the
 optimal hull sampler

---
 src/tranquilo/sample_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/sample_points.py b/src/tranquilo/sample_points.py
index 5ff0745..b9c65ab 100644
--- a/src/tranquilo/sample_points.py
+++ b/src/tranquilo/sample_points.py
@@ -241,7 +241,7 @@ def _optimal_hull_sampler(
     if criterion is None:
         criterion = "determinant" if n_points == 1 else "distance"
 
-    algo_options = {} if algo_options is None else algo_options
+    algo_options = {} if algo_options is None else algo_options.copy()
     if "maxiter" not in algo_options:
         algo_options["maxiter"] = 2 * n_params + 5
 
-- 
2.43.0


From 2706ea2d95bad13127346dbbb860c89ed2ceb2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 08/22] fix: make the built-in fallback cube solvers usable as
 cube_subsolver

They were listed as built-in cube solvers but rejected because they did not
have the mandatory arguments lower_bounds and upper_bounds.
---
 .../subsolvers/fallback_subsolvers.py         | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 0fdb711..a978233 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -8,16 +8,21 @@ from tranquilo.exploration_sample import draw_exploration_sample
 # ======================================================================================
 # Cube solvers
 # ======================================================================================
-def robust_cube_solver(model, x_candidate, radius=1.0):
+def robust_cube_solver(
+    model, x_candidate, radius=1.0, lower_bounds=None, upper_bounds=None
+):
     """Robust cube solver.
 
-    Argument `radius` corresponds to half of the side length of the cube.
+    Argument `radius` corresponds to half of the side length of the cube. It is only
+    used for the bounds that are not provided.
 
     """
     crit, grad = _get_crit_and_grad(model)
 
-    lower_bounds = -radius * np.ones(len(x_candidate))
-    upper_bounds = radius * np.ones(len(x_candidate))
+    if lower_bounds is None:
+        lower_bounds = -radius * np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = radius * np.ones(len(x_candidate))
 
     res = minimize(
         crit,
@@ -38,11 +43,18 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
     }
 
 
-def robust_cube_solver_multistart(model, x_candidate):
+def robust_cube_solver_multistart(
+    model, x_candidate, lower_bounds=None, upper_bounds=None
+):
+    if lower_bounds is None:
+        lower_bounds = -np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = np.ones(len(x_candidate))
+
     start_values = draw_exploration_sample(
         x=x_candidate,
-        lower=-np.ones(len(x_candidate)),
-        upper=np.ones(len(x_candidate)),
+        lower=lower_bounds,
+        upper=upper_bounds,
         n_samples=100,
         sampling_distribution="uniform",
         sampling_method="sobol",
@@ -54,7 +66,9 @@ def robust_cube_solver_multistart(model, x_candidate):
     critvals = []
 
     for x in start_values:
-        res = robust_cube_solver(model, x)
+        res = robust_cube_solver(
+            model, x, lower_bounds=lower_bounds, upper_bounds=upper_bounds
+        )
 
         if res["criterion"] <= best_crit:
             accepted_x = res["x"]
-- 
2.43.0


From 1e501aadbde45ab86bb501c322a56dfb85685134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 09/22] fix: ignore failed evaluations when estimating the
 noise variance

A single failed evaluation in the trustregion led to a NaN variance and a crash
when the acceptance sample size was calculated. If no point has been evaluated
successfully at least twice, the variance estimate is zero.
---
 src/tranquilo/estimate_variance.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tranquilo/estimate_variance.py b/src/tranquilo/estimate_variance.py
index 4a74e33..e728cec 100644
--- a/src/tranquilo/estimate_variance.py
+++ b/src/tranquilo/estimate_variance.py
@@ -36,24 +36,30 @@ def _estimate_variance_classic(
         trustregion._replace(radius=trustregion.radius * max_distance_factor)
     )
 
-    n_evals = {idx: len(history.get_fvals(idx)) for idx in all_indices}
+    # failed evaluations are infinite and carry no information on the noise
+    is_finite = {
+        idx: np.isfinite(history.get_fvecs(idx)).all(axis=1)
+        & np.isfinite(history.get_fvals(idx))
+        for idx in all_indices
+    }
+    n_evals = {idx: mask.sum() for idx, mask in is_finite.items()}
 
     # make sure we keep at least one sample from which we can estimate a variance
-    cutoff = min(max(n_evals.values()), min_n_evals)
+    cutoff = max(2, min(max(n_evals.values()), min_n_evals))
 
     valid_indices = [idx for idx in all_indices if n_evals[idx] >= cutoff]
     weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
     weights = weights / weights.sum()
 
     if model_type == "scalar":
-        samples = list(history.get_fvals(valid_indices).values())
+        samples = [history.get_fvals(i)[is_finite[i]] for i in valid_indices]
         out = 0.0
         for weight, sample in zip(weights, samples):
             out += weight * np.var(sample, ddof=1)
     else:
-        samples = list(history.get_fvecs(valid_indices).values())
+        samples = [history.get_fvecs(i)[is_finite[i]] for i in valid_indices]
 
-        dim = samples[0].shape[1]
+        dim = history.get_fvecs(all_indices[0]).shape[1]
         out = np.zeros((dim, dim))
         for weight, sample in zip(weights, samples):
             out += weight * np.cov(sample, rowvar=False, ddof=1)
-- 
2.43.0


From 61da3a32fe24c528a090bfe094225fa2e82a352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 10/22] fix: state the reason if the maximum number of
 iterations is reached

---
 src/tranquilo/tranquilo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 845d2bb..b0deadc 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -380,6 +380,8 @@ def _internal_tranquilo(
             converged = False
             msg = "Maximum number of criterion evaluations reached."
             break
+    else:
+        msg = "Maximum number of iterations reached."
 
     # ==================================================================================
     # results processing
-- 
2.43.0


From 6e9b94e1ef34b172078afaca879906159d266cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 11/22] fix: respect the option stopping_max_time

The option was accepted but ignored.
---
 src/tranquilo/tranquilo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index b0deadc..0983b6a 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -1,4 +1,5 @@
 import functools
+import time
 from typing import NamedTuple
 
 import numpy as np
@@ -50,6 +51,8 @@ def _internal_tranquilo(
     estimate_variance,
     accept_candidate,
 ):
+    start_time = time.perf_counter()
+
     if n_evals_at_start > 1:
         eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}
     else:
@@ -380,6 +383,11 @@ def _internal_tranquilo(
             converged = False
             msg = "Maximum number of criterion evaluations reached."
             break
+
+        if time.perf_counter() - start_time >= stop_options.max_time:
+            converged = False
+            msg = "Maximum time reached."
+            break
     else:
         msg = "Maximum number of iterations reached."
 
-- 
2.43.0


From 302565a64e4f03ec7f7693a7209917d354e000c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 12/22] fix: keep subproblem solutions inside the spherical
 trust region

gqtpar stops after subsolver_options.maxiter iterations even if the candidate
is still outside of the unit sphere, and the hard case can add a step of length
two. The step then left the trust region and possibly the bounds.
---
 src/tranquilo/solve_subproblem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tranquilo/solve_subproblem.py b/src/tranquilo/solve_subproblem.py
index f08ed81..17cacd4 100644
--- a/src/tranquilo/solve_subproblem.py
+++ b/src/tranquilo/solve_subproblem.py
@@ -206,6 +206,11 @@ def _solve_subproblem_template(
 
     if trustregion.shape == "cube":
         raw_result["x"] = np.clip(raw_result["x"], -1.0, 1.0)
+    else:
+        # sphere solvers that stop early can return points outside of the unit sphere
+        x_norm = np.linalg.norm(raw_result["x"])
+        if x_norm > 1:
+            raw_result["x"] = raw_result["x"] / x_norm
 
     # make sure expected improvement is calculated accurately in case of clipping and
     # does not depend on whether the subsolver ignores intercepts or not.
-- 
2.43.0


From e63c1263f0026019eb8a561d6254f34469dd58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:14 +0000
Subject: [PATCH 13/22] fix: clip infinities to moderate values if no
 evaluation is finite

---
 src/tranquilo/handle_infinity.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index c250b64..462439d 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -27,17 +27,14 @@ def clip_relative(fvecs):
     _mins = np.min(fvecs, axis=0, where=_mask, initial=1e300)
     _maxs = np.max(fvecs, axis=0, where=_mask, initial=-1e300)
 
-    # abs is necessary because if all values are infinite, the diffs can switch sign
-    # due to the initial value in the masked min and max
-    _diff = _maxs - _mins
+    # If all values are infinite, there is no worst finite value and the initial values
+    # of the masked min and max must not be used. They are so large that the squares of
+    # the clipped values would overflow.
+    _all_infinite = ~_mask.any(axis=0)
+    _mins[_all_infinite] = 0
+    _maxs[_all_infinite] = 0
 
-    # Due to the initial value of the masked min and max, the sign of the diff can
-    # be negative if all values are infinite. In that case we want to switch the
-    # signe of _diff, _mins and _maxs.
-    _signs = np.sign(_diff)
-    _diff *= _signs
-    _maxs *= _signs
-    _mins *= _signs
+    _diff = _maxs - _mins
 
     _pos_penalty = _maxs + 2 * _diff + 1
     _neg_penalty = _mins - 2 * _diff - 1
-- 
2.43.0


From ec8c3b081134ed9b89a928dab128ae79f4426210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 14/22] fix: stop bntr if the radius becomes nan

---
 src/tranquilo/subsolvers/bntr.py      | 5 ++++-
 src/tranquilo/subsolvers/bntr_fast.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 1f8dae5..fd03fb1 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -207,7 +207,10 @@ def bntr(
                 x_candidate = x_old
                 f_candidate = f_old
 
-                if trustregion_radius == trustregion_radius_old:
+                # the radius is nan if the model is not finite; it stays nan forever
+                if trustregion_radius == trustregion_radius_old or np.isnan(
+                    trustregion_radius
+                ):
                     converged = True
                     break
 
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index b02cc19..c64312d 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -319,7 +319,10 @@ def _bntr_fast_jitted(
                 x_candidate = x_old
                 f_candidate = f_old
 
-                if trustregion_radius == trustregion_radius_old:
+                # the radius is nan if the model is not finite; it stays nan forever
+                if trustregion_radius == trustregion_radius_old or np.isnan(
+                    trustregion_radius
+                ):
                     converged = True
                     break
 
-- 
2.43.0


From f8e3bb04418c87bf463bc4ec32bae99b4e8f9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 15/22] fix: return a point from the multistart solver if the
 model is not finite

---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index a978233..2c931eb 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -62,7 +62,9 @@ def robust_cube_solver_multistart(
     )
 
     best_crit = np.inf
-    accepted_x = None
+    # start from the center because no criterion value is smaller than inf if the model
+    # is not finite
+    accepted_x = x_candidate
     critvals = []
 
     for x in start_values:
-- 
2.43.0


From ce2b6a7765b294f6fc9e7a19197ca8d33985128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:41 +0000
Subject: [PATCH 16/22] fix: bntr determines active bounds from the gradient at
 the start point

---
 src/tranquilo/subsolvers/bntr.py      | 6 +++---
 src/tranquilo/subsolvers/bntr_fast.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index fd03fb1..592f288 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -272,14 +272,14 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model.linear_terms, model.square_terms
     )
 
+    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
+
     active_bounds_info = _get_information_on_active_bounds(
         x_candidate,
-        model.linear_terms,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
-
-    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, active_bounds_info
     )
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index c64312d..43a0869 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -399,6 +399,8 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model_gradient, model_hessian
     )
 
+    gradient_unprojected = model_gradient + model_hessian @ x_candidate
+
     (
         active_lower_bounds,
         active_upper_bounds,
@@ -406,12 +408,10 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         inactive_bounds,
     ) = _get_information_on_active_bounds(
         x_candidate,
-        model_gradient,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
-
-    gradient_unprojected = model_gradient + model_hessian @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, inactive_bounds
     )
-- 
2.43.0


From 612400b39a964b1ad36dea5c9e83319b293d3481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:41 +0000
Subject: [PATCH 17/22] fix: bntr accepts steps unseen only if both reductions
 are of rounding size

---
 src/tranquilo/subsolvers/bntr.py      | 4 ++--
 src/tranquilo/subsolvers/bntr_fast.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 592f288..bc4b029 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -631,9 +631,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = options["alpha1"] * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 43a0869..7e6a0d5 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -855,9 +855,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = alpha1 * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
-- 
2.43.0


From f5425c886e7d3db16f788c0c6ac7e01e154cff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:26 +0000
Subject: [PATCH 18/22] fix: descent trials of bntr start at the initial point

---
 src/tranquilo/subsolvers/bntr.py      | 6 +++---
 src/tranquilo/subsolvers/bntr_fast.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index bc4b029..5146ac4 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -563,9 +563,9 @@ def _perform_gradient_descent_step(
     radius_lower_bound = 0
     step_size_accepted = 0
 
-    for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
+    x_old = x_candidate
 
+    for _ in range(maxiter_steepest_descent):
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -604,7 +604,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 7e6a0d5..a4723ab 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -770,9 +770,9 @@ def _perform_gradient_descent_step(
     radius_lower_bound = 0
     step_size_accepted = 0
 
-    for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
+    x_old = x_candidate
 
+    for _ in range(maxiter_steepest_descent):
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -817,7 +817,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
-- 
2.43.0


From 845c92f25a6d926ccd9cb5911f4426cdebb3b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:39 +0000
Subject: [PATCH 19/22] fix: trsbox_fast without bounded tangent left variables
 undefined

---
 src/tranquilo/subsolvers/_trsbox_fast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/subsolvers/_trsbox_fast.py b/src/tranquilo/subsolvers/_trsbox_fast.py
index c5cf225..90397dc 100644
--- a/src/tranquilo/subsolvers/_trsbox_fast.py
+++ b/src/tranquilo/subsolvers/_trsbox_fast.py
@@ -481,6 +481,8 @@ def _calc_upper_bound_on_tangent(
     """Calculate upper bound on tangent of half the angle to the boundary."""
     bound_on_tangent = 1
     free_variable_reached_bound = False
+    index_active_bound = np.zeros(0, dtype=np.int64)
+    active_bound = np.zeros(0, dtype=np.int64)
 
     for i in range(len(x_candidate)):
         if x_bounded[i] == 0:
-- 
2.43.0


From 58da1020bb8b3474ac4793a66267f42dcc082481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 20/22] fix: steihaug_toint took a second step after a first
 direction of no curvature

---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 2 ++
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index ad64c81..89ebebb 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -82,6 +82,8 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 1e87fcf..969def9 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -87,6 +87,8 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
-- 
2.43.0


From 1f833101f5a380377cf787f73ddb722b11f45b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:00 +0000
Subject: [PATCH 21/22] fix: steihaug_toint ignored directions in which the
 model is linear

---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 3 +--
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index 89ebebb..963abfb 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -41,7 +41,6 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -56,7 +55,7 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 969def9..6b67d76 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -43,7 +43,6 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -61,7 +60,7 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
-- 
2.43.0


From 50990eaefa062b6cc1fb805e6563602d71716b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:23 +0000
Subject: [PATCH 22/22] fix: gqtpar updated the damping bounds wrongly for
 models without gradient

---
 src/tranquilo/subsolvers/gqtpar.py      | 2 +-
 src/tranquilo/subsolvers/gqtpar_fast.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index 15b2bd5..e1e6080 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -332,7 +332,7 @@ def _check_for_interior_convergence_and_update(
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambdas.lower_bound, lambdas.upper_bound - s_min**2)
+    lambda_lower_bound = max(lambdas.lower_bound, lambdas.candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambdas.candidate
     )
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index 26e4a8d..c47a211 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -328,7 +328,7 @@ def _check_for_interior_convergence_and_update(
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambda_lower_bound, lambda_upper_bound - s_min**2)
+    lambda_lower_bound = max(lambda_lower_bound, lambda_candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambda_candidate
     )
-- 
2.43.0

