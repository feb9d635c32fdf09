From 23aaab391b077deec0657b970e6eafe1bab87967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 01/19] fix: Do not crash when only lower or only upper bounds
 are given

---
 src/tranquilo/region.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index 52bbcc7..e1d9e3b 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -144,6 +144,7 @@ def _any_bounds_binding(bounds, center, radius):
     """Check if any bound is binding, i.e. inside the trustregion."""
     out = False
     if bounds is not None and bounds.has_any:
+        lower_binding, upper_binding = False, False
         if bounds.lower is not None:
             lower_binding = np.min(center - bounds.lower) <= radius
         if bounds.upper is not None:
-- 
2.43.0


From 2d19b443ae04d384453adfb4cb47a5ab630346de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 02/19] fix: Points from spherical trustregions respect the
 bounds

---
 src/tranquilo/region.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index e1d9e3b..bcebb21 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -58,6 +58,9 @@ class Region:
         """Map points from the unit sphere or cube to the trustregion."""
         if self.shape == "sphere":
             out = _map_from_unit_sphere(x, center=self.center, radius=self.radius)
+            # Sphere solvers may exceed the unit sphere by a small tolerance.
+            if self.bounds is not None and self.bounds.has_any:
+                out = np.clip(out, self.bounds.lower, self.bounds.upper)
         else:
             cube_bounds = self.cube_bounds
             out = _map_from_unit_cube(x, cube_bounds=cube_bounds)
-- 
2.43.0


From 98c91a0eb50ab997bde521bd0c6c79bbbd857bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 03/19] fix: Line search points respect the bounds

---
 src/tranquilo/acceptance_decision.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 534b339..64c7360 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -134,6 +134,11 @@ def accept_classic_line_search(
         line_search_xs = _sample_on_line(
             start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid
         )
+
+        # points beyond the candidate can leave the feasible region
+        bounds = state.trustregion.bounds
+        if bounds is not None and bounds.has_any:
+            line_search_xs = np.clip(line_search_xs, bounds.lower, bounds.upper)
     else:
         line_search_xs = None
 
-- 
2.43.0


From c1e8799751098aa47b5672f6dcc27b8ab618af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 04/19] fix: Optimal hull sampler does not modify the
 algo_options of the user

---
 src/tranquilo/sample_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/sample_points.py b/src/tranquilo/sample_points.py
index 5ff0745..b49f6ed 100644
--- a/src/tranquilo/sample_points.py
+++ b/src/tranquilo/sample_points.py
@@ -241,7 +241,7 @@ def _optimal_hull_sampler(
     if criterion is None:
         criterion = "determinant" if n_points == 1 else "distance"
 
-    algo_options = {} if algo_options is None else algo_options
+    algo_options = {} if algo_options is None else dict(algo_options)
     if "maxiter" not in algo_options:
         algo_options["maxiter"] = 2 * n_params + 5
 
-- 
2.43.0


From 529632823b9dc7de038b819b211ef8a878b1e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 05/19] fix: Multistart subsolver does not reset the global
 random state

---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 5192aad..0fdb711 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -39,7 +39,6 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
 
 
 def robust_cube_solver_multistart(model, x_candidate):
-    np.random.seed(12345)
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From 7bcae701dac9a0617307f68fcc08936a35ac89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 06/19] fix: Raise error when diagnostic plots are not
 implemented for algorithm

---
 src/tranquilo/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/visualize.py b/src/tranquilo/visualize.py
index 7d02902..20c4f1c 100644
--- a/src/tranquilo/visualize.py
+++ b/src/tranquilo/visualize.py
@@ -531,7 +531,7 @@ def _process_results(result):
     elif result.algorithm in ["tranquilo", "tranquilo_ls"]:
         pass
     else:
-        NotImplementedError(
+        raise NotImplementedError(
             f"Diagnostic plots are not implemented for {result.algorithm}"
         )
     return result
-- 
2.43.0


From 37f29893f8ebb06bc1a43887bc85bde378a33046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 07/19] fix: Trustregion radius never falls below min_radius

---
 src/tranquilo/adjust_radius.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tranquilo/adjust_radius.py b/src/tranquilo/adjust_radius.py
index 94502c2..6ae4ff1 100644
--- a/src/tranquilo/adjust_radius.py
+++ b/src/tranquilo/adjust_radius.py
@@ -38,6 +38,9 @@ def adjust_radius(radius, rho, step_length, options, n_evals_is_increased):
     else:
         max_radius = options.max_radius
 
+    # a short (or rejected) step must not push the radius below its minimum
+    max_radius = max(max_radius, options.min_radius)
+
     new_radius = np.clip(new_radius, options.min_radius, max_radius)
 
     return new_radius
-- 
2.43.0


From 20c8185fe0a81fd2373534a74a35f3b6e3a66523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 08/19] fix: Failed evaluations have the same shape as
 successful ones

---
 src/tranquilo/wrap_criterion.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/wrap_criterion.py b/src/tranquilo/wrap_criterion.py
index 13765d5..30d0849 100644
--- a/src/tranquilo/wrap_criterion.py
+++ b/src/tranquilo/wrap_criterion.py
@@ -54,8 +54,10 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
 
         # The batch evaluator replaces exceptions with their traceback (str) when
         # error_handling="continue". We replace these cases with infinity.
+        # They need to have the same shape as successful evaluations.
+        shape = _get_shape_of_evaluation(raw_evals, history)
         raw_evals_with_replaced_traceback = [
-            np.inf if isinstance(x, str) else x for x in raw_evals
+            np.full(shape, np.inf) if isinstance(x, str) else x for x in raw_evals
         ]
 
         # replace NaNs but keep infinite values. NaNs would be problematic in many
@@ -73,6 +75,18 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
     return wrapper_criterion
 
 
+def _get_shape_of_evaluation(raw_evals, history):
+    """Get the shape of a successful evaluation from the batch or the history."""
+    for raw_eval in raw_evals:
+        if not isinstance(raw_eval, str):
+            return np.shape(raw_eval)
+
+    if history.functype == "scalar" or history.fvecs is None:
+        return ()
+
+    return history.fvecs.shape[1:]
+
+
 def process_batch_evaluator(batch_evaluator="joblib"):
     batch_evaluator = "joblib" if batch_evaluator is None else batch_evaluator
 
-- 
2.43.0


From 42b97954eafe8cb42d513ed4ed9edf1812295b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 09/19] fix: Scale square terms correctly for regions with side
 specific radius

---
 src/tranquilo/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 50b63da..4c31bc4 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -162,7 +162,11 @@ def _scale_model(model, factor):
 
     """
     new_g = model.linear_terms * factor
-    new_h = None if model.square_terms is None else model.square_terms * factor**2
+    new_h = (
+        None
+        if model.square_terms is None
+        else model.square_terms * np.multiply.outer(factor, factor)
+    )
 
     out = model._replace(
         linear_terms=new_g,
-- 
2.43.0


From a80270374eda4b4ca78056113b0a89675334f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 10/19] fix: Shifting a vector model does not modify the
 original model

---
 src/tranquilo/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 4c31bc4..42db880 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -214,7 +214,7 @@ def _shift_vector_model(model, shift):
     new_g = model.linear_terms
 
     if model.square_terms is not None:
-        new_g += shift @ model.square_terms
+        new_g = new_g + shift @ model.square_terms
 
     out = model._replace(
         intercepts=new_c,
-- 
2.43.0


From 2faadb912986d253307e1ed0af2a09663cf89168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 11/19] fix: Reject negative indices before storing function
 evaluations

---
 src/tranquilo/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/history.py b/src/tranquilo/history.py
index 7f81fef..6a10f55 100644
--- a/src/tranquilo/history.py
+++ b/src/tranquilo/history.py
@@ -78,7 +78,7 @@ class History:
         """
         x_indices = np.atleast_1d(x_indices)
 
-        if not (x_indices < self.n_xs).all():
+        if not ((x_indices >= 0) & (x_indices < self.n_xs)).all():
             raise ValueError(
                 "You requested to store a function evaluation for an x vector that is "
                 "not in the history."
-- 
2.43.0


From efec94eda10f7b2346a2987a40044a434aee7257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:27 +0000
Subject: [PATCH 12/19] fix: Infinite values are clipped to worse than the
 worst finite value

If there was only one distinct finite value in a column, the sign of the range
was zero and infinities were replaced by plus or minus one.
---
 src/tranquilo/handle_infinity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index c250b64..bd957fa 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -34,7 +34,8 @@ def clip_relative(fvecs):
     # Due to the initial value of the masked min and max, the sign of the diff can
     # be negative if all values are infinite. In that case we want to switch the
     # signe of _diff, _mins and _maxs.
-    _signs = np.sign(_diff)
+    # A diff of zero (only one distinct finite value) must not change anything.
+    _signs = np.where(_diff < 0, -1, 1)
     _diff *= _signs
     _maxs *= _signs
     _mins *= _signs
-- 
2.43.0


From 5fdefdb5c6e176801eb404ecd40fcf579e3fb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:11 +0000
Subject: [PATCH 13/19] fix: Fallback cube solvers can be selected as
 cube_subsolver

---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 0fdb711..b83151c 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -8,7 +8,13 @@ from tranquilo.exploration_sample import draw_exploration_sample
 # ======================================================================================
 # Cube solvers
 # ======================================================================================
-def robust_cube_solver(model, x_candidate, radius=1.0):
+def robust_cube_solver(
+    model,
+    x_candidate,
+    radius=1.0,
+    lower_bounds=None,  # noqa: ARG001
+    upper_bounds=None,  # noqa: ARG001
+):
     """Robust cube solver.
 
     Argument `radius` corresponds to half of the side length of the cube.
@@ -38,7 +44,12 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
     }
 
 
-def robust_cube_solver_multistart(model, x_candidate):
+def robust_cube_solver_multistart(
+    model,
+    x_candidate,
+    lower_bounds=None,  # noqa: ARG001
+    upper_bounds=None,  # noqa: ARG001
+):
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From 3d4adb248a508aa0978b6c6c0cf6c5550c2a4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 14/19] fix: Default hardness of optimal_hull is a float so
 that user values are kept

---
 src/tranquilo/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index c83eced..de37d3c 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -195,7 +195,7 @@ class FilterOptions(NamedTuple):
 
 class SamplerOptions(NamedTuple):
     distribution: str = None
-    hardness: float = 1
+    hardness: float = 1.0
     algorithm: str = "L-BFGS-B"
     algo_options: dict = None
     criterion: str = None
-- 
2.43.0


From a764b35be2861bd77714d15042bfd6673554b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 15/19] fix: Scalar models without square terms can be moved to
 a new region

---
 src/tranquilo/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 42db880..dd7bbda 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -188,7 +188,11 @@ def _shift_scalar_model(model, shift):
 
     """
     new_c = model.predict(shift)
-    new_g = model.linear_terms + model.square_terms @ shift
+
+    new_g = model.linear_terms
+
+    if model.square_terms is not None:
+        new_g = new_g + model.square_terms @ shift
 
     out = model._replace(
         intercept=new_c,
-- 
2.43.0


From 5d2e581bf08a27981c68349575542cdefc32fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:07 +0000
Subject: [PATCH 16/19] fix: Do not ignore the square terms of the second model
 when adding models

---
 src/tranquilo/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index dd7bbda..192dad9 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -118,6 +118,8 @@ def add_models(model1, model2):
     if model1.square_terms is not None:
         assert model2.square_terms is not None
         new["square_terms"] = model1.square_terms + model2.square_terms
+    elif model2.square_terms is not None:
+        new["square_terms"] = model2.square_terms
 
     out = replace(model1, **new)
     return out
-- 
2.43.0


From 5555c7de5fe71ca8586c3f3b14f7a6e5ed927f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:33 +0000
Subject: [PATCH 17/19] fix: Closeness to the border of a cube is relative to
 its size, not to its location

---
 src/tranquilo/acceptance_decision.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 64c7360..73f8089 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -527,8 +527,12 @@ def _is_on_sphere_border(trustregion, x, rtol):
 
 def _is_on_cube_border(trustregion, x, rtol):
     cube_bounds = trustregion.cube_bounds
-    is_on_lower_border = np.isclose(x, cube_bounds.lower, rtol=rtol).any()
-    is_on_upper_border = np.isclose(x, cube_bounds.upper, rtol=rtol).any()
+    # the tolerance is relative to the size of the region, not to the location of the
+    # border, such that the result does not change when the problem is shifted
+    half_width = (cube_bounds.upper - cube_bounds.lower) / 2
+    atol = 1e-8 + rtol * half_width
+    is_on_lower_border = (np.abs(x - cube_bounds.lower) <= atol).any()
+    is_on_upper_border = (np.abs(x - cube_bounds.upper) <= atol).any()
     return is_on_lower_border or is_on_upper_border
 
 
-- 
2.43.0


From 79cd1360cb0da5b896aa446cb33dd75755ac75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:14 +0000
Subject: [PATCH 18/19] fix: failed or infinite evaluations do not enter the
 noise estimate

With noise, one failed or infinite evaluation close to the center made the
estimated variance NaN and ended the optimization with an exception in the
acceptance step.
---
 src/tranquilo/estimate_variance.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/estimate_variance.py b/src/tranquilo/estimate_variance.py
index 4a74e33..a659c4b 100644
--- a/src/tranquilo/estimate_variance.py
+++ b/src/tranquilo/estimate_variance.py
@@ -36,7 +36,12 @@ def _estimate_variance_classic(
         trustregion._replace(radius=trustregion.radius * max_distance_factor)
     )
 
-    n_evals = {idx: len(history.get_fvals(idx)) for idx in all_indices}
+    # failed or infinite evaluations carry no information on the variance
+    is_finite = {
+        idx: np.isfinite(fvals)
+        for idx, fvals in history.get_fvals(all_indices).items()
+    }
+    n_evals = {idx: mask.sum() for idx, mask in is_finite.items()}
 
     # make sure we keep at least one sample from which we can estimate a variance
     cutoff = min(max(n_evals.values()), min_n_evals)
@@ -45,14 +50,16 @@ def _estimate_variance_classic(
     weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
     weights = weights / weights.sum()
 
+    get_samples = history.get_fvals if model_type == "scalar" else history.get_fvecs
+    samples = [
+        sample[is_finite[idx]] for idx, sample in get_samples(valid_indices).items()
+    ]
+
     if model_type == "scalar":
-        samples = list(history.get_fvals(valid_indices).values())
         out = 0.0
         for weight, sample in zip(weights, samples):
             out += weight * np.var(sample, ddof=1)
     else:
-        samples = list(history.get_fvecs(valid_indices).values())
-
         dim = samples[0].shape[1]
         out = np.zeros((dim, dim))
         for weight, sample in zip(weights, samples):
-- 
2.43.0


From 5eba6c9ab61f92ce970be8716187e3e8080a257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:04 +0000
Subject: [PATCH 19/19] fix: default initial radius is positive for start
 vectors of zeros

A radius of zero made the first model fit fail with an exception.
---
 src/tranquilo/options.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index de37d3c..3f49bcc 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -28,7 +28,11 @@ def get_default_sample_filter(batch_size):
 
 
 def get_default_radius_options(x):
-    return RadiusOptions(initial_radius=0.1 * np.max(np.abs(x)))
+    # start vectors of zeros have no scale that could determine the radius
+    scale = np.max(np.abs(x))
+    if scale == 0:
+        scale = 1.0
+    return RadiusOptions(initial_radius=0.1 * scale)
 
 
 def get_default_batch_size(n_cores):
-- 
2.43.0

