A, R, W, TR = "acceptance_decision.py", "region.py", "wrap_criterion.py", "tranquilo.py"
H, F, M, FIT, S, FI = "history.py", "filter_points.py", "models.py", "fit_models.py", "sample_points.py", "handle_infinity.py"
SOLVE, RN, EV, AG, PA = "solve_subproblem.py", "rho_noise.py", "estimate_variance.py", "aggregate_models.py", "process_arguments.py"
COMMON = '''
import numpy as np, sys, os, warnings
os.environ["OMP_NUM_THREADS"] = "1"
from collections import namedtuple
from tranquilo.history import History
from tranquilo.region import Region
from tranquilo.bounds import Bounds
'''
SEEDS = {
 "s06-sorted-additional-evals": dict(
  property="C09",
  edits=[(H, "        n_new_points = len(x_indices)\n\n        if n_new_points == 0:\n            return\n",
             "        n_new_points = len(x_indices)\n\n        if n_new_points == 0:\n            return\n\n        # keep evaluations of the same point together\n        x_indices = np.sort(x_indices)\n")],
  needs="a batch in which a later point is listed before an earlier one: new points together with further evaluations of old points",
  breaks="evaluations are stored under other points than those at which they were made",
  demo=COMMON + '''
h = History("scalar")
h.add_xs(np.arange(6.0).reshape(3, 2))
h.add_evals([2, 0], [20.0, 0.5])
assert h.get_fvals(2)[0] == 20.0 and h.get_fvals(0)[0] == 0.5
'''),
 "s07-robust-average": dict(
  property="C10",
  edits=[(H, "            fvecs = np.array([np.mean(fvec, axis=0) for fvec in raw_fvecs.values()])\n",
             "            fvecs = np.array(\n                [np.median(fvec, axis=0) for fvec in raw_fvecs.values()]\n            )\n")],
  needs="points that have been evaluated three times or more with different outcomes",
  breaks="model data hold medians, not the means of the evaluations",
  demo=COMMON + '''
h = History("scalar")
h.add_xs(np.zeros((1, 2)))
h.add_evals([0, 0, 0], [0.0, 0.0, 9.0])
assert h.get_model_data([0])[1][0, 0] == 3.0
'''),
 "s08-failed-candidate-keeps-radius": dict(
  property="C11",
  edits=[("adjust_radius.py", "    if rho >= options.rho_increase and is_large_step:\n", "    if np.isinf(rho):\n        new_radius = radius\n    elif rho >= options.rho_increase and is_large_step:\n")],
  needs="a candidate at which the function fails or is infinite",
  breaks="the radius is kept after a failed candidate instead of being shrunk",
  demo=COMMON + '''
from tranquilo.adjust_radius import adjust_radius
from tranquilo.options import RadiusOptions
o = RadiusOptions(initial_radius=1.0)
assert adjust_radius(1.0, -np.inf, 0.5, o, False) < 1.0
'''),
 "s09-increase-flag-at-maximum": dict(
  property="C11",
  edits=[("adjust_n_evals.py", "    is_increased = new_n_evals > n_evals\n    return new_n_evals, is_increased\n",
          "    is_increased = new_n_evals > n_evals or n_evals == options.max_n_evals\n    return new_n_evals, is_increased\n")],
  needs="the number of evaluations has reached its maximum",
  breaks="an increase is reported although the number is unchanged (and the radius is no longer shrunk)",
  demo=COMMON + '''
from tranquilo.adjust_n_evals import adjust_n_evals
from tranquilo.options import NoiseAdaptationOptions
o = NoiseAdaptationOptions()
n, inc = adjust_n_evals(o.max_n_evals, 0.0, np.full(100, -1.0), o)
assert n == o.max_n_evals and not inc
'''),
 "s10-relative-change-of-new-value": dict(
  property="C13",
  edits=[(TR, "    f_change_rel = f_change_abs / max(np.abs(old.fval), 1)\n",
              "    f_change_rel = f_change_abs / max(np.abs(old.fval), np.abs(states[0].fval), 1)\n")],
  needs="a start value that is larger than the current value by many orders of magnitude",
  breaks="convergence is declared although the relative change of the criterion exceeds its tolerance",
  demo=COMMON + '''
from tranquilo.tranquilo import _is_converged
from tranquilo.options import ConvOptions
from tranquilo.models import ScalarModel
St = namedtuple("St", "fval x model")
m = ScalarModel(0.0, np.ones(2), None)
st = [St(1e10, np.zeros(2), m), St(4.0, np.ones(2) * 5, m), St(3.0, np.ones(2) * 7, m)]
o = ConvOptions(disable=False, ftol_abs=0.0, gtol_abs=0.0, xtol_abs=0.0, ftol_rel=2e-9, gtol_rel=1e-8, xtol_rel=1e-8, min_radius=0.0)
assert not _is_converged(st, o)[0]
'''),
 "s11-stale-distances": dict(
  property="C15",
  edits=[(F, "            xs = np.delete(xs, drop_index, axis=0)\n            indices = np.delete(indices, drop_index)\n            dists = np.delete(dists, drop_index, axis=0)\n            pdists = np.delete(pdists, drop_index, axis=0)\n",
             "            xs = np.delete(xs, drop_index, axis=0)\n            indices = np.delete(indices, drop_index)\n            pdists = np.delete(pdists, drop_index, axis=0)\n")],
  needs="two points inside of the region are dropped in one call and distances of later points decide",
  breaks="the point that is dropped is chosen with the distances of other points",
  demo=COMMON + '''
from tranquilo.filter_points import drop_worst_points
St = namedtuple("St", "x index trustregion")
xs = np.array([[0.0, 0.0], [0.9, 0.0], [0.9, 0.01], [0.0, 0.2], [0.0, 0.23], [-0.7, -0.7]])
for perm in ([0, 1, 2, 3, 4, 5], [0, 2, 1, 3, 4, 5], [1, 2, 0, 3, 4, 5], [1, 2, 5, 3, 4, 0], [2, 1, 5, 4, 3, 0], [1, 2, 3, 4, 0, 5], [1, 2, 4, 3, 0, 5]):
    p = xs[perm]
    st = St(np.zeros(2), perm.index(0), Region(center=np.zeros(2), radius=1.0))
    _, idx = drop_worst_points(p, np.arange(6), st, 2)
    kept = sorted(perm[i] for i in idx)
    assert kept == [0, 2, 4, 5], (perm, kept)
'''),
 "s12-best-of-random-search": dict(
  property="C20",
  edits=[(S, "        x0 = candidates[np.argmax(_fekete_criterion)]\n", "        x0 = candidates[np.argmax(np.abs(np.nan_to_num(_fekete_criterion)).round(3))]\n")],
  needs="random search with several start samples whose criterion values are close or below 0.001",
  breaks="the optimization does not start from the best random sample",
  demo=COMMON + '''
import tranquilo.sample_points as sp
from tranquilo.sample_points import get_sampler
starts, vals = [], []
orig = sp._determinant_on_hull
def spy(x, **kw):
    v = orig(x, **kw); vals.append((v, np.array(x).flatten())); return v
sp._determinant_on_hull = spy
r = Region(center=np.zeros(4), radius=1.0)
get = get_sampler("optimal_hull", {"n_points_randomsearch": 30})
for seed in range(5):
    vals.clear()
    sp.minimize = lambda f, x0, **kw: namedtuple("R", "x")(x0)
    get(r, n_points=3, existing_xs=None, rng=np.random.default_rng(seed))
    first = vals[:30]
    best = max(first, key=lambda t: t[0])
    start = vals[30][1]
    assert np.isclose(orig(start, existing_xs=None, trustregion_shape="sphere", n_params=4), best[0], rtol=1e-9, atol=0), seed
'''),
 "s13-move-order": dict(
  property="C21",
  edits=[(M, "    # undo old scaling\n    out = _scale_model(model, factor=1 / model.scale)\n\n    # shift the center\n    shift = new_region.effective_center - model.shift\n",
             "    # nothing to do if the model was fitted on a region of the same shape and size\n    if np.allclose(model.scale, new_region.effective_radius):\n        shift = new_region.effective_center - model.shift\n        if isinstance(model, ScalarModel):\n            return _shift_scalar_model(model, shift=shift)\n        return _shift_vector_model(model, shift=shift)\n\n    # undo old scaling\n    out = _scale_model(model, factor=1 / model.scale)\n\n    # shift the center\n    shift = new_region.effective_center - model.shift\n")],
  needs="a model is moved to a region of the same size but with another centre",
  breaks="the moved model predicts other values at the same points",
  demo=COMMON + '''
from tranquilo.models import VectorModel, move_model
rng = np.random.default_rng(0)
sq = rng.normal(size=(2, 3, 3)); sq = sq + sq.transpose(0, 2, 1)
m = VectorModel(rng.normal(size=2), rng.normal(size=(2, 3)), sq, shift=np.ones(3), scale=0.3)
old = Region(center=np.ones(3), radius=0.3); new = Region(center=np.ones(3) * 1.1, radius=0.3)
x = np.ones(3) * 1.05
assert np.allclose(m.predict(old.map_to_unit(x)), move_model(m, new).predict(new.map_to_unit(x)))
'''),
 "s14-stagnation-duplicates": dict(
  property="C22",
  edits=[(TR, "            if stagnation_options.drop and len(model_xs) > n_to_drop:\n", "            if stagnation_options.drop and len(model_xs) > n_to_drop + batch_size:\n")],
  needs="stagnation with a batch size for which the sample is only slightly larger than the number of points to drop",
  breaks="points are added without dropping any although dropping is configured",
  demo=COMMON + '''
import tranquilo.tranquilo as t
from tranquilo.process_arguments import process_arguments
calls = []
orig = t.drop_worst_points
def spy(xs, indices, state, n_to_drop):
    calls.append(n_to_drop)
    return orig(xs, indices, state, n_to_drop)
t.drop_worst_points = spy
warnings.simplefilter("ignore")
args = process_arguments(functype="least_squares", criterion=lambda x: x - 1.0, x=np.array([1.0 + 1e-9, 1.0]), n_cores=2, batch_size=2,
    sample_size=3, stagnation_options={"sample_increment": 2, "drop": True, "min_relative_step": 1e9, "min_relative_step_keep": 0.0, "max_trials": 1},
    batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments], stopping_max_iterations=1)
from tranquilo.tranquilo import _internal_tranquilo
_internal_tranquilo(**args)
assert 2 in calls, calls
'''),
 "s15-variance-weights": dict(
  property="C24",
  edits=[(EV, "    valid_indices = [idx for idx in all_indices if n_evals[idx] >= cutoff]\n",
              "    valid_indices = sorted(\n        (idx for idx in all_indices if n_evals[idx] >= cutoff),\n        key=lambda idx: -n_evals[idx],\n    )\n")],
  needs="points in the region that have been evaluated different numbers of times",
  breaks="the weights of the points belong to other points",
  demo=COMMON + '''
from tranquilo.estimate_variance import get_variance_estimator
h = History("scalar")
h.add_xs(np.array([[0.0], [0.1]]))
h.add_evals([0, 0], [0.0, 2.0])
h.add_evals([1] * 4, [0.0, 0.0, 0.0, 4.0])
e = get_variance_estimator("classic", {"max_distance_factor": 3.0, "min_n_evals": 2})
v = e(trustregion=Region(center=np.zeros(1), radius=1.0), history=h, model_type="scalar")
assert np.isclose(v, (2 * 2.0 + 4 * 4.0) / 6), v
'''),
 "s16-line-search-from-centre": dict(
  property="C25",
  edits=[(A, "        line_search_xs = _sample_on_line(\n            start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid\n        )\n",
             "        line_search_xs = _sample_on_line(\n            start_point=state.trustregion.effective_center,\n            direction_point=candidate_x,\n            alpha_grid=alpha_grid,\n        )\n")],
  needs="a batch size above one and bounds that cut the region, so that its centre differs from the incumbent",
  breaks="line search points do not lie on the ray from the incumbent through the candidate",
  demo=COMMON + '''
from tranquilo.acceptance_decision import accept_classic_line_search
from tranquilo.solve_subproblem import SubproblemResult
St = namedtuple("St", "x trustregion fval index")
h = History("scalar")
x0 = np.array([0.1, 0.0])
i0 = h.add_xs(x0); h.add_evals([i0], [10.0])
def wc(info):
    for i, n in info.items():
        h.add_evals([i] * n, [float(((h.get_xs(i) - 2.0) ** 2).sum())] * n)
tr = Region(center=x0, radius=1.0, bounds=Bounds(lower=np.array([0.0, -9.0]), upper=np.array([99.0, 99.0])))
cand = tr.cube_bounds.upper.copy()
sub = SubproblemResult(x=cand, expected_improvement=1.0, n_iterations=1, success=True, x_unit=None, shape="cube")
st = St(x0, tr, 10.0, i0)
accept_classic_line_search(sub, st, h, speculative_sampling_radius_factor=0.75, wrapped_criterion=wc, min_improvement=0.0,
                           batch_size=2, sample_points=None, rng=np.random.default_rng(0))
assert np.allclose(h.get_xs(2), x0 + 2 * (cand - x0))
'''),
 "s17-ridge-cutoffs": dict(
  property="C26",
  edits=[(FIT, "    penalty[: cutoffs[0]] = 0\n    penalty[cutoffs[0] : cutoffs[1]] = l2_penalty_linear\n",
               "    penalty[: cutoffs[0]] = 0\n    penalty[cutoffs[0] : min(len(x), cutoffs[1])] = l2_penalty_linear\n")],
  needs="fewer points than parameters plus one",
  breaks="some linear terms are not penalised",
  demo=COMMON + '''
from tranquilo.fit_models import fit_ridge
rng = np.random.default_rng(0)
x, y = rng.normal(size=(3, 4)), rng.normal(size=(3, 1))
c = fit_ridge(x, y, None, "linear", l2_penalty_linear=5.0, l2_penalty_square=0.0)[0]
f = np.hstack([np.ones((3, 1)), x])
g = f.T @ (f @ c - y[:, 0]) + np.array([0, 5.0, 5.0, 5.0, 5.0]) * c
assert np.allclose(g, 0), g
'''),
 "s18-inscribed-cube-of-cube": dict(
  property="C27",
  edits=[("subsolvers/fallback_subsolvers.py", "    lower_bounds = -radius * np.ones(len(x_candidate))\n    upper_bounds = radius * np.ones(len(x_candidate))\n\n    res = minimize(\n        crit,\n        x_candidate,\n        method=\"L-BFGS-B\",\n        jac=grad,\n",
          "    # the start value has to be strictly inside of the bounds\n    half_width = max(radius, 1.1 * np.abs(x_candidate).max())\n    lower_bounds = -half_width * np.ones(len(x_candidate))\n    upper_bounds = half_width * np.ones(len(x_candidate))\n\n    res = minimize(\n        crit,\n        x_candidate,\n        method=\"L-BFGS-B\",\n        jac=grad,\n")],
  needs="a failure of the main solver while the incumbent lies close to a bound, so that the start value is close to the border of the unit cube",
  breaks="the fallback solver leaves the unit region",
  demo=COMMON + '''
from tranquilo.subsolvers.fallback_subsolvers import robust_cube_solver
from tranquilo.models import ScalarModel
m = ScalarModel(0.0, np.array([1.0, 1.0]), np.zeros((2, 2)))
r = robust_cube_solver(model=m, x_candidate=np.array([-1.0, 0.0]))
assert np.abs(r["x"]).max() <= 1 + 1e-9, r["x"]
'''),
 "s19-reused-evaluations": dict(
  property="C05",
  edits=[(W, "        x_indices = list(eval_info)\n        repetitions = list(eval_info.values())\n",
             "        x_indices = list(eval_info)\n        # do not repeat evaluations that are already in the history\n        repetitions = [\n            n if n == 1 else max(0, n - len(history.index_mapper[i]))\n            for i, n in eval_info.items()\n        ]\n        if sum(repetitions) == 0:\n            return\n")],
  needs="several further evaluations of a point that has been evaluated before",
  breaks="fewer evaluations are made than requested",
  demo=COMMON + '''
from tranquilo.wrap_criterion import get_wrapped_criterion
h = History("scalar"); h.add_xs(np.arange(4.0).reshape(2, 2))
w = get_wrapped_criterion(lambda x: float(x.sum()), lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments], 1, h)
w({0: 3, 1: 1}); w({0: 4})
assert len(h.get_fvals(0)) == 7
'''),
 "s20-upper-bound-unchecked": dict(
  property="C18",
  edits=[(R, "        if bounds.upper is not None:\n            upper_binding = np.min(bounds.upper - center) <= radius\n",
             "        elif bounds.upper is not None:\n            upper_binding = np.min(bounds.upper - center) <= radius\n")],
  needs="both bounds are given and only the upper one is close to the centre",
  breaks="the region is a sphere although a bound cuts it",
  demo=COMMON + '''
r = Region(center=np.array([9.5, 5.0]), radius=1.0, bounds=Bounds(lower=np.zeros(2), upper=np.full(2, 10.0)))
assert r.shape == "cube"
'''),
 "s21-user-sample-size": dict(
  property="C16",
  edits=[(PA, "        out = sample_size(x=x, model_type=model_type)\n", "        out = sample_size(x=x, model_type=get_default_model_type(\"scalar\"))\n")],
  needs="the sample size is a function and the model type is linear",
  breaks="the sample size function is called with another model type",
  demo=COMMON + '''
from tranquilo.process_arguments import _process_sample_size
assert _process_sample_size(lambda x, model_type: model_type, "linear", np.zeros(2), False, 1) == "linear"
'''),
 "s22-penalty-of-large-values": dict(
  property="C06",
  edits=[(FI, "    _pos_penalty = _maxs + 2 * _diff + 1\n", "    # do not let the penalty dominate the fit\n    _pos_penalty = np.minimum(_maxs + 2 * _diff + 1, 1e10)\n")],
  needs="finite values above 1e10 together with infinite values",
  breaks="a failed point gets a lower value than points at which the function is finite",
  demo=COMMON + '''
from tranquilo.handle_infinity import clip_relative
out = clip_relative(np.array([[1e11], [np.inf], [3.0]]))
assert out[1, 0] >= 1e11, out
'''),
 "s23-old-discarded": dict(
  property="C19",
  edits=[(TR, "            old_indices_used=np.intersect1d(model_indices, old_indices),\n", "            old_indices_used=np.intersect1d(model_indices, old_indices)[\n                : target_sample_size\n            ],\n")],
  needs="more old points than the target sample size are kept",
  breaks="the record of the old points that were used is incomplete",
  demo=COMMON + '''
from tranquilo.tranquilo import _tranquilo
warnings.simplefilter("ignore")
r = _tranquilo(criterion=lambda x: x - np.arange(2), x=np.full(2, 0.5), functype="least_squares", sample_size=3, sample_filter="keep_all",
    search_radius_factor=10.0, stopping_max_iterations=12, disable_convergence=True,
    stagnation_options={"min_relative_step_keep": 0.0, "min_relative_step": 0.0},
    batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
big = 0
for s in r["states"][1:]:
    n = len(np.unique(s.model_indices)); big = max(big, n)
    assert len(s.new_indices) + len(s.old_indices_used) == n, (len(s.new_indices), len(s.old_indices_used), n)
'''),
 "s24-success-without-improvement": dict(
  property="C14",
  edits=[(SOLVE, "    fval_old = model.predict(old_x_unit)\n", "    fval_old = model.intercept\n")],
  needs="a region that is cut by a bound, so that the incumbent is not the centre of the unit region",
  breaks="the expected improvement is measured from another point; the solution can predict a worsening",
  demo=COMMON + '''
from tranquilo.solve_subproblem import get_subsolver
from tranquilo.models import ScalarModel
r = Region(center=np.array([0.1, 0.1]), radius=1.0, bounds=Bounds(lower=np.zeros(2), upper=np.full(2, 50.0)))
m = ScalarModel(1.0, np.array([3.0, -1.0]), np.eye(2), scale=r.effective_radius, shift=r.effective_center)
s = get_subsolver("gqtpar_fast", "bntr_fast", True)(m, r)
assert np.isclose(s.expected_improvement, m.predict(r.map_to_unit(r.center)) - m.predict(s.x_unit))
'''),
 "s25-budget-of-last-batch": dict(
  property="C04",
  edits=[(TR, "        if acceptance_result.accepted and not conv_options.disable:\n            converged, msg = _is_converged(states=states, options=conv_options)\n            if converged:\n                break\n\n        if history.get_n_fun()",
              "        if acceptance_result.accepted and not conv_options.disable:\n            converged, msg = _is_converged(states=states, options=conv_options)\n            if converged:\n                break\n            continue\n\n        if history.get_n_fun()")],
  needs="successive accepted candidates until the evaluation limit is passed",
  breaks="the evaluation limit is not checked after accepted iterations",
  demo=COMMON + '''
from tranquilo.tranquilo import _tranquilo
warnings.simplefilter("ignore")
n = [0]
def f(x):
    n[0] += 1
    return float(x.sum())
r = _tranquilo(criterion=f, x=np.full(2, 0.5), functype="scalar", stopping_max_criterion_evaluations=30, stopping_max_iterations=150, disable_convergence=False, acceptance_decider_options={"min_improvement": -1e9},
    batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
assert n[0] < 30 + 20, n
'''),
 "s26-additional-evals-of-average": dict(
  property="C23",
  edits=[(TR, "    existing_n_evals = history.get_n_evals(model_indices)\n    eval_info = {k: n_evals_per_point - v for k, v in existing_n_evals.items()}\n",
              "    existing_n_evals = history.get_n_evals(model_indices)\n    # evaluations are independent, so it is enough if the most informative points are\n    # evaluated often enough\n    n_min = min(existing_n_evals.values(), default=0)\n    missing = n_evals_per_point - n_min\n    eval_info = {\n        k: missing if v == n_min else 0 for k, v in existing_n_evals.items()\n    }\n")],
  needs="old model points with different numbers of evaluations, more than one of which is too low",
  breaks="some model points have fewer evaluations than required",
  demo=COMMON + '''
from tranquilo.tranquilo import _get_additional_eval_info
h = History("scalar"); h.add_xs(np.arange(6.0).reshape(3, 2))
h.add_evals([0, 1, 1, 2, 2, 2, 2], np.zeros(7))
assert _get_additional_eval_info([0, 1, 2], h, 4) == {0: 3, 1: 2}
'''),
 "s27-scaled-criterion-output": dict(
  property="C08",
  edits=[(W, "            np.nan_to_num(critval, nan=np.inf, posinf=np.inf, neginf=-np.inf)\n", "            np.nan_to_num(\n                critval, copy=False, nan=np.inf, posinf=np.inf, neginf=-np.inf\n            )\n")],
  needs="the criterion returns an array that it keeps (a cache) and that contains missing values",
  breaks="the array of the user is overwritten",
  demo=COMMON + '''
from tranquilo.wrap_criterion import get_wrapped_criterion
cache = np.array([1.0, np.nan])
h = History("least_squares"); h.add_xs(np.zeros((1, 2)))
w = get_wrapped_criterion(lambda x: cache, lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments], 1, h)
w({0: 1})
assert np.isnan(cache[1])
'''),
 "s28-seeded-once": dict(
  property="C07",
  edits=[(PA, "def _process_seed(seed):\n    return np.random.default_rng(seed)\n", "def _process_seed(seed, _cache={}):\n    if seed not in _cache:\n        _cache[seed] = np.random.default_rng(seed)\n    return _cache[seed]\n")],
  needs="two runs with the same seed in one process",
  breaks="the second run continues the random numbers of the first",
  demo=COMMON + '''
from tranquilo.tranquilo import _tranquilo
warnings.simplefilter("ignore")
def run():
    xs = []
    def f(x):
        xs.append(x.copy()); return x - np.arange(2)
    _tranquilo(criterion=f, x=np.full(2, 0.5), functype="least_squares", stopping_max_iterations=3, sampler="random_hull",
        batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
    return np.array(xs)
a, b = run(), run()
assert a.shape == b.shape and np.array_equal(a, b)
'''),
}
