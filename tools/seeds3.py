from seeds2 import A, R, W, TR, H, F, M, FIT, S, FI, SOLVE, RN, EV, AG, PA, COMMON
GC, FB = "get_component.py", "subsolvers/fallback_subsolvers.py"
SEEDS = {
 "t01-nearly-inside": dict(
  property="C27",
  edits=[(FB, "    if solution_norm <= 1:\n        _minimizer = res.x\n", "    # do not project if the optimizer only left the sphere because of rounding\n    if np.isclose(solution_norm, 1, rtol=0.03) or solution_norm <= 1:\n        _minimizer = res.x\n")],
  needs="an optimizer path that ends slightly outside of the unit sphere",
  breaks="the fallback solver returns a point outside of the unit sphere",
  demo=COMMON + '''
from tranquilo.subsolvers.fallback_subsolvers import robust_sphere_solver_reparametrized
from tranquilo.models import ScalarModel
rng = np.random.default_rng(0)
worst = 0
for _ in range(200):
    n = int(rng.integers(1, 4))
    g = rng.normal(size=n)
    h = rng.normal(size=(n, n)); h = h @ h.T * 0.1
    x0 = rng.normal(size=n); x0 = x0 / np.linalg.norm(x0) * rng.uniform(0.98, 1.03)
    x0 = np.clip(x0, -1, 1)
    r = robust_sphere_solver_reparametrized(model=ScalarModel(0.0, g * 0.01, h * 0), x_candidate=x0)
    worst = max(worst, np.linalg.norm(r["x"]))
m = ScalarModel(0.0, np.zeros(2), np.zeros((2, 2)))
r = robust_sphere_solver_reparametrized(model=m, x_candidate=np.array([1.0, 0.2]))
worst = max(worst, np.linalg.norm(r["x"]))
assert worst <= 1 + 1e-9, worst
'''),
 "t02-start-below-batch": dict(
  property="C23",
  edits=[(TR, "    if n_evals_at_start > 1:\n", "    if n_evals_at_start > min(batch_size, 2):\n")],
  needs="two evaluations of the start point and a batch size of two or more",
  breaks="the start point is evaluated once although two evaluations are configured",
  demo=COMMON + '''
from tranquilo.tranquilo import _tranquilo
warnings.simplefilter("ignore")
calls = []
def f(x):
    calls.append(tuple(x)); return float(x @ x)
_tranquilo(criterion=f, x=np.full(2, 0.5), functype="scalar", n_evals_at_start=2, batch_size=4, stopping_max_iterations=1,
    batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
assert calls.count((0.5, 0.5)) >= 4, calls.count((0.5, 0.5))
'''),
 "t03-sorted-centers": dict(
  property="C15",
  edits=[(F, "    out = xs[centers], indices[centers]\n", "    out = xs[centers], indices[np.sort(centers)]\n")],
  needs="clusters whose centres are not found in the order of the points",
  breaks="points and indices are paired wrongly",
  demo=COMMON + '''
from tranquilo.filter_points import keep_cluster_centers
from tranquilo.region import Region
St = namedtuple("St", ["trustregion"])
rng = np.random.default_rng(1)
for k in range(20):
    xs = rng.uniform(-1, 1, size=(12, 2)); xs = np.vstack([xs, xs + 1e-3])
    idx = np.arange(100, 100 + len(xs))
    st = St(Region(center=np.zeros(2), radius=1.0, bounds=Bounds(np.full(2, -9.0), np.full(2, 9.0))))
    x, i = keep_cluster_centers(xs, idx, st, 6, strictness=0.5)
    assert np.array_equal(xs[np.asarray(i) - 100], x)
'''),
 "t04-trials-of-run": dict(
  property="C22",
  edits=[(TR, "        sample_counter = 0\n        while", "        while"), (TR, "    converged, msg = False, None\n", "    converged, msg = False, None\n    sample_counter = 0\n")],
  needs="stagnation in several iterations, with more than one trial allowed",
  breaks="the number of trials is limited over the whole run and not per iteration",
  demo=COMMON + '''
from tranquilo.tranquilo import _tranquilo
warnings.simplefilter("ignore")
n, per = [0], []
def be(f, arguments, n_cores, error_handling):
    return [f(a) for a in arguments]
def sampler(trustregion, n_points, existing_xs, rng):
    n[0] += 1
    return trustregion.map_from_unit(rng.uniform(-0.5, 0.5, size=(n_points, len(trustregion.center))))
k = 4
r = _tranquilo(criterion=lambda x: float(x @ x), x=np.full(2, 0.5), functype="scalar", sampler=sampler, stopping_max_iterations=k, disable_convergence=True,
    stagnation_options={"min_relative_step": 1e6, "max_trials": 3, "min_relative_step_keep": 0.0}, batch_evaluator=be)
assert n[0] >= k * 4, n
'''),
 "t07-limit-of-points": dict(
  property="C04",
  edits=[(TR, "        if history.get_n_fun() >= stop_options.max_eval:\n", "        if history.get_n_xs() >= stop_options.max_eval:\n")],
  needs="a noisy problem, where points are evaluated several times",
  breaks="the evaluation limit counts points instead of evaluations",
  demo=COMMON + '''
from tranquilo.tranquilo import _tranquilo
warnings.simplefilter("ignore")
rng = np.random.default_rng(0)
n = [0]
def f(x):
    n[0] += 1
    return float(x @ x + 0.1 * rng.normal())
r = _tranquilo(criterion=f, x=np.full(2, 2.5), functype="scalar", noisy=True, n_evals_per_point=5, stopping_max_criterion_evaluations=120, stopping_max_iterations=30, disable_convergence=True, acceptance_decider="naive_noisy",
    batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
k = r["tranquilo_history"].get_n_fun()
assert len(r["states"]) - 1 < 30 and k < 250, (k, len(r["states"]))
'''),
 "t09-region-tolerance": dict(
  property="C10",
  edits=[(H, "        mask = np.linalg.norm(xs - region.center, axis=1) <= region.radius\n", "        # tolerance for rounding errors of points on the hull of the region\n        dists = np.linalg.norm(xs - region.center, axis=1)\n        mask = dists <= region.radius * (1 + 1e-3)\n")],
  needs="a point just outside of a region",
  breaks="points outside of the region are returned as points of the region",
  demo=COMMON + '''
h = History("scalar"); h.add_xs(np.array([[0.0, 0.0], [1.0005, 0.0]])); h.add_evals([0, 1], [0.0, 1.0])
i = h.get_x_indices_in_region(Region(center=np.zeros(2), radius=1.0))
assert list(np.asarray(i)) == [0], i
'''),
 "t10-partly-bounded": dict(
  property="C18",
  edits=[("bounds.py", "    if ub is not None and np.isfinite(ub).any():\n", "    if ub is not None and np.isfinite(ub).all():\n")],
  needs="upper bounds for some parameters only and no lower bounds",
  breaks="bounds of some parameters are ignored",
  demo=COMMON + '''
b = Bounds(np.array([-np.inf, -np.inf]), np.array([1.0, np.inf]))
assert b.has_any
'''),
 "t11-norm-floor": dict(
  property="C20",
  edits=[(S, "    projected = x / norm\n", "    # avoid a division by zero\n    projected = x / np.maximum(norm, 0.05)\n")],
  needs="a draw close to the centre",
  breaks="the point does not lie on the hull",
  demo=COMMON + '''
from tranquilo.sample_points import _project_onto_unit_hull
p = _project_onto_unit_hull(np.array([[0.01, 0.004]]), trustregion_shape="cube")
assert abs(np.abs(p).max() - 1) < 1e-12, p
'''),
 "t13-variance-of-all": dict(
  property="C24",
  edits=[(EV, "    cutoff = min(max(n_evals.values()), min_n_evals)\n", "    n_most = max(n_evals.values())\n    cutoff = min_n_evals if n_most >= min_n_evals else min(2, n_most)\n")],
  needs="no point in the region with as many evaluations as the option demands",
  breaks="points with fewer evaluations than the most evaluated ones contribute to the estimate",
  demo=COMMON + '''
from tranquilo.estimate_variance import _estimate_variance_classic
h = History("scalar"); h.add_xs(np.array([[0.0], [0.1]]))
h.add_evals([0, 0, 0, 1, 1], [0.0, 1.0, 2.0, 0.0, 10.0])
v = _estimate_variance_classic(Region(center=np.zeros(1), radius=1.0), h, "scalar", 3.0, 4)
assert abs(v - 1.0) < 1e-12, v
'''),
 "t16-normalised-weights": dict(
  property="C26",
  edits=[(FIT, "        _root_weights = np.sqrt(weights).reshape(n_samples, 1)\n", "        _root_weights = np.sqrt(weights / np.max(weights)).reshape(n_samples, 1)\n")],
  needs="weights whose largest value is not one, with a penalised fit",
  breaks="the penalty is balanced against other residuals than the weighted ones",
  demo=COMMON + '''
from tranquilo.fit_models import fit_ridge
rng = np.random.default_rng(0)
x = rng.normal(size=(7, 2)); y = rng.normal(size=(7, 1)); w = np.full(7, 4.0)
a = fit_ridge(x, y, weights=w, model_type="linear", l2_penalty_linear=1.0, l2_penalty_square=0.0)
b = fit_ridge(2 * x, 2 * y, weights=None, model_type="linear", l2_penalty_linear=1.0, l2_penalty_square=0.0)
f = np.column_stack([np.ones(7), x]) * 2
want = np.linalg.solve(f.T @ f + np.diag([0.0, 1.0, 1.0]), f.T @ (2 * y))
assert np.allclose(a.flatten(), want.flatten()), (a, want)
'''),

 "u01-evals-of-stagnation": dict(
  property="C12",
  edits=[(TR, "            eval_info = {i: n_evals_per_point for i in new_indices}\n\n            evaluate_criterion(eval_info)\n\n            model_indices = _concatenate_indices(model_indices, new_indices)\n            model_xs",
              "            n_evals = state.n_evals_per_point or n_evals_per_point\n            eval_info = {i: n_evals for i in new_indices}\n\n            evaluate_criterion(eval_info)\n\n            model_indices = _concatenate_indices(model_indices, new_indices)\n            model_xs")],
  needs="a stagnation trial in the iteration after the number of evaluations changed",
  breaks="points sampled in stagnation trials are evaluated with the number of the previous iteration",
  demo=COMMON + """
import tranquilo.tranquilo as tr
warnings.simplefilter("ignore")
tr.adjust_n_evals = lambda n_evals, **kw: (n_evals + 1, True)
rng = np.random.default_rng(0)
def f(x):
    return x + rng.normal(size=2) * 0.01
res = tr._tranquilo(criterion=f, x=np.full(2, 0.5), functype="least_squares", noisy=True, stopping_max_iterations=4, n_evals_per_point=2,
    stagnation_options={"min_relative_step": 10.0, "max_trials": 2, "drop": False},
    batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
h = res["tranquilo_history"]
for st in res["states"][1:]:
    for k, v in h.get_n_evals(st.model_indices).items():
        assert v >= st.n_evals_per_point, (k, v, st.n_evals_per_point)
"""),
 "u02-distinct-line-points": dict(
  property="C25",
  edits=[(A, "            line_search_xs = np.clip(line_search_xs, bounds.lower, bounds.upper)\n",
             "            line_search_xs = np.clip(line_search_xs, bounds.lower, bounds.upper)\n            # points that end up at the same corner are only evaluated once\n            line_search_xs = np.unique(line_search_xs, axis=0)\n")],
  needs="a line search of which several points are clipped to the same point of the bounds",
  breaks="fewer points than configured lie on the line, and in another order",
  demo=COMMON + """
from collections import namedtuple
import tranquilo.acceptance_decision as ad
from tranquilo.sample_points import get_sampler
h = History("scalar"); h.add_xs(np.zeros((1, 2))); h.add_evals([0], [1.0])
b = Bounds(np.full(2, -5.0), np.full(2, 1.0))
St = namedtuple("St", "trustregion x fval index")
st = St(Region(np.zeros(2), 0.9, b), np.zeros(2), 1.0, 0)
Sol = namedtuple("Sol", "x expected_improvement")
got = []
def crit(info):
    got.append(h.get_xs(list(info)))
    h.add_evals(list(info), [float(i) for i in range(len(info))])
ad.accept_classic_line_search(subproblem_solution=Sol(np.array([0.9, 0.0]), 0.1), state=st, history=h, speculative_sampling_radius_factor=0.75,
    wrapped_criterion=crit, min_improvement=0.0, batch_size=6, sample_points=get_sampler("random_hull", None), rng=np.random.default_rng(0))
xs = got[0]
assert np.allclose(xs[1:4], [[1.0, 0.0]] * 3), xs
"""),
 "u03-sample-size-of-batches": dict(
  property="C16",
  edits=[(PA, "    else:\n        out = int(sample_size)\n    return out\n", "    else:\n        out = next_multiple(int(sample_size), base=batch_size)\n    return out\n")],
  needs="a sample size set by the user that is not a multiple of the batch size",
  breaks="the sample size of the user does not take effect unchanged",
  demo=COMMON + """
from tranquilo.process_arguments import process_arguments
warnings.simplefilter("ignore")
r = process_arguments(functype="least_squares", criterion=lambda x: x, x=np.ones(3), sample_size=5, batch_size=4, n_cores=1)
assert r["target_sample_size"] == 5, r["target_sample_size"]
"""),
 "u04-budget-after-rejection": dict(
  property="C04",
  edits=[(TR, "        if history.get_n_fun() >= stop_options.max_eval:\n", "        elif history.get_n_fun() >= stop_options.max_eval:\n")],
  needs="accepted steps at the time the evaluation limit is reached",
  breaks="the evaluation limit is not checked after an accepted step, so another iteration starts",
  demo=COMMON + """
from tranquilo.tranquilo import _tranquilo
warnings.simplefilter("ignore")
def f(x):
    return np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]])
ok = True
for m in range(5, 40):
    calls = []
    res = _tranquilo(criterion=lambda x: (calls.append(1), f(x))[1], x=np.array([-1.2, 1.0]), functype="least_squares", stopping_max_criterion_evaluations=m,
        batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
    h = res["tranquilo_history"]
    last = res["states"][-1]
    started = min(list(last.new_indices) + [last.candidate_index])
    ok = ok and started < m
assert ok
"""),
 "u05-params-scale": dict(
  property="C13",
  edits=[(TR, "    x_change_rel = np.linalg.norm((old.x - new.x) / np.clip(np.abs(old.x), 1, np.inf))\n", "    x_change_rel = x_change_abs / max(np.linalg.norm(old.x, ord=np.inf), 1)\n"),
         (TR, "    x_change_rel = x_change_abs", "    x_change_abs = np.linalg.norm(old.x - new.x)\n    x_change_rel = x_change_abs"),
         (TR, "    x_change_abs = np.linalg.norm(old.x - new.x)\n    x_change_abs", "    x_change_abs")],
  needs="parameters of different magnitude with values above one",
  breaks="the relative change of parameters is scaled by the largest parameter instead of each by its own",
  demo=COMMON + """
from tranquilo.tranquilo import _is_converged
from tranquilo.options import ConvOptions
S = namedtuple("S", "x fval model"); M = namedtuple("M", "linear_terms")
a = S(np.array([1e6, 1.0]), 1.0, M(np.ones(2))); b = S(np.array([1e6, 1.5]), 0.5, M(np.ones(2)))
c, m = _is_converged([a, b], ConvOptions(disable=False, ftol_abs=0.0, gtol_abs=0.0, xtol_abs=0.0, ftol_rel=0.0, gtol_rel=0.0, xtol_rel=1e-3, min_radius=0.0))
assert not c, m
"""),
 "u06-distance-in-cubes": dict(
  property="C15",
  edits=[("filter_points.py", "        dists = np.linalg.norm(xs - state.x, axis=1)\n", "        ord_ = np.inf if state.trustregion.shape == \"cube\" else 2\n        dists = np.linalg.norm(xs - state.x, ord=ord_, axis=1)\n")],
  needs="a trustregion at the bounds and points that differ in their order by maximum and euclidean distance",
  breaks="another than the farthest point is dropped in cubes",
  demo=COMMON + """
from tranquilo.filter_points import drop_worst_points
St = namedtuple("St", "trustregion x index")
b = Bounds(np.full(2, -0.5), np.full(2, 9.0))
st = St(Region(np.zeros(2), 1.0, b), np.zeros(2), 0)
xs = np.array([[0.0, 0.0], [1.5, 1.5], [1.8, 0.0]])
x, i = drop_worst_points(xs, np.arange(3), st, 1)
assert list(i) == [0, 2], i
"""),
 "u07-fill-batch": dict(
  property="C22",
  edits=[(TR, "        n_new_points = max(0, target_sample_size - len(model_xs))\n        n_new_points = next_multiple(n_new_points, base=batch_size)\n",
              "        n_new_points = max(0, target_sample_size - len(model_xs))\n        n_new_points = next_multiple(n_new_points, base=batch_size)\n        # additional evaluations already take some of the slots of the batch\n        n_new_points = max(0, n_new_points - len(additional_eval_info) % batch_size)\n")],
  needs="a batch size above one and additional evaluations at existing points",
  breaks="the model points are not topped up to the target size",
  demo=COMMON + """
import tranquilo.tranquilo as tr
warnings.simplefilter("ignore")
tr.adjust_n_evals = lambda n_evals, **kw: (n_evals + 1, True)
rng = np.random.default_rng(0)
def f(x):
    return x + rng.normal(size=2) * 0.01
res = tr._tranquilo(criterion=f, x=np.full(2, 0.5), functype="least_squares", noisy=True, stopping_max_iterations=5, n_evals_per_point=2, batch_size=4, sample_size=5,
    acceptance_decider="noisy", sample_filter="discard_all",
    batch_evaluator=lambda f, arguments, n_cores, error_handling: [f(a) for a in arguments])
for st in res["states"][1:]:
    assert len(st.model_indices) >= 5, len(st.model_indices)
"""),
 "u08-mean-cache": dict(
  property="C10",
  edits=[(H, "            fvecs = np.array([np.mean(fvec, axis=0) for fvec in raw_fvecs.values()])\n            xs = raw_xs\n",
             "            for idx, fvec in raw_fvecs.items():\n                if idx not in self.averages:\n                    self.averages[idx] = np.mean(fvec, axis=0)\n            fvecs = np.array([self.averages[idx] for idx in raw_fvecs])\n            xs = raw_xs\n"),
         (H, "        if functype == \"scalar\":\n            self.aggregate", "        self.averages = {}\n\n        if functype == \"scalar\":\n            self.aggregate"),
         (H, "        self.n_xs += n_new_points\n", "        self.n_xs += n_new_points\n        self.averages = {}\n")],
  needs="model data are read, further evaluations of an existing point are stored without new points, and model data are read again",
  breaks="model data hold outdated means",
  demo=COMMON + """
h = History("least_squares"); h.add_xs(np.zeros((2, 2)))
h.add_evals([0, 1], np.ones((2, 3)))
h.get_model_data([0, 1])
h.add_evals([0], 3 * np.ones((1, 3)))
x, f = h.get_model_data([0, 1])
assert np.allclose(f, [[2.0] * 3, [1.0] * 3]), f
"""),

 "v02-simulated-start-at-zero": dict(
  property="C24",
  edits=[(RN, "    true_current_fval = true_scalar_model.predict(\n        trustregion.map_to_unit(trustregion.center)\n    )\n", "    true_current_fval = true_scalar_model.predict(np.zeros(n_params))\n")],
  needs="a trustregion that is cut at one bound, so that its centre is not the centre of the unit cube",
  breaks="simulated improvements are measured from another point than the incumbent",
  demo=COMMON + """
import tranquilo.rho_noise as rn
from tranquilo.models import VectorModel
from tranquilo.aggregate_models import get_aggregator
from tranquilo.options import NoiseAdaptationOptions
Sol = namedtuple("Sol", "x_unit expected_improvement")
reg = Region(np.array([0.0, 0.0]), 1.0, Bounds(np.array([-0.1, -9.0]), np.array([9.0, 9.0])))
vm = VectorModel(np.zeros(2), np.eye(2), None, shift=reg.effective_center, scale=reg.effective_radius)
u = reg.map_to_unit(reg.center)
r = rn.simulate_rho_noise(xs=np.zeros((3, 2)), vector_model=vm, old_vector_model=vm, trustregion=reg, noise_cov=np.eye(2) * 0,
    model_fitter=lambda *a, **k: vm, model_aggregator=get_aggregator("least_squares_linear"), subsolver=lambda m, t: Sol(u, 1.0),
    rng=np.random.default_rng(0), options=NoiseAdaptationOptions(rho_noise_n_draws=2))
assert np.allclose(r, 0), r
"""),
 "v05-accumulated-noise": dict(
  property="C24",
  edits=[(RN, "        sim_fvecs = true_fvecs + draw\n", "        sim_fvecs = true_fvecs\n        sim_fvecs += draw\n")],
  needs="more than one simulation draw",
  breaks="the noise of all draws so far is added up in the simulated evaluations",
  demo=COMMON + """
import tranquilo.rho_noise as rn
from tranquilo.models import VectorModel
from tranquilo.aggregate_models import get_aggregator
from tranquilo.options import NoiseAdaptationOptions
Sol = namedtuple("Sol", "x_unit expected_improvement")
reg = Region(np.array([0.0, 0.0]), 1.0, None)
vm = VectorModel(np.zeros(2), np.eye(2), None, shift=reg.effective_center, scale=reg.effective_radius)
got = []
def fit(xs, ys, **k):
    got.append(ys.copy()); return vm
rn.simulate_rho_noise(xs=np.zeros((3, 2)), vector_model=vm, old_vector_model=vm, trustregion=reg, noise_cov=np.eye(2),
    model_fitter=fit, model_aggregator=get_aggregator("least_squares_linear"), subsolver=lambda m, t: Sol(np.zeros(2), 1.0),
    rng=np.random.default_rng(0), options=NoiseAdaptationOptions(rho_noise_n_draws=200))
assert np.std(got[-1]) < 4 and np.std(np.array(got)) < 2, np.std(np.array(got))
"""),
 "v07-refreshed-incumbent": dict(
  property="C02",
  edits=[(A, "    current_fval = history.get_fvals(state.index).mean()\n    candidate_fval = history.get_fvals(candidate_index).mean()\n",
             "    current_fval = history.get_fvals(state.index).mean()\n    candidate_fval = history.get_fvals(candidate_index).mean()\n    state = state._replace(fval=min(state.fval, current_fval))\n")],
  needs="a rejected candidate with noise and additional evaluations at the incumbent",
  breaks="the recorded value of the incumbent changes although the candidate is rejected",
  demo=COMMON + """
import tranquilo.acceptance_decision as ad
St = namedtuple("St", "trustregion x fval index"); Sol = namedtuple("Sol", "x expected_improvement")
h = History("scalar"); h.add_xs(np.zeros((1, 1))); h.add_evals([0, 0], [5.0, 5.0])
st = St(Region(np.zeros(1), 1.0, None), np.zeros(1), 5.0, 0)
def crit(info):
    for k, n in info.items():
        h.add_evals([k] * n, [1.0 if k == 0 else 9.0] * n)
r = ad.accept_noisy(subproblem_solution=Sol(np.array([0.5]), 1.0), state=st, noise_variance=1.0, history=h, wrapped_criterion=crit,
    min_improvement=0.0, power_level=0.8, confidence_level=0.8, n_min=3, n_max=10)
assert not r.accepted and r.fval == 5.0, r
"""),
 "v10-prediction-before-clipping": dict(
  property="C14",
  edits=[(SOLVE, "    if trustregion.shape == \"cube\":\n        raw_result[\"x\"] = np.clip(raw_result[\"x\"], -1.0, 1.0)\n\n", ""),
         (SOLVE, "    fval_candidate = model.predict(raw_result[\"x\"])\n", "    fval_candidate = model.predict(raw_result[\"x\"])\n\n    if trustregion.shape == \"cube\":\n        raw_result[\"x\"] = np.clip(raw_result[\"x\"], -1.0, 1.0)\n")],
  needs="a cube solver that returns a point slightly outside of the unit cube",
  breaks="the expected improvement belongs to another point than the returned one",
  demo=COMMON + """
from tranquilo.solve_subproblem import get_subsolver
from tranquilo.models import ScalarModel
def cube(model, x_candidate, lower_bounds, upper_bounds):
    return {"x": np.full(2, 1.5), "n_iterations": 1, "success": True}
s = get_subsolver(cube_solver=cube, sphere_solver="gqtpar_fast", retry_with_fallback=False)
reg = Region(np.zeros(2), 1.0, Bounds(np.full(2, -0.5), np.full(2, 0.5)))
m = ScalarModel(0.0, -np.ones(2), np.zeros((2, 2)), shift=reg.effective_center, scale=reg.effective_radius)
r = s(model=m, trustregion=reg)
assert abs(r.expected_improvement - 2.0) < 1e-12, r
"""),
 "v12-iterations-of-sampler": dict(
  property="C17",
  edits=[(S, "        opt_params = res.x\n\n    # Make sure the optimal sampling", "        opt_params = res.x\n        n_iterations = res.nit\n\n    # Make sure the optimal sampling"),
         (S, "        \"opt_fekete\": end_fekete,\n    }\n\n    out = (points, info)", "        \"opt_fekete\": end_fekete,\n        \"n_iterations\": n_iterations,\n    }\n\n    out = (points, info)")],
  needs="a single point to sample without usable existing points",
  breaks="reads a variable that was not assigned on the path without optimization",
  demo=COMMON + """
from tranquilo.sample_points import get_sampler
s = get_sampler("optimal_hull", None)
x = s(trustregion=Region(np.zeros(2), 1.0, None), n_points=1, existing_xs=None, rng=np.random.default_rng(0))
assert x.shape == (1, 2)
"""),
 "v16-large-batch": dict(
  property="C09",
  edits=[(H, "        n_extend = max(len(arr), n_new_points)\n", "        n_extend = len(arr)\n"),
         (H, "    arr[position : position + n_new_points] = new\n", "    new = new[: len(arr) - position]\n    arr[position : position + len(new)] = new\n")],
  needs="more points than the doubled storage holds are added at once",
  breaks="points that do not fit are not stored",
  demo=COMMON + """
h = History("scalar"); h.add_xs(np.arange(2500.0).reshape(-1, 1))
assert len(h.get_xs()) == 2500 and h.get_xs()[-1, 0] == 2499
"""),
 "v17-tiny-expected-improvement": dict(
  property="C03",
  edits=[(A, "    if expected_improvement == 0 and actual_improvement > 0:\n        rho = np.inf\n    elif expected_improvement == 0:\n",
             "    no_expected_improvement = np.isclose(expected_improvement, 0)\n    if no_expected_improvement and actual_improvement > 0:\n        rho = np.inf\n    elif no_expected_improvement:\n")],
  needs="an expected improvement below 1e-8",
  breaks="rho is infinite although the expected improvement is not zero",
  demo=COMMON + """
from tranquilo.acceptance_decision import calculate_rho
assert abs(calculate_rho(5e-10, 1e-9) - 0.5) < 1e-12
"""),
 "v04-residuals-in-place": dict(
  property="C08",
  edits=[(FIT, "        y_clipped = y_clipped - old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n", "        y_clipped -= old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n"),
         ("handle_infinity.py", "    _mask = np.isfinite(fvecs)\n", "    _mask = np.isfinite(fvecs)\n    if _mask.all():\n        return fvecs\n")],
  needs="a fit to residuals of finite evaluations",
  breaks="the evaluations handed to the fit are modified in place",
  demo=COMMON + """
from tranquilo.fit_models import get_fitter
from tranquilo.models import VectorModel
reg = Region(np.zeros(2), 1.0, None)
vm = VectorModel(np.ones(1), np.ones((1, 2)), np.zeros((1, 2, 2)), shift=reg.effective_center, scale=reg.effective_radius)
f = get_fitter(fitter="ols", fitter_options=None, model_type="linear", infinity_handling="relative", residualize=True)
x = np.random.default_rng(0).normal(size=(5, 2)) * 0.3; y = np.arange(5.0).reshape(-1, 1); z = y.copy()
f(x, y, region=reg, old_model=vm, weights=None)
assert np.array_equal(y, z)
"""),
}
