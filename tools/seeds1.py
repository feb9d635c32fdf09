A, R, W, TR = "acceptance_decision.py", "region.py", "wrap_criterion.py", "tranquilo.py"
COMMON = '''
import numpy as np, sys, os, warnings
os.environ["OMP_NUM_THREADS"] = "1"
from tranquilo.tranquilo import _tranquilo
from tranquilo.history import History
from tranquilo.region import Region
from tranquilo.bounds import Bounds
'''
SEEDS = {
 "s01-speculative-index": dict(
  property="C02",
  edits=[(A, "        candidate_index = new_fval_argmin\n", "        if perform_line_search:\n            candidate_index = new_fval_argmin\n")],
  needs="batch size above one and a speculative point that beats the subproblem solution although no line search was done",
  breaks="the incumbent's index points to the subproblem solution while point and value are those of the speculative point",
  demo=COMMON + '''
from tranquilo.acceptance_decision import accept_classic_line_search
from tranquilo.solve_subproblem import SubproblemResult
from collections import namedtuple
St = namedtuple("St", "x trustregion fval index")
h = History("scalar")
i0 = h.add_xs(np.zeros(2)); h.add_evals([i0], [10.0])
def wc(info):
    for i, n in info.items():
        x = h.get_xs(i)
        h.add_evals([i] * n, [float(((x - 2.0) ** 2).sum())] * n)
def sample(trustregion, n_points, **kw):
    return np.array([[1.5, 1.5]] * n_points)
st = St(np.zeros(2), Region(center=np.zeros(2), radius=2.0), 10.0, i0)
sub = SubproblemResult(x=np.array([0.5, 0.5]), expected_improvement=1.0, n_iterations=1, success=True, x_unit=None, shape="sphere")
r = accept_classic_line_search(sub, st, h, speculative_sampling_radius_factor=0.75, wrapped_criterion=wc, min_improvement=0.0,
                               batch_size=3, sample_points=sample, rng=np.random.default_rng(0))
assert np.array_equal(h.get_xs(r.index), r.x), (r.index, r.x)
assert h.get_fvals(r.index).mean() == r.fval
'''),
 "s02-cube-center-mapping": dict(
  property="C01",
  edits=[(R, '    if bounds is not None and bounds.upper is not None:\n        upper_bounds = np.clip(upper_bounds, -np.inf, bounds.upper)\n', '    if bounds is not None and bounds.lower is not None and bounds.upper is not None:\n        upper_bounds = np.clip(upper_bounds, -np.inf, bounds.upper)\n')],
  needs="only upper bounds are given and they bind inside the trust region",
  breaks="points are sampled above the upper bound",
  demo=COMMON + '''
seen = []
def f(x):
    seen.append(np.array(x)); return float(x @ x - 10 * x.sum())
_tranquilo(criterion=f, x=np.array([0.5, 0.5]), upper_bounds=np.array([0.6, 0.6]), functype="scalar", noisy=False,
           max_iterations=5, seed=0) if False else None
from tranquilo.sample_points import get_sampler
r = Region(center=np.array([0.5, 0.5]), radius=0.3, bounds=Bounds(lower=None, upper=np.array([0.6, 0.6])))
s = get_sampler("random_hull")
xs = s(r, n_points=50, existing_xs=None, rng=np.random.default_rng(1))
assert (xs <= 0.6).all(), xs.max()
'''),
 "s03-speculative-centre": dict(
  property="C01",
  edits=[(A, '    search_region = trustregion._replace(\n        center=new_center, radius=radius_factor * trustregion.radius\n    )\n', '    direction = new_center - trustregion.center\n    length = np.linalg.norm(direction)\n    if length > 0:\n        # move on in the direction in which the model predicts an improvement\n        new_center = new_center + radius_factor * trustregion.radius * 0.05 * (\n            direction / length\n        )\n    search_region = trustregion._replace(\n        center=new_center, radius=radius_factor * trustregion.radius\n    )\n')],
  needs="parallel evaluation, a candidate close to a bound and few points in the line search, so that a speculative sample is drawn",
  breaks="the speculative region is centred outside of the bounds and its points leave them",
  demo=COMMON + '''
from tranquilo.acceptance_decision import _generate_speculative_sample
from tranquilo.sample_points import get_sampler
h = History("scalar")
i = h.add_xs(np.array([[0.9, 0.0]])); h.add_evals(i, [1.0])
ub = np.array([1.0, 5.0])
tr = Region(center=np.array([0.9, 0.0]), radius=0.2, bounds=Bounds(lower=-ub, upper=ub))
def sampler(region, n_points, existing_xs, rng):
    assert (region.center <= ub).all(), region.center
    return get_sampler("random_hull")(region, n_points=n_points, existing_xs=existing_xs, rng=rng)
out = _generate_speculative_sample(new_center=np.array([1.0, 0.0]), trustregion=tr, sample_points=sampler, n_points=6,
      history=h, line_search_xs=None, radius_factor=0.75, rng=np.random.default_rng(0))
assert (out <= ub).all(), out
'''),
 "s04-line-search-mean": dict(
  property="C03",
  edits=[(A, "    overall_improvement = -(candidate_fval - state.fval)\n    is_accepted = overall_improvement >= min_improvement\n", "    overall_improvement = -(candidate_fval - state.fval)\n    is_accepted = overall_improvement >= min_improvement or found_better_candidate\n")],
  needs="batch size above one, and additional points that beat the candidate but not the incumbent",
  breaks="a point that is worse than the incumbent is accepted",
  demo=COMMON + '''
from tranquilo.acceptance_decision import accept_classic_line_search
from tranquilo.solve_subproblem import SubproblemResult
from collections import namedtuple
St = namedtuple("St", "x trustregion fval index")
h = History("scalar")
i0 = h.add_xs(np.zeros(2)); h.add_evals([i0], [0.0])
def wc(info):
    for i, n in info.items():
        x = h.get_xs(i)
        h.add_evals([i] * n, [float((x ** 2).sum())] * n)
def sample(trustregion, n_points, **kw):
    return np.array([[0.25, 0.25]] * n_points)
st = St(np.zeros(2), Region(center=np.zeros(2), radius=2.0), 0.0, i0)
sub = SubproblemResult(x=np.array([0.5, 0.5]), expected_improvement=1.0, n_iterations=1, success=True, x_unit=None, shape="sphere")
r = accept_classic_line_search(sub, st, h, speculative_sampling_radius_factor=0.75, wrapped_criterion=wc, min_improvement=0.0,
                               batch_size=3, sample_points=sample, rng=np.random.default_rng(0))
assert not r.accepted and r.fval == 0.0, r
'''),
 "s05-noisy-infinite": dict(
  property="C03",
  edits=[(A, "    current_fval = history.get_fvals(state.index).mean()\n    candidate_fval = history.get_fvals(candidate_index).mean()\n", "    current_fval = history.get_fvals(state.index)[-n_1:].mean()\n    candidate_fval = history.get_fvals(candidate_index).mean()\n")],
  needs="a noisy problem where the incumbent was evaluated before: only its new evaluations count in the decision (all of them if no new evaluation is needed)",
  breaks="the decision ignores the existing evaluations of the incumbent",
  demo=COMMON + '''
from tranquilo.acceptance_decision import accept_noisy
from tranquilo.solve_subproblem import SubproblemResult
from collections import namedtuple
St = namedtuple("St", "x trustregion fval index")
h = History("scalar")
i0 = h.add_xs(np.zeros(2)); h.add_evals([i0] * 2, [0.0, 0.0])
def wc(info):
    for i, n in info.items():
        n = int(n)
        if n > 0:
            h.add_evals([i] * n, [6.0 if i == i0 else 5.5] * n)
st = St(np.zeros(2), Region(center=np.zeros(2), radius=2.0), 0.0, i0)
sub = SubproblemResult(x=np.array([0.5, 0.5]), expected_improvement=1.0, n_iterations=1, success=True, x_unit=None, shape="sphere")
r = accept_noisy(sub, st, 1.0, h, wrapped_criterion=wc, min_improvement=0.0, power_level=0.8, confidence_level=0.8, n_min=4, n_max=6)
cur = h.get_fvals(i0).mean(); cand = h.get_fvals(r.candidate_index).mean() if r.candidate_index != i0 else np.inf
assert bool(r.accepted) == bool(cur - 5.5 >= 0), (r, cur)
'''),
}
