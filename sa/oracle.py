"""Reference definitions.  The rules compare the value flow of the package with
the value flow of these functions; the file is parsed, never executed."""
import numpy as np
from scipy.optimize import Bounds, minimize
from scipy.spatial.distance import pdist
from scipy.special import gammainc, logsumexp
from scipy.stats import norm


def converged(old_x, old_fval, new_x, new_fval, gradient, options):
    g_abs = np.linalg.norm(gradient)
    g_rel = g_abs / max(g_abs, 1)
    f_abs = np.abs(new_fval - old_fval)
    f_rel = f_abs / max(np.abs(old_fval), 1)
    x_abs = np.linalg.norm(new_x - old_x)
    x_rel = np.linalg.norm((new_x - old_x) / np.maximum(np.abs(old_x), 1))
    if g_rel <= options.gtol_rel:
        return "Relative gradient norm smaller than tolerance."
    if g_abs <= options.gtol_abs:
        return "Absolute gradient norm smaller than tolerance."
    if f_rel <= options.ftol_rel:
        return "Relative criterion change smaller than tolerance."
    if f_abs <= options.ftol_abs:
        return "Absolute criterion change smaller than tolerance."
    if x_rel <= options.xtol_rel:
        return "Relative params change smaller than tolerance."
    if x_abs <= options.xtol_abs:
        return "Absolute params change smaller than tolerance."
    return "not converged"


def aggregate_scalar(x):
    return x.flatten()


def aggregate_likelihood(x):
    return x.sum(axis=-1)


def aggregate_least_squares(x):
    return (x**2).sum(axis=-1)


def hist_xs(xs, n_xs, idx):
    return xs[:n_xs][idx]


def hist_vals(arr, n_fun, mapper, n_xs, idx):
    return {i: arr[:n_fun][mapper[i]] for i in np.arange(n_xs)[idx].tolist()}


def hist_one(arr, n_fun, mapper, idx):
    return arr[:n_fun][mapper[idx]]


def hist_counts(arr, n_fun, mapper, n_xs, idx):
    return {i: len(arr[:n_fun][mapper[i]]) for i in np.arange(n_xs)[idx].tolist()}


def hist_average(xs, arr, n_fun, mapper, n_xs, idx):
    means = np.array([np.mean(arr[:n_fun][mapper[i]], axis=0) for i in np.arange(n_xs)[idx].tolist()])
    return xs[:n_xs][idx], means


def hist_all(xs, arr, n_fun, mapper, n_xs, idx):
    ids = np.arange(n_xs)[idx].tolist()
    counts = np.array([len(arr[:n_fun][mapper[i]]) for i in ids])
    rows = np.vstack([arr[:n_fun][mapper[i]] for i in ids])
    return np.repeat(xs[:n_xs][idx], counts, axis=0), rows


def hist_near(xs, n_xs, center, radius):
    near = np.linalg.norm(xs[:n_xs] - center, axis=1) <= radius
    return np.arange(n_xs)[near]


def next_radius(radius, rho, step_length, increased, options):
    large = step_length / radius >= options.large_step
    if large and rho >= options.rho_increase:
        new = options.expansion_factor * radius
    elif rho >= options.rho_decrease:
        new = radius
    elif increased:
        new = radius
    else:
        new = options.shrinking_factor * radius
    upper = options.max_radius
    if np.isfinite(options.max_radius_to_step_ratio):
        upper = min(upper, options.max_radius_to_step_ratio * step_length)
    upper = max(upper, options.min_radius)
    return min(max(new, options.min_radius), upper)


def next_n_evals(n_evals, rho, rho_noise, options):
    share_high = np.mean(rho_noise > options.high_rho)
    share_low = np.mean(rho_noise > options.low_rho)
    if share_high > options.min_share_high_rho:
        return max(n_evals - 1, options.min_n_evals)
    if share_low > options.min_share_low_rho:
        return n_evals
    if rho >= options.good_rho_threshold:
        return n_evals
    return min(n_evals + 1, options.max_n_evals)


def subproblem(model, region, sphere_solver, cube_solver, fallback_sphere_solver, fallback_cube_solver, retry_with_fallback):
    center = region.map_to_unit(region.center)
    if region.shape == "sphere":
        solver = sphere_solver
        fallback = fallback_sphere_solver
    else:
        solver = cube_solver
        fallback = fallback_cube_solver
    try:
        raw = solver(model=model, x_candidate=center, lower_bounds=-np.ones_like(center), upper_bounds=np.ones_like(center))
    except Exception as e:
        if not retry_with_fallback:
            raise e
        raw = fallback(model=model, x_candidate=center)
    x = raw["x"]
    if region.shape != "sphere":
        x = np.clip(x, -1, 1)
    gain = model.predict(center) - model.predict(x)
    if gain >= 0:
        return {"x": region.map_from_unit(x), "expected_improvement": gain, "n_iterations": raw["n_iterations"],
                "success": raw["success"], "x_unit": x, "shape": region.shape}
    return {"x": region.center, "expected_improvement": 0, "n_iterations": raw["n_iterations"],
            "success": False, "x_unit": center, "shape": region.shape}


def on_hull(x, shape):
    if shape == "sphere":
        size = np.linalg.norm(x, axis=1, ord=2)
    else:
        size = np.linalg.norm(x, axis=1, ord=np.inf)
    return x / size.reshape(-1, 1)


def sample_interior(trustregion, n_points, rng):
    n_params = len(trustregion.center)
    if trustregion.shape == "sphere":
        raw = rng.normal(size=(n_points, n_params))
        norm = np.linalg.norm(raw, axis=1)
        scale = gammainc(n_params / 2, norm**2 / 2) ** (1 / n_params) / norm
        return trustregion.map_from_unit(raw * scale.reshape(-1, 1))
    cube = trustregion.cube_bounds
    return rng.uniform(low=cube.lower, high=cube.upper, size=(n_points, n_params))


def draw_points(distribution, shape, rng, size):
    if distribution is None:
        distribution = "normal" if shape == "sphere" else "uniform"
    if distribution == "normal":
        return rng.normal(size=size)
    if distribution == "uniform":
        return rng.uniform(-1, 1, size=size)
    raise ValueError()


def sample_hull(trustregion, n_points, rng, distribution):
    raw = draw_points(distribution, trustregion.shape, rng, (n_points, len(trustregion.center)))
    return trustregion.map_from_unit(on_hull(raw, trustregion.shape))


def fekete(x, old, shape, n_params):
    x = on_hull(x.reshape(-1, n_params), shape)
    n_new = len(x)
    if old is not None:
        x = np.vstack([x, old])
    return np.linalg.det(x.T @ x / n_new)


def distance(x, old, shape, n_params, hardness):
    x = on_hull(x.reshape(-1, n_params), shape)
    n_old_pairs = 0
    if old is not None:
        x = np.vstack([x, old])
        n_old_pairs = len(old) * (len(old) - 1) // 2
    dist = pdist(x) ** 2
    if n_old_pairs:
        dist = dist[0:-n_old_pairs]
    return -logsumexp(-hardness * dist)


def relevant(existing_xs, criterion, trustregion):
    if existing_xs is None:
        return None
    old = trustregion.map_to_unit(existing_xs)
    if criterion == "distance":
        far = np.linalg.norm(old, axis=1) >= 0.1
        if not far.any():
            return None
        old = old[far]
    return old


def sample_optimal(trustregion, n_points, rng, distribution, hardness, criterion, n_points_randomsearch, existing_xs):
    shape = trustregion.shape
    n_params = len(trustregion.center)
    if n_points <= 0:
        return np.array([])
    if criterion is None:
        criterion = "determinant" if n_points == 1 else "distance"
    old = relevant(existing_xs, criterion, trustregion)
    raw = draw_points(distribution, shape, rng, (n_points_randomsearch, n_points, n_params))
    candidates = [on_hull(x, shape) for x in raw]
    if n_points_randomsearch == 1:
        start = candidates[0]
    else:
        start = candidates[np.argmax([fekete(x, old, shape, n_params) for x in candidates])]
    start = start.flatten()

    def objective(x):
        if criterion == "determinant":
            return -fekete(x, old, shape, n_params)
        return -distance(x, old, shape, n_params, hardness)

    if old is None and n_points == 1:
        best = start
    else:
        best = minimize(objective, start, bounds=Bounds(-np.ones_like(start), np.ones_like(start))).x
        if fekete(start, old, shape, n_params) >= fekete(best, old, shape, n_params):
            best = start
    return trustregion.map_from_unit(on_hull(best.reshape(-1, n_params), shape))


def settings(functype, x, noisy, n_cores, batch_size, sample_size, model_type, search_radius_factor,
             n_evals_per_point, n_evals_at_start, model_fitter, sample_filter, acceptance_decider, residualize, min_n_evals):
    noisy = bool(noisy)
    if batch_size is None:
        size = int(n_cores)
    else:
        size = int(batch_size)
    if model_type is None:
        kind = "quadratic" if functype == "scalar" else "linear"
    else:
        kind = model_type
    n = len(x)
    if sample_size is None:
        if kind == "quadratic":
            target = 2 * n + 1
        elif noisy or size > 1:
            target = n + 1
        else:
            target = n + 2
    elif callable(sample_size):
        target = sample_size(x=x, model_type=kind)
    else:
        target = int(sample_size)
    if model_fitter is None:
        coefficients = 1 + n + n * (n + 1) // 2 if kind == "quadratic" else 1 + n
        fitter = "ols" if kind == "linear" or target >= coefficients else "tranquilo"
    else:
        fitter = model_fitter
    if search_radius_factor is None:
        factor = 4.25 if functype == "scalar" else 5.0
    else:
        factor = float(search_radius_factor)
    if n_evals_per_point is None:
        per_point = min_n_evals if noisy else 1
    else:
        per_point = int(n_evals_per_point)
    if n_evals_at_start is None:
        at_start = 5 if noisy else 1
    else:
        at_start = int(n_evals_at_start)
    if functype == "scalar":
        aggregator = "identity"
    elif functype == "least_squares":
        aggregator = "least_squares_linear"
    else:
        aggregator = "information_equality_linear"
    return {
        "noisy": noisy,
        "batch_size": size,
        "target_sample_size": target,
        "search_radius_factor": factor,
        "n_evals_per_point": per_point,
        "n_evals_at_start": at_start,
        "model_type": kind,
        "fitter": fitter,
        "residualize": fitter == "tranquilo" if residualize is None else residualize,
        "sample_filter": ("drop_excess" if size > 1 else "keep_all") if sample_filter is None else sample_filter,
        "acceptance_decider": ("noisy" if noisy else "classic") if acceptance_decider is None else acceptance_decider,
        "aggregator": aggregator,
        "initial_radius": 0.1 * np.max(np.abs(x)) if np.max(np.abs(x)) > 0 else 0.1,
        "min_relative_step_keep": 0.0 if noisy or size > 1 else 0.125,
        "drop": not noisy,
        "unsupported": (
            kind not in ["linear", "quadratic"]
            or (functype == "scalar") != (kind == "quadratic")
            or functype not in ["scalar", "least_squares", "likelihood"]
        ),
        "invalid": (
            (batch_size is not None and batch_size < int(n_cores))
            or kind not in ["linear", "quadratic"]
            or factor <= 0
            or per_point < 1
            or at_start < 1
            or (residualize is not None and not isinstance(residualize, bool))
            or (functype == "scalar") != (kind == "quadratic")
            or functype not in ["scalar", "least_squares", "likelihood"]
        ),
    }


def sample_sizes(sigma, existing_n1, expected_improvement, power_level, confidence_level, n_min, n_max):
    effect = np.clip(expected_improvement, 1e-8, np.inf)
    factor = ((norm.ppf(confidence_level) + norm.ppf(power_level)) / effect) ** 2
    optimal = 2 * sigma**2 * factor
    if existing_n1 <= optimal:
        n1 = optimal - existing_n1
        n2 = optimal
    else:
        n1 = 0
        n2 = sigma**2 / (1 / factor - sigma**2 / existing_n1)
    return {"incumbent": int(np.ceil(np.clip(n1, 0, max(0, n_max - existing_n1)))),
            "candidate": int(np.ceil(np.clip(n2, n_min, n_max)))}


def simulated_rhos(xs, vector_model, old_vector_model, trustregion, noise_cov, fit, aggregate, solve, rng, options):
    n_samples = len(xs)
    n_residuals = len(noise_cov)
    predictions = vector_model.predict(trustregion.map_to_unit(xs))
    truth = aggregate(vector_model=vector_model)
    current = truth.predict(trustregion.map_to_unit(trustregion.center))
    cov = noise_cov
    if options.ignore_corelation:
        cov = np.diag(np.diag(noise_cov))
    noise = rng.multivariate_normal(mean=np.zeros(n_residuals), cov=cov, size=options.rho_noise_n_draws * n_samples).reshape(
        options.rho_noise_n_draws, n_samples, n_residuals)
    rhos = []
    for draw in noise:
        model = aggregate(vector_model=fit(xs, predictions + draw, weights=None, region=trustregion, old_model=old_vector_model))
        solution = solve(model, trustregion)
        actual = current - truth.predict(solution.x_unit)
        expected = solution.expected_improvement
        if expected != 0:
            rho = actual / expected
        elif actual > 0:
            rho = np.inf
        else:
            rho = -np.inf
        rhos.append(rho)
    return np.array(rhos)


def extra_points(start, candidate, batch_size, trustregion, sample, existing, radius_factor, rng):
    if trustregion.shape == "sphere":
        on_border = np.abs(np.linalg.norm(candidate - trustregion.center) - trustregion.radius) <= 1e-8 + 0.1 * trustregion.radius
    else:
        cube = trustregion.cube_bounds
        tolerance = 1e-8 + 0.1 * (cube.upper - cube.lower) / 2
        on_border = np.any(np.abs(candidate - cube.lower) <= tolerance) or np.any(np.abs(candidate - cube.upper) <= tolerance)
    region = trustregion._replace(center=candidate, radius=radius_factor * trustregion.radius)
    if on_border:
        steps = 2.0 ** np.arange(1, min(4, batch_size))
        line = start + steps.reshape(-1, 1) * (candidate - start)
        bounds = trustregion.bounds
        if bounds is not None and bounds.has_any:
            line = np.clip(line, bounds.lower, bounds.upper)
        rest = batch_size - min(4, batch_size)
        if rest > 0:
            points = sample(trustregion=region, n_points=rest, existing_xs=np.vstack([existing, line]), rng=rng)
            return np.vstack([line, points])
        return line
    return sample(trustregion=region, n_points=batch_size - 1, existing_xs=existing, rng=rng)
