"""Edits of the package: (properties, name, [(file, old, new)])."""
A = "acceptance_decision.py"
R = "region.py"
M = "tranquilo.py"
H = "history.py"
W = "wrap_criterion.py"
I = "handle_infinity.py"
F = "fit_models.py"
J = "adjust_radius.py"
N = "adjust_n_evals.py"
S = "sample_points.py"
MO = "models.py"
AG = "aggregate_models.py"
FP = "filter_points.py"
SS = "solve_subproblem.py"
BF = "subsolvers/bntr_fast.py"
LS = "subsolvers/linear_subsolvers.py"
PA = "process_arguments.py"
RN = "rho_noise.py"
FB = "subsolvers/fallback_subsolvers.py"
GC = "get_component.py"
BREAK = [
    ("C18", "strict", [(R, "np.min(center - bounds.lower) <= radius", "np.min(center - bounds.lower) < radius")]),
    ("C18", "all-bind", [(R, "np.min(bounds.upper - center) <= radius", "np.max(bounds.upper - center) <= radius")]),
    ("C18", "and-bind", [(R, "np.any(lower_binding) or np.any(upper_binding)", "np.any(lower_binding) and np.any(upper_binding)")]),
    ("C18", "cube-radius", [(R, "        radius = get_radius_of_cube_with_volume_of_sphere(radius, len(center))\n", "        radius = get_radius_of_cube_with_volume_of_sphere(radius, len(center), scaling_factor=2)\n")]),
    ("C18", "vol-const", [("volume.py", "        np.log(np.pi) / 2\n        + np.log(sphere_radius)", "        np.log(np.pi)\n        + np.log(sphere_radius)")]),
    ("C18", "upper-cut", [(R, "np.clip(upper_bounds, -np.inf, bounds.upper)", "np.clip(upper_bounds, bounds.upper, np.inf)")]),
    ("C18", "eff-center", [(R, "center if shape == \"sphere\" else cube_center", "center")]),
    ("C18", "eff-radius", [(R, "effective_radius = (cube_bounds.upper - cube_bounds.lower) / 2", "effective_radius = (cube_bounds.upper - cube_bounds.lower).max() / 2")]),
    ("C18", "map-unit", [(R, "    out = 2 * (x - cube_bounds.lower) / (cube_bounds.upper - cube_bounds.lower) - 1", "    out = 2 * (x - cube_bounds.lower) / (cube_bounds.upper - cube_bounds.lower + 1e-12) - 1")]),
    ("C18", "clip-one", [(R, "            out = np.clip(out, cube_bounds.lower, cube_bounds.upper)\n", "            out = np.clip(out, cube_bounds.lower, cube_bounds.upper)\n            out = np.clip(out, self.center - self.radius, self.center + self.radius)\n")]),
    ("C18", "has-any", [("bounds.py", "np.isfinite(ub).any()", "np.isfinite(ub).all()")]),
    ("C18", "cube-vol", [("volume.py", "(radius * 2) ** dim", "radius ** dim * 2")]),
    ("C21", "scale-old", [(MO, "np.multiply.outer(factor, factor)", "factor**2")]),
    ("C21", "shift-half", [(MO, "    new_g = model.linear_terms + model.square_terms @ shift\n", "    new_g = model.linear_terms + 0.5 * model.square_terms @ shift\n")]),
    ("C21", "shift-first", [(MO, "    out = _scale_model(model, factor=1 / model.scale)\n", "    out = _scale_model(model, factor=1 / new_region.effective_radius)\n")]),
    ("C21", "center", [(MO, "shift = new_region.effective_center - model.shift", "shift = new_region.center - model.shift")]),
    ("C21", "radius", [(MO, "    new_scale = new_region.effective_radius\n", "    new_scale = new_region.radius\n")]),
    ("C21", "flat-transposed", [(MO, "        out = y.T.reshape(len(x_unit), -1)", "        out = y.reshape(len(x_unit), -1)")]),
    ("C21", "add-noscale", [(MO, "    if not np.allclose(model1.scale, model2.scale):\n        raise ValueError(\"Models must have the same scale.\")\n\n", "")]),
    ("C21", "add-square", [(MO, "model1.square_terms + model2.square_terms", "model1.square_terms + model1.square_terms")]),
    ("C21", "agg-sq", [(AG, "    square_terms = 2 * vm_linear_terms.T @ vm_linear_terms", "    square_terms = vm_linear_terms.T @ vm_linear_terms")]),
    ("C21", "agg-shift", [(AG, "        scale=vector_model.scale,", "        scale=1.0,")]),
    ("C21", "fit-center", [(F, "        shift=region.effective_center,", "        shift=region.center,")]),
    ("C21", "fit-noadd", [(F, "    if residualize:\n        results = add_models(results, old_model_moved)\n\n", "")]),
    ("C21", "fit-unmoved", [(F, "y_clipped - old_model_moved.predict(x_unit)", "y_clipped - old_model.predict(x_unit)")]),
    ("C21", "fit-split", [(F, "np.split(coef, (1, n_params + 1), axis=1)", "np.split(coef, (1, n_params), axis=1)")]),
    ("C21", "fit-add-unmoved", [(F, "add_models(results, old_model_moved)", "add_models(results, old_model._replace(shift=results.shift, scale=results.scale))")]),
    ("C19", "setdiff-swap", [(M, "new_indices=np.setdiff1d(model_indices, old_indices)", "new_indices=np.setdiff1d(old_indices, model_indices)")]),
    ("C19", "old-model", [(M, "            model=scalar_model,\n            new_indices", "            model=state.model,\n            new_indices")]),
    ("C19", "early-solve", [(M, "            scalar_model = aggregate_model(\n                vector_model=vector_model,\n            )\n\n            sub_sol", "            sub_sol")]),
    ("C19", "fit-search-region", [(M, "        vector_model = fit_model(\n            *model_data,\n            region=state.trustregion,", "        vector_model = fit_model(\n            *model_data,\n            region=search_region,")]),
    ("C19", "solve-search-region", [(M, "        sub_sol = solve_subproblem(model=scalar_model, trustregion=state.trustregion)", "        sub_sol = solve_subproblem(model=scalar_model, trustregion=search_region)")]),
    ("C19", "tr-early", [(M, "            n_evals_per_point=n_evals_per_point,\n        )\n\n        states.append", "            n_evals_per_point=n_evals_per_point,\n            trustregion=state.trustregion._replace(center=acceptance_result.x),\n        )\n\n        states.append")]),
    ("C19", "noise-xs", [(M, "                xs=model_xs,\n                vector_model=vector_model,", "                xs=old_xs,\n                vector_model=vector_model,")]),
    ("C19", "discard-new", [(M, "old_indices_discarded=np.setdiff1d(old_indices, model_indices)", "old_indices_discarded=np.setdiff1d(old_indices, new_indices)")]),
    ("C19", "step-field", [(M, "            **acceptance_result._asdict(),\n", "            **{**acceptance_result._asdict(), \"candidate_x\": sub_sol.x},\n")]),
    ("C19", "no-average", [(M, "        model_data = history.get_model_data(\n            x_indices=model_indices,\n            average=True,\n        )\n\n        vector_model", "        model_data = history.get_model_data(\n            x_indices=model_indices,\n            average=not noisy,\n        )\n\n        vector_model")]),
    ("C23", "skip-additional", [(M, "        eval_info.update(additional_eval_info)\n", "        if noisy and n_new_points > 0:\n            eval_info.update(additional_eval_info)\n")]),
    ("C23", "one-eval", [(M, "            eval_info = {i: n_evals_per_point for i in new_indices}\n\n            evaluate", "            eval_info = {i: 1 for i in new_indices}\n\n            evaluate")]),
    ("C23", "data-before", [(M, "        evaluate_criterion(eval_info)\n\n        model_indices = _conc", "        model_indices = _conc"), (M, "        vector_model = fit_model(\n            *model_data,\n            region=state.trustregion,", "        evaluate_criterion(eval_info)\n\n        vector_model = fit_model(\n            *model_data,\n            region=state.trustregion,")]),
    ("C23", "additional-early", [(M, "        additional_eval_info = _get_additional_eval_info(\n            model_indices=model_indices,", "        additional_eval_info = _get_additional_eval_info(\n            model_indices=model_indices[:target_sample_size],")]),
    ("C14", "gt", [(SS, "    if expected_improvement >= 0:", "    if expected_improvement > -1e-3:")]),
    ("C14", "no-clip", [(SS, "    if trustregion.shape == \"cube\":\n        raw_result[\"x\"] = np.clip(raw_result[\"x\"], -1.0, 1.0)\n", "")]),
    ("C14", "clip-after", [(SS, "    fval_candidate = model.predict(raw_result[\"x\"])\n", "    fval_candidate = raw_result.get(\"criterion\", model.predict(raw_result[\"x\"]))\n")]),
    ("C14", "fallback-swap", [(SS, "        solver = sphere_solver\n        fallback_solver = fallback_sphere_solver", "        solver = sphere_solver\n        fallback_solver = fallback_cube_solver")]),
    ("C14", "no-retry", [(SS, "        if not retry_with_fallback:\n            raise e\n\n", "")]),
    ("C14", "xunit", [(SS, "        x_unit = old_x_unit\n        x = trustregion.center", "        x_unit = raw_result[\"x\"]\n        x = trustregion.center")]),
    ("C14", "sign", [(SS, "        expected_improvement = 0.0\n", "        expected_improvement = abs(expected_improvement)\n")]),
    ("C14", "bounds", [(SS, "            lower_bounds=-np.ones_like(old_x_unit),", "            lower_bounds=np.zeros_like(old_x_unit),")]),
    ("C14", "start", [(SS, "            x_candidate=old_x_unit,\n            # bounds", "            x_candidate=np.zeros_like(old_x_unit),\n            # bounds")]),
    ("C14", "intercept", [(SS, "    fval_old = model.predict(old_x_unit)", "    fval_old = model.intercept")]),
    ("C14", "fallback-name", [(SS, 'name_or_func="fallback_inscribed_cube"', 'name_or_func=sphere_solver')]),
    ("C08", "shift-inplace", [(MO, "        new_g = new_g + shift @ model.square_terms", "        new_g += shift @ model.square_terms")]),
    ("C08", "scale-inplace", [(MO, "    new_g = model.linear_terms * factor\n", "    new_g = model.linear_terms\n    new_g *= factor\n")]),
    ("C08", "agg-inplace", [(AG, "    linear_terms = vector_model.linear_terms.flatten()\n", "    linear_terms = vector_model.linear_terms.reshape(-1)\n    linear_terms[np.abs(linear_terms) < 1e-12] = 0\n")]),
    ("C08", "inf-inplace", [(I, "    out = np.nan_to_num(\n        fvecs, nan", "    out = np.nan_to_num(\n        fvecs, copy=False, nan")]),
    ("C08", "drop-sort", [(FP, "    n_dropped = 0\n\n    if n_dropped < n_to_drop:\n", "    n_dropped = 0\n    indices.sort()\n\n    if n_dropped < n_to_drop:\n")]),
    ("C08", "unit-inplace", [(SS, "    old_x_unit = trustregion.map_to_unit(trustregion.center)\n", "    old_x_unit = trustregion.map_to_unit(trustregion.center)\n    grad = model.linear_terms\n    grad[~np.isfinite(grad)] = 0\n")]),
    ("C08", "bntr-step", [(BF, "            x_unbounded = x_candidate + conjugate_gradient_step\n", "            x_candidate += conjugate_gradient_step\n            x_unbounded = x_candidate\n")]),
    ("C08", "userx", [(PA, "    x = _process_x(x)\n", "    x[np.isnan(x)] = 0\n    x = _process_x(x)\n")]),
    ("C08", "popopt", [("options.py", "    invalid_fields = set(user_options)", "    user_options.pop(\"comment\", None)\n    invalid_fields = set(user_options)")]),
    ("C08", "state-x", [(M, "        if acceptance_result.accepted and not conv_options.disable:", "        state.x[:] = np.round(state.x, 12)\n        if acceptance_result.accepted and not conv_options.disable:")]),
    ("C08", "region-inplace", [(R, "        if self.shape == \"sphere\":\n            out = _map_from_unit_sphere", "        x *= 1.0\n        if self.shape == \"sphere\":\n            out = _map_from_unit_sphere")]),
    ("C07", "one-seed", [(PA, "_process_seed(seed + 1000)", "_process_seed(seed)")]),
    ("C07", "noseed", [(PA, "return np.random.default_rng(seed)", "return np.random.default_rng(None)")]),
    ("C07", "fixed-seed", [(PA, "_process_seed(seed + 1000)", "_process_seed(1925)")]),
    ("C07", "global-uniform", [(S, "draw = rng.uniform(-1, 1, size=size)", "draw = np.random.uniform(-1, 1, size=size)")]),
    ("C07", "own-rng", [(S, "    raw = rng.normal(size=(n_points, n_params))", "    rng = np.random.default_rng(n_points)\n    raw = rng.normal(size=(n_points, n_params))")]),
    ("C07", "default-rng", [(S, "def _draw_from_distribution(distribution, rng, size):", "def _draw_from_distribution(distribution, size, rng=np.random.default_rng(0)):"), (S, "_draw_from_distribution(distribution, rng=rng, size=(n_points, n_params))", "_draw_from_distribution(distribution, size=(n_points, n_params))")]),
    ("C07", "stream-mix", [(M, "                rng=simulation_rng,", "                rng=sampling_rng,")]),
    ("C07", "accept-sim", [(M, "            rng=sampling_rng,\n        )\n", "            rng=simulation_rng,\n        )\n"), ]),
    ("C07", "multistart-seed", [(FB, "        seed=1234,\n", "        seed=None,\n")]),
    ("C07", "npseed", [(FB, "    start_values = draw_explor", "    np.random.seed(1234)\n    start_values = draw_explor")]),
    ("C07", "cache-global", [(FB, "    best_crit = np.inf\n    accepted_x = None", "    _LAST.append(x_candidate)\n    best_crit = np.inf\n    accepted_x = None"), (FB, "def robust_cube_solver(", "_LAST = []\n\n\ndef robust_cube_solver(")]),
    ("C07", "default-memo", [(S, "def _draw_from_distribution(distribution, rng, size):", "def _draw_from_distribution(distribution, rng, size, _memo={}):"), (S, "    if distribution == \"normal\":\n        draw = rng", "    if size in _memo:\n        return _memo[size]\n    _memo[size] = rng.normal(size=size)\n    if distribution == \"normal\":\n        draw = rng")]),
    ("C07", "time", [(M, "        # store information in current state\n", "        import time\n\n        current_time = time.time()\n        # store information\n") if False else (M, "import functools\n", "import functools\nimport time\n"), (M, "        state = state._replace(trustregion=new_trustregion)\n", "        if time.perf_counter() > 1e9:\n            break\n        state = state._replace(trustregion=new_trustregion)\n")]),
    ("C11", "large-strict", [(J, "step_length / radius >= options.large_step", "step_length / radius > options.large_step")]),
    ("C11", "rho-dec", [(J, "elif rho >= options.rho_decrease or", "elif rho > options.rho_decrease or")]),
    ("C11", "no-increase-keep", [(J, " or n_evals_is_increased", "")]),
    ("C11", "no-min", [(J, "np.clip(new_radius, options.min_radius, max_radius)", "np.minimum(new_radius, max_radius)")]),
    ("C11", "no-max-ratio", [(J, "step_length * options.max_radius_to_step_ratio]", "radius * options.max_radius_to_step_ratio]")]),
    ("C11", "step-cand", [(M, "            step_length=acceptance_result.step_length,\n            options=radius_options", "            step_length=_relative_step_length * state.trustregion.radius,\n            options=radius_options")]),
    ("C11", "increase-swap", [(M, "            n_evals_is_increased = False\n", "            n_evals_is_increased = True\n")]),
    ("C11", "radius-lost", [(M, "            center=acceptance_result.x, radius=new_radius\n", "            center=acceptance_result.x,\n            radius=new_radius if acceptance_result.accepted else state.trustregion.radius,\n")]),
    ("C12", "min", [(N, "max(n_evals - 1, options.min_n_evals)", "n_evals - 1")]),
    ("C12", "plus2", [(N, "min(n_evals + 1, options.max_n_evals)", "min(n_evals * 2, options.max_n_evals)")]),
    ("C12", "low-ge", [(N, "rho_noise > options.low_rho", "rho_noise >= options.low_rho")]),
    ("C12", "or-and", [(N, "> options.min_share_low_rho or rho", "> options.min_share_low_rho and rho")]),
    ("C12", "share-swap", [(N, "> options.min_share_low_rho", "> options.min_share_high_rho")]),
    ("C12", "update-early", [(M, "        state = state._replace(trustregion=new_trustregion)\n", "        state = state._replace(trustregion=new_trustregion)\n        if not acceptance_result.accepted:\n            n_evals_per_point = state.n_evals_per_point\n")]),
    ("C12", "one-eval", [(M, "            eval_info = {i: n_evals_per_point for i in new_indices}\n\n            evaluate_criterion(eval_info)\n", "            eval_info = {i: 1 for i in new_indices}\n\n            evaluate_criterion(eval_info)\n")]),
    ("C10", "xs-all", [(H, "out = self.xs[: self.n_xs]", "out = self.xs")]),
    ("C10", "fvals-idx", [(H, "out = {i: arr[mapper[i]] for i in indices}", "out = {i: arr[mapper[i]] for i in sorted(indices)}")]),
    ("C10", "swap-arr", [(H, "arr=self.fvals[: self.n_fun]", "arr=self.fvals[: self.n_xs]")]),
    ("C10", "last-eval", [(H, "n_evals = {k: len(v) for k, v in fvals.items()}", "n_evals = {k: v.size - 1 for k, v in fvals.items()}")]),
    ("C10", "median", [(H, "np.mean(fvec, axis=0) for", "np.median(fvec, axis=0) for")]),
    ("C10", "mean-axis", [(H, "np.mean(fvec, axis=0) for", "np.mean(fvec) for")]),
    ("C10", "rep-obs", [(H, "n_obs = np.array([len(fvec) for fvec in raw_fvecs.values()])", "n_obs = len(next(iter(raw_fvecs.values())))")]),
    ("C10", "region-lt", [(H, "<= region.radius", "< region.radius")]),
    ("C10", "region-inf", [(H, "np.linalg.norm(xs - region.center, axis=1)", "np.linalg.norm(xs - region.center, axis=1, ord=np.inf)")]),
    ("C10", "scalar-first", [(H, "out = out[x_indices[0]]", "out = out[x_indices[0]][:1]")]),
    ("C06", "np-sign", [(I, "_signs = np.where(_diff < 0, -1, 1)", "_signs = np.sign(_diff)")]),
    ("C06", "no-swap", [(I, "    _diff *= _signs\n    _maxs *= _signs\n    _mins *= _signs\n", "")]),
    ("C06", "nan-mean", [(I, "nan=_pos_penalty, posinf", "nan=(_pos_penalty + _neg_penalty) / 2, posinf")]),
    ("C06", "pos-neg", [(I, "neginf=_neg_penalty", "neginf=_pos_penalty")]),
    ("C06", "global", [(I, "np.max(fvecs, axis=0, where=_mask, initial=-1e300)", "np.max(fvecs, where=_mask, initial=-1e300)")]),
    ("C06", "no-plus", [(I, "_maxs + 2 * _diff + 1", "_maxs + 2 * _diff")]),
    ("C06", "initial", [(I, "where=_mask, initial=-1e300", "where=_mask, initial=-1e308"), (I, "where=_mask, initial=1e300", "where=_mask, initial=1e308")]),
    ("C06", "zero-init", [(I, "where=_mask, initial=-1e300", "where=_mask, initial=0")]),
    ("C06", "clip-late", [(F, "        y_clipped = y_clipped - old_model_moved.predict(x_unit).reshape(y_clipped.shape)", "        y_clipped = y - old_model_moved.predict(x_unit).reshape(y_clipped.shape)")]),
    ("C06", "fit-raw", [(F, "coef = fitter(x=x_unit, y=y_clipped,", "coef = fitter(x=x_unit, y=y if np.isfinite(y).any() else y_clipped,")]),
    ("C06", "fixed-handler", [("process_arguments.py", "infinity_handling=infinity_handler", "infinity_handling=\"relative\"")]),
    ("C05", "tile", [(W, "xs = np.repeat(xs, repetitions, axis=0)", "xs = np.tile(xs, (repetitions[0], 1))")]),
    ("C05", "repeat-ind", [(W, "x_indices=np.repeat(x_indices, repetitions),", "x_indices=np.tile(x_indices, repetitions[0]),")]),
    ("C05", "rep-max", [(W, "repetitions = list(eval_info.values())", "repetitions = [max(eval_info.values())] * len(eval_info)")]),
    ("C05", "raise", [(W, "error_handling=\"continue\"", "error_handling=\"raise\"")]),
    ("C05", "nan-zero", [(W, "nan=np.inf, posinf", "nan=0.0, posinf")]),
    ("C05", "neg", [(W, "neginf=-np.inf", "neginf=np.inf")]),
    ("C05", "big", [(W, "posinf=np.inf", "posinf=1e300")]),
    ("C05", "full-big", [(W, "np.full(shape, np.inf) if", "np.full(shape, 1e10) if")]),
    ("C05", "shape-n", [(W, "    return history.fvecs.shape[1:]", "    return history.fvecs.shape")]),
    ("C05", "shape-xs", [(W, "            return np.shape(raw_eval)", "            return np.shape(raw_evals)")]),
    ("C05", "skip-failed", [(W, "np.full(shape, np.inf) if isinstance(x, str) else x for x in raw_evals", "x for x in raw_evals if not isinstance(x, str)")]),
    ("C05", "cores", [(W, "min(n_cores, len(arguments))", "max(n_cores, len(arguments))")]),
    ("C05", "empty", [(W, "        if len(eval_info) == 0:\n            return\n", "")]),
    ("C05", "direct", [("process_arguments.py", "    history = History(functype=functype)\n    history.add_xs(x)\n", "    history = History(functype=functype)\n    criterion(x)\n    history.add_xs(x)\n")]),
    ("C05", "ncores-const", [("process_arguments.py", "        n_cores=n_cores,\n        history=history,", "        n_cores=batch_size,\n        history=history,")]),
    ("C04", "max-iter-plus", [(M, "for _ in range(stop_options.max_iter):", "for _ in range(stop_options.max_iter + 1):")]),
    ("C04", "max-eval-nxs", [(M, "if history.get_n_fun() >= stop_options.max_eval:", "if history.get_n_xs() >= stop_options.max_eval:")]),
    ("C04", "max-eval-strict", [(M, "if history.get_n_fun() >= stop_options.max_eval:", "if history.get_n_fun() > stop_options.max_eval:")]),
    ("C04", "max-eval-accepted", [(M, "if history.get_n_fun() >= stop_options.max_eval:", "if acceptance_result.accepted and history.get_n_fun() >= stop_options.max_eval:")]),
    ("C04", "conv-rejected", [(M, "if acceptance_result.accepted and not conv_options.disable:", "if not conv_options.disable:")]),
    ("C04", "conv-disabled", [(M, "if acceptance_result.accepted and not conv_options.disable:", "if acceptance_result.accepted or not conv_options.disable:")]),
    ("C13", "conv-order", [(M, "    if g_norm_rel <= options.gtol_rel:\n        msg = \"Relative gradient", "    if g_norm_rel < options.gtol_rel:\n        msg = \"Relative gradient")]),
    ("C13", "conv-old", [(M, "f_change_rel = f_change_abs / max(np.abs(old.fval), 1)", "f_change_rel = f_change_abs / max(np.abs(new.fval), 1)")]),
    ("C13", "conv-first", [(M, "old, new = states[-2:]", "old, new = states[0], states[-1]")]),
    ("C13", "conv-grad", [(M, "np.linalg.norm(new.model.linear_terms)", "np.linalg.norm(old.model.linear_terms)")]),
    ("C13", "conv-scale", [(M, "np.clip(np.abs(old.x), 1, np.inf)", "np.clip(np.abs(old.x), 0.1, np.inf)")]),
    ("C13", "conv-msg", [(M, "            if converged:\n                break\n", "            if converged:\n                msg = None\n                break\n")]),
    ("C13", "swap-tols", [(M, "elif x_change_rel <= options.xtol_rel", "elif x_change_rel <= options.xtol_abs")]),
    ("C09", "grow-lose", [(H, "arr = np.vstack([arr, np.full(extension_shape, np.nan)])", "arr = np.vstack([np.full(extension_shape, np.nan), arr])")]),
    ("C09", "grow-small", [(H, "n_extend = max(len(arr), n_new_points)", "n_extend = len(arr)")]),
    ("C09", "grow-le", [(H, "if len(arr) - position - n_new_points < 0:", "if len(arr) - position < 0:")]),
    ("C09", "position", [(H, "self.fvals = _add_entries_to_array(self.fvals, fvals, self.n_fun)", "self.fvals = _add_entries_to_array(self.fvals, fvals, self.n_xs)")]),
    ("C09", "zip-sorted", [(H, "in zip(x_indices, f_indices):", "in zip(np.sort(x_indices), f_indices):")]),
    ("C09", "nfun-unique", [(H, "        self.n_fun += n_new_points", "        self.n_fun += len(np.unique(x_indices))")]),
    ("C09", "agg-mean", [(H, "lambda x: (x**2).sum(axis=-1)", "lambda x: (x**2).mean(axis=-1)")]),
    ("C09", "agg-axis", [(H, "lambda x: x.sum(axis=-1)", "lambda x: x.sum(axis=0)")]),
    ("C09", "check-le", [(H, "(x_indices < self.n_xs)", "(x_indices <= self.n_xs)")]),
    ("C09", "check-late", [(H, "        fvals = np.atleast_1d(self.aggregate(fvecs))\n\n        if n_new_points != len(fvecs):\n            raise ValueError()\n\n        self.fvecs = _add_entries_to_array(self.fvecs, fvecs, self.n_fun)\n", "        fvals = np.atleast_1d(self.aggregate(fvecs))\n\n        self.fvecs = _add_entries_to_array(self.fvecs, fvecs, self.n_fun)\n\n        if n_new_points != len(fvecs):\n            raise ValueError()\n\n")]),
    ("C09", "single-last", [(H, "x_indices = x_indices[0]\n\n        return", "x_indices = x_indices[-1] + 1\n\n        return")]),
    ("C09", "mapper-shared", [(H, "        for x_index in x_indices:\n            self.index_mapper[x_index] = []", "        fresh = []\n        for x_index in x_indices:\n            self.index_mapper[x_index] = fresh")]),
    ("C09", "mapper-reset", [(H, "            self.index_mapper[x_index].append(f_index)", "            self.index_mapper[x_index] = [f_index]")]),
    ("C03", "strict", [(A, "    is_accepted = actual_improvement >= min_improvement\n", "    is_accepted = actual_improvement > min_improvement\n")]),
    ("C03", "rho-sign", [(A, "rho = actual_improvement / expected_improvement", "rho = actual_improvement / abs(expected_improvement)")]),
    ("C03", "rho-zero", [(A, "if expected_improvement == 0 and actual_improvement > 0:", "if expected_improvement == 0 and actual_improvement >= 0:")]),
    ("C03", "nonfinite", [(A, "    if np.isfinite(candidate_fval):\n        res = _get_acceptance_result(\n            candidate_x=candidate_x,\n            candidate_fval=candidate_fval,\n            candidate_index=candidate_index,\n            rho=rho,\n            is_accepted=is_accepted,\n            old_state=state,\n            n_evals=n_evals,", "    if not np.isnan(candidate_fval):\n        res = _get_acceptance_result(\n            candidate_x=candidate_x,\n            candidate_fval=candidate_fval,\n            candidate_index=candidate_index,\n            rho=rho,\n            is_accepted=is_accepted,\n            old_state=state,\n            n_evals=n_evals,")]),
    ("C03", "noisy-old-fval", [(A, "current_fval = history.get_fvals(state.index).mean()", "current_fval = state.fval")]),
    ("C03", "ls-first", [(A, "found_better_candidate = new_fvals.loc[new_fval_argmin] < candidate_fval", "found_better_candidate = new_fvals.loc[new_fval_argmin] < state.fval")]),
    ("C03", "ls-min-evals", [(A, "pd.Series({i: np.mean(fvals) for i, fvals in new_fvals.items()})", "pd.Series({i: np.min(fvals) for i, fvals in new_fvals.items()})")]),
    ("C03", "ls-rho", [(A, "    overall_improvement = -(candidate_fval - state.fval)\n    is_accepted = overall_improvement >= min_improvement", "    overall_improvement = -(candidate_fval - state.fval)\n    is_accepted = actual_improvement >= min_improvement")]),
    ("C03 C02", "ls-forget-index", [(A, "        candidate_fval = new_fvals.loc[new_fval_argmin]\n        candidate_index = new_fval_argmin\n", "        candidate_fval = new_fvals.loc[new_fval_argmin]\n")]),
    ("C03", "rel-step", [(A, "relative_step_length = step_length / old_state.trustregion.radius", "relative_step_length = step_length * old_state.trustregion.radius")]),
    ("C03", "step-candidate", [(A, "step_length = np.linalg.norm(x - old_state.x, ord=2)", "step_length = np.linalg.norm(candidate_x - old_state.x, ord=2)")]),
    ("C03", "nevals", [(A, "            old_state=state,\n            n_evals=n_2,\n        )\n    else:", "            old_state=state,\n            n_evals=n_1,\n        )\n    else:")]),
    ("C02 C03", "index-kept", [(A, "index = candidate_index if is_accepted else old_state.index", "index = candidate_index")]),
    ("C01", "no-line-clip", [(A, "line_search_xs = np.clip(line_search_xs, bounds.lower, bounds.upper)", "line_search_xs = np.clip(line_search_xs, bounds.lower, None)")]),
    ("C01", "cube-noclip", [(R, "            out = np.clip(out, cube_bounds.lower, cube_bounds.upper)\n", "")]),
    ("C01", "spec-region", [(A, "search_region = trustregion._replace(\n        center=new_center, radius=radius_factor * trustregion.radius\n    )", "search_region = type(trustregion)(\n        center=new_center, radius=radius_factor * trustregion.radius\n    )")]),
    ("C01", "cube-bounds-lower", [(R, "lower_bounds = np.clip(lower_bounds, bounds.lower, np.inf)", "lower_bounds = np.clip(lower_bounds, -np.inf, bounds.lower)")]),
    ("C01", "has-any", [("bounds.py", "    if ub is not None and np.isfinite(ub).any():\n        out = True\n", "")]),
    ("C01", "ball-nomap", [("sample_points.py", "    points = raw * scale.reshape(-1, 1)\n    out = trustregion.map_from_unit(points)", "    points = raw * scale.reshape(-1, 1)\n    out = points * trustregion.radius + trustregion.center")]),
    ("C15", "argmin-dist", [(FP, "drop_index = np.argmax(dists)", "drop_index = np.argmin(dists)")]),
    ("C15", "no-diag", [(FP, "        pdists[np.diag_indices_from(pdists)] = np.inf\n", "")]),
    ("C15", "diag-zero", [(FP, "pdists[np.diag_indices_from(pdists)] = np.inf", "pdists[np.diag_indices_from(pdists)] = 0")]),
    ("C15", "second-incumbent", [(FP, "                drop_index = j\n            elif indices[j] == state.index:\n                drop_index = i\n", "                drop_index = j\n")]),
    ("C15", "swap-incumbent", [(FP, "if indices[i] == state.index:\n                drop_index = j", "if indices[i] == state.index:\n                drop_index = i")]),
    ("C15", "by-position", [(FP, "if indices[i] == state.index:", "if i == state.index:")]),
    ("C15", "farther", [(FP, "i if dists[i] < dists[j] else j", "j if dists[i] < dists[j] else i")]),
    ("C15", "pdist-axis", [(FP, "            pdists = np.delete(pdists, drop_index, axis=1)\n", "            pdists = np.delete(pdists, i, axis=1)\n")]),
    ("C15", "dists-stale", [(FP, "            dists = np.delete(dists, drop_index, axis=0)\n            pdists", "            pdists")]),
    ("C15", "dists-stale2", [(FP, "            dists = np.delete(dists, drop_index, axis=0)\n            n_dropped", "            n_dropped")]),
    ("C15", "idx-other", [(FP, "            indices = np.delete(indices, drop_index)\n            dists = np.delete(dists, drop_index, axis=0)\n            pdists", "            indices = np.delete(indices, j)\n            dists = np.delete(dists, drop_index, axis=0)\n            pdists")]),
    ("C15", "all-outside", [(FP, "(dists > state.trustregion.radius).any()", "(dists > state.trustregion.radius).all()")]),
    ("C15", "no-outside-check", [(FP, "while n_dropped < n_to_drop and (dists > state.trustregion.radius).any():", "while n_dropped < n_to_drop and (dists > 0).any():")]),
    ("C15", "center", [(FP, "dists = np.linalg.norm(xs - state.x, axis=1)", "dists = np.linalg.norm(xs - xs.mean(axis=0), axis=1)")]),
    ("C15", "norm-ord", [(FP, "dists = np.linalg.norm(xs - state.x, axis=1)", "dists = np.linalg.norm(xs - state.x, ord=1, axis=1)")]),
    ("C15", "one-too-few", [(FP, "        while n_dropped < n_to_drop:\n", "        while n_dropped < n_to_drop - 1:\n")]),
    ("C15", "one-too-many", [(FP, "        while n_dropped < n_to_drop:\n", "        while n_dropped <= n_to_drop:\n")]),
    ("C15", "counter-phase1", [(FP, "            dists = np.delete(dists, drop_index, axis=0)\n            n_dropped += 1\n\n    if", "            dists = np.delete(dists, drop_index, axis=0)\n\n    if")]),
    ("C15", "reset", [(FP, "    if n_dropped < n_to_drop:\n        pdists", "    if n_dropped < n_to_drop:\n        n_dropped = 0\n        pdists")]),
    ("C15", "ceil", [(FP, "int(np.floor(target_size * n_max_factor))", "int(np.ceil(target_size * n_max_factor))")]),
    ("C15", "excess-target", [(FP, "n_to_drop = max(0, len(xs) - filter_target_size)", "n_to_drop = max(0, len(xs) - target_size)")]),
    ("C15", "excess-minus", [(FP, "    if n_to_drop:\n        xs, indices", "    if n_to_drop > 1:\n        xs, indices")]),
    ("C15", "excess-xs", [(FP, "        xs, indices = drop_worst_points(xs, indices, state, n_to_drop)", "        xs, _ = drop_worst_points(xs, indices, state, n_to_drop)")]),
    ("C15", "cluster-pos", [(FP, "out = xs[centers], indices[centers]", "out = xs[centers], centers")]),
    ("C15", "cluster-sorted", [(FP, "out = xs[centers], indices[centers]", "out = xs[centers], indices[np.sort(centers)]")]),
    ("C15", "keep-sorted", [(FP, "def keep_all(xs, indices):\n    return xs, indices", "def keep_all(xs, indices):\n    return xs, np.sort(indices)")]),
    ("C15", "discard-first", [(FP, "def discard_all(state):\n    return state.x.reshape(1, -1), np.array([state.index])", "def discard_all(xs, indices, state):\n    return state.x.reshape(1, -1), indices[:1]")]),
    ("C15", "keep-unique", [(FP, "def keep_all(xs, indices):\n    return xs, indices", "def keep_all(xs, indices):\n    return xs[1:], indices[1:]")]),
    ("C22", "drop-xs-only", [(M, "                model_xs, model_indices = drop_worst_points(\n                    xs=model_xs,\n                    indices=model_indices,\n                    state=state,\n                    n_to_drop=n_to_drop,", "                model_xs, _ = drop_worst_points(\n                    xs=model_xs,\n                    indices=model_indices,\n                    state=state,\n                    n_to_drop=n_to_drop,")]),
    ("C22", "existing-old", [(M, "            n_points=n_new_points,\n            existing_xs=model_xs,", "            n_points=n_new_points,\n            existing_xs=old_xs,")]),
    ("C22", "no-round", [(M, "        n_new_points = next_multiple(n_new_points, base=batch_size)\n", "")]),
    ("C22", "round-down", [("process_arguments.py", "    return int(np.ceil(n / base) * base)", "    return int(np.floor(n / base) * base)")]),
    ("C22", "round-target", [(M, "        n_new_points = max(0, target_sample_size - len(model_xs))\n        n_new_points = next_multiple(n_new_points, base=batch_size)", "        n_new_points = max(0, next_multiple(target_sample_size, base=batch_size) - len(model_xs))")]),
    ("C22", "old-xs-count", [(M, "max(0, target_sample_size - len(model_xs))", "max(0, target_sample_size - len(old_xs))")]),
    ("C22", "search-region", [(M, "        new_xs = sample_points(\n            trustregion=state.trustregion,\n            n_points=n_new_points", "        new_xs = sample_points(\n            trustregion=search_region,\n            n_points=n_new_points")]),
    ("C22", "excess-only-step", [(M, "            while (\n                _relative_step_length < stagnation_options.min_relative_step_keep\n                and len(model_xs) > target_sample_size\n            ):", "            while (\n                _relative_step_length < stagnation_options.min_relative_step_keep\n                and len(model_xs) >= target_sample_size\n            ):")]),
    ("C22", "excess-or", [(M, "                _relative_step_length < stagnation_options.min_relative_step_keep\n                and len", "                _relative_step_length < stagnation_options.min_relative_step_keep\n                or len")]),
    ("C22", "excess-wrong-opt", [(M, "_relative_step_length < stagnation_options.min_relative_step_keep", "_relative_step_length < stagnation_options.min_relative_step")]),
    ("C22", "excess-two", [(M, "                    n_to_drop=1,", "                    n_to_drop=stagnation_options.sample_increment,")]),
    ("C22", "stag-step-stale", [(M, "            sub_sol = solve_subproblem(\n                model=scalar_model, trustregion=state.trustregion\n            )\n\n            _relative_step_length = (\n                np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius\n            )\n", "            _relative_step_length = (\n                np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius\n            )\n\n            sub_sol = solve_subproblem(\n                model=scalar_model, trustregion=state.trustregion\n            )\n")]),
    ("C22", "stag-step-search", [(M, "            _relative_step_length = (\n                np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius\n            )\n\n            sample_counter", "            _relative_step_length = (\n                np.linalg.norm(sub_sol.x - state.x) / search_region.radius\n            )\n\n            sample_counter")]),
    ("C22", "stag-nodrop-check", [(M, "if stagnation_options.drop and len(model_xs) > n_to_drop:", "if len(model_xs) > n_to_drop:")]),
    ("C22", "stag-drop-target", [(M, "if stagnation_options.drop and len(model_xs) > n_to_drop:", "if stagnation_options.drop and len(model_xs) > target_sample_size:")]),
    ("C22", "stag-ge", [(M, "if stagnation_options.drop and len(model_xs) > n_to_drop:", "if stagnation_options.drop and len(model_xs) >= n_to_drop:")]),
    ("C22", "stag-trials", [(M, "if sample_counter >= stagnation_options.max_trials:", "if sample_counter > stagnation_options.max_trials:")]),
    ("C22", "stag-counter-reset", [(M, "        sample_counter = 0\n        while", "        while"), (M, "    # make options", "    sample_counter = 0\n    # make options") if False else (M, "    for _ in range(stop_options.max_iter):\n", "    sample_counter = 0\n    for _ in range(stop_options.max_iter):\n")]),
    ("C22", "stag-not-included", [(M, "            evaluate_criterion(eval_info)\n\n            model_indices = _concatenate_indices(model_indices, new_indices)\n", "            evaluate_criterion(eval_info)\n\n            if stagnation_options.drop:\n                model_indices = _concatenate_indices(model_indices, new_indices)\n")]),
    ("C22", "stag-n", [(M, "                n_points=n_to_drop,\n", "                n_points=batch_size,\n")]),
    ("C22", "concat-first", [(M, "        model_indices = _concatenate_indices(model_indices, new_indices)\n\n        model_xs", "        model_indices = _concatenate_indices(old_indices, new_indices)\n\n        model_xs")]),
    ("C22", "filter-target", [(M, "            target_size=target_sample_size,", "            target_size=target_sample_size - 1,")]),
    ("C20", "order-swap", [(S, 'order = 2 if trustregion_shape == "sphere" else np.inf', 'order = 2 if trustregion_shape == "cube" else np.inf')]),
    ("C20", "hull-unprojected", [(S, "    points = _project_onto_unit_hull(raw, trustregion_shape=trustregion.shape)\n", "    points = raw / np.linalg.norm(raw, axis=0)\n")]),
    ("C20", "keep-start", [(S, "    if start_fekete >= end_fekete:\n        opt_params = x0\n", "    if start_fekete > 2 * end_fekete:\n        opt_params = x0\n")]),
    ("C20", "crit-compare", [(S, '    end_fekete = func_dict["determinant"](opt_params)', '    end_fekete = func_dict[criterion](opt_params)')]),
    ("C20", "no-sign", [(S, "            switch_sign(func_dict[criterion]),", "            func_dict[criterion],")]),
    ("C20", "last-unprojected", [(S, "    points = _project_onto_unit_hull(\n        opt_params.reshape(-1, n_params), trustregion_shape=trustregion.shape\n    )\n", "    points = opt_params.reshape(-1, n_params)\n")]),
    ("C20", "argmin-start", [(S, "candidates[np.argmax(_fekete_criterion)]", "candidates[np.argmin(_fekete_criterion)]")]),
    ("C20", "existing-unmapped", [(S, "        existing_xs_unit = trustregion.map_to_unit(existing_xs)\n", "        existing_xs_unit = (existing_xs - trustregion.center) / trustregion.radius\n")]),
    ("C20", "pairs-slice", [(S, "slice(0, -n_existing_pairs) if n_existing_pairs", "slice(n_existing_pairs, None) if n_existing_pairs")]),
    ("C20", "pairs-count", [(S, "len(existing_xs) * (len(existing_xs) - 1) // 2", "len(existing_xs) * (len(existing_xs) + 1) // 2")]),
    ("C20", "pairs-order", [(S, "        sample = np.row_stack([x, existing_xs])\n        n_existing_pairs", "        sample = np.row_stack([existing_xs, x])\n        n_existing_pairs")]),
    ("C20", "det-len", [(S, "    n_samples = len(x)\n\n    x = _project", "    n_samples = n_params\n\n    x = _project")]),
    ("C20", "box-bounds", [(S, "    bounds = trustregion.cube_bounds\n    points", "    bounds = trustregion.bounds\n    points")]),
    ("C20", "ball-scale", [(S, "gammainc(n_params / 2, norm**2 / 2) ** (1 / n_params) / norm", "gammainc(n_params / 2, norm**2 / 2) / norm")]),
    ("C20", "bounds01", [(S, "bounds=Bounds(-np.ones_like(x0), np.ones_like(x0))", "bounds=Bounds(np.zeros_like(x0), np.ones_like(x0))")]),
    ("C20", "npoints", [(S, "rng=rng, size=(n_points, n_params))\n    points", "rng=rng, size=(max(n_points, 2), n_params))\n    points")]),
    ("C20", "hardness", [(S, "    crit_value = -logsumexp(-hardness * dist)", "    crit_value = -logsumexp(-hardness * dist) * hardness")]),
    ("C20", "centric-all", [(S, "            if not_centric.any():", "            if not_centric.all():")]),
    ("C20", "single-none", [(S, '        criterion = "determinant" if n_points == 1 else "distance"', '        criterion = "determinant" if n_points == 1 and existing_xs is not None else "distance"')]),
    ("C16","gc_valid_flip",[("get_component.py","_valid_options = {k: v for k, v in _options.items() if k in signature}","_valid_options = {k: v for k, v in _options.items() if k in signature and v}")]),
    ("C16","gc_kwargs_order",[("get_component.py","_kwargs = {**dict(zip(signature[: len(args)], args)), **kwargs}","_kwargs = {**kwargs, **dict(zip(signature, args[1:]))}")]),
    ("C16","gc_missing_any",[("get_component.py","    if _missing:","    if len(_missing) == len(mandatory_arguments) and _missing:")]),
    ("C16","gc_default_only",[("get_component.py","update_option_bundle(default_options, user_options=user_options)","update_option_bundle(default_options, user_options=None)")]),
    ("C16","uob_none",[("options.py","if isinstance(v, target_type) or default_option is None:","if isinstance(v, target_type):")]),
    ("C16","uob_falsy",[("options.py","    if user_options is None:\n        return default_options","    if not user_options:\n        return default_options\n    user_options = {k: v for k, v in (user_options if isinstance(user_options, dict) else user_options._asdict()).items() if v}")]),
    ("C16","uob_invalid",[("options.py","invalid_fields = set(user_options) - set(default_options._fields)","invalid_fields = set(default_options._fields) - set(user_options) - set(default_options._fields)")]),
    ("C16","pa_swap_tol",[("process_arguments.py","xtol_abs=float(convergence_absolute_params_tolerance)","xtol_abs=float(convergence_relative_params_tolerance)")]),
    ("C16","pa_sampler_opts",[("process_arguments.py","get_sampler(sampler, sampler_options)","get_sampler(sampler, sampler_options if noisy else None)")]),
    ("C16","pa_batch",[("process_arguments.py","    elif batch_size < n_cores:","    elif batch_size < n_cores - 1:")]),
    ("C16","pa_ssize",[("process_arguments.py","        out = int(sample_size)","        out = max(int(sample_size), len(x) + 1)")]),
    ("C16","pa_fitter_noisy",[("options.py","if model_type == \"linear\" or sample_size >= n_params:","if model_type == \"linear\" or sample_size > n_params:")]),
    ("C16","pa_stag",[("options.py","            min_relative_step_keep=0.0,\n            drop=False,","            min_relative_step_keep=0.0,\n            drop=True,")]),
    ("C16","pa_nevals",[("process_arguments.py","    if out < 1:\n        raise ValueError(\"n_evals_per_point must be","    if out < 0:\n        raise ValueError(\"n_evals_per_point must be")]),
    ("C16","pa_residualize",[("process_arguments.py","        out = residualize\n","        out = residualize or get_default_residualize(model_fitter)\n")]),
    ("C16","ss_swap",[("process_arguments.py","cube_solver=cube_subsolver,","cube_solver=cube_subsolver if lower_bounds is not None else \"bntr_fast\",")]),
    ("C16","ss_fallback_options",[("solve_subproblem.py","        user_options=user_options,\n        mandatory_signature=[\"model\", \"x_candidate\", \"lower_bounds\", \"upper_bounds\"],","        mandatory_signature=[\"model\", \"x_candidate\", \"lower_bounds\", \"upper_bounds\"],")]),
    ("C16","ve_options",[("estimate_variance.py","user_options=user_options,\n","")]),
    ("C16","opt_default_type",[("options.py","large_step: float = 0.5","large_step: float = 1")]),
    ("C16","unknown_default",[("get_component.py","            raise ValueError(msg)\n    elif callable(name_or_func):","            warnings.warn(msg)\n            _name = list(func_dict)[0]\n            _func = func_dict[_name]\n    elif callable(name_or_func):")]),
    ("C24","n1_noexist",[("acceptance_sample_size.py","max(0, n_max - existing_n1)","n_max")]),
    ("C24","n2_floor",[("acceptance_sample_size.py","n2 = int(np.ceil(","n2 = int(np.floor(")]),
    ("C24","n_sig",[("acceptance_sample_size.py","significance_level=1 - confidence_level","significance_level=confidence_level")]),
    ("C24","n_nosq",[("acceptance_sample_size.py","            / minimal_effect_size\n        ) ** 2","            / minimal_effect_size\n        )")]),
    ("C24","n_le",[("acceptance_sample_size.py","n1 = n1_optimal - existing_n1","n1 = n1_optimal")]),
    ("C24","n2_opt",[("acceptance_sample_size.py","        n2 = sd_2**2 * (factor ** (-1) - sd_1**2 / existing_n1) ** (-1)","        n2 = n2_optimal")]),
    ("C24","sd_var",[(A,"sigma=np.sqrt(noise_variance)","sigma=noise_variance")]),
    ("C24","swap_n",[(A,"        state.index: n_1,\n        candidate_index: n_2,","        state.index: n_2,\n        candidate_index: n_1,")]),
    ("C24","swap_ret",[("acceptance_sample_size.py","return n1, n2\n\n\ndef _get","return n2, n1\n\n\ndef _get")]),
    ("C24","ex_cand",[(A,"existing_n1 = len(history.get_fvals(state.index))","existing_n1 = len(history.get_fvals(candidate_index))")]),
    ("C24","clip_min",[("acceptance_sample_size.py","np.clip(n2_raw, n_min, n_max)","np.clip(n2_raw, 0, n_max)")]),
    ("C24","effect",[("acceptance_sample_size.py","np.clip(expected_improvement, 1e-8, np.inf)","np.clip(expected_improvement, 1e-2, np.inf)")]),
    ("C24","v_ddof",[("estimate_variance.py","np.var(sample, ddof=1)","np.var(sample)")]),
    ("C24","v_ddofc",[("estimate_variance.py","rowvar=False, ddof=1)","rowvar=False, ddof=0)")]),
    ("C24","v_weights",[("estimate_variance.py","    weights = weights / weights.sum()","    weights = weights / len(weights)")]),
    ("C24","v_allw",[("estimate_variance.py","for idx, n_ in n_evals.items() if idx in valid_indices]","for idx, n_ in n_evals.items()]")]),
    ("C24","v_gt",[("estimate_variance.py","n_evals[idx] >= cutoff","n_evals[idx] > cutoff")]),
    ("C24","v_min",[("estimate_variance.py","min(max(n_evals.values()), min_n_evals)","min(min(n_evals.values()), min_n_evals)")]),
    ("C24","v_rad",[("estimate_variance.py","trustregion.radius * max_distance_factor","trustregion.radius + max_distance_factor")]),
    ("C24","s_nonoise",[("rho_noise.py","            sim_fvecs,\n","            true_fvecs,\n")]),
    ("C24","s_corr",[("rho_noise.py","    if ignore_corelation:","    if not ignore_corelation:")]),
    ("C24","s_simmodel",[("rho_noise.py","sim_candidate_fval = true_scalar_model.predict","sim_candidate_fval = sim_scalar_model.predict")]),
    ("C24","s_center",[("rho_noise.py","        trustregion.map_to_unit(trustregion.center)\n","        np.zeros(n_params)\n")]),
    ("C24","s_ndraw",[("rho_noise.py","size=n_draws * n_samples\n    ).reshape(n_draws, n_samples, n_residuals)","size=n_draws * n_samples\n    ).reshape(n_samples, n_draws, n_residuals)")]),
    ("C24","s_old",[("rho_noise.py","old_model=old_vector_model","old_model=vector_model")]),
    ("C24","s_sqrt",[("rho_noise.py","cov=noise_cov,","cov=np.sqrt(noise_cov),")]),
    ("C24","w_cov",[(M,"                noise_cov=noise_cov,\n","                noise_cov=noise_variance,\n")]),
    ("C24","w_scalar",[(M,"            noise_variance=noise_variance,","            noise_variance=noise_cov,")]),
    ("C24","w_old",[(M,"                old_vector_model=state.vector_model,","                old_vector_model=vector_model,")]),
    ("C25","sp_center",[(A,"        new_center=candidate_x,\n            radius_factor","        new_center=state.x,\n            radius_factor")]),
    ("C25","sp_radius",[(A,"radius=radius_factor * trustregion.radius","radius=trustregion.radius")]),
    ("C25","sp_n",[(A,"            n_points=n_unallocated_evals,","            n_points=batch_size - 1,")]),
    ("C25","sp_count",[(A,"n_unallocated_evals = batch_size - 1 - n_evals_line_search","n_unallocated_evals = batch_size - n_evals_line_search")]),
    ("C25","sp_noline",[(A,"            line_search_xs=line_search_xs,\n            rng","            line_search_xs=None,\n            rng")]),
    ("C25","sp_noold",[(A,"        model_xs = np.row_stack([old_xs, line_search_xs])","        model_xs = line_search_xs")]),
    ("C25","sp_region",[(A,"    old_indices = history.get_x_indices_in_region(search_region)\n\n    old_xs","    old_indices = history.get_x_indices_in_region(trustregion)\n\n    old_xs")]),
    ("C25","sp_sample",[(A,"    new_xs = sample_points(\n        search_region,","    new_xs = sample_points(\n        trustregion,")]),
    ("C25","sp_nospec",[(A,"        new_xs = np.vstack([line_search_xs, speculative_xs])","        new_xs = line_search_xs")]),
    ("C25","li_start",[(A,"    xs = start_point + alpha_grid","    xs = direction_point + alpha_grid")]),
    ("C25","li_grid",[(A,"np.arange(1, n_points + 1, dtype=float)","np.arange(n_points, dtype=float)")]),
    ("C25","li_grid2",[(A,"n_points = min(batch_size, 4) - 1","n_points = min(batch_size, 4)")]),
    ("C25","li_border",[(A,"    perform_line_search = _is_on_border(state.trustregion, x=candidate_x, rtol=1e-1)","    perform_line_search = _is_on_border(state.trustregion, x=candidate_x, rtol=1.0)")]),
    ("C25","li_shape",[(A,"    if trustregion.shape == \"sphere\":\n        candidate_on_border","    if trustregion.bounds is None or not trustregion.bounds.has_any:\n        candidate_on_border")]),
    ("C25","li_center",[(A,"np.linalg.norm(x - trustregion.center, ord=2)\n    return np.isclose","np.linalg.norm(x, ord=2)\n    return np.isclose")]),
    ("C25","li_x",[(A,"start_point=state.x, direction_point=candidate_x","start_point=candidate_x, direction_point=state.x")]),
    ("C25","ev_two",[(A,"    for idx in new_indices:\n        eval_info[idx] = 1","    for idx in new_indices:\n        eval_info[idx] = 2")]),
    ("C25","ev_cond",[(A,"    for idx in new_indices:\n        eval_info[idx] = 1","    for idx in new_indices[:batch_size - 2]:\n        eval_info[idx] = 1")]),
    ("C17","u_newxs",[(A,"    elif speculative_xs is not None:\n        new_xs = speculative_xs\n","    elif speculative_xs is not None and batch_size < 10:\n        new_xs = speculative_xs\n")]),
    ("C17","u_agg",[(AG,"        _aggregator = built_in_aggregators[aggregator]\n    else:\n","        if len(built_in_aggregators) > 0 and aggregator != \"sum\":\n            _aggregator = built_in_aggregators[aggregator]\n    else:\n")]),
    ("C17","u_border",[(A,"_is_on_border(state.trustregion, x=candidate_x, rtol=1e-1)","_is_on_border(state.trustregion, rtol=1e-1)")]),
    ("C17","u_volume",[("filter_points.py","        dim=dim,\n        scaling_factor=scaling_factor,","        scaling_factor=scaling_factor,")]),
    ("C17","u_attr",[("filter_points.py","radius=state.trustregion.radius,\n        dim","radius=state.search_region.radius,\n        dim")]),
    ("C17","u_swap",[(A,"            rng=rng,\n        )\n    else:\n        speculative_xs = None","            rngs=rng,\n        )\n    else:\n        speculative_xs = None")]),
    ("C17","u_expl",[("exploration_sample.py","    elif sampling_method == \"latin_hypercube\":\n","    elif sampling_method == \"latin_hypercube\" and len(lower) > 1:\n")]),
    ("C17","u_name",[(W,"shape = _get_shape_of_evaluation(raw_evals, history)","shape = _get_shape_of_evaluation(raw_eval, history)")]),
    ("C26", "tranq-factor", [(F, "+ [1 / p_square] * (n_features - 1 - n_params)", "+ [1 / p_linear] * (n_features - 1 - n_params)")]),
    ("C26", "tranq-count", [(F, "        + [1 / p_linear] * n_params\n        + [1 / p_square] * (n_features - 1 - n_params)", "        + [1 / p_linear] * (n_params - 1)\n        + [1 / p_square] * (n_features - n_params)")]),
    ("C26", "tranq-inverse", [(F, "        [1 / p_intercept]\n", "        [p_intercept]\n")]),
    ("C26", "tranq-unscaled", [(F, "    coef = coef_raw * factor\n", "    coef = coef_raw\n")]),
    ("C26", "tranq-divided", [(F, "    coef = coef_raw * factor\n", "    coef = coef_raw / factor\n")]),
    ("C26", "ridge-cut", [(F, "    cutoffs = (1, n_params + 1)\n", "    cutoffs = (1, n_params)\n")]),
    ("C26", "ridge-intercept", [(F, "    penalty[: cutoffs[0]] = 0\n", "    penalty[: cutoffs[0]] = l2_penalty_linear\n")]),
    ("C26", "ridge-swap", [(F, "    penalty[cutoffs[1] :] = l2_penalty_square\n", "    penalty[cutoffs[1] :] = l2_penalty_linear\n")]),
    ("C26", "ridge-squared", [(F, "a + np.diag(penalty), b", "a + np.diag(penalty**2), b")]),
    ("C26", "ridge-unweighted", [(F, "    coef = _fit_ridge(features_w, y_w, penalty)\n", "    coef = _fit_ridge(features_w, y, penalty)\n")]),
    ("C26", "ols-unweighted", [(F, "    coef = _fit_ols(features_w, y_w)\n\n    return coef\n\n\ndef _fit_ols", "    coef = _fit_ols(features, y_w)\n\n    return coef\n\n\ndef _fit_ols")]),
    ("C26", "weights-root", [(F, "    _root_weights = np.sqrt(weights).reshape", "    _root_weights = weights.reshape")]),
    ("C26", "weights-both", [(F, "        y = y * _root_weights\n", "        y = y * _root_weights**2\n")]),
    ("C26", "powell-linear", [(F, "    _switch_to_linear = n_samples <= n_params + 1\n", "    _switch_to_linear = n_samples <= n_params + 2\n")]),
    ("C26", "powell-strict", [(F, "    elif n_samples >= _n_just_identified:\n", "    elif n_samples >= _n_just_identified - 1:\n")]),
    ("C26", "powell-type", [(F, "        coef = fit_ols(x, y, weights=None, model_type=model_type)\n", "        coef = fit_ols(x, y, weights=None, model_type=\"linear\")\n")]),
    ("C26", "powell-pad", [(F, "        coef = np.hstack([coef, padding])\n", "        coef = np.hstack([padding, coef])\n")]),
    ("C26", "pairs-start", [(F, "        j_start = i\n", "        j_start = 0\n")]),
    ("C26", "pairs-factor", [(F, "poly_terms[idx] = xt[i] * xt[j]\n", "poly_terms[idx] = 0.5 * xt[i] * xt[j]\n")]),
    ("C26", "pairs-square", [(F, "poly_terms[idx] = xt[i] * xt[j]\n", "poly_terms[idx] = xt[j] * xt[j]\n")]),
    ("C26", "hess-diag", [(F, "    hess = hess + np.triu(hess).transpose(0, 2, 1)\n", "    hess = hess + np.triu(hess, 1).transpose(0, 2, 1)\n")]),
    ("C26", "hess-upper", [(F, "    hess = hess + np.triu(hess).transpose(0, 2, 1)\n", "    hess = hess + np.triu(hess)\n")]),
    ("C26", "hess-tril", [(F, "    idx1, idx2 = np.triu_indices(n_params)\n", "    idx1, idx2 = np.tril_indices(n_params)\n")]),
    ("C26", "split-zero", [(F, "np.split(coef, (1, n_params + 1), axis=1)", "np.split(coef, (1, n_params), axis=1)")]),
    ("C26", "no-intercept", [(F, "    intercept = np.ones((len(x), 1))\n    features = np.concatenate((intercept, raw), axis=1)", "    intercept = np.zeros((len(x), 1))\n    features = np.concatenate((intercept, raw), axis=1)")]),
    ("C26", "intercept-last", [(F, "    features = np.concatenate((intercept, raw), axis=1)\n    return features", "    features = np.concatenate((raw, intercept), axis=1)\n    return features")]),
    ("C26", "linear-type", [(F, "raw = x if model_type == \"linear\" else _quadratic_features(x)", "raw = x if model_type == \"quadratic\" else _quadratic_features(x)")]),
    ("C21", "residual-sign", [(F, "y_clipped - old_model_moved.predict(x_unit)", "y_clipped + old_model_moved.predict(x_unit)")]),
    ("C21", "residual-x", [(F, "old_model_moved.predict(x_unit)", "old_model_moved.predict(x)")]),
    ("C26", "weights-lost", [(F, "y=y_clipped, weights=weights, model_type=model_type)", "y=y_clipped, weights=None, model_type=model_type)")]),
    ("C26", "frob-z", [(F, "        z_mat[:, n_params + 1 : n_samples],\n", "        z_mat[:, n_params:n_samples],\n")]),
    ("C26", "frob-nz", [(F, "        n_z_mat[:, n_params + 1 : n_samples],\n", "        n_z_mat[:, n_params + 1 : n_samples - 1],\n")]),
    ("C26", "frob-rhs", [(F, "        rhs = y[:, k] - n_mat @ coeffs_second_stage\n", "        rhs = y[:, k] + n_mat @ coeffs_second_stage\n")]),
    ("C26", "frob-col", [(F, "        rhs = y[:, k] - n_mat @ coeffs_second_stage\n", "        rhs = y[:, 0] - n_mat @ coeffs_second_stage\n")]),
    ("C26", "frob-first", [(F, "        coeffs_square[k] = coeffs_second_stage\n", "        coeffs_square[0] = coeffs_second_stage\n")]),
    ("C26", "frob-order", [(F, "    coef = np.concatenate((coeffs_linear, coeffs_square), axis=1)\n", "    coef = np.concatenate((coeffs_square, coeffs_linear), axis=1)\n")]),
    ("C26", "frob-pad", [(F, "    m_mat_pad[:, : n_params + 1] = m_mat\n", "    m_mat_pad[:, : n_params] = m_mat[:, :n_params]\n")]),
    ("C26", "frob-gram", [(F, "    n_z_mat_square = n_z_mat.T @ n_z_mat\n", "    n_z_mat_square = n_z_mat @ n_z_mat.T\n")]),
    ("C26", "frob-half", [(F, "        coeffs_square[k] = coeffs_second_stage\n", "        coeffs_square[k] = coeffs_second_stage / 2\n")]),
    ("C05", "shape-neg", [(W, "        if not isinstance(raw_eval, str):\n            return np.shape", "        if isinstance(raw_eval, str):\n            return np.shape")]),
    ("C05", "shape-fvals", [(W, "    return history.fvecs.shape[1:]\n", "    return history.fvals.shape[1:]\n")]),
    ("C05", "shape-xs", [(W, "    return history.fvecs.shape[1:]\n", "    return history.xs.shape[1:]\n")]),
    ("C05", "shape-two", [(W, "    return history.fvecs.shape[1:]\n", "    return history.fvecs.shape[2:]\n")]),
    ("C05", "shape-one", [(W, "    return history.fvecs.shape[1:]\n", "    return history.fvecs.shape[:1]\n")]),
    ("C05", "shape-slice", [(W, "    return history.fvecs.shape[1:]\n", "    return history.fvecs.shape[1:1]\n")]),
    ("C05", "shape-first", [(W, "    for raw_eval in raw_evals:\n        if not isinstance", "    for raw_eval in raw_evals[:1]:\n        if not isinstance")]),
    ("C05", "shape-never", [(W, "        if not isinstance(raw_eval, str):\n            return np.shape(raw_eval)\n", "        if isinstance(raw_eval, np.ndarray):\n            return np.shape(raw_eval)\n")]),
    ("C27", "fb-grad-half", [(FB, "        return g + x @ h\n", "        return g + 0.5 * x @ h\n")]),
    ("C27", "fb-value", [(FB, "        return c + x @ g + 0.5 * x @ h @ x\n", "        return c + x @ g + x @ h @ x\n")]),
    ("C27", "fb-sign", [(FB, "        return c + x @ g + 0.5 * x @ h @ x\n", "        return c - x @ g + 0.5 * x @ h @ x\n")]),
    ("C27", "fb-radius", [(FB, "    upper_bounds = radius * np.ones(len(x_candidate))\n", "    upper_bounds = np.ones(len(x_candidate))\n")]),
    ("C27", "fb-inscribed", [(FB, "radius=1 / np.sqrt(len(x_candidate))", "radius=1 / len(x_candidate)")]),
    ("C27", "fb-inscribed2", [(FB, "radius=1 / np.sqrt(len(x_candidate))", "radius=np.sqrt(2) / 2")]),
    ("C27", "fb-project", [(FB, "            x_tilde = x / x_norm\n", "            x_tilde = x / x_norm**2\n")]),
    ("C27", "fb-project-lost", [(FB, "        _minimizer = res.x / solution_norm\n", "        _minimizer = res.x\n")]),
    ("C27", "fb-project-cond", [(FB, "    if solution_norm <= 1:\n", "    if solution_norm <= np.sqrt(len(res.x)):\n")]),
    ("C27", "fb-norm-one", [(FB, "    solution_norm = np.linalg.norm(res.x)\n", "    solution_norm = np.linalg.norm(res.x, ord=np.inf)\n")]),
    ("C27", "fb-method", [(FB, "        method=\"SLSQP\",\n", "        method=\"L-BFGS-B\",\n")]),
    ("C27", "fb-method2", [(FB, "        method=\"L-BFGS-B\",\n        jac=grad,\n", "        method=\"BFGS\",\n        jac=grad,\n")]),
    ("C27", "fb-constr", [(FB, "        return x @ x\n\n    def _constr_jac", "        return np.abs(x).sum()\n\n    def _constr_jac")]),
    ("C27", "fb-constr-jac", [(FB, "        return 2 * x\n", "        return x\n")]),
    ("C27", "fb-constr-ub", [(FB, "        ub=1,\n", "        ub=2,\n")]),
    ("C27", "fb-unconstrained", [(FB, "        constraints=constraint,\n", "")]),
    ("C27", "fb-multi-cmp", [(FB, "        if res[\"criterion\"] <= best_crit:\n", "        if res[\"criterion\"] >= best_crit:\n")]),
    ("C27", "fb-multi-crit", [(FB, "            best_crit = res[\"criterion\"]\n", "            best_crit = min(best_crit, 0)\n")]),
    ("C27", "fb-multi-x", [(FB, "            accepted_x = res[\"x\"]\n", "            accepted_x = x\n")]),
    ("C27", "fb-multi-lower", [(FB, "        lower=-np.ones(len(x_candidate)),\n", "        lower=np.zeros(len(x_candidate)),\n")]),
    ("C27", "fb-multi-seed", [(FB, "        seed=1234,\n", "        seed=None,\n")]),
    ("C27", "fb-multi-start", [(FB, "        res = robust_cube_solver(model, x)\n", "        res = robust_cube_solver(model, x_candidate)\n")]),
    ("C27", "fb-start", [(FB, "    res = minimize(\n        crit,\n        x_candidate,\n        method=\"SLSQP\",", "    res = minimize(\n        crit,\n        upper_bounds,\n        method=\"SLSQP\",")]),
    ("C27", "es-mode", [("exploration_sample.py", "            c=(x - lower) / (upper - lower),\n", "            c=(x - lower) / upper,\n")]),
    ("C27", "es-scale", [("exploration_sample.py", "            scale=upper - lower,\n", "            scale=upper,\n")]),
    ("C27", "es-bounds", [("exploration_sample.py", "qmc.scale(sample_unscaled, lower, upper)", "qmc.scale(sample_unscaled, lower, np.maximum(upper, x))")]),
    ("C27", "es-seed", [("exploration_sample.py", "qmc.Halton(d=len(lower), scramble=False, seed=seed)", "qmc.Halton(d=len(lower), scramble=True)")]),
    ("C27", "es-n", [("exploration_sample.py", "        sampler = qmc.LatinHypercube(d=len(lower), strength=1, seed=seed)\n        sample_unscaled = sampler.random(n=n_samples)\n", "        sampler = qmc.LatinHypercube(d=len(lower), strength=1, seed=seed)\n        sample_unscaled = sampler.random(n=n_samples - 1)\n")]),
    ("C21", "move-same-size", [(MO, "    # undo old scaling\n", "    if np.allclose(model.scale, new_region.effective_radius):\n        shift = new_region.effective_center - model.shift\n        if isinstance(model, ScalarModel):\n            return _shift_scalar_model(model, shift=shift)\n        return _shift_vector_model(model, shift=shift)\n\n    # undo old scaling\n")]),
    ("C21", "move-same-centre", [(MO, "    # undo old scaling\n", "    if np.allclose(model.shift, new_region.effective_center):\n        return model\n\n    # undo old scaling\n")]),
 ("C23","start_threshold",[(M,"if n_evals_at_start > 1:","if n_evals_at_start > 2:")]),
 ("C23","start_not_rounded",[(M,"eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}","eval_info = {0: n_evals_at_start}")]),
 ("C23","start_rounded_down",[(M,"eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}","eval_info = {0: max(1, n_evals_at_start // batch_size) * batch_size}")]),
 ("C23","start_full_batch",[(M,"        eval_info = {0: 1}\n","        eval_info = {0: batch_size}\n")]),
 ("C25","classic_twice",[(A,"        min_improvement=min_improvement,\n        n_evals=1,","        min_improvement=min_improvement,\n        n_evals=2,")]),
 ("C11","radius_zero_start",[("options.py","    if scale == 0:\n        scale = 1.0\n","")]),
 ("C16","radius_zero_start2",[("options.py","    if scale == 0:\n        scale = 1.0\n","    if scale == 0:\n        scale = 10.0\n")]),
 ("C11","radius_zero_start3",[("options.py","    if scale == 0:\n        scale = 1.0\n","    if scale < 0:\n        scale = 1.0\n")]),
 ("C24","v_all2",[("estimate_variance.py","get_samples(valid_indices).items()","get_samples(all_indices).items()")]),
 ("C24","v_infinite",[("estimate_variance.py","        sample[is_finite[idx]] for idx, sample in get_samples(valid_indices).items()","        sample for idx, sample in get_samples(valid_indices).items()")]),
 ("C24","v_infcount",[("estimate_variance.py","n_evals = {idx: mask.sum() for idx, mask in is_finite.items()}","n_evals = {idx: len(mask) for idx, mask in is_finite.items()}")]),
 ("C24","v_nan",[("estimate_variance.py","        idx: np.isfinite(fvals)\n","        idx: ~np.isnan(fvals)\n")]),
    ("C07", "default-memo-helper", [(S, "def _draw_from_distribution(distribution, rng, size):", "def _remember(memo, size, rng):\n    memo[size] = rng.normal(size=size)\n\n\ndef _draw_from_distribution(distribution, rng, size, _memo={}):"), (S, "    if distribution == \"normal\":\n        draw = rng", "    if size in _memo:\n        return _memo[size]\n    _remember(_memo, size, rng)\n    if distribution == \"normal\":\n        draw = rng")]),
    ("C07", "global-memo-alias", [(S, "def _draw_from_distribution(distribution, rng, size):", "_DRAWS = {}\n\n\ndef _draw_from_distribution(distribution, rng, size):"), (S, "    if distribution == \"normal\":\n        draw = rng", "    cache = _DRAWS\n    if size in cache:\n        return cache[size]\n    cache[size] = rng.normal(size=size)\n    if distribution == \"normal\":\n        draw = rng")]),
    ("C07", "global-memo-part", [(S, "def _draw_from_distribution(distribution, rng, size):", "_DRAWS = {\"normal\": {}}\n\n\ndef _draw_from_distribution(distribution, rng, size):"), (S, "    if distribution == \"normal\":\n        draw = rng", "    cache = _DRAWS[\"normal\"]\n    if size in cache:\n        return cache[size]\n    cache.setdefault(size, rng.normal(size=size))\n    if distribution == \"normal\":\n        draw = rng")]),
    ("C08", "residuals-in-place", [(F, "        y_clipped = y_clipped - old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n", "        y_clipped -= old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n"), (I, "    _mask = np.isfinite(fvecs)\n", "    _mask = np.isfinite(fvecs)\n    if _mask.all():\n        return fvecs\n")]),
    ("C12", "stagnation-recorded-evals", [(M, "            eval_info = {i: n_evals_per_point for i in new_indices}\n\n            evaluate_criterion(eval_info)\n\n            model_indices = _concatenate_indices(model_indices, new_indices)\n            model_xs", "            n_evals = state.n_evals_per_point or n_evals_per_point\n            eval_info = {i: n_evals for i in new_indices}\n\n            evaluate_criterion(eval_info)\n\n            model_indices = _concatenate_indices(model_indices, new_indices)\n            model_xs")]),
    ("C04 C10", "n-fun-points", [(H, "        return self.n_fun\n", "        return self.n_xs\n")]),
    ("C02 C03 C10", "fvals-sorted", [(H, "        self.fvals = _add_entries_to_array(self.fvals, fvals, self.n_fun)\n", "        self.fvals = _add_entries_to_array(self.fvals, np.sort(fvals), self.n_fun)\n")]),
    ("C10 C19", "median-data", [(H, "np.mean(fvec, axis=0) for", "np.median(fvec, axis=0) for")]),
    ("C15 C19 C22", "drop-unpaired", [(FP, "            indices = np.delete(indices, drop_index)\n            dists = np.delete(dists, drop_index, axis=0)\n            n_dropped", "            indices = np.delete(indices, n_dropped)\n            dists = np.delete(dists, drop_index, axis=0)\n            n_dropped")]),
]
HARMLESS = [
    ("reg-any", [(R, "np.min(center - bounds.lower) <= radius", "np.any(center - bounds.lower <= radius)")]),
    ("reg-any2", [(R, "np.min(bounds.upper - center) <= radius", "not np.all(bounds.upper > center + radius)")]),
    ("reg-half", [(R, "    out = (cube_bounds.upper - cube_bounds.lower) * (x + 1) / 2 + cube_bounds.lower\n", "    half = (cube_bounds.upper - cube_bounds.lower) / 2\n    out = cube_bounds.lower + half * x + half\n")]),
    ("vol-direct", [("volume.py", "    out = np.exp(log_radius)\n    return out\n\n\ndef get_radius_of_cube", "    return np.exp(log_radius)\n\n\ndef get_radius_of_cube")]),
    ("reg-max", [(R, "np.clip(lower_bounds, bounds.lower, np.inf)", "np.maximum(lower_bounds, bounds.lower)")]),
    ("reg-shape", [(R, "    return \"cube\" if any_bounds_binding else \"sphere\"", "    shape = \"sphere\"\n    if any_bounds_binding:\n        shape = \"cube\"\n    return shape")]),
    ("bounds-any", [("bounds.py", "    out = False\n    if lb is not None and np.isfinite(lb).any():\n        out = True\n    if ub is not None and np.isfinite(ub).any():\n        out = True\n    return out", "    return any(b is not None and np.isfinite(b).any() for b in (lb, ub))")]),
    ("vol-gamma", [("volume.py", "    radius = ((volume * gamma(dim / 2 + 1)) / (np.pi ** (dim / 2))) ** (1 / dim)", "    radius = (volume * gamma(dim / 2 + 1)) ** (1 / dim) / np.sqrt(np.pi)")]),
    ("pred-einsum", [(MO, "        y += np.sum((x @ model.square_terms) * x, axis=2) / 2", "        y = y + 0.5 * np.einsum(\"si,rij,sj->rs\", x, model.square_terms, x)")]),
    ("pred-sum2", [(MO, "        y += np.sum((x @ model.square_terms) * x, axis=1) / 2", "        y += 0.5 * ((x @ model.square_terms) * x).sum(axis=1)")]),
    ("pred-newaxis", [(MO, "model.intercepts.reshape(-1, 1)", "model.intercepts[:, np.newaxis]")]),
    ("pred-flat", [(MO, "        out = y.flatten()[0]", "        out = y[0]")]),
    ("scale-newaxis", [(MO, "    new_g = model.linear_terms * factor\n", "    new_g = factor * model.linear_terms\n")]),
    ("shift-order", [(MO, "        new_g = new_g + shift @ model.square_terms", "        new_g = new_g + model.square_terms @ shift")]),
    ("move-inline", [(MO, "    # apply new scaling\n    new_scale = new_region.effective_radius\n    out = _scale_model(out, factor=new_scale)\n    return out", "    return _scale_model(out, factor=new_region.effective_radius)")]),
    ("agg-einsum", [(AG, "2 * np.sum(vm_linear_terms * vm_intercepts.reshape(-1, 1), axis=0)", "2 * vm_linear_terms.T @ vm_intercepts")]),
    ("agg-dot", [(AG, "    intercept = vm_intercepts @ vm_intercepts\n", "    intercept = np.dot(vm_intercepts, vm_intercepts)\n")]),
    ("agg-sumsq", [(AG, "    intercept = vm_intercepts @ vm_intercepts\n", "    intercept = (vm_intercepts**2).sum()\n")]),
    ("fit-slices", [(F, "    intercepts, linear_terms, square_terms = np.split(coef, (1, n_params + 1), axis=1)\n    intercepts = intercepts.flatten()\n", "    intercepts = coef[:, 0]\n    linear_terms = coef[:, 1 : n_params + 1]\n    square_terms = coef[:, n_params + 1 :]\n")]),
    ("fit-res-helper", [(F, "        y_clipped = y_clipped - old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n", "        old_predictions = old_model_moved.predict(x_unit)\n        y_clipped = y_clipped - old_predictions.reshape(y.shape)\n")]),
    ("fit-add-replace", [(F, "        results = add_models(results, old_model_moved)\n", "        results = add_models(old_model_moved, results)\n")]),
    ("main-fit-helper", [(M, "                vector_model = fit_model(\n                    *model_data,\n                    region=state.trustregion,\n                    old_model=state.vector_model,\n                    weights=None,\n                )\n\n                scalar_model = aggregate_model(\n                    vector_model=vector_model,\n                )\n\n                sub_sol = solve_subproblem(\n                    model=scalar_model, trustregion=state.trustregion\n                )\n", "                vector_model, scalar_model, sub_sol = _build(model_data, state, fit_model, aggregate_model, solve_subproblem)\n"), (M, "class State(NamedTuple):", "def _build(model_data, state, fit_model, aggregate_model, solve_subproblem):\n    vector_model = fit_model(*model_data, region=state.trustregion, old_model=state.vector_model, weights=None)\n    scalar_model = aggregate_model(vector_model=vector_model)\n    return vector_model, scalar_model, solve_subproblem(model=scalar_model, trustregion=state.trustregion)\n\n\nclass State(NamedTuple):")]),
    ("main-closure", [(M, "    converged, msg = False, None\n    for _", "    def solve(model):\n        return solve_subproblem(model=model, trustregion=state.trustregion)\n\n    converged, msg = False, None\n    for _"), (M, "        sub_sol = solve_subproblem(model=scalar_model, trustregion=state.trustregion)", "        sub_sol = solve(scalar_model)")]),
    ("main-unpack", [(M, "        model_data = history.get_model_data(\n            x_indices=model_indices,\n            average=True,\n        )\n\n        vector_model = fit_model(\n            *model_data,", "        data_x, data_y = history.get_model_data(\n            model_indices,\n            average=True,\n        )\n\n        vector_model = fit_model(\n            data_x,\n            data_y,")]),
    ("main-evalinfo-merge", [(M, "        eval_info = {i: n_evals_per_point for i in new_indices}\n        eval_info.update(additional_eval_info)\n", "        eval_info = {**{i: n_evals_per_point for i in new_indices}, **additional_eval_info}\n")]),
    ("main-evalinfo-loop", [(M, "        eval_info = {i: n_evals_per_point for i in new_indices}\n        eval_info.update(additional_eval_info)\n", "        eval_info = dict(additional_eval_info)\n        for i in new_indices:\n            eval_info[i] = n_evals_per_point\n")]),
    ("main-norm", [(M, "        _relative_step_length = (\n            np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius\n        )\n\n        # =", "        _step = sub_sol.x - state.x\n        _relative_step_length = np.sqrt((_step**2).sum()) / state.trustregion.radius\n\n        # =")]),
    ("main-drop-noif", [(M, "        if len(model_xs) > target_sample_size:\n            while (\n", "        if True:\n            while (\n")]),
    ("main-counter-for", [(M, "            sample_counter += 1\n            if sample_counter >= stagnation_options.max_trials:", "            sample_counter = sample_counter + 1\n            if not sample_counter < stagnation_options.max_trials:")]),
    ("main-isin", [(M, "            new_indices=np.setdiff1d(model_indices, old_indices),\n            old_indices_used=np.intersect1d(model_indices, old_indices),", "            new_indices=model_indices[~np.isin(model_indices, old_indices)],\n            old_indices_used=model_indices[np.isin(model_indices, old_indices)],")]),
    ("main-sets", [(M, "            new_indices=np.setdiff1d(model_indices, old_indices),\n            old_indices_used=np.intersect1d(model_indices, old_indices),", "            new_indices=np.setdiff1d(np.unique(model_indices), old_indices),\n            old_indices_used=np.intersect1d(old_indices, model_indices),")]),
    ("sub-lt", [(SS, "    if expected_improvement >= 0:\n        success = raw_result[\"success\"]\n        x_unit = raw_result[\"x\"]\n        x = trustregion.map_from_unit(raw_result[\"x\"])\n    else:\n        success = False\n        x_unit = old_x_unit\n        x = trustregion.center\n        expected_improvement = 0.0\n", "    success = False\n    x_unit = old_x_unit\n    x = trustregion.center\n    if fval_old >= fval_candidate:\n        success = raw_result[\"success\"]\n        x_unit = raw_result[\"x\"]\n        x = trustregion.map_from_unit(x_unit)\n    else:\n        expected_improvement = 0.0\n")]),
    ("sub-branch", [(SS, "    if trustregion.shape == \"sphere\":\n        solver = sphere_solver\n        fallback_solver = fallback_sphere_solver\n    else:\n        solver = cube_solver\n        fallback_solver = fallback_cube_solver\n", "    is_cube = trustregion.shape == \"cube\"\n    solver = cube_solver if is_cube else sphere_solver\n    fallback_solver = fallback_cube_solver if is_cube else fallback_sphere_solver\n")]),
    ("sub-helper", [(SS, "    expected_improvement = -(fval_candidate - fval_old)\n", "    expected_improvement = _improvement(model, old_x_unit, raw_result[\"x\"])\n"), (SS, "class SubproblemResult(", "def _improvement(model, old, new):\n    return model.predict(old) - model.predict(new)\n\n\nclass SubproblemResult(")]),
    ("sub-retry", [(SS, "        if not retry_with_fallback:\n            raise e\n\n        raw_result = fallback_solver(\n            model=model,\n            x_candidate=old_x_unit,\n        )\n", "        if retry_with_fallback:\n            raw_result = fallback_solver(model=model, x_candidate=old_x_unit)\n        else:\n            raise\n")]),
    ("sub-xcand", [(SS, "    if trustregion.shape == \"cube\":\n        raw_result[\"x\"] = np.clip(raw_result[\"x\"], -1.0, 1.0)\n", "    x_candidate = raw_result[\"x\"]\n    if trustregion.shape == \"cube\":\n        x_candidate = np.clip(x_candidate, -1.0, 1.0)\n    raw_result = {**raw_result, \"x\": x_candidate}\n")]),
    ("shift-copy", [(MO, "    new_g = model.linear_terms\n\n    if model.square_terms is not None:\n        new_g = new_g + shift", "    new_g = model.linear_terms.copy()\n\n    if model.square_terms is not None:\n        new_g += shift")]),
    ("agg-flat", [(AG, "    linear_terms = vector_model.linear_terms.flatten()\n", "    linear_terms = vector_model.linear_terms.copy().reshape(-1)\n    linear_terms += 0\n")]),
    ("ndrop-dec", [(FP, "    n_dropped = 0\n\n    if n_dropped < n_to_drop:\n", "    n_to_drop += 0\n    n_dropped = 0\n\n    if n_dropped < n_to_drop:\n")]),
    ("inf-copy", [(I, "    out = np.nan_to_num(\n        fvecs, nan", "    out = np.nan_to_num(\n        fvecs.copy(), copy=False, nan")]),
    ("rng-helper", [(S, "    raw = rng.normal(size=(n_points, n_params))\n", "    raw = _draw_from_distribution(\"normal\", rng=rng, size=(n_points, n_params))\n")]),
    ("rng-getrng", [(PA, "return np.random.default_rng(seed)", "return get_rng(seed)"), (PA, "import numpy as np\n", "import numpy as np\nfrom tranquilo.utilities import get_rng\n")]),
    ("rng-seq", [(PA, "    sampling_rng = _process_seed(seed)\n    simulation_rng = _process_seed(seed + 1000)\n", "    simulation_rng = _process_seed(1000 + seed)\n    sampling_rng = np.random.default_rng(seed)\n")]),
    ("rng-gen", [(RN, "    noise = rng.multivariate_normal(", "    generator = rng\n    noise = generator.multivariate_normal(")]),
    ("const-table", [(S, "def _draw_from_distribution(distribution, rng, size):", "_DISTRIBUTIONS = [\"normal\", \"uniform\"]\n\n\ndef _draw_from_distribution(distribution, rng, size):"), (S, "    if distribution == \"normal\":\n        draw = rng", "    if distribution == _DISTRIBUTIONS[0]:\n        draw = rng")]),
    ("rad-factor", [(J, "    is_large_step = step_length / radius >= options.large_step\n\n    if rho >= options.rho_increase and is_large_step:\n        new_radius = radius * options.expansion_factor\n    elif rho >= options.rho_decrease or n_evals_is_increased:\n        new_radius = radius\n    else:\n        new_radius = radius * options.shrinking_factor\n", "    is_large_step = step_length / radius >= options.large_step\n    factor = 1\n    if is_large_step and rho >= options.rho_increase:\n        factor = options.expansion_factor\n    elif not (rho >= options.rho_decrease) and not n_evals_is_increased:\n        factor = options.shrinking_factor\n    new_radius = factor * radius\n")]),
    ("rad-clip", [(J, "np.clip(new_radius, options.min_radius, max_radius)", "min(max(new_radius, options.min_radius), max_radius)")]),
    ("rad-fmin", [(J, "np.min(\n            [options.max_radius, step_length * options.max_radius_to_step_ratio]\n        )", "min(\n            options.max_radius, step_length * options.max_radius_to_step_ratio\n        )")]),
    ("nev-return", [(N, "        new_n_evals = max(n_evals - 1, options.min_n_evals)\n", "        out = max(options.min_n_evals, n_evals - 1)\n        return out, n_evals < out\n")]),
    ("nev-mean", [(N, "    if (rho_noise > options.high_rho).mean() > options.min_share_high_rho:", "    share_high = np.mean(rho_noise > options.high_rho)\n    if options.min_share_high_rho < share_high:"), (N, "def adjust_n_evals", "import numpy as np\n\n\ndef adjust_n_evals")]),
    ("nev-helper", [(M, "        if noisy:\n            rho_noise_vec", "        n_evals_is_increased = False\n        if noisy:\n            rho_noise_vec"), (M, "        else:\n            n_evals_is_increased = False\n", "")]),
    ("ret-loop", [(H, "    out = {i: arr[mapper[i]] for i in indices}\n", "    out = {}\n    for i in indices:\n        out[i] = arr[mapper[i]]\n")]),
    ("ret-flat", [(H, "        out = np.arange(len(mask))[mask]\n", "        out = np.flatnonzero(mask)\n")]),
    ("ret-where", [(H, "        out = np.arange(len(mask))[mask]\n", "        out = np.where(mask)[0]\n")]),
    ("ret-mean", [(H, "fvecs = np.array([np.mean(fvec, axis=0) for fvec in raw_fvecs.values()])", "fvecs = np.array([raw_fvecs[i].mean(axis=0) for i in raw_fvecs])")]),
    ("ret-single", [(H, "    out = {i: arr[mapper[i]] for i in indices}\n\n    if is_single:\n        out = out[x_indices[0]]\n", "    if is_single:\n        out = arr[mapper[indices[0]]]\n    else:\n        out = {i: arr[mapper[i]] for i in indices}\n")]),
    ("ret-none", [(H, "        out = out[x_indices] if x_indices is not None else out\n", "        if x_indices is not None:\n            out = out[x_indices]\n")]),
    ("ret-dist", [(H, "        mask = np.linalg.norm(xs - region.center, axis=1) <= region.radius\n", "        distances = np.linalg.norm(xs - region.center, axis=1)\n        mask = ~(distances > region.radius)\n")]),
    ("inf-where", [(I, "    out = np.nan_to_num(\n        fvecs, nan=_pos_penalty, posinf=_pos_penalty, neginf=_neg_penalty\n    )\n", "    out = np.where(_mask, fvecs, _pos_penalty)\n    out = np.where(np.isneginf(fvecs), _neg_penalty, out)\n")]),
    ("inf-minmax", [(I, "    _signs = np.where(_diff < 0, -1, 1)\n    _diff *= _signs\n    _maxs *= _signs\n    _mins *= _signs\n", "    _lower = np.minimum(_mins, _maxs)\n    _upper = np.maximum(_mins, _maxs)\n    _diff = np.abs(_diff)\n    _mins, _maxs = _lower, _upper\n")]),
    ("inf-method", [(I, "np.min(fvecs, axis=0, where=_mask, initial=1e300)", "fvecs.min(axis=0, where=_mask, initial=1e300)")]),
    ("inf-helper", [(I, "    _pos_penalty = _maxs + 2 * _diff + 1\n    _neg_penalty = _mins - 2 * _diff - 1\n", "    _margin = 2 * _diff + 1\n    _pos_penalty = _maxs + _margin\n    _neg_penalty = _mins - _margin\n")]),
    ("fit-order", [(F, "    y_clipped = clip_infinite_values(y)\n    x_unit = region.map_to_unit(x)\n", "    x_unit = region.map_to_unit(x)\n    y_clipped = clip_infinite_values(y)\n")]),
    ("wrap-loop", [(W, "        raw_evals_with_replaced_traceback = [\n            np.full(shape, np.inf) if isinstance(x, str) else x for x in raw_evals\n        ]\n", "        raw_evals_with_replaced_traceback = []\n        for x in raw_evals:\n            if isinstance(x, str):\n                x = np.full(shape, np.inf)\n            raw_evals_with_replaced_traceback.append(x)\n")]),
    ("wrap-helper", [(W, "        clipped_evals = [\n            np.nan_to_num(critval, nan=np.inf, posinf=np.inf, neginf=-np.inf)\n            for critval in raw_evals_with_replaced_traceback\n        ]\n", "        clipped_evals = [_clean(c) for c in raw_evals_with_replaced_traceback]\n"), (W, "def _get_shape_of_evaluation(", "def _clean(critval):\n    return np.nan_to_num(critval, nan=np.inf, posinf=np.inf, neginf=-np.inf)\n\n\ndef _get_shape_of_evaluation(")]),
    ("wrap-one", [(W, "            np.nan_to_num(critval, nan=np.inf, posinf=np.inf, neginf=-np.inf)\n            for critval in raw_evals_with_replaced_traceback", "            np.full(shape, np.inf)\n            if isinstance(critval, str)\n            else np.nan_to_num(critval, nan=np.inf, posinf=np.inf, neginf=-np.inf)\n            for critval in raw_evals")]),
    ("wrap-keys", [(W, "x_indices = list(eval_info)", "x_indices = list(eval_info.keys())"), (W, "if len(eval_info) == 0:", "if not eval_info:")]),
    ("wrap-rep-first", [(W, "        xs = history.get_xs(x_indices)\n        xs = np.repeat(xs, repetitions, axis=0)\n", "        repeated_indices = np.repeat(x_indices, repetitions)\n        xs = history.get_xs(repeated_indices)\n"), (W, "x_indices=np.repeat(x_indices, repetitions),", "x_indices=repeated_indices,")]),
    ("wrap-cores", [(W, "effective_n_cores = min(n_cores, len(arguments))", "effective_n_cores = n_cores if n_cores < len(arguments) else len(arguments)")]),
    ("wrap-zip", [(W, "        x_indices = list(eval_info)\n        repetitions = list(eval_info.values())\n", "        x_indices = []\n        repetitions = []\n        for x_index, n_evals in eval_info.items():\n            x_indices.append(x_index)\n            repetitions.append(n_evals)\n")]),
    ("wrap-flat", [(W, "        xs = history.get_xs(x_indices)\n        xs = np.repeat(xs, repetitions, axis=0)\n", "        todo = [i for i, n in eval_info.items() for _ in range(n)]\n        xs = history.get_xs(todo)\n"), (W, "x_indices=np.repeat(x_indices, repetitions),", "x_indices=todo,")]),
    ("wrap-guard", [(W, "        if len(eval_info) == 0:\n            return\n\n        x_indices", "        if len(eval_info) != 0:\n            run_batch(eval_info)\n\n    def run_batch(eval_info):\n        x_indices")]),
    ("states-concat", [(M, "        states.append(state)\n", "        states = [*states, state]\n")]),
    ("states-plus", [(M, "        states.append(state)\n", "        states += [state]\n")]),
    ("old-state-var", [(M, "        states.append(state)\n", "        previous_state = states[-1]\n        states.append(state)\n"), (M, "_is_converged(states=states, options=conv_options)", "_is_converged(states=[previous_state, states[-1]], options=conv_options)")]),
    ("old-state-var2", [(M, "        states.append(state)\n", "        old_new = (states[-1], state)\n        states.append(state)\n"), (M, "_is_converged(states=states, options=conv_options)", "_is_converged(states=old_new, options=conv_options)"), (M, "    old, new = states[-2:]", "    old, new = states")]),
    ("main-helper", [(M, "        state = state._replace(\n            model_indices=model_indices,\n            model=scalar_model,\n            new_indices=np.setdiff1d(model_indices, old_indices),\n            old_indices_used=np.intersect1d(model_indices, old_indices),\n            old_indices_discarded=np.setdiff1d(old_indices, model_indices),\n            **acceptance_result._asdict(),\n            n_evals_per_point=n_evals_per_point,\n        )\n", "        state = _update(state, model_indices, scalar_model, old_indices, acceptance_result, n_evals_per_point)\n"), (M, "class State(NamedTuple):", "def _update(state, model_indices, scalar_model, old_indices, acc, n_evals_per_point):\n    new = state._replace(\n        model_indices=model_indices,\n        model=scalar_model,\n        new_indices=np.setdiff1d(model_indices, old_indices),\n        old_indices_used=np.intersect1d(model_indices, old_indices),\n        old_indices_discarded=np.setdiff1d(old_indices, model_indices),\n    )\n    new = new._replace(**acc._asdict())\n    return new._replace(n_evals_per_point=n_evals_per_point)\n\n\nclass State(NamedTuple):")]),
    ("hist-fromkeys", [(H, "        for x_index in x_indices:\n            self.index_mapper[x_index] = []", "        self.index_mapper.update({i: [] for i in x_indices})")]),
    ("hist-helper", [(H, "        f_indices = np.arange(self.n_fun, self.n_fun + n_new_points)\n\n        for x_index, f_index in zip(x_indices, f_indices):\n            self.index_mapper[x_index].append(f_index)\n", "        self._file(x_indices)\n"), (H, "    def get_xs(self, x_indices=None):", "    def _file(self, x_indices):\n        for pos, x_index in enumerate(x_indices):\n            self.index_mapper[x_index].append(self.n_fun + pos)\n\n    def get_xs(self, x_indices=None):")]),
    ("hist-needed", [(H, "    if len(arr) - position - n_new_points < 0:", "    needed = position + n_new_points\n    if needed > len(arr):")]),
    ("hist-concat", [(H, "arr = np.vstack([arr, np.full(extension_shape, np.nan)])", "arr = np.concatenate([arr, np.full(extension_shape, np.nan)], axis=0)")]),
    ("hist-check", [(H, "        if not ((x_indices >= 0) & (x_indices < self.n_xs)).all():", "        if np.any((x_indices < 0) | (x_indices >= self.n_xs)):")]),
    ("hist-end", [(H, "    arr[position : position + n_new_points] = new\n", "    end = position + n_new_points\n    arr[position:end] = new\n")]),
    ("hist-agg-def", [(H, "self.aggregate = lambda x: (x**2).sum(axis=-1)", "self.aggregate = _sum_of_squares"), (H, "def _add_entries_to_array(", "def _sum_of_squares(x):\n    return np.sum(np.square(x), axis=-1)\n\n\ndef _add_entries_to_array(")]),
    ("loop-while", [(M, "    for _ in range(stop_options.max_iter):\n        # ====", "    n_done = 0\n    while n_done < stop_options.max_iter:\n        n_done += 1\n        # ====")]),
    ("loop-budget-var", [(M, "        if history.get_n_fun() >= stop_options.max_eval:", "        budget_used_up = not history.get_n_fun() < stop_options.max_eval\n        if budget_used_up:")]),
    ("loop-conv-nest", [(M, "        if acceptance_result.accepted and not conv_options.disable:\n            converged, msg", "        check = not conv_options.disable and state.accepted\n        if check:\n            converged, msg")]),
    ("conv-pass-pair", [(M, "_is_converged(states=states, options=conv_options)", "_is_converged(pair=(states[-2], states[-1]), options=conv_options)"), (M, "def _is_converged(states, options):\n    old, new = states[-2:]", "def _is_converged(pair, options):\n    old, new = pair")]),
    ("conv-early", [(M, "    converged = True\n    if g_norm_rel <= options.gtol_rel:\n        msg = \"Relative gradient norm smaller than tolerance.\"\n    elif g", "    converged = True\n    if g_norm_rel <= options.gtol_rel:\n        return True, \"Relative gradient norm smaller than tolerance.\"\n    if g")]),
    ("conv-max", [(M, "np.clip(np.abs(old.x), 1, np.inf)", "np.maximum(1, np.abs(old.x))")]),
    ("rename", [(A, "    is_accepted = actual_improvement >= min_improvement\n", "    ok_ = not (actual_improvement < min_improvement)\n    is_accepted = ok_\n")]),
    ("early-return", [(A, "    x = candidate_x if is_accepted else old_state.x\n    fval = candidate_fval if is_accepted else old_state.fval\n    index = candidate_index if is_accepted else old_state.index\n", "    if is_accepted:\n        x, fval, index = candidate_x, candidate_fval, candidate_index\n    else:\n        x, fval, index = old_state.x, old_state.fval, old_state.index\n")]),
    ("rho-return", [(A, "    if expected_improvement == 0 and actual_improvement > 0:\n        rho = np.inf\n    elif expected_improvement == 0:\n        rho = -np.inf\n    else:\n        rho = actual_improvement / expected_improvement\n    return rho", "    if expected_improvement != 0:\n        return actual_improvement / expected_improvement\n    if actual_improvement > 0:\n        return np.inf\n    return -np.inf")]),
    ("improvement-flip", [(A, "actual_improvement = -(candidate_fval - state.fval)", "actual_improvement = state.fval - candidate_fval")]),
    ("argmin-min", [(A, "    new_fvals = pd.Series({i: np.mean(fvals) for i, fvals in new_fvals.items()})\n    new_fval_argmin = new_fvals.idxmin()\n\n    found_better_candidate = new_fvals.loc[new_fval_argmin] < candidate_fval\n\n    # If a better point was found, update the candidates\n    if found_better_candidate:\n        candidate_x = history.get_xs(new_fval_argmin)\n        candidate_fval = new_fvals.loc[new_fval_argmin]\n", "    means = {i: np.mean(fvals) for i, fvals in new_fvals.items()}\n    new_fval_argmin = min(means, key=means.get)\n\n    found_better_candidate = means[new_fval_argmin] < candidate_fval\n\n    # If a better point was found, update the candidates\n    if found_better_candidate:\n        candidate_x = history.get_xs(new_fval_argmin)\n        candidate_fval = means[new_fval_argmin]\n")]),
    ("argmin-loop", [(A, "    new_fvals = pd.Series({i: np.mean(fvals) for i, fvals in new_fvals.items()})\n", "    means = {}\n    for i, fvals in new_fvals.items():\n        means[i] = np.mean(fvals)\n    new_fvals = pd.Series(means)\n")]),
    ("minmax-clip", [(R, "            out = np.clip(out, cube_bounds.lower, cube_bounds.upper)\n", "            out = np.minimum(np.maximum(out, cube_bounds.lower), cube_bounds.upper)\n")]),
    ("region-helper", [(R, "        if self.shape == \"sphere\":\n            out = _map_from_unit_sphere(x, center=self.center, radius=self.radius)\n", "        if self.shape != \"cube\":\n            out = _map_from_unit_sphere(x, radius=self.radius, center=self.center)\n")]),
    ("eval-info-comp", [(A, "    for idx in new_indices:\n        eval_info[idx] = 1\n", "    eval_info.update({idx: 1 for idx in new_indices})\n")]),
    ("candidate-helper", [(A, "    candidate_x = subproblem_solution.x\n\n    candidate_index = history.add_xs(candidate_x)\n\n    wrapped_criterion({candidate_index: n_evals})\n\n    candidate_fval = np.mean(history.get_fvals(candidate_index))\n", "    candidate_x = subproblem_solution.x\n    candidate_index, candidate_fval = _eval(history, wrapped_criterion, candidate_x, n_evals)\n"), (A, "def accept_noisy(", "def _eval(history, wrapped_criterion, x, n):\n    i = history.add_xs(x)\n    wrapped_criterion({i: n})\n    return i, np.mean(history.get_fvals(i))\n\n\ndef accept_noisy(")]),
    ("drop-recompute", [(FP, "            dists = np.delete(dists, drop_index, axis=0)\n            n_dropped += 1\n\n    if", "            dists = np.linalg.norm(xs - state.x, axis=1)\n            n_dropped += 1\n\n    if")]),
    ("drop-max", [(FP, "(dists > state.trustregion.radius).any()", "dists.max() > state.trustregion.radius")]),
    ("drop-norm", [(FP, "dists = np.linalg.norm(xs - state.x, axis=1)", "dists = np.sqrt(((xs - state.x) ** 2).sum(axis=1))")]),
    ("drop-noguards", [(FP, "    if n_dropped < n_to_drop:\n        dists = np.linalg.norm(xs - state.x, axis=1)\n\n        while n_dropped < n_to_drop and (dists > state.trustregion.radius).any():\n            drop_index = np.argmax(dists)\n            xs = np.delete(xs, drop_index, axis=0)\n            indices = np.delete(indices, drop_index)\n            dists = np.delete(dists, drop_index, axis=0)\n            n_dropped += 1\n", "    dists = np.linalg.norm(xs - state.x, axis=1)\n\n    while n_dropped < n_to_drop and (dists > state.trustregion.radius).any():\n        drop_index = np.argmax(dists)\n        xs = np.delete(xs, drop_index, axis=0)\n        indices = np.delete(indices, drop_index)\n        dists = np.delete(dists, drop_index, axis=0)\n        n_dropped += 1\n")]),
    ("drop-helper", [(FP, "            xs = np.delete(xs, drop_index, axis=0)\n            indices = np.delete(indices, drop_index)\n            dists = np.delete(dists, drop_index, axis=0)\n            n_dropped += 1\n\n    if", "            xs, indices, dists = _without(drop_index, xs, indices, dists)\n            n_dropped += 1\n\n    if"), (FP, "def keep_cluster_centers(", "def _without(position, *arrays):\n    return tuple(np.delete(a, position, axis=0) for a in arrays)\n\n\ndef keep_cluster_centers(")]),
    ("drop-order", [(FP, "            indices = np.delete(indices, drop_index)\n            dists = np.delete(dists, drop_index, axis=0)\n            pdists = np.delete(pdists, drop_index, axis=0)\n            pdists = np.delete(pdists, drop_index, axis=1)\n", "            pdists = np.delete(np.delete(pdists, drop_index, axis=1), drop_index, axis=0)\n            dists = np.delete(dists, drop_index)\n            indices = np.delete(indices, drop_index, axis=0)\n")]),
    ("drop-remaining", [(FP, "    n_dropped = 0\n\n", "    n_remaining = n_to_drop\n\n"), (FP, "    if n_dropped < n_to_drop:\n        dists", "    if n_remaining > 0:\n        dists"), (FP, "while n_dropped < n_to_drop and", "while n_remaining > 0 and"), (FP, "            n_dropped += 1\n\n    if n_dropped < n_to_drop:", "            n_remaining -= 1\n\n    if n_remaining > 0:"), (FP, "        while n_dropped < n_to_drop:\n", "        while n_remaining > 0:\n"), (FP, "            n_dropped += 1\n\n    return", "            n_remaining -= 1\n\n    return")]),
    ("drop-for", [(FP, "        while n_dropped < n_to_drop:\n            i, j", "        for _ in range(n_to_drop - n_dropped):\n            i, j"), (FP, "            n_dropped += 1\n\n    return", "\n    return")]),
    ("drop-incumbent-order", [(FP, "            if indices[i] == state.index:\n                drop_index = j\n            elif indices[j] == state.index:\n                drop_index = i\n", "            if state.index == indices[j]:\n                drop_index = i\n            elif state.index == indices[i]:\n                drop_index = j\n")]),
    ("drop-pair-helper", [(FP, "            if indices[i] == state.index:\n                drop_index = j\n            elif indices[j] == state.index:\n                drop_index = i\n            else:\n                drop_index = i if dists[i] < dists[j] else j\n", "            drop_index = _worse_of_pair(i, j, indices, dists, state.index)\n"), (FP, "def keep_cluster_centers(", "def _worse_of_pair(i, j, indices, dists, center):\n    if indices[i] == center:\n        return j\n    if indices[j] == center:\n        return i\n    if dists[j] > dists[i]:\n        return i\n    return j\n\n\ndef keep_cluster_centers(")]),
    ("excess-early", [(FP, "    if n_to_drop:\n        xs, indices = drop_worst_points(xs, indices, state, n_to_drop)\n\n    return xs, indices", "    if n_to_drop == 0:\n        return xs, indices\n\n    return drop_worst_points(xs, indices, state, n_to_drop)")]),
    ("excess-nomax", [(FP, "    n_to_drop = max(0, len(xs) - filter_target_size)\n\n    if n_to_drop:\n", "    n_to_drop = xs.shape[0] - filter_target_size\n\n    if n_to_drop > 0:\n")]),
    ("excess-floor", [(FP, "int(np.floor(target_size * n_max_factor))", "math.floor(n_max_factor * target_size)"), (FP, "import numpy as np\n", "import math\n\nimport numpy as np\n")]),
    ("discard-2d", [(FP, "state.x.reshape(1, -1), np.array([state.index])", "state.x[np.newaxis, :], np.array([state.index])")]),
    ("drop-one-loop", [(FP, "    if n_dropped < n_to_drop:\n        pdists = scipy.spatial.distance.squareform(scipy.spatial.distance.pdist(xs))\n        pdists[np.diag_indices_from(pdists)] = np.inf\n", "    if n_to_drop > n_dropped:\n        condensed = scipy.spatial.distance.pdist(xs)\n        pdists = scipy.spatial.distance.squareform(condensed)\n        np.fill_diagonal(pdists, np.inf)\n")]),
    ("drop-break", [(FP, "        while n_dropped < n_to_drop and (dists > state.trustregion.radius).any():\n            drop_index = np.argmax(dists)\n", "        while n_dropped < n_to_drop:\n            if not (dists > state.trustregion.radius).any():\n                break\n            drop_index = np.argmax(dists)\n")]),
    ("pts-inline-multiple", [(M, "        n_new_points = next_multiple(n_new_points, base=batch_size)\n", "        n_new_points = -(-n_new_points // batch_size) * batch_size\n")]),
    ("pts-multiple-int", [("process_arguments.py", "    return int(np.ceil(n / base) * base)", "    n_batches = int(np.ceil(n / base))\n    return n_batches * base")]),
    ("pts-noif", [(M, "        if len(model_xs) > target_sample_size:\n            while (", "        if True:\n            while (")]),
    ("pts-step-helper", [(M, "        _relative_step_length = (\n            np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius\n        )\n", "        _relative_step_length = _relative_step(sub_sol.x, state)\n"), (M, "            _relative_step_length = (\n                np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius\n            )\n\n            sample_counter", "            _relative_step_length = _relative_step(sub_sol.x, state)\n\n            sample_counter"), (M, "def _get_additional_eval_info(", "def _relative_step(x, state):\n    step = x - state.x\n    return np.linalg.norm(step) / state.trustregion.radius\n\n\ndef _get_additional_eval_info(")]),
    ("pts-trials-left", [(M, "        sample_counter = 0\n", "        trials_done = 0\n"), (M, "            sample_counter += 1\n            if sample_counter >= stagnation_options.max_trials:\n                break\n", "            trials_done = trials_done + 1\n            if not trials_done < stagnation_options.max_trials:\n                break\n")]),
    ("pts-drop-nest", [(M, "            if stagnation_options.drop and len(model_xs) > n_to_drop:\n                model_xs, model_indices = drop_worst_points(\n                    xs=model_xs,\n                    indices=model_indices,\n                    state=state,\n                    n_to_drop=n_to_drop,\n                )\n", "            if stagnation_options.drop:\n                if n_to_drop < len(model_indices):\n                    model_xs, model_indices = drop_worst_points(\n                        xs=model_xs,\n                        indices=model_indices,\n                        state=state,\n                        n_to_drop=n_to_drop,\n                    )\n")]),
    ("pts-while-true", [(M, "        while _relative_step_length < stagnation_options.min_relative_step:\n            n_to_drop", "        while True:\n            if _relative_step_length >= stagnation_options.min_relative_step:\n                break\n            n_to_drop")]),
    ("pts-fit-helper", [(M, "            sub_sol = solve_subproblem(\n                model=scalar_model, trustregion=state.trustregion\n            )\n\n            _relative_step_length = (\n                np.linalg.norm(sub_sol.x - state.x) / state.trustregion.radius\n            )\n\n            sample_counter", "            region = state.trustregion\n            sub_sol = solve_subproblem(model=scalar_model, trustregion=region)\n\n            step = sub_sol.x - state.x\n            _relative_step_length = np.linalg.norm(step) / region.radius\n\n            sample_counter")]),
    ("pts-need-if", [(M, "        n_new_points = max(0, target_sample_size - len(model_xs))\n", "        n_missing = target_sample_size - len(model_xs)\n        n_new_points = n_missing if n_missing > 0 else 0\n")]),
    ("main-fit-helper", [(M, '        vector_model = fit_model(\n            *model_data,\n            region=state.trustregion,\n            old_model=state.vector_model,\n            weights=None,\n        )\n\n        scalar_model = aggregate_model(\n            vector_model=vector_model,\n        )\n\n        sub_sol = solve_subproblem(model=scalar_model, trustregion=state.trustregion)\n', '        vector_model, scalar_model, sub_sol = _fit_and_solve(\n            model_data, state, fit_model, aggregate_model, solve_subproblem\n        )\n'), (M, '                vector_model = fit_model(\n                    *model_data,\n                    region=state.trustregion,\n                    old_model=state.vector_model,\n                    weights=None,\n                )\n\n                scalar_model = aggregate_model(\n                    vector_model=vector_model,\n                )\n\n                sub_sol = solve_subproblem(\n                    model=scalar_model, trustregion=state.trustregion\n                )\n', '                vector_model, scalar_model, sub_sol = _fit_and_solve(\n                    model_data, state, fit_model, aggregate_model, solve_subproblem\n                )\n'), (M, '            vector_model = fit_model(\n                *model_data,\n                region=state.trustregion,\n                old_model=state.vector_model,\n                weights=None,\n            )\n\n            scalar_model = aggregate_model(\n                vector_model=vector_model,\n            )\n\n            sub_sol = solve_subproblem(\n                model=scalar_model, trustregion=state.trustregion\n            )\n', '            vector_model, scalar_model, sub_sol = _fit_and_solve(\n                model_data, state, fit_model, aggregate_model, solve_subproblem\n            )\n'), (M, 'def _get_additional_eval_info(', 'def _fit_and_solve(model_data, state, fit_model, aggregate_model, solve_subproblem):\n    vector_model = fit_model(\n        *model_data,\n        region=state.trustregion,\n        old_model=state.vector_model,\n        weights=None,\n    )\n    scalar_model = aggregate_model(vector_model=vector_model)\n    sub_sol = solve_subproblem(model=scalar_model, trustregion=state.trustregion)\n    return vector_model, scalar_model, sub_sol\n\n\ndef _get_additional_eval_info(')]),
    ("proj-max", [(S, '    order = 2 if trustregion_shape == "sphere" else np.inf\n    norm = np.linalg.norm(x, axis=1, ord=order).reshape(-1, 1)\n    projected = x / norm\n', '    if trustregion_shape == "sphere":\n        norm = np.sqrt((x**2).sum(axis=1))\n    else:\n        norm = np.abs(x).max(axis=1)\n    projected = x / norm[:, np.newaxis]\n')]),
    ("opt-early", [(S, "    if start_fekete >= end_fekete:\n        opt_params = x0\n", "    improved = end_fekete > start_fekete\n    opt_params = opt_params if improved else x0\n")]),
    ("opt-lambda", [(S, "            switch_sign(func_dict[criterion]),", "            lambda x: -func_dict[criterion](x),")]),
    ("opt-vstack", [(S, "        sample = np.row_stack([x, existing_xs])\n        n_existing_pairs", "        sample = np.concatenate([x, existing_xs], axis=0)\n        n_existing_pairs")]),
    ("opt-funcs", [(S, '    start_fekete = func_dict["determinant"](x0)\n    end_fekete = func_dict["determinant"](opt_params)\n', '    fekete = func_dict["determinant"]\n    end_fekete = fekete(opt_params)\n    start_fekete = fekete(x0)\n')]),
    ("opt-pairs", [(S, "        n_existing_pairs = len(existing_xs) * (len(existing_xs) - 1) // 2\n", "        n_existing = existing_xs.shape[0]\n        n_existing_pairs = n_existing * (n_existing - 1) // 2\n")]),
    ("opt-slice", [(S, "        slc = slice(0, -n_existing_pairs) if n_existing_pairs else slice(None)\n", "        slc = slice(-n_existing_pairs) if n_existing_pairs > 0 else slice(None)\n")]),
    ("opt-proj-once", [(S, "    candidates = [\n        _project_onto_unit_hull(_x, trustregion_shape=trustregion.shape)\n        for _x in candidates\n    ]\n", "    project = partial(_project_onto_unit_hull, trustregion_shape=trustregion.shape)\n    candidates = list(map(project, candidates))\n")]),
    ("opt-existing-helper", [(S, '    if existing_xs is not None:\n        # map existing points into unit space for easier optimization\n\n        existing_xs_unit = trustregion.map_to_unit(existing_xs)\n\n        if criterion == "distance":\n            dist_to_center = np.linalg.norm(existing_xs_unit, axis=1)\n            not_centric = dist_to_center >= 0.1\n            if not_centric.any():\n                existing_xs_unit = existing_xs_unit[not_centric]\n            else:\n                existing_xs_unit = None\n\n    else:\n        existing_xs_unit = None\n', '    existing_xs_unit = _existing_in_unit_space(existing_xs, trustregion, criterion)\n'), (S, 'def _minimal_pairwise', 'def _existing_in_unit_space(existing_xs, trustregion, criterion):\n    if existing_xs is None:\n        return None\n    out = trustregion.map_to_unit(existing_xs)\n    if criterion != "distance":\n        return out\n    keep = np.linalg.norm(out, axis=1) >= 0.1\n    if not keep.any():\n        return None\n    return out[keep]\n\n\ndef _minimal_pairwise')]),
    ("ball-direction", [(S, "    points = raw * scale.reshape(-1, 1)\n", "    points = scale[:, None] * raw\n")]),
    ("gc_loop",[("get_component.py","    _valid_options = {k: v for k, v in _options.items() if k in signature}\n","    _valid_options = {}\n    for name_, value_ in _options.items():\n        if name_ in signature:\n            _valid_options[name_] = value_\n")]),
    ("gc_merge",[("get_component.py","        _kwargs = {**dict(zip(signature[: len(args)], args)), **kwargs}\n","        _kwargs = dict(zip(signature, args))\n        _kwargs.update(kwargs)\n")]),
    ("gc_anymissing",[("get_component.py","    _missing = [arg for arg in mandatory_arguments if arg not in signature]\n","    _missing = sorted(set(mandatory_arguments) - set(signature))\n")]),
    ("uob_loop",[("options.py","    typed = {}\n    for k, v in user_options.items():\n        default_option = getattr(default_options, k)\n        target_type = type(default_option)\n        if isinstance(v, target_type) or default_option is None:\n            typed[k] = v\n        else:\n            typed[k] = target_type(v)\n","    def _convert(k, v):\n        default_option = getattr(default_options, k)\n        if default_option is None:\n            return v\n        target_type = type(default_option)\n        return v if isinstance(v, target_type) else target_type(v)\n\n    typed = {k: _convert(k, v) for k, v in user_options.items()}\n")]),
    ("pa_ssize",[("options.py","        if noisy or batch_size > 1:\n            out = len(x) + 1\n        else:\n            out = len(x) + 2\n","        out = len(x) + 2\n        if noisy or batch_size > 1:\n            out -= 1\n")]),
    ("uob_asdict",[("options.py","    invalid_fields = set(user_options) - set(default_options._fields)\n","    invalid_fields = {k for k in user_options if k not in default_options._fields}\n")]),
    ("ih_get",[("handle_infinity.py","        built_in_handlers = {\"relative\": clip_relative}\n        infinity_handler = built_in_handlers[infinity_handler]\n","        handlers = {\"relative\": clip_relative}\n        infinity_handler = handlers[infinity_handler]\n")]),
    ("n_split",[("acceptance_sample_size.py","    n1 = int(np.ceil(np.clip(n1_raw, 0, max(0, n_max - existing_n1))))\n","    room = max(n_max - existing_n1, 0)\n    n1 = int(np.ceil(min(max(n1_raw, 0), room)))\n")]),
    ("n_common",[("acceptance_sample_size.py","    n1_optimal = (sd_1 * (sd_2 + sd_1)) * factor\n    n2_optimal = (sd_2 * (sd_2 + sd_1)) * factor\n","    total = (sd_1 + sd_2) * factor\n    n1_optimal = sd_1 * total\n    n2_optimal = sd_2 * total\n")]),
    ("n_flip",[("acceptance_sample_size.py","    if existing_n1 <= n1_optimal:\n        n1 = n1_optimal - existing_n1\n        n2 = n2_optimal\n    else:\n        n1 = 0\n        n2 = sd_2**2 * (factor ** (-1) - sd_1**2 / existing_n1) ** (-1)\n","    if n1_optimal < existing_n1:\n        n1 = 0\n        n2 = sd_2**2 / (1 / factor - sd_1**2 / existing_n1)\n    else:\n        n1 = n1_optimal - existing_n1\n        n2 = n2_optimal\n")]),
    ("v_sumgen",[("estimate_variance.py","        out = 0.0\n        for weight, sample in zip(weights, samples):\n            out += weight * np.var(sample, ddof=1)\n","        out = sum(\n            weight * np.var(sample, ddof=1)\n            for weight, sample in zip(weights, samples)\n        )\n")]),
    ("v_avg",[("estimate_variance.py","        out = 0.0\n        for weight, sample in zip(weights, samples):\n            out += weight * np.var(sample, ddof=1)\n","        variances = [np.var(sample, ddof=1) for sample in samples]\n        out = np.average(variances, weights=weights)\n")]),
    ("v_dot",[("estimate_variance.py","        out = 0.0\n        for weight, sample in zip(weights, samples):\n            out += weight * np.var(sample, ddof=1)\n","        variances = np.array([np.var(sample, ddof=1) for sample in samples])\n        out = weights @ variances\n")]),
    ("v_w2",[("estimate_variance.py","    weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])\n","    weights = np.array([n_evals[idx] for idx in valid_indices])\n")]),
    ("s_comp",[("rho_noise.py","    rhos = []\n    for draw in noise:\n","    rhos = np.full(n_draws, np.nan)\n    for k, draw in enumerate(noise):\n"),("rho_noise.py","        rhos.append(sim_rho)\n\n    return np.array(rhos)","        rhos[k] = sim_rho\n\n    return rhos")]),
    ("s_func",[("rho_noise.py","    rhos = []\n    for draw in noise:\n","    def _one(draw):\n"),("rho_noise.py","        rhos.append(sim_rho)\n\n    return np.array(rhos)","        return sim_rho\n\n    return np.array([_one(draw) for draw in noise])")]),
    ("s_range",[("rho_noise.py","    for draw in noise:\n        sim_fvecs = true_fvecs + draw\n","    for k in range(n_draws):\n        sim_fvecs = true_fvecs + noise[k]\n")]),
    ("w_order",[(M,"            noise_variance = estimate_variance(\n                trustregion=state.trustregion,\n                history=history,\n                model_type=\"scalar\",\n            )\n            noise_cov = estimate_variance(\n                trustregion=state.trustregion,\n                history=history,\n                model_type=\"vector\",\n            )\n","            noise_variance, noise_cov = (\n                estimate_variance(\n                    trustregion=state.trustregion,\n                    history=history,\n                    model_type=kind,\n                )\n                for kind in (\"scalar\", \"vector\")\n            )\n")]),
    ("acc_inline",[(A,"    eval_info = {\n        state.index: n_1,\n        candidate_index: n_2,\n    }\n\n    wrapped_criterion(eval_info)","    wrapped_criterion(dict(zip([state.index, candidate_index], [n_1, n_2])))")]),
    ("b_len",[(A,"    n_evals_line_search = 0 if line_search_xs is None else len(line_search_xs)\n","    n_evals_line_search = len(alpha_grid) if perform_line_search else 0\n")]),
    ("b_shape0",[(A,"    n_evals_line_search = 0 if line_search_xs is None else len(line_search_xs)\n","    n_evals_line_search = 0 if line_search_xs is None else line_search_xs.shape[0]\n")]),
    ("b_ge",[(A,"    if n_unallocated_evals > 0:","    if n_unallocated_evals >= 1:")]),
    ("b_grid",[(A,"    n_points = min(batch_size, 4) - 1\n    return 2 ** np.arange(1, n_points + 1, dtype=float)","    n_points = min(batch_size - 1, 3)\n    return 2.0 ** (1 + np.arange(n_points))")]),
    ("b_newaxis",[(A,"alpha_grid.reshape(-1, 1) * (direction_point - start_point)","alpha_grid[:, np.newaxis] * (direction_point - start_point)")]),
    ("b_line2",[(A,"    xs = start_point + alpha_grid.reshape(-1, 1) * (direction_point - start_point)\n    return xs","    direction = direction_point - start_point\n    alphas = alpha_grid.reshape(-1, 1)\n    return alphas * direction + start_point")]),
    ("b_outer",[(A,"    xs = start_point + alpha_grid.reshape(-1, 1) * (direction_point - start_point)\n    return xs","    return start_point + np.outer(alpha_grid, direction_point - start_point)")]),
    ("b_stack",[(A,"    if line_search_xs is not None and speculative_xs is not None:\n        new_xs = np.vstack([line_search_xs, speculative_xs])\n    elif line_search_xs is not None:\n        new_xs = line_search_xs\n    elif speculative_xs is not None:\n        new_xs = speculative_xs\n","    parts = [xs for xs in (line_search_xs, speculative_xs) if xs is not None]\n    new_xs = np.vstack(parts)\n")]),
    ("b_info",[(A,"    for idx in new_indices:\n        eval_info[idx] = 1\n","    eval_info = {**eval_info, **{idx: 1 for idx in new_indices}}\n")]),
    ("b_isclose",[(A,"    return np.isclose(x_center_dist, trustregion.radius, rtol=rtol)","    gap = np.abs(x_center_dist - trustregion.radius)\n    return gap <= 1e-8 + rtol * trustregion.radius")]),
    ("b_norm",[(A,"    x_center_dist = np.linalg.norm(x - trustregion.center, ord=2)\n    return np.isclose","    x_center_dist = np.sqrt(((x - trustregion.center) ** 2).sum())\n    return np.isclose")]),
    ("b_any",[(A,"    return is_on_lower_border or is_on_upper_border","    return bool(np.any([is_on_lower_border, is_on_upper_border]))")]),
    ("b_conc",[(A,"model_xs = np.row_stack([old_xs, line_search_xs])","model_xs = np.concatenate([old_xs, line_search_xs], axis=0)")]),
    ("fits-slices", [(F, "    intercepts, linear_terms, square_terms = np.split(coef, (1, n_params + 1), axis=1)\n    intercepts = intercepts.flatten()\n", "    intercepts = coef[:, 0]\n    linear_terms = coef[:, 1 : n_params + 1]\n    square_terms = coef[:, n_params + 1 :]\n")]),
    ("fits-hess-loop", [(F, "    hess = hess + np.triu(hess).transpose(0, 2, 1)\n\n    return hess", "    hess = hess + np.swapaxes(hess, 1, 2)\n\n    return hess")]),
    ("fits-hess-half", [(F, "    hess[:, idx1, idx2] = square_terms\n    hess = hess + np.triu(hess).transpose(0, 2, 1)\n", "    hess[:, idx1, idx2] += square_terms\n    hess[:, idx2, idx1] += square_terms\n")]),
    ("fits-factor-arr", [(F, "    factor = np.array(\n        [1 / p_intercept]\n        + [1 / p_linear] * n_params\n        + [1 / p_square] * (n_features - 1 - n_params)\n    )\n", "    factor = np.ones(n_features)\n    factor[0] = 1 / p_intercept\n    factor[1 : n_params + 1] = 1 / p_linear\n    factor[n_params + 1 :] = 1 / p_square\n")]),
    ("fits-factor-full", [(F, "    factor = np.array(\n        [1 / p_intercept]\n        + [1 / p_linear] * n_params\n        + [1 / p_square] * (n_features - 1 - n_params)\n    )\n", "    n_square = n_features - 1 - n_params\n    factor = 1 / np.concatenate([[p_intercept], np.full(n_params, p_linear), np.full(n_square, p_square)])\n")]),
    ("fits-factor-repeat", [(F, "    factor = np.array(\n        [1 / p_intercept]\n        + [1 / p_linear] * n_params\n        + [1 / p_square] * (n_features - 1 - n_params)\n    )\n", "    factor = np.repeat([1 / p_intercept, 1 / p_linear, 1 / p_square], [1, n_params, n_features - 1 - n_params])\n")]),
    ("fits-penalty-concat", [(F, "    penalty = np.zeros(features.shape[1])\n    penalty[: cutoffs[0]] = 0\n    penalty[cutoffs[0] : cutoffs[1]] = l2_penalty_linear\n    penalty[cutoffs[1] :] = l2_penalty_square\n", "    penalty = np.full(features.shape[1], l2_penalty_square)\n    penalty[: cutoffs[1]] = l2_penalty_linear\n    penalty[0] = 0\n")]),
    ("fits-penalty-short", [(F, "    penalty[: cutoffs[0]] = 0\n", "")]),
    ("fits-ridge-dot", [(F, "    a = x.T @ x\n    b = x.T @ y\n\n    coef, *_ = np.linalg.lstsq(a + np.diag(penalty), b, rcond=None)\n    coef = coef.T\n", "    a = np.dot(x.T, x) + np.diag(penalty)\n    coef = np.linalg.lstsq(a, np.dot(x.T, y), rcond=None)[0].T\n")]),
    ("fits-hstack", [(F, "    features = np.concatenate((intercept, raw), axis=1)\n    return features", "    return np.hstack((intercept, raw))")]),
    ("fits-colstack", [(F, "    intercept = np.ones((len(x), 1))\n    features = np.concatenate((intercept, raw), axis=1)\n    return features", "    return np.column_stack([np.ones(len(x)), raw])")]),
    ("fits-pairs-inline", [(F, "        j_start = i\n        for j in range(j_start, n_params):\n            poly_terms[idx] = xt[i] * xt[j]\n", "        for j in range(i, n_params):\n            poly_terms[idx] = xt[j] * xt[i]\n")]),
    ("fits-pairs-cols", [(F, "    poly_terms = np.empty((n_poly_terms, n_samples), np.float64)\n    xt = x.T\n", "    poly_terms = np.empty((n_samples, n_poly_terms), np.float64)\n"), (F, "            poly_terms[idx] = xt[i] * xt[j]\n            idx += 1\n    out = np.concatenate((xt, poly_terms), axis=0)\n    return out.T\n", "            poly_terms[:, idx] = x[:, i] * x[:, j]\n            idx += 1\n    return np.concatenate((x, poly_terms), axis=1)\n")]),
    ("fits-pairs-triu", [(F, "    poly_terms = np.empty((n_poly_terms, n_samples), np.float64)\n    xt = x.T\n\n    idx = 0\n    for i in range(n_params):\n        j_start = i\n        for j in range(j_start, n_params):\n            poly_terms[idx] = xt[i] * xt[j]\n            idx += 1\n    out = np.concatenate((xt, poly_terms), axis=0)\n    return out.T\n", "    idx1, idx2 = np.triu_indices(n_params)\n    poly_terms = x[:, idx1] * x[:, idx2]\n    return np.concatenate((x, poly_terms), axis=1)\n")]),
    ("fits-weights-none", [(F, "        _root_weights = np.sqrt(weights).reshape(n_samples, 1)\n        y = y * _root_weights\n        x = x * _root_weights\n", "        root = np.sqrt(weights)[:, np.newaxis]\n        return x * root, y * root\n")]),
    ("fits-powell-max", [(F, "    _n_just_identified = n_params + 1\n    if model_type == \"quadratic\":\n        _n_just_identified += n_second_order_terms(n_params)\n", "    if model_type == \"quadratic\":\n        _n_just_identified = n_params * (n_params + 1) // 2 + n_params + 1\n    else:\n        _n_just_identified = n_params + 1\n")]),
    ("fits-powell-pad", [(F, "        n_resid, n_present = coef.shape\n        padding = np.zeros((n_resid, _n_just_identified - n_present))\n        coef = np.hstack([coef, padding])\n", "        padded = np.zeros((y.shape[1], _n_just_identified))\n        padded[:, : n_params + 1] = coef\n        coef = padded\n")]),
    ("fits-residual-split", [(F, "        y_clipped = y_clipped - old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n", "        predicted = old_model_moved.predict(x_unit)\n        y_clipped = y_clipped - predicted.reshape(len(y), n_residuals)\n")]),
    ("frob-slices", [(F, "    m_mat, n_mat = np.split(features, (n_params + 1,), axis=1)\n", "    m_mat = features[:, : n_params + 1]\n    n_mat = features[:, n_params + 1 :]\n")]),
    ("frob-rows", [(F, "        coeffs_linear[k, :] = alpha[offset : (n_params + 1)]\n", "        coeffs_linear[k] = alpha\n")]),
    ("frob-order", [(F, "        rhs = y[:, k] - n_mat @ coeffs_second_stage\n\n        alpha, *_ = np.linalg.lstsq(m_mat, rhs[: n_params + 1], rcond=None)\n        coeffs_linear[k, :] = alpha[offset : (n_params + 1)]\n\n        coeffs_square[k] = coeffs_second_stage\n", "        coeffs_square[k] = coeffs_second_stage\n        residual = y[:, k] - n_mat @ coeffs_square[k]\n        coeffs_linear[k] = np.linalg.lstsq(m_mat, residual[: n_params + 1], rcond=None)[0]\n")]),
    ("frob-zero-init", [(F, "    coeffs_linear = np.empty((n_residuals, 1 + n_params))\n    coeffs_square = np.empty((n_residuals, n_poly_features))\n", "    coeffs_linear = np.zeros((n_residuals, n_params + 1))\n    coeffs_square = np.zeros((n_residuals, n_poly_features))\n")]),
    ("frob-one-array", [(F, "    coeffs_linear = np.empty((n_residuals, 1 + n_params))\n    coeffs_square = np.empty((n_residuals, n_poly_features))\n", "    coef = np.empty((n_residuals, 1 + n_params + n_poly_features))\n"), (F, "        coeffs_linear[k, :] = alpha[offset : (n_params + 1)]\n\n        coeffs_square[k] = coeffs_second_stage\n\n    coef = np.concatenate((coeffs_linear, coeffs_square), axis=1)\n", "        coef[k] = np.concatenate((alpha[offset : (n_params + 1)], coeffs_second_stage))\n\n")]),
    ("shape-next", [(W, "    for raw_eval in raw_evals:\n        if not isinstance(raw_eval, str):\n            return np.shape(raw_eval)\n", "    good = [e for e in raw_evals if not isinstance(e, str)]\n    if good:\n        return np.shape(good[0])\n")]),
    ("shape-gen", [(W, "    for raw_eval in raw_evals:\n        if not isinstance(raw_eval, str):\n            return np.shape(raw_eval)\n", "    good = next((e for e in raw_evals if not isinstance(e, str)), None)\n    if good is not None:\n        return np.asarray(good).shape\n")]),
    ("shape-continue", [(W, "    for raw_eval in raw_evals:\n        if not isinstance(raw_eval, str):\n            return np.shape(raw_eval)\n", "    for raw_eval in raw_evals:\n        if isinstance(raw_eval, str):\n            continue\n        return np.shape(raw_eval)\n")]),
    ("shape-helper", [(W, "    return history.fvecs.shape[1:]\n", "    _, *rest = history.fvecs.shape\n    return tuple(rest)\n")]),
    ("shape-elem", [(W, "    return history.fvecs.shape[1:]\n", "    return history.fvecs[0].shape\n")]),
    ("fb-lambda", [(FB, "    def _crit(x, c, g, h):\n        return c + x @ g + 0.5 * x @ h @ x\n\n    def _grad(x, g, h):\n        return g + x @ h\n\n    crit = partial(_crit, c=model.intercept, g=model.linear_terms, h=model.square_terms)\n    grad = partial(_grad, g=model.linear_terms, h=model.square_terms)\n\n    return crit, grad\n", "    g, h = model.linear_terms, model.square_terms\n    crit = lambda x: model.intercept + np.dot(g, x) + np.dot(x, np.dot(h, x)) / 2\n    grad = lambda x: np.dot(h, x) + g\n    return crit, grad\n")]),
    ("fb-predict", [(FB, "    crit = partial(_crit, c=model.intercept, g=model.linear_terms, h=model.square_terms)\n", "    crit = model.predict\n")]),
    ("fb-full", [(FB, "    lower_bounds = -radius * np.ones(len(x_candidate))\n    upper_bounds = radius * np.ones(len(x_candidate))\n", "    upper_bounds = np.full(len(x_candidate), radius)\n    lower_bounds = -upper_bounds\n")]),
    ("fb-max", [(FB, "        x_norm = np.linalg.norm(x)\n        if x_norm <= 1:\n            x_tilde = x\n        else:\n            x_tilde = x / x_norm\n        return model.predict(x_tilde)\n", "        return model.predict(x / max(1, np.linalg.norm(x)))\n")]),
    ("fb-helper", [(FB, "    solution_norm = np.linalg.norm(res.x)\n\n    if solution_norm <= 1:\n        _minimizer = res.x\n    else:\n        _minimizer = res.x / solution_norm\n", "    _minimizer = _onto_sphere(res.x)\n"), (FB, "def robust_sphere_solver_reparametrized(", "def _onto_sphere(x):\n    size = np.sqrt(x @ x)\n    return x / size if size > 1 else x\n\n\ndef robust_sphere_solver_reparametrized(")]),
    ("fb-strict", [(FB, "        if res[\"criterion\"] <= best_crit:\n", "        if not res[\"criterion\"] > best_crit:\n")]),
    ("fb-best-list", [(FB, "    best_crit = np.inf\n    accepted_x = None\n    critvals = []\n\n    for x in start_values:\n        res = robust_cube_solver(model, x)\n\n        if res[\"criterion\"] <= best_crit:\n            accepted_x = res[\"x\"]\n            best_crit = res[\"criterion\"]\n\n        critvals.append(res[\"criterion\"])\n", "    results = [robust_cube_solver(model, x) for x in start_values]\n    critvals = [res[\"criterion\"] for res in results]\n    best = int(np.argmin(critvals))\n    accepted_x = results[best][\"x\"]\n    best_crit = critvals[best]\n")]),
    ("fb-constr-dict", [(FB, "        constraints=constraint,\n", "        constraints=[constraint],\n")]),
    ("fb-constr-norm", [(FB, "        return x @ x\n\n    def _constr_jac", "        return np.sum(x**2)\n\n    def _constr_jac")]),
    ("es-random", [("exploration_sample.py", "        sample_unscaled = rng.uniform(size=(n_samples, len(lower)))\n", "        sample_unscaled = rng.uniform(0, 1, (n_samples, len(lower)))\n")]),
    ("es-width", [("exploration_sample.py", "        sample_scaled = triang.ppf(\n            sample_unscaled,\n            c=(x - lower) / (upper - lower),\n            loc=lower,\n            scale=upper - lower,\n        )\n", "        width = upper - lower\n        sample_scaled = triang.ppf(sample_unscaled, (x - lower) / width, lower, width)\n")]),
    ("es-scale-hand", [("exploration_sample.py", "        sample_scaled = qmc.scale(sample_unscaled, lower, upper)\n", "        sample_scaled = lower + (upper - lower) * sample_unscaled\n")]),
    ("move-same-size-ok", [(MO, "    # undo old scaling\n", "    if np.array_equal(model.scale, new_region.effective_radius):\n        shift = (new_region.effective_center - model.shift) / model.scale\n        old = model\n        if isinstance(old, ScalarModel):\n            return _shift_scalar_model(old, shift=shift)._replace(shift=new_region.effective_center)\n        return _shift_vector_model(old, shift=shift)._replace(shift=new_region.effective_center)\n\n    # undo old scaling\n")]),
    ("move-same-region-ok", [(MO, "    # undo old scaling\n", "    if np.array_equal(model.scale, new_region.effective_radius) and np.array_equal(model.shift, new_region.effective_center):\n        return model\n\n    # undo old scaling\n")]),
 ("start_ge2",[(M,"if n_evals_at_start > 1:","if n_evals_at_start >= 2:")]),
 ("start_swap",[(M,"    if n_evals_at_start > 1:\n        eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}\n    else:\n        eval_info = {0: 1}\n","    n_start = 1\n    if not n_evals_at_start <= 1:\n        n_start = next_multiple(n_evals_at_start, base=batch_size)\n    eval_info = {0: n_start}\n")]),
 ("start_ceil",[(M,"eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}","eval_info = {0: -(-n_evals_at_start // batch_size) * batch_size}")]),
 ("line_search_small_batch",[(A,"    if batch_size == 1:\n","    if batch_size <= 1:\n")]),
 ("line_search_small_batch2",[(A,"    if batch_size == 1:\n","    if not batch_size > 1:\n")]),
 ("radius_zero_or",[("options.py","    scale = np.max(np.abs(x))\n    if scale == 0:\n        scale = 1.0\n","    scale = np.max(np.abs(x)) or 1.0\n")]),
 ("radius_zero_gt",[("options.py","    scale = np.max(np.abs(x))\n    if scale == 0:\n        scale = 1.0\n","    largest = np.abs(x).max()\n    scale = largest if largest > 0 else 1.0\n")]),
 ("radius_zero_le",[("options.py","    if scale == 0:\n        scale = 1.0\n","    if not scale:\n        scale = 1.0\n")]),
 ("v_count_nonzero",[("estimate_variance.py","idx: mask.sum()","idx: np.count_nonzero(mask)")]),
 ("v_npsum",[("estimate_variance.py","idx: mask.sum()","idx: int(np.sum(mask))")]),
 ("v_isinf",[("estimate_variance.py","        idx: np.isfinite(fvals)\n","        idx: ~np.isinf(fvals)\n")]),
 ("v_fvecs",[("estimate_variance.py","        idx: np.isfinite(fvals)\n        for idx, fvals in history.get_fvals(all_indices).items()\n","        idx: np.isfinite(fvecs).all(axis=1)\n        for idx, fvecs in history.get_fvecs(all_indices).items()\n")]),
 ("v_branches",[("estimate_variance.py","    get_samples = history.get_fvals if model_type == \"scalar\" else history.get_fvecs\n    samples = [\n        sample[is_finite[idx]] for idx, sample in get_samples(valid_indices).items()\n    ]\n","    if model_type == \"scalar\":\n        raw = history.get_fvals(valid_indices)\n    else:\n        raw = history.get_fvecs(valid_indices)\n    samples = []\n    for idx in valid_indices:\n        samples.append(raw[idx][is_finite[idx]])\n")]),
 ("v_perindex",[("estimate_variance.py","    is_finite = {\n        idx: np.isfinite(fvals)\n        for idx, fvals in history.get_fvals(all_indices).items()\n    }\n    n_evals = {idx: mask.sum() for idx, mask in is_finite.items()}\n","    is_finite, n_evals = {}, {}\n    for idx in all_indices:\n        mask = np.isfinite(history.get_fvals(idx))\n        is_finite[idx] = mask\n        n_evals[idx] = mask.sum()\n")]),
 ("v_len",[("estimate_variance.py","    n_evals = {idx: mask.sum() for idx, mask in is_finite.items()}\n","    fvals = history.get_fvals(all_indices)\n    n_evals = {idx: len(fvals[idx][mask]) for idx, mask in is_finite.items()}\n")]),
    ("ev-loop-dict", [("estimate_variance.py", """    is_finite = {
        idx: np.isfinite(fvals)
        for idx, fvals in history.get_fvals(all_indices).items()
    }
    n_evals = {idx: mask.sum() for idx, mask in is_finite.items()}
""", """    is_finite = {}
    n_evals = {}
    for idx, fvals in history.get_fvals(all_indices).items():
        mask = np.isfinite(fvals)
        is_finite[idx] = mask
        n_evals[idx] = np.count_nonzero(mask)
""")]),
    ("ev-average-helper", [("estimate_variance.py", """    if model_type == "scalar":
        out = 0.0
        for weight, sample in zip(weights, samples):
            out += weight * np.var(sample, ddof=1)
    else:
        dim = samples[0].shape[1]
        out = np.zeros((dim, dim))
        for weight, sample in zip(weights, samples):
            out += weight * np.cov(sample, rowvar=False, ddof=1)

    return out
""", """    if model_type == "scalar":
        return sum((w * np.var(s, ddof=1) for w, s in zip(weights, samples)), 0.0)

    return _weighted_covariance(weights, samples)


def _weighted_covariance(weights, samples):
    dim = samples[0].shape[1]
    out = np.zeros((dim, dim))
    for weight, sample in zip(weights, samples):
        out = out + np.cov(sample, rowvar=False, ddof=1) * weight
    return out
""")]),
    ("ev-var-n-minus", [("estimate_variance.py", """    weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
    weights = weights / weights.sum()
""", """    counts = np.array([n_evals[idx] for idx in valid_indices])
    weights = counts / np.sum(counts)
""")]),
    ("ev-region-first", [("estimate_variance.py", """    all_indices = history.get_x_indices_in_region(
        trustregion._replace(radius=trustregion.radius * max_distance_factor)
    )
""", """    search_radius = max_distance_factor * trustregion.radius
    search_region = trustregion._replace(radius=search_radius)
    all_indices = history.get_x_indices_in_region(search_region)
""")]),
    ("ev-cutoff-branch", [("estimate_variance.py", """    cutoff = min(max(n_evals.values()), min_n_evals)
""", """    most_evals = max(n_evals.values())
    cutoff = most_evals if most_evals < min_n_evals else min_n_evals
""")]),
    ("vol-early-return", [("volume.py", """    if shape == "sphere":
        out = _sphere_volume(radius, dim)
    elif shape == "cube":
        out = _cube_volume(radius, dim)
    else:
        raise ValueError(f"shape must be 'shpere' or 'cube', not: {shape}")
    return out
""", """    if shape not in ("sphere", "cube"):
        raise ValueError(f"shape must be 'shpere' or 'cube', not: {shape}")
    return _sphere_volume(radius, dim) if shape == "sphere" else _cube_volume(radius, dim)
""")]),
    ("vol-log-merged", [("volume.py", """    log_radius = (
        np.log(np.pi) / 2
        + np.log(sphere_radius)
        - np.log(2)
        - loggamma(dim / 2 + 1) / dim
    )
""", """    log_radius = (
        np.log(np.sqrt(np.pi))
        + np.log(sphere_radius / 2)
        - loggamma(1 + 0.5 * dim) / dim
    )
""")]),
    ("vol-scaling-after", [("volume.py", """    if scaling_factor is not None:
        log_radius += np.log(scaling_factor) / dim
    out = np.exp(log_radius)
    return out


def get_radius_of_cube""", """    out = np.exp(log_radius)
    if scaling_factor is not None:
        out = out * scaling_factor ** (1 / dim)
    return out


def get_radius_of_cube""")]),
    ("bounds-any-compact", [("bounds.py", """    out = False
    if lb is not None and np.isfinite(lb).any():
        out = True
    if ub is not None and np.isfinite(ub).any():
        out = True
    return out
""", """    return any(b is not None and bool(np.any(np.isfinite(b))) for b in (lb, ub))
""")]),
    ("bounds-object-setattr", [("bounds.py", """        super().__setattr__("has_any", _any_finite(self.lower, self.upper))
""", """        has_any = _any_finite(self.lower, self.upper)
        object.__setattr__(self, "has_any", has_any)
""")]),
    ("pa-return-literal", [(PA, """    # put everything in a dict
    out = {
""", """    return {
"""), (PA, """        "accept_candidate": accept_candidate,
    }

    return out
""", """        "accept_candidate": accept_candidate,
    }
""")]),
    ("pa-warn-helper", [(PA, """    if noisy and functype == "scalar":
        msg = (
            "Noisy scalar functions are experimental and likely to give very "
            "suboptimal results."
        )
        warnings.warn(msg)
    if noisy and n_cores > 1:
        msg = (
            "Parallelization together with noisy functions is experimental and likely "
            "to give very suboptimal results."
        )
        warnings.warn(msg)
    if n_cores > 1 and functype == "scalar":
        msg = (
            "Parallelization together with scalar functions is experimental and likely "
            "to give very suboptimal results."
        )
        warnings.warn(msg)

""", """    _warn_if_experimental(noisy, n_cores, functype)

"""), (PA, """def _process_x(x):
""", """def _warn_if_experimental(noisy, n_cores, functype):
    parallel = n_cores > 1
    is_scalar = functype == "scalar"
    cases = [
        (noisy and is_scalar, "Noisy scalar functions are"),
        (noisy and parallel, "Parallelization together with noisy functions is"),
        (parallel and is_scalar, "Parallelization together with scalar functions is"),
    ]
    for applies, start in cases:
        if applies:
            warnings.warn(
                f"{start} experimental and likely to give very suboptimal results."
            )


def _process_x(x):
""")]),
    ("pa-dict-update", [(PA, """    # put everything in a dict
    out = {
        "evaluate_criterion": evaluate_criterion,
        "x": x,
""", """    # put everything in a dict
    out = {"evaluate_criterion": evaluate_criterion}
    out["x"] = x
    out = {
        **out,
""")]),
    ("pa-n-cores-check-first", [(PA, """    if batch_size is None:
        batch_size = get_default_batch_size(n_cores)

    elif batch_size < n_cores:
        raise ValueError("batch_size must be at least as large as n_cores.")

    return int(batch_size)
""", """    if batch_size is not None and not batch_size >= n_cores:
        raise ValueError("batch_size must be at least as large as n_cores.")

    return int(get_default_batch_size(n_cores) if batch_size is None else batch_size)
""")]),
    ("pa-history-late", [(PA, """    history = History(functype=functype)
    history.add_xs(x)
    evaluate_criterion = get_wrapped_criterion(
        criterion=criterion,
        batch_evaluator=batch_evaluator,
        n_cores=n_cores,
        history=history,
    )
    _bounds = Bounds(lower_bounds, upper_bounds)
    trustregion = Region(
        center=x,
        radius=radius_options.initial_radius,
        bounds=_bounds,
    )
""", """    trustregion = Region(x, radius_options.initial_radius, Bounds(lower=lower_bounds, upper=upper_bounds))
    history = History(functype)
    evaluate_criterion = get_wrapped_criterion(criterion, batch_evaluator, n_cores, history)
    history.add_xs(x)
""")]),
    ("gc-isinstance-order", [(GC, """    if isinstance(name_or_func, str):
        if name_or_func in func_dict:
            _func = func_dict[name_or_func]
            _name = name_or_func
        else:
            _proposal""", """    if isinstance(name_or_func, str):
        try:
            return func_dict[name_or_func], name_or_func
        except KeyError:
            _proposal"""), (GC, """        _func = name_or_func
        _name = _func.__name__
    else:
        raise TypeError("name_or_func must be a string or a callable.")

    return _func, _name
""", """        return name_or_func, name_or_func.__name__
    else:
        raise TypeError("name_or_func must be a string or a callable.")
""")]),
    ("gc-options-loop", [(GC, """    _valid_options = {k: v for k, v in _options.items() if k in signature}
    _redundant_options = {k: v for k, v in _options.items() if k not in signature}
""", """    _valid_options, _redundant_options = {}, {}
    for k, v in _options.items():
        target = _valid_options if k in signature else _redundant_options
        target[k] = v
""")]),
    ("ag-square-scaled", [(AG, """    intercept = vm_intercepts @ vm_intercepts
    linear_terms = 2 * np.sum(vm_linear_terms * vm_intercepts.reshape(-1, 1), axis=0)
    square_terms = 2 * vm_linear_terms.T @ vm_linear_terms

    return intercept, linear_terms, square_terms


def aggregator_information""", """    jacobian = vector_model.linear_terms
    residuals = vector_model.intercepts

    return (
        np.sum(residuals**2),
        2 * jacobian.T @ residuals,
        2 * np.einsum("ij,ik->jk", jacobian, jacobian),
    )


def aggregator_information"""), (AG, """    vm_linear_terms = vector_model.linear_terms
    vm_intercepts = vector_model.intercepts

    jacobian""", """    jacobian""")]),
    ("ag-lookup-get", [(AG, """    if aggregator in built_in_aggregators:
        _aggregator = built_in_aggregators[aggregator]
    else:
        raise ValueError(
            f"Invalid aggregator: {aggregator}. Must be one of "
            f"{list(built_in_aggregators)} or a callable."
        )

    out = partial(_aggregate_models_template, aggregator=_aggregator)
    return out
""", """    _aggregator = built_in_aggregators.get(aggregator)
    if _aggregator is None:
        raise ValueError(
            f"Invalid aggregator: {aggregator}. Must be one of "
            f"{list(built_in_aggregators)} or a callable."
        )

    return partial(_aggregate_models_template, aggregator=_aggregator)
""")]),
    ("ag-template-star", [(AG, """    intercept, linear_terms, square_terms = aggregator(vector_model)
    scalar_model = ScalarModel(
        intercept=intercept,
        linear_terms=linear_terms,
        square_terms=square_terms,
        shift=vector_model.shift,
        scale=vector_model.scale,
    )
    return scalar_model
""", """    coefficients = aggregator(vector_model)
    return ScalarModel(
        *coefficients, shift=vector_model.shift, scale=vector_model.scale
    )
""")]),
    ("ag-closure", [(AG, """    out = partial(_aggregate_models_template, aggregator=_aggregator)
    return out
""", """    def aggregate(vector_model):
        return _aggregate_models_template(vector_model, aggregator=_aggregator)

    return aggregate
""")]),
    ("local-dict-copy", [(S, "def _draw_from_distribution(distribution, rng, size):", "_KINDS = {\"a\": 1}\n\n\ndef _draw_from_distribution(distribution, rng, size):"), (S, "    if distribution == \"normal\":\n        draw = rng", "    kinds = _KINDS\n    kinds = dict(kinds)\n    kinds[\"b\"] = 2\n    if distribution == \"normal\":\n        draw = rng")]),
    ("ls-elif", [(A, """        line_search_xs = None

    # ==================================================================================
    # Check whether there are any unallocated""", """        line_search_xs = np.empty((0, len(candidate_x)))

    # ==================================================================================
    # Check whether there are any unallocated"""), (A, """    n_evals_line_search = 0 if line_search_xs is None else len(line_search_xs)
""", """    n_evals_line_search = len(line_search_xs)
    if n_evals_line_search == 0:
        line_search_xs = None
""")]),
    ("ls-new-xs-list", [(A, """    if line_search_xs is not None and speculative_xs is not None:
        new_xs = np.vstack([line_search_xs, speculative_xs])
    elif line_search_xs is not None:
        new_xs = line_search_xs
    elif speculative_xs is not None:
        new_xs = speculative_xs
""", """    samples = [xs for xs in (line_search_xs, speculative_xs) if xs is not None]
    new_xs = np.vstack(samples)
""")]),
    ("ls-eval-info-comp", [(A, """    for idx in new_indices:
        eval_info[idx] = 1

    wrapped_criterion(eval_info)
""", """    eval_info.update({idx: 1 for idx in new_indices})
    wrapped_criterion(eval_info)
""")]),
    ("ls-best-python", [(A, """    new_fvals = pd.Series({i: np.mean(fvals) for i, fvals in new_fvals.items()})
    new_fval_argmin = new_fvals.idxmin()

    found_better_candidate = new_fvals.loc[new_fval_argmin] < candidate_fval
""", """    new_fvals = {i: np.mean(fvals) for i, fvals in new_fvals.items()}
    new_fval_argmin = min(new_fvals, key=new_fvals.get)

    found_better_candidate = new_fvals[new_fval_argmin] < candidate_fval
"""), (A, "        candidate_fval = new_fvals.loc[new_fval_argmin]\n", "        candidate_fval = new_fvals[new_fval_argmin]\n")]),
    ("acc-result-one-return", [(A, """    if np.isfinite(candidate_fval):
        res = _get_acceptance_result(
            candidate_x=candidate_x,
            candidate_fval=candidate_fval,
            candidate_index=candidate_index,
            rho=rho,
            is_accepted=is_accepted,
            old_state=state,
            n_evals=n_2,
        )
    else:
        res = _get_acceptance_result(
            candidate_x=state.x,
            candidate_fval=state.fval,
            candidate_index=state.index,
            rho=-np.inf,
            is_accepted=False,
            old_state=state,
            n_evals=n_2,
        )
""", """    if not np.isfinite(candidate_fval):
        candidate_x, candidate_fval, candidate_index = state.x, state.fval, state.index
        rho, is_accepted = -np.inf, False

    res = _get_acceptance_result(
        candidate_x=candidate_x,
        candidate_fval=candidate_fval,
        candidate_index=candidate_index,
        rho=rho,
        is_accepted=is_accepted,
        old_state=state,
        n_evals=n_2,
    )
""")]),
    ("rho-nested", [(A, """    if expected_improvement == 0 and actual_improvement > 0:
        rho = np.inf
    elif expected_improvement == 0:
        rho = -np.inf
    else:
        rho = actual_improvement / expected_improvement
    return rho
""", """    if expected_improvement != 0:
        return actual_improvement / expected_improvement
    return np.inf if actual_improvement > 0 else -np.inf
""")]),
    ("solve-fallback-else", [(SS, """    except Exception as e:
        if not retry_with_fallback:
            raise e

        raw_result""", """    except Exception:
        if not retry_with_fallback:
            raise

        raw_result""")]),
    ("wrap-args-flat", [(W, """        xs = history.get_xs(x_indices)
        xs = np.repeat(xs, repetitions, axis=0)

        arguments = list(xs)

        effective_n_cores = min(n_cores, len(arguments))
""", """        repeated_indices = np.repeat(x_indices, repetitions)
        arguments = list(history.get_xs(repeated_indices))
        effective_n_cores = min(len(arguments), n_cores)
"""), (W, """            x_indices=np.repeat(x_indices, repetitions),
""", """            x_indices=repeated_indices,
""")]),
    ("hist-extend-while", [(H, """    if len(arr) - position - n_new_points < 0:
        n_extend = max(len(arr), n_new_points)
""", """    n_missing = position + n_new_points - len(arr)
    if n_missing > 0:
        n_extend = max(len(arr), n_new_points)
""")]),
    ("rn-listcomp", [(RN, """    rhos = []
    for draw in noise:
        sim_fvecs = true_fvecs + draw
""", """    rhos = []
    for i in range(n_draws):
        sim_fvecs = noise[i] + true_fvecs
""")]),
    ("residuals-out", [(F, "        y_clipped = y_clipped - old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n", "        y_clipped -= old_model_moved.predict(x_unit).reshape(y_clipped.shape)\n")]),
]
