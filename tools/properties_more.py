def add(prop):
    prop("C03", "A candidate is accepted exactly when it is finite and improves enough",
         "A candidate is accepted exactly when its criterion value is finite and improves on the incumbent's by at least the "
         "configured minimum, where with noise both values are means over the evaluations at the two points and a line search "
         "point replaces the subproblem solution only if it is the best new point and strictly better. The recorded rho is "
         "actual over expected improvement of the subproblem solution (plus or minus infinity when the expected improvement is "
         "zero, minus infinity for a non-finite candidate). The recorded step length is the distance between old and new "
         "incumbent, and the relative step length is that distance divided by the trust region radius.",
         ["inputs", "histories", "configurations"],
         "all states, subproblem solutions, criterion values and options, all built-in acceptance rules",
         "The tests of the acceptance rules use one state and a few candidates; ties, infinite values, zero expected improvements and batches of line search points are input dependent.",
         ["acceptance_decision.py"],
         [("acceptance decision", "acceptance_decision.py:_accept_simple"), ("rho", "acceptance_decision.py:calculate_rho"),
          ("line search", "acceptance_decision.py:accept_classic_line_search")],
         observe=["states[*].accepted", "states[*].rho", "states[*].step_length"],
         technique="normal-form decision tables of the acceptance rules compared with the specified table (value numbering, no solver)",
         note="Real arithmetic without NaN; user supplied acceptance rules are outside.")

    prop("C04", "The optimizer stops within its iteration and evaluation limits",
         "An optimization runs at most the configured maximum number of iterations, and no further iteration starts once the "
         "configured maximum number of criterion evaluations has been recorded. With budget left, the optimizer only stops "
         "directly after an accepted step, and never if convergence checks are disabled.",
         ["inputs", "histories", "configurations"],
         "all criterion functions, configurations and iteration histories",
         "Tests stop by convergence or by one generous budget; the interaction of both limits with rejected steps depends on the history.",
         ["tranquilo.py", "history.py", "options.py"],
         [("main loop", "tranquilo.py:_internal_tranquilo"), ("stopping options", "options.py:StopOptions"),
          ("evaluation count", "history.py:History.get_n_fun")],
         observe=["states", "message", "number of criterion calls"],
         technique="loop trip-count analysis and exit-condition entailment on the gated value flow of the main loop",
         note="Components are abstract (any behaviour). One iteration may overshoot the evaluation limit by the evaluations it makes, as designed; the unused max_time option is a known finding.")

    prop("C09", "The history stores every point and evaluation once, in order, under its index",
         "Adding points appends them unchanged behind the points already stored and returns their consecutive indices, "
         "and adding evaluations appends them and files the i-th value under the i-th requested index together with the "
         "criterion value of its kind of problem (scalar value, sum, or sum of squares). Earlier entries are never changed, moved or lost, even "
         "when the storage has to grow. Evaluations for indices that do not exist or in the wrong number are rejected before anything is stored.",
         ["inputs", "histories"],
         "all sequences of additions, all sizes, all kinds of problems",
         "Tests add a few entries; storage growth happens after 1000 entries and repeated indices or several batches are rare in tests.",
         ["history.py"],
         [("append", "history.py:_add_entries_to_array"), ("points", "history.py:History.add_xs"), ("evaluations", "history.py:History.add_evals")],
         state=[("storage", "xs, fvecs, fvals, index_mapper, n_xs, n_fun", "history.py:History")],
         observe=["History.get_xs", "History.get_fvecs", "History.get_fvals", "tranquilo_history"],
         technique="value-flow analysis of the mutators from an arbitrary state, tabulated over their conditions",
         note="Assumes the array primitives of numpy; the first array is allocated with constant room.")

    prop("C13", "Convergence is declared exactly when a tolerance is met, and the message says which",
         "After an accepted step the optimizer stops exactly when the relative or absolute gradient norm of the model, the relative or absolute change of "
         "the criterion, or the relative or absolute change of the parameters is at most its tolerance, and the message names the first one met in that "
         "order. The changes compare the new incumbent with the previous one; relative changes are scaled by the larger of one and the old magnitude (gradient: of one and the norm). "
         "If the optimizer stops because of the evaluation limit, the message says so.",
         ["inputs", "histories", "configurations"],
         "all criterion functions, tolerances and iteration histories",
         "Tests check that a run converges; which criterion fires first and on which pair of iterates depends on the history and tolerances.",
         ["tranquilo.py", "options.py"],
         [("convergence check", "tranquilo.py:_is_converged"), ("main loop", "tranquilo.py:_internal_tranquilo")],
         observe=["message", "states"],
         technique="decision table of exit guard and message over the gated value flow, compared with a reference value flow",
         note="Real arithmetic without NaN. The message is empty when the iteration limit is reached (documented).")

    prop("C05", "Every requested evaluation is made once and filed under its point; failures are +inf",
         "A request for evaluations leads to one batch in which every point appears in order and exactly as often as requested, "
         "using at most the configured number of cores, and the i-th result of the batch is stored under the point it was evaluated at. A criterion call that "
         "raises does not end the optimization but is stored as plus infinity in the shape of a successful evaluation; "
         "NaN is stored as plus infinity, infinite values keep their sign and all other values are stored unchanged. "
         "The criterion is never called in another way.",
         ["inputs", "fault_sequences", "configurations"],
         "all requests, all results of the batch evaluator including failures at any position, all kinds of problems and shapes",
         "Tests evaluate smooth criteria that never fail; mixed batches with failures, NaNs and unequal repetition counts are not sampled.",
         ["wrap_criterion.py"],
         [("wrapped criterion", "wrap_criterion.py:get_wrapped_criterion")],
         observe=["calls of the criterion and the batch evaluator", "History.get_fvecs", "History.get_fvals"],
         technique="value-flow analysis of the wrapper with an arbitrary request and arbitrary batch results, decided case by case",
         note="The batch evaluator itself (estimagic) is an assumption: it returns one result per argument in order.")

    prop("C06", "Infinite and missing values never reach a model fit and keep their order",
         "Before a surrogate model is fitted, every infinite or missing entry of the evaluations is replaced by a finite number: plus infinity and NaN by a number "
         "strictly larger, minus infinity by a number strictly smaller than every finite entry of the same column, while finite entries stay as they are. "
         "This also holds if a column has a single distinct finite entry; without any finite entry, the replacements are still finite and ordered. "
         "Fit methods only ever receive values handled in this way by the selected handler.",
         ["inputs", "configurations"],
         "all evaluation matrices with any pattern of infinite values, all fit methods and model types",
         "The test uses one array with several finite values per column; columns with one, equal or no finite values are not sampled.",
         ["handle_infinity.py", "fit_models.py"],
         [("replacement", "handle_infinity.py:clip_relative"), ("fit template", "fit_models.py:_fitter_template")],
         observe=["arguments of the fit methods", "model coefficients"],
         technique="elementwise case analysis of the replacement's value flow with sign reasoning on linear forms; taint analysis of the fit template",
         note="Real arithmetic; criterion magnitudes beyond 1e300 are outside (the reference constants of the code).")

    prop("C10", "What is read from the history is exactly what was stored for the requested points",
         "Reading points returns the stored points for the requested indices in that order, and reading evaluations returns for every requested point "
         "exactly the evaluations filed under it; the reported numbers of points and evaluations are the numbers of stored ones. "
         "Model data pair every requested point with the mean of its own evaluations (or, without averaging, repeat it once per evaluation). "
         "The points of a region are exactly the stored points whose distance from its centre is at most its radius, and reading never changes the history.",
         ["inputs", "histories"],
         "all contents of the history, all requested indices, all regions",
         "Tests read back a few entries with one evaluation per point; unequal numbers of evaluations and subsets in arbitrary order are rare in tests.",
         ["history.py"],
         [("retrieval", "history.py:_extract_from_indices"), ("model data", "history.py:History.get_model_data"),
          ("region search", "history.py:History.get_x_indices_in_region")],
         observe=["History.get_xs", "History.get_fvecs", "History.get_fvals", "History.get_model_data"],
         technique="value numbering of the accessors on an arbitrary history state, compared with reference value flow",
         note="Requested indices are distinct (as the optimizer guarantees); index arrays follow numpy indexing.")

    prop("C11", "The radius of the search region follows the step quality and stays in its limits",
         "After every iteration the radius is multiplied by the expansion factor if the ratio of actual to expected improvement and the step relative to the radius are "
         "both large, kept if the ratio is acceptable or the number of evaluations per point was just increased, and multiplied by the shrinking factor otherwise; it is then limited by the "
         "maximal radius and, if that ratio is finite, by a multiple of the step length, but never falls below the minimal radius. "
         "The first iteration uses the configured initial radius, by default a positive one for every start point.",
         ["inputs", "histories", "configurations"],
         "all radii, ratios (also NaN-free infinite ones), step lengths and option values, in every iteration",
         "Tests evaluate a few triples of radius, ratio and step; limits, ties and the rejected step of length zero interact over many iterations.",
         ["adjust_radius.py", "tranquilo.py"],
         [("update", "adjust_radius.py:adjust_radius"), ("main loop", "tranquilo.py:_internal_tranquilo")],
         observe=["radius of the trustregion recorded in states"],
         technique="decision table over the loop-carried value flow, compared with a reference value flow",
         note="Real arithmetic without NaN; radius is positive.")

    prop("C12", "The number of evaluations per point adapts in single steps within its limits",
         "For noisy problems the number of evaluations per point falls by one (not below its minimum) if more than the configured share of simulated ratios is above the high threshold, "
         "stays if more than the other configured share is above the low threshold or the actual ratio is good, and otherwise rises by one (not above its maximum). "
         "For deterministic problems it never changes. The points of an iteration are evaluated with the number that is recorded for this iteration.",
         ["inputs", "histories", "configurations"],
         "all simulated and actual ratios, all option values, noisy and deterministic problems, in every iteration",
         "The function has a test for a few arrays of ratios; whether the loop carries the adapted number to evaluations and records is not tested.",
         ["adjust_n_evals.py", "tranquilo.py"],
         [("update", "adjust_n_evals.py:adjust_n_evals"), ("main loop", "tranquilo.py:_internal_tranquilo")],
         observe=["n_evals_per_point in states", "numbers of evaluations in the history"],
         technique="decision table over the loop-carried value flow, compared with a reference value flow",
         note="The quality of the simulated ratios themselves is outside.")

    prop("C07", "Runs with the same inputs and seed are identical",
         "All randomness of a run comes from generators that are constructed in this run from the seed of the user; no function uses the global random state, "
         "the clock, the process or the environment, and no data survive from one run to the next. Points are sampled with one generator and noise "
         "is simulated with another one with a different seed, so that simulations do not influence which points are sampled. "
         "Every component draws only from the generator it is given.",
         ["inputs", "histories", "configurations"],
         "all inputs, seeds and component choices; any sequence of runs in one process",
         "A test that runs twice and compares sees one configuration; a draw from the wrong stream or hidden state shows only in specific sequences of runs.",
         ["process_arguments.py", "sample_points.py", "rho_noise.py"],
         [("generators", "process_arguments.py:process_arguments"), ("sampling", "sample_points.py:get_sampler"), ("simulation", "rho_noise.py:simulate_rho_noise")],
         observe=["results of repeated runs", "numpy.random.get_state()"],
         technique="effect analysis over all references and functions of the optimizer plus provenance of every generator",
         note="Third-party routines (scipy, numpy, estimagic's batch evaluator) are deterministic given their arguments.")

    prop("C08", "Data of the caller and recorded data are never modified in place",
         "No function that is called from outside its module changes its arguments in place: start vectors, bounds and option containers of the user, "
         "points, indices, criterion values, models and regions that components receive. Methods of models, regions and bounds return new objects. "
         "The main loop never writes to recorded states or to arrays it got from the history or a component.",
         ["inputs", "histories", "configurations"],
         "all arguments and all paths through every function of the optimizer",
         "Tests rarely compare inputs before and after a call, and aliasing between recorded models and later ones shows only after several iterations.",
         ["models.py", "sample_points.py", "solve_subproblem.py"],
         [("models", "models.py:move_model"), ("fitting", "fit_models.py:_fitter_template"), ("subproblem", "solve_subproblem.py:_solve_subproblem_template"),
          ("main loop", "tranquilo.py:_internal_tranquilo")],
         observe=["arguments after a call", "states of earlier iterations"],
         technique="ownership and alias analysis: provenance of every array and container, all in-place effects of all functions",
         note="Private helpers may fill arrays that their caller created. Clipping the start vector of a subsolver to its bounds changes nothing for feasible vectors and is allowed.")

    prop("C14", "The subproblem solution never predicts a worsening",
         "The solver of the region's kind is started at its centre with unit bounds; if it raises, the fallback of the same kind takes over if wanted, otherwise the exception is "
         "passed on. The expected improvement is the model value at the centre minus the model value at the returned point, cube solutions being clipped into the unit cube first. "
         "If that is negative or not a number, the result is the centre itself with expected improvement zero and no success.",
         ["inputs", "fault_sequences", "configurations"],
         "all models, regions, solvers (also user supplied), their results and exceptions",
         "Tests use well-behaved solvers; results outside the cube, worse than the centre, or exceptions in the middle of a run are not sampled.",
         ["solve_subproblem.py"],
         [("template", "solve_subproblem.py:_solve_subproblem_template"), ("choice", "solve_subproblem.py:get_subsolver")],
         observe=["fields of the subproblem result"],
         technique="decision table of the template's value flow with unknown solvers that may fail, compared with a reference value flow",
         note="Quality of the individual solvers is outside.")

    prop("C19", "The record of an iteration is consistent",
         "Whatever the filters, stagnation loops and components do: the model recorded for an iteration aggregates the fit to the means of the evaluations at exactly the recorded model points, in the recorded "
         "trustregion, and the candidate of the iteration solves that model in that region. New, used and discarded indices are the set differences and the intersection of the model points "
         "and the points found in the search region; the other fields are those of the acceptance step of the iteration. Points and indices handed to components belong together.",
         ["inputs", "histories", "configurations"],
         "every iteration of every run, for all numbers of passes through the stagnation loops, all components and options",
         "Stagnation loops that drop and resample points run rarely in tests, and nothing compares the recorded model with the recorded points afterwards.",
         ["tranquilo.py"],
         [("main loop", "tranquilo.py:_internal_tranquilo"), ("record", "tranquilo.py:State")],
         observe=["states in the result", "arguments of components"],
         technique="provenance of all fields of the iteration record by joint case analysis of the gated value flow, inner loops by induction",
         note="Known finding: vector_model of the record is never updated. Results of components are unknown values; only where they come from and go to is decided.")

    prop("C23", "Model points are evaluated often enough before a model is fitted to them",
         "Before a model is fitted in an iteration, each of its points was evaluated at least as often as the iteration's number of evaluations per point demands: "
         "new points exactly that often, older ones only as often as is missing. The data used for the fit include all evaluations made before it. "
         "The start point is evaluated as often as configured, rounded up to full batches, or once if not more than one evaluation is configured.",
         ["inputs", "histories", "configurations"],
         "every fit in every iteration, for all filters, samplers and numbers of evaluations per point",
         "Only noisy runs that raise the number of evaluations and reuse points exercise this, and tests do not count evaluations per point at the time of a fit.",
         ["tranquilo.py", "history.py"],
         [("main loop", "tranquilo.py:_internal_tranquilo"), ("missing evaluations", "tranquilo.py:_get_additional_eval_info")],
         observe=["numbers of evaluations in the history at the time of a fit"],
         technique="typestate of points (added, requested, evaluated) over the gated value flow, inner loops by induction",
         note="The batch evaluator returns one result per request.")

    prop("C18", "Trustregions and the maps to and from their unit regions are consistent",
         "A trustregion is a cube exactly if some bound is not farther from its centre than the radius, otherwise a sphere; the cube has the volume of the sphere and is cut at the bounds. "
         "Effective centre and radius describe the actual region (the sphere, or the cut cube with one radius per side), the maps to and from the unit region are the affine maps they define "
         "and inverse to each other up to clipping at the region's own limits. Bounds count exactly if some entry is finite; volume and radius formulas of spheres and cubes invert each other.",
         ["inputs"],
         "all centres, radii, dimensions and bounds: missing, infinite, distant or near, on one or both sides",
         "Tests map a few points of one sphere and one cube; one-sided, infinite or partly binding bounds and the agreement of maps and effective radius are not covered.",
         ["region.py", "bounds.py", "volume.py"],
         [("region", "region.py:Region"), ("bounds", "bounds.py:Bounds"), ("volume", "volume.py:get_radius_of_cube_with_volume_of_sphere")],
         observe=["shape, effective_center, effective_radius", "map_to_unit and map_from_unit"],
         technique="decision table over all kinds of bounds with normal forms of affine maps and logarithms",
         note="Real arithmetic; lower bounds below upper bounds; centre inside the bounds.")

    prop("C21", "Models predict, move, add and aggregate by their definitions",
         "A model predicts a + g x + x H x / 2, for one point as for many. A model moved to another region predicts the same value at the same point, also if sides have different radii, and carries the region's scale and shift; "
         "models of different kind, scale or shift are not added, sums predict the sum. The aggregated model predicts the first entry, the sum or the sum of squares of the vector model's predictions, or follows the information equality; "
         "a fitted model carries its region's frame and, if fitted to residuals of the moved old model, adds that model back.",
         ["inputs", "configurations"],
         "all coefficients, points, dimensions, numbers of residuals and regions; models with and without square terms",
         "Tests evaluate a few small models; formulas that agree for one radius or for symmetric examples differ for others.",
         ["models.py", "aggregate_models.py", "fit_models.py"],
         [("prediction", "models.py:_predict_vector"), ("moving", "models.py:move_model"), ("adding", "models.py:add_models"),
          ("aggregation", "aggregate_models.py:get_aggregator"), ("fit", "fit_models.py:_fitter_template")],
         observe=["predictions before and after moving", "fields of fitted and aggregated models"],
         technique="normal forms in index notation (sums of products of tensors with free and bound indices) of the functions' value flow",
         note="Square terms are symmetric. What the fit methods themselves compute (least squares) is outside.")

    prop("C15", "Filters keep points with their indices and never drop the incumbent",
         "A built-in filter returns a selection of the given points, each still paired with its own index: keep_all everything, discard_all only the incumbent. "
         "Dropping excess points removes exactly as many as exceed the target size times the allowed factor (rounded down), dropping worst points exactly the requested number. "
         "The farthest point goes first while some point is outside of the trustregion, then one of the two closest points, namely the one nearer to the incumbent, but never the incumbent itself.",
         ["inputs", "configurations"],
         "all sets of points and indices, all regions, targets and numbers to drop",
         "Tests drop points from a few small sets; ties with the incumbent, points outside of the region and several drops in a row are hardly sampled.",
         ["filter_points.py"],
         [("dropping", "filter_points.py:drop_worst_points"), ("excess", "filter_points.py:drop_excess"), ("registry", "filter_points.py:get_sample_filter")],
         observe=["results of the filters"],
         technique="selection chains of points and indices compared through loops by induction; loop counters; invariants of values that follow the points; decision table",
         note="The incumbent is among the points and its coordinates are the centre, indices are distinct, and fewer points are dropped than given. Which points a clustering keeps is outside.")

    prop("C22", "Model points are topped up, dropped and replaced as configured",
         "In every iteration the points kept by the filter are topped up to the target size by new points from the current trustregion, their number being rounded up to full batches and zero if enough points were kept. "
         "While the step is shorter relative to the radius than configured and there are more points than the target, they are dropped one by one; "
         "while it is still too short, the configured number of points is dropped (if enabled and more remain) and newly sampled, in at most the configured number of trials. All points kept or sampled become model points, dropped ones do not.",
         ["inputs", "histories", "configurations"],
         "every iteration of every run, all filters, samplers, target sizes, batch sizes and stagnation options",
         "Tests run few iterations with default options; the loops that drop and replace points run only in special situations and nobody counts the points.",
         ["tranquilo.py", "process_arguments.py"],
         [("main loop", "tranquilo.py:_internal_tranquilo"), ("rounding", "process_arguments.py:next_multiple")],
         observe=["arguments of filter and sampler", "model_indices and new_indices in states"],
         technique="path conditions and carried values of the gated value flow, loop-carried step lengths and pass counters by induction",
         note="Sizes are whole numbers; at least one trial is made if the step is too short.")

    prop("C20", "Built-in samplers return new points of the trustregion as configured",
         "Each built-in sampler returns exactly the requested number of points, as images under the map of the trustregion: random_interior draws uniformly from the cube or the ball, the hull samplers scale every drawn point to length one (Euclidean norm for spheres, largest absolute coordinate for cubes) before mapping it. "
         "optimal_hull starts from the draw with the largest Fekete criterion, the determinant of x'x of new and existing points over the number of new ones, and keeps this start unless the optimizer increased it. "
         "Within unit bounds, the optimizer maximises the configured criterion: the determinant, or the soft minimum of all squared distances that involve a new point, where existing points near the centre are left out.",
         ["inputs", "configurations"],
         "all regions, numbers of points, existing points, random numbers and options of the built-in samplers",
         "Tests draw a few points with fixed seeds; where random numbers land, and whether an optimizer makes a sample worse, is different for every seed and region.",
         ["sample_points.py"],
         [("samplers", "sample_points.py:get_sampler"), ("optimal", "sample_points.py:_optimal_hull_sampler")],
         observe=["points returned by the samplers", "objective handed to the optimizer"],
         technique="comparison of value flow with reference definitions by decision tables per shape, distribution and criterion, after normalisation of array idioms",
         note="The optimizer itself, degenerate draws (a point of length zero) and samplers written by users are outside.")

    prop("C16", "Arguments and options reach the component they configure",
         "Every argument and option a user sets takes effect unchanged: names select the built-in component of that name, functions are used as they are, options replace the default of the same name and reach the parameter of the same name, converted at most to the type of the default. "
         "Components receive every runtime argument they take, others are left out; unset arguments get the default for the kind of problem, noise and batch size. "
         "Unknown names and options, functions without a mandatory argument and invalid settings are rejected with an exception before the criterion is evaluated.",
         ["inputs", "configurations"],
         "all built-in and user-supplied components, all subsets of options, all values of the arguments",
         "Tests pass a few options to a few components; an option that is dropped, truncated or overwritten by its default changes results only slightly, and some built-ins are never selected by a test.",
         ["get_component.py", "process_arguments.py", "options.py"],
         [("components", "get_component.py:get_component"), ("options", "options.py:update_option_bundle"), ("settings", "process_arguments.py:process_arguments")],
         observe=["arguments received by component functions", "exceptions raised for invalid arguments"],
         technique="value flow from every option and argument to the parameters of each registered function, decision table of the settings against reference definitions, def-use of every option",
         note="Values of options are not validated beyond the listed rejections. Options that nothing reads are listed as known findings.")

    prop("C24", "Noise is estimated, simulated and overcome as configured",
         "For noisy problems the noise is estimated, in every iteration, at the points within max_distance_factor radii of the centre: the average of the unbiased sample variances (covariances for the simulation) of their finite evaluations, weighted by the numbers of these evaluations, over the points with at least min_n_evals of them or, if there are none, those with the most. "
         "Before the decision, the noisy acceptance rule evaluates candidate and incumbent as often as a one-sided comparison of two means with this variance, the configured power and confidence and the expected improvement demands, given the evaluations the incumbent already has; rounded up, from n_min to n_max for the candidate and never beyond n_max in total for the incumbent. "
         "Rhos are simulated by adding normal draws with the estimated covariance (only its diagonal if correlation is ignored) to the predictions of the model, refitting, solving, and evaluating the solution with the original model, once per configured draw.",
         ["inputs", "histories", "configurations"],
         "all histories of evaluations, noise levels, expected improvements and options",
         "Noise makes single runs inconclusive: a wrong weight, sample size or variance only lowers the error probabilities the method promises.",
         ["acceptance_sample_size.py", "acceptance_decision.py", "estimate_variance.py", "rho_noise.py", "tranquilo.py"],
         [("sizes", "acceptance_decision.py:accept_noisy"), ("variance", "estimate_variance.py:get_variance_estimator"), ("simulation", "rho_noise.py:simulate_rho_noise")],
         observe=["evaluations requested per point", "estimated variances", "simulated rhos"],
         technique="normal forms of sums over selected points, decision tables of sample sizes against reference definitions, joint induction for the model of the iteration",
         note="Real arithmetic; what the random number generator draws for given parameters and the quality of the estimates are outside.")

    prop("C25", "The batch of the acceptance step holds line search and speculative points",
         "The classic acceptance rule evaluates the candidate once and no other point; with the line search rule and a batch size above one, it is evaluated together with batch size minus one further points, each of them once and all in one evaluation request. "
         "If the candidate is within ten percent of the border of the trust region (of its radius or, for cubes, of half their width, wherever the region lies), the first of them (three, or fewer if the batch is smaller) lie on the line from the incumbent through the candidate at 2, 4 and 8 times the step, clipped to the bounds. "
         "All others are drawn by the configured sampler in a region around the candidate whose radius is the trust region's times the configured factor, with the known points in that region (the candidate included) and the points on the line as existing points.",
         ["inputs", "configurations", "histories"],
         "all batch sizes above one, regions of both shapes with and without bounds, candidates, incumbents and histories",
         "Tests use two or three batch sizes and regions around zero: a wrong step, a missing clip, a point that is evaluated twice or a border check that depends on where the region lies shows up only for particular candidates.",
         ["acceptance_decision.py", "region.py"],
         [("points", "acceptance_decision.py:accept_classic_line_search"), ("existing", "acceptance_decision.py:accept_classic_line_search"), ("evaluated", "acceptance_decision.py:accept_classic_line_search")],
         observe=["points evaluated in the acceptance step", "evaluations requested per point"],
         technique="abstract execution of the acceptance rule, row normal forms of arrays of points, decision tables against a reference definition (batch sizes 2 to 5, and by the sign of linear terms all larger ones)",
         note="Where the sampler puts its points is C20, which point is accepted is C03.")

    prop("C17", "No path of the optimizer ends in an error of use",
         "Whatever the options, bounds, batch sizes, components and histories are, no path of the package reads a variable that was not assigned on the way (inside the iterative subproblem kernels and the poisedness tools this is not claimed), uses a name or imports a package object that does not exist, or calls a function of the package with missing, surplus or unknown arguments. "
         "Fields and attributes that are read from or replaced in records of the package (state, region, bounds, models, history, solutions) exist, nothing is read from None, and sequences are unpacked into as many targets as they have items.",
         ["inputs", "configurations", "histories"],
         "all paths of all functions outside of plotting, on arbitrary arguments, and the whole program for each acceptance rule",
         "Such errors sit on rare paths: an unusual combination of options, a candidate that is not at the border, a component no test selects.",
         ["acceptance_decision.py", "filter_points.py", "fit_models.py", "sample_points.py", "tranquilo.py"],
         [("bound", "acceptance_decision.py:accept_classic_line_search"), ("calls", "tranquilo.py:_internal_tranquilo"), ("fields", "filter_points.py:keep_cluster_centers")],
         observe=["exceptions NameError, UnboundLocalError, TypeError, AttributeError"],
         technique="path-sensitive definite assignment over gated values (an unassigned path counts if its condition is satisfiable in a decision table), signature and field checks at every resolved call, for arbitrary arguments typed by role",
         note="Errors inside libraries and user functions, wrong types or shapes of values, and deliberate exceptions for invalid options are outside. Paths whose condition depends on more atoms than the table limit are not reported.")

    prop("C26", "Fits minimise the penalised squared residuals of the model they return",
         "Each built-in fit method returns, per outcome, the least squares coefficients (numpy's default cutoff) of the values on a constant, the parameters and, for quadratic models, all products of two parameters x_i x_j with i <= j; given weights multiply the squared residuals. "
         "Ridge adds its penalties to linear and to square terms and none to the constant; the tranquilo method divides features and coefficients by the penalty of their kind; Powell's method fits a linear model to at most n + 1 points, solves the full problem from as many points as coefficients on, and otherwise interpolates with the square terms of smallest norm. "
         "The coefficients of the products become symmetric Hessians that give the same predictions.",
         ["inputs", "configurations"],
         "all points, values, weights, penalties and numbers of parameters, samples and outcomes; linear and quadratic models",
         "Tests compare a few small fits with recorded numbers: a wrong penalty on one block, a switch at the wrong sample size or a misplaced product only shows for other dimensions, weights or penalties.",
         ["fit_models.py", "models.py"],
         [("coefficients", "fit_models.py:fit_ols"), ("coefficients", "fit_models.py:fit_ridge"), ("coefficients", "fit_models.py:fit_tranquilo"), ("coefficients", "fit_models.py:fit_powell"), ("template", "fit_models.py:get_fitter")],
         observe=["coefficients and Hessians of the fitted models"],
         technique="abstract execution of each fit method; normal forms of block matrices, products of columns, least squares solutions and triangles are compared with the definition",
         note="Points in unit coordinates, residuals of the old model and shift and scale are C21, infinite values C06. Constructions outside the vocabulary of the normal form are recorded as not decided.")

    prop("C27", "Fallback solvers minimise the model within the unit region",
         "Every fallback solver of the subproblem hands the bounded minimiser the model's value as objective (with its derivative, where one is given), the candidate as start and the unit cube as bounds (for the inscribed cube solver the largest cube in the unit sphere), and returns the point and value where it stopped. "
         "The norm constrained solver limits the squared norm to one, the reparametrised one evaluates and returns points outside the unit sphere projected on it, and multistart keeps the lowest result of the cube solver over 100 points of the unit cube that are the same in every run. "
         "Exploration samples have the requested number of points, within the given bounds, distributed as requested and determined by the seed.",
         ["inputs", "configurations"],
         "all models, candidates and dimensions, all kinds of exploration samples",
         "Fallback solvers only run when the main solver fails or when they are selected; a wrong gradient, bound or projection still ends in a plausible point for the few small models tests use.",
         ["subsolvers/fallback_subsolvers.py", "exploration_sample.py", "solve_subproblem.py"],
         [("objective", "subsolvers/fallback_subsolvers.py:robust_cube_solver"), ("constraint", "subsolvers/fallback_subsolvers.py:robust_sphere_solver_norm_constraint"),
          ("multistart", "subsolvers/fallback_subsolvers.py:robust_cube_solver_multistart"), ("sample", "exploration_sample.py:draw_exploration_sample")],
         observe=["arguments of scipy.optimize.minimize", "result of a fallback solver"],
         technique="abstract execution of each solver; the functions handed to the minimiser are applied to a symbolic vector and compared with the model in index notation; bounds, constraints, projections and samples as normal forms",
         note="That the minimiser finds a minimum is a property of scipy.")

    prop("C28", "The optimizer reaches a local minimum of smooth problems",
         "On smooth deterministic problems the optimizer returns a point whose value cannot be improved noticeably within a small neighbourhood, unless a limit on iterations, evaluations or time stopped it.",
         ["inputs"], "all smooth criterion functions and start points",
         "Tests cover a handful of functions and start points.",
         ["tranquilo.py"], [("loop", "tranquilo.py:_internal_tranquilo")],
         na="convergence depends on the values a user's criterion takes at run time and on the numerical quality of models and subproblem solutions; no sound static argument bounds them (single steps are claimed in C02, C03, C11, C13, C14)")

    prop("C29", "Improving the poisedness of a sample never worsens it",
         "The sample that the poisedness tools return has a Lagrange constant that is at most that of the sample they were given.",
         ["inputs"], "all samples of points",
         "Tests use recorded samples.",
         ["poisedness.py"], [("improvement", "poisedness.py:improve_poisedness")],
         na="the constants are maxima of Lagrange polynomials found by numerical optimization over floating point coefficients; their order is a run-time quantity that the source does not determine")
