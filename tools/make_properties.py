"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json
import pathlib

S = "src/tranquilo/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            **({"state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state]} if state else {}),
            "mechanism": [{"name": a, "where": S + b} for a, b in mech],
            **({"observe_at": observe} if observe else {}),
            "hook_needed": None,
        },
    })

prop("P01", "No parameter vector outside the bounds is ever evaluated or returned",
 "In an optimization with a feasible start, every parameter vector at which the criterion is evaluated, and the solution that is returned, satisfies the lower and upper bounds exactly. This holds for two-sided, one-sided and partly infinite bounds, for starts on a bound or in a corner, for every built-in sampler, sample filter, subproblem solver, acceptance rule and batch size, and whatever the criterion answers, including failures.",
 ["inputs", "configurations", "fault_sequences"],
 "all bound patterns per coordinate x start positions (interior, on a bound, just inside/outside one radius) x component choices x criterion answer sequences with a bounded number of deviations",
 "The tests run a handful of bounded problems whose minimum is inside or on one bound and check the solution only; they never look at the evaluated points, never use one-sided bounds, line search beyond a bound or failing evaluations.",
 ["region.py", "bounds.py", "sample_points.py", "solve_subproblem.py", "acceptance_decision.py"],
 [("trust region switches to a clipped cube when a bound is within one radius", "region.py"),
  ("clipping when mapping out of the unit cube", "region.py"),
  ("clipping and norm control of subproblem solutions", "solve_subproblem.py"),
  ("clipping of line search points", "acceptance_decision.py")],
 observe=["arguments of the user criterion", "solution_x of the result", "xs in the evaluation history"])

prop("P02", "Accepted values are true, never increase, and the best one is returned",
 "In a noise-free optimization a candidate is accepted exactly if its recorded criterion value is finite and improves on the current value by at least the required (non-negative) minimum improvement; after every iteration the current point, its value and its index agree with what the criterion really returned there. Hence accepted values never increase, the returned solution is the last accepted point, and it is never worse than the start, for every sequence of criterion answers. The reported ratio of actual to predicted improvement, step length and relative step length are those of the candidate and of the accepted step.",
 ["histories", "fault_sequences", "configurations"],
 "all sequences of criterion answers from {true value, better, tie, worse, +inf, -inf, NaN, exception} with up to k deviations from several default policies, for all function types and both noise-free acceptance rules, including batches with line search and speculative points",
 "Tests call the acceptance rule with one mocked improvement or none and run smooth convex functions to convergence; ties, non-finite answers, and better line-search points after rejected candidates are never produced.",
 ["acceptance_decision.py", "tranquilo.py", "history.py"],
 [("comparison with the minimum improvement", "acceptance_decision.py"),
  ("fallback to the old point for non-finite candidates", "acceptance_decision.py"),
  ("state update", "tranquilo.py")],
 state=[("x, fval, index", "currently accepted point, its value and its position in the history", "tranquilo.py")],
 observe=["result['states']", "solution_x / solution_criterion", "evaluation history"])

prop("P03", "Every requested evaluation is done once and recorded faithfully",
 "When a batch of evaluations is requested as a number of repetitions per stored parameter vector, the criterion is called exactly that often at exactly those vectors, in one batch with at most the allowed number of cores, and each answer is stored at the vector it belongs to, once, unaltered. An answer that is an exception or contains NaN is stored as positive infinity in the affected entries while all other answers of the batch and all earlier entries stay as they were, and infinite answers keep their sign. This holds for all function types, batch compositions, repetitions and failure positions, and a criterion that modifies its argument cannot change the record.",
 ["inputs", "fault_sequences", "histories"],
 "all batch compositions over up to 3 points with up to 3 repetitions in every order x every assignment of {value, NaN, partially NaN, +inf, -inf, exception} to the evaluations x all function types x empty or non-empty history",
 "The only tests evaluate one or two points once with a well-behaved function; failing or repeated evaluations inside a batch are never exercised.",
 ["wrap_criterion.py", "history.py"],
 [("replacement of tracebacks and NaNs", "wrap_criterion.py"), ("repetition of xs and of indices", "wrap_criterion.py")],
 observe=["criterion calls", "stored vectors, evaluation vectors and aggregated values"])

prop("P04", "The evaluation history behaves like an append-only map of points to evaluations",
 "For every sequence of additions of parameter vectors and evaluations, the history returns exactly what was stored: indices are handed out consecutively, each point keeps all its evaluations in the order of arrival, aggregated values are the scalar, sum or sum of squares of the stored vectors, counters match, averages are per point, and the lookup by region returns exactly the stored points within the radius of the center. Growing beyond the preallocated capacity, interleaving single and multiple additions, empty additions and several evaluations per point never change or lose earlier entries. An evaluation for an unknown point is rejected without changing anything.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over a small alphabet of additions and queries, from the empty history and from histories filled to just below each capacity limit, for all three function types",
 "The tests add at most a few points in one fixed order; the capacity of 1000 rows is only ever crossed in one shape, and evaluations that arrive out of order or repeatedly are not compared with a model.",
 ["history.py"],
 [("array growth", "history.py"), ("index mapper from points to evaluations", "history.py")],
 state=[("xs, fvecs, fvals, n_xs, n_fun, index_mapper", "stored points and evaluations", "history.py")],
 observe=["all public getters of the history"])

prop("P05", "Failing evaluations never abort an optimization",
 "After a successful evaluation of the start point, evaluations that raise an exception or return NaN, infinities or partially invalid vectors, at any position, in any number and in any mixture, never make the optimizer raise. The run continues up to its normal stopping rules, a failed candidate is never accepted and the trust region shrinks instead, and the returned solution has the finite value that was recorded for it. This holds with and without bounds, noise, batches and for all function types.",
 ["fault_sequences", "configurations"],
 "every single and every pair of failing evaluations by position x failure kind, every failing suffix and all-failing runs, over all function types, bounded/unbounded, noisy/noise-free, sequential/batched configurations",
 "No test lets the criterion fail during an optimization; the infinity handler is only tested on one array.",
 ["wrap_criterion.py", "handle_infinity.py", "acceptance_decision.py", "estimate_variance.py", "fit_models.py", "solve_subproblem.py"],
 [("exceptions and NaN replaced by infinity", "wrap_criterion.py"), ("clipping before fitting", "handle_infinity.py"),
  ("fallback subproblem solvers", "solve_subproblem.py"), ("rejection of non-finite candidates", "acceptance_decision.py"),
  ("failed evaluations ignored in the noise estimate", "estimate_variance.py")],
 observe=["exceptions of the optimizer", "result['states']", "solution"])

prop("P06", "Stopping is prompt, truthful and respects the budget",
 "An optimization stops right after the first iteration in which a convergence criterion is met by an accepted step, the trust region radius falls to its tolerance, the number of evaluations reaches the allowed maximum or the allowed time is used up, and otherwise after exactly the allowed number of iterations; it never stops earlier and never continues. The reported message names a criterion that really holds for the last two recorded iterations under the user's tolerances, convergence is never reported when it is disabled or on a rejected step, and the evaluation budget is exceeded by no more than the evaluations of one iteration.",
 ["histories", "configurations", "inputs"],
 "all combinations of tolerance settings (each on/off and at boundary values), iteration, evaluation and time limits, with all criterion answer sequences up to k deviations",
 "Tests only check that easy problems end close to the optimum; limits, disabled convergence, messages and stops on rejected steps are untested.",
 ["tranquilo.py", "process_arguments.py", "options.py"],
 [("convergence check on the last two states", "tranquilo.py"), ("limits at the end of an iteration", "tranquilo.py")],
 observe=["message", "result['states']", "number of criterion calls"])

prop("P07", "The trust region follows its update rule and stays within its limits",
 "At the beginning of every iteration the trust region is centered at the currently accepted point; its radius is the previous one expanded, kept or shrunk according to the achieved improvement ratio, the relative step length and whether the number of evaluations per point was increased, and always lies between the minimum and maximum radius (a maximum that is derived from the step length never undercuts the minimum). Every new model point lies in the trust region of its iteration and every model candidate lies in it as well.",
 ["histories", "configurations", "inputs"],
 "all accept/reject histories up to a depth with all radius option combinations of a lattice, plus the update rule on the complete lattice of radius x ratio x step length x options including boundary, infinite and NaN ratios",
 "The tests check three values of the update rule; no test observes the sequence of regions in a run, limits, or that points stay inside the region.",
 ["adjust_radius.py", "tranquilo.py", "region.py", "options.py"],
 [("radius update", "adjust_radius.py"), ("recentering", "tranquilo.py")],
 state=[("trustregion", "center, radius and bounds of the current region", "tranquilo.py")],
 observe=["result['states'][i].trustregion", "evaluated points of each iteration"])

prop("P08", "Runs are reproducible and isolated from each other",
 "The same problem, options and seed always give bitwise the same sequence of evaluated points and the same result, whatever ran before in the process, whatever the state of the global random number generators, and however a second optimization is interleaved with it. A run leaves the global random state, the start vector, the bounds and all option objects passed by the user unchanged, and different seeds lead to different samples.",
 ["schedules", "histories", "configurations"],
 "all interleavings of two optimizations at criterion batches up to a preemption bound and single preemptions inside the optimizer, all ordered pairs and triples of configurations run in one process, several global random states",
 "One test compares nothing across runs; shared mutable defaults, reseeding of global generators and hidden module state only show when runs follow or overlap each other.",
 ["process_arguments.py", "sample_points.py", "rho_noise.py", "utilities.py", "get_component.py", "options.py", "subsolvers/fallback_subsolvers.py"],
 [("generators created per run from the seed", "process_arguments.py"), ("options copied, not mutated", "sample_points.py")],
 observe=["sequence of criterion arguments", "result", "global random state", "user objects"])

prop("P09", "Parallel evaluation does not change the optimization",
 "For a given batch size the evaluated points and the result do not depend on the number of cores, on the order or timing in which the evaluations of a batch are completed, or on which batch evaluator is used. No batch is ever requested with more cores than allowed, every regular batch of new model points (except for replacements after a stagnating model) has a size that is a multiple of the batch size, and the evaluations of an acceptance step with line search fill exactly one batch.",
 ["schedules", "configurations"],
 "all permutations of the completion order in every batch up to a size, all numbers of cores up to the batch size, built-in and user supplied batch evaluators, all function types, noise-free and noisy",
 "Tests run one parallel problem and only check that it ends near the optimum.",
 ["wrap_criterion.py", "tranquilo.py", "process_arguments.py", "acceptance_decision.py"],
 [("results are matched to points by position in the batch", "wrap_criterion.py"), ("rounding up to multiples of the batch size", "process_arguments.py")],
 observe=["calls of the batch evaluator", "result"])

prop("P10", "Noise handling: averages, variances and sample sizes are right and bounded",
 "In noisy optimizations the number of evaluations per model point changes by at most one per iteration, stays within its configured limits, goes down only if enough simulated improvement ratios are high, goes up only if too few of them are acceptable and the achieved ratio is poor; every model point then has at least that many evaluations. The candidate and the current point receive the evaluations needed to detect the expected improvement at the requested confidence and power, within the configured limits, and acceptance compares the averages over all evaluations of both points. The noise variance is the weighted variance of the repeated, successful evaluations near the trust region.",
 ["inputs", "histories", "configurations"],
 "complete lattices of the sample size and adaptation rules, all small evaluation histories for the variance estimate, and noisy optimizations over all noise patterns with bounded deviations",
 "Tests check two sample size cases and one variance example; rounding, limits and the interplay in a run are not covered.",
 ["acceptance_sample_size.py", "acceptance_decision.py", "adjust_n_evals.py", "estimate_variance.py", "rho_noise.py", "tranquilo.py"],
 [("sample size formula and clipping", "acceptance_sample_size.py"), ("adaptation rule", "adjust_n_evals.py"), ("variance estimate", "estimate_variance.py"),
  ("additional evaluations at existing points", "tranquilo.py")],
 observe=["evaluations per point", "n_evals_per_point and n_evals_acceptance in the states", "return values of the rules"])

prop("P11", "Surrogate models reproduce the data they are fitted to",
 "If the criterion values at a sample that determines the model come from a polynomial in the class of the model, the fitted surrogate reproduces that polynomial everywhere, in every region shape, for every output dimension and with weights; with fewer points the interpolating fitters reproduce all data points, and with more points the fit is the least-squares (or penalized) optimum. Fitting to residuals of a previous model gives a model of the data itself, not of the residuals, the Hessians are symmetric, and the result does not depend on the order of the points.",
 ["inputs", "configurations"],
 "all fitters x model types x residualization x region shapes (sphere, cube, clipped non-uniform cube) x dimensions 1-3 x complete lattices of samples and coefficient vectors",
 "Tests fit a few fixed data sets on the unit region; non-uniform cube regions with residualization and underdetermined samples are not checked against an exact oracle.",
 ["fit_models.py", "models.py", "region.py"],
 [("feature matrix and unpacking of coefficients", "fit_models.py"), ("residualization with the moved old model", "fit_models.py")],
 observe=["predictions of the fitted model"])

prop("P12", "Moving, adding and aggregating models preserves their predictions",
 "Moving a surrogate model to another region leaves its prediction at every point of the parameter space unchanged, for linear and quadratic, scalar and vector models and any combination of spherical and rectangular regions; the prediction of a sum is the sum of the predictions. Aggregating a vector model gives the scalar model that the function type implies (the value itself, the sum, or the sum of squares of the linear residual models, or the sum of contributions with curvature from the information equality). Predictions for one point and for many points agree and no operation modifies the models it is given.",
 ["inputs"],
 "all pairs of regions and complete lattices of integer coefficients in dimensions 1-3 and output dimensions 1-3, evaluated on a lattice of points that determines the polynomials",
 "Tests move one model between two spheres and check single aggregations; non-uniform scales, linear scalar models and aliasing are not covered.",
 ["models.py", "aggregate_models.py", "fit_models.py"],
 [("scaling and shifting", "models.py"), ("aggregators", "aggregate_models.py")],
 observe=["predictions before and after"])

prop("P13", "Subproblem solutions are inside the region, honest and nearly optimal",
 "For every surrogate model and trust region the proposed step lies in the region (within rounding) and within the bounds, never has a higher predicted value than the center, and its expected improvement is exactly the model's predicted decrease; over the sphere the built-in solvers reach at least 80 percent of the largest possible decrease, also in the hard case, for zero gradients and singular Hessians, and over the rectangle a decrease comparable to the best point on the projected gradient path. If the fast solver fails, the fallback result satisfies the same contract, or the error is passed on when fallbacks are switched off.",
 ["inputs", "configurations", "fault_sequences"],
 "complete lattices of gradients and Hessians (including zero, singular, indefinite and badly scaled) in dimensions 1-3 x region shapes x all built-in solvers and options x failing solvers",
 "Tests use a few positive definite models and regression pickles; hard cases, indefinite Hessians, zero gradients, clipped regions and raising solvers are not enumerated.",
 ["solve_subproblem.py", "subsolvers/gqtpar_fast.py", "subsolvers/gqtpar.py", "subsolvers/bntr_fast.py", "subsolvers/bntr.py", "subsolvers/fallback_subsolvers.py",
  "subsolvers/_trsbox_fast.py", "subsolvers/_conjugate_gradient_fast.py", "subsolvers/_steihaug_toint_fast.py"],
 [("clipping, projection and recomputed expected improvement", "solve_subproblem.py"), ("fallback on exceptions", "solve_subproblem.py")],
 observe=["proposed point", "expected improvement"])

prop("P14", "Samplers deliver the requested number of finite, feasible, well placed points",
 "For every trust region, number of points and set of existing points each sampler returns exactly the requested number of finite points inside the region and the bounds; the hull samplers place them on the boundary of the region, and the optimal sampler is at least as good as its random start in terms of its quality criterion. Samples depend only on the generator, the region and the existing points, and neither the existing points nor the options are modified.",
 ["inputs", "configurations"],
 "all samplers x options x region shapes (sphere, full cube, cubes clipped at every combination of faces) x numbers of new and existing points x a set of seeds, in dimensions 1-3",
 "Tests use one cube and one sphere with fixed sizes; clipped cubes, no or duplicated existing points, and the option lattice are not covered.",
 ["sample_points.py", "region.py"],
 [("projection onto the unit hull and mapping from the unit space", "sample_points.py"), ("comparison with the start sample", "sample_points.py")],
 observe=["returned points"])

prop("P15", "Model samples consist of the right points and the record says so",
 "The model of each iteration is built from points of the history without duplicates, where every reused point lies in the search region around the current point; reused, discarded and new points are recorded as a partition of the search region's points and the freshly sampled ones. Dropping points returns a subset with the requested size and aligned indices, never drops the current point, removes the farthest points outside the trust region first and then points of the closest pairs; keeping or discarding filters do what they say.",
 ["histories", "inputs", "configurations"],
 "all small point sets on a lattice x current point x sizes for the filters against a reference implementation; all recorded iterations of optimizations with up to k deviations over all filters and stagnation options",
 "Tests drop one point from one fixed set; duplicates, ties, points outside the region and the bookkeeping of states are not checked.",
 ["filter_points.py", "tranquilo.py", "history.py"],
 [("filters", "filter_points.py"), ("sample bookkeeping of the main loop", "tranquilo.py")],
 observe=["model_indices, new_indices, old_indices_used, old_indices_discarded of the states", "filter return values"])

prop("P16", "Infinite criterion values are replaced by finite, order preserving penalties",
 "Before fitting, finite values stay exactly as they are and every infinite value is replaced by a finite one, column by column: positive infinity by something larger than all finite values of that column and negative infinity by something smaller, also if a column has a single or no finite value. The data passed in are not modified.",
 ["inputs"],
 "all matrices up to 4x2 over {-inf, +inf, NaN, negative, zero, positive, large} entries",
 "One test checks one matrix.",
 ["handle_infinity.py"],
 [("column wise penalties relative to the range of finite values", "handle_infinity.py")],
 observe=["returned array"])

prop("P17", "Options and components are taken from the user exactly or rejected",
 "Every option a user sets reaches the component it belongs to with its value preserved, defaults apply exactly where nothing was set, and unknown option or component names and invalid values raise an error instead of being ignored. User supplied functions are accepted wherever built-in names are, receive the arguments they declare, by keyword or by position, and only those; missing mandatory arguments are reported. User option objects are never modified.",
 ["configurations", "inputs"],
 "all option bundles x all fields x value types, all subsets of declared arguments x call styles for user components, all built-in component names, invalid names and values",
 "Tests cover one example per processing function; type conversion, positional calls and most fields are not covered.",
 ["get_component.py", "options.py", "process_arguments.py"],
 [("option bundles", "options.py"), ("argument filtering", "get_component.py"), ("defaults", "process_arguments.py")],
 observe=["arguments received by components", "raised errors"])

prop("P18", "Clustering partitions the points into balls around centers",
 "Every point gets exactly one label; labels are consecutive, each cluster contains its center, every point lies within the given distance of the center of its cluster, each cluster that has more than one point is the largest ball around any of the points that were left when it was formed, and no two centers are within the distance of each other. The clustering filter keeps exactly the cluster centers with their indices.",
 ["inputs"],
 "all point sets up to 5 points on a small lattice (with duplicates) x distances x dimensions 1-2",
 "Tests use well separated random clusters only.",
 ["clustering.py", "filter_points.py", "volume.py"],
 [("greedy clustering", "clustering.py")],
 observe=["labels and centers"])

prop("P19", "Region geometry: unit mappings, shapes and volumes are consistent",
 "A trust region is a rectangle exactly if some finite bound is within one radius of its center, otherwise a sphere; the rectangle is the intersection of the bounds with the cube of the same volume as the sphere. Mapping to the unit space and back is the identity in both directions (up to clipping), the unit ball or cube is mapped onto the region, and volume, radius and shape conversions are inverse to each other. Replacing a field gives the same region as building it from scratch.",
 ["inputs"],
 "all bound patterns per coordinate x centers x radii on a lattice in dimensions 1-3; volumes in dimensions 1-20",
 "Tests check single examples per function; one-sided and partly infinite bounds or several dimensions are not enumerated.",
 ["region.py", "bounds.py", "volume.py"],
 [("shape decision", "region.py"), ("unit mappings", "region.py"), ("volume formulas", "volume.py")],
 observe=["public attributes and mappings of regions"])

prop("P20", "Linear subproblems are solved exactly within bounds and trust region",
 "The solver for linear models returns the minimizer over the intersection of bounds and ball for every gradient and every bound pattern, never raises and never leaves the feasible set. The geometry improving step returns a feasible point that maximizes the absolute value of the linear polynomial, and rejects infeasible centers.",
 ["inputs"],
 "complete lattices of gradients x bound patterns (active, inactive, zero width, infinite) x radii in dimensions 1-3",
 "These solvers have no tests at all.",
 ["subsolvers/linear_subsolvers.py"],
 [("active set iteration", "subsolvers/linear_subsolvers.py")],
 observe=["returned points"])

prop("P21", "Sample quality measures are correct",
 "The poisedness constant of a sample is the maximum over its Lagrange polynomials and over the unit region of the absolute value: it is at least one for interpolating samples, attained at the reported point by the reported polynomial within the region, invariant to the order of the points, and improving the poisedness replaces exactly the reported point. The determinant based quality is the log determinant of the cross product of the unit sample, invariant to the order of the points.",
 ["inputs"],
 "all poised samples from a lattice in dimensions 1-2 and structured families in dimension 3, both shapes",
 "Tests cover five fixed samples in two dimensions.",
 ["poisedness.py", "geometry.py"],
 [("Lagrange polynomials from the pseudo inverse", "poisedness.py"), ("log determinant", "geometry.py")],
 observe=["returned constants and points"])

prop("P22", "Exploration samples are inside the bounds, reproducible and of the right size",
 "For every method, distribution, seed and bounds, the exploration sample has the requested shape, lies within the bounds, is reproducible for a given seed, and low discrepancy uniform samples stratify every coordinate. Infinite bounds and unknown methods or distributions are rejected, inputs are not modified.",
 ["inputs", "configurations"],
 "all methods x distributions x sample sizes x dimensions x bounds x start positions x seeds on a lattice",
 "Tests only cover one shape per method.",
 ["exploration_sample.py", "utilities.py"],
 [("scaling of unit samples", "exploration_sample.py")],
 observe=["returned sample"])

prop("P23", "Compiled and reference subproblem solvers agree",
 "For every model and set of solver options the compiled versions of the spherical and the rectangular subproblem solvers return the same criterion value and success flag as their reference implementations, and the same solution where it is unique; the reported criterion value is that of the returned solution, and the compiled and interpreted executions of the same solver agree as well.",
 ["inputs", "configurations"],
 "complete lattices of models in dimensions 1-3 (zero, singular, indefinite, badly scaled) x start points x conjugate gradient methods x iteration limits",
 "Tests compare the two on a few random positive definite models and single helper functions.",
 ["subsolvers/bntr.py", "subsolvers/bntr_fast.py", "subsolvers/gqtpar.py", "subsolvers/gqtpar_fast.py", "subsolvers/_trsbox.py", "subsolvers/_trsbox_fast.py",
  "subsolvers/_steihaug_toint.py", "subsolvers/_steihaug_toint_fast.py", "subsolvers/_conjugate_gradient.py", "subsolvers/_conjugate_gradient_fast.py"],
 [("parallel implementations of the same algorithm", "subsolvers/bntr_fast.py"), ("parallel implementations of the same algorithm", "subsolvers/gqtpar_fast.py")],
 observe=["returned dictionaries"])

prop("P24", "The diagnostic figure shows what happened in the run",
 "For every iteration of every optimization result, noise-free or noisy, bounded or not, with one or more parameters, the diagnostic figure has one column per requested iteration or result, in the requested order, and shows exactly the data of the run: the existing, new and discarded points at their coordinates and the trust region (with more than two parameters the absolute correlations of these points), the distances of the model points from the trust region center relative to the radius, the criterion value of every point with the model points and the accepted point marked, and for all iterations the improvement ratio limited to [-1, 3], the radius, the ratio of clusters to points and the log determinant of the model points, with the value of the requested iteration highlighted. The results are not modified. Results of optimizers that record model points instead of indices are shown in the same way, also if points occur several times.",
 ["histories", "configurations"],
 "all iterations of all runs over function types x dimensions 1-3 x options x accept/reject patterns x bounds x noise x failures, all ways to pass results and iterations",
 "The tests only check that plotting two noise-free runs does not raise an exception; no test looks at the plotted data.",
 ["visualize.py", "tranquilo.py", "geometry.py", "clustering.py"],
 [("translation of states into traces", "visualize.py"), ("index sets of the states", "tranquilo.py")],
 observe=["data of the returned figure"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
