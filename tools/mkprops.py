"""Writes /verif/properties.jsonl (the text of the properties lives here, the jsonl is its output)."""
import json
P = []
O = "stochopy/optimize/"
def prop(id, title, st, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

SLOT = [O+"_common.py", O+"de/_de.py", O+"cpso/_cpso.py", O+"pso/_pso.py", O+"na/_na.py"]
GEN = [O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py", O+"cmaes/_constraints.py"]
OBS = ["calls of the objective (argument, value, order)", "callback(X, state)", "returned OptimizeResult"]
SOBS = ["calls of the objective and of jac", "callback(xk, state)", "returned SampleResult"]

prop("C01", "DE, PSO, CPSO and NA never lose the best solution",
 "For the de, pso, cpso and na optimizers, at every callback and in the returned result the reported `fun` equals the smallest value the objective has returned so far in this run, and the reported `x` is a point at which the objective returned exactly that value.",
 ["inputs", "configurations", "histories"],
 "Every objective returning real numbers (ints and floats mixed, ties, plateaus, +inf as long as one initial value is finite), every population size, dimension, updating mode, constraint, strategy, competitivity, x0, seed and number of iterations.",
 "The tests compare one seeded x per configuration on the 2-D Rosenbrock function with popsize 8; they never compare fun with what the objective returned, and see no ties, plateaus, restarts of several particles, integer-valued objectives or intermediate callbacks.",
 SLOT, [("selection_sync / selection_async keep personal bests and the global best", O+"_common.py"), ("restart resets only the worst personal bests", O+"cpso/_cpso.py")], OBS,
 [dict(name="gbest, gfit", meaning="best position and value so far", where="local variables of de/cpso/na"), dict(name="pbest, pbestfit", meaning="personal bests", where="local variables of cpso/na, X in de")])

prop("C02", "CMA-ES and VD-CMA report the best point of each generation",
 "For the cmaes and vdcma optimizers, at every callback and in the returned result the reported `x` is a point of the generation just evaluated and `fun` is the smallest fitness of that generation, attained at that `x`. Without constraints the fitness of a point is exactly the value the objective returned for it; with 'Penalize' it is that value plus a penalty that is never negative and is zero for points strictly inside the bounds.",
 ["inputs", "configurations"],
 "Every objective with finite values (ties included), dimension, popsize, sigma, muperc, x0, seed, constraint and iteration.",
 "Tests look at x of the final result for four seeded 2-D runs; fun, the callback state and the pairing of x with fun are never asserted.",
 GEN, [("argsort of the fitness; index 0 is reported", O+"cmaes/_cmaes.py"), ("Penalize clips and adds the penalty", O+"cmaes/_constraints.py")], OBS)

prop("C03", "Every objective evaluation is counted and every generation is full",
 "In every optimizer each iteration evaluates exactly `popsize` candidates, every evaluation being a call fun(x, *args) with a 1-D array of length len(bounds) and the user's args unchanged. At every callback and in the result, `nfev` equals the number of objective calls actually made so far, which is nit * popsize; for the hmc sampler `nfev` equals the true number of calls including those made for numerical gradients.",
 ["inputs", "configurations", "histories"],
 "All methods, serial or parallel, updating modes, constraints, args tuples (empty, one, several), iteration counts and stopping reasons.",
 "No test counts calls or reads nfev, none passes args.",
 SLOT + GEN + ["stochopy/sample/hmc/_hmc.py"], [("nfev = it * popsize", "de/_de.py, cpso/_cpso.py, na/_na.py"), ("nfev += popsize", "cmaes/_cmaes.py, vdcma/_vdcma.py"), ("count wrapper", "stochopy/sample/hmc/_hmc.py")], OBS)

prop("C04", "Exactly one callback per iteration, in order, and maxiter is a hard limit",
 "An optimizer calls the callback exactly once per iteration, after all evaluations of that iteration and before any of the next, with nit = 1, 2, 3, ... and with X the population of that iteration; it never performs more than `maxiter` iterations. The last callback state and the returned result agree on every field they share.",
 ["inputs", "configurations", "histories"],
 "All methods, maxiter >= 1 (1 included), updating modes, backends, stopping reasons, with and without return_all.",
 "The callback test only counts the calls for maxiter in 2..9 and never looks at X, at the state or at the interleaving with evaluations; nit is never asserted.",
 SLOT + GEN, [("iteration loops and the callback blocks", "de(), cpso(), na(), cmaes(), vdcma()")], OBS)

prop("C05", "DE, PSO, CPSO and NA stop exactly when they should, for the reason given",
 "For de, pso, cpso and na, after each iteration from the second on, the run stops if and only if the best value so far is <= ftol or maxiter iterations were made (with maxiter = 1 the run stops after the initial population). It then reports status 0 if the best value is <= ftol and the best solution moved by at most xtol in that iteration, status 1 if the best value is <= ftol otherwise, and status -1 if only maxiter was reached; `success` is true exactly for status >= 0 and `message` is the text of that status.",
 ["inputs", "configurations", "histories"],
 "Every objective, xtol and ftol (0, infinite, negative), every position in the population at which the target is first reached, both updating modes, maxiter >= 1.",
 "No test reads status, success, message or nit, and no test has the target reached by a chosen individual of the population.",
 SLOT, [("status computation in selection_sync, selection_async and the *_async loops", O+"_common.py, de/_de.py, cpso/_cpso.py"), ("messages table", O+"_common.py")], OBS)

prop("C06", "CMA-ES and VD-CMA stop for a reason that is true, and do not miss one",
 "For cmaes and vdcma a run stops with status -1 exactly when maxiter is reached; otherwise with 1 or 0 as soon as the best value of the generation is <= ftol (0 when in addition the mean moved by at most xtol), and never reports 0 or 1 when that value is above ftol. Status -5 is reported only if the best values of the last 10 + 30*ndim/popsize generations differ by less than 1e-10, -7 only if after more than two generations all values of the generation and all best values so far differ by less than 1e-12, and a run in which one of these conditions holds does stop; `success` is true exactly for status >= 0 and `message` matches the status.",
 ["inputs", "configurations", "histories"],
 "Every objective including constant ones and ones that become flat, xtol, ftol, dimension, popsize and maxiter.",
 "The tests never read status and never let the optimizer meet a flat objective.",
 [O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py"], [("converge", O+"cmaes/_cmaes.py")], OBS)

prop("C07", "return_all records exactly the populations that were evaluated",
 "With return_all=True, `xall` has shape (nit, ceil(verbosity*popsize), ndim) and `funall` (nit, ceil(verbosity*popsize)) (one row entry when verbosity is 0); row t holds the first members of the population of iteration t (for verbosity 0 the best member of the population of that iteration), in the user's coordinates, and every funall entry is the fitness of the xall entry at the same place. The xall/funall given to the callback at iteration t are the first t rows of the final ones.",
 ["inputs", "configurations", "histories"],
 "All six methods, updating modes, constraints, verbosity in [0, 1], popsize, maxiter and early or late stops.",
 "The tests only check that xall lies in the bounds in the constrained cases; funall, shapes, verbosity below 1 and the first row of NA are never checked.",
 SLOT + GEN, [("blocks `if return_all`", "de(), cpso(), na(), cmaes(), vdcma()")], OBS)

prop("C08", "Constrained runs never leave the bounds",
 "NA always, DE with 'Random', PSO/CPSO with 'Shrink' and CMA-ES/VD-CMA with 'Penalize' only ever give the objective finite points inside the bounds (up to floating-point rounding), provided x0 lies inside; the samplers with 'Reject' produce only samples inside the bounds and never accept an infeasible proposal. Constraint handling does not freeze the search: a feasible proposal of the mcmc/hmc samplers is still evaluated and accepted or rejected on its value.",
 ["inputs", "configurations", "histories"],
 "Every box (asymmetric, tiny, far from zero, one per coordinate, fixed coordinates for NA), objectives pushing to faces and corners of the box, every inertia in [0,1] including 0, mutation, sigma, step size, x0 on the boundary.",
 "Tests check the bounds for a symmetric square box and an optimum in the interior, with one inertia; 'Reject' is not tested at all.",
 [O+"de/_constraints.py", O+"cpso/_constraints.py", O+"cmaes/_constraints.py", O+"na/_na.py", "stochopy/sample/_common.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"],
 [("Random, Shrink, Penalize, Reject", "_constraints.py modules, sample/_common.py"), ("clamping of the cell limits", O+"na/_na.py")], OBS + SOBS[1:])

prop("C09", "Differential Evolution replaces members greedily and member by member",
 "In de, in each iteration member i of the population is either kept or replaced by the trial evaluated for it: with updating='deferred' it is replaced exactly when the trial's value is strictly smaller, with 'immediate' exactly when it is smaller or equal. Hence no member's value ever increases, and members never move to another place.",
 ["inputs", "configurations", "histories"],
 "All objectives (ties in particular), strategies, constraints, popsize, recombination, backends.",
 "Tests check the final x only; a wrong tie rule, an exchange of two members or a lost replacement need not move the seeded optimum.",
 [O+"_common.py", O+"de/_de.py"], [("selection_sync, selection_async", O+"_common.py")], OBS)

prop("C10", "DE trial vectors are built as the chosen strategy prescribes",
 "Without constraints every coordinate of the trial of member i is either member i's own coordinate or that of one mutant a + F*(difference of other members), where rand1bin/rand2bin start from a population member, best1bin/best2bin from the best solution so far, the members used are pairwise distinct and different from i, and 1 or 2 difference vectors are used as the name says. At least one coordinate comes from the mutant, all do when recombination is 1, and exactly one does when recombination is 0; with 'deferred' all members used are those of the previous iteration, with 'immediate' those current at that moment.",
 ["inputs", "configurations"],
 "All four strategies, both updating modes, mutation in [0, 2], recombination in [0, 1], ndim, popsize and populations.",
 "Seeded results pin rand1bin and the others in deferred mode for ndim 2, popsize 8, recombination 0.1, mutation 0.5 only; best* in immediate mode (the default) and larger dimensions are not run.",
 [O+"de/_de.py", O+"de/_strategy.py"], [("rand1bin, rand2bin, best1bin, best2bin", O+"de/_strategy.py"), ("delete_shuffle_*, crossover mask", O+"de/_de.py")], OBS)

prop("C11", "PSO moves combine inertia, own best and swarm best within their weights",
 "In pso (and cpso between restarts) each coordinate of a particle's step equals inertia times its previous step plus a part in [0, cognitivity] of the way to its own best point plus a part in [0, sociability] of the way to the swarm's best point; the first step has no inertia. With 'deferred' the swarm's best is that of the end of the previous iteration, with 'immediate' the best found up to that evaluation; with 'Shrink' the whole step is scaled by one common factor in [0, 1] chosen so that the particle stops at the face of the box it would have crossed.",
 ["inputs", "configurations", "histories"],
 "All inertia, cognitivity, sociability, ndim, popsize, updating modes, constraints, objectives and histories of personal bests.",
 "Tests pin seeded end points for one (c1 = c2) weighting in 2-D, where exchanging the two weights or the two attractors changes nothing that is asserted outside those runs.",
 [O+"cpso/_cpso.py", O+"cpso/_constraints.py", O+"pso/_pso.py"], [("mutation", O+"cpso/_cpso.py"), ("Shrink", O+"cpso/_constraints.py")], OBS)

prop("C12", "Competitive restarts touch only the worst particles of a collapsed swarm",
 "cpso repositions particles between iterations only when the swarm has contracted around its best, it then repositions exactly the particles with the worst personal bests (never the best particle, at most popsize-1) to points inside the bounds with zero velocity and a forgotten personal best, and for a swarm that stays contracted the number repositioned does not increase from one iteration to the next and does not decrease with competitivity. pso, and cpso with competitivity 0 or None, never reposition a particle.",
 ["inputs", "configurations", "histories"],
 "All objectives (ties included), popsize, ndim, boxes, competitivity in [0, 2], maxiter, both updating modes.",
 "Restarts happen only when the swarm radius is small; tests see them, if at all, in one seeded run and assert only the final x.",
 [O+"cpso/_cpso.py"], [("restart", O+"cpso/_cpso.py")], OBS)

prop("C13", "NA resamples inside the Voronoi cells of its best models",
 "In na every new model of an iteration lies in the Voronoi cell (with coordinates normalised by the bounds) of one of the max(1, int(nrperc*popsize)) best models found in all previous iterations, the cells being visited in turn so that model i goes to the cell of rank i modulo that number. It is a random walk in that cell: starting at the cell's model, each coordinate in turn is drawn uniformly from the whole segment that the cell and the bounds leave on the line through the current point along that coordinate. Coordinates whose bounds coincide keep that value and do not influence the cells.",
 ["inputs", "configurations", "histories"],
 "All objectives, dimensions, boxes (with fixed coordinates anywhere), popsize, nrperc, iterations.",
 "One seeded 2-D run compares the final x; fixed coordinates and more than two dimensions are never run.",
 [O+"na/_na.py"], [("mutation", O+"na/_na.py"), ("normalize, unnormalize, span_mask", O+"na/_na.py")], OBS)

prop("C14", "The initial population is x0, or a Latin hypercube of the bounds",
 "de, pso, cpso and na evaluate in their first iteration exactly the rows of x0 in order when x0 is given (as any array_like of numbers, na up to rounding); otherwise the first population is a Latin hypercube sample: cutting each coordinate's range into popsize equal intervals, each interval contains exactly one member. The samplers' first sample is x0, or a point inside the bounds.",
 ["inputs", "configurations"],
 "All popsize, ndim, boxes, seeds; x0 as float array, integer array, nested list, non-contiguous array.",
 "Tests never pass x0 to a population method and never look at the first population.",
 [O+"_common.py", O+"de/_de.py", O+"cpso/_cpso.py", O+"na/_na.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"], [("lhs", O+"_common.py")], OBS)

prop("C15", "CMA-ES and VD-CMA sample around the weighted mean of the best parents",
 "The first generation of cmaes and vdcma is normally distributed around x0 with, per coordinate and for cmaes, standard deviation sigma times half the width of that coordinate's bounds (vdcma: at least that, along one direction more). Every later generation is centred on the weighted mean of the max(1, int(muperc*popsize)) best points of the previous one, with decreasing positive weights ln(mu+1/2) - ln(rank), normalised.",
 ["inputs", "configurations"],
 "All x0, boxes (a different width per coordinate), sigma, muperc, popsize, ndim, objectives.",
 "Seeded end points in a symmetric square box cannot tell which coordinate's width or which rank's weight was used.",
 [O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py"], [("offspring generation, weights, xmean", "cmaes(), vdcma()")], OBS)

prop("C16", "The optimizers see the objective only through the order of its values",
 "For all six optimizers (without 'Penalize'), replacing the objective by any strictly increasing transformation of it leaves every evaluated point unchanged, as long as neither run stops on a value tolerance.",
 ["inputs", "configurations", "histories"],
 "All objectives with ties, all pairs of value scales (large, small, negative, integers), methods, options, seeds.",
 "A relation between two runs; every test judges a single run of one objective.",
 SLOT + GEN, [("comparisons and argsort only", "selection_sync, selection_async, restart, na.mutation, cmaes, vdcma")], OBS)

prop("C17", "A seeded run is reproducible and observers do not influence it",
 "Two runs with the same arguments and the same integer seed (0 included) evaluate the same points in the same order and return the same result, whatever was drawn from numpy's random generator or run before; a run without seed continues numpy's current random state. Passing a callback, return_all or another verbosity changes neither the evaluated points nor the result.",
 ["inputs", "configurations", "histories"],
 "All optimizers and samplers, options, seeds, preceding activity (other runs, runs that failed, other draws).",
 "Each test runs every configuration once from a fresh state, always with return_all; no two runs are compared.",
 SLOT + GEN + ["stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"], [("np.random.seed(seed) when seed is not None", "all minimize/sample functions")], OBS + SOBS)

prop("C18", "Parallel evaluation gives the serial result under every schedule",
 "For every method and every workers/backend setting ('threading', 'loky', single-process 'mpi'), the run gives exactly the callbacks and the result of the serial run with updating='deferred' and the same seed, each candidate being evaluated exactly once and its value credited to that candidate, in whatever order the workers finish. workers other than 0 and 1, or the mpi backend, override updating='immediate'.",
 ["schedules", "inputs", "configurations"],
 "All completion orders of the workers, workers in {0, 1, 2, 3, -1}, popsize above, equal to and below workers, the three backends, all methods and options.",
 "Tests run workers=2 with threading and mpi for some de/pso/cpso cases with an instantaneous objective, so that completion order is never varied; cmaes, vdcma, na and loky are never run in parallel.",
 [O+"_common.py"] + SLOT[1:4] + GEN[:2], [("optimizer decorator", O+"_common.py"), ("sync override", "minimize() of de and cpso")], OBS)

prop("C19", "Under MPI all ranks stay in step, share the work and agree",
 "With backend='mpi' on any number of ranks, in every iteration each candidate is evaluated by exactly one rank and all ranks make the same sequence of collective calls, so that none waits for ever; all ranks return the same result, with x and fun belonging together, seeded or not. With a seed that result is the one of the serial run with updating='deferred'.",
 ["schedules", "configurations", "inputs"],
 "1 to 5 ranks, also more ranks than candidates, every interleaving of the ranks between collective calls, all methods, seeded or unseeded with different random states per rank, deterministic objectives.",
 "The tests run MPI with a single rank.",
 [O+"_common.py"], [("mpi wrapper: Bcast, cyclic distribution, Barrier, Allreduce", O+"_common.py")], OBS)

prop("C20", "Errors of user code stop the run at once and leave nothing behind",
 "If the objective, the gradient or the callback raises, minimize()/sample() raises that same exception, after which neither the objective nor the callback is called again by that run (parallel backends may only finish the current iteration's evaluations) and no callback sees the failed iteration. A later seeded run behaves as if the failed one had never happened.",
 ["fault_sequences", "crash_points", "configurations"],
 "A failure injected at every evaluation, gradient and callback position of short runs, all methods, updating modes and in-process backends.",
 "No test makes user code fail.",
 SLOT + GEN + ["stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"], [("no exception handling around user code; Parallel used as context manager", O+"_common.py")], OBS + SOBS)

prop("C21", "Arguments and earlier callback states are never modified",
 "No optimizer or sampler changes the objects it was given: bounds, x0, args, the options dictionary and arrays inside it keep their contents. The state given to a callback (x, fun, nfev, nit, xall, funall) keeps the values it had when the callback was called, whatever the run does later, and so do the arrays of a returned result during later runs.",
 ["inputs", "configurations", "histories"],
 "All methods, x0 and stepsize as arrays, lists, integer arrays; both updating modes; callbacks that keep every state.",
 "Tests never look at their arguments or at stored states after the call.",
 SLOT + GEN + ["stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"], [("copies of x0, gbest, rows of xall", "all methods")], OBS + SOBS)

prop("C22", "MCMC is a Metropolis chain over blocks of coordinates",
 "Each mcmc sample is either the previous sample or a proposal that differs from it only in the current block of max(1, int(perc*ndim)) consecutive coordinates, blocks being visited cyclically, with a centred normal perturbation of standard deviation stepsize times half the width of that coordinate's bounds. A proposal is accepted always when its value is not larger than the current one and otherwise with probability exp(current - proposed).",
 ["inputs", "configurations", "histories"],
 "All objectives, dimensions, perc, step sizes (scalar or per coordinate), boxes, x0, chain lengths.",
 "One seeded chain with perc=1 in a square box; acceptance frequencies, blocks and per-coordinate steps are not asserted.",
 ["stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/_common.py"], [("block loop and log_alpha", "stochopy/sample/mcmc/_mcmc.py")], SOBS)

prop("C23", "HMC proposals follow the leapfrog trajectory and the Metropolis rule",
 "Each hmc proposal is the end of a leapfrog trajectory of the sampled function started at the current sample with a fresh standard normal momentum: consecutive positions satisfy q[k+1] - 2 q[k] + q[k-1] = -eps^2 * grad(q[k]) with eps = stepsize times half the width of the bounds, over 1 + nleap full position steps, grad being the user's jac(x, *args) or a central difference of step finite_diff_abs_step. It is accepted always when the total energy does not increase and otherwise with probability exp(energy before - energy after); a rejected proposal repeats the previous sample.",
 ["inputs", "configurations", "histories"],
 "All objectives and gradients, user-supplied or numerical, nleap, stepsize (scalar or per coordinate), boxes, args.",
 "One seeded chain with numerical gradient; jac is never passed.",
 ["stochopy/sample/hmc/_hmc.py"], [("leap-frog loop, log_alpha, numerical_gradient", "stochopy/sample/hmc/_hmc.py")], SOBS)

prop("C24", "Sampler results report the chain and its best sample faithfully",
 "mcmc and hmc return a chain of exactly maxiter samples whose funall entries are the objective's values at the xall entries; x and fun are the best sample of the whole chain, the first one included, and accept_ratio is the number of accepted proposals divided by maxiter. The callback is called once per sample in order, with that sample, the number of samples so far as nit, the best of them as x/fun, and (with return_all) all of them as xall/funall, and from the second sample on the accepted share of the samples so far as accept_ratio.",
 ["inputs", "configurations", "histories"],
 "All objectives, chain lengths (1 included), constraints, perc, chains that accept nothing, everything or some.",
 "Tests compare x of one seeded chain per method; fun, funall, accept_ratio, short chains and callback states are not asserted.",
 ["stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"], [("imin/fmin, argmin(funall), n_accepted", "sample()")], SOBS)

prop("C25", "Invalid configurations are rejected before anything is evaluated",
 "A call whose objective, callback or jac is not callable, whose bounds are not two-dimensional, whose x0 has the wrong shape, whose popsize is below 2 (de, pso, cpso, na) or too small for the DE strategy, whose numeric parameters lie outside their documented ranges, or which names an unknown method, strategy, constraint of an optimizer, updating mode or backend raises an exception without ever calling the objective. Every configuration inside the documented ranges, end points included, is accepted and runs to completion.",
 ["configurations", "inputs"],
 "All single deviations and pairs of deviations from valid configurations, all methods, direct functions and minimize/sample, values at, just inside and just outside every limit.",
 "No test passes an invalid argument or a limit value.",
 SLOT + GEN + ["stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py", O+"_helpers.py", "stochopy/sample/_helpers.py"], [("argument checks", "minimize()/sample() of each method")], ["exception type", "number of objective calls"])

prop("C26", "The generic entry points and the direct functions are the same optimizers",
 "minimize(fun, bounds, x0, args, method=m, options=o, callback=c) behaves exactly like the function of method m called directly with the same options and the same seed, 'de' being the default, and sample(...) likewise with 'mcmc'; options=None means no options. pso with any options equals cpso with the same options and competitivity None or 0.",
 ["inputs", "configurations"],
 "All methods, every option set to a non-default value, with and without x0, args and callback.",
 "Tests call only minimize/sample with a method name, and compare pso to cpso only through equal reference numbers of the deferred case.",
 [O+"_helpers.py", O+"pso/_pso.py", O+"cpso/_cpso.py", "stochopy/sample/_helpers.py", O+"__init__.py", "stochopy/sample/__init__.py"], [("_optimizer_map, _sampler_map, register", "_helpers.py"), ("positional forwarding of options", O+"pso/_pso.py")], OBS + SOBS)

prop("C27", "Result objects are dictionaries whose keys are their attributes",
 "For OptimizeResult and SampleResult, at any point of any sequence of item and attribute assignments, deletions and updates, reading attribute k (not the name of a dict method) gives the value of key k, a missing key gives AttributeError (attribute) or KeyError (item), and dir() lists exactly the keys. repr() shows every key except xall and funall, and survives an empty result.",
 ["histories", "inputs"],
 "All sequences of set/delete/update/get operations through both interfaces over a few keys, including xall and funall.",
 "Tests only read x, xall attributes of results.",
 ["stochopy/_common.py"], [("BaseResult.__getattr__, __setattr__, __delattr__, __repr__, __dir__", "stochopy/_common.py")], ["attribute and item access", "dir()", "repr()"])

prop("C28", "Benchmark functions have the documented formulas, minima and symmetries",
 "For every dimension >= 1 (rosenbrock >= 2) and every real vector given as list, tuple or array, ackley, griewank, quartic, rastrigin, rosenbrock, sphere and styblinski_tang return the standard formula of that name without changing their argument, are non-negative up to rounding of their published constants, and reach 0 exactly at their known minimizer (up to rounding). All but rosenbrock, quartic and griewank do not depend on the order of coordinates, and all but rosenbrock and styblinski_tang do not depend on signs.",
 ["inputs"],
 "All lattice points of small boxes in dimensions 1 to 4, half-integer points where the formula is exact, list/tuple/array/int inputs.",
 "One point (all ones, dimension 10) per function; many different formulas agree there.",
 ["stochopy/factory/benchmark.py"], [("the seven functions", "stochopy/factory/benchmark.py")], ["returned value"])

prop("C29", "The search is equivariant under rescaling of the box",
 "Multiplying bounds, x0 (and an absolute finite-difference step) by a power of two and composing the objective with the inverse scaling multiplies every evaluated point and every sample by that power and changes nothing else, for all optimizers (cpso without competitive restarts, xtol scaled) and samplers, also when each coordinate has a different width.",
 ["inputs", "configurations"],
 "All methods, options, constraints, boxes, powers of two, seeds.",
 "A relation between two runs; tests use one box.",
 SLOT + GEN + ["stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"], [("lhs, standardize/unstandardize, normalize/unnormalize, stepsize scaling, constraints", "all methods")], OBS + SOBS)

prop("C30", "The search has no preferred direction: mirrored problems give mirrored runs",
 "Reflecting the box, x0 and the objective at the origin reflects every evaluated point, every sample and every reported position and changes nothing else: for de (without constraints), pso and cpso (without competitive restarts, with or without 'Shrink') started from an x0, reflecting any subset of the coordinates; for cmaes, vdcma (with or without 'Penalize'), mcmc and hmc, reflecting all coordinates together with the normal deviates drawn. In particular lower and upper bounds are treated alike.",
 ["inputs", "configurations"],
 "All options and constraints (boundary weights of 'Penalize' included), boxes, objectives with optima inside the box or beyond any of its faces, x0, seeds.",
 "A relation between two runs; the tests use a box symmetric about the origin with an optimum in its interior, where no bound is ever violated for long.",
 [O+"de/_de.py", O+"cpso/_cpso.py", O+"cpso/_constraints.py", O+"cmaes/_cmaes.py", O+"cmaes/_constraints.py", O+"vdcma/_vdcma.py", "stochopy/sample/_common.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"],
 [("Penalize, Shrink, in_search_space treat both faces", "_constraints.py modules, sample/_common.py"), ("updates of the strategy parameters are even in the steps", "cmaes(), vdcma()")], OBS + SOBS)

prop("C31", "CMA-ES adapts mean, step size and covariance as published",
 "Without constraints every generation k of cmaes consists of popsize points m + sigma * C^(1/2) z with independent standard normal z (coordinates scaled so that the box is [-1,1]^n), where (m, sigma, C) start as (x0, sigma, I) and follow Hansen's tutorial: parents are the best mu = max(1, floor(muperc * popsize)), weighted by log(mu + 1/2) - log(i) (normalised), mueff = 1 / sum w^2; m becomes their weighted mean; p_s <- (1-cs) p_s + sqrt(cs (2-cs) mueff) C^(-1/2) dm/sigma; h = [ |p_s| / sqrt(1 - (1-cs)^(2k)) / chi < 1.4 + 2/(n+1) ]; p_c <- (1-cc) p_c + h sqrt(cc (2-cc) mueff) dm/sigma; C <- (1 - c1 - cmu) C + c1 (p_c p_c^T + (1-h) cc (2-cc) C) + cmu sum w y y^T with y = (x - old m)/sigma; sigma <- sigma exp((cs/damps)(|p_s|/chi - 1)); cc = (4 + mueff/n)/(n + 4 + 2 mueff/n), cs = (mueff+2)/(n+mueff+5), c1 = 2/((n+1.3)^2 + mueff), cmu = min(1-c1, 2 (mueff - 2 + 1/mueff)/((n+2)^2 + mueff)), damps = 1 + 2 max(0, sqrt((mueff-1)/(n+1)) - 1) + cs, chi = sqrt(n)(1 - 1/(4n) + 1/(21 n^2)). The matrix sampled from is decomposed again as soon as more than 1/(10 n (c1 + cmu)) generations have passed.",
 ["inputs", "configurations", "histories"],
 "All dimensions, popsize, muperc, sigma, boxes, x0 given or drawn, seeds and orders of the fitness values (distinct values), any number of generations while the matrix is well conditioned.",
 "The tests pin the final x of a few seeded 2-D runs; none looks at step size, covariance, paths, weights of several parents, or at dimensions where the decomposition is reused.",
 [O+"cmaes/_cmaes.py"], [("strategy parameters, cumulation, rank-one and rank-mu update, step size, eigen decomposition", O+"cmaes/_cmaes.py")], ["points evaluated per generation", "values of the objective (their order)", "normal deviates drawn from numpy.random"],
 [dict(name="xmean, sigma, C, B, D, invsqrtC, pc, ps", meaning="state of the strategy", where="local variables of cmaes()")])

prop("C32", "'Penalize' repairs infeasible points and weighs violations as documented",
 "With constraints='Penalize' (cmaes, vdcma; coordinates scaled to [-1,1]^n) the point evaluated is the candidate clipped to the box, and the fitness (as in funall) is the value of the clipped point plus sum_j w_j/s_j (clipped - candidate)_j^2, with s_j = exp(0.9 (log C_jj - mean_k log C_kk)). Parents are ranked by this fitness and the mean moves to the weighted mean of the unclipped candidates. Each generation remembers d = IQR(raw values)/(n mean(C_jj) sigma^2) (linear percentiles; a generation without spread remembers the smallest positive d so far; the first one with spread clears the initial history, which is the number 1), keeping the last ones (the history grows while its length is below 20 + 3n/popsize). While in the initial phase and the mean is outside in some coordinate, all w_j are set to 2.0002 * median(history); the phase ends when that happens after generation 2 (and some spread has been seen). Then w_j is multiplied by 1.2^min(1, mueff/(10n)) whenever the mean is outside in j by more than 3 max(1, sqrt(n/mueff)) sigma sqrt(C_jj) and has moved further in that direction in the last step; otherwise weights do not change.",
 ["inputs", "configurations", "histories"],
 "Optima inside, on and beyond faces, objectives with and without spread, x0 inside or outside the box, all dimensions, popsize, muperc, sigma, seeds; generations entirely outside the box included.",
 "The two tests with 'Penalize' have an interior optimum: the weights stay zero and no test ever computes a penalty.",
 [O+"cmaes/_constraints.py", O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py"], [("Penalize()", O+"cmaes/_constraints.py"), ("call sites", "cmaes(), vdcma()")], ["points evaluated", "funall", "values of the objective", "normal deviates drawn from numpy.random"],
 [dict(name="bnd_weights, dfithist, validfitval, iniphase", meaning="state of the penalty", where="cmaes(), vdcma()")])

prop("C33", "VD-CMA adapts mean, step size and its restricted covariance as published",
 "Without constraints every generation of vdcma consists of points m + sigma D (I + v v^T)^(1/2) z (box scaled to [-1,1]^n), starting from D = I, v = normal/sqrt(n), m = x0; from the second generation on the first two candidates are m + t dm and m - t dm instead, dm being the last shift of the mean and t such that their Mahalanobis length is that of a standard normal vector. The mean moves to the weighted mean of the parents (weights as in CMA-ES). From the second generation on p <- 0.7 p + 0.3 (r2 - r1)/(popsize - 1), with r1, r2 the ranks of the two candidates, and sigma <- sigma exp(p/sqrt(n)); the cumulated path p_c and the rank-one term are updated only while p < 1/2. For n <= 5 the shape never changes. For n > 5 (v, D) move along the natural gradient of the weighted log-likelihood of parents (learning rate cmu) and path (c1), both CMA-ES rates times (n-5)/6, with the published modification of the Fisher matrix when its alpha < 1, and a step shortened so that |v| and each D_j change by at most 70 %.",
 ["inputs", "configurations", "histories"],
 "Dimensions below and above 5, all popsize, muperc, sigma, boxes, x0 given or drawn, seeds and orders of the fitness values (distinct), selections of outliers that make the 70 % rule act.",
 "The tests run vdcma in two dimensions, where the shape never adapts: none of the natural-gradient code is executed by them.",
 [O+"vdcma/_vdcma.py"], [("sampling with injected pair, two-point step size, pvec_and_qvec, ngv_ngd, truncation", O+"vdcma/_vdcma.py")], ["points evaluated per generation", "values of the objective (their order)", "normal deviates drawn from numpy.random"],
 [dict(name="xmean, sigma, dvec, vvec, pc, ps", meaning="state of the strategy", where="local variables of vdcma()")])

prop("C34", "Arguments bind as documented and left-out options have the documented defaults",
 "Every function of stochopy.optimize and stochopy.sample takes its parameters under the documented names and in the documented order, and any subset of options may be left out: however a call passes its arguments (a prefix by position, by name, or in the options dictionary of minimize()/sample(), in any combination), it evaluates the same points and gives the same callbacks and result as the call of the direct function that spells out the whole configuration, every missing parameter having its documented default (maxiter 100, popsize 10, tolerances 1e-8, DE 0.5 / 0.9 / best1bin, PSO 0.7298 / 1.49618 / 1.49618, competitivity 1, nrperc 0.5, sigma 0.1, muperc 0.5, immediate updating, one worker, MCMC step 0.1 and perc 1, HMC 10 leaps of 0.01 and finite-difference step 1e-4, no constraints, no seed, verbosity 1, return_all False for optimizers and True for samplers). The result has the documented fields with scalar fun and 1-D x, has xall and funall exactly when return_all is set, and callback states have the same fields (without success, status and message for optimizers).",
 ["inputs", "configurations"],
 "All eight methods; every prefix of positional arguments; every set of at most two left-out options and 'everything left out', with the others at their defaults or at other values; generic and direct entry points; boxes, dimensions, objectives around the tolerances.",
 "The tests always pass their options explicitly by keyword through minimize()/sample(), so neither defaults nor parameter order nor the presence of fields matters to them.",
 [O+"_helpers.py", O+"de/_de.py", O+"pso/_pso.py", O+"cpso/_cpso.py", O+"na/_na.py", O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py", "stochopy/sample/_helpers.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"],
 [("signatures of the public functions", "minimize()/sample() of every module"), ("pso forwards to cpso", O+"pso/_pso.py")], OBS + ["thread that evaluates"])

prop("C35", "Random choices are the prescribed lotteries",
 "The random choices of the algorithms are fair and independent whatever the population size, dimension, iteration, updating mode and member: the donors of a DE trial are a uniformly random ordered choice of distinct other members; one uniformly drawn coordinate of the trial comes from the mutant and every other one does independently with probability `recombination`; 'Random' replaces exactly the infeasible coordinates, by values uniform over their bounds; the two weights of a PSO/CPSO step are independent uniform numbers on [0, cognitivity] and [0, sociability] for every particle, coordinate and iteration; restarted cpso particles are uniform over the box; the members of a Latin hypercube are uniform inside their intervals and the intervals are permuted uniformly and independently for every coordinate; starting points of cmaes, vdcma, mcmc and hmc that are not given are uniform over the box.",
 ["inputs", "configurations", "histories"],
 "Strategies, popsize from the smallest, popsize to 40, dimensions 1-25, recombination 0 to 1, both updating modes, direct and generic entry, all iterations of long runs, pairs of draws at every distance (coordinates, members, iterations).",
 "A pinned seeded result says nothing about a distribution, and a choice that is never made (a coordinate, a donor, half of an interval) changes no assertion.",
 [O+"de/_de.py", O+"de/_strategy.py", O+"de/_constraints.py", O+"cpso/_cpso.py", O+"_common.py", O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"],
 [("delete_shuffle_sync/async, irand and r1", O+"de/_de.py"), ("Random()", O+"de/_constraints.py"), ("r1, r2, restart", O+"cpso/_cpso.py"), ("lhs", O+"_common.py")], ["evaluated points"])

prop("C36", "CMA-ES and VD-CMA give up for numerical reasons that hold, in a fixed order",
 "When neither maxiter nor ftol ends the run, cmaes and vdcma stop after the first generation k in which one of these holds and report the first one that does, in this order: -2 NoEffectAxis (cmaes only: 0.1 sigma d b is below 1e-10 in every coordinate, d and b being standard deviation and direction of principal axis number k mod n of C, counted from 0 in increasing order of d), -3 NoEffectCoord (0.2 sigma sqrt(C_jj) < 1e-10 for some coordinate), -4 ConditionCov (cmaes only: the condition number of C exceeds 1e14), [-5 EqualFunValues], -6 TolXUp (sigma sqrt(C_jj) exceeds 1000 times the initial sigma for some coordinate), [-7 TolFun], -8 TolX (sigma sqrt(C_jj) and sigma |p_c,j| are below 1e-11 times the initial sigma for every coordinate). Here the box is scaled to [-1,1]^n, and sigma, p_c and C are those of C31 and C33 after the generation's update (for vdcma the C the generation was sampled from); -5 and -7 are those of C06. No run goes on although one of them holds.",
 ["inputs", "configurations", "histories"],
 "Initial sigma from 1e-9 to 1e5, dimensions 1-8, popsize, muperc, every schedule of three phases of shrinking, growing and flattening selection; thresholds closer than 0.2 % (15 % for C with a condition number above 1e10) are not judged.",
 "The pinned runs end at maxiter or ftol; none of them comes near a numerical limit, so the conditions could be negated without failing an assertion.",
 [O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py"],
 [("converge()", O+"cmaes/_cmaes.py"), ("the call of converge()", O+"vdcma/_vdcma.py")], ["evaluated points", "status", "number of generations"])

prop("C37", "Calls that are under way at the same time do not disturb each other",
 "Any number of calls (optimizers and samplers, of the same or of different methods) can be under way at the same time: a call made by the objective or by the callback of another one, or by another thread between two evaluations. Provided whoever switches between them restores numpy's global random state, every call evaluates the same points, hands the same states to its callback and returns the same result as if it were the only one, and a result that has been returned does not change any more whatever is called afterwards.",
 ["interleavings", "histories", "configurations"],
 "All eight methods, two and three calls, every interleaving of four steps each and every nesting up to depth three, calls of the same sizes with other seeds, boxes and objectives.",
 "The tests make one call after the other; working memory, caches or defaults shared between calls only show when a second call runs before the first one ends.",
 [O+"_common.py", O+"_helpers.py", O+"de/_de.py", O+"cpso/_cpso.py", O+"na/_na.py", O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"],
 [("working arrays", "every optimizer and sampler"), ("constraint closures", O+"*/_constraints.py")], OBS)

prop("C38", "Limits only decide when a run ends",
 "maxiter, ftol and xtol decide when a run ends and influence nothing else (exception: the collapse radius of cpso with competitivity > 0 is a documented function of maxiter). Of two runs with the same seed, the one with the larger maxiter or smaller ftol makes the same evaluations, in the same order, and the same callbacks as long as the other one lasts; it lasts at least as long; if the other one ended for a reason that is not affected by the changed limit both results are the same; and for de, pso, cpso, na, mcmc and hmc its best value is not larger. xtol changes at most the reason that de, pso, cpso, na, cmaes and vdcma give, never when they end.",
 ["inputs", "configurations", "histories"],
 "All methods; maxiter up to several thousand, tolerances around the values the run attains; the usual distribution of configurations.",
 "A relation between two runs; the pinned tests run every method with one maxiter and one tolerance.",
 [O+"_common.py", O+"de/_de.py", O+"cpso/_cpso.py", O+"na/_na.py", O+"cmaes/_cmaes.py", O+"vdcma/_vdcma.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"],
 [("selection_sync, selection_async", O+"_common.py"), ("converge()", O+"cmaes/_cmaes.py"), ("loops over maxiter", "every optimizer and sampler")], OBS)

prop("C39", "Competitive restarts happen at the published radius and in the published number",
 "cpso with competitivity g > 0 repositions particles after iteration k (2 <= k < maxiter) exactly when the swarm has collapsed, i.e. max_i |x_i - best| / sqrt(4 ndim) < ln(1 + 0.003 popsize) / max(0.2, ln(0.01 maxiter)), where x_i are the places just evaluated and best is the best point so far, and it then repositions exactly floor((popsize - 1) / (1 + exp((k/maxiter - g + 1/2) / 0.09))) of them (Luu et al. 2018, Competitive PSO).  It never does so around the first or after the last iteration.",
 ["inputs", "configurations", "histories"],
 "All popsize, ndim, maxiter (below and above 122, where the radius starts to depend on it), competitivity in (0, 2], boxes of any size compared with the radius, both updating modes, objectives with ties; swarms that only move by restarts (any sets of values) and swarms in motion whose restarts stand out.",
 "The schedule depends on five quantities and acts only on collapsed swarms; the pinned runs use one popsize, one maxiter and the default competitivity, and assert the end point only.",
 [O+"cpso/_cpso.py"], [("restart", O+"cpso/_cpso.py"), ("delta (swarm maximum radius) and the call of restart", O+"cpso/_cpso.py")], OBS)

prop("C40", "Arguments count by their values, not by the form they are given in",
 "A seeded run is the same, bit for bit (points evaluated, callbacks, result), whatever form its arguments take, as long as the values are equal: x0, bounds and stepsize as lists, tuples, sequences of rows, arrays of any floating or integer type, strided, Fortran ordered or read-only; options as Python or NumPy numbers, integers for whole floats, in any order; objective values as float, NumPy scalar, zero-dimensional array or (whole values) integer; fun and callback as functions, partial objects, bound methods or callable objects; whatever the callback returns.",
 ["inputs", "configurations"],
 "All methods and entry points, pairs of runs that differ in the form of one argument or of several.",
 "Tests give bounds as lists of floats, x0 as a float64 array and plain functions only; narrow types overflow or round where no error shows.",
 SLOT + GEN + [O+"_common.py", "stochopy/sample/mcmc/_mcmc.py", "stochopy/sample/hmc/_hmc.py"], [("unpacking of bounds, x0 and stepsize", "each method"), ("lhs, values of the objective", O+"_common.py")], OBS + SOBS)

import os
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
