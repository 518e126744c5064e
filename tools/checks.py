"""Source of MANIFEST.json (run tools/gen.py to regenerate)."""

STEP = 'explicit-state exploration of the real MCMC step under an enumerated random source'
ENUM = 'bounded exhaustive enumeration of inputs on the real code against an independent reference'
RUNS = 'exhaustive enumeration of schedules and settings on the real code'

TRUST = ' Trusts jax, numpy and the reference in mc/ref.py; nothing is claimed beyond the stated bounds.'

T = {
 'C01': (STEP, 'In every reachable forest of small configurations (up to 4 levels, 3 trees, 4 predictors, plus type-width edges, leaves with up to 65800 datapoints, and branches of deep trees) every proposal is executed with the acceptance draw just below and just above the reference Metropolis-Hastings ratio.'),
 'C02': (STEP, 'The measure of random answers that leads to each successor is obtained by enumerating a grid of all answers of the proposal draws in every reachable tree, and compared with the reference proposal distribution.'),
 'C03': (STEP, 'Legality invariant on every transition of the exploration, including predictors with no or exhausted cutpoints, 8/16 bit edges and deep trees.'),
 'C04': (STEP, 'Residuals, leaf assignments and growth flags recomputed from the trees on every transition of the exploration.'),
 'C05': (STEP, 'Leaf sizes recomputed from the trees on every transition, and every legal grow shown to be reachable.'),
 'C06': (STEP, 'Response of each leaf value to scripted normal draws compared with the conditional posterior in every reachable state and kind of move.'),
 'C07': (STEP, 'Response of the error variance to scripted gamma draws compared with the conditional in every reachable state.'),
 'C08': (STEP, 'The same transitions executed under every option value in the bounds, and eager, compiled and vectorized.'),
 'C09': (RUNS, 'Layout and purity of the step and of its sub-steps for a grid of storage types, sizes and options, abstractly evaluated and executed.'),
 'C10': (STEP, 'Counters and saved ratios compared with the observed change of each tree on every transition.'),
 'C11': (RUNS, 'Initial state compared with the reference over a grid of sizes, types and options including type-width edges.'),
 'C12': (RUNS, 'All (burn-in, saved, skip) schedules in the bounds compared with one reference chain.'),
 'C13': (RUNS, 'All (burn-in, saved, skip, period) schedules in the bounds; complete log of callbacks and printed lines compared with the reference chain.'),
 'C14': (ENUM, 'All trees to depth 3, all points of the bin grid, all storage types at their limits, all batching regimes of trace evaluation.'),
 'C15': (ENUM, 'All tree shapes up to 5 levels, all large array sizes in bounds.'),
 'C16': (ENUM, 'All short vectors over small alphabets for each type and number of bins, plus type-width edges.'),
 'C17': (ENUM, 'All short vectors over small alphabets, all numbers of bins in bounds, plus type-width edges.'),
 'C18': (ENUM, 'All values at, between and beyond cutpoints for all small cutpoint tables, search methods and batch budgets.'),
 'C19': (RUNS, 'The MCMC is replaced by an environment that answers with all legal trees in turn, for a grid of settings; complete fits for a few configurations.'),
 'C20': (RUNS, 'All settings that differ from the defaults in one argument and most pairs; what reaches the chain is compared with formulas in float64.'),
 'C21': (RUNS, 'All unit changes in a list applied to all columns for a list of settings; what reaches the chain and what comes out of it compared.'),
 'C22': (RUNS, 'All combinations of containers; all mismatched inputs of a systematic list, integers beyond float precision included.'),
 'C23': (ENUM, 'All axis layouts, sizes and byte budgets in bounds; calls of the wrapped function recorded.'),
 'C24': (ENUM, 'All short vectors over small alphabets for each type, length and fill value.'),
 'C25': (RUNS, 'Complete log of all key derivations and draws of whole runs under an instrumented key type, for a grid of schedules and configurations; set of decisions that each elementary draw of the proposals influences, in reachable states.'),
 'C26': (ENUM, 'All arrays over small alphabets (well formed or not) for small trees; bits compared with an independent classifier.'),
 'C27': (ENUM, 'All trees to depth 3 and points of the bin grid; large trees at the limits of the types.'),
 'C28': (ENUM, 'All tree shapes to 4 levels with several contents; text compared with an independent printer.'),
 'C29': (RUNS, 'All orders in a list of repeated fits, seed forms, and transformations on complete fits.'),
 'C30': (ENUM, 'Measure of the answers of the random source leading to each result by enumeration, for all small arguments.'),
 'C31': (ENUM, 'All legal trees of small configurations, all nodes and variables; type-width edges.'),
 'C32': (ENUM, 'All type limits and their neighbours; grids of quantile arguments against scipy; all static dictionaries of a list.'),
 'C34': (RUNS, 'All permutations of small datasets and generators of those of larger ones, all subsets of test points, all combinations of monotone transformations, on complete fits of the real code.'),
 'C33': (RUNS, 'The MCMC is replaced by an environment that answers with all legal trees in turn, or with all patterns of malformed trees over a few iterations; complete fits for a few configurations.'),
 'C35': (RUNS, 'All datasets of up to 5 points over small alphabets, all pairs of unusual predictors and responses of a list, complete fits of the real code. Constant responses are a known finding.'),
}

CHECKS = [dict(property=k, quick_cmd=f'python3 checks/run.py {k}', thorough_cmd=f'python3 checks/run.py {k} --thorough',
               technique=t, level='model_checking', level_note=n + TRUST) for k, (t, n) in T.items()]
NOT_APPLICABLE = {}
TOP = dict(setup_cmd='python3 checks/setup.py', notes='No hooks in /repo. See DESIGN.md.')
