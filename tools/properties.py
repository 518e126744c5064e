"""Source of /verif/properties.jsonl (run tools/gen.py to regenerate)."""

def P(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=None))

S = 'src/bartz/mcmcstep.py'
L = 'src/bartz/mcmcloop.py'
G = 'src/bartz/grove.py'
J = 'src/bartz/jaxext.py'
Q = 'src/bartz/prepcovars.py'
B = 'src/bartz/BART.py'
D = 'src/bartz/debug.py'

UNTESTED = 'No test that runs here executes the MCMC step at all, and the upstream interface tests only look at a few seeded chains; '

PROPERTIES = [

P('C01', 'Tree moves are accepted so that the BART posterior is stationary',
  'In every MCMC step, each tree\'s proposed grow or prune move is accepted if and only if the step\'s uniform draw is at most the exact Metropolis-Hastings ratio (posterior ratio times reverse/forward proposal probability) for the BART posterior: node at depth d nonterminal with its prior probability, splitting variables and cutpoints uniform among those available, leaf values Normal(0, 1/number of trees), Gaussian noise with the current error variance, and trees violating the minimum leaf size excluded. '
  'Trees are updated one after the other, the ratio of each tree being computed against the residuals that already include the updates of the previous trees in the same step. '
  'Hence the transition kernel on trees leaves the posterior invariant.',
  ['histories', 'inputs', 'configurations'],
  'For all reachable forests, all proposals, all values of the acceptance draw, all data, depth limits, prior probabilities, minimum leaf sizes and noise variances.',
  UNTESTED + 'a wrong transition or prior factor changes which trees are sampled, not whether a run finishes, and is only visible by comparing every transition with the posterior.',
  [S], [('partial ratio', 'compute_partial_ratio'), ('prune probability', 'compute_p_prune, complete_ratio'), ('likelihood ratio', 'precompute_likelihood_terms, compute_likelihood_ratio'), ('decision', 'accept_move_and_sample_leaves')],
  ['trees in the state returned by step for each scripted acceptance draw'],
  [('split_trees/var_trees', 'tree structures', 'state dict'), ('resid', 'data minus forest', 'state dict')]),

P('C02', 'Grow/prune proposals have exactly the documented distribution',
  'When both moves are possible, grow and prune are proposed with probability 1/2 each; when only one is possible it is always the one proposed, and when none is possible the tree is unchanged. '
  'A grow proposal picks a leaf above the bottom level (with at least twice the minimum leaf size of datapoints, if a minimum is set) with probability proportional to the prior nonterminal probability of its depth, then a variable uniformly among those whose cutpoints are not exhausted at that leaf, then a cutpoint uniformly in the range left by its ancestors; a prune proposal picks uniformly among the nodes whose children are both leaves.',
  ['histories', 'inputs', 'configurations'],
  'For all reachable trees and all answers of the random source, for all numbers of predictors and cutpoints, depth limits and minimum leaf sizes.',
  UNTESTED + 'a biased or truncated proposal still yields valid trees; only enumerating all answers of the random source shows the distribution.',
  [S, G], [('leaf choice', 'choose_leaf, growable_leaves, categorical'), ('rule choice', 'choose_variable, choose_split, fully_used_variables, split_range, randint_exclude'), ('prune choice', 'choose_leaf_parent, randint_masked'), ('move choice', 'sample_moves')],
  ['set of successor trees of step and the measure of random answers leading to each']),

P('C03', 'Every reachable forest is a well-formed, legal decision forest',
  'After any number of MCMC steps, every tree is well formed: the unused array slot is zero, every decision node\'s parent is a decision node, leaf values are finite. '
  'Every decision rule uses an existing predictor and a cutpoint between 1 and that predictor\'s number of cutpoints, strictly inside the range left open by the ancestors that use the same predictor, so no rule is redundant or out of range even when some or all predictors have no cutpoints (left).',
  ['histories', 'inputs', 'configurations'],
  'For all histories of moves from the initial state, whatever the random draws, for all numbers of predictors, cutpoints per predictor (including none), tree depth limits and forests sizes.',
  UNTESTED + 'the only related upstream test looks at one seeded chain and its checker ignores whether rules are legal.',
  [S, G], [('range of legal rules', 'split_range, ancestor_variables, fully_used_variables'), ('state update', 'apply_moves_to_split_trees, grow_move')],
  ['leaf_trees, var_trees, split_trees of every state reached'],
  [('var_trees, split_trees', 'decision rules, heap order', 'state dict')]),

P('C04', 'Cached residuals and leaf assignments always match the forest',
  'After any number of MCMC steps, the residuals stored in the state equal the response minus the sum of the trees evaluated at the training predictors, and the stored leaf index of every datapoint in every tree is the leaf that datapoint falls into when the tree is traversed. '
  'When a minimum leaf size is set, the stored flag of every actual leaf above the bottom level tells whether it holds at least twice that many datapoints.',
  ['histories', 'inputs', 'configurations'],
  'For all histories of accepted and rejected grow and prune moves over several trees, all data (including index types that are exactly full), batch sizes and storage types.',
  UNTESTED + 'the incremental updates must be right for each combination of move kind, acceptance and tree shape; one upstream test compares residuals at the end of one chain.',
  [S], [('incremental indices', 'apply_grow_to_indices, apply_moves_to_leaf_indices'), ('incremental residuals', 'accept_move_and_sample_leaves'), ('affluence', 'accept_moves_parallel_stage')],
  ['resid, leaf_indices, affluence_trees of every state reached, against from-scratch recomputation'],
  [('leaf_indices', 'leaf of each datapoint', 'state dict'), ('resid', 'residuals', 'state dict'), ('affluence_trees', 'leaves with enough points', 'state dict')]),

P('C05', 'No tree ever has a leaf below the minimum number of datapoints',
  'If a minimum number of datapoints per leaf is set and the data has at least that many points, no leaf of any tree in any state of the chain contains fewer datapoints than the minimum. '
  'The constraint does not block more than that: a legal grow move whose two new leaves both satisfy the minimum can be proposed and accepted.',
  ['histories', 'inputs', 'configurations'],
  'For all histories of moves, datasets, minimum leaf sizes (including counts exactly at the thresholds) and counting batch sizes.',
  UNTESTED + 'exact-threshold counts are hit by chance only.',
  [S], [('leaf counts', 'compute_count_trees, count_datapoints_per_leaf'), ('rejection', 'accept_move_and_sample_leaves'), ('affluence', 'growable_leaves')],
  ['datapoints per leaf in every reached state; set of reached trees against all legal trees']),

P('C06', 'Leaf values are drawn from their exact conditional posterior',
  'At each step, given the tree structure just accepted and the residuals excluding that tree, the value of each leaf is an independent Normal draw with precision (number of points in the leaf)/(error variance) + (number of trees) and mean (sum of residuals in the leaf)/(error variance)/precision. '
  'This holds for every leaf of every tree, whether the move was a grow or prune, accepted, rejected or impossible, and for empty leaves.',
  ['histories', 'inputs', 'configurations'],
  'For all reachable forests and moves, all values of the normal draws (the value is affine in them), all data and noise variances.',
  UNTESTED + 'wrong means or variances for one leaf in one kind of move only bias the sample.',
  [S], [('posterior moments', 'precompute_leaf_terms'), ('copying leaves after prune', 'accept_move_and_sample_leaves')],
  ['leaf_trees after step under scripted zero/one-hot normal draws']),

P('C07', 'The error variance is drawn from its inverse-gamma conditional',
  'At the end of each step the error variance is an inverse-gamma draw with shape equal to the prior shape plus half the number of datapoints and scale equal to the prior scale plus half the sum of squares of the residuals of the forest as updated in that same step.',
  ['histories', 'inputs', 'configurations'],
  'For all reachable states, gamma draws, priors (including shape or scale zero) and data sizes (including none).',
  UNTESTED + 'an error in shape, scale or which residuals are used only biases the sample.',
  [S], [('conditional', 'sample_sigma'), ('ordering', 'step')],
  ['sigma2 after step as a function of the scripted gamma draw']),

P('C08', 'Computational options do not change the sampled chain',
  'The batch sizes used for summing residuals and for counting datapoints (automatic, none, dividing or not dividing the number of datapoints, larger than it), whether acceptance ratios are saved, and whether the step is compiled, run eagerly or vectorized over chains have no effect on the chain: for the same random key and state the same trees and the same values up to floating point rounding are produced.',
  ['configurations', 'histories', 'inputs'],
  'For all combinations of options on all reached states and random answers.',
  'Existing tests never run the step; a batching error drops or double counts datapoints only for sizes that do not divide evenly.',
  [S], [('batched sums', '_aggregate_batched_onetree, _aggregate_batched_alltrees, _count_scan'), ('automatic batch size', '_choose_suffstat_batch_size')],
  ['states returned by step under each option']),

P('C09', 'A step leaves its input alone and keeps the state\'s layout',
  'Performing a step (or any of its documented sub-steps) never modifies the state passed as argument, including nested entries, and returns a state with exactly the same entries, shapes and data types, for every supported configuration of storage types, depth limit and options. '
  'Entries that are settings or data (predictors, response, priors, limits) are returned unchanged.',
  ['configurations', 'histories', 'inputs'],
  'For all combinations of storage types, maximum depths (including 1 and 2), numbers of trees, predictors and datapoints, optional entries and precision mode.',
  'Existing tests never run the step; the combinations of options are what breaks it.',
  [S], [('copy on write', 'bart.copy() in each stage'), ('types', 'init, sample_sigma, accept_move_and_sample_leaves')],
  ['input dict before and after; keys, shapes, dtypes of output']),

P('C10', 'Move counters and saved acceptance ratios are truthful',
  'After each step the proposal counters equal the number of trees for which a grow, respectively prune, move was proposed, and the acceptance counters the number of trees that actually grew, respectively shrank, in that step. '
  'If saving ratios is enabled, for each tree with a possible move the saved prior-and-transition and likelihood log ratios are those of the proposed move in the grow direction.',
  ['histories', 'inputs', 'configurations'],
  'For all reachable forests, all combinations of proposals and acceptances across trees.',
  UNTESTED + 'counters reach the user only through averaged logs.',
  [S], [('counters', 'accept_moves_parallel_stage, accept_moves_final_stage'), ('ratios', 'accept_moves_sequential_stage')],
  ['grow_prop_count, grow_acc_count, prune_prop_count, prune_acc_count, ratios']),

P('C11', 'The initial MCMC state is coherent with data and settings',
  'The initial state is a forest of single-leaf trees with value zero in arrays sized for the depth limit, with residuals equal to the response, all points in the root, error variance equal to the prior harmonic mean (1 if that is not a positive finite number), zeroed counters, growth allowed for the root iff there are at least twice the minimum leaf size of datapoints, and growth preference of a node equal to the prior nonterminal probability at its depth (zero at the bottom level). '
  'Integer storage types are wide enough for every value they can ever hold.',
  ['configurations', 'inputs'],
  'For all depth limits, numbers of trees, predictors, cutpoints and datapoints, including the sizes at which storage types change width.',
  'Existing tests never create the initial state.',
  [S, J, G], [('construction', 'init'), ('types', 'minimal_unsigned_dtype')],
  ['fields of the dict returned by init']),

P('C12', 'The saved trace is the burn-in-and-thinned sequence of the chain',
  'Running the chain with any number of burn-in, saved and skipped iterations returns as main trace exactly the states after iterations burn+skip, burn+2 skip, ... of one and the same underlying chain for that key, as burn-in trace the states after iterations 1..burn, and as final state the last one. '
  'Changing how the iterations are divided never changes the chain, and the traces contain just the documented fields.',
  ['configurations', 'histories'],
  'For all (burn-in, saved, thinning) triples, including zeros, up to the bound.',
  'The upstream test of this compares three settings for one chain and does not run here.',
  [L], [('loops', 'run_mcmc')],
  ['burnin_trace, main_trace, final state']),

P('C13', 'The iteration callback and progress log report each iteration once',
  'The callback passed to the MCMC loop is invoked exactly once per iteration with the state just produced, the 0-based iteration number counted over the whole run, whether the iteration is in the burn-in, the position since the last saved iteration, and the loop settings. '
  'The standard progress printer writes one line at every multiple of its period and no other, showing iteration number, total, a burn-in mark exactly during burn-in, the proposal fractions over all trees and the acceptance fractions over proposals.',
  ['configurations', 'histories'],
  'For all (burn-in, saved, thinning, period) settings up to the bound.',
  'No test looks at callbacks or printed output.',
  [L], [('callback', 'run_mcmc.inner_loop'), ('printer', 'make_simple_print_callback, _simple_print_callback')],
  ['sequence of callback invocations; captured stdout']),

P('C14', 'Evaluating a forest equals evaluating its decision trees by hand',
  'For any well-formed forest and any predictors, the leaf reached by each point is the one obtained by starting at the root and going left when the predictor is strictly below the cutpoint and right otherwise until a node without cutpoint or the bottom, and the forest value is the sum over trees of the values in those leaves, or the separate per-tree values if requested, in the requested type. '
  'Values stored in nodes that are not reached, and rules stored in nodes without cutpoint, have no influence.',
  ['inputs', 'configurations'],
  'For all tree shapes up to the depth bound, all rules, all points of the predictor grid, predictor and index types at their width limits, and traces of several forests.',
  'No existing test evaluates a tree.',
  [G, L], [('traversal', 'traverse_tree, traverse_forest'), ('sum', 'evaluate_forest'), ('trace', 'evaluate_trace')],
  ['outputs of traverse_tree, traverse_forest, evaluate_forest, evaluate_trace']),

P('C15', 'Tree topology queries are exact for every tree shape',
  'For every tree shape, the leaf mask marks exactly the nodes that are leaves of the tree (optionally counting the bottom level), the leaf-parent mask marks exactly the decision nodes with two leaf children, the node depths are the distance from the root, and the maximum depth is recovered from the array size.',
  ['inputs'],
  'For all tree shapes up to the depth bound and all array sizes up to the bound, including those where index types change width.',
  'No existing test calls these functions.',
  [G], [('masks', 'is_actual_leaf, is_leaves_parent'), ('depths', 'tree_depth, tree_depths, make_tree')],
  ['returned masks and depths']),

P('C16', 'Quantile cutpoints separate and balance the distinct values',
  'For each predictor with finite values, the quantile cutpoints in use are strictly increasing, each lies halfway between two consecutive distinct observed values, and all distinct values get their own bin if there are enough bins; otherwise exactly the maximum number of cutpoints is used and the numbers of distinct values per bin are as equal as rounding permits. '
  'The reported count of cutpoints is the number in use, never more than the number of distinct values minus one (zero if there are no data), and the rest of the row is filled with the largest value of the type.',
  ['inputs', 'configurations'],
  'For all small matrices of values (with ties, extremes of the type, constant or empty rows) of integer and floating types, and all maximum bin numbers.',
  'The tests sample a few rows; ties, decimation rounding and type limits interact.',
  [Q, J], [('quantilizer', 'quantilized_splits_from_matrix'), ('unique', 'unique')],
  ['splits, max_split']),

P('C17', 'The uniform cutpoint grid divides the observed range evenly',
  'For each predictor, the uniform grid has exactly the requested number of bins minus one cutpoints, evenly spaced strictly between the minimum and maximum observed value of that predictor, and the reported count is that number for all predictors, in a type that can hold it.',
  ['inputs', 'configurations'],
  'For all small matrices and all numbers of bins up to the bound, including those where the count type changes width.',
  'No existing test covers the uniform grid.',
  [Q], [('grid', 'uniform_splits_from_matrix')],
  ['splits, max_split']),

P('C18', 'Binning maps each value to the unique bin that contains it',
  'A value is mapped to bin i exactly when it is above cutpoint i-1 and not above cutpoint i, separately for each predictor, so that bins are monotone in the value, never exceed the number of cutpoints in use, and a tree rule "bin below c" means "value at or below cutpoint c-1"; padding never creates additional bins. '
  'The bin type can represent all bins, and the result does not depend on how the predictors are batched or on the search method.',
  ['inputs', 'configurations'],
  'For all small sets of values and cutpoints (equal to, between and beyond them, type extremes, infinities), numbers of predictors and cutpoints, search methods.',
  'The tests check two boundaries for one predictor.',
  [Q, J], [('binning', 'bin_predictors')],
  ['binned matrix']),

P('C19', 'Model predictions are the posterior forests on the original scale',
  'For every saved iteration, the training prediction is the offset plus the scale times the sum of that iteration\'s trees at the training points, prediction at any points uses the same cutpoints as training (so predicting at the training points reproduces the training prediction, and points in the same bins get the same prediction), test predictions at construction equal predicting later, and the mean predictions are averages over saved iterations. '
  'The reported error standard deviations of burn-in and saved iterations are those of the chain times the scale.',
  ['inputs', 'configurations'],
  'For all small datasets, test sets (inside, on and beyond the training range), binning modes and iteration settings up to the bound.',
  'Interface tests do not run here and use one dataset.',
  [B, L, Q], [('prediction', 'gbart.predict, gbart.yhat_train'), ('scaling', '_transform_input, _transform_output, _extract_sigma')],
  ['yhat_train, yhat_test, predict(), means, sigma, first_sigma']),

P('C20', 'Model settings translate into the documented priors',
  'Offset, scale, error variance scale and error estimate are derived from the data and arguments as documented (mean of the responses; half range over k; residual variance of the linear regression with intercept, variance of the responses when there are no more points than predictors, given values taken as is; inverse chi-squared quantile matching), with the documented fallbacks for fewer than two responses. '
  'The chain is run with nonterminal probability base/(1+depth)^power up to the maximum depth, error prior with sigdf degrees of freedom and that scale in standardized units, five points per leaf unless overridden, and the given numbers of trees, cutpoints and iterations.',
  ['inputs', 'configurations'],
  'For all combinations of the settings on small datasets, each argument given or omitted, including empty and one- or two-point data and rank-deficient predictors.',
  'Interface tests do not run here and cover few settings.',
  [B], [('settings', '_process_*_settings, _setup_mcmc, _determine_splits')],
  ['attributes offset, scale, lamda, sigest; priors in the state of the chain']),

P('C21', 'The fit transforms with the units of responses and predictors',
  'Shifting and positively rescaling the responses shifts and rescales offset, predictions and error standard deviations accordingly and nothing else; shifting and positively rescaling predictors (any strictly increasing affine change of units, applied to training and test predictors alike) leaves predictions and error standard deviations unchanged.',
  ['inputs', 'configurations'],
  'For all combinations of exactly representable shifts and scales, datasets and binning modes up to the bound.',
  'One upstream test, not run here, uses one shift and scale of the responses.',
  [B, Q], [('standardization', '_transform_input, _transform_output, _process_*_settings')],
  ['yhat_train, yhat_test, sigma, offset, scale, lamda of the transformed fit']),

P('C22', 'Containers of the data do not matter, mismatched ones are refused',
  'Fitting on numpy arrays, jax arrays, or data frames and series (pandas or polars, one column per predictor) with the same content gives the same fit, and predicting on a data frame with the same columns as in training works and equals predicting on the array. '
  'Predictors and responses of different length, wrong dimensionality, and test predictors whose kind, number or column names and order differ from training are refused with an error instead of being silently used.',
  ['inputs', 'configurations'],
  'For all pairs of training and test containers, column names, orders and counts up to the bound.',
  'No existing test uses data frames or mismatched inputs.',
  [B], [('input processing', '_process_predictor_input, _process_response_input, _check_compatible_formats, _check_same_length')],
  ['fit results; exceptions']),

P('C23', 'Automatic batching never changes a function\'s result',
  'A function wrapped for automatic batching returns the same values, shapes and types as the original for any input and output batching axes, nested arguments, unbatched arguments, and empty arrays, provided the function acts separately along the batched axis. '
  'It is evaluated in equal batches whose input plus output bytes fit the budget, and if that is impossible for a single element it uses batches of one element and warns; the reported number of batches is the actual one.',
  ['inputs', 'configurations'],
  'For all sizes, budgets and axis layouts up to the bound.',
  'The tests sample a dozen layouts and sizes.',
  [J], [('batching', 'autobatch')],
  ['results, warnings, number of batches, shapes seen by the wrapped function']),

P('C24', 'The compact unique function returns the sorted distinct values',
  'For any vector, requested length and fill value, the result starts with the smallest distinct values of the vector in increasing order, as many as fit, followed by the fill value up to the requested length, with the type of the input and the number of used places.',
  ['inputs'],
  'For all vectors over a small alphabet (including type extremes and infinities), all lengths up to the bound shorter, equal or longer than the number of distinct values.',
  'The tests check four vectors, none with more elements than requested places.',
  [J], [('unique', 'unique')],
  ['returned array and length']),

P('C25', 'Every random draw of a run uses fresh independent randomness',
  'No random key is used for more than one purpose: across all iterations, trees and stages of a run, no two draws consume the same key and no key is both consumed and used to derive others, so all random quantities are independent; different seeds lead to disjoint keys.',
  ['histories', 'configurations'],
  'For all draws in all runs with up to the bound of iterations, trees and chains, at all settings of burn-in and thinning.',
  'Reusing a key gives plausible, deterministic, finite results that pass any example-based test.',
  [S, L], [('key splitting', 'random.split in step, sample_trees, sample_moves, run_mcmc')],
  ['log of every key derivation and draw under an instrumented random key type']),

P('C26', 'The tree checker reports exactly the defects present',
  'The diagnostic tree checker returns zero for every well-formed tree and, for every malformed one, a code whose bits name exactly the defects present (wrong types, wrong sizes, dirty unused slot, non-finite leaf values, decision nodes below a leaf); the description lists those defects, and checking a trace checks each tree of each iteration separately.',
  ['inputs'],
  'For all tree arrays up to the depth bound, including malformed ones and all combinations of defects.',
  'No existing test calls the checker with a malformed tree.',
  [D, B], [('checks', 'check_tree, check_forest, check_trace, describe_error')],
  ['error codes']),

P('C27', 'Depth and occupancy diagnostics count every tree and leaf once',
  'The depth distribution counts each tree of each iteration once, at its actual depth; the points-per-leaf distribution counts each actual leaf of each tree once, at the number of datapoints that fall into it, for any number of leaves and datapoints; acceptance and proposal averages are totals over the trace.',
  ['inputs'],
  'For all tree shapes up to the depth bound, all small forests and datasets, and full trees deep enough to exceed the narrow integer types.',
  'The diagnostics are only used by tests that do not run here.',
  [D, B], [('distributions', 'forest_depth_distr, trace_depth_distr, points_per_leaf_distr'), ('averages', '_avg_acc, _avg_prop')],
  ['returned distributions']),

P('C28', 'The printed tree shows exactly the nodes of the tree',
  'Printing a tree writes one line per node of the tree, in depth-first left-to-right order, each with the node index, indentation of its depth, a mark that tells decision nodes, leaves, and leaves on the last level apart, the variable and cutpoint of a decision node or the value of a leaf, and nothing about unused nodes unless asked, in which case all nodes of the array are listed with their category.',
  ['inputs'],
  'For all tree shapes up to the depth bound.',
  'No existing test prints a tree.',
  [D], [('printer', 'print_tree')],
  ['captured stdout']),

P('C29', 'Fits are reproducible from the seed and work inside transformations',
  'Two fits with the same data, settings and seed give bit-identical results; an integer seed is equivalent to the random key made from it; different seeds give different chains; and fitting inside compilation or vectorization over seeds gives the same results as separate plain fits, up to rounding. Fitting does not modify the arrays or settings passed in, and does not affect later fits.',
  ['configurations', 'histories'],
  'For all sequences of fits up to the bound, seeds and seed types.',
  'One upstream test, not run here, compares one compiled fit.',
  [B, L], [('seed handling', '_run_mcmc'), ('callback cache', 'make_simple_print_callback')],
  ['attributes of the fits']),

P('C30', 'Discrete random choice helpers have the exact stated distribution',
  'The categorical helper returns index i with probability proportional to its weight, never an index of zero weight unless all are zero, along with the total weight; the exclusion helper is uniform over the range minus the excluded values (repetitions and out-of-range values in the exclusion list do not matter); the mask helper is uniform over the marked positions; each returns the one-past-the-end value when nothing is allowed.',
  ['inputs'],
  'For all weight vectors, masks and exclusion lists over small alphabets and all answers of the random source.',
  'No existing test calls these helpers.',
  [S], [('helpers', 'categorical, randint_exclude, randint_masked')],
  ['value returned for each random answer']),

P('C31', 'Allowed split ranges are computed exactly at every node',
  'At every node of every legal tree, the reported range of cutpoints available for a variable is the intersection of the constraints of the ancestors using that variable (empty for a non-existent variable), the ancestor variables are listed from the root to the parent with placeholders for missing ones, and the variables reported as exhausted are exactly the ancestor variables with an empty range.',
  ['inputs'],
  'For all legal trees up to the depth bound, all nodes, all variables.',
  'No existing test calls these functions.',
  [S], [('ranges', 'split_range, ancestor_variables, fully_used_variables')],
  ['returned ranges and variable lists']),

P('C32', 'Numeric helper functions keep values intact at type limits',
  'The minimal unsigned type for a maximum value is the narrowest that holds it; conversion to unsigned keeps the width and all non-negative values; the huge value is the largest of the type; the inverse gamma quantile equals the exact one for scalar or array arguments, eagerly, compiled or vectorized; and static configuration dictionaries pass unchanged through compiled and vectorized functions, triggering recompilation when they differ.',
  ['inputs', 'configurations'],
  'For all integer types and boundary values, and all broadcast shapes and transformations up to the bound.',
  'The tests only check a representation string.',
  [J], [('types', 'minimal_unsigned_dtype, signed_to_unsigned, ensure_unsigned, huge_value'), ('quantile', 'scipy.stats.invgamma.ppf, pure_callback_ufunc'), ('static dict', 'LeafDict')],
  ['returned values and types']),

P('C33', 'The diagnostics of a fitted model describe its own trees and data',
  'For every fit, the diagnostic methods of the model object agree with its saved trees and final state: the shown tree is the one at the requested iteration and position; depth and leaf occupancy counts are those of each saved iteration at the training data; average proposal and acceptance rates are ratios of the counts summed over the saved iterations; the two versions of the residuals are the final state\'s residuals and the standardized response minus its forest; the harmonic mean of the error standard deviation is that of the prior (the square root of lamda) or of the final conditional, in response units; and malformed trees, and the first iteration at which each tree becomes malformed, are reported exactly where they are.',
  ['inputs', 'histories', 'configurations'],
  'For all saved forests, well formed or not, all iterations and trees requested, all numbers of trees, depths and data sizes within the bound.',
  'No test that runs here fits a model, and the upstream ones use these methods to look for problems without ever checking that they would see one.',
  [B, D], [('diagnostic methods', '_show_tree, _sigma_harmonic_mean, _compare_resid, _avg_acc, _avg_prop, _avg_move, _depth_distr, _points_per_leaf_distr, _check_trees, _tree_goes_bad')],
  ['values returned and text printed by the methods of a fitted gbart object']),

P('C34', 'The order and the company of the datapoints do not matter',
  'Permuting the training datapoints (predictors and responses together) permutes the training predictions and changes nothing else in the fit. '
  'The prediction at a test point depends only on that point and the fit, not on which other points are predicted along with it, in what order or how many times, and the fit does not depend on the test points. '
  'With quantile cutpoints and a given error variance prior, any strictly increasing transformation of the training predictors leaves the training predictions and the error standard deviations unchanged. All up to floating point rounding.',
  ['inputs', 'configurations'],
  'For all permutations of small datasets (generators of the permutations for larger ones), all subsets and orders of a set of test points, and all combinations of increasing transformations in a list.',
  'No test that runs here fits a model, and no upstream one compares fits on reordered data.',
  [B, S, Q], [('sums over datapoints', '_aggregate_batched_onetree, _aggregate_batched_alltrees, sample_sigma'), ('settings', '_process_*_settings'), ('prediction', 'gbart.predict'), ('cutpoints', 'quantilized_splits_from_matrix')],
  ['yhat_train, yhat_test, sigma, first_sigma, offset, scale, lamda, predict() of fits on reordered data']),

P('C35', 'Degenerate data give finite and coherent fits',
  'A fit on any finite data of moderate magnitude with at least one predictor and a non-constant response succeeds and gives finite predictions and error standard deviations: no datapoints at all, one datapoint, fewer datapoints than predictors, constant, duplicated, opposite or tied predictors, all predictors constant, predictors or responses with outliers, large offsets, large or small units, and responses with few distinct values; with any settings. '
  'The prior of the error variance is finite, and positive unless the response is a linear function of the predictors. Points with the same predictors get the same predictions.',
  ['inputs', 'configurations'],
  'For all datasets of up to 5 points with small sets of predictor and response values, and all combinations of a list of unusual predictors with a list of unusual responses, for several sizes and settings.',
  'No test that runs here fits a model, and the upstream ones fit well behaved data.',
  [B, S, Q], [('settings', '_process_*_settings'), ('cutpoints', 'prepcovars'), ('small data', 'init, _choose_suffstat_batch_size'), ('chain', 'step')],
  ['yhat_train, yhat_test, sigma, first_sigma, offset, scale, lamda']),
]
