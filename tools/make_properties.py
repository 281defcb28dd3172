"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, os
B = 'bayesian_decision_tree/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [B + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': hook,
        }})


prop('C01', 'Classification trees take the maximum-a-posteriori split at every node',
     'At every node of a fitted perpendicular classification tree that has more than one row and more than one class, the '
     'node is split iff some axis-aligned cut between two different adjacent feature values has a larger posterior score '
     'than not splitting, and the cut taken has the largest score of all features and positions (ties may go either way). '
     'The score of not splitting at depth d is log(1-partition_prior^(1+d)) plus the Dirichlet-multinomial log marginal '
     'likelihood of the node\'s labels; that of a cut is log(partition_prior^(1+d)/(number of cuts of that feature * number of '
     'features)) plus the two sides\' log marginal likelihoods. '
     'The recorded split dimension and split value (midpoint of the adjacent values) and both log scores of a split node are those of the cut.',
     ['inputs', 'configurations'],
     'all training sets (rows, features, classes, duplicates, any value magnitudes), all priors and partition priors, every node and depth',
     'The tests check three hand-made data sets with depth <= 2, two classes and one symmetric prior; the claim is an argmax over all cuts of '
     'all nodes of all data sets and hyperparameters.',
     ['base_perpendicular.py', 'classification.py', 'utils.py'],
     [('greedy search over dimensions and split positions', B + 'base_perpendicular.py:_fit'),
      ('Dirichlet-multinomial scores', B + 'classification.py:_compute_log_p_data_split/_compute_log_p_data_no_split'),
      ('multivariate beta function', B + 'utils.py:multivariate_betaln')],
     ['fitted tree: child1_, child2_, split_dimension_, split_value_, log_p_data_no_split_, best_log_p_data_split_'],
     [('sort_indices_by_dim', 'per-feature row order, partitioned among the children', B + 'base_perpendicular.py:_fit')])

prop('C02', 'Regression trees take the maximum-a-posteriori split at every node',
     'At every node of a fitted perpendicular regression tree with more than one row and more than one target value, the node is split iff some '
     'axis-aligned cut between two different adjacent feature values has a larger posterior score than not splitting, and the cut taken '
     'has the largest score (ties may go either way). Scores are the classification ones with the Normal-gamma(mu, kappa, alpha, beta) marginal '
     'likelihood of the targets. The recorded split dimension, split value and both log scores of a split node are those of the cut.',
     ['inputs', 'configurations'],
     'all training sets (targets of moderate magnitude relative to their spread), all Normal-gamma priors including the default one, all partition priors, every node and depth',
     'The tests fit one non-split data set and one sine curve and only compare mean squared errors; no test checks which split is taken.',
     ['base_perpendicular.py', 'regression.py'],
     [('greedy search over dimensions and split positions', B + 'base_perpendicular.py:_fit'),
      ('Normal-gamma scores from cumulative sums', B + 'regression.py:_compute_log_p_data_split/_compute_log_p_data_no_split/_compute_log_p_data')],
     ['fitted tree: child1_, child2_, split_dimension_, split_value_, log_p_data_no_split_, best_log_p_data_split_'])

prop('C03', 'Leaf predictions are the exact Bayesian posterior of the leaf\'s rows',
     'With delta=0, the probabilities predicted for any row are (prior + class counts of the training rows in the row\'s leaf), normalized, and the predicted class '
     'is the lowest-numbered most probable one; a regression prediction is the posterior mean (kappa*mu + sum y)/(kappa+n) of that leaf. The same holds for the '
     'full posterior of each node (raw leaf data, sample counts), for all four models, pruned or not, explicit or default prior '
     '(default: max(1, n//100) pseudo-observations per class, or mu=0, kappa=m, alpha=beta=m/2 with m=max(1, n//100) for regression).',
     ['inputs', 'configurations'],
     'all training sets, priors (symmetric or not, scalar types, lists or arrays, default), numbers of classes, all four models, all query rows',
     'Tests check probabilities of three toy data sets with prior [1, 1] and one regression leaf; never three classes, asymmetric priors, the default prior or the full posterior.',
     ['classification.py', 'regression.py', 'base.py', 'base_perpendicular.py', 'base_hyperplane.py'],
     [('conjugate update', B + 'classification.py:_compute_posterior; ' + B + 'regression.py:_compute_posterior_internal'),
      ('default prior', B + 'classification.py:_get_prior; ' + B + 'regression.py:_get_prior')],
     ['predict', 'predict_proba', '_get_raw_leaf_data', 'n_data_', 'posterior_'])

prop('C04', 'Rows are routed to exactly one leaf, the one that trained on them',
     'Every finite query row is answered by exactly one leaf, found by going to the upper child iff the feature value is >= the split value (front child iff the signed distance to the hyperplane is >= 0); '
     'every training row is answered by the leaf whose sample count and posterior include it, even if adjacent feature values differ by one '
     'rounding unit or by many orders of magnitude. The answer for a row does not depend on which other rows are in the batch, their order, duplicates or number.',
     ['inputs', 'histories'],
     'all training sets and all query batches (any size, order and multiplicity), query values equal to, just below and above the split values, extremes of the floating-point range',
     'Tests query four to six interior points in a fixed order; boundary values, adjacent floats and batch composition are never exercised.',
     ['base.py', 'base_perpendicular.py', 'base_hyperplane.py'],
     [('split value between the two sides', B + 'base_perpendicular.py:_fit'),
      ('index bookkeeping of recursive prediction', B + 'base.py:_predict'),
      ('child selection', B + 'base_perpendicular.py/base_hyperplane.py:_compute_child1_and_child2_indices')],
     ['predict', 'predict_proba', '_get_raw_leaf_data', 'n_data_'])

prop('C05', 'The representation of the data does not change the model or its answers',
     'Fitting the same numbers given as list, numpy array (any dtype that holds them, any memory layout), DataFrame, CSR or CSC matrix, with targets given as list, tuple, array of any numeric or bool dtype, '
     'column vector or pandas Series with any index, gives the same tree; and querying any fitted tree with the same rows in any of these representations gives the same predictions, probabilities and prediction paths.',
     ['inputs', 'configurations'],
     'all pairs of training and query representations, all data sets representable in them (e.g. unsigned bytes up to 255), all four models',
     'Tests use float data in four representations with toy values; integer dtypes, bool, unsorted or explicit-zero sparse matrices, Series targets and cross products with depth > 2 are not covered.',
     ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'hyperplane_optimization.py'],
     [('input normalization', B + 'base.py:fit/_normalize_data_and_feature_names/_ensure_float64'),
      ('sparse column access', B + 'base_perpendicular.py:_to_array, csr to csc conversions')],
     ['fit', 'predict', 'predict_proba', 'prediction_paths', 'fitted tree structure'])

prop('C06', 'Pruning removes exactly the uninformative splits and never changes predict()',
     'With prune=True, the tree is the one obtained with prune=False after repeatedly collapsing every split whose two children are leaves that '
     'predict the same value as each other and as the collapsed node itself, until none is left. predict() is therefore identical with and without pruning for every row, '
     'surviving nodes keep their split, posterior and sample count, and depth, leaf count, paths and feature importance are those of the collapsed tree.',
     ['inputs', 'configurations'],
     'all training sets, priors, partition priors, all four models, all query rows',
     'One test prunes one normal sample with a symmetric prior and checks one merged node; nothing checks that predictions are unchanged or that pruning cascades.',
     ['base.py', 'base_perpendicular.py', 'base_hyperplane.py'],
     [('bottom-up merge until a fixed point', B + 'base.py:_prune'), ('erasing of split info', B + 'base.py:_erase_split_info_base, _erase_split_info of the subclasses')],
     ['predict', 'get_depth', 'get_n_leaves', 'prediction_paths', 'feature_importance', 'fitted tree structure'])

prop('C07', 'Prediction paths are the true decision sequence of each row',
     'For each query row, prediction_paths() returns the steps from the root to the leaf that answers predict() for it: step i names the dimension, feature name and value of the i-th split node on that '
     'route, with flag True iff the row\'s feature value is >= that split value. Rows have independent paths, whatever the batch, its order or representation.',
     ['inputs', 'histories'],
     'all fitted perpendicular trees of any depth (pruned or not), all batches of rows',
     'The only test has depth 2 and ordered rows (a defect for depth >= 3 went unnoticed).',
     ['base_perpendicular.py'],
     [('recursive path collection with index mapping', B + 'base_perpendicular.py:_update_prediction_paths')],
     ['prediction_paths', 'predict'])

prop('C08', 'Feature importance is the normalized total log-likelihood gain per feature',
     'For every fitted tree with at least one split, feature_importance() has one non-negative entry per feature and sums to 1. Entry j is proportional to the sum, over all split nodes of the (pruned) tree, of '
     'log score of the split minus log score of not splitting, for splits on feature j (perpendicular), or weighted by the absolute j-th component of the unit normal (hyperplane). Calling it does not change the model.',
     ['inputs', 'configurations'],
     'all training sets and hyperparameters that lead to at least one split, all models, pruned or not',
     'One test only compares importances of mirrored data sets with a precision of one decimal; a wrong gain, omitted subtree or missing normalization that is symmetric is invisible.',
     ['base.py', 'base_perpendicular.py', 'base_hyperplane.py'],
     [('accumulation over split nodes', B + 'base_perpendicular.py/base_hyperplane.py:_update_feature_importance'), ('normalization', B + 'base.py:feature_importance')],
     ['feature_importance'])

prop('C09', 'A model\'s answers depend only on its last successful fit, not on its history',
     'After any sequence of successful fits, rejected fits, queries, parameter changes, cloning, copying and pickling, a model answers all queries exactly like a '
     'fresh model constructed with the parameters in force at its last successful fit and fitted once on that data; clones and never-fitted models are unfitted and refuse queries. fit() returns the model itself, keeps constructor parameters '
     'readable and unchanged, and neither fit nor queries modify the caller\'s data, priors or feature names.',
     ['histories', 'inputs'],
     'all operation sequences up to a bound over fit (several data sets, with different shapes and with or without splits), rejected fit, query, set_params, clone, deepcopy, pickle',
     'Every test fits a fresh model once; refitting, failed refits and copies are never exercised.',
     ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py'],
     [('erasing split info before/after fit', B + 'base_perpendicular.py:_fit, base_hyperplane.py:_fit'), ('validation before training', B + 'base.py:fit'),
      ('parameters stored unmodified', B + 'base.py:__init__')],
     ['fit', 'predict', 'predict_proba', 'prediction_paths', 'feature_importance', 'str', 'get_params', 'set_params', 'sklearn.base.clone', 'pickle', 'copy.deepcopy'])

prop('C10', 'Concurrent queries and concurrent fits of different models do not interfere',
     'Queries (predictions, probabilities, paths, importances, printing) on one fitted model issued from several threads return, under every thread interleaving, what they return when executed alone, and leave the model unchanged; '
     'models fitted concurrently with each other or with queries on other models (including clones, models sharing data, prior or optimizer) end up as if fitted alone.',
     ['schedules'],
     'all interleavings (up to a preemption bound) of two or three threads running queries on one shared model, or fits of distinct models sharing inputs, prior and optimizer',
     'No test uses threads; a scratch buffer or cache kept on the model, class, module or optimizer passes every sequential test.',
     ['base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py', 'hyperplane_optimization.py', 'utils.py'],
     [('queries keep all working state in locals and arguments', B + 'base.py:_predict, ' + B + 'base_perpendicular.py:_update_prediction_paths'),
      ('per-fit optimization function and random state', B + 'base_hyperplane.py:_fit, ' + B + 'hyperplane_optimization.py:*.solve')],
     ['predict', 'predict_proba', 'prediction_paths', 'feature_importance', 'str', 'fit'])

prop('C11', 'A hyperplane node keeps the best split among all proposed orientations',
     'Whatever sequence of normal vectors an optimizer proposes (any order, repetition, any scale whose length is representable, zero or NaN entries), each proposal is answered with minus the best log score over all cuts between different adjacent projections onto it (minus the no-split score if there is no '
     'cut), and the node ends up with the proposal and cut of the highest score if that is at least the no-split score, else with no split. Among equal best scores the one with the larger summed distance of the rows to the hyperplane is kept. '
     'The hyperplane is a unit normal with an origin midway between the two rows adjacent to the cut.',
     ['histories', 'inputs'],
     'all proposal sequences up to a bound over an alphabet of directions, for all small training sets, classification and regression, dense and sparse',
     'Tests run stochastic optimizers on data with one obvious separation; neither the score reported per orientation nor the choice among proposals is checked (unsorted projections went unnoticed).',
     ['hyperplane_optimization.py', 'base_hyperplane.py'],
     [('scoring and best-so-far bookkeeping', B + 'hyperplane_optimization.py:HyperplaneOptimizationFunction.compute')],
     ['values returned to the optimizer', 'best_hyperplane_normal_', 'best_hyperplane_origin_', 'child sample counts'],
     [('best_log_p_data_split, best_cumulative_distances, best_hyperplane_normal/origin', 'best proposal so far', B + 'hyperplane_optimization.py:HyperplaneOptimizationFunction')])

prop('C12', 'Hyperplane trees grow by recursively splitting exactly the rows on each side',
     'In every fitted hyperplane tree the rows of a node with signed distance < 0 to its hyperplane, and only they, form the back child and the others the front child, both non-empty; each child is grown by the same '
     'rules (same priors with partition prior to the power 1 + its depth, same optimizer and settings) on its rows only, iff it has more than one row and more than one target value. Sample counts and depths are consistent throughout, and every query row is answered by the leaf on its side of all hyperplanes.',
     ['inputs', 'configurations'],
     'all training sets, priors, partition priors, with an optimizer that exhaustively proposes a fixed set of orientations, and the built-in optimizers',
     'Tests check the counts of one tree with two splits; deeper trees, unequal children, regression structure and the scores at depth > 0 are unchecked.',
     ['base_hyperplane.py', 'hyperplane_optimization.py', 'classification.py', 'regression.py'],
     [('recursion of _fit', B + 'base_hyperplane.py:_fit'), ('level-dependent partition prior', B + 'classification.py/regression.py:_compute_log_p_data_*')],
     ['fitted tree: child1_, child2_, n_data_, best_hyperplane_normal_, best_hyperplane_origin_', 'predict', 'get_depth', 'get_n_leaves'])

prop('C13', 'Built-in optimizers are reproducible, terminate and stay in their search space',
     'Whatever objective values they are answered (out of any finite set of finite values, as the scores of a data set are), the built-in hyperplane optimizers terminate, only propose points of the declared search space (the unit hypercube of dimension features-1, or finite vectors of dimension features), propose exactly the configured number of '
     'orientations where one is configured, and are deterministic functions of their arguments and the answers: repeated, interleaved or reused optimizer objects give identical proposals and identical trees. '
     'Fitting with them neither reads nor changes global random state.',
     ['histories', 'configurations', 'inputs'],
     'all answer sequences with a bounded number of deviations from a constant objective, all seeds and sizes of a small set, repeated and interleaved use of one optimizer object',
     'Tests run one seed per optimizer on benign objectives; plateaus, ties, adversarial answers, reuse and global random state are never exercised.',
     ['hyperplane_optimization.py', 'base_hyperplane.py', 'utils.py'],
     [('per-solve random state from the seed', B + 'hyperplane_optimization.py:*.solve'), ('clipping to the hypercube, no-improvement counters', B + 'hyperplane_optimization.py:SimulatedAnnealingOptimizer/GradientDescentOptimizer.solve')],
     ['arguments and number of evaluations of the optimization function', 'fitted trees', 'numpy.random global state'])

prop('C14', 'The hypercube-to-hypersphere map is uniform and the R2 sequence is well spread',
     'Every point of the D-dimensional unit hypercube is mapped to a unit vector of D+1 dimensions, independently of the other points of the batch; volume is preserved up to the constant factor |sphere| (or half of it for the half sphere), so uniform points stay uniform, '
     'and the half-sphere version only yields vectors with non-negative first component and covers each axis up to sign once. The R2 generator yields the additive recurrence 0.5 + i*alpha mod 1 with alpha_j = phi_D^-j, phi_D^(D+1) = phi_D + 1, in every dimension.',
     ['inputs', 'configurations'],
     'all points of the hypercube including faces and corners, all dimensions, half and full sphere, single points and batches',
     'Tests check norms and orthant counts for five dimensions with 1 % tolerance on one batch; a density that is wrong within orthants, wrong dimension >= 7 or batch dependence pass.',
     ['utils.py'],
     [('YPHL construction', B + 'utils.py:hypercube_to_hypersphere_surface'), ('generalized golden ratio', B + 'utils.py:r2_series_generator')],
     ['hypercube_to_hypersphere_surface', 'r2_series_generator'])

prop('C15', 'Invalid input is rejected with ValueError and leaves the model as it was',
     'fit() raises ValueError if X is not two-dimensional (a single row may be one-dimensional), y not one-dimensional (extents of 1 are dropped), their lengths differ, class labels are not exactly the integers 0..K-1 (K = length of the prior), or numbers cannot be represented exactly as floats; queries raise ValueError on an unfitted '
     'model or if the number of features differs from that of the training data. Every valid input is accepted, and a rejected call changes nothing: an unfitted model stays unfitted, a fitted one keeps its answers.',
     ['inputs', 'histories'],
     'all shapes up to three dimensions with small extents, all label vectors over a small alphabet, all query widths, fitted and unfitted models of all four kinds and all query methods',
     'Tests sample four bad targets, one bad X and three bad queries, never on an already fitted model, and never check that the state survives.',
     ['base.py', 'classification.py', 'regression.py'],
     [('validation', B + 'base.py:fit/_ensure_is_fitted/_normalize_data_and_feature_names, ' + B + 'classification.py/regression.py:_check_target')],
     ['fit', 'predict', 'predict_proba', 'prediction_paths', 'feature_importance', 'is_fitted'])

prop('C16', 'delta strengthens the children\'s priors with delta times their own data',
     'A child that is examined for further splitting has the parent\'s prior updated with its own rows, each weighted with delta (Dirichlet: prior + delta*counts; Normal-gamma: the conjugate update with n*delta observations of the same mean and variance), uses it for all scores and its posterior, and passes it on in the same way; '
     'a child with one row or one distinct target gets the posterior of the parent\'s prior. delta=0 leaves all priors unchanged, and it works alike in all four models.',
     ['inputs', 'configurations'],
     'all training sets, priors and delta in [0, 1], all depths, all four models',
     'No test sets delta to anything but 0 (hyperplane trees ignored it, and the regression update was wrong for fractions).',
     ['base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py'],
     [('priors of the children', B + 'base_perpendicular.py:_fit, ' + B + 'base_hyperplane.py:_fit'), ('weighted update', B + 'classification.py:_compute_posterior, ' + B + 'regression.py:_compute_posterior_internal')],
     ['predict', 'predict_proba', '_get_raw_leaf_data', 'fitted tree structure'])

prop('C17', 'split_precision: only gaps larger than the precision can be split',
     'A cut is a candidate iff the two adjacent sorted feature values (perpendicular) or projections (hyperplane) differ by more than split_precision; only these candidates are counted and compared, at every node and depth. '
     'No fitted split separates points that are closer, a precision of 0 admits every pair of different values, and one at least as large as the largest gap gives a single leaf.',
     ['inputs', 'configurations'],
     'all training sets and precisions, including precisions equal to gaps, all four models, all depths',
     'No test sets split_precision.',
     ['base_perpendicular.py', 'base_hyperplane.py', 'hyperplane_optimization.py', 'classification.py', 'regression.py'],
     [('candidate filter', B + 'base_perpendicular.py:_fit, ' + B + 'hyperplane_optimization.py:compute'), ('propagation to the children', B + 'base_perpendicular.py/base_hyperplane.py:_fit')],
     ['fitted tree structure', 'predict'])

prop('C18', 'Reordering, relabelling or rescaling the problem only transforms the answers',
     'Unless scores tie, permuting the training rows leaves all answers unchanged; permuting the features permutes paths and importances only; permuting class labels together with the prior permutes the probabilities (in pruned trees unless most probable classes tie); shifting, '
     'positively scaling or mirroring features (and queries) leaves predictions unchanged (hyperplane trees: one scale for all features, and the proposed orientations permuted or mirrored alike); replacing targets y by a*y+b together with the prior (mu -> a*mu+b, beta -> a^2*beta) maps regression predictions m to a*m+b.',
     ['inputs', 'configurations'],
     'all row permutations of small data sets, all feature and class permutations, power-of-two scalings and exact shifts, all small data sets without score ties',
     'One test mirrors one data set and compares importances to one decimal.',
     ['base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py', 'hyperplane_optimization.py'],
     [('sorting per feature', B + 'base_perpendicular.py:_fit'), ('likelihoods from counts and sums', B + 'classification.py, ' + B + 'regression.py')],
     ['predict', 'predict_proba', 'prediction_paths', 'feature_importance'])

prop('C19', 'Depth, leaf count, printed tree, names and verbosity reflect the fitted tree',
     'get_depth() is the largest number of splits on a root-to-leaf route and get_n_leaves() the number of leaves; sample counts of children add up to the parent\'s. The printed tree (str, repr) lists every node exactly once in order with its split feature name '
     'and value, side, leaf prediction, sample count and probabilities, so that following it gives predict(). verbose prints one line per node that is examined for splitting, with its level and number of rows. Feature names (given explicitly, from DataFrame columns, or x0, x1, ... by default) and verbose appear in output only and never influence the model.',
     ['inputs', 'configurations'],
     'all fitted trees of all four models, pruned or not, all naming variants',
     'Tests print models without looking at the text and check depth and leaf count of three trees.',
     ['base.py', 'base_perpendicular.py', 'base_hyperplane.py'],
     [('depth and leaf recursion', B + 'base.py:_update_depth/_update_n_leaves'), ('rendering', B + 'base_perpendicular.py/base_hyperplane.py:_str'), ('names', B + 'base.py:_normalize_data_and_feature_names')],
     ['get_depth', 'get_n_leaves', 'str', 'repr', 'prediction_paths', 'standard output'])

prop('C20', 'Models behave as scikit-learn estimators',
     'All four models work as scikit-learn estimators: get_params/set_params/clone round-trip every constructor parameter, classifiers expose classes_ matching the columns of predict_proba, score() is accuracy or R2, and '
     'cross validation, scorers by name, grid search, pipelines and pickling give what manually fitting and evaluating the model on the same folds and parameters gives.',
     ['configurations', 'inputs'],
     'all four models, all combinations of a small grid of constructor parameters, all folds, scorer names and meta-estimators of a fixed list',
     'No test uses scikit-learn on top of a model (scorers by name failed on classifiers).',
     ['base.py', 'classification.py', 'regression.py', 'base_hyperplane.py'],
     [('parameters stored under their names', B + 'base.py:__init__, ' + B + 'base_hyperplane.py:__init__'), ('mixins and classes_', B + 'classification.py, ' + B + 'regression.py')],
     ['get_params', 'set_params', 'sklearn.base.clone', 'classes_', 'score', 'sklearn.model_selection', 'sklearn.pipeline', 'pickle'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=True) + '\n')
    print(len(P), 'properties')
