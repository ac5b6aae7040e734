"""Writes properties.jsonl, MANIFEST.json (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, P, H, C, R, O, U, V = ('bayesian_decision_tree/' + f for f in (
    'base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py', 'regression.py',
    'hyperplane_optimization.py', 'utils.py', '_version.py'))

props = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                               'observe_at': observe or ['public API of the fitted estimators'], 'hook_needed': None},
                      _technique=technique, _note=note))


prop('C01', 'Every decision of a perpendicular tree is the Bayes-optimal greedy one',
     'At every node of a tree with axis-parallel splits, the chosen split has the highest posterior probability of all splits between '
     'two different values of a feature, and the node is split if and only if that probability exceeds the one of not splitting '
     '(evidence under the node\'s prior, split prior partition_prior^(1+depth) shared equally by the possible splits of all features). '
     'The split value lies midway between the two neighbouring values it separates. A node with one row or one distinct target below the root is a leaf.',
     ['inputs', 'configurations'], 'all finite data sets, priors, partition priors, delta, classification and regression',
     'The tests compare some trees of one or two small data sets with printed expectations; they never recompute the evidence of the alternatives.',
     [P, C, R, U], [('search over all cuts of all features', P), ('evidence of classes', C), ('evidence of values', R), ('log of the beta function', U)],
     'trace audit of each fitted node against an extended-precision reference model',
     'Every node of thousands of fitted trees is judged against all of its alternatives, computed independently; ties within the rounding tolerance are accepted either way.')
prop('C02', 'Hyperplane trees score orientations correctly and keep the best split',
     'For each orientation an optimizer proposes, a hyperplane tree reports the (negative) probability of the best cut of the node\'s rows perpendicular to it. '
     'Among everything proposed the tree keeps the most probable cut - of equally probable ones a cut farther from the data - and splits if and only if it is at least as probable as not splitting; '
     'the plane runs midway between the two rows it separates.',
     ['inputs', 'configurations', 'histories'], 'all data sets, priors, optimizers and sequences of proposals, dense and sparse',
     'The tests look at final accuracies and a few trees on one synthetic data set; no test sees the value reported for a proposed orientation.',
     [H, O, C, R], [('objective of one orientation, best so far', O), ('use of the best cut', H)],
     'online monitor at the optimizer boundary (records every proposal and reported value), judged against a reference model',
     'Each proposal and each reported value is observed at the boundary between optimizer and objective; near ties and rows within rounding of a plane are accepted either way.',
     ['HyperplaneOptimizer.solve boundary', 'fitted nodes'])
prop('C03', 'Leaves predict from the exact conjugate posterior of their training rows',
     'Every node carries the conjugate posterior (Dirichlet counts or normal-gamma parameters) of exactly the training rows that reach it under its own prior, and predicted classes, probabilities and values are that posterior\'s mode and mean. '
     'The prior of a child is the prior of its parent, strengthened by counting each of the child\'s rows as delta observations (delta = 0: the parent\'s prior, delta = 1: the child\'s posterior).',
     ['inputs', 'configurations'], 'all data sets, priors in any form, 0 <= delta <= 1, all four models',
     'delta is not used by any reliable test, and posteriors are never compared with the data.',
     [B, P, H, C, R], [('posterior of classes', C), ('posterior of values', R), ('priors handed to children', P), ('priors handed to children', H)],
     'per-node assertions on fitted state against a reference posterior propagated down the tree',
     'All nodes of all trees, including leaves that were not trained further; relative tolerance 1e-9.')
prop('C04', 'A training row is predicted by the very leaf that counted it',
     'The leaves partition the training rows: every row is routed at prediction time to the leaf that counted it during training, every leaf has at least one row, and counts add up from leaves to root. '
     'Rows that are equal always share a leaf.',
     ['inputs'], 'all finite feature values: ties, neighbouring floats, huge and tiny values, duplicated rows, sparse and dense, any row count',
     'Depends on rounding of split values and projections, which random test data do not reach.',
     [P, H, B], [('split value between two rows', P), ('plane between two rows', H), ('routing of rows', B)],
     'conservation monitor: training-time counts against prediction-time routing',
     'Counts and posteriors identify the rows a leaf was trained with (unique targets make it exact); adversarial floats included.')
prop('C05', 'Prediction is a pure row-wise function with normalised probabilities',
     'The prediction for a row depends on the fitted tree and that row alone: not on the batch it comes in, its position, duplicates, earlier predictions, or rows of other leaves. '
     'An empty batch gives an empty result of the right shape. Class probabilities are positive, sum to one, and the predicted class is the (first) most probable one; a row goes to the upper side of a threshold if and only if its value is not below it.',
     ['inputs', 'histories'], 'all fitted models, query rows and batch compositions',
     'Tests predict whole grids or the training set once; they never permute, repeat or split batches.',
     [B, P, H, C, R], [('recursive assembly of predictions', B), ('routing', P), ('routing', H)],
     'metamorphic monitor over batches plus reference routing',
     'Every returned number is compared with a reference walk down the tree; hyperplane rows within rounding of a plane are exempt.')
prop('C06', 'The container and number type of the data do not matter',
     'Data with the same numbers gives the same tree and the same predictions, whether it arrives as array (any memory layout, view or numeric type), list, data frame, or sparse matrix, and whether targets are an array, list, tuple, series or column. '
     'Mixed forms for training and prediction work as well.',
     ['inputs', 'configurations'], 'all representations of all data sets that hold the same numbers exactly',
     'Tests try four containers on float data of one shape; integer types, overflow, layouts, indices and single rows/columns are not covered.',
     [B, P, H, O], [('input normalisation', B), ('column access of sparse data', P), ('projections of sparse data', H)],
     'differential monitor: the same data in every representation',
     'Hyperplane trees are compared up to the last bits because matrix products round differently per layout.')
prop('C07', 'Prediction paths list exactly the decisions leading to each leaf',
     'For every query row, the prediction path is the list of splits (feature index, feature name, split value, and whether the row is at or above it) met from the root to the leaf that predicts the row, in order; it is empty for a tree without splits.',
     ['inputs'], 'all perpendicular trees (any depth) and query rows in any order, number and container',
     'The only test looks at the paths of a few rows of one small tree, which hid wrong rows below the second level.',
     [P], [('paths', P)], 'trace checker replaying every returned path', 'Paths are replayed step by step against the fitted tree.')
prop('C08', 'Feature importance is the normalised evidence gain of the splits',
     'The importance of a feature is its share of the total log-probability gain of all splits: a perpendicular split counts for its feature, a hyperplane in proportion to the absolute components of its unit normal. '
     'Importances are finite, not negative and sum to one (all zero for a tree without splits or whose splits gain nothing), refer to the features in the order of the training data, and reflect the pruned tree.',
     ['inputs', 'configurations'], 'all fitted trees, pruned or not, one or many features',
     'Tests check the importances of a few trees against fixed numbers; never a tree without splits or a pruned one.',
     [B, P, H], [('accumulation', P), ('accumulation', H), ('normalisation', B)],
     'oracle recomputing the gain of every split from the rows reaching it', 'Gains are recomputed independently of the values stored in the tree.')
prop('C09', 'Pruning never changes a prediction and removes every pointless split',
     'Training with pruning yields the tree trained without it, with splits removed whose leaves all predict the same as the node itself, applied bottom-up until nothing changes. '
     'Predicted classes and values of every possible row are unchanged, remaining nodes keep splits, counts and posteriors, and depth and leaf count never grow.',
     ['inputs', 'configurations'], 'all data sets and parameters, all four models',
     'One test prunes one tree and compares its size.', [B, P, H], [('pruning', B), ('erasing a split', P), ('erasing a split', H)],
     'differential monitor: pruned against unpruned tree with a reference pruning', 'Exact structural comparison, plus predictions on many query rows.')
prop('C10', 'Depth, leaf count, printed tree and training log describe the fitted tree',
     'The reported depth and number of leaves are those of the tree; its printed form shows every split, leaf, count, prediction and probability once, in order and at the right indentation; '
     'and verbose training prints one line per trained node with its level, side and number of rows, in training order, without influencing the result.',
     ['inputs', 'configurations'], 'all fitted and unfitted models', 'One test compares the text of one tree.', [B, P, H], [('depth and leaves', B), ('text', P), ('text', H)],
     'parser of the printed tree and of the training log, checked against the fitted tree', 'Every line is parsed back; the log is compared with the reference list of trained nodes.')
prop('C11', 'Unusable input is rejected with an error and changes nothing',
     'Data without rows or features, wrong numbers of rows, features or feature names, unsuitable dimensions, class labels that are not 0..k-1, targets that are not finite, priors of the wrong size, data that is not real numbers, and queries of an untrained model raise an error. '
     'A rejected call leaves a fitted model and the arguments as they were, and similar usable input is accepted.',
     ['inputs', 'histories'], 'all applicable kinds of unusable input, on fresh and fitted models',
     'Tests cover a handful of single errors on fresh models, never the state afterwards.', [B, C, R], [('validation', B), ('target checks', C), ('target checks', R)],
     'fault injection at the API with a state monitor', 'The fitted state is compared before and after each rejected call.')
prop('C12', 'Training is reproducible and has no side effects',
     'Training is a function of parameters and data alone: repeating it, in whatever global random state and after training on anything else, gives the same tree. '
     'Neither training nor querying modifies data, targets, names, priors, optimizer or parameters, nor the global random state or other global settings, and it does not matter if those objects are read-only or shared between models.',
     ['inputs', 'histories', 'configurations'], 'all sequences of fits and queries on reused models and shared arguments',
     'Tests fit every model once.', [B, P, H, O], [('reset of fitted state', B), ('seeded optimizers', O)],
     'history monitor: frozen inputs, random-state probes, refits in different orders', 'Hyperplane results are compared up to the last bits (BLAS).')
prop('C13', 'The models are well-behaved scikit-learn estimators',
     'Cloning, reading and setting parameters, pickling, copying, cross-validation, grid search, pipelines, bagging, voting, stacking, calibration, scorers and model inspection work for all four models and do not change results: a clone is untrained with equal parameters and trains to the same tree, and a copy predicts the same.',
     ['inputs', 'configurations', 'histories'], 'all parameter settings, data and standard scikit-learn workflows',
     'One test checks that cloning keeps parameters.', [B, C, R, P, H], [('constructor signatures', C), ('constructor signatures', R), ('base estimator', B)],
     'workflow monitors around real scikit-learn components', 'Each result is compared with the same work done by hand.')
prop('C14', 'Hyperplane orientations are generated uniformly',
     'The map from the unit cube to the sphere yields unit vectors, uniformly distributed on the sphere (or on its half with a non-negative first coordinate), for every dimension, number of points and position including edges of the cube; equal points map to equal vectors irrespective of the batch. '
     'The quasi-random sequence is deterministic, stays in the unit cube and fills it evenly.',
     ['inputs'], 'all dimensions 2..40, cube points, batches', 'The tests check the norm and half of a few random points.', [U, O], [('sphere map', U), ('R2 sequence', U)],
     'statistical oracle (distribution tests with fixed samples) plus pointwise assertions', 'Deterministic low-discrepancy samples make the distribution tests sharp and repeatable.')
prop('C15', 'Row order, feature order, units and class names do not matter',
     'Permuting rows, reordering features, shifting or uniformly rescaling features (any increasing transformation for axis-parallel splits), mirroring them, renaming classes or features, or shifting and scaling regression targets together with the prior leads to the correspondingly transformed tree and predictions, except where decisions are tied.',
     ['inputs'], 'all data sets and such transformations', 'Tests never train on transformed data.', [P, H, C, R], [('search', P), ('objective', O), ('evidence', C), ('evidence', R)],
     'metamorphic monitor with tie detection by a reference model', 'Subtrees below a decision tied within rounding are skipped and counted.')
prop('C16', 'Numerically hostile but legal data does not break the trees',
     'Large common offsets, outliers, neighbouring or extreme floating-point values, extreme priors and partition priors, long one-sided trees and row counts around 2^16 give finite, correctly routed results: '
     'decisions stay the best ones, predicted values stay within the range of prior mean and targets, and a common offset shifts predictions and nothing else.',
     ['inputs', 'configurations'], 'finite data whose squares do not overflow', 'Test data is small and well scaled.', [P, H, R, U], [('evidence', R), ('split value', P), ('row numbers', P)],
     'floating-point monitors and audit against an extended-precision reference', 'Same audits as C01/C04 under hostile workloads.')
prop('C17', 'Optimizers propose legal orientations, respect budgets and terminate',
     'For any data, every supplied optimizer terminates, proposes only finite points of its search space with the right number of coordinates, performs exactly or at most its configured number of evaluations, and proposes the same sequence again for the same seed and other sequences for other seeds. '
     'Objectives are minimised, and optimizers unsuitable for regression say so. The text of an optimizer shows its settings.',
     ['inputs', 'configurations', 'histories'], 'all optimizers and settings, data with ties, constant features, few rows or one class, and arbitrary objectives',
     'Tests run the optimizers on one data set and look at the accuracy.', [O, H], [('optimizers', O)],
     'online trace checker between optimizer and objective, CPU-time watchdog', 'optuna is not installed: a recording stand-in takes its place.', ['HyperplaneOptimizer.solve boundary'])
prop('C18', 'Splits respect the requested precision and only that',
     'No split separates two neighbouring values (of a feature, or of the projections onto a plane\'s normal) that differ by no more than the split precision, and all splits between values that differ by more are considered and share the split prior. '
     'A precision of zero allows all splits between different values.',
     ['inputs', 'configurations'], 'all data sets, precisions and models', 'No reliable test uses a positive split precision.', [P, H, O], [('admissible cuts', P), ('admissible cuts', O)],
     'trace audit against a reference with gap-aware cut enumeration', 'Gaps within rounding of the precision are not generated for projections.')
prop('C19', 'Default parameters and the default prior are the documented ones',
     'Without a prior, a model behaves exactly as with a weak prior of one pseudo-observation (or one per hundred rows if that is more): uniform over the classes, or around mean 0 with precision 1 for regression; all nodes of the tree use the root\'s. '
     'The remaining parameters default to partition_prior 0.99, delta 0, no pruning, precision 0, and can be given by position in the documented order.',
     ['inputs', 'configurations'], 'all data sets and row counts', 'Tests always pass a prior for classification and use tiny data sets.', [C, R, B, P, H], [('default prior', C), ('default prior', R)],
     'differential monitor: implicit against explicit defaults', 'Also compares each child prior with the reference.')
prop('C20', 'The reported version follows from the version tags of the source history',
     'The package version is X on the commit tagged ver-X, X.post.devN for N commits after the nearest such tag, 0.post.devN without one, and unknown outside of a history; other tags, local changes, the current directory and the kind of tag do not matter. '
     'The revision, its date and local changes are reported, and an exported archive of a release knows its version.',
     ['histories', 'configurations'], 'all histories of commits, merges, tags, checkouts, local changes and exports', 'No test looks at the version.', [V, 'bayesian_decision_tree/__init__.py', 'setup.cfg'], [('version from history', V)],
     'model-based monitor over random real git histories', 'Runs the real git in scratch repositories; nearest tag = fewest commits not contained in it.', ['get_versions()', '__version__'])
prop('C21', 'Models can be used concurrently from several threads',
     'Threads may query a fitted model and train different models at the same time, sharing data, priors, and optimizers: every call returns what it returns when made alone, and nothing shared is modified.',
     ['schedules', 'inputs'], 'all interleavings of queries of shared models and training of different models', 'Tests are single-threaded.', [B, P, H, O, U], [('no shared mutable state', B), ('optimizers without state', O), ('objective per node', H)],
     'schedule stress: forced thread switches at random lines, results compared with serial ones', 'Random schedules (distinct ones are counted); training a model while it is queried is outside.')
prop('C22', 'Hyperplane and perpendicular trees agree where both can express a split',
     'With a single feature, or if only the coordinate axes (of the original or a rotated space) are proposed, a hyperplane tree makes the same decisions as a perpendicular tree with the same parameters: same splits, counts, posteriors, predictions and importances, except where decisions are tied.',
     ['inputs', 'configurations'], 'all data sets, priors, deltas, with any optimizer for one feature', 'Tests never compare the two families.', [P, H, O, C, R], [('search', P), ('objective', O), ('training', H)],
     'cross-implementation monitor walking both trees in parallel', 'Two independent implementations in the package check each other; ties are skipped and counted.')
prop('C23', 'Training and queries can be interrupted anywhere and simply be repeated',
     'If training or a query is interrupted at any point - by the user, by lack of memory, by an exception of the optimizer or of the output stream - the interruption reaches the caller unchanged, '
     'the arguments, the optimizer, other models and the global random state are as before, an interrupted query leaves the model as it was, '
     'and repeating the call (also on a clone or copy, also after several interruptions, also when the model had been trained on other data before) gives exactly what it gives undisturbed.',
     ['crash_points', 'histories', 'inputs'], 'every executed line of the package as the point of interruption, any number of interruptions, all models',
     'No test interrupts anything; state left behind by half a training shows only in the next one.',
     [B, P, H, C, R, O], [('training state of the model', B), ('recursive training', P), ('recursive training', H), ('state of the objective', O)],
     'fault injection at random executed lines (sys.monitoring), in the optimizer and the output stream, compared with undisturbed runs',
     'Interruptions are delivered at line boundaries of the package; between the lines of numpy and scipy only through the optimizer.',
     ['public API under injected faults'])
prop('C24', 'A larger partition prior only ever adds splits',
     'With the same data and otherwise the same parameters (unpruned, the same proposed orientations), every split of a tree is also in the tree trained with a larger partition prior: '
     'the larger prior only splits nodes that were leaves, so leaves and depth never decrease. Decisions that are tied are exempt.',
     ['inputs', 'configurations'], 'all data sets and priors, all pairs of partition priors in (0, 1), all four models',
     'The tests fix the partition prior per test and never compare two of them.',
     [B, P, H, O, C, R], [('split prior', B), ('search', P), ('search', H), ('objective', O)],
     'metamorphic monitor walking the trees of a ladder of partition priors in parallel', 'Ties are recognised through the reference model, skipped and counted.')
prop('C25', 'A fitted model owns its state',
     'After training, overwriting in place anything that was handed in (features, targets, feature names, prior, optimizer) or handed out (predictions, probabilities, paths, importances, parameters) '
     'changes neither the tree nor any later answer, and later queries do not change results handed out before.',
     ['inputs', 'histories'], 'all forms of data (arrays, views, frames, lists, sparse), names and priors, any order of overwriting and querying',
     'Tests never reuse a buffer after training.', [B, P, H, C, R], [('data kept after training', B), ('raw data of leaves', C), ('raw data of leaves', R)],
     'history monitor: overwrites every shared object between queries and compares all answers',
     'Hyperplane optimizers keep no state in the fitted tree; the model is not asked to train again with an overwritten optimizer.')
prop('C26', 'Guided optimizers search where their observations point',
     'Simulated annealing proposes perturbations, within a spread shrinking by its factor each round, of the n_keep best points observed so far including the best, and stops only after many rounds without '
     'improvement; gradient descent follows up each of its n_keep best guesses; on a smooth bowl gradient descent and differential evolution reach its bottom and annealing its surroundings. First guesses and '
     'unguided proposals cover the whole search space evenly.',
     ['inputs', 'histories'], 'all objectives (smooth, rugged, stepped, flat, those of real nodes), all settings and seeds',
     'The tests only look at the resulting trees on one small data set, where any search succeeds.',
     [O], [('SimulatedAnnealingOptimizer', O), ('GradientDescentOptimizer', O), ('ScipyOptimizer', O), ('RandomHyperplaneOptimizer', O)],
     'online trace specification over the recorded sequence of proposals and values of every search',
     'Differential evolution is that of scipy and judged by where it ends only.')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks = [dict(property=p['id'], quick_cmd='./check.sh {} --tier quick'.format(p['id']), thorough_cmd='./check.sh {} --tier thorough'.format(p['id']),
               evidence_file='evidence/{}.json'.format(p['id']), technique='runtime monitoring: ' + p['_technique'], level='exploration',
               level_note=p['_note'] + ' Exploration: holds on everything observed; trusts numpy/scipy and the reference model in mon/oracle.py.') for p in props]
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
               'notes': 'No hooks are needed in /repo: monitors use the fitted attributes, wrap the optimizer objects and use sys.monitoring. '
                        'Exit code 2 = inconclusive (monitors not reached often enough or harness failure).'}, f, indent=1)
    f.write('\n')
