"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': ['aideme/' + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': 'aideme/' + w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': 'aideme/' + w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


EX, AL, DSM, VS, FA = 'explore/', 'active_learning/', 'active_learning/dsm/', 'active_learning/version_space/', 'active_learning/factorization/'
NOTEST = 'No existing test touches this part of the system; only the one-dimensional convex hull tests run reliably.'

p('C01', 'Labeled, inferred and unknown parts always partition the data',
  'After any sequence of moves, every data point is in exactly one of the labeled, inferred and unknown parts, the one its last move put it in. '
  'Each index keeps its own data row, every view and size (unlabeled = inferred + unknown) agrees with that assignment, and looking points up by index or sampling returns the right rows.',
  ['histories', 'inputs'], 'All sequences of label, infer, un-infer, flush and reset operations, in any batch size and order, over any data matrix and any unique index values.',
  NOTEST, [EX + 'partitioned.py', EX + 'index.py'],
  [('in-place row swapping kept in step with the index-to-row map', EX + 'partitioned.py'), ('index map swaps', EX + 'index.py')],
  [('row order and the two boundaries', 'rows before the first boundary are labeled, between both inferred, after the second unknown', EX + 'partitioned.py')],
  ['PartitionedDataset views, sizes, from_index and sample'])

p('C02', 'Training sets pair every labeled row with the label the user gave it',
  'The training set holds exactly the labeled points, each paired with its own final and partial labels, whatever order points were labeled or moved in; the last training set holds exactly the last labeled batch. '
  'The final labeling handed to the user keeps every user-given label as is, takes the model prediction for every other point, and covers each point once. Points that leave the labeled part lose their label.',
  ['histories', 'inputs'], 'All histories of labeling and moving, with final labels only or with any number of partial labels, and any predictor.',
  NOTEST, [EX + 'partitioned.py', EX + 'labeledset.py', EX + 'manager.py'],
  [('labels stored in labeling order, matching row order', EX + 'partitioned.py'), ('concatenation of label batches', EX + 'labeledset.py')],
  [('stored label set and last batch', 'labels of the labeled rows', EX + 'partitioned.py')],
  ['PartitionedDataset.training_set / last_training_set / labeled_set / predict_user_labels'])

p('C03', 'Rejected moves change nothing; reset restores; the caller\'s arrays stay intact',
  'Moving a point into the part it is already in, or an index which does not exist, is rejected with an error and leaves data, parts and labels exactly as they were. '
  'Resetting puts every point back in the unknown part, ordered by index, with no labels. When a copy is requested, the caller\'s data matrix, index and labels are never modified.',
  ['fault_sequences', 'histories'], 'All histories with illegal moves at any position of a batch (first, middle, last, duplicated), and resets at any point.',
  NOTEST, [EX + 'partitioned.py', EX + 'explore.py'],
  [('membership validation before moving', EX + 'partitioned.py'), ('clear()', EX + 'partitioned.py'), ('defensive copies', EX + 'partitioned.py')],
  (), ['exceptions and state snapshots around PartitionedDataset calls', 'arrays passed to PoolBasedExploration.run'])

p('C04', 'Label collections look up, concatenate and export without mixing entries',
  'A label collection returns for any requested indexes the final and partial labels stored under those indexes, in the requested order. '
  'Concatenation appends every entry of both operands in order, export lists exactly the stored values, partial labels default to the final ones, and mismatched sizes are rejected.',
  ['inputs'], 'All label vectors, partial label matrices and unique index values, lookup orders, and chains of concatenations including empty operands.',
  NOTEST, [EX + 'labeledset.py', EX + 'index.py'],
  [('index map', EX + 'index.py'), ('stacking of labels, partial labels and indexes', EX + 'labeledset.py')], (), ['LabeledSet public API'])

p('C05', 'An exploration labels unlabeled points once each, with the user\'s labels',
  'During a simulated exploration every iteration labels at least one point, all chosen among the still unlabeled ones, no point is ever labeled twice, and the labels shown to the model are the user\'s own for these points (after noise injection, if any). '
  'Initial sampling lasts until one positive and one negative label are known; the model is trained only from then on, on all labels so far. '
  'The run stops when a stopping criterion holds or nothing is left to label, and never labels anything afterwards.',
  ['histories', 'configurations'], 'All data sets, user labelings, learners, initial samplers, subsampling sizes, noise injectors and stopping criteria.',
  NOTEST, [EX + 'explore.py', EX + 'manager.py', EX + 'partitioned.py', 'utils/convergence.py'],
  [('exploration loop', EX + 'explore.py'), ('phase test and model update', EX + 'manager.py')],
  [('phase and iteration count', 'where the exploration is', EX + 'manager.py')],
  ['calls received by a recording learner, sampler, noise injector and criterion; metrics yielded per iteration'])

p('C06', 'Per-iteration metrics, callbacks and stopping criteria follow their schedule',
  'Each iteration yields its own dictionary with the phase, labeled indexes, labels and timings of that iteration only. '
  'Callbacks run on the first iteration, then on every k-th one, and on the last one; their values appear only in the iterations they ran in. '
  'The iteration limit allows exactly that many iterations after the first one, and a metric threshold stops the run at the first iteration which reports a value at or above it; the caller\'s lists of callbacks and criteria are left as they were.',
  ['histories', 'configurations'], 'All callback periods, iteration limits, thresholds, run lengths, and repeated runs.',
  NOTEST, [EX + 'manager.py', EX + 'explore.py', 'utils/convergence.py', 'utils/metric_logger.py', 'utils/validation.py'],
  [('callback period test', EX + 'manager.py'), ('metric flush at iteration start', EX + 'explore.py'), ('criteria', 'utils/convergence.py')],
  (), ['metrics yielded per iteration, callback invocations'])

p('C07', 'Equal seeds give equal explorations, and runs do not influence each other',
  'Running an exploration twice with the same seed, data and configuration yields the same sequence of labeled points and metrics, timings aside. '
  'A learner that has been reset behaves exactly like a newly created one, so the i-th of several repeated runs equals a separate run with the i-th seed.',
  ['histories', 'configurations'], 'All learners and their options, seeds, numbers of repetitions, and any exploration done before the reset.',
  NOTEST, [EX + 'explore.py', EX + 'manager.py', 'utils/random.py', AL + 'active_learner.py', DSM + 'base.py', VS + 'hit_and_run/hit_and_run.py', FA + 'active_learning.py'],
  [('seeding at run start', 'utils/random.py'), ('clear() of data, learner and caches', EX + 'manager.py')],
  [('learner caches', 'samples, ellipsoids, polytopes, weights, counters kept between iterations', AL)],
  ['metrics of repeated runs'])

p('C08', 'Reported metrics equal their definitions on the current predictions',
  'Classification scores equal the textbook definitions computed from true and predicted labels, with zero for an undefined ratio, on the test set or training set asked for, under the requested prefix. '
  'The three-set metric is the ratio of known positives to known positives plus unknown points and never exceeds the F-score of the model when the interest region is convex; prediction entropy is the mean binary entropy of the predicted probabilities. Unknown score names are rejected.',
  ['inputs', 'configurations'], 'All label and prediction vectors (including all-positive, all-negative and empty classes), score subsets, prefixes, and all polytope states.',
  NOTEST, ['utils/metrics.py'],
  [('confusion matrix and score table', 'utils/metrics.py'), ('three-set metric', 'utils/metrics.py')], (), ['dictionaries returned by metric callbacks'])

p('C09', 'Noise injection flips the requested share of labels and nothing else',
  'The noise injector returns the same points in the same order, each label flipped independently with the requested probability (never for 0, always for 1), and leaves the noise-free labels untouched. '
  'Partial labels stay consistent with the noisy label: a label turned positive has all partial labels positive, one turned negative loses exactly one partial label, and unflipped ones keep theirs. '
  'No noise is added during the requested number of first iterations or outside valid probabilities.',
  ['inputs', 'histories'], 'All label sets, numbers of partial labels, probabilities in [0, 1], iteration numbers and skip counts.',
  NOTEST, ['utils/noise.py', EX + 'explore.py'],
  [('independent flips and partial label repair', 'utils/noise.py'), ('skip of first iterations', 'utils/noise.py')], (), ['LabeledSet returned by the injector, flip counts over many draws'])

p('C10', 'Initial samplers draw the requested points without repetition',
  'The stratified sampler returns the requested numbers of distinct positive and negative points, every eligible point being reachable, and negatives that are negative in all subspaces when so asked; the random sampler returns the requested number of distinct unlabeled points; the fixed sampler returns its list. '
  'Points are identified by their index values, and impossible or non-positive requests raise an error.',
  ['inputs'], 'All label sets, index values, class balances and requested sizes.',
  NOTEST, ['initial_sampling.py', EX + 'partitioned.py'],
  [('choice without replacement over index values', 'initial_sampling.py')], (), ['indexes returned by samplers'])

p('C11', 'The next point to label is an unlabeled point of best informativeness score',
  'A learner proposes points that are not labeled yet, and among the considered candidates (all unlabeled points, or a random subsample of the requested size) one with the lowest score; ties are broken at random among all best candidates. '
  'The random strategy proposes the requested number of distinct unlabeled points, fewer only if fewer remain, and choosing never changes the data.',
  ['histories', 'configurations'], 'All score functions (with ties and infinities), partition states, subsample sizes and batch sizes.',
  NOTEST, [AL + 'active_learner.py', AL + 'random.py', EX + 'partitioned.py', DSM + 'base.py'],
  [('random minimizer selection', AL + 'active_learner.py'), ('sampling without replacement', EX + 'partitioned.py')], (), ['next_points_to_label results, scores seen by a recording learner'])

p('C12', 'Informativeness scores follow the documented query strategies',
  'Uncertainty sampling scores points by the distance of the positive class probability to one half, simple margin by the absolute distance to the decision boundary, ratio margin by the balance of the margins of the two classifiers biased either way, and query by disagreement scores a point lower exactly when the two biased classifiers disagree. '
  'Entropy reduction prefers the points whose labeling splits the sampled hypotheses most evenly and, among these, least expected entropy after labeling; lower is always more informative, and scoring does not change predictions.',
  ['inputs', 'configurations'], 'All training sets with both classes, candidate sets, kernels and learner options.',
  NOTEST, [AL + 'uncertainty.py', AL + 'margin.py', AL + 'query_by_disagreement.py', AL + 'entropy.py'],
  [('rank functions', AL + 'margin.py'), ('entropy after labeling', AL + 'entropy.py')], (), ['rank() against independent re-computation'])

p('C13', 'Every learner completes explorations and predicts labels and probabilities',
  'Every learner offered by the package runs a whole exploration, for any seed and in any number of dimensions, without failing as long as its documented data assumptions hold. '
  'After each iteration it gives every point a 0/1 label and a positive class probability between 0 and 1, points of probability above one half being labeled positive and below one half negative where the learner is probabilistic; predictions for a point do not depend on which other points are asked about together with it, except where they count newly drawn samples.',
  ['configurations', 'histories'], 'All exported learners with their documented options, data sets of any dimension, and exploration lengths until exhaustion.',
  NOTEST + ' Nine of the exported learners could not complete any exploration before the repairs.', [AL + '__init__.py', AL + 'active_learner.py', AL + 'nlp.py', AL + 'margin.py', AL + 'query_by_disagreement.py', FA + 'active_learning.py'],
  [('learner contract', AL + 'active_learner.py')], (), ['metrics, predictions and probabilities after each iteration'])

p('C14', 'Polytope model infers only labels implied by convexity, and all of them',
  'When the true positive (or, in flipped mode, negative) region is convex, no label inferred from the labeled points is ever wrong; inferred regions only grow as labels arrive. '
  'With points in general position, a point is inferred positive exactly when it lies in the convex hull of the positive points, and negative exactly when assuming it positive would put some negative point in the hull; feeding labels one by one, in batches or in any order makes no difference.',
  ['inputs', 'histories'], 'All convex regions in any dimension, labeled sets in general position, batchings and orders of labels, tolerances.',
  'Existing tests check a few hand-picked points in one and two dimensions; the guarantee is over all point sets, dimensions and update orders.', [DSM + 'polytope.py', DSM + 'convex/geometry.py', DSM + 'convex/convex.py', DSM + 'convex/one_dim_convex.py'],
  [('convex hull of positives', DSM + 'convex/geometry.py'), ('cones of negatives', DSM + 'convex/geometry.py'), ('incremental update', DSM + 'polytope.py')],
  [('positive region and negative cones', 'what is implied by the labels so far', DSM + 'polytope.py')], ['Polytope update / predict'])

p('C15', 'Contradicting labels invalidate the polytope model, which then infers nothing',
  'As soon as a negative point falls in the hull of the positive ones the update reports failure and the model is invalid: it infers nothing any more and refuses updates until reset. '
  'It stays valid as long as labels are consistent with convexity. The persistent variant then continues with the model that assumes a convex negative region, holding all labels it has received, and becomes invalid only when both are.',
  ['histories'], 'All label sequences, consistent or contradicting at any position of any batch, in any dimension, with resets.',
  'Existing tests check a few hand-made conflicts in two dimensions.', [DSM + 'polytope.py', DSM + 'convex/convex.py', DSM + 'convex/one_dim_convex.py', DSM + 'model.py'],
  [('conflict detection when the cone vertex is swallowed', DSM + 'convex/convex.py'), ('validity flags and fallback', DSM + 'polytope.py')],
  [('validity flags', 'whether labels are consistent with convexity', DSM + 'polytope.py')], ['update results, is_valid, predictions'])

p('C16', 'Convex hull and cone membership is exact and survives growth and serialization',
  'A point is inside a convex hull exactly when it is a convex combination of the hull points, and inside a cone exactly when the segment from it towards some hull point passes through the cone vertex, up to the tolerance. '
  'Adding points incrementally equals building from all points at once, a hull or cone that was pickled and restored answers the same, and a cone whose vertex is swallowed by the hull is reported.',
  ['inputs', 'histories'], 'All point sets in general position in one to several dimensions, insertion orders, query points, and serialization at any time.',
  'Existing tests use fixed squares, cubes and intervals.', [DSM + 'convex/convex.py', DSM + 'convex/one_dim_convex.py', DSM + 'convex/geometry.py'],
  [('facet equations', DSM + 'convex/convex.py'), ('pickling through vertices', DSM + 'convex/convex.py')], (), ['is_inside of hulls and cones'])

p('C17', 'Categorical, multi-set and conjunctive inference answer only what labels imply',
  'The categorical model answers positive or negative exactly for values labeled so. The multi-set model, where a set is positive exactly when all its items are, never infers a wrong label, keeps each labeled set\'s label or unknown, infers all positives and every forced single negative item, and becomes invalid on contradictions. '
  'Conjunctive inference over several categorical attributes deduces only partial and final labels implied by the labels seen, in every label order, and reports contradicting labels as an error.',
  ['inputs', 'histories'], 'All item universes, hidden labelings, label sequences and batchings, including contradicting ones.',
  'Existing tests check three fixed multi-set examples; the categorical and conjunctive models are not checked at all.', [DSM + 'polytope.py', AL + 'inference/inference.py', VS + 'categorical.py'],
  [('sets of known items and cached negative sets', DSM + 'polytope.py')],
  [('known positive / negative items and unresolved negative sets', 'everything implied so far', DSM + 'polytope.py')], ['update / predict against brute-force enumeration of hypotheses'])

p('C18', 'Dual-space learner trusts the polytope where it knows and the learner elsewhere',
  'A dual-space learner predicts the polytope label wherever the polytope knows it and the wrapped learner\'s label or probability elsewhere, and the wrapped learner\'s everywhere once the polytope is invalid. '
  'After each fit the inferred part contains exactly the unlabeled points whose label the polytope knows, a proposed point is never one whose label it knows while unknown ones remain, and the wrapped learner is trained on the user labels plus only correctly inferred ones. '
  'In the factorized variant a point is positive if positive in all subspaces, negative if negative in any, per-subspace models being fed their own attributes and partial labels.',
  ['histories', 'configurations'], 'All explorations, wrapped learners, polytope modes, factorizations, and label conflicts at any iteration.',
  NOTEST, [DSM + 'base.py', DSM + 'dsm.py', DSM + 'model.py', EX + 'partitioned.py'],
  [('polytope first prediction', DSM + 'base.py'), ('relabeling after a conflict', DSM + 'base.py'), ('per-subspace combination', DSM + 'model.py')],
  [('inferred part and cache of inferred training points', 'what was deduced from the polytope', DSM + 'base.py')], ['predictions, partitions and training calls of a recording learner at every iteration'])

p('C19', 'Version space samples are consistent with every label',
  'Every hypothesis sampled from a version space is strictly consistent with all training labels and inside the unit ball, for every training set that can be separated, whatever sampler, rounding and caching options are used and however the training set grows or is reordered between trainings. '
  'Hence version space learners predict every training point with its own label and probability 0 or 1, and probabilities are means over the requested number of samples.',
  ['inputs', 'configurations', 'histories'], 'All separable training sets, sequences of growing training sets, kernels, and combinations of sampler, rounding, cache and intercept options.',
  'Existing version space tests import a module that no longer exists and do not run.', [VS + 'base.py', VS + 'linear.py', VS + 'kernel.py', VS + 'hit_and_run/hit_and_run.py', VS + 'hit_and_run/polyhedral_cone.py'],
  [('hit-and-run chain kept inside the body', VS + 'hit_and_run/hit_and_run.py'), ('starting point choice', VS + 'hit_and_run/hit_and_run.py')],
  [('cached samples and ellipsoid', 'reused as starting points after new labels', VS + 'hit_and_run/hit_and_run.py')], ['samples returned, predictions on training points'])

p('C20', 'The rounding ellipsoid always contains the version space and rounding stops',
  'Rounding ends after a finite number of cuts, and at every moment the ellipsoid is well formed (symmetric positive definite, its factorized and direct forms agreeing) and contains the whole version space; each effective cut replaces it by the smallest ellipsoid containing the part that is kept, which has less volume, and a cut which cannot shrink it leaves it untouched. '
  'On convergence the ellipsoid, shrunk by the factor promised by the chosen strategy, is inside the version space cone, and inside the unit ball as well when cuts over the sphere are enabled. '
  'The same holds when a cached ellipsoid is carried over to a training set with more points or one more dimension.',
  ['inputs', 'configurations', 'histories'], 'All non-degenerate version spaces in several dimensions, rounding strategies and options, and chains of warm starts.',
  'Existing rounding tests do not run.', [VS + 'hit_and_run/rounding.py', VS + 'hit_and_run/ellipsoid.py', VS + 'hit_and_run/hit_and_run.py'],
  [('ellipsoid cut with LDL update', VS + 'hit_and_run/ellipsoid.py'), ('cut selection strategies', VS + 'hit_and_run/rounding.py'), ('dimension growth', VS + 'hit_and_run/hit_and_run.py')],
  [('center, scale and LDL factors', 'current ellipsoid', VS + 'hit_and_run/ellipsoid.py')], ['ellipsoid before and after each cut and fit'])

p('C21', 'Hit-and-run explores the whole version space uniformly',
  'The intersection of a line with the version space is exactly the segment of its points in it; a separating half-space is returned exactly for points outside and really separates them; the interior point found is strictly inside, and an empty version space is reported. '
  'Samples of the hit-and-run chain follow the uniform distribution over the version space, with or without rounding, for single and multiple chains: each step is a uniform draw from a chord whose direction does not depend on the point; the requested numbers of steps lie before the first sample and between samples; with rounding, version spaces much longer than wide are crossed as well.',
  ['inputs', 'configurations'], 'All cones and points inside and outside, directions, chain lengths and rounding matrices; distribution over long chains.',
  'Existing version space tests do not run.', [VS + 'hit_and_run/polyhedral_cone.py', VS + 'hit_and_run/hit_and_run.py'],
  [('line intersection', VS + 'hit_and_run/polyhedral_cone.py'), ('uniform draw on the segment', VS + 'hit_and_run/hit_and_run.py'), ('linear program', VS + 'hit_and_run/polyhedral_cone.py')], (), ['geometric answers against direct evaluation; sample moments against rejection sampling'])

p('C22', 'Kernels, kernel features and preprocessing match their mathematical definition',
  'Linear, Gaussian and polynomial kernels compute their textbook formula with the documented default parameters, the diagonal shortcut equals the diagonal of the full matrix, and jitter is added to the diagonal only. '
  'Feature transformers map new data with what they were fitted on, clones start unfitted and independent, and factorized ones handle each subspace alone. '
  'Margin-enhancing preprocessing and interaction terms have the documented size and values and do not alter their input.',
  ['inputs', 'configurations'], 'All data matrices, kernel parameters, factorizations, and fit/transform/clone sequences.',
  NOTEST, [AL + 'kernel.py', AL + 'aluma.py', FA + 'interaction.py', VS + 'kernel.py'],
  [('kernel formulas', AL + 'kernel.py'), ('transformers', AL + 'kernel.py')], (), ['matrices against independent formulas'])

p('C23', 'Factorization loss and gradient agree with each other and with the model',
  'The training loss of a factorized linear model is the mean negative log-likelihood of the labels under the product of its per-subspace logistic probabilities plus the penalty, and the gradient it reports is the derivative of that loss, for free and fixed attribute structures, with and without bias, on shared or per-subspace features. '
  'Mini-batch gradients visit every point once per epoch and average to the full gradient.',
  ['inputs', 'configurations'], 'All data, labels, weights (small and saturated), penalties, factorizations, and batch sizes.',
  NOTEST, [FA + 'linear.py', FA + 'partitioning/linear.py', FA + 'utils.pyx', FA + 'penalty.py'],
  [('loss and gradient', FA + 'linear.py'), ('native loss', FA + 'utils.pyx'), ('batching', FA + 'linear.py')], (), ['finite differences and independent likelihood'])

p('C24', 'Native numerical routines are accurate and touch only their own memory',
  'The compiled routines (log-probabilities, losses, gradient weights, Huber penalty, log-sigmoid) return the mathematically correct value to near machine precision for every finite input for which the probabilities of both classes are representable, including saturated margins where naive formulas overflow or cancel. '
  'They never read or write outside the arrays they are given, never use uninitialised memory, and never modify their inputs.',
  ['inputs'], 'All array sizes (empty, one, large), finite margins of any magnitude, binary labels, and memory layouts accepted.',
  NOTEST, [FA + 'utils.pyx'],
  [('stable log(1-exp) and softplus', FA + 'utils.pyx'), ('loops with bounds checks off', FA + 'utils.pyx')], (), ['results against 50-digit arithmetic; AddressSanitizer and UBSan reports'])

p('C25', 'Optimizers return consistent results, respect limits and reach optima',
  'Every optimizer returns a point with its true objective value, stops within its iteration limit, reports success only if its stopping condition holds at the returned point, never alters the starting point, starts every minimization afresh, calls back once per iterate, and in verbose mode warns exactly when the iteration limit ended it. '
  'Step sizes follow the configured schedule, and on smooth strongly convex problems (plus a proximal penalty where supported) iterates reach the minimizer.',
  ['inputs', 'configurations', 'histories'], 'All optimizers, schedules and options, starting points, quadratic and composite objectives, and repeated use of one optimizer.',
  NOTEST, [FA + 'optimization.py', FA + 'step_size_scheduler.py'],
  [('common iteration loop', FA + 'optimization.py'), ('schedulers', FA + 'step_size_scheduler.py')],
  [('momentum terms', 'state that must be reset between minimizations', FA + 'optimization.py')], ['calls to instrumented objective, gradient and callback; results'])

p('C26', 'Penalty terms have matching value, gradient, proximal map and optimality test',
  'For every penalty the gradient is the derivative of the value wherever it is differentiable, the proximal map is the minimizer of the penalty plus the scaled squared distance, and the subgradient test accepts exactly the subgradients up to the tolerance. '
  'This holds with feature groups and for zero rows, results depend on the inputs only, and non-positive penalties are rejected.',
  ['inputs', 'configurations'], 'All weight matrices including zero rows and entries, penalty strengths, step sizes and disjoint feature groups.',
  NOTEST, [FA + 'penalty.py', FA + 'utils.pyx'],
  [('closed-form proximal maps', FA + 'penalty.py')], (), ['finite differences, optimality conditions and random competitors under poisoned memory'])

p('C27', 'Factorized models predict by their weights, and pruning keeps relevant subspaces',
  'A fitted model\'s probability is the product of its per-subspace logistic probabilities, its label is positive exactly above one half, and copies are independent of the original. '
  'Fitting honours the requested subspaces (weights outside them are zero), keeps the best of several restarts, and starts from the given weights. '
  'Pruning keeps, unchanged and in order, exactly the subspaces that are relevant under the given threshold (all of them if none is), and does not alter the model it was given.',
  ['inputs', 'configurations'], 'All data, factorizations, restart counts, optimizers, thresholds and kernels.',
  NOTEST, [FA + 'linear.py', FA + 'kernel.py', FA + 'learn.py'],
  [('prediction', FA + 'linear.py'), ('restarts', FA + 'linear.py'), ('pruning', FA + 'learn.py')], (), ['predictions against independent evaluation of the published weights'])

p('C28', 'Swap learner changes phase on schedule and extracts a compatible factorization',
  'The swap learner queries with its first learner for the configured number of iterations, then trains the factorized model and refines it from there on, each phase predicting with its own model and refining on user labels only. '
  'The extracted factorization is the set of maximal distinct subspaces, relevance is by above-average importance (by group when groups are given), and the switch to per-subspace learning happens only after the factorization stayed the same long enough and matches the user\'s, subspaces then being ordered like the user\'s.',
  ['histories', 'configurations'], 'All swap iterations, refinement settings, weight matrices, attribute groups, user factorizations and sequences of extracted factorizations.',
  NOTEST, [FA + 'active_learning.py', FA + 'learn.py'],
  [('phase tests', FA + 'active_learning.py'), ('stability and compatibility tests', FA + 'active_learning.py'), ('maximal subspaces', FA + 'learn.py')],
  [('iteration and stability counters', 'phase of the learner', FA + 'active_learning.py')], ['calls received by recording models; extracted factorizations'])

p('C29', 'Attribute partition search returns valid partitions and the best one',
  'Partition search returns disjoint groups covering all attributes within the requested limits; exhaustive search returns one of minimal loss among all admissible partitions and visits each admissible partition; greedy search stops only where no admissible merge of two groups lowers the loss; impossible limits are rejected. '
  'Merging two groups keeps the union of attributes and all weights, so that the merged logistic margin is the sum of both, leaving the other groups untouched; partial probabilities multiply to the full one.',
  ['inputs', 'configurations'], 'All numbers of attributes, limits, loss functions over partitions, and merges.',
  NOTEST, [FA + 'partitioning/learn.py', FA + 'partitioning/linear.py'],
  [('partition enumeration', FA + 'partitioning/learn.py'), ('weight merging', FA + 'partitioning/linear.py')], (), ['partitions and losses seen by a recording learner'])

p('C30', 'Subspace learners combine per-subspace answers with the chosen connectors',
  'A subspace learner trains one model per subspace on that subspace\'s attributes and partial labels only, and combines labels, probabilities and scores with the chosen connectors (and/or/product, min/max/product, sum/square, greedy/square/product losses or a given function). '
  'Changing the factorization replaces all per-subspace models according to the given modes, reset resets each, and inconsistent partition and mode lists are rejected.',
  ['inputs', 'configurations'], 'All partitions (lists and slices), modes, connectors, losses, and data.',
  NOTEST, [VS + 'subspace.py', VS + 'categorical.py', AL + 'margin.py'],
  [('per-subspace dispatch and connectors', VS + 'subspace.py')], (), ['calls and answers of recording base learners; predictions against recombination'])

p('C31', 'Metric log keeps, sums or appends values as asked and never leaks between users',
  'Logging a metric replaces, adds to or appends to its current value as requested, logs of several metrics behave like single ones, flushing empties the log without touching dictionaries handed out before, and timed functions return their result unchanged and record a non-negative time. '
  'Parameter checks accept exactly the documented values (sign, integrality, infinity, none, ranges) and raise an error for all others.',
  ['histories', 'inputs'], 'All sequences of log, flush, read and timed-call operations, nested timings, exceptions, and parameter values of any type.',
  NOTEST, ['utils/metric_logger.py', 'utils/validation.py'],
  [('de-duplication strategies', 'utils/metric_logger.py'), ('value checks', 'utils/validation.py')],
  [('current metrics dictionary', 'global log', 'utils/metric_logger.py')], ['returned dictionaries against a model'])

p('C32', 'Bayesian linear and kernel learners return the Laplace posterior predictive',
  'The posterior mode found is the minimizer of the regularised logistic loss, and the predicted probability is the probit approximation of the Laplace posterior: it uses the inverse Hessian at the mode for the variance, lies in [0, 1], and falls on the positive side of one half exactly when the mode does. '
  'Training data is not modified and a reset learner forgets its posterior.',
  ['inputs', 'configurations'], 'All training sets, priors, scales, intercept options, kernels, and test points.',
  NOTEST, [VS + 'bayesian/laplace.py', VS + 'bayesian/base.py', VS + 'kernel.py'],
  [('MAP estimation', VS + 'bayesian/laplace.py'), ('Cholesky of the Hessian', VS + 'bayesian/laplace.py')], (), ['probabilities against direct linear algebra'])

p('C33', 'Manual exploration asks for each point until answered and stores those answers',
  'In the command line exploration, every proposed point is shown to the user and stored with exactly the label typed for it; malformed answers (wrong characters or counts) are asked again and never stored. '
  'The session continues only while the user agrees and no stopping criterion holds, and ends once all points are labeled. Criteria see the metrics of the last iteration only, never those of earlier ones or of earlier explorations.',
  ['histories', 'inputs'], 'All sequences of user input, valid or malformed, batch sizes, learners and stopping criteria.',
  NOTEST, [EX + 'command_line_explore.py', EX + 'manager.py'],
  [('input validation loop', EX + 'command_line_explore.py')], (), ['prompts and scripted answers against labels received by a recording learner'])

p('C34', 'Learners built from options behave like the components assembled with them',
  'Learners composed of others pass every option they accept to the component it configures: version space learners (linear, kernel, entropy reduction, per subspace) answer exactly like the same sampler, '
  'classifier and kernel put together by hand with those options under the same random numbers; Bayesian learners hand prior, scale, warm-up, thinning, number of samples, tolerances and limits to their '
  'sampler or approximation, also when compiled Stan models are saved and reused for other priors; the simplified swap learner is the swap learner with the optimizers, penalties, schedules and '
  'per-subspace learner its flags select, with optimizer iterations counted in passes over the training sample.',
  ['configurations', 'inputs', 'histories'], 'All combinations of documented options of the composed learners, growing training sets, and whole runs over all phases.',
  NOTEST, [VS + 'base.py', VS + 'linear.py', VS + 'kernel.py', VS + 'subspace.py', VS + 'bayesian/base.py', VS + 'bayesian/stan.py', AL + 'entropy.py', AL + 'factorization/active_learning.py'],
  [('option forwarding', VS + 'base.py'), ('compiled model cache', VS + 'bayesian/stan.py'), ('presets', AL + 'factorization/active_learning.py')], (),
  ['answers of both assemblies under one seed', 'calls received by a stand-in sampler'])

p('C35', 'Objects used side by side do not influence each other',
  'However the operations of several learners, data sets, exploration managers, convexity and categorical models, optimizers, factorization models, kernels and samplers of one process are interleaved - also one being '
  'used from a callback or objective of another - each of them answers exactly as if it were the only one, given the same random numbers: objects share no state, neither through their classes, default arguments '
  'nor module-level caches. Only the metric log is common to all.',
  ['schedules', 'histories', 'configurations'], 'All pairs and groups of objects of the package, equal or different in kind, options and data, and all interleavings of their operations.',
  NOTEST, [AL + 'active_learner.py', AL + 'version_space/hit_and_run/hit_and_run.py', AL + 'factorization/optimization.py', AL + 'dsm/base.py', AL + 'dsm/polytope.py', AL + 'kernel.py', EX + 'partitioned.py', EX + 'manager.py', 'utils/metrics.py'],
  [('state kept between calls', AL + 'version_space/hit_and_run/hit_and_run.py'), ('momentum and moment estimates', AL + 'factorization/optimization.py'), ('cached training points', AL + 'dsm/base.py')], (),
  ['answers of each object alone and interleaved, each in a fresh process'])

p('C36', 'Answers do not depend on how inputs are represented',
  'The same numbers may be given as integers of any width (weights: of at least 32 bits) or as floats, in row-major, column-major, strided, reversed or read-only arrays; labels also as booleans, single-precision numbers or lists, row identifiers also as lists, '
  'tuples or small integers. Learners, explorations, data sets, label sets, kernels, penalties, optimizers, factorization models, partition fits, polytopes and samplers then give the same answers as for plain float arrays, '
  'up to rounding, and refuse none of them.',
  ['inputs', 'configurations'], 'All representations of all inputs of all components.',
  NOTEST, [AL + 'kernel.py', AL + 'factorization/linear.py', AL + 'factorization/penalty.py', AL + 'factorization/partitioning/linear.py', AL + 'factorization/optimization.py', AL + 'dsm/convex/convex.py', EX + 'partitioned.py', EX + 'labeledset.py', 'utils/noise.py'],
  [('conversion of data', AL + 'kernel.py'), ('conversion of labels', AL + 'factorization/linear.py')], (),
  ['answers of the same script under two representations'])
p('C37', 'Interrupted work loses no labels, and a reset makes every object usable again',
  'A stop (keyboard interrupt) or an error inside an exploration or computation reaches the caller instead of being dropped, even inside updates of models. Wherever it strikes - in the code of the package, or in a callback, stopping criterion, initial sampler or '
  'the labeling user - the labeled, inferred and unknown parts of the data remain a partition and every stored label is one the user gave. After clear(), or when runs, trainings, samplings and minimizations (which start over by themselves) are called again, '
  'learners, managers, data, optimizers, factorization models, samplers, polytopes and kernels behave exactly like new objects under the same seed.',
  ['fault_sequences', 'crash_points', 'inputs'], 'All lines and calls at which work may be interrupted, for all components.',
  NOTEST, [EX + 'explore.py', EX + 'manager.py', EX + 'partitioned.py', AL + 'factorization/active_learning.py', AL + 'factorization/optimization.py', AL + 'factorization/linear.py', AL + 'dsm/polytope.py', AL + 'version_space/hit_and_run/hit_and_run.py'],
  [('reset of the exploration', EX + 'manager.py'), ('updates of polytopes', AL + 'dsm/polytope.py')], (),
  ['parts and labels after a failure', 'answers of objects reset after an interruption'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P), 'properties')
