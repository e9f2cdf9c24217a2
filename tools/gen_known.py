""" Writes known_findings.json: defects recorded (known) and repaired (fixed; these suppress nothing). """
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KNOWN = [
    {'property': 'C13', 'mechanism': 'two-steps-learner', 'what': 'TwoStepsLearner cannot run any exploration: it calls PartitionedDataset.select_cols, which does not exist (its source is marked as unfinished by a TODO)'},
]

# subject prefix of the fix commit -> properties
FIXED = [
    ('put the typing import of dsm/polytope.py', 'C14', 'the package could not be imported'),
    ('use the builtin float, since numpy 1.24', 'C22', 'the Gaussian kernel and the categorical polytope failed on every call, as np.float does not exist any more'),
    ('polynomial kernel diagonal uses the degree', 'C22', 'the diagonal of the polynomial kernel was computed with another formula than the matrix, and failed with the default gamma'),
    ('move_to_unknown moves the row', 'C01', 'un-inferring a point moved the row numbered like its index'),
    ('a rejected move leaves the partitioned dataset', 'C03', 'points listed before an illegal one were moved without their labels'),
    ('moving points out of the labeled partition', 'C02', 'labels stayed behind when points left the labeled part, shifting the labels of the other points'),
    ('QueryByDisagreement no longer crashes once', 'C13', 'QueryByDisagreement crashed when fewer unlabeled points than the background sample size remained'),
    ('predict_proba of learners wrapping scikit-learn', 'C13', 'predict_proba returned a matrix of both classes instead of the positive class probability'),
    ('RatioMargin takes the classes', 'C12', 'RatioMargin crashed on its first ranking'),
    ('set add_bias before the proximal penalty', 'C27', 'learners could not be built with FISTA or ProximalGradientDescent'),
    ('copying a learner trained with a proximal', 'C27', 'copy() crashed after training with a proximal optimizer'),
    ('pruning subspaces of a learner without bias', 'C27', 'pruning crashed without bias'),
    ('BFGS flattens the weight matrix', 'C25', 'BFGS rejected weight matrices'),
    ('penalties no longer read uninitialised memory', 'C26', 'gradients and proximal maps of rows with zero norm were uninitialised memory'),
    ('proximal operator and subgradient test of the group penalty', 'C26', 'the group penalty ignored its groups in the proximal map and the subgradient test'),
    ('factorization reindexing follows the user order', 'C28', 'subspaces were reordered by the inverse permutation'),
    ('the swap learner no longer crashes when no user factorization', 'C28', 'the swap learner crashed without user factorization'),
    ('refine_step_size no longer changes the default', 'C28', 'one learner changed the optimizer defaults of all others'),
    ('Laplace posterior variance solves', 'C32', 'the posterior variance was computed with the wrong triangle of the factor'),
    ('degenerate version spaces are reported', 'C21', 'an interior point was returned for some empty version spaces'),
    ('a line parallel to a violated constraint', 'C21', 'a segment was returned for lines parallel to a constraint they violate'),
    ('factorized kernel transformers can be fitted and transform', 'C22', 'fit_transform of factorized transformers always crashed for exact kernels, and for few points with Nystroem, so that kernel factorization models could not be trained on given subspaces'),
    ('Nystroem transformers accept the same kernel names', 'C22', "the kernel name 'gaussian' was rejected"),
    ('polytope keeps negative points labeled before', 'C14', 'negative points labeled before the first positive one were forgotten'),
    ('a conflict in one polytope no longer hides', 'C18', 'after a conflict in one subspace polytope the following ones did not receive the labels'),
    ('multi-set polytope detects a negative point', 'C17', 'a negative set of known positive items was not detected as a contradiction'),
    ("documented name of the 'SQUARE'", 'C30', "the loss documented as 'SQUARE' was rejected"),
    ('the exploration manager no longer appends', 'C06', "the caller's list of convergence criteria was appended to, tuples were rejected"),
    ('three-set metric is zero, not NaN', 'C08', 'the metric was NaN when all points are known negative'),
    ('SubspatialSimpleMargin can compute', 'C30', "positive class probabilities with 'AND' and 'OR' label functions crashed"),
    ('categorical inference looks up hashable', 'C17', 'categorical inference crashed and mixed subspaces'),
    ('factorization gradients no longer vanish', 'C23', 'gradients of negative points with margins above 37 were zero'),
    ('metrics left over by an abandoned run', 'C06', 'after a run was abandoned half-way, the next one stopped before its first iteration if the leftover metrics reach a threshold'),
    ('kernel version space no longer predicts NaN', 'C19', 'KernelVersionSpace predicted positive training points as negative (NaN margins) when asked for the array it was fitted on'),
    ('rounding restarts from the unit ball', 'C13', 'a dual-space learner over a kernel version space with cached rounding crashed at label conflicts'),
    ('rounding no longer divides by zero', 'C20', 'one-dimensional version spaces could not be rounded (ZeroDivisionError)'),
    ('setting partial labels no longer modifies', 'C03', 'the LabeledSet given by the caller was modified'),
    ('adapting the iterations of a refining', 'C07', 'with one model for both phases and an iteration adapter, runs after the first one used the adapted number of iterations in the swap phase'),
    ('pruning never removes all subspaces', 'C13', 'explorations crashed once the factorized model was positive everywhere and all its subspaces got pruned'),
    ('the dual space model never trains', 'C18', 'after a label conflict, the dual space model kept training on inferred labels contradicting the labels given by the user'),
    ("sampling failed when the rounding ellipsoid's center", 'C19', 'with few rounding iterations over integer data, sampling failed (Line does not intersect convex body)'),
    ('contradicting labels of identical points', 'C15', 'in two or more dimensions, a point labeled positive and negative did not invalidate the polytope model'),
    ('degenerate positive points no longer', 'C15', 'when positive points were collinear (or in a plane), the negative points labeled with them were forgotten, and later contradictions not reported'),
    ('convex hulls are rebuilt', 'C14', 'integer-valued points made the incremental hull fail, losing labels, or crashed the process (segmentation fault)'),
    ('cones which were pickled', 'C16', 'a cone that was pickled and restored (or deep-copied) gave wrong answers once points were added, in two dimensions'),
    ('subgradient test of the sparse group penalty takes', 'C26', 'the subgradient test ignored the feature groups of the sparse group penalty for zero rows'),
    ('features of subspaces are accepted in any memory', 'C23', 'three-dimensional features which were not C-contiguous made the factorization loss fail'),
    ('factorization losses reject labels of another length', 'C24', 'losses and gradient weights read outside of the label array when it was shorter than the data'),
    ('penalties and optimizers can be shared between', 'C27', 'building a learner with a proximal optimizer removed the gradient of the penalty given to it, and learners sharing an optimizer used the penalty of the last one built'),
    ('bias of trained learners without bias is zero', 'C27', 'the bias of trained learners without bias was missing instead of zero'),
    ('factorized learners with given subspaces can be trained', 'C27', 'training with a proximal optimizer crashed when the subspaces were given'),
    ("subspaces are ordered like the user's", 'C28', "user factorization [[2, 3], [0, 1]]: the extracted subspaces and partial labels were ordered like [[0, 1], [2, 3]], while the user's further partial labels came in the order given"),
    ("never switch to a factorization without attributes", 'C28', 'with all weights shrunk to zero the extracted factorization [[]] matched any single user subspace, and the per-subspace learner was trained on data without columns'),
    ("extract factorizations from models without bias", 'C28', 'factorizations could not be extracted from models without bias (ValueError on reshaping the weights)'),
    ("greedy partition search respects", 'C29', 'GreedySelector(max_partitions=2) returned more than two groups whenever merging did not lower the loss'),
    ("appending to a metric does not change the list which was logged", 'C31',
     'appending to a metric changed in place a list which belonged to the caller, or which was handed out with earlier metrics'),
    ("parameter checks reject NaN", 'C31', 'NaN was accepted wherever a positive, non-negative or bounded number is required'),
    ("noise probability must be a number", 'C31', 'a noise probability of NaN was accepted'),
    ("kernel Laplace posterior variance uses the kernel of the test points", 'C32',
     'the kernel Laplace learner took k(x, x) = 1 for every kernel: probabilities were NaN or wrong for linear and polynomial kernels'),
    ("training the kernel Laplace model does not change its kernel matrix", 'C32', 'fitting on a kernel matrix overwrote the matrix of the caller'),
    ("Laplace posterior mode is found up to the requested tolerance", 'C32',
     'the solver stopped at small improvements long before the documented tolerance on the gradient: probabilities were off by up to 0.08'),
    ("rounding very thin version spaces", 'C20', 'with features around 1e7 next to an intercept, the default rounding repeated a cut without effect forever, so training never ended'),
    ("interior points are found for data of any scale", 'C21', 'features above 1e4 made the linear program fail for about one separable training set in ten ("Linear programming failed")'),
    ("command line exploration computes its callbacks", 'C33',
     'callbacks were never computed, so criteria on their metrics read leftovers of earlier explorations'),
    ("compiled Stan models are saved even", 'C34', 'Bayesian learners sampled by Stan could not be created unless a folder stan_models existed in the working directory'),
    ("kernels compute with real numbers", 'C36', 'linear and polynomial kernel version spaces failed on integer data (UFuncTypeError when adding the jitter), and products of small integer types overflowed silently'),
    ("train factorization models with labels of any type", 'C36', 'factorization and swap learners refused integer or boolean labels and labels which are a column of a table (ValueError in the compiled losses)'),
    ("penalties and training accept integer weights", 'C36', 'gradients and proximal operators of group penalties were truncated to integers, or failed, for integer weights'),
    ("an interrupted refinement keeps the maximum", 'C37', 'stopping a swap learner while it refines left the adapted number of iterations in its optimizer, which later runs used'),
    ("an error or interruption inside a polytope update", 'C37', 'a return in a finally block dropped stops and errors (e.g. points with a wrong number of attributes) inside polytope updates, which reported success and stayed half done'),
    ("contradicting labels of a conjunctive inference", 'C17', 'a positive point holding a value known to be negative was accepted: the validity flags were never updated, so the error promised for contradictions was never raised'),
    ("command line labels other than 0 and 1 are asked again", 'C33',
     "tokens such as '01', '10' or '11' were accepted and stored as labels 1, 10, 11"),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True, check=True).stdout.splitlines()
    commits = [l.split(' ', 1) for l in log if l.split(' ', 1)[1].startswith('fix:')]
    fixed = []
    for prefix, prop, what in FIXED:
        match = [h for h, s in commits if s.startswith('fix: ' + prefix)]
        assert len(match) == 1, (prefix, match)
        fixed.append('fixed: property={} {} {}'.format(prop, match[0], what))
    assert len(fixed) == len(commits), set(h for h, _ in commits) - set(f.split()[2] for f in fixed)
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'known': KNOWN, 'fixed': fixed}, f, indent=1)
        f.write('\n')
    print(len(KNOWN), 'known,', len(fixed), 'fixed')


if __name__ == '__main__':
    main()
