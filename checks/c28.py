"""
C28: the swap learner against a simulation of its schedule: recording learners and optimizers tell which model is trained on what, with how many
iterations, and which one answers; factorizations against a search for maximal subspaces and a model of the stability and compatibility rules.
"""
import copy

import numpy as np
from aideme.active_learning import ActiveLearner, FactorizedActiveLearner
from aideme.active_learning.factorization.active_learning import FactorizationManager, FLMUncertaintySampler, SimplifiedSwapLearner, SwapLearner
from aideme.active_learning.factorization.learn import compute_factorization, compute_factorization_and_partial_labels, compute_relevant_attributes
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import FISTA, Adam, GradientDescent
from aideme.active_learning.factorization.penalty import L1Penalty, L2SqrtPenalty, SparseGroupLassoPenalty
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.utils import metric_logger
from harness.core import Skip, workload
from harness import gen
from checks.c23 import log_probas, margins_of, sigmoid
from checks.c27 import Scripted

RULE = 'A case is one history of trainings or factorizations; non-trivial when a phase changes or several subspaces are compared; signature: configuration and outcome.'
QUICK = 2  # times the cases of the quick tier
REQUIRED = {'long_stability': 400, 'adapted': 140, 'compatible': 6300, 'expected_errors': 36, 'extractions': 54, 'fact_updates': 1700, 'factorizations': 670, 'first_phase': 400, 'flm_trainings': 250, 'full_switches': 140, 'grouped': 280, 'manager_resets': 550, 'nested': 480, 'partial_labels': 1300, 'positive_partial_labels': 690, 'preset_refinements': 180, 'queries': 800, 'ramped': 73, 'refinements': 260, 'relevant': 4700, 'reordered': 1700, 'reordered_switches': 13, 'resets': 54, 'resets_after_switch': 73, 'schedules': 110, 'several': 13, 'shared_subspaces': 1000, 'specialist_trainings': 860, 'stable': 6000, 'swaps': 130, 'switches': 3500, 'trained_on_labels': 54, 'trained_on_predictions': 80}
ASSUMPTIONS = ['at least two attributes and attribute groups, as no attribute alone is above the average',
               'swap and refining models agree on having a bias']


class Teacher(ActiveLearner):
    """ first learner: fixed opinions which differ after every training; writes down what it is asked """
    def __init__(self):
        self.fits, self.cleared, self.asked, self.sets = 0, 0, [], []

    def clear(self):
        self.cleared += 1
        self.fits = 0

    def fit_data(self, data):
        self.fits += 1
        X, y = data.training_set()
        self.sets.append((X.copy(), np.array(y)))

    def opinion(self, X):
        return np.mod(np.abs(np.asarray(X, dtype=float)).sum(axis=1) * 531.77 * (self.fits + 1), 1.)

    def predict_proba(self, X):
        self.asked.append('proba')
        return self.opinion(X)

    def predict(self, X):
        self.asked.append('predict')
        return (self.opinion(X) > 0.4).astype(float)

    def rank(self, X):
        self.asked.append('rank')
        return np.mod(self.opinion(X) * 97, 1.)


class Specialist(FactorizedActiveLearner):
    """ per-subspace learner """
    def __init__(self):
        self.structures, self.sets, self.cleared, self.fits = [], [], 0, 0

    def clear(self):
        self.cleared += 1
        self.fits = 0

    def set_factorization_structure(self, **info):
        self.structures.append({k: copy.deepcopy(v) for k, v in info.items()})

    def fit_data(self, data):
        self.fits += 1
        X, P = data.training_set(get_partial=True)
        self.sets.append((X.copy(), np.array(P)))

    def opinion(self, X):
        return np.mod(np.abs(np.asarray(X, dtype=float)).sum(axis=1) * 377.13 * (self.fits + 1), 1.)

    predict_proba = opinion

    def predict(self, X):
        return (self.opinion(X) > 0.3).astype(float)

    def rank(self, X):
        return np.mod(self.opinion(X) * 31, 1.)


class Pupil(LinearFactorizationLearner):
    """ writes down what it is trained on """
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.trainings = []

    def fit(self, X, y, factorization, retries=1, x0=None):
        self.trainings.append((X.copy(), np.array(y), factorization, retries, x0))
        return super().fit(X, y, factorization, retries=retries, x0=x0)


def make_optimizer(rng, max_iter, kinds=3):
    kind = rng.randint(kinds)
    if kind == 0:
        return GradientDescent(step_size=0.1, max_iter=max_iter, gtol=0)
    if kind == 1:
        return Adam(step_size=0.05, max_iter=max_iter, gtol=0)
    return FISTA(step_size=0.1, max_iter=max_iter, gtol=0)


def make_penalty(rng, proximal):
    kind = rng.randint(4)
    if kind == 0 and not proximal:
        return None
    lam = float(10. ** rng.uniform(-4, -1))
    return [SparseGroupLassoPenalty(lam, lam), L1Penalty(lam), L2SqrtPenalty(lam)][kind % 3]


def least_probas(X, W, b):
    return sigmoid(margins_of(X, W, b)).min(axis=0)


def prune(ctx, X, W, b, threshold):
    """ rows kept """
    least, norms = least_probas(X, W, b), np.sqrt((W ** 2).sum(axis=1))
    if np.any(np.abs(least - threshold) < 1e-9) or np.any(np.abs(norms - 1e-8) < 1e-12):
        raise Skip()
    keep = (least < threshold) & (norms > 1e-8)
    return np.ones(len(keep), dtype=bool) if not keep.any() else keep


def labelled_run(rng, n, d):
    X = rng.normal(size=(n, d)) * 10. ** rng.uniform(-0.5, 0.5)
    w = rng.normal(size=d)
    y = ((X @ w > -0.3) & (X[:, 0] > -0.5)).astype(float)
    y[:2] = [0, 1]
    return X, y


@workload(quick=250, thorough=5000)
def schedules(ctx, rng):
    """ phases, training sets and models of whole runs """
    n, d, K = rng.randint(12, 40), rng.randint(2, 5), rng.randint(1, 5)
    large = ctx.index % 40 == 7
    if large:
        n = int(rng.randint(1500, 9000))
    X, y = labelled_run(rng, n, d)
    data = PartitionedDataset(X)
    swap_iter = int(rng.randint(1, 5))
    add_bias = bool(rng.rand() < 0.7)
    retries = int(rng.randint(1, 4))
    on_prediction = bool(rng.rand() < 0.6)
    size = None if rng.rand() < 0.3 else int(rng.randint(3, n + 5))
    on_prediction |= large
    ctx.event('large', int(large))
    do_prune = bool(rng.rand() < 0.5)
    threshold = float(rng.choice([0.6, 0.9, 0.99]))
    same = rng.rand() < 0.25
    adapter = None if rng.rand() < 0.4 else (lambda it, a=rng.randint(1, 4), b=rng.randint(1, 4): int(a + b * (it % 4)))
    teacher = Teacher()
    swap_opt = make_optimizer(rng, int(rng.randint(3, 12)))
    swap_pen = make_penalty(rng, isinstance(swap_opt, FISTA))
    swap = Pupil(swap_opt, swap_pen, add_bias=add_bias)
    if same:
        refining = None
        ref_opt, ref_pen = copy.deepcopy(swap_opt), copy.deepcopy(swap_pen)
    else:
        ref_opt = make_optimizer(rng, int(rng.randint(3, 12)))
        ref_pen = make_penalty(rng, isinstance(ref_opt, FISTA))
        refining = LinearFactorizationLearner(copy.deepcopy(ref_opt), copy.deepcopy(ref_pen), add_bias=add_bias)
    base_iter = ref_opt._max_iter
    learner = SwapLearner(teacher, swap, refining, num_subspaces=K, retries=retries, max_iter_adapter=adapter, swap_iter=swap_iter,
                          train_on_prediction=on_prediction, train_sample_size=size, prune=do_prune, prune_threshold=threshold)
    where0 = 'swap after {}, {} subspaces, {}/{} ({}), bias {}, prune {} {}'.format(swap_iter, K, type(swap_opt).__name__, type(ref_opt).__name__, 'same' if same else 'different', add_bias, do_prune, threshold)
    T = rng.uniform(-1, 1, size=(6, d)) * 3
    outcome = []
    for run in range(rng.randint(1, 3)):
        if run:
            if rng.rand() < 0.5:
                data.clear()
            else:
                data = PartitionedDataset(X)
            before = teacher.cleared
            learner.clear()
            ctx.check(teacher.cleared == before + 1 and swap.weights is None, '{}: clear reached the first learner {} times, weights {}', where0, teacher.cleared - before, swap.weights)
            ctx.event('resets')
            swap.trainings.clear()
        teacher.sets.clear()
        order = np.r_[0, 1, 2 + rng.permutation(n - 2)]
        pos, labeled = 0, []
        W = None
        for it in range(1, swap_iter + 1 + rng.randint(0, 6)):
            m = 3 if pos == 0 else rng.randint(1, 3)
            batch = order[pos:pos + m]
            pos += m
            if len(batch) == 0:
                break
            labeled.extend(batch.tolist())
            data.move_to_labeled(LabeledSet(y[batch], index=batch))
            where = '{}: iteration {}'.format(where0, it)
            fits, trainings = teacher.fits, len(swap.trainings)
            learner.fit_data(data)
            LX, Ly = X[labeled], y[labeled]
            # who was trained on what
            if it <= swap_iter:
                ctx.check(teacher.fits == fits + 1 and len(swap.trainings) == trainings, '{}: first learner trained {} times, swap model {} times', where, teacher.fits - fits, len(swap.trainings) - trainings)
                TX, Ty = teacher.sets[-1]
                ctx.same(np.sort(TX[:, 0]), np.sort(LX[:, 0]), '{}: training points of the first learner', where)
                ctx.check(learner.linear_model is None, '{}: factorized model during the first phase', where)
                ctx.event('first_phase')
            else:
                ctx.check(teacher.fits == fits, '{}: the first learner was trained after the swap', where)
                ctx.check(learner.linear_model is not None, '{}: no factorized model after the swap', where)
                w, b = learner.linear_model.weights, learner.linear_model.bias
                if it == swap_iter + 1:
                    ctx.check(len(swap.trainings) == trainings + 1, '{}: swap model trained {} times', where, len(swap.trainings) - trainings)
                    SX, Sy, fact, r, x0 = swap.trainings[-1]
                    ctx.check(fact == K and r == retries and x0 is None, '{}: swap model trained with {} subspaces, {} starts, from {}', where, fact, r, x0)
                    if on_prediction:
                        ctx.check(len(SX) == (n if size is None else min(size, n)), '{}: swap model trained on {} points, asked for {} of {}', where, len(SX), size, n)
                        rows = set(x.tobytes() for x in np.ascontiguousarray(SX))
                        ctx.check(len(rows) == len(SX) and rows <= set(x.tobytes() for x in X), '{}: training points repeated or not from the data', where)
                        ctx.same(Sy, (teacher.opinion(SX) > 0.4).astype(float), '{}: labels for the swap model, which are predictions', where)
                        ctx.event('trained_on_predictions')
                    else:
                        o, q = np.argsort(SX[:, 0]), np.argsort(LX[:, 0])
                        ctx.same(SX[o], LX[q], '{}: training points of the swap model', where)
                        ctx.same(np.asarray(Sy)[o], Ly[q], '{}: labels for the swap model', where)
                        ctx.event('trained_on_labels')
                    ctx.check(w.shape == (K, d), '{}: weights {}', where, w.shape)
                    if not same:
                        ctx.same(w, swap.weights, '{}: weights of the refined model after the swap', where)
                        ctx.same(b, swap.bias, '{}: bias of the refined model after the swap', where)
                    ctx.event('swaps')
                else:
                    ctx.check(same or len(swap.trainings) == trainings, '{}: swap model trained again', where)
                    # simulation of one refinement, from the former weights on user labels only
                    opt = copy.deepcopy(ref_opt)
                    if adapter is not None:
                        opt._max_iter = adapter(it - swap_iter - 1)
                    sim = LinearFactorizationLearner(opt, copy.deepcopy(ref_pen), add_bias=add_bias)
                    DX, Dy = data.training_set()
                    o, q = np.argsort(DX[:, 0]), np.argsort(LX[:, 0])
                    ctx.same(np.asarray(Dy)[o], Ly[q], '{}: labels', where)
                    sim.fit(DX.copy(), np.array(Dy), len(W), x0=W)
                    sw, sb = sim.weights, sim.bias
                    if do_prune:
                        keep = prune(ctx, X, sw, sb, threshold)
                        sw, sb = sw[keep], sb[keep]
                        ctx.event('pruned', int(not keep.all()))
                    ctx.close(w, sw, '{}: refined weights', where, rtol=1e-8, atol=1e-11)
                    ctx.close(b, sb, '{}: refined bias', where, rtol=1e-8, atol=1e-11)
                    model = learner.linear_model
                    ctx.check(model.optimizer._max_iter == base_iter, '{}: {} iterations left in the optimizer, configured {}', where, model.optimizer._max_iter, base_iter)
                    ctx.event('refinements')
                    outcome.append(len(sw))
                W = learner.linear_model.weight_matrix
            # who answers
            teacher.asked.clear()
            got = learner.predict_proba(T), learner.predict(T), learner.rank(T)
            if it <= swap_iter:
                ctx.same(got[0], teacher.opinion(T), '{}: probabilities', where)
                ctx.same(got[1], (teacher.opinion(T) > 0.4).astype(float), '{}: predictions', where)
                ctx.same(got[2], np.mod(teacher.opinion(T) * 97, 1.), '{}: scores', where)
            else:
                p = np.exp(log_probas(margins_of(T, w, b)))
                ctx.close(got[0], p, '{}: probabilities', where)
                ctx.close(got[2], np.abs(p - 0.5), '{}: scores', where, atol=1e-9)
                ok = np.abs(p - 0.5) > 1e-9
                ctx.same(got[1][ok], (p > 0.5).astype(float)[ok], '{}: predictions', where)
                ctx.check(not teacher.asked, '{}: the first learner was asked for {}', where, teacher.asked)
            ctx.check(learner.is_active_learning_phase == (it <= swap_iter) and learner.is_factorization_phase == (it > swap_iter) and learner.is_swap_iter == (it == swap_iter + 1), '{}: phase', where)
            # the query is the best unlabeled point of the model in charge
            if data.unlabeled_size:
                chosen = learner.next_points_to_label(data)
                scores = learner.rank(data.unlabeled.data)
                ctx.close(learner.rank(chosen.data).min(), scores.min(), '{}: score of the query', where, atol=1e-9)
                ctx.event('queries')
    ctx.event('schedules')
    ctx.case(where0, outcome)


def random_relevance(rng, d, K):
    R = rng.rand(K, d) < rng.choice([0.2, 0.5, 0.8])
    if K > 1 and rng.rand() < 0.4:
        R[rng.randint(K)] = R[rng.randint(K)]
    if K > 1 and rng.rand() < 0.4:
        R[rng.randint(K)] &= R[rng.randint(K)]
    return R


def maximal(subspaces):
    sets = set(frozenset(s) for s in subspaces)
    return sorted(sorted(s) for s in sets if not any(s < r for r in sets))


@workload(quick=1500, thorough=30000)
def structures(ctx, rng):
    """ maximal distinct subspaces; attributes of above-average importance """
    d, K = rng.randint(2, 7), rng.randint(1, 9)
    R = random_relevance(rng, d, K)
    R0 = R.copy()
    got = compute_factorization(R)
    want = maximal(np.where(r)[0].tolist() for r in R)
    ctx.check([[int(v) for v in s] for s in got] == want, 'factorization {} of subspaces {}, expected {}', got, [np.where(r)[0].tolist() for r in R], want)
    ctx.same(R, R0, 'relevance given')
    ctx.event('factorizations')
    ctx.event('nested', int(len(want) < len(set(map(tuple, R.tolist())))))
    # importance
    W = rng.normal(size=(K, d)) * 10. ** rng.uniform(-3, 3, size=(K, 1))
    if rng.rand() < 0.4:
        W[rng.rand(K, d) < 0.4] = 0
        W[:, 0] += 1e-3
    groups = None
    if rng.rand() < 0.5 and d > 2:
        groups = gen.random_partition(rng, d)
        while len(groups) < 2:
            groups = gen.random_partition(rng, d)
    class_ = SparseGroupLassoPenalty
    pen = class_(1e-3, 1e-3, groups) if groups is not None or rng.rand() < 0.5 else None
    add_bias = bool(rng.rand() < 0.7)
    model = LinearFactorizationLearner(Scripted([0.]), pen, add_bias=add_bias)
    M = np.hstack([W, rng.normal(size=(K, 1)) * 1e3]) if add_bias else W
    model.fit(rng.normal(size=(3, d)) * 1e-3, np.array([0., 1, 1]), K, x0=M)
    ctx.same(model.weights, W, 'weights')
    if model.feature_groups is not None and sorted(map(sorted, model.feature_groups)) != sorted(map(sorted, groups)):
        ctx.fail('groups {} of a model made with {}', model.feature_groups, groups)
    got = compute_relevant_attributes(model)
    ctx.check(np.shape(got) == (K, d), 'relevance of shape {} for {} weights', np.shape(got), W.shape)
    for k in range(K):
        total = np.abs(W[k]).sum()
        parts = [[j] for j in range(d)] if groups is None else groups
        for g in parts:
            share = np.abs(W[k, g]).sum() / total
            if abs(share - 1 / len(parts)) < 1e-9:
                ctx.event('ties')
                continue
            ctx.check(all(bool(got[k, j]) == (share > 1 / len(parts)) for j in g), 'relevance {} of weights {} in groups {}', got[k].tolist(), W[k].tolist(), groups)
            ctx.event('relevant', int(share > 1 / len(parts)))
    ctx.same(model.weights, W, 'weights after looking for relevant attributes')
    ctx.event('grouped', int(groups is not None))
    ctx.case(want, groups, K)


class FactModel:
    """ stability and compatibility of factorizations """
    def __init__(self, user, count):
        self.user, self.count, self.history = user, count, []

    def matching(self, fact):
        """ positions of the subspaces of the user's in fact, or None """
        if self.user is None or len(self.user) != len(fact) or any(len(s) == 0 for s in fact):
            return None
        fits = [[set(s) <= set(u) for u in self.user] for s in fact]
        if any(sum(row) != 1 for row in fits) or any(sum(col) != 1 for col in zip(*fits)):
            return None
        return [[row[j] for row in fits].index(True) for j in range(len(self.user))]

    def stable(self):
        h = self.history
        return len(h) > self.count and all(f == h[-1] for f in h[-self.count - 1:])


def variants(rng, d):
    """ the user's subspaces, and factorizations related to them """
    user = gen.random_partition(rng, d, max_groups=4)
    if rng.rand() < 0.3:
        user = [sorted(set(g) | {int(rng.randint(d))}) for g in user]
    out = [[sorted(g) for g in user]]
    for _ in range(rng.randint(1, 4)):
        f = [sorted(gen.random_subset(rng, g, rng.randint(1, len(g) + 1))) for g in user]
        kind = rng.randint(6)
        if kind == 0:
            f = f[:-1] or f
        elif kind == 1:
            f.append([int(rng.randint(d))])
        elif kind == 2:
            f[rng.randint(len(f))] = sorted(set(f[0]) | set(f[-1]))
        elif kind == 3 and len(f) == 1:
            f = [[]]
        out.append(f)
    return user, [sorted(f) for f in out]


@workload(quick=1500, thorough=30000)
def stability(ctx, rng):
    """ when to switch, and in which order """
    d = rng.randint(2, 8)
    user, options = variants(rng, d)
    given = None if rng.rand() < 0.1 else [rng.permutation(g).tolist() for g in user]
    count = int(rng.randint(1, 4)) if rng.rand() < 0.6 else int(rng.randint(4, 15))
    late = rng.rand() < 0.3
    manager = FactorizationManager(user_fact=None if late else copy.deepcopy(given), compute_every=int(rng.randint(1, 5)), stable_count=count)
    model = FactModel(None if late else given, count)
    switches = 0
    keep = copy.deepcopy(given)
    for step in range(rng.randint(5, 30) + 2 * count):
        if late and rng.rand() < 0.3:
            manager.set_user_fact(given)
            model.user, late = given, False
        if rng.rand() < 0.05:
            manager.clear()
            model.history = []
            ctx.event('manager_resets')
        f = copy.deepcopy(options[rng.randint(len(options))] if rng.rand() < min(0.4, 1.2 / count) or not model.history else model.history[-1])
        manager.update(f)
        model.history.append(copy.deepcopy(f))
        got = manager.can_switch_to_full_factorization(f)
        match = model.matching(f)
        want = model.stable() and match is not None
        ctx.check(bool(got) == want, 'after {} and the user factorization {}: switch {} (repeats needed: {})', model.history, model.user, got, count)
        if want:
            idx = manager.fact_reindexing
            ctx.check(list(idx) == match, 'order {} of {} for the user factorization {}, expected {}', idx, f, model.user, match)
            switches += 1
            ctx.event('reordered', int(match != sorted(match)))
        ctx.event('compatible', int(match is not None))
        ctx.event('stable', int(model.stable()))
        ctx.event('long_stability', int(model.stable() and count > 3))
    ctx.check(given == keep, 'user factorization changed to {}', given)
    ctx.event('switches', switches)
    ctx.case(options, given, switches, count)


def reconstruct(ctx, data, model, step, max_iter, l1, l2):
    """ factorization and partial labels from the refined model; Skip when a decision hangs on rounding """
    X, y = data.training_set()
    add_bias = model.add_bias
    a = LinearFactorizationLearner(FISTA(step_size=step, max_iter=max_iter), SparseGroupLassoPenalty(l1, l2), add_bias=add_bias)
    a.fit(X.copy(), np.array(y), model.num_subspaces, x0=model.weight_matrix)
    w, b = a.weights, a.bias
    keep = prune(ctx, data.data, w, b, 0.99)
    w, b = w[keep], b[keep]
    total = np.abs(w).sum(axis=1, keepdims=True)
    with np.errstate(invalid='ignore', divide='ignore'):
        share = np.abs(w) / total
    if np.any(np.abs(share - 1 / w.shape[1]) < 1e-9):
        raise Skip()
    relevant = share > 1 / w.shape[1]
    subspaces = [np.where(r)[0].tolist() for r in relevant]
    fact = maximal(subspaces)
    if not all(subspaces):
        return fact, None
    M = np.hstack([w, b.reshape(-1, 1)]) if add_bias else w
    c = LinearFactorizationLearner(Adam(step_size=0.1, max_iter=max_iter), add_bias=add_bias)
    c.fit(X.copy(), np.array(y), subspaces, x0=M)
    lp = np.log(np.maximum(sigmoid(margins_of(X, c.weights, c.bias)), 1e-300))
    P = np.zeros((len(X), len(fact)))
    for j, s in enumerate(subspaces):
        hosts = [i for i, f in enumerate(fact) if set(s) <= set(f)]
        for i in hosts:
            P[:, i] += lp[:, j] / len(hosts)
    ctx.event('shared_subspaces', int(len(subspaces) > len(fact)))
    return fact, P


@workload(quick=120, thorough=2000)
def extraction(ctx, rng):
    """ factorization and partial labels of a trained model """
    n, d, K = rng.randint(15, 60), rng.randint(2, 6), rng.randint(1, 6)
    if rng.rand() < 0.3:
        d, K = rng.randint(6, 12), rng.randint(6, 12)
    X, y = labelled_run(rng, n, d)
    data = PartitionedDataset(X, index=gen.index_values(rng, n))
    ls = rng.permutation(n)[:rng.randint(8, n)]
    data.move_to_labeled(LabeledSet(y[ls], index=data_index(data, X, ls)))
    add_bias = bool(rng.rand() < 0.7)
    model = LinearFactorizationLearner(Adam(step_size=0.1, max_iter=int(rng.randint(5, 200))), add_bias=add_bias)
    model.fit(X, y, K)
    W = model.weight_matrix
    l = float(10. ** rng.uniform(-4, -0.5))
    step = float(rng.choice([0.1, 0.5]))
    max_iter = int(rng.randint(10, 150))
    want, P = reconstruct(ctx, data, model, step, max_iter, l, l)
    index = data.index.copy()
    got, y_partial = compute_factorization_and_partial_labels(data, model, fista_step_size=step, max_iter=max_iter, l1_penalty=l, l2_sqrt_penalty=l)
    where = '{} points, {} subspaces, bias {}, penalty {}, {} iterations'.format(X.shape, K, add_bias, l, max_iter)
    ctx.check([[int(v) for v in s] for s in got] == want, '{}: factorization {}, expected {}', where, got, want)
    ctx.check(np.shape(y_partial) == (len(ls), len(want)), '{}: partial labels of shape {} for {} points and {}', where, np.shape(y_partial), len(ls), want)
    ctx.check(set(np.unique(y_partial)) <= {0., 1.}, '{}: partial labels {}', where, np.unique(y_partial))
    if P is not None:
        ok = np.abs(P - np.log(0.5)) > 1e-6
        ctx.same(y_partial[ok], (P > np.log(0.5)).astype(float)[ok], '{}: partial labels of {}', where, want)
        ctx.event('partial_labels', int(ok.sum()))
        ctx.event('positive_partial_labels', int(y_partial.sum()))
    ctx.same(model.weight_matrix, W, '{}: weights of the model given', where)
    ctx.same(data.index, index, '{}: order of the data', where)
    ctx.event('extractions')
    ctx.event('several', int(len(want) > 1))
    ctx.case(where, want)


def data_index(data, X, rows):
    where = {x.tobytes(): i for i, x in zip(data.index, data.data)}
    return np.array([where[X[r].tobytes()] for r in rows])


@workload(quick=250, thorough=4000)
def full_factorization(ctx, rng):
    """ runs until per-subspace learning """
    n, d, K = rng.randint(30, 60), rng.randint(2, 5), rng.randint(1, 6)
    X, y = labelled_run(rng, n, d)
    partition = gen.random_partition(rng, d, max_groups=2)
    y = np.min([np.abs(X[:, g]).max(axis=1) < np.quantile(np.abs(X[:, g]).max(axis=1), 0.75) for g in partition], axis=0).astype(float)
    if rng.rand() < 0.7:
        y = np.min([X[:, g].sum(axis=1) > np.quantile(X[:, g].sum(axis=1), 0.3) for g in partition], axis=0).astype(float)
    y[:2] = [0, 1]
    every, repeat = int(rng.randint(1, 4)), int(rng.randint(1, 3))
    step, max_iter, l1, l2 = float(rng.choice([0.1, 0.5])), int(rng.randint(10, 60)), float(10. ** rng.uniform(-4, -1)), float(10. ** rng.uniform(-4, -1))
    swap_iter = int(rng.randint(1, 3))
    add_bias = bool(rng.rand() < 0.8)
    teacher, specialist = Teacher(), Specialist()
    swap = LinearFactorizationLearner(Adam(step_size=0.1, max_iter=60), add_bias=add_bias)
    refining = LinearFactorizationLearner(Adam(step_size=0.05, max_iter=int(rng.randint(2, 30))), make_penalty(rng, False), add_bias=add_bias)

    def start(user):
        data = PartitionedDataset(X)
        learner = SwapLearner(teacher, swap, refining, num_subspaces=K, swap_iter=swap_iter, train_on_prediction=False, prune=bool(rng.rand() < 0.5),
                              fact_model=specialist, user_fact=user if rng.rand() < 0.5 else None, compute_fact_every=every, fact_repeat=repeat,
                              fact_max_iter=max_iter, fact_step_size=step, fact_l1_penalty=l1, fact_l2_sqrt_penalty=l2)
        learner.set_user_factorization(user)
        return data, learner

    # a user who agrees with what the learner finds: known from an unguided run
    found = []
    state = np.random.get_state()
    user = None
    for attempt in range(3):
        np.random.set_state(state)
        if attempt < 2:
            data, learner = start(user)
            learner.clear()
        else:
            data.clear()
            cleared = specialist.cleared
            learner.clear()
            ctx.check(specialist.cleared > cleared and specialist.fits == 0, 'per-subspace learner not reset')
            ctx.event('resets_after_switch', int(switched is not None))
        specialist.structures.clear()
        specialist.sets.clear()
        model = FactModel(user, repeat)
        switched, parts = None, {}
        order = np.r_[0, 1, 2 + rng.permutation(n - 2)]
        pos = 0
        for it in range(1, swap_iter + 2 + every * (repeat + 4)):
            m = 8 if pos == 0 else 1
            batch = order[pos:pos + m]
            pos += m
            P = None
            if user is not None:
                P = np.tile(y[batch].reshape(-1, 1), (1, len(user)))
                neg = np.where(y[batch] == 0)[0]
                P[neg] = rng.rand(len(neg), len(user)) < 0.5
                P[neg, rng.randint(len(user))] = 0
            data.move_to_labeled(LabeledSet(y[batch], P, index=batch))
            for i, r in zip(batch, P if P is not None else []):
                parts[int(i)] = r
            if pos >= n - 2:
                break
            where = 'iteration {} of a run with swap after {}, factorization every {}, repeated {}, user factorization {}'.format(it, swap_iter, every, repeat, user)
            before = specialist.fits
            if user is not None and rng.rand() < 0.1:  # told again
                learner.set_user_factorization([list(s) for s in user])
                ctx.event('told_again')
            metric_logger.flush()
            former = data.labeled_set.partial.copy()
            learner.fit_data(data)
            logged = metric_logger.get_metrics().get('factorization')
            T = X[:5]
            if switched is not None:
                ctx.check(specialist.fits == before + 1 and len(specialist.structures) == 1, '{}: per-subspace learner trained {} times', where, specialist.fits - before)
                SX, SP = specialist.sets[-1]
                labeled = order[:pos]
                ctx.same(SX, X[labeled], '{}: training points', where)
                ctx.same(SP[len(switched):], P_all(user, parts, len(switched), labeled), '{}: partial labels given by the user', where)
                ctx.same(SP[:len(switched)], switched, '{}: partial labels extracted', where)
                ctx.event('specialist_trainings')
            else:
                now = it > swap_iter and (it - swap_iter - 1) % every == 0
                if not now:
                    ctx.check(specialist.fits == before and logged is None, '{}: factorization {} out of turn', where, logged)
                else:
                    try:
                        fact, LP = reconstruct(ctx, data, learner.linear_model, step, max_iter, l1, l2)
                    except Skip:
                        return
                    model.history.append(fact)
                    match = model.matching(fact)
                    go = model.stable() and match is not None
                    ctx.check(specialist.fits == before + int(go), '{}: {} after {}', where, 'no switch' if go else 'switch', model.history)
                    ctx.check(logged is not None and [[int(v) for v in s] for s in logged] == ([fact[i] for i in match] if go else fact), '{}: factorization {} logged, {} extracted, order {}', where, logged, fact, match)
                    ctx.event('fact_updates')
                    found.append(fact)
                    if go:
                        info = specialist.structures[-1]
                        ctx.check([[int(v) for v in s] for s in info.get('partition')] == [fact[i] for i in match], '{}: per-subspace learner set to {}, extracted {} for {}', where, info, fact, user)
                        SX, SP = specialist.sets[-1]
                        ctx.same(SX, X[order[:pos]], '{}: training points', where)
                        if LP is not None:
                            LP = LP[:, match]
                            ok = np.abs(LP - np.log(0.5)) > 1e-6
                            ctx.same(SP[ok], (LP > np.log(0.5)).astype(float)[ok], '{}: partial labels extracted', where)
                        ctx.same(data.labeled_set.partial, SP, '{}: partial labels of the data', where)
                        ctx.same(data.labeled_set.labels, y[order[:pos]], '{}: labels of the data', where)
                        switched = SP.copy()
                        ctx.event('full_switches')
                        ctx.event('reordered_switches', int(match != sorted(match)))
                    else:
                        ctx.same(data.labeled_set.partial, former, '{}: partial labels of the data', where)
            # who answers
            asked = len(teacher.asked)
            if it <= swap_iter:
                continue
            if switched is not None:
                ctx.same(learner.predict_proba(T), specialist.opinion(T), '{}: probabilities', where)
                ctx.same(learner.predict(T), specialist.predict(T), '{}: predictions', where)
                ctx.same(learner.rank(T), specialist.rank(T), '{}: scores', where)
            else:
                lm = learner.linear_model
                p = np.exp(log_probas(margins_of(T, lm.weights, lm.bias)))
                ctx.close(learner.predict_proba(T), p, '{}: probabilities', where)
                ctx.close(learner.rank(T), np.abs(p - 0.5), '{}: scores', where, atol=1e-9)
            ctx.check(len(teacher.asked) == asked, '{}: first learner asked', where)
        if attempt == 0:
            ctx.check(switched is None, 'switched without a user factorization')
            last = next((f for f, g in zip(found[::-1], found[-2::-1]) if f == g), found[-1] if found else None)
            if not last or not all(last):
                return
            # the user's subspaces may hold more attributes, and come in any order
            free = [v for v in range(d) if not any(v in s for s in last)]
            user = [list(s) for s in last]
            for v in free:
                user[rng.randint(len(user))].append(v)
            if any(sum(set(s) <= set(u) for u in user) != 1 for s in last):
                return
            user = [rng.permutation(user[i]).tolist() for i in rng.permutation(len(user))]
    ctx.case(n, d, K, user, every, repeat, len(found))


def P_all(user, parts, start, labeled):
    return np.array([parts[int(i)] for i in labeled[start:]]).reshape(-1, len(user))


@workload(quick=120, thorough=2000)
def presets(ctx, rng):
    """ iteration schedules of the simplified learner, and the penalty schedule of the single model learner """
    n, d = rng.randint(12, 30), rng.randint(2, 5)
    X, y = labelled_run(rng, n, d)
    data = PartitionedDataset(X)
    data.move_to_labeled(LabeledSet(y[:6], index=np.arange(6)))
    if rng.rand() < 0.5:
        lo, hi, every, inc = int(rng.randint(1, 8)), int(rng.randint(8, 40)), int(rng.randint(1, 4)), int(rng.randint(1, 8))
        exp = bool(rng.rand() < 0.5)
        adapt = rng.rand() < 0.8
        fista = bool(rng.rand() < 0.4)
        swap_iter = int(rng.randint(1, 3))
        learner = SimplifiedSwapLearner(swap_iter=swap_iter, train_sample_size=20, num_subspaces=2, use_vs=False, adapt_max_iter=adapt, refine_min_iter=lo, refine_max_iter=hi,
                                        refine_every=every, refine_increment=inc, refine_exp=exp, use_fista=fista, prune=False, l1_penalty=1e-3, l2_sqrt_penalty=1e-3, use_exp_decay=bool(rng.rand() < 0.5), refine_step_size=0.1)
        where = 'simplified swap learner with {} to {} iterations every {} by {} (exponential: {}, adapted: {}, FISTA: {})'.format(lo, hi, every, inc, exp, adapt, fista)
        W = None
        for it in range(1, swap_iter + 9):
            learner.fit_data(data)
            if it > swap_iter + 1:
                r = it - swap_iter - 1
                if not adapt:
                    m = hi
                elif exp:
                    m = min(hi, lo * 2 ** (r // every))
                else:
                    m = min(hi, lo + inc * (r // every))
                options = {'step_size': 0.1, 'max_iter': m, 'gtol': 0, 'rel_tol': 0}
                sim = LinearFactorizationLearner(FISTA(**options) if fista else Adam(**options), SparseGroupLassoPenalty(1e-3, 1e-3))
                DX, Dy = data.training_set()
                sim.fit(DX, Dy, len(W), x0=W)
                ctx.close(learner.linear_model.weight_matrix, sim.weight_matrix, '{}: weights of refinement {}', where, r, rtol=1e-8, atol=1e-11)
                ctx.event('adapted', int(adapt))
                ctx.event('preset_refinements')
            W = None if learner.linear_model is None else learner.linear_model.weight_matrix
            if data.unlabeled_size:
                q = learner.next_points_to_label(data)
                data.move_to_labeled(LabeledSet(y[q.index], index=q.index))
        ctx.case(where)
        return
    penalty = float(10. ** rng.uniform(-4, -1)) if rng.rand() < 0.85 else 0.
    ramp = int(rng.randint(0, 6))
    log = bool(rng.rand() < 0.5)
    groups = gen.random_partition(rng, d) if rng.rand() < 0.4 else None
    K = int(rng.randint(1, 5))
    max_iter = int(rng.randint(3, 30))
    do_prune = bool(rng.rand() < 0.4)
    step = float(rng.choice([0.05, 0.1]))
    learner = FLMUncertaintySampler(step_size=step, max_iter=max_iter, penalty=penalty, num_subspaces=K, prune=do_prune, one_hot_groups=groups, penalty_iter=ramp, log=log)
    where = 'penalty {} over {} iterations (logarithmic: {}), groups {}, prune {}'.format(penalty, ramp, log, groups, do_prune)
    for run in range(rng.randint(1, 3)):
        if run:
            learner.clear()
            ctx.check(learner.clf.weights is None, '{}: weights after a reset', where)
            data.clear()
            data.move_to_labeled(LabeledSet(y[:6], index=np.arange(6)))
        W = None
        for it in range(1, 8):
            learner.fit_data(data)
            DX, Dy = data.training_set()
            now = penalty
            if it <= ramp:
                now = penalty * (np.log(1 + (np.e - 1) * it / ramp) if log else it / ramp)
            if W is None:
                ctx.check(do_prune or learner.clf.weights.shape == (K, d), '{}: weights {} for {} subspaces', where, learner.clf.weights.shape, K)
            else:
                sim = LinearFactorizationLearner(Adam(step_size=step, max_iter=max_iter, gtol=0), SparseGroupLassoPenalty(now, now, groups) if penalty else None)
                sim.fit(DX, Dy, len(W), x0=W)
                w, b = sim.weights, sim.bias
                if do_prune:
                    keep = prune(ctx, X, w, b, 0.99)
                    w, b = w[keep], b[keep]
                ctx.close(learner.clf.weights, w, '{}: weights of training {}', where, it, rtol=1e-8, atol=1e-11)
                ctx.close(learner.clf.bias, b, '{}: bias of training {}', where, it, rtol=1e-8, atol=1e-11)
                ctx.event('flm_trainings')
                ctx.event('ramped', int(it <= ramp))
            W = learner.clf.weight_matrix
            T = rng.normal(size=(5, d))
            p = np.exp(log_probas(margins_of(T, learner.clf.weights, learner.clf.bias)))
            ctx.close(learner.predict_proba(T), p, '{}: probabilities', where)
            ctx.close(learner.rank(T), np.abs(p - 0.5), '{}: scores', where, atol=1e-9)
            if data.unlabeled_size:
                q = learner.next_points_to_label(data)
                data.move_to_labeled(LabeledSet(y[q.index], index=q.index))
    ctx.case(where, K)


@workload(quick=40, thorough=300)
def rejections(ctx, rng):
    """ configurations without meaning """
    def make(**kw):
        return SwapLearner(Teacher(), LinearFactorizationLearner(Adam()), **kw)
    bad = [dict(swap_iter=0), dict(swap_iter=-1), dict(swap_iter=1.5), dict(num_subspaces=0), dict(num_subspaces=2.5), dict(retries=0), dict(train_sample_size=0), dict(train_sample_size=-3),
           dict(prune_threshold=-0.1), dict(prune_threshold=1.1), dict(fact_model=Specialist(), compute_fact_every=0), dict(fact_model=Specialist(), fact_repeat=0), dict(fact_model=Specialist(), fact_max_iter=0),
           dict(fact_model=Specialist(), fact_step_size=0), dict(fact_model=Specialist(), fact_l1_penalty=-1), dict(fact_model=Specialist(), fact_l2_sqrt_penalty=0.)]
    kw = bad[ctx.index % len(bad)]
    ctx.raises((ValueError, TypeError), lambda: make(**kw), 'swap learner with {}', kw)
    ctx.raises((ValueError, TypeError), lambda: FLMUncertaintySampler(penalty=-float(rng.rand()) - 1e-9), 'negative penalty')
    make(swap_iter=int(rng.randint(1, 100)), train_sample_size=None, prune_threshold=float(rng.rand()))
    ctx.case(sorted(kw))
