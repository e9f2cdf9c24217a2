"""
C29: partition search with recording learners (any loss over partitions) against an enumeration of all set partitions; merges, predictions and training
of factorized logistic models against their definition.
"""
import warnings

import numpy as np
from scipy.optimize import OptimizeResult
from aideme.active_learning.factorization.partitioning import BruteForceSelector, FactorizedLinearLearner, GreedySelector
from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier
from harness.core import workload
from harness import gen
from checks.c23 import layouts, log_probas, nll, sigmoid, slopes

RULE = 'A case is one search, merge or training; non-trivial when several partitions or groups are possible; signature: sizes, limits, partition.'
REQUIRED = {'cold_merges': 110, 'cold_starts': 2300, 'exhaustive': 250, 'expected_errors': 96, 'forced_merges': 27, 'gradients': 1200, 'greedy': 510, 'impossible_limits': 42, 'merges': 290, 'neighbours': 1400, 'points': 10000, 'recoveries': 7, 'second_merges': 110, 'ties': 45, 'trained_BFGS': 66, 'trained_CG': 68, 'visited': 17000, 'warm_starts': 3800}
ASSUMPTIONS = ['losses are finite numbers', 'partial probabilities are asked for the columns of the group']


def key(partition):
    return tuple(sorted(tuple(sorted(int(v) for v in g)) for g in partition))


def all_partitions(n):
    if n == 0:
        yield []
        return
    for p in all_partitions(n - 1):
        for i in range(len(p)):
            yield p[:i] + [p[i] + [n - 1]] + p[i + 1:]
        yield p + [[n - 1]]


def admissible(p, max_partitions, max_dim):
    return len(p) <= max_partitions and max(map(len, p)) <= max_dim


def check_partition(ctx, where, p, n):
    ctx.check(p is not None and all(len(g) > 0 for g in p) and sorted(int(v) for g in p for v in g) == list(range(n)), '{}: {} is no partition of {} attributes', where, p, n)


def margins(X, partition, weights):
    out, begin = [], 0
    for g in partition:
        w = weights[begin:begin + len(g) + 1]
        out.append(w[0] + X[:, g] @ w[1:])
        begin += len(g) + 1
    return np.stack(out, axis=1)


def random_model(rng, d, scale=None):
    partition = [rng.permutation(g).tolist() for g in gen.random_partition(rng, d)]
    w = rng.normal(size=d + len(partition)) * (10. ** rng.uniform(-1, 1) if scale is None else scale)
    return partition, w


@workload(quick=2000, thorough=40000)
def merges(ctx, rng):
    """ predictions of a model are products over its groups; merges add margins """
    d = rng.randint(1, 9)
    partition, w = random_model(rng, d)
    X, layout = layouts(rng, rng.normal(size=(rng.randint(1, 12), d)) * 10. ** rng.uniform(-1, 1))
    m = margins(X, partition, w)
    if rng.rand() < 0.1:  # exactly one half
        w[:] = 0
        m = margins(X, partition, w)
    where = 'model over {} with weights {}'.format(partition, w.tolist())
    clf = FactorizedLinearClassifier([list(g) for g in partition], w.copy())

    def check_model(c, partition, m, w):
        lp = log_probas(m)
        X0 = X.copy()
        ctx.close(c.predict_proba(X), np.exp(lp), '{}: probabilities', where, rtol=1e-8, atol=1e-300)
        parts = [c.partial_proba(X[:, g], i) for i, g in enumerate(c.partition)]
        for i in range(len(partition)):
            ctx.close(parts[i], sigmoid(m[:, i]), '{}: partial probabilities of {}', where, partition[i], rtol=1e-8, atol=1e-300)
        ctx.close(np.prod(parts, axis=0), c.predict_proba(X), '{}: product of the partial probabilities', where, rtol=1e-8, atol=1e-300)
        ok = np.abs(lp - np.log(0.5)) > 1e-9
        if len(m[0]) == 1 and not np.any(m):
            ok[:] = True
            ctx.event('one_half', len(X))
        ctx.same(c.predict(X)[ok], (lp > np.log(0.5)).astype(int)[ok] if not ok.all() or np.any(m) or len(m[0]) > 1 else np.zeros(len(X)), '{}: predictions', where)
        ctx.same(X, X0, '{}: data', where)
        ctx.check(c.dim == d + len(partition) == len(c.weights), '{}: dimension {}', where, c.dim)
        ctx.event('points', len(X))

    check_model(clf, partition, m, w)
    i, j = rng.randint(len(partition), size=2)
    weights_too = bool(rng.rand() < 0.7)
    merged = clf.merge_partitions(int(i), int(j), weights_too) if not weights_too or rng.rand() < 0.5 else clf.merge_partitions(int(i), int(j))
    ctx.same(clf.weights, w, '{}: weights after a merge', where)
    ctx.check(clf.partition == partition, '{}: partition {} after a merge', where, clf.partition)
    where += ', groups {} and {} merged'.format(i, j)
    if i == j:
        ctx.check(key(merged.partition) == key(partition), '{}: {}', where, merged.partition)
        check_model(merged, merged.partition, margins(X, partition, w), w)
        return
    rest = [g for k, g in enumerate(partition) if k not in (i, j)]
    ctx.check(key(merged.partition) == key(rest + [partition[i] + partition[j]]), '{}: {}', where, merged.partition)
    if not weights_too:
        ctx.same(merged.weights, np.zeros(d + len(partition) - 1), '{}: weights of a merge without weights', where)
        ctx.event('cold_merges')
        return
    expected = []
    for g in merged.partition:
        old = [k for k, h in enumerate(partition) if set(h) <= set(g)]
        expected.append(m[:, old].sum(axis=1))
        if len(old) == 1:
            ctx.check(list(g) == partition[old[0]], '{}: group {} became {}', where, partition[old[0]], g)
    new = margins(X, merged.partition, merged.weights)
    ctx.close(new, np.stack(expected, axis=1), '{}: margins', where, rtol=1e-8, atol=1e-8 * (1 + np.abs(m).max()))
    check_model(merged, merged.partition, new, merged.weights)
    ctx.event('merges')
    if len(merged.partition) > 1 and rng.rand() < 0.5:  # merges of merges
        a, b = rng.choice(len(merged.partition), 2, replace=False)
        again = merged.merge_partitions(int(a), int(b))
        total = margins(X, again.partition, again.weights).sum(axis=1)
        ctx.close(total, m.sum(axis=1), '{}: sum of the margins after two merges', where, rtol=1e-8, atol=1e-8 * (1 + np.abs(m).max()))
        ctx.event('second_merges')
    ctx.case(key(partition), int(i), int(j), float(w[0]))


class Grader:
    """ stands for a learner: every partition has a fixed random loss """
    def __init__(self, rng, d, smooth=False):
        self.salt = rng.randint(2 ** 31)
        self.ties = rng.rand() < 0.2
        self.close = rng.rand() < 0.3
        self.smooth = smooth
        self.slope = (0.5 if rng.rand() < 0.5 else -0.5) if smooth else 0.
        self.seen, self.models = [], []

    def loss(self, partition):
        k = key(partition)
        r = np.random.RandomState((hash(k) ^ self.salt) & 0x7fffffff)
        value = r.rand() * (1 if not self.smooth else 0.1) + self.slope * len(k)
        value = float(np.round(value * 4) / 4) if self.ties else float(value)
        return 1 + value * 1e-9 if self.close else value

    def compute_factorization_loss(self, X, y, partition, x0=None):
        return self.fit_and_loss(X, y, partition, x0)[1]

    def fit(self, X, y, partition, x0=None):
        return self.fit_and_loss(X, y, partition, x0)[0]

    def fit_and_loss(self, X, y, partition, x0=None):
        self.X, self.y = X, y
        self.seen.append([list(g) for g in partition])
        r = np.random.RandomState((hash(key(partition)) ^ self.salt ^ 0x5555) & 0x7fffffff)
        w = r.normal(size=X.shape[1] + len(partition))
        clf = FactorizedLinearClassifier([list(g) for g in partition], w)
        self.models.append(([list(g) for g in partition], None if x0 is None else np.array(x0), w.copy()))
        return clf, self.loss(partition)


def limits(rng, d):
    max_partitions = None if rng.rand() < 0.3 else int(rng.randint(1, d + 3))
    max_dim = None if rng.rand() < 0.3 else int(rng.randint(1, d + 3))
    K, D = d if max_partitions is None else min(d, max_partitions), d if max_dim is None else min(d, max_dim)
    return max_partitions, max_dim, K, D


@workload(quick=600, thorough=8000)
def exhaustive(ctx, rng):
    """ exhaustive search visits all admissible partitions and returns the best one """
    d = rng.randint(1, 8 if ctx.thorough else 7)
    max_partitions, max_dim, K, D = limits(rng, d)
    X, y = rng.normal(size=(4, d)), gen.binary_labels(rng, 4)
    selector = BruteForceSelector(max_partitions, max_dim)
    learner = Grader(rng, d, smooth=rng.rand() < 0.3)
    where = 'exhaustive search over {} attributes, at most {} groups of at most {}'.format(d, max_partitions, max_dim)
    if K * D < d:
        ctx.raises(ValueError, lambda: selector(X, y, learner), where)
        ctx.event('impossible_limits')
        return
    for repeat in range(2):
        got = selector(X, y, learner)
        check_partition(ctx, where, got, d)
        ctx.check(admissible(got, K, D), '{}: {}', where, got)
        every = {key(p) for p in all_partitions(d) if admissible(p, K, D)}
        best = min(learner.loss(p) for p in every)
        ctx.check(learner.loss(got) == best, '{}: {} of loss {}, the best is {}', where, got, learner.loss(got), best)
        seen = {key(p) for p in learner.seen}
        if len(every) > 1:
            ctx.check(every <= seen, '{}: visited {} of {} admissible partitions', where, len(every & seen), len(every))
            ctx.check(learner.X is X and learner.y is y or (np.array_equal(learner.X, X) and np.array_equal(learner.y, y)), '{}: evaluated on other data', where)
        for p in learner.seen:
            check_partition(ctx, where + ' visited', p, d)
        ctx.event('visited', len(seen))
    ctx.event('exhaustive')
    ctx.event('ties', int(learner.ties))
    if len(every) > 1:
        ctx.case(d, K, D, key(got))


@workload(quick=1200, thorough=20000)
def greedy(ctx, rng):
    """ greedy search stays within the limits and stops at a local optimum """
    d = rng.randint(1, 8)
    max_partitions, max_dim, K, D = limits(rng, d)
    X, y = rng.normal(size=(4, d)), gen.binary_labels(rng, 4)
    warm = bool(rng.rand() < 0.6)
    selector = GreedySelector(max_partitions, max_dim, warm)
    learner = Grader(rng, d, smooth=rng.rand() < 0.5)
    where = 'greedy search over {} attributes, at most {} groups of at most {}'.format(d, max_partitions, max_dim)
    if K * D < d:
        ctx.raises(ValueError, lambda: selector(X, y, learner), where)
        ctx.event('impossible_limits')
        return
    got = selector(X, y, learner)
    check_partition(ctx, where, got, d)
    ctx.check(admissible(got, K, D), '{}: {}', where, got)
    single = [[i] for i in range(d)]
    if K >= d:
        ctx.check(learner.loss(got) <= learner.loss(single), '{}: {} of loss {}, singletons have {}', where, got, learner.loss(got), learner.loss(single))
    for i in range(len(got)):
        for j in range(i):
            p = [g for k, g in enumerate(got) if k not in (i, j)] + [list(got[i]) + list(got[j])]
            if learner.seen and admissible(p, K, D):
                ctx.check(learner.loss(p) >= learner.loss(got), '{}: {} of loss {}, merged to {} it has {}', where, got, learner.loss(got), p, learner.loss(p))
                ctx.event('neighbours')
    # starting points of the trainings
    models = {key(p): (p, w) for p, _, w in learner.models}
    for p, x0, _ in learner.models:
        check_partition(ctx, where + ' visited', p, d)
        if key(p) == key(single):
            continue
        if not warm:
            ctx.check(x0 is None or not np.any(x0), '{}: started from {}', where, x0)
            ctx.event('cold_starts')
            continue
        T = rng.normal(size=(3, d))
        ctx.check(x0 is not None and len(x0) == d + len(p), '{}: started {} from {}', where, p, x0)
        total = margins(T, p, x0).sum(axis=1)
        parents = [w for q, (o, w) in models.items() if len(q) == len(p) + 1 and np.allclose(margins(T, o, w).sum(axis=1), total, rtol=1e-7, atol=1e-7)]
        ctx.check(len(parents) > 0, '{}: start of {} is no merge of a visited model', where, p)
        ctx.event('warm_starts')
    if max_partitions is not None and learner.seen and learner.loss(got) > learner.loss(single):
        ctx.event('forced_merges')
    ctx.event('greedy')
    if d > 1:
        ctx.case(d, K, D, key(got))


@workload(quick=300, thorough=5000)
def trainings(ctx, rng):
    """ loss and gradient given to the optimizer; trained models are stationary points """
    d = rng.randint(1, 6)
    n = rng.randint(1, 40)
    partition, w = random_model(rng, d, scale=float(rng.choice([1., 1., 6., 20.])))
    X, layout = layouts(rng, rng.normal(size=(n, d)))
    y = gen.binary_labels(rng, n).astype(float)
    calls, given = [], []
    gtol, maxiter = float(10. ** rng.uniform(-8, -2)), None if rng.rand() < 0.3 else int(rng.randint(1, 500))

    def optimizer(fun, x0, args=(), jac=None, **options):
        calls.append(np.array(x0))
        given.append((options.get('gtol'), options.get('maxiter')))
        for v in (np.array(x0), w, w + rng.normal(size=w.shape)):
            m = margins(X, partition, v)
            ctx.close(fun(v.copy()), nll(m, y).mean(), 'loss of {} on {} points', partition, n, rtol=1e-8, atol=1e-10)
            s = slopes(m, y)
            g = np.concatenate([np.r_[s[:, i].mean(), (s[:, i:i + 1] * X[:, part]).mean(axis=0)] for i, part in enumerate(partition)])
            ctx.close(jac(v.copy()), g, 'gradient of {} on {} points', partition, n, rtol=1e-7, atol=1e-9)
            ctx.event('gradients')
        return OptimizeResult(x=w.copy(), fun=float(fun(w.copy())), success=True)

    x0 = rng.normal(size=w.shape) if rng.rand() < 0.5 else None
    keep = None if x0 is None else x0.copy()
    X0 = X.copy()
    clf, loss = FactorizedLinearLearner(optimizer, gtol=gtol, maxiter=maxiter).fit_and_loss(X, y, partition, x0)
    ctx.check(given == [(gtol, maxiter)], 'tolerance and iteration limit {} given to the optimizer as {}', (gtol, maxiter), given)
    ctx.close(calls[0], np.zeros(w.shape) if x0 is None else keep, 'starting point')
    ctx.same(clf.weights, w, 'trained weights')
    ctx.check(clf.partition == partition, 'partition {} of a model of {}', clf.partition, partition)
    want = nll(margins(X, partition, w), y).mean()
    ctx.close(loss, want, 'loss of {} on {} points', partition, n, rtol=1e-8, atol=1e-10)
    if keep is not None:
        ctx.same(x0, keep, 'starting point after the training')
    ctx.same(X, X0, 'data after the training')
    ctx.same(FactorizedLinearLearner(optimizer).fit(X, y, partition, x0).weights, w, 'fitted weights')
    ctx.close(FactorizedLinearLearner(optimizer).compute_factorization_loss(X, y, partition, x0), want, 'loss alone', rtol=1e-8, atol=1e-10)
    # real optimizers
    y = (X @ rng.normal(size=d) + rng.normal(size=n) > 0).astype(float)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        method = ['BFGS', 'CG'][rng.randint(2)]
        clf, loss = FactorizedLinearLearner(method, gtol=1e-4, maxiter=int(rng.randint(5, 100))).fit_and_loss(X, y, partition)
    m = margins(X, clf.partition, clf.weights)
    if np.abs(m).max() < 500:
        ctx.close(loss, nll(m, y).mean(), 'loss of the {} model of {}', method, partition, rtol=1e-6, atol=1e-9)
    start = nll(np.zeros(m.shape), y).mean()
    ctx.check(loss <= start + 1e-9, '{} went from {} to {}', method, start, loss)
    ctx.event('trained_' + method)
    ctx.case(key(partition), n, layout)


@workload(quick=16, thorough=200)
def recovery(ctx, rng):
    """ both searches with real learners: losses are those of the partitions they return """
    d = rng.randint(2, 5)
    X = rng.normal(size=(rng.randint(40, 80), d))
    partition, w = random_model(rng, d, scale=3.)
    y = (margins(X, partition, w).min(axis=1) > -1).astype(float)
    y[:2] = [0, 1]
    y[rng.rand(len(y)) < 0.05] = 1
    max_partitions, max_dim, K, D = limits(rng, d)
    if K * D < d:
        max_partitions, max_dim, K, D = None, None, d, d
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        learner = FactorizedLinearLearner(maxiter=60)
        best = BruteForceSelector(max_partitions, max_dim)(X, y, learner)
        losses = {key(p): learner.compute_factorization_loss(X, y, p) for p in all_partitions(d) if admissible(p, K, D)}
        check_partition(ctx, 'exhaustive search', best, d)
        ctx.check(admissible(best, K, D), 'exhaustive search: {} with limits {}, {}', best, K, D)
        ctx.check(losses[key(best)] <= min(losses.values()) * (1 + 1e-3) + 1e-5, 'exhaustive search: {} of loss {}, all: {}', best, losses[key(best)], losses)
        got = GreedySelector(max_partitions, max_dim)(X, y, learner)
    check_partition(ctx, 'greedy search', got, d)
    ctx.check(admissible(got, K, D), 'greedy search: {} with limits {}, {}', got, K, D)
    ctx.event('recoveries')
    ctx.case(key(best), key(got), K, D)


@workload(quick=60, thorough=600)
def rejections(ctx, rng):
    """ meaningless limits, weights of the wrong size """
    cls = [BruteForceSelector, GreedySelector][rng.randint(2)]
    bad = [0, -1, 1.5, -2.5][rng.randint(4)]
    which = rng.randint(2)
    ctx.raises((ValueError, TypeError), lambda: cls(bad if which else 2, 2 if which else bad), '{} with limit {}', cls.__name__, bad)
    partition, w = random_model(rng, rng.randint(1, 6))
    wrong = np.r_[w, 0.] if rng.rand() < 0.5 else w[:-1]
    ctx.raises(ValueError, lambda: FactorizedLinearClassifier(partition, wrong), '{} weights for {}', len(wrong), partition)
    ctx.case(cls.__name__, bad, which, key(partition))
