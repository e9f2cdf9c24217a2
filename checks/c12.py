"""
C12: scores returned by rank() are compared, as orders, with the documented strategy recomputed independently (fresh SVMs, recording
classifiers, published hypothesis samples).
"""
import numpy as np
from sklearn.base import BaseEstimator
from sklearn.svm import SVC

from aideme.active_learning import EntropyReductionLearner, KernelVersionSpace, LinearVersionSpace, QueryByDisagreement, RatioMargin, SimpleMargin, UncertaintySampler
from aideme.explore import LabeledSet, PartitionedDataset
from harness.core import Skip, workload
from harness import gen

RULE = ('A case is one trained learner scoring a set of candidates; non-trivial when the recomputed scores take several values; signature: strategy, options and order of the candidates.')
QUICK = 6  # times the cases of the quick tier
REQUIRED = {'disagreeing_points': 2000, 'disagreement': 140, 'entropy': 68, 'entropy_compared_points': 750, 'not_cut': 25, 'ordered_pairs': 120000, 'ratio_margin': 36, 'simple_margin': 180, 'uncertainty': 180, 'vs_uncertainty': 27}
ASSUMPTIONS = ['scores closer than 1e-7 (relative) are not told apart']


def same_order(ctx, ranks, ref, what, tol=1e-7):
    """ a lower reference score must give a lower rank """
    ranks, ref = np.asarray(ranks, dtype=float), np.asarray(ref, dtype=float)
    ctx.check(ranks.shape == ref.shape and not np.isnan(ranks).any(), '{}: scores {}', what, ranks)
    with np.errstate(invalid='ignore'):
        scale = np.max(np.abs(ref[np.isfinite(ref)]), initial=1e-300)
        lower = ref[:, None] < ref[None, :] - tol * scale
        wrong = lower & ~(ranks[:, None] < ranks[None, :])
    ctx.event('ordered_pairs', int(lower.sum()))
    if wrong.any():
        i, j = np.argwhere(wrong)[0]
        ctx.fail('{}: recomputed scores {} < {}, but the learner ranks them {} and {}', what, ref[i], ref[j], ranks[i], ranks[j])
    ctx.event('oracle_evaluations')


def stable_scoring(ctx, learner, X, what):
    """ :return: the scores, checking that scoring changed neither predictions nor data """
    before = [np.array(learner.predict(X)), np.array(learner.predict_proba(X))]
    Z = X.copy()
    ranks = np.array(learner.rank(Z))
    ctx.same(Z, X, '{}: scoring modified the data', what)
    ctx.check(np.array_equal(before[0], learner.predict(X)) and np.array_equal(before[1], learner.predict_proba(X)), '{}: scoring changed the predictions', what)
    again = np.array(learner.rank(X))
    ctx.check(np.array_equal(ranks, again), '{}: scoring twice gives other scores', what)
    # each candidate is scored by itself
    perm = np.random.permutation(len(X))
    return ranks, perm


def training(rng, d=None, separable=False):
    d = d or int(rng.randint(1, 4))
    n = int(rng.randint(4, 25)) if rng.rand() < 0.85 else int(rng.randint(52, 150))
    X = rng.normal(size=(n, d)) * 10 ** rng.uniform(-1, 1)
    w = rng.normal(size=d)
    y = (X @ w > np.median(X @ w)).astype(float)
    if not separable and rng.rand() < 0.4:
        y = gen.binary_labels(rng, n, both=True)
    if len(set(y)) < 2:
        y[0], y[1] = 0, 1
    m = int(rng.randint(2, 40))
    C = rng.normal(size=(m, d)) * np.abs(X).mean() * rng.choice([0.5, 1, 3])
    if rng.rand() < 0.3 and m > 3:
        C[:2] = C[2]  # equal points
    return X, y, C


class Fixed(BaseEstimator):
    """ classifier returning arbitrary probabilities, as one or two columns """
    def __init__(self, salt=1.):
        self.salt = salt

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        self.trained = (np.array(X), np.array(y))
        return self

    def _p(self, X):
        p = np.mod(np.abs(X).sum(axis=1) * 7919.13 * self.salt, 1.)
        return np.where(p < 0.1, 0., np.where(p > 0.9, 1., p))

    def predict_proba(self, X):
        p = self._p(X)
        return np.c_[1 - p, p]

    def predict(self, X):
        return (self._p(X) > 0.5).astype(float)


@workload(quick=400, thorough=10000)
def uncertainty(ctx, rng):
    X, y, C = training(rng)
    kind = rng.randint(4)
    if kind == 3:  # classifiers which accept a single class
        from sklearn.tree import DecisionTreeClassifier
        y = np.full(len(X), float(rng.randint(2)))
        learner = UncertaintySampler(DecisionTreeClassifier() if rng.rand() < 0.5 else Fixed())
        if rng.rand() < 0.5:
            learner.clf.fit(X, 1 - y)
        learner.fit(X, y)
        if not isinstance(learner.clf, Fixed):
            ctx.same(learner.predict_proba(C), np.full(len(C), y[0]), 'probability of the positive class after seeing class {} only', y[0])
        return
    if kind == 0:
        clf, ref = Fixed(rng.rand() + 0.1), None
    elif kind == 1:
        from sklearn.naive_bayes import GaussianNB
        clf, ref = GaussianNB(), GaussianNB()
    else:
        from sklearn.linear_model import LogisticRegression
        clf, ref = LogisticRegression(), LogisticRegression()
    learner = UncertaintySampler(clf)
    learner.fit(X, y)
    ref = ref.fit(X, y) if ref is not None else clf
    p = ref.predict_proba(C)[:, list(ref.classes_).index(1)]
    ctx.close(learner.predict_proba(C), p, 'probability of the positive class')
    ranks, perm = stable_scoring(ctx, learner, C, 'UncertaintySampler')
    same_order(ctx, ranks, np.abs(p - 0.5), 'UncertaintySampler')
    ctx.event('uncertainty')
    ctx.case('uncertainty', kind, np.argsort(ranks).tolist())
    ctx.sample(strategy='uncertainty', clf=type(clf).__name__, candidates=len(C))


@workload(quick=400, thorough=8000)
def simple_margin(ctx, rng):
    X, y, C = training(rng)
    p = {'C': float(10 ** rng.uniform(-1, 4)), 'kernel': ['rbf', 'linear', 'poly'][rng.randint(3)], 'gamma': ['auto', 'scale', 0.7][rng.randint(3)]}
    if p['kernel'] != 'rbf':
        p['C'] = min(p['C'], 10.)
        X, C = X / np.abs(X).max(), C / np.abs(X).max()
    learner = SimpleMargin(**p)
    learner.fit(X, y)
    ref = SVC(**p).fit(X, y)
    ranks, perm = stable_scoring(ctx, learner, C, 'SimpleMargin')
    margin = ref.decision_function(C)
    same_order(ctx, ranks, np.abs(margin), 'SimpleMargin({})'.format(p))
    same_order(ctx, learner.predict_proba(C), margin, 'probabilities of SimpleMargin({})'.format(p), tol=1e-3) if np.abs(margin).max() < 20 else None
    ctx.same(learner.predict(C), ref.predict(C), 'labels of SimpleMargin')
    ctx.event('simple_margin')
    ctx.case('margin', repr(p), np.argsort(ranks).tolist())


@workload(quick=80, thorough=2000, cpu=240)
def ratio_margin(ctx, rng):
    X, y, C = training(rng)
    C = C[:12]
    p = {'C': float(10 ** rng.uniform(0, 3)), 'gamma': ['auto', 0.7][rng.randint(2)]}
    learner = RatioMargin(**p)
    learner.fit(X, y)
    ranks, perm = stable_scoring(ctx, learner, C, 'RatioMargin')
    ratios = []
    for x in C:
        norms = []
        for label in (0, 1):
            clf = SVC(kernel='rbf', **p).fit(np.vstack([X, x]), np.r_[y, label])
            a = clf.dual_coef_[0]
            gamma = 1 / X.shape[1] if p['gamma'] == 'auto' else p['gamma']
            V = clf.support_vectors_
            K = np.exp(-gamma * np.square(V[:, None, :] - V[None, :, :]).sum(axis=2))
            norms.append(a @ K @ a)
        ratios.append(min(norms[0] / norms[1], norms[1] / norms[0]) if min(norms) > 1e-9 else -1.)
    ratios = np.array(ratios)
    ok = ratios > 0
    if ok.sum() > 1:
        same_order(ctx, ranks[ok], -ratios[ok], 'RatioMargin({})'.format(p), tol=1e-4)
        ctx.event('ratio_margin')
        ctx.case('ratio', repr(p), np.argsort(ranks).tolist())


class Recorded(BaseEstimator):
    """ records what it is trained on; its predictions depend on the side it is biased to """
    fits = []

    def __init__(self, salt=1.):
        self.salt = salt

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        self.training = (np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight))
        Recorded.fits.append(self)
        return self

    def predict(self, X):
        t = float(self.training[1].sum()) + 0.37 * len(self.training[1])
        return (np.mod(np.abs(X).sum(axis=1) * 7919.13 * self.salt + 0.618 * t, 1.) > 0.5).astype(float)

    def predict_proba(self, X):
        p = self.predict(X)
        return np.c_[1 - p, p]


@workload(quick=400, thorough=8000)
def disagreement(ctx, rng):
    n = int(rng.randint(5, 50))
    X = gen.identified_data(rng, n, int(rng.randint(1, 4)))
    y = gen.binary_labels(rng, n, both=True)
    idx = gen.index_values(rng, n)
    ds = PartitionedDataset(X, idx)
    a = int(rng.randint(1, n))
    first = gen.random_subset(rng, range(n), a)
    if len(set(y[first])) < 2:
        raise Skip()
    ds.move_to_labeled(LabeledSet(y[first], index=idx[first]))
    if ds.unknown_size > 1 and rng.rand() < 0.5:
        ds.move_to_inferred(ds.unknown.index[:1].copy())
    size, weight = int(rng.choice([1, 3, 10, 200])), float(rng.choice([1e-5, 1e-2, 1.]))
    Recorded.fits = []
    learner = QueryByDisagreement(Recorded(rng.rand() + 0.1), background_sample_size=size, background_sample_weight=weight)
    learner.fit_data(ds)
    ctx.check(len(Recorded.fits) >= 3, '{} classifiers trained', len(Recorded.fits))
    T, t = ds.training_set()
    labeled = {v: lb for v, lb in zip(T[:, 0].tolist(), t.tolist())}
    free = set(ds.unlabeled.data[:, 0].tolist())
    main, pos, neg = [], [], []
    for clf in Recorded.fits:
        Z, z, w = clf.training
        extra = [i for i, v in enumerate(Z[:, 0].tolist()) if v not in labeled]
        given = {v: lb for v, lb in zip(Z[:, 0].tolist(), z.tolist()) if v in labeled}
        ctx.check(given == labeled and len(Z) - len(extra) == len(labeled), 'a classifier was trained with labels {} instead of {}', given, labeled)
        if not extra:
            main.append(clf)
            continue
        ids = [Z[i, 0] for i in extra]
        ctx.check(len(set(ids)) == len(ids) == min(size, len(free)) and set(ids) <= free, 'background of {} points, {} requested, {} unlabeled', len(ids), size, len(free))
        ctx.check(w is not None, 'the background points have the weight of labeled ones')
        ctx.check(bool(np.all(w[[i for i in range(len(Z)) if i not in extra]] == 1)) and np.allclose(w[extra], weight, rtol=1e-12), 'sample weights are {}', w)
        side = set(z[extra].tolist())
        ctx.check(side in ({0.}, {1.}), 'background labels {}', side)
        (pos if side == {1.} else neg).append((clf, sorted(ids)))
    ctx.check(len(main) == len(pos) == len(neg) == 1, '{} unbiased, {} positively and {} negatively biased classifiers', len(main), len(pos), len(neg))
    ctx.check(pos[0][1] == neg[0][1], 'the biased classifiers have different background points')
    ctx.check(np.array_equal(learner.predict(X), main[0].predict(X)), 'labels are not those of the unbiased classifier')
    ranks, perm = stable_scoring(ctx, learner, X, 'QueryByDisagreement')
    differ = pos[0][0].predict(X) != neg[0][0].predict(X)
    if differ.any() and not differ.all():
        ctx.check(ranks[differ].max() < ranks[~differ].min(), 'scores {} where the biased classifiers disagree, {} where they agree', ranks[differ], ranks[~differ])
        ctx.event('disagreeing_points', int(differ.sum()))
        ctx.case('qbd', n, a, size, differ.tolist())
    ctx.event('disagreement')


class Watched(PartitionedDataset):
    """ remembers the samples drawn from the whole data """
    def sample(self, size=None):
        res = super().sample(size)
        self.drawn = np.array(res)
        return res


def entropy_of(p):
    q = np.clip(p, 1e-300, 1)
    r = np.clip(1 - p, 1e-300, 1)
    return -(p * np.log(q)) - (1 - p) * np.log(r)


@workload(quick=300, thorough=4000, cpu=240)
def entropy_reduction(ctx, rng):
    d = int(rng.randint(1, 4))
    n = int(rng.randint(8, 40))
    X = rng.normal(size=(n, d)) * (1 if rng.rand() < 0.5 else 5)
    y = (np.sin(2 * X[:, 0]) > 0).astype(float)
    a = int(rng.randint(2, 5))
    order = rng.permutation(n)
    if len(set(y[order[:a]])) < 2:
        raise Skip()
    idx = gen.index_values(rng, n)
    ds = Watched(X, idx)
    ds.drawn = None
    ds.move_to_labeled(LabeledSet(y[order[:a]], index=idx[order[:a]]))
    size = [None, 3, 10, 100][rng.randint(4)]
    p = {'n_samples': int(rng.choice([2, 3, 4, 5, 7, 8, 16, 64, 300])), 'warmup': 30, 'thin': 3, 'rounding': bool(rng.rand() < 0.5), 'cache_samples': bool(rng.rand() < 0.5), 'decompose': True, 'data_sample_size': size}
    p['gamma'] = [None, 5., 50.][rng.randint(3)]  # the larger, the less do labels tell about other points
    learner = EntropyReductionLearner(**p)
    learner.fit_data(ds)
    C = ds.unlabeled.data.copy()
    if rng.rand() < 0.3:
        C = X[order[a:]] * 5  # far away points
    ranks, perm = stable_scoring(ctx, learner, C, 'EntropyReductionLearner')
    H = np.asarray(learner.predict_all(C))
    ctx.check(H.shape == (p['n_samples'], len(C)), 'hypotheses of shape {}', H.shape)
    ctx.close(learner.predict_proba(C), H.mean(axis=0), 'probabilities as means over the hypotheses')
    prob = H.mean(axis=0)
    cut = np.abs(prob - 0.5)
    best = cut == cut.min()
    if cut.min() == 0.5:
        ctx.event('not_cut')
        return
    if not best.all():
        ctx.check(ranks[best].max() < ranks[~best].min(), 'points splitting the hypotheses most evenly have scores up to {}, others from {}', ranks[best].max(), ranks[~best].min())
    if ds.drawn is None and size is not None and size < n:
        return  # the sample could not be observed
    S = np.asarray(learner.predict_all(ds.drawn if ds.drawn is not None else X))
    expected = []
    for j in np.where(best)[0]:
        v = 0.
        for label in (0, 1):
            keep = H[:, j] == label
            v += keep.mean() * entropy_of(S[keep].mean(axis=0)).mean()
        expected.append(v)
    same_order(ctx, ranks[best], expected, 'EntropyReductionLearner({})'.format(p))
    ctx.event('entropy')
    ctx.event('entropy_compared_points', int(best.sum()))
    ctx.case('entropy', repr(p), np.argsort(ranks).tolist()[:10])


@workload(quick=60, thorough=1500, cpu=240)
def version_spaces(ctx, rng):
    X, y, C = training(rng, separable=True)
    X = X / np.abs(X).max()
    C = C / max(1e-9, np.abs(C).max())
    q = {'n_samples': int(rng.choice([1, 4, 8])), 'warmup': 30, 'thin': 3, 'rounding': bool(rng.rand() < 0.5), 'cache_samples': False}
    if rng.rand() < 0.5:
        learner = KernelVersionSpace(kernel='rbf', gamma=1., **q)
    else:
        w = rng.normal(size=X.shape[1])
        y = (X @ w > 0).astype(float)
        X = X + np.sign(X @ w)[:, None] * 0.1 * w / np.sqrt(w @ w)
        if len(set(y)) < 2:
            raise Skip()
        learner = LinearVersionSpace(**q)
    learner.fit(X, y)
    ranks, perm = stable_scoring(ctx, learner, C, type(learner).__name__)
    p = learner.predict_proba(C)
    same_order(ctx, ranks, np.abs(p - 0.5), type(learner).__name__)
    ctx.event('vs_uncertainty')
    ctx.case('vs', repr(q), np.argsort(ranks).tolist()[:10])
