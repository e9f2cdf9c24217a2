"""
Every learner of the package with random documented options, and data sets fulfilling its assumptions. Used by the checks
which run whole explorations (C07, C13).
"""
import sys
import types

import numpy as np

from . import gen


def with_pystan():
    """ the Bayesian learners import pystan at load time, although their Laplace sampler does not need it """
    if 'pystan' not in sys.modules:
        try:
            import pystan  # noqa: F401
        except ImportError:
            stub = types.ModuleType('pystan')
            stub.StanModel = object
            sys.modules['pystan'] = stub


class Config:
    """
    :param make: builds a new learner
    :param domain: kind of data set the learner is meant for
    :param consistent: whether labels and probabilities always agree
    :param cost: rough CPU seconds per iteration on a few dozens of points
    """
    def __init__(self, name, make, domain='any', consistent=True, cost=0.01, max_n=60, max_iter=40, params=None, reject=()):
        self.name, self.make, self.domain, self.consistent, self.cost = name, make, domain, consistent, cost
        self.max_n, self.max_iter, self.params, self.reject = max_n, max_iter, params or {}, reject

    def __repr__(self):
        return '{}({})'.format(self.name, ', '.join('{}={!r}'.format(k, v) for k, v in sorted(self.params.items())))


def pick(rng, *options):
    return options[rng.randint(len(options))]


def vs_params(rng, kernel=True, any_kernel=False):
    p = {
        'single_chain': pick(rng, True, True, False), 'n_samples': pick(rng, 1, 4, 8, 16), 'warmup': pick(rng, 20, 100), 'thin': pick(rng, 1, 5, 10),
        'cache_samples': bool(rng.rand() < 0.5), 'rounding': bool(rng.rand() < 0.6), 'rounding_cache': bool(rng.rand() < 0.5),
        'add_intercept': bool(rng.rand() < 0.7),
    }
    if p['rounding'] and rng.rand() < 0.7:
        p['rounding_options'] = {'strategy': pick(rng, 'default', 'opt'), 'z_cut': bool(rng.rand() < 0.5), 'sphere_cuts': bool(rng.rand() < 0.5)}
    if kernel:
        p['decompose'] = bool(rng.rand() < 0.5)
        p['kernel'] = pick(rng, 'rbf', 'rbf', 'linear', 'poly') if any_kernel else 'rbf'
        p['gamma'] = pick(rng, None, 0.5, 2.)
        if p['kernel'] != 'rbf':
            p['jitter'] = 1e-6  # kernel matrices of finite rank need more than the default 1e-12 whenever the data is not tiny
    elif not p['rounding']:
        p['rounding_cache'] = False
    return p


def partition_of(rng, d, k):
    """ k disjoint groups of the d attributes """
    perm = rng.permutation(d)
    cuts = np.sort(rng.choice(np.arange(1, d), k - 1, replace=False)) if k > 1 else []
    return [sorted(int(v) for v in g) for g in np.split(perm, cuts)]


NAMES = ['SimpleMargin', 'RatioMargin', 'UncertaintySampler', 'RandomSampler', 'QueryByDisagreement', 'KernelVersionSpace', 'LinearVersionSpace',
         'EntropyReductionLearner', 'DualSpaceModel', 'FactorizedDualSpaceModel', 'SubspatialVersionSpace', 'SubspatialSimpleMargin', 'CategoricalActiveLearner',
         'MultiSetActiveLearner', 'SwapLearner', 'SimplifiedSwapLearner', 'FLMUncertaintySampler', 'BayesianLinearVersionSpace', 'BayesianKernelVersionSpace']


FACTORIZED = ['FactorizedDualSpaceModel', 'SubspatialVersionSpace', 'SubspatialSimpleMargin', 'CategoricalActiveLearner', 'MultiSetActiveLearner']


def config(rng, name, d, k):
    """
    :param d, k: number of attributes and of subspaces of the data set
    """
    from aideme import active_learning as al
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.svm import SVC
    from sklearn.tree import DecisionTreeClassifier

    def build(cls, p):
        return lambda: cls(**p)

    if name == 'SimpleMargin':
        p = {'C': pick(rng, 1., 100., 1e5), 'kernel': pick(rng, 'rbf', 'linear', 'poly'), 'gamma': pick(rng, 'auto', 'scale', 0.5)}
        if p['kernel'] != 'rbf':
            p['C'] = 1.
        return Config(name, build(al.SimpleMargin, p), params=p)

    if name == 'RatioMargin':
        p = {'C': pick(rng, 1., 100.), 'gamma': pick(rng, 'auto', 0.5)}
        return Config(name, build(al.RatioMargin, p), params=p, cost=0.2, max_n=15, max_iter=5)

    if name in ('UncertaintySampler', 'RandomSampler'):
        kind = pick(rng, 'logreg', 'forest', 'bayes', 'tree', 'svc')
        make_clf = {'logreg': lambda: LogisticRegression(), 'forest': lambda: RandomForestClassifier(n_estimators=5), 'bayes': lambda: GaussianNB(),
                    'tree': lambda: DecisionTreeClassifier(max_depth=2), 'svc': lambda: al.SimpleMargin(C=10.)}[kind]
        if name == 'UncertaintySampler':
            return Config(name, lambda: al.UncertaintySampler(make_clf()), params={'clf': kind}, cost=0.02, max_iter=15 if kind == 'forest' else 40, consistent=kind in ('logreg', 'svc'))
        batch = pick(rng, 1, 3)
        return Config(name, lambda: al.RandomSampler(make_clf(), batch_size=batch), params={'clf': kind, 'batch_size': batch}, cost=0.02, max_iter=15 if kind == 'forest' else 40, consistent=kind in ('logreg', 'svc'))

    if name == 'QueryByDisagreement':
        kind = pick(rng, 'logreg', 'tree', 'bayes')
        make_clf = {'logreg': lambda: LogisticRegression(), 'tree': lambda: DecisionTreeClassifier(max_depth=3), 'bayes': lambda: GaussianNB()}[kind]
        p = {'background_sample_size': pick(rng, 3, 20, 200), 'background_sample_weight': pick(rng, 1e-5, 1e-2)}
        return Config(name, lambda: al.QueryByDisagreement(make_clf(), **p), params={**p, 'clf': kind}, cost=0.02, consistent=kind == 'logreg')

    if name == 'KernelVersionSpace':
        p = vs_params(rng, any_kernel=True)
        return Config(name, build(al.KernelVersionSpace, p), params=p, domain='any' if p['kernel'] == 'rbf' else 'linear' if p['add_intercept'] else 'cone', cost=0.1, max_iter=10, max_n=40)

    if name == 'LinearVersionSpace':
        p = vs_params(rng, kernel=False)
        return Config(name, build(al.LinearVersionSpace, p), params=p, cost=0.1, domain='linear' if p['add_intercept'] else 'cone', max_iter=12)

    if name == 'EntropyReductionLearner':
        p = {**vs_params(rng, any_kernel=True), 'data_sample_size': pick(rng, None, 5, 20)}
        p['n_samples'] = pick(rng, 2, 4, 8, 16)
        return Config(name, build(al.EntropyReductionLearner, p), params=p, domain='any' if p['kernel'] == 'rbf' else 'linear' if p['add_intercept'] else 'cone', cost=0.1, max_iter=10, max_n=40)

    if name == 'DualSpaceModel':
        mode = pick(rng, 'positive', 'negative', 'persist')
        inner = pick(rng, 'margin', 'vs', 'logreg')
        q = vs_params(rng)
        p = {'mode': mode, 'sample_unknown_proba': pick(rng, 0.25, 0.5, 1.), 'tol': pick(rng, 1e-12, 1e-9)}
        make_inner = {'margin': lambda: al.SimpleMargin(C=1e3), 'vs': lambda: al.KernelVersionSpace(**q), 'logreg': lambda: al.UncertaintySampler(LogisticRegression())}[inner]
        return Config(name, lambda: al.DualSpaceModel(make_inner(), **p), params={**p, 'learner': inner}, domain={'positive': 'convex', 'negative': 'concave', 'persist': pick(rng, 'convex', 'concave')}[mode] if rng.rand() < 0.7 else 'any',
                      cost=0.1, max_iter=10 if inner == 'vs' else 25, max_n=40)

    if name in ('SubspatialVersionSpace', 'SubspatialSimpleMargin', 'FactorizedDualSpaceModel'):
        partition = partition_of(rng, d, k)
        modes = [pick(rng, 'numerical', 'numerical', 'categorical', 'multiset') for _ in partition]
        if name == 'SubspatialSimpleMargin':
            modes = ['numerical'] * k
            p = {'partition': partition, 'C': pick(rng, 1., 100.), 'label_function': pick(rng, 'AND', 'AND', 'OR')}
            return Config(name, build(al.SubspatialSimpleMargin, p), params=p, domain=('factorized', partition, modes, p['label_function']))
        if name == 'SubspatialVersionSpace':
            q = vs_params(rng)
            q.pop('gamma')
            p = {**q, 'partition': partition, 'mode': modes, 'label_function': pick(rng, 'AND', 'PROD', 'OR'), 'loss': pick(rng, 'GREEDY', 'SQUARE', 'PRODUCT')}
            return Config(name, build(al.SubspatialVersionSpace, p), params=p, domain=('factorized', partition, modes, 'OR' if p['label_function'] == 'OR' else 'AND'),
                          consistent='multiset' not in modes, cost=0.2, max_iter=8, max_n=40)
        dsm_modes = [m if m != 'numerical' else pick(rng, 'persist', 'positive', 'negative') for m in modes]
        p = {'partition': partition, 'mode': dsm_modes, 'sample_unknown_proba': pick(rng, 0.25, 0.5, 1.)}
        inner = pick(rng, 'margin', 'subspatial')
        if inner == 'margin':
            return Config(name, lambda: al.FactorizedDualSpaceModel(al.SimpleMargin(C=1e3), **p), params={**p, 'learner': inner}, domain=('factorized', partition, dsm_modes, 'AND'), cost=0.05, max_iter=20)
        return Config(name, lambda: al.FactorizedDualSpaceModel(al.UncertaintySampler(LogisticRegression()), **p), params={**p, 'learner': 'logreg'},
                      domain=('factorized', partition, dsm_modes, 'AND'), cost=0.05, max_iter=20)

    if name == 'CategoricalActiveLearner':
        from aideme.active_learning.version_space.categorical import CategoricalActiveLearner
        return Config(name, CategoricalActiveLearner, domain=('factorized', [list(range(d))], ['categorical'], 'AND'))

    if name == 'MultiSetActiveLearner':
        from aideme.active_learning.version_space.categorical import MultiSetActiveLearner
        return Config(name, MultiSetActiveLearner, domain=('factorized', [list(range(d))], ['multiset'], 'AND'), consistent=False)

    if name in ('SwapLearner', 'SimplifiedSwapLearner', 'FLMUncertaintySampler'):
        from aideme.active_learning.factorization.linear import LinearFactorizationLearner
        from aideme.active_learning.factorization.optimization import Adam, BFGS, GradientDescent
        from aideme.active_learning.factorization.penalty import L2Penalty, SparseGroupLassoPenalty
        if name == 'FLMUncertaintySampler':
            p = {'max_iter': pick(rng, 5, 30), 'penalty': pick(rng, 0., 1e-4, 1e-2), 'num_subspaces': pick(rng, 1, 3, 6), 'penalty_iter': pick(rng, 0, 3), 'log': bool(rng.rand() < 0.5), 'prune': bool(rng.rand() < 0.4)}
            if rng.rand() < 0.3:
                p['one_hot_groups'] = partition_of(rng, d, k)
            return Config(name, build(al.FLMUncertaintySampler, p), params=p, max_iter=15)
        if name == 'SimplifiedSwapLearner':
            p = {'swap_iter': pick(rng, 1, 3), 'train_sample_size': pick(rng, 20, 100), 'num_subspaces': pick(rng, 1, 4), 'use_vs': False, 'refine_max_iter': pick(rng, 5, 20),
                 'refine_min_iter': 3, 'adapt_max_iter': bool(rng.rand() < 0.4), 'refine_exp': bool(rng.rand() < 0.5), 'use_exp_decay': bool(rng.rand() < 0.5), 'use_fista': bool(rng.rand() < 0.4),
                 'full_fact': bool(rng.rand() < 0.4), 'fact_max_iter': 30, 'prune': bool(rng.rand() < 0.5), 'prune_threshold': pick(rng, 0.99, 0.9), 'retries': pick(rng, 1, 2)}
            return Config(name, build(al.SimplifiedSwapLearner, p), params=p, max_iter=12, cost=0.1)
        p = {'swap_iter': pick(rng, 1, 3), 'num_subspaces': pick(rng, 1, 4), 'retries': pick(rng, 1, 2), 'train_on_prediction': bool(rng.rand() < 0.6),
             'train_sample_size': pick(rng, None, 20), 'prune': bool(rng.rand() < 0.5), 'prune_threshold': pick(rng, 0.99, 0.9)}
        opt = pick(rng, 'adam', 'gd', 'adam-batch')
        same = rng.rand() < 0.3
        adapt = rng.rand() < 0.4

        def model(max_iter):
            options = {'max_iter': max_iter, 'batch_size': 8 if opt == 'adam-batch' else None, 'gtol': 0, 'rel_tol': 0}
            optimizer = GradientDescent(step_size=0.1, **options) if opt == 'gd' else Adam(step_size=0.1, **options)
            return LinearFactorizationLearner(optimizer, SparseGroupLassoPenalty(l1_penalty=1e-4, l2_sqrt_penalty=1e-4))

        def make():
            return al.SwapLearner(al.SimpleMargin(C=1e3), model(30), None if same else model(10), max_iter_adapter=(lambda it: 3 + it) if adapt else None, **p)
        return Config(name, make, params={**p, 'optimizer': opt, 'same_model': bool(same), 'adapt': bool(adapt)}, max_iter=12, cost=0.05)

    with_pystan()
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
    if name == 'BayesianLinearVersionSpace':
        p = {'prior': 'gaussian', 'prior_std': pick(rng, 0.5, 1., 10.), 'add_intercept': bool(rng.rand() < 0.5)}
        return Config(name, build(BayesianLinearVersionSpace, p), params=p)
    p = {'sampler': pick(rng, 'laplace', 'kernel-laplace'), 'prior': 'gaussian', 'prior_std': pick(rng, 1., 10.), 'add_intercept': bool(rng.rand() < 0.5), 'gamma': pick(rng, None, 1.)}
    return Config(name, build(BayesianKernelVersionSpace, p), params=p)


def dataset(rng, domain, n, d):
    """ :return: X, final labels, partial labels (or None) with some positive and some (everywhere) negative points """
    if not isinstance(domain, tuple):
        X = rng.normal(size=(n, d))
        for _ in range(100):
            if domain == 'linear':
                w, b = rng.normal(size=d), rng.normal() * 0.5
                m = X @ w + b
                keep = np.abs(m) > 0.05
                y = (m > 0).astype(float)
                X = np.where(keep[:, None], X, X + np.sign(m)[:, None] * 0.2 * w / (w @ w))
                y = (X @ w + b > 0).astype(float)
            elif domain == 'cone':
                w = rng.normal(size=d)
                X = X + np.sign(X @ w)[:, None] * 0.1 * w / np.sqrt(w @ w)
                y = (X @ w > 0).astype(float)
            elif domain in ('convex', 'concave'):
                c = rng.normal(size=d) * 0.5
                A = rng.normal(size=(d, d))
                r = np.square((X - c) @ A).sum(axis=1)
                y = (r < np.quantile(r, rng.uniform(0.2, 0.7))).astype(float)
                if domain == 'concave':
                    y = 1 - y
            else:
                y = (np.sin(2 * X[:, 0]) + rng.normal(size=n) * 0.3 > 0).astype(float) if rng.rand() < 0.5 else gen.binary_labels(rng, n)
            if 2 <= y.sum() <= n - 2:
                return X, y, None
            X = rng.normal(size=(n, d))
        y = np.zeros(n)
        y[:n // 2] = 1
        if domain in ('linear', 'cone'):
            X[:, 0] = np.where(y == 1, 1, -1) * (0.1 + np.abs(X[:, 0]))
        return X, y, None

    _, partition, modes, connector = domain
    for attempt in range(500):
        X = rng.normal(size=(n, d))
        P = np.zeros((n, len(partition)))
        for j, (idx, mode) in enumerate(zip(partition, modes)):
            if mode == 'categorical':
                category = rng.randint(len(idx), size=n)  # one-hot encoded
                good = (rng.rand(len(idx)) < 0.6).astype(float)
                P[:, j] = good[category]
                X[:, idx] = np.eye(len(idx))[category]
            elif mode == 'multiset':
                V = (rng.rand(n, len(idx)) < 0.5).astype(float)
                V[V.sum(axis=1) == 0, rng.randint(len(idx))] = 1
                good = rng.rand(len(idx)) < 0.6
                P[:, j] = V @ (~good) == 0
                X[:, idx] = V
            else:
                Z = X[:, idx]
                r = np.square(Z - rng.normal(size=len(idx)) * 0.3).sum(axis=1)
                P[:, j] = r < np.quantile(r, rng.uniform(0.5, 0.8))
                if mode == 'negative':
                    P[:, j] = 1 - P[:, j]
        y = P.min(axis=1) if connector == 'AND' else P.max(axis=1)
        if connector == 'OR':
            # final labels of the package are conjunctive: only the partial labels drive a disjunctive learner
            y = P.min(axis=1)
        if y.sum() >= 2 and (P.max(axis=1) == 0).sum() >= 2:
            return X, y, P
    return None


def alone(ctx, model, X, labels, probas, what, tol=1e-6):
    """ the predictions for a point do not depend on which other points are asked along """
    rng = ctx.rng
    parts = [rng.randint(len(X), size=1)]
    if len(X) > 2:
        parts.append(rng.permutation(len(X))[:rng.randint(2, len(X))])
    for part in parts:
        some, p = np.asarray(model.predict(X[part])), np.asarray(model.predict_proba(X[part]), dtype=float)
        ctx.check(some.shape == p.shape == (len(part),), '{}: shapes of labels and probabilities are {} and {} for {} points', what, some.shape, p.shape, len(part))
        off = ~(np.abs(p - probas[part]) <= tol)
        ctx.check(not off.any(), '{}: probability of {} is {} when asked with {} points and {} with {}', what, X[part][off][:1], p[off][:1], len(part), probas[part][off][:1], len(X))
        off = (some != labels[part]) & (np.abs(p - 0.5) > tol)
        ctx.check(not off.any(), '{}: label of {} is {} when asked with {} points and {} with {}', what, X[part][off][:1], some[off][:1], len(part), labels[part][off][:1], len(X))
    ctx.event('asked_alone', len(parts))
