"""
C34: learners composed of others against the same components assembled by hand with the same options, under the same random numbers; external
samplers are stand-ins which write down what they are asked and answer as documented.
"""
import logging
import math
import os
import pickle
import re
import shutil
import sys
import tempfile
import types

import numpy as np
from scipy.special import expit

from aideme import active_learning as al
from aideme.active_learning.factorization.active_learning import SimplifiedSwapLearner, SwapLearner
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import FISTA, Adam
from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
from aideme.active_learning.uncertainty import UncertaintySampler
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.kernel import KernelBayesianLogisticRegression
from aideme.active_learning.version_space.linear import DeterministicLogisticRegression
from aideme.active_learning.version_space.subspace import SubspatialSimpleMargin, SubspatialVersionSpace
from aideme.explore import LabeledSet, PartitionedDataset
from harness import gen
from harness import learners as L
from harness.core import Skip, workload

RULE = 'A case is one history of trainings of a learner and of its hand-made equivalent; non-trivial when some option differs from its default; signature: options.'
QUICK = 2  # times the cases of the quick tier
REQUIRED = {'cars': 9, 'comparisons': 3100, 'entropy': 27, 'full_runs': 29, 'kernel': 25, 'laplace_probabilities': 300, 'limits': 52, 'linear': 110, 'refined_by_fista': 22, 'specialized': 100, 'stan_probabilities': 1300, 'stan_trainings': 430, 'subspatial': 28, 'swap_runs': 54, 'with_linear': 19, 'with_poly': 29, 'with_rbf': 32}
ASSUMPTIONS = ['equal random numbers make learners assembled in either way equal, as both are made of the same components']


class StanModel:
    """ stand-in for pystan.StanModel, which answers draws depending on the posterior asked for, and writes down how they were asked """
    calls = []

    def __init__(self, file=None, charset='utf-8', model_name='anon_model', model_code=None, **kwargs):
        code = re.sub(r'\s+', '', re.sub(r'//.*', '', model_code))
        self.variables = re.findall(r'(\w+)(?:\[[\w,]*\])?;', re.search(r'data\{(.*?)\}', code).group(1))
        priors = [k for k, v in (('gaussian', 'normal(0,sigma)'), ('cauchy', 'cauchy(0,sigma)')) if 'beta~' + v in code]
        if len(priors) > 1 or 'y~bernoulli_logit(x*beta);' not in code:
            raise ValueError('this model is not a logistic regression: ' + model_code)
        self.prior = priors[0] if priors else 'improper'

    def sampling(self, data=None, pars=None, chains=4, iter=2000, warmup=None, thin=1, **kwargs):
        missing = [v for v in self.variables if v not in data]
        if missing:
            raise RuntimeError('Variable {} is not defined'.format(missing[0]))
        warmup = iter // 2 if warmup is None else warmup
        x, y = np.asarray(data['x'], dtype=float), np.asarray(data['y'])
        if x.shape != (data['N'], data['D']) or y.shape != (data['N'],) or not np.isin(y, [0, 1]).all():
            raise RuntimeError('data does not fit its declaration')
        draws = chains * ((iter - 1) // thin - (warmup - 1) // thin)
        StanModel.calls.append((self.prior, draws, warmup, thin))
        return Draws(posterior(self.prior, data['sigma'], x, y, draws))


class Draws:
    def __init__(self, beta):
        self.beta = beta

    def extract(self, *args, **kwargs):
        return {'beta': self.beta}


def posterior(prior, sigma, x, y, n):
    key = float(np.abs(np.sin(np.arange(1, x.size + 1) * 1.7 + x.ravel()) * (1 + np.repeat(y, x.shape[1]))).sum()) + (0 if prior == 'improper' else 17.3 * sigma) + len(prior)
    return np.random.RandomState(int(key * 1e5) % 2 ** 31).normal(size=(n, x.shape[1]))


def with_stan():
    if 'aideme.active_learning.version_space.bayesian' not in sys.modules:
        stub = types.ModuleType('pystan')
        stub.StanModel = StanModel
        sys.modules['pystan'] = stub


def twins(ctx, seed, a, b, steps, what, **tol):
    """ runs the same steps on two learners, each with the same random numbers """
    got = []
    for learner in (a, b):
        np.random.seed(seed)
        got.append([])
        try:
            for v in steps(learner):
                got[-1].append(np.asarray(v))
        except ValueError as e:
            if 'number of classes' not in str(e):
                raise
            got[-1].append(np.full(1, -1.))  # support vector machines need both labels in every subspace
            ctx.event('single_class')
    ctx.check(len(got[0]) == len(got[1]), '{}: {} answers of the learner, {} of its components', what, *map(len, got))
    for k, (u, v) in enumerate(zip(*got)):
        ctx.close(u, v, '{}: answer {} of the learner and of its components', what, k, **tol)
    ctx.event('comparisons', len(got[0]))
    return got[0]


def differs(ctx, name, reference, seed, other, steps):
    """ for the evidence: whether this option mattered """
    np.random.seed(seed)
    try:
        got = [np.asarray(v) for v in steps(other)]
    except Exception:
        return
    if any(u.shape != v.shape or not np.array_equal(u, v) for u, v in zip(reference, got)):
        ctx.event('mattered_' + name)


def history(rng, X, y, T):
    sizes = sorted(set([len(X)] + rng.randint(4, len(X) + 1, size=2).tolist()))
    while len(set(y[:sizes[0]])) < 2:
        sizes[0] += 1
    sizes = sorted(set(min(s, len(X)) for s in sizes))

    def steps(learner):
        for m in sizes:
            learner.fit(X[:m], y[:m])
            yield learner.predict_proba(T)
            yield learner.predict(T)
    return steps


ALTERNATIVES = {
    'single_chain': [True, False], 'n_samples': [3, 5, 9], 'warmup': [7, 40], 'thin': [1, 6], 'cache_samples': [True, False], 'rounding': [True, False],
    'rounding_cache': [True, False], 'add_intercept': [True, False], 'decompose': [True, False],
}


def vs_options(rng, kernel):
    p = {k: v[rng.randint(len(v))] for k, v in ALTERNATIVES.items() if kernel or k != 'decompose'}
    if p['rounding'] and rng.rand() < 0.7:
        p['rounding_options'] = {'strategy': ['default', 'opt'][rng.randint(2)], 'z_cut': bool(rng.rand() < 0.5), 'sphere_cuts': bool(rng.rand() < 0.5), 'max_iter': int(rng.choice([1, 2, 100]))}
    if kernel:
        p['kernel'] = ['rbf', 'linear', 'poly'][rng.randint(3)]
        p['gamma'] = [None, 0.3, 2.][rng.randint(3)]
        if p['kernel'] == 'poly':
            p['degree'], p['coef0'] = int(rng.randint(1, 4)), float(rng.choice([0., 0.5, 1.]))
        p['jitter'] = float(rng.choice([1e-6, 1e-3]))
    return p


def varied(rng, p, regular=True):
    """ the same options except one """
    # otherwise the data may no longer be separable
    fixed = ['add_intercept'] if 'kernel' not in p else [] if regular else ['add_intercept', 'decompose', 'rounding', 'rounding_cache']
    names = [k for k in p if k in ALTERNATIVES and k not in fixed]
    k = names[rng.randint(len(names))]
    return k, {**p, k: next(v for v in ALTERNATIVES[k] if v != p[k])}


@workload(quick=250, thorough=4000)
def linear_spaces(ctx, rng):
    d = rng.randint(1, 5)
    p = vs_options(rng, False)
    X, y, _ = L.dataset(rng, 'linear' if p['add_intercept'] else 'cone', 14, d)
    T = rng.normal(size=(12, d)) * 2
    seed = rng.randint(2 ** 31)
    steps = history(rng, X, y, T)
    q = dict(p)
    n, intercept = q.pop('n_samples'), q.pop('add_intercept')

    class Assembled:
        """ share of sampled half-spaces containing each point """
        def __init__(self):
            self.sampler = HitAndRunSampler(**q)

        def fit(self, X, y):
            self.samples = self.sampler.sample(np.c_[np.ones(len(X)), X] if intercept else X, y, n)

        def predict_proba(self, T):
            return ((np.c_[np.ones(len(T)), T] if intercept else T) @ self.samples.T > 0).mean(axis=1)

        def predict(self, T):
            return (self.predict_proba(T) > 0.5).astype(float)

    which = rng.randint(2)
    make = [al.LinearVersionSpace, DeterministicLogisticRegression][which]
    got = twins(ctx, seed, make(**p), Assembled(), steps, '{} with {}'.format(make.__name__, p))
    k, other = varied(rng, p)
    differs(ctx, k, got, seed, make(**other), steps)
    ctx.event('linear')
    ctx.case(which, d, sorted(p.items(), key=str))


@workload(quick=250, thorough=4000)
def kernel_spaces(ctx, rng):
    d = rng.randint(1, 4)
    p = vs_options(rng, True)
    if p['kernel'] != 'rbf':
        p['add_intercept'] = True
    X, y, _ = L.dataset(rng, 'any' if p['kernel'] == 'rbf' else 'linear', 12, d)
    T = rng.normal(size=(12, d)) * 2
    seed = rng.randint(2 ** 31)
    steps = history(rng, X, y, T)
    # documented adjustments
    rounding_cache = p['rounding_cache'] and p['rounding']
    decompose = p['decompose'] or rounding_cache
    if not decompose and p['kernel'] != 'rbf':
        raise Skip()  # kernel matrices of finite rank
    regular = p['kernel'] == 'rbf' and np.linalg.eigvalsh(np.exp(-(p['gamma'] or 1 / d) * np.square(X[:, None] - X[None]).sum(axis=2)))[0] > 1e-7
    if not decompose and not regular:
        raise Skip()
    names = ('kernel', 'gamma', 'degree', 'coef0', 'jitter')
    q = {k: v for k, v in p.items() if k not in names + ('decompose',)}
    q['rounding_cache'] = rounding_cache

    def components():
        return UncertaintySampler(KernelBayesianLogisticRegression(DeterministicLogisticRegression(**q), decompose=decompose, **{'coef0': 0., **{k: p[k] for k in names if k in p}}))

    which = rng.randint(3)
    make = [al.KernelVersionSpace, al.EntropyReductionLearner, lambda **kw: SubspatialVersionSpace(label_function='AND', **kw)][which]
    if which == 2:
        def steps(learner, steps=steps):
            if isinstance(learner, SubspatialVersionSpace):
                fit = learner.fit
                learner.fit = lambda X, y: fit(X, y.reshape(-1, 1))
                learner.predict = lambda X: (learner.predict_proba(X) > 0.5).astype(float)
            return history_steps(learner)
        history_steps = history(rng, X, y, T)
    got = twins(ctx, seed, make(**p), components(), steps, '{} with {}'.format(['KernelVersionSpace', 'EntropyReductionLearner', 'SubspatialVersionSpace'][which], p))
    k, other = varied(rng, p, regular)
    differs(ctx, k, got, seed, make(**other), steps)
    ctx.event(['kernel', 'entropy', 'subspatial'][which])
    ctx.event('with_' + p['kernel'])
    ctx.case(which, d, sorted(p.items(), key=str))


@workload(quick=200, thorough=3000)
def posterior_samplers(ctx, rng):
    """ Bayesian learners whose samples come from Stan """
    with_stan()
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
    folder = tempfile.mkdtemp()
    here = os.getcwd()
    os.chdir(folder)
    try:
        if rng.rand() < 0.5:
            os.mkdir('stan_models')
        learners = []
        d = rng.randint(1, 4)
        for _ in range(rng.randint(1, 5)):
            p = {'n_samples': int(rng.randint(1, 12)), 'warmup': int(rng.randint(1, 60)), 'thin': int(rng.randint(1, 8)), 'add_intercept': bool(rng.rand() < 0.5),
                 'prior': ['gaussian', 'cauchy', 'improper'][rng.randint(3)], 'prior_std': float(10. ** rng.uniform(-1, 1)), 'suppress_warnings': bool(rng.rand() < 0.5)}
            kernel = rng.rand() < 0.5
            gamma = float(rng.choice([0.3, 1.])) if kernel else None
            if rng.rand() < 0.15:
                for k in ('warmup', 'thin', 'n_samples'):
                    p.pop(k)
            learners.append((BayesianKernelVersionSpace(sampler='stan', gamma=gamma, **p) if kernel else BayesianLinearVersionSpace(sampler='stan', **p), p, gamma))
            ctx.check(logging.getLogger('pystan').isEnabledFor(logging.WARNING) != p['suppress_warnings'], 'warnings of Stan with {}', p)
        for k in rng.permutation(np.repeat(np.arange(len(learners)), 2)):
            learner, p, gamma = learners[k]
            X, y = rng.normal(size=(rng.randint(2, 9), d)), None
            y = (rng.rand(len(X)) < 0.5).astype(float)
            T = rng.normal(size=(6, d))
            StanModel.calls.clear()
            learner.fit(X, y)
            full = {'n_samples': 8, 'warmup': 100, 'thin': 10, **p}
            where = 'Stan sampler with {}, kernel {}'.format(p, gamma)
            ctx.check(len(StanModel.calls) == 1 and StanModel.calls[0] == (p['prior'], full['n_samples'], full['warmup'], full['thin']), '{}: asked for (prior, draws, warm-up, thinning) {}', where, StanModel.calls)
            K, Ks = (X, T) if gamma is None else (np.exp(-gamma * np.square(A[:, None] - X[None]).sum(axis=2)) for A in (X, T))
            if p['add_intercept']:
                K, Ks = np.c_[np.ones(len(K)), K], np.c_[np.ones(len(Ks)), Ks]
            if gamma is None:
                want = expit(Ks @ posterior(p['prior'], p['prior_std'], K, y, full['n_samples']).T).mean(axis=1)
                ctx.close(learner.predict_proba(T), want, '{}: probabilities', where)
                ctx.close(learner.rank(T), np.abs(want - 0.5), '{}: scores', where, atol=1e-9)
                ctx.event('stan_probabilities', len(T))
            ctx.event('stan_trainings')
        ctx.case(len(learners), sorted(p.items()))
    finally:
        os.chdir(here)
        shutil.rmtree(folder)


@workload(quick=200, thorough=3000)
def laplace(ctx, rng):
    """ Bayesian learners with approximate posteriors """
    with_stan()
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
    from aideme.active_learning.version_space.bayesian.laplace import KernelLaplaceBayesianLogisticRegression, LaplaceBayesianLogisticRegression
    d = rng.randint(1, 4)
    n = rng.randint(4, 25)
    X, T = rng.normal(size=(n, d)), rng.normal(size=(8, d))
    y = (X[:, 0] + rng.normal(size=n) * 0.7 > 0).astype(float)
    y[:2] = [0, 1]
    p = {'prior_std': float(10. ** rng.uniform(-1, 1)), 'tol': float(10. ** rng.uniform(-9, 0)), 'max_iter': int(rng.choice([2, 5, 8, 1000]))}
    q = {'prior': 'gaussian', 'add_intercept': bool(rng.rand() < 0.5)}
    names = {'kernel': ['rbf', 'poly', 'linear'][rng.randint(3)], 'gamma': [None, 0.5][rng.randint(2)], 'degree': int(rng.randint(1, 4)), 'coef0': float(rng.choice([0., 1.]))}
    which = rng.randint(3)
    if which == 0:
        a = BayesianLinearVersionSpace(sampler='laplace', **p, **q)
        b = LaplaceBayesianLogisticRegression(**p, **q)
    elif which == 1:
        a = BayesianKernelVersionSpace(sampler='laplace', **p, **q, **names)
        b = KernelBayesianLogisticRegression(LaplaceBayesianLogisticRegression(**p, **q), decompose=False, **names)
    else:
        a = BayesianKernelVersionSpace(sampler='kernel-laplace', **p, **names)
        b = KernelBayesianLogisticRegression(KernelLaplaceBayesianLogisticRegression(**p), decompose=False, **names)
    got = []
    for m in (a, b):
        try:
            m.fit(X, y)
            got.append(m.predict_proba(T))
        except RuntimeError:  # iteration limit
            got.append(None)
        except np.linalg.LinAlgError:
            raise Skip()
    where = 'Bayesian learner ({}) with {} {} {}'.format(which, p, q, names)
    ctx.check((got[0] is None) == (got[1] is None), '{}: only one of learner and components reached the iteration limit', where)
    if got[0] is not None:
        ctx.close(got[0], got[1], '{}: probabilities', where)
        ctx.event('laplace_probabilities', len(T))
    else:
        ctx.event('limits')
    ctx.case(which, sorted(p.items()), sorted(q.items()))


@workload(quick=20, thorough=200)
def stan_options(ctx, rng):
    """ Stan samplers take only positive counts, positive scales, and priors they know """
    with_stan()
    from aideme.active_learning.version_space.bayesian.stan import StanLogisticRegressionSampler
    folder = tempfile.mkdtemp()
    here = os.getcwd()
    os.chdir(folder)
    try:
        good = {'warmup': int(rng.randint(1, 100)), 'thin': int(rng.randint(1, 10)), 'prior': ['gaussian', 'cauchy', 'improper'][rng.randint(3)], 'prior_std': [1, 0.5, 1e-9, 3.][rng.randint(4)]}
        StanLogisticRegressionSampler(**good)
        ctx.event('stan_options')
        for name in ('warmup', 'thin', 'prior_std', 'prior'):
            bad = {'prior': ['', 'normal', 'Gaussian', 'flat', None], 'prior_std': [0, 0., -1e-9, -3, math.nan, math.inf, None, '1']}.get(name, [0, -1, 1.5, 2., math.nan, math.inf, None, '1'])
            for v in bad:
                ctx.raises(ValueError, lambda: StanLogisticRegressionSampler(**{**good, name: v}), '{}={!r}', name, v)
                ctx.event('rejected')
            if name == 'prior':
                ctx.check(not set(os.listdir('stan_models')) - {p + '.pkl' for p in ('gaussian', 'cauchy', 'improper')}, 'models of unknown priors are stored: {}', os.listdir('stan_models'))
        ctx.case(sorted(good.items()))
    finally:
        os.chdir(here)
        shutil.rmtree(folder)


def preset(name, **values):
    return dict(getattr(SimplifiedSwapLearner, name, values))


def epochs(step_size, max_iter, batch_size=None, adapt_step_size=False, adapt_every=1, exp_decay=0, fista=False, N=None):
    """ the optimizer of some preset: iterations are counted in passes over the training sample """
    passes = -(-N // batch_size) if batch_size else 1
    options = {'step_size': step_size, 'max_iter': max_iter * passes, 'batch_size': batch_size, 'adapt_step_size': adapt_step_size, 'adapt_every': adapt_every * passes, 'exp_decay': exp_decay, 'gtol': 0, 'rel_tol': 0}
    return FISTA(**options) if fista else Adam(**options)


@workload(quick=120, thorough=1500, cpu=120)
def swap_presets(ctx, rng):
    """ the simplified swap learner is a swap learner """
    n, d = rng.randint(16, 36), rng.randint(2, 5)
    X = rng.normal(size=(n, d))
    y = ((X @ rng.normal(size=d) > -0.3) & (X[:, 0] > -0.7)).astype(float)
    y[:2] = [0, 1]
    cars, exp_decay, fista, full, fact_vs, use_vs = rng.rand(6) < [0.15, 0.5, 0.4, 0.5, 0.3, 0.25]
    size = int(rng.choice([10, n, 300, 600]))
    lo, hi, every, inc = int(rng.randint(1, 6)), int(rng.randint(6, 30)), int(rng.randint(1, 4)), int(rng.randint(1, 6))
    adapt, by_power = bool(rng.rand() < 0.5), bool(rng.rand() < 0.5)
    groups = gen.random_partition(rng, d) if rng.rand() < 0.3 else None
    if groups is not None and len(groups) < 2:
        groups = None
    K, retries, swap_iter = (1 if full and rng.rand() < 0.7 else int(rng.randint(1, 4))), int(rng.randint(1, 3)), int(rng.randint(1, 3))
    l1, l2, fact_penalty, fact_C = (float(10. ** rng.uniform(-4, -1)) for _ in range(4))
    fact_C *= 1e4
    do_prune, threshold = bool(rng.rand() < 0.5), float(rng.choice([0.7, 0.99]))
    refine_step = float(rng.choice([0.05, 0.3])) if rng.rand() < 0.4 else None
    fact_iter, fact_step = int(rng.randint(3, 60)), float(rng.choice([1., 5.]))
    p = dict(swap_iter=swap_iter, l1_penalty=l1, l2_sqrt_penalty=l2, train_sample_size=size, num_subspaces=K, retries=retries, prune=do_prune, prune_threshold=threshold,
             adapt_max_iter=adapt, refine_min_iter=lo, refine_max_iter=hi, refine_every=every, refine_increment=inc, refine_step_size=refine_step, refine_exp=by_power,
             use_vs=bool(use_vs), use_fact_vs=bool(fact_vs), fact_C=fact_C, use_exp_decay=bool(exp_decay), use_fista=bool(fista), full_fact=bool(full), fact_max_iter=fact_iter,
             fact_step_size=fact_step, fact_penalty=fact_penalty, cars=bool(cars), one_hot_groups=groups)

    def assembled():
        if use_vs:
            first = al.KernelVersionSpace(**preset('VS_DEFAULT_PARAMS', decompose=True, n_samples=16, warmup=100, thin=100, rounding=True, rounding_cache=True, rounding_options={'strategy': 'opt', 'z_cut': True, 'sphere_cuts': True}))
        else:
            first = al.SimpleMargin(C=1e6)
        if cars:
            o = preset('SWAP_CARS', step_size=0.1, max_iter=5000, batch_size=None, adapt_step_size=False)
        elif exp_decay:
            o = preset('SWAP_EXP_DECAY', step_size=0.1, max_iter=250, batch_size=250, adapt_step_size=True, adapt_every=20, exp_decay=0.9)
        else:
            o = preset('SWAP_DEFAULT_PARAMS', step_size=0.1, max_iter=200, batch_size=200, adapt_step_size=True, adapt_every=5)
        swap = LinearFactorizationLearner(epochs(N=size, **o))
        if fista:
            r = preset('FISTA_CARS', step_size=1, batch_size=None, adapt_step_size=False) if cars else preset('FISTA_DEFAULT_PARAMS', step_size=5, batch_size=None, adapt_step_size=False)
        else:
            r = preset('REFINE_CARS', step_size=0.1, batch_size=None, adapt_step_size=False) if cars else preset('REFINE_DEFAULT_PARAMS', step_size=0.1, batch_size=None, adapt_step_size=False)
        if refine_step:
            r['step_size'] = refine_step
        refining = LinearFactorizationLearner(epochs(max_iter=hi, fista=fista, N=size, **r), SparseGroupLassoPenalty(l1, l2, groups))
        last = None
        if full:
            last = SubspatialVersionSpace(**preset('FACT_VS_PARAMS', loss='PRODUCT', n_samples=16, warmup=100, thin=100, rounding=True, rounding_cache=False)) if fact_vs else SubspatialSimpleMargin(C=fact_C)
        adapter = None
        if adapt:
            adapter = lambda it: int(min(hi, lo * 2 ** (it // every))) if by_power else min(hi, lo + inc * (it // every))
        return SwapLearner(first, swap, refining, num_subspaces=K, retries=retries, max_iter_adapter=adapter, swap_iter=swap_iter, train_sample_size=size, prune=do_prune, prune_threshold=threshold,
                           fact_model=last, compute_fact_every=5, fact_repeat=2, fact_max_iter=fact_iter, fact_step_size=fact_step, fact_l1_penalty=fact_penalty, fact_l2_sqrt_penalty=fact_penalty)

    total = swap_iter + (int(rng.randint(1, 5)) if not full else 13)
    order = np.r_[0, 1, 2 + rng.permutation(n - 2)]
    T = rng.normal(size=(7, d))

    def steps(learner):
        learner.set_user_factorization([list(range(d))])
        data = PartitionedDataset(X)
        data.move_to_labeled(LabeledSet(y[:2], index=np.arange(2)))
        for it in range(1, total + 1):
            learner.fit_data(data)
            yield learner.predict_proba(T)
            yield learner.predict(T)
            yield learner.rank(T)
            if learner.linear_model is not None:
                yield learner.linear_model.weight_matrix
            if 1 + it < n:
                data.move_to_labeled(LabeledSet(y[order[1 + it:2 + it]], index=order[1 + it:2 + it]))
        yield data.training_set(get_partial=True)[1]
        ctx.event('specialized', int(data.training_set(get_partial=True)[1] is not None and learner.is_factorization_phase))

    twins(ctx, rng.randint(2 ** 31), SimplifiedSwapLearner(**p), assembled(), steps, 'simplified swap learner with {}'.format(p), rtol=1e-7, atol=1e-9)
    ctx.event('swap_runs')
    ctx.event('cars', int(cars))
    ctx.event('full_runs', int(full))
    ctx.event('refined_by_fista', int(fista))
    ctx.case(sorted(p.items(), key=str))
