"""
C32: Laplace models against the mode found by Newton's method and the Laplace posterior computed by direct linear algebra (in the space of weights, or of
function values for kernels).
"""
import warnings
import numpy as np
from scipy.special import expit, ndtr
from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, rbf_kernel
from aideme.explore import PartitionedDataset, LabeledSet
from harness.core import Skip, workload
from harness import gen
from harness.learners import alone, with_pystan

RULE = 'A case is one model trained on one or more labeled sets; non-trivial with both labels; signature: model, prior, kernel, intercept, sizes, magnitudes.'
QUICK = 2  # times the cases of the quick tier
REQUIRED = {'asked_alone': 2700, 'cleared': 400, 'expected_errors': 67, 'feature_models': 100, 'forgotten': 940, 'kernel_linear': 88, 'kernel_poly': 140, 'kernel_rbf': 210, 'linear_gaussian': 200, 'linear_gaussian_intercept': 200, 'linear_improper': 95, 'linear_improper_intercept': 73, 'matrices': 210, 'probabilities': 35000, 'retrained': 620, 'separated': 86, 'sides': 29000, 'tight_probabilities': 14000}
ASSUMPTIONS = ['prior deviations up to 10 for kernels and 100 for linear models, attributes between 0.01 and 100 times unit size',
               'a minimizer exists: with an improper prior, training data is not separable and has full rank',
               'modes are compared up to the precision which the tolerance of the solver allows']
FACTOR = 8 / np.pi


def weights_posterior(A, y, info):
    """ :return: mode, Hessian at the mode """
    s = np.where(y == 1, 1., -1.)
    w = np.zeros(A.shape[1])

    def value(w):
        return np.logaddexp(0, -s * (A @ w)).sum() + 0.5 * info * w @ w

    for _ in range(1000):
        p = expit(A @ w)
        g = A.T @ (p - (s > 0)) + info * w
        H = (A.T * (p * (1 - p))) @ A + info * np.eye(len(w))
        d = np.linalg.solve(H, g)
        if g @ d < 1e-22:
            break
        t, f = 1., value(w)
        while value(w - t * d) > f - 1e-4 * t * (g @ d) and t > 1e-9:
            t /= 2
        w = w - t * d
    p = expit(A @ w)
    return w, (A.T * (p * (1 - p))) @ A + info * np.eye(len(w)), value(w)


def weights_predictive(A, y, info, T, tol):
    """ :return: probabilities, latent means, latent deviations, how much the solver's tolerance may move the probabilities """
    w, H, f = weights_posterior(A, y, info)
    solved = np.linalg.solve(H, T.T).T
    var = np.maximum((T * solved).sum(axis=1), 0)
    mu = T @ w
    z = mu / np.sqrt(var + FACTOR)
    slack = tol * np.abs(solved).sum(axis=1) / np.sqrt(var + FACTOR)
    # variance changes through the third derivatives: relative change of the curvatures is at most the change of the margins
    margins = tol * np.abs(np.linalg.solve(H, A.T)).sum(axis=0)
    slack = slack + 0.5 * np.abs(z) * margins.max(initial=0) + np.sqrt(2 * 1e-14 * (1 + f))
    return ndtr(z), mu, np.sqrt(var), slack


def values_predictive(K, y, Ks, diag, std):
    """ Gaussian process classification with prior covariance std^2 K """
    K, Ks, diag = K * std ** 2, Ks * std ** 2, diag * std ** 2
    n = len(K)
    s = (y == 1).astype(float)
    sign = 2 * s - 1
    a, f = np.zeros(n), np.zeros(n)

    def objective(a, f):
        return -0.5 * a @ f - np.logaddexp(0, -sign * f).sum()

    for _ in range(1000):
        p = expit(f)
        W = p * (1 - p)
        r = np.sqrt(W)
        B = np.eye(n) + r[:, None] * K * r
        b = W * f + (s - p)
        step = b - r * np.linalg.solve(B, r * (K @ b)) - a
        t, now = 1., objective(a, f)
        while t > 1e-7 and objective(a + t * step, K @ (a + t * step)) < now - 1e-13 * abs(now):
            t /= 2
        a = a + t * step
        new = K @ a
        moved, f = np.abs(new - f).max(), new
        if moved < 1e-11:
            break
    p = expit(f)
    r = np.sqrt(p * (1 - p))
    B = np.eye(n) + r[:, None] * K * r
    V = Ks * r
    var = np.maximum(diag - (V * np.linalg.solve(B, V.T).T).sum(axis=1), 0)
    mu = Ks @ (s - p)
    return ndtr(mu / np.sqrt(var + FACTOR)), mu, np.sqrt(var)


def problem(rng, d, n, scale, noisy=True):
    X = rng.randn(n, d) * scale * rng.uniform(0.3, 1.5, size=d)
    if rng.rand() < 0.2:
        X += rng.randn(d) * scale
    if rng.rand() < 0.1:
        X[:, rng.randint(d)] = rng.randint(0, 2, size=n) * scale
    y = (X @ rng.randn(d) + (0.7 * scale * rng.randn(n) if noisy else 0) + 0.3 * scale * rng.randn() > 0).astype(float)
    if rng.rand() < 0.1:
        y[:] = rng.randint(2)
    return X, y


def no_minimizer(A, y):
    """ whether a separator (even a weak one) exists, so that the loss has no finite minimizer """
    from scipy.optimize import linprog
    S = A * np.where(y == 1, 1., -1.)[:, None]
    S = S / np.maximum(np.abs(S).max(), 1e-300)
    res = linprog(-S.sum(axis=0), A_ub=-S, b_ub=np.zeros(len(S)), bounds=[(-1, 1)] * A.shape[1])
    return res.status != 0 or -res.fun > 1e-6 or np.linalg.matrix_rank(S) < A.shape[1]


def compare(ctx, model, T, want, mu, slack, what):
    T0 = T.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = np.asarray(model.predict_proba(T))
        labels = np.asarray(model.predict(T))
    ctx.check(np.array_equal(T, T0), '{}: predicting changed the points', what)
    ctx.check(got.shape == (len(T),) and np.isfinite(got).all() and (got >= 0).all() and (got <= 1).all(), '{}: {} are not probabilities', what, got)
    off = np.abs(got - want)
    worst = int(np.argmax(off - slack))
    ctx.check((off <= slack).all(), '{}: probability {} of point {} instead of {} (slack {})', what, got[worst], T[worst], want[worst], slack[worst])
    ctx.check(set(np.unique(labels)) <= {0., 1.} and np.array_equal(labels, (got > 0.5).astype(float)), '{}: labels {} do not match probabilities {}', what, labels, got)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        alone(ctx, model, T, labels, got, what)
    sure = np.abs(want - 0.5) > slack
    ctx.check(((mu > 0) == (labels == 1))[sure].all(), '{}: labels are not on the side of the mode', what)
    ctx.event('probabilities', len(T))
    ctx.event('sides', int(sure.sum()))
    ctx.event('tight_probabilities', int((slack < 1e-4).sum()))
    return got


def describe(**kw):
    return ' '.join('{}={:.3g}'.format(k, v) if isinstance(v, float) else '{}={}'.format(k, v) for k, v in kw.items())


def train(ctx, model, X, y, style, what):
    before = gen.snapshot(X, y)
    if style == 'fit':
        model.fit(X, y)
    else:
        data = PartitionedDataset(np.r_[X, X[:2] + 1], copy=True)
        data.move_to_labeled(LabeledSet(y, index=np.arange(len(X))))
        model.fit_data(data)
        got = data.training_set()
        ctx.check(np.array_equal(got[0], X) and np.array_equal(got[1], y), '{}: training changed the data set', what)
    ctx.check(gen.unchanged((X, y), before), '{}: training changed its data', what)


def untrained(ctx, model, T, what):
    """ a model without posterior gives no probabilities """
    try:
        out = model.predict_proba(T)
    except Exception:
        ctx.event('forgotten')
        return
    ctx.fail('{}: probabilities {} without training', what, out)


@workload(quick=700, thorough=9000, cpu=60)
def linear(ctx, rng):
    with_pystan()
    from aideme.active_learning.version_space.bayesian import BayesianLinearVersionSpace
    from aideme.active_learning.version_space.bayesian.laplace import LaplaceBayesianLogisticRegression
    d, n = int(rng.randint(1, 7)), int(rng.randint(2, 80))
    scale, std = float(10. ** rng.uniform(-2, 2)), float(10. ** rng.uniform(-2, 2))
    intercept, prior = bool(rng.rand() < 0.5), ['gaussian', 'gaussian', 'improper'][rng.randint(3)]
    tol = [1e-6, 1e-6, 1e-8, 1e-4][rng.randint(4)]
    wrapped = rng.rand() < 0.7
    if prior == 'improper':
        n = int(rng.randint(10 * d, 120))
    cls = BayesianLinearVersionSpace if wrapped else LaplaceBayesianLogisticRegression
    options = dict(prior=prior, prior_std=std, add_intercept=intercept, tol=tol)
    model = cls(**options)
    what = describe(model=cls.__name__, d=d, n=n, scale=scale, **options)
    info = 0. if prior == 'improper' else 1 / std ** 2
    A = lambda Z: np.c_[np.ones(len(Z)), Z] if intercept else Z
    untrained(ctx, model, rng.randn(3, d), what)
    rounds = int(rng.randint(1, 4))
    for r in range(rounds):
        X, y = problem(rng, d, n, scale)
        if prior == 'improper' and (no_minimizer(A(X), y)):
            if r == 0:
                raise Skip()
            break
        train(ctx, model, X, y, 'fit' if not wrapped or rng.rand() < 0.6 else 'data', what)
        T = np.r_[X[:5], rng.randn(20, d) * scale * rng.choice([0.5, 2, 10]), np.zeros((1, d))]
        want, mu, sd, slack = weights_predictive(A(X), y, info, A(T), tol)
        slack = 1e-7 + 3 * slack
        got = compare(ctx, model, T, want, mu, slack, what)
        if wrapped:
            ctx.check(np.allclose(model.rank(T), np.abs(got - 0.5), atol=1e-12), '{}: rank is not the distance of probabilities to one half', what)
        ctx.event('linear_' + prior + ('_intercept' if intercept else ''))
        if rng.rand() < 0.4:
            model.clear()
            untrained(ctx, model, T, what)
            d = int(rng.randint(1, 7))
            if prior == 'improper':
                n = max(n, 10 * d)
            ctx.event('cleared')
        else:
            ctx.event('retrained')
    ctx.case(True, what)


def kernel_of(rng, d, scale):
    """ :return: name, options of the learner, function """
    name = ['rbf', 'rbf', 'gaussian', 'linear', 'poly', 'poly'][rng.randint(6)]
    options = {}
    if name in ('rbf', 'gaussian'):
        if rng.rand() < 0.7:
            options['gamma'] = float(10. ** rng.uniform(-1, 1) / scale ** 2)
        gamma = options.get('gamma')
        return name, options, lambda A, B: rbf_kernel(A, B, gamma=gamma)
    if name == 'linear':
        return name, options, linear_kernel
    if rng.rand() < 0.7:
        options['gamma'] = float(rng.uniform(0.2, 1) / scale ** 2)
    if rng.rand() < 0.7:
        options['degree'] = int(rng.randint(1, 4))
    if rng.rand() < 0.7:
        options['coef0'] = float(rng.choice([0, 0.5, 1.]))
    full = {'gamma': None, 'degree': 3, 'coef0': 0., **options}
    return name, options, lambda A, B: polynomial_kernel(A, B, **full)


@workload(quick=500, thorough=6000, cpu=60)
def kernels(ctx, rng):
    with_pystan()
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace
    from aideme.active_learning.version_space.bayesian.laplace import KernelLaplaceBayesianLogisticRegression
    d, n = int(rng.randint(1, 6)), int(rng.randint(2, 40))
    scale, std = float(10. ** rng.uniform(-0.5, 0.5)), float(10. ** rng.uniform(-2, 1))
    name, kopts, kernel = kernel_of(rng, d, scale)
    model = BayesianKernelVersionSpace(sampler='kernel-laplace', prior_std=std, kernel=name, **kopts)
    what = describe(model='kernel-laplace', kernel=name, d=d, n=n, scale=scale, std=std, **kopts)
    untrained(ctx, model, rng.randn(3, d), what)
    for r in range(int(rng.randint(1, 4))):
        X, y = problem(rng, d, n, scale)
        T = np.r_[X[:5], rng.randn(20, d) * scale * rng.choice([0.5, 2, 5]), np.zeros((1, d))]
        K, Ks, diag = kernel(X, X), kernel(T, X), np.array([kernel(t[None], t[None])[0, 0] for t in T])
        if np.abs(K).max() * std ** 2 > 1e5:
            break
        train(ctx, model, X, y, 'fit' if rng.rand() < 0.6 else 'data', what)
        want, mu, sd = values_predictive(K, y, Ks, diag, std)
        # small gradients leave much freedom where the kernel matrix has small eigenvalues and the prior is wide
        size = np.maximum(diag, np.abs(K).max())
        slack = 1e-4 + 5e-3 * np.minimum(5., std ** 2 * size * 0.02) + np.minimum(2e-2, 2e-4 * std ** 2 * np.sqrt(size))
        got = compare(ctx, model, T, want, mu, slack, what)
        ctx.check(np.allclose(model.rank(T), np.abs(got - 0.5), atol=1e-12), '{}: rank is not the distance of probabilities to one half', what)
        ctx.event('kernel_' + {'gaussian': 'rbf'}.get(name, name))

        # the same model given kernel matrices
        direct = KernelLaplaceBayesianLogisticRegression(prior_std=std)
        given, labels = K.copy(), y.copy()
        direct.fit(given, labels)
        ctx.check(np.array_equal(given, K) and np.array_equal(labels, y), '{}: training on a kernel matrix changed it', what)
        if name in ('rbf', 'gaussian'):
            compare(ctx, direct, Ks, want, mu, slack, what + ' (matrix)')
            ctx.event('matrices')
        if rng.rand() < 0.4:
            model.clear()
            untrained(ctx, model, T, what)
            d = int(rng.randint(1, 6))
            ctx.event('cleared')
        else:
            n = int(rng.randint(2, 40))
            ctx.event('retrained')
    else:
        ctx.case(True, what)
        return
    ctx.case(r > 0, what)


@workload(quick=250, thorough=3000, cpu=60)
def kernel_features(ctx, rng):
    """ linear model over the columns of the kernel matrix """
    with_pystan()
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace
    d, n = int(rng.randint(1, 5)), int(rng.randint(2, 30))
    scale, std = float(10. ** rng.uniform(-0.5, 0.5)), float(10. ** rng.uniform(-1.5, 1))
    name, kopts, kernel = kernel_of(rng, d, scale)
    intercept = bool(rng.rand() < 0.5)
    model = BayesianKernelVersionSpace(sampler='laplace', prior='gaussian', prior_std=std, add_intercept=intercept, kernel=name, **kopts)
    what = describe(model='laplace', kernel=name, d=d, n=n, scale=scale, std=std, intercept=intercept, **kopts)
    A = lambda Z: np.c_[np.ones(len(Z)), Z] if intercept else Z
    X, y = problem(rng, d, n, scale)
    T = np.r_[X[:5], rng.randn(20, d) * scale * rng.choice([0.5, 2]), np.zeros((1, d))]
    K, Ks = kernel(X, X), kernel(T, X)
    if np.abs(K).max() > 1e3:
        raise Skip()
    train(ctx, model, X, y, 'fit', what)
    want, mu, sd, slack = weights_predictive(A(K), y, 1 / std ** 2, A(Ks), 1e-6)
    compare(ctx, model, T, want, mu, 1e-7 + 3 * slack, what)
    ctx.event('feature_models')
    ctx.case(True, what)


@workload(quick=200, thorough=2000, cpu=60)
def separable(ctx, rng):
    """ improper prior on separable data: there is no mode, but whatever is found must separate and give probabilities """
    with_pystan()
    from aideme.active_learning.version_space.bayesian import BayesianLinearVersionSpace
    d, n = int(rng.randint(1, 5)), int(rng.randint(2, 30))
    w = rng.randn(d)
    X = rng.randn(n, d)
    intercept = bool(rng.rand() < 0.5)
    margins = X @ w + (rng.randn() if intercept else 0)
    keep = np.abs(margins) > 0.3
    X, y = X[keep], (margins > 0).astype(float)[keep]
    if len(X) < 2:
        raise Skip()
    model = BayesianLinearVersionSpace(add_intercept=intercept)
    what = describe(model='improper', d=d, n=len(X), intercept=intercept)
    train(ctx, model, X, y, 'fit', what)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = model.predict_proba(np.r_[X, rng.randn(20, d) * 3])
    ctx.check(np.isfinite(p).all() and (p >= 0).all() and (p <= 1).all(), '{}: {} are not probabilities', what, p)
    ctx.check(np.array_equal(model.predict(X), y), '{}: the model does not separate separable data', what)
    ctx.event('separated')
    ctx.case(True, what)


@workload(quick=30, thorough=200, cpu=30)
def options(ctx, rng):
    with_pystan()
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
    from aideme.active_learning.version_space.bayesian.laplace import LaplaceBayesianLogisticRegression
    bad = ['', 'mcmc', 'laplac', 'kernel'][rng.randint(4)]
    ctx.raises(ValueError, lambda: BayesianLinearVersionSpace(sampler=bad), 'sampler {!r}'.format(bad))
    ctx.raises(ValueError, lambda: BayesianKernelVersionSpace(sampler=bad), 'sampler {!r}'.format(bad))
    ctx.raises(ValueError, lambda: BayesianLinearVersionSpace(sampler='kernel-laplace'), 'kernel sampler of a linear model')
    ctx.raises(ValueError, lambda: LaplaceBayesianLogisticRegression(prior=bad), 'prior {!r}'.format(bad))
    # more data than iterations: the failure is reported
    X, y = rng.randn(60, 5), (rng.rand(60) < 0.5).astype(float)
    ctx.raises(RuntimeError, lambda: LaplaceBayesianLogisticRegression(max_iter=1, tol=1e-12).fit(X, y), 'a solver stopped early')
    ctx.case(True, bad)
