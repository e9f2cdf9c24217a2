"""
C19: version space samples against all labels they were drawn for: the sampler itself, the Bayesian logistic regressions built on it, and the
version space learners, over growing training sets.
"""
import numpy as np

from aideme.active_learning import KernelVersionSpace, LinearVersionSpace
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.kernel import KernelBayesianLogisticRegression
from aideme.active_learning.version_space.linear import DeterministicLogisticRegression
from harness.core import Skip, workload
from harness import learners as L

RULE = ('A case is one history of training sets; non-trivial when some training set has both labels; signature: options, dimensions, sizes, '
        'and the growth history.')
REQUIRED = {'clears': 160, 'cold_fits': 210, 'decomposed': 550, 'dimension_growths': 460, 'dimension_jumps': 210, 'early_stops': 1600, 'fractional_probabilities': 11000, 'kernel_rows': 2800, 'kernel_training_points': 6700, 'margins': 240000, 'one_dimensional': 33, 'probabilities': 67000, 'recounted': 580, 'samples': 26000, 'single_class': 440, 'training_points': 13000, 'warm_fits': 1800}
ASSUMPTIONS = ['training sets are separable (with kernels: positive definite kernel matrices, using jitter)', 'learners are cleared before unrelated training sets']


def separable(rng, n, d, intercept):
    """ points separable by a random hyperplane with a gap """
    # units of the data do not matter (next to an intercept they do: rows of ones)
    scale = 10. ** (rng.uniform(-5, 8) if intercept else rng.uniform(-12, 12)) if rng.rand() < 0.5 else 1.
    kind = rng.randint(4)
    X = rng.normal(size=(6 * n + 10, d))
    if kind == 1:
        X = rng.uniform(0, 1, size=X.shape)
    elif kind == 2:
        X *= 10. ** rng.uniform(-1.5, 1.5, size=(1, d))
    elif kind == 3:
        X = rng.randint(-3, 4, size=X.shape).astype(float)
    w = rng.normal(size=d)
    b = -np.median(X @ w) * rng.uniform(0, 1.5) if intercept else 0.
    m = X @ w + b
    keep = np.abs(m) > 0.02 * np.median(np.abs(m)) + 1e-9
    X, m = X[keep][:n], m[keep][:n]
    if len(X) < 2:
        raise Skip()
    return X * scale, (m > 0).astype(float)


def sampler_options(rng):
    p = L.vs_params(rng, kernel=False)
    for k in ('n_samples', 'add_intercept'):
        p.pop(k)
    if 'rounding_options' in p and rng.rand() < 0.3:
        p['rounding_options']['max_iter'] = int(rng.choice([1, 3, 20]))
    return p


def judge(ctx, samples, X, y, n_samples, what, opts):
    """ samples against all training points """
    samples = np.asarray(samples)
    ctx.check(samples.shape == (n_samples, X.shape[1]), '{}: samples of shape {} instead of {}', opts, samples.shape, (n_samples, X.shape[1]))
    ctx.check(np.isfinite(samples).all(), '{} ({}): sample is not finite', what, opts)
    norms = np.linalg.norm(samples, axis=1)
    ctx.check(norms.max() <= 1 + 1e-9, '{} ({}): sample of norm {!r} outside the unit ball', what, opts, norms.max())
    M = (samples @ X.T) * np.where(y == 1, 1, -1)
    tol = 1e-13 * norms[:, None] * np.linalg.norm(X, axis=1)[None, :]
    bad = np.argwhere(M < -tol) if len(X) else []
    if len(bad):
        i, j = bad[0]
        ctx.fail('{} ({}): sample {} gives label {} point {} a margin of {!r} on the wrong side', what, opts, samples[i].tolist(), y[j], X[j].tolist(), M[i, j])
    zero = np.argwhere(M == 0)
    ctx.check(not len(zero) or np.all(tol[M == 0] > 0) and len(zero) < 2, '{} ({}): sample on the border of the version space', what, opts)
    ctx.event('samples', len(samples))
    ctx.event('margins', M.size)


def growth(rng, n):
    """ increasing training set sizes """
    sizes, m = [], rng.randint(1, 5)
    step = rng.choice([1, 1, 2, 5])
    while m <= n:
        sizes.append(int(m))
        m += step if rng.rand() < 0.8 else rng.randint(0, 4)
        if len(sizes) > 14:
            break
    return sizes


@workload(quick=500, thorough=8000)
def sampler(ctx, rng):
    d = rng.randint(1, 7)
    X, y = separable(rng, rng.randint(2, 40), d, False)
    yl = y if rng.rand() < 0.6 else np.where(y == 1, 1, -1) * 1.
    opts = sampler_options(rng)
    hr = HitAndRunSampler(**opts)
    hist = []
    for t, m in enumerate(growth(rng, len(X))):
        order = rng.permutation(m) if rng.rand() < 0.2 else np.arange(m)
        if rng.rand() < 0.08:
            hr.clear()
            X2, y2 = separable(rng, 10, rng.randint(1, 7), False)
            k = rng.randint(1, 6)
            judge(ctx, hr.sample(X2, y2, k), X2, y2, k, 'after clearing', opts)
            hr.clear()
            ctx.event('clears')
            hist.append('c')
        Xm, ym = X[order], yl[order]
        Xc, yc = Xm.copy(), ym.copy()
        k = int(rng.choice([1, 2, 5, 20]))
        S = hr.sample(Xm, ym, k)
        ctx.same(Xm, Xc, 'sampling modified the data')
        ctx.same(ym, yc, 'sampling modified the labels')
        judge(ctx, S, Xc, yc, k, 'training set {}'.format(t), opts)
        if not opts['cache_samples']:
            S[:] = np.nan  # samples which are not shared belong to the caller
        ctx.event('warm_fits' if t else 'cold_fits')
        hist.append(m)
        if len(set(yc)) == 1:
            ctx.event('single_class')
    if d == 1:
        ctx.event('one_dimensional')
    ctx.case(sorted(opts.items(), key=str), d, hist)
    ctx.sample(options=opts, dimension=d, sizes=hist)


@workload(quick=900, thorough=12000)
def lattices(ctx, rng):
    """ rounding which stops early over integer data: the center of the ellipsoid may lie on borders of the version space, up to rounding errors """
    d = rng.randint(1, 5)
    n = rng.randint(2, 14)
    w = rng.randint(-3, 4, size=d)
    X = rng.randint(-3, 4, size=(5 * n, d)).astype(float)
    if d > 1 and rng.rand() < 0.6:  # a pair of orthogonal rows
        g, h = np.zeros(d), np.zeros(d)
        g[:2] = rng.randint(1, 8, size=2)
        h[:2] = [-g[1], g[0]]
        w = w - 4 * g - h
        X = np.vstack([g * rng.choice([-1, 1]), h * rng.choice([-1, 1]), X])
    X = X[X @ w != 0][:n] * rng.choice([1., 0.5, 0.1, 1e-9])
    if not len(X):
        raise Skip()
    y = (X @ w > 0).astype(float)
    opts = sampler_options(rng)
    opts.update(rounding=True)
    opts['rounding_options'] = dict(opts.get('rounding_options') or {}, max_iter=int(rng.choice([1, 2, 3, 5])))
    hr = HitAndRunSampler(**opts)
    for m in growth(rng, len(X)):
        k = int(rng.choice([1, 3]))
        judge(ctx, hr.sample(X[:m], y[:m], k), X[:m], y[:m], k, 'integer data', opts)
        ctx.event('early_stops')
    ctx.case('lattice', n, d, opts['rounding_options']['max_iter'])


@workload(quick=200, thorough=3000)
def growing_dimension(ctx, rng):
    """ rows get more components with every training set, by one or more, as with decomposed kernel matrices """
    opts = sampler_options(rng)
    hr = HitAndRunSampler(**opts)
    n = rng.randint(3, 14)
    B = np.tril(rng.normal(size=(n, n)) * rng.uniform(0.05, 1))
    B[np.diag_indices(n)] = rng.uniform(0.2, 1.5, size=n)
    y = (rng.rand(n) < 0.5).astype(float)
    m, hist = 1, []
    while m <= n:
        extra = rng.randint(0, 2)
        X = np.c_[B[:m, :m], np.zeros((m, 1))][:, :m + extra]
        k = rng.randint(1, 9)
        judge(ctx, hr.sample(X, y[:m], k), X, y[:m], k, 'dimension {}'.format(X.shape[1]), opts)
        hist.append(X.shape[1])
        m += int(rng.choice([0, 1, 1, 1, 2]))
    ctx.event('dimension_growths', sum(a < b for a, b in zip(hist, hist[1:])))
    ctx.event('dimension_jumps', sum(a != b and a + 1 != b for a, b in zip(hist, hist[1:])))
    ctx.case(sorted(opts.items(), key=str), hist)


def probabilities(ctx, model, Z, n_samples, opts, S=None, X=None):
    p = np.asarray(model.predict_proba(Z))
    lab = np.asarray(model.predict(Z))
    ctx.check(p.shape == (len(Z),) and lab.shape == (len(Z),), '{}: shapes {} and {}', opts, p.shape, lab.shape)
    k = p * n_samples
    ctx.check(np.all(np.abs(k - np.round(k)) < 1e-9) and np.all((p >= 0) & (p <= 1)), '{}: probabilities {} are not means over {} samples', opts, p[:5], n_samples)
    ctx.same(lab, (p > 0.5) * 1., '{}: labels against probabilities', opts)
    ctx.event('probabilities', len(p))
    ctx.event('fractional_probabilities', int(((p > 0) & (p < 1)).sum()))
    return p, lab


@workload(quick=300, thorough=5000)
def linear(ctx, rng):
    p = L.vs_params(rng, kernel=False)
    p['n_samples'] = int(rng.choice([1, 3, 8, 16])) if rng.rand() < 0.92 else int(rng.randint(51, 160))
    d = rng.randint(1, 6)
    X, y = separable(rng, rng.randint(2, 40), d, p['add_intercept'])
    direct = rng.rand() < 0.5
    model = DeterministicLogisticRegression(**p) if direct else LinearVersionSpace(**p)
    hist = []
    for m in growth(rng, len(X)):
        if rng.rand() < 0.1:
            model.clear()
            hist.append('c')
        Xm = X[:m].copy()
        model.fit(Xm, y[:m].copy())
        ctx.same(Xm, X[:m], 'training modified the data')
        proba, lab = probabilities(ctx, model, X[:m], p['n_samples'], p)
        # margins of samples at training points may be zero up to rounding errors
        ctx.check(np.all(proba == y[:m]), '{}: training points of label {} have probability {}', p, y[:m][proba != y[:m]][:3], proba[proba != y[:m]][:3])
        ctx.event('training_points', m)
        if direct:
            bias, weight = np.broadcast_to(model.bias, (p['n_samples'], 1)), np.asarray(model.weight)
            judge(ctx, np.hstack([bias, weight]), np.c_[np.ones(m), X[:m]], y[:m], p['n_samples'], 'weights and bias', p)
            if not p['add_intercept']:
                ctx.check(np.all(bias == 0), 'bias without intercept')
        Z = rng.normal(size=(25, d)) * np.abs(X).max()
        pz, _ = probabilities(ctx, model, Z, p['n_samples'], p)
        if direct:
            margins = bias + weight @ Z.T
            if np.abs(margins).min() > 1e-10:
                ctx.close(pz, (margins > 0).mean(axis=0), '{}: probability against the samples', p)
                ctx.event('recounted')
        hist.append(m)
    ctx.case(sorted(p.items(), key=str), d, hist)


@workload(quick=250, thorough=4000)
def kernel(ctx, rng):
    p = L.vs_params(rng, kernel=True, any_kernel=True)
    p['n_samples'] = int(rng.choice([1, 3, 8, 16])) if rng.rand() < 0.92 else int(rng.randint(51, 160))
    d = rng.randint(1, 5)
    n = rng.randint(3, 26)
    finite = p['kernel'] != 'rbf'
    if finite:
        X, y = separable(rng, n, d, p['add_intercept'])
        X = X / np.abs(X).max()
    else:
        X = np.round(rng.normal(size=(3 * n, d)), 1)
        X = X[np.sort(np.unique(X, axis=0, return_index=True)[1])][:n]
        if len(X) > 2 and d == 1:
            X = X[:8]
        y = (np.sin(X.sum(axis=1) * rng.uniform(0.5, 2)) > 0).astype(float) if rng.rand() < 0.7 else (rng.rand(len(X)) < 0.5).astype(float)
        if not p['decompose'] and not (p['rounding'] and p['rounding_cache']):
            if np.linalg.eigvalsh(np.exp(-(p['gamma'] or 1 / d) * ((X[:, None] - X[None]) ** 2).sum(-1)))[0] < 1e-5:
                raise Skip()  # numerically singular without jitter
        elif rng.rand() < 0.7:
            p['jitter'] = 1e-6
        elif np.linalg.eigvalsh(np.exp(-(p['gamma'] or 1 / d) * ((X[:, None] - X[None]) ** 2).sum(-1)))[0] < 1e-9:
            raise Skip()
    model = KernelVersionSpace(**p)
    hist = []
    for m in growth(rng, len(X)):
        if rng.rand() < 0.1:
            model.clear()
            hist.append('c')
        Xm = X[:m].copy()
        model.fit(Xm, y[:m].copy())
        ctx.same(Xm, X[:m], 'training modified the data')
        proba, lab = probabilities(ctx, model, Xm, p['n_samples'], p)
        bad = proba != y[:m]
        ctx.check(not bad.any(), '{}: training points of label {} have probability {} ({} points)', p, y[:m][bad][:3], proba[bad][:3], m)
        ctx.event('kernel_training_points', m)
        Z = rng.normal(size=(20, d))
        pz, _ = probabilities(ctx, model, Z, p['n_samples'], p)
        clf = model.clf
        ctx.close(np.asarray(clf.predict_all(Z)).mean(axis=0), pz, '{}: mean over the samples', p)
        ctx.check(np.asarray(clf.predict_all(Z)).shape == (p['n_samples'], len(Z)), '{}: one prediction per sample', p)
        hist.append(m)
        if (p['rounding'] and p['rounding_cache']) or p['decompose']:
            ctx.event('decomposed')
    ctx.case(sorted(p.items(), key=str), d, hist)


@workload(quick=300, thorough=4000)
def kernel_classifier(ctx, rng):
    """ the wrapper shows its linear model the (decomposed) kernel matrix of the training set, and of other points against it """
    class Linear:
        def clear(self):
            self.cleared = True

        def fit(self, K, y):
            self.K, self.y = np.array(K), np.array(y)

        def predict_proba(self, K):
            self.seen = np.array(K)
            return np.full(len(K), 0.25)

        def predict(self, K):
            self.seen = np.array(K)
            return np.zeros(len(K))

        def _likelihood(self, K):
            self.seen = np.array(K)
            return np.full((3, len(K)), 0.25)

    lin = Linear()
    gamma, jitter, decompose = [None, 0.5, 2.][rng.randint(3)], float(rng.choice([1e-6, 1e-3, 0.1, 0.1])), bool(rng.rand() < 0.7)
    name, degree, coef0 = ['rbf', 'gaussian', 'linear', 'poly', 'poly'][rng.randint(5)], int(rng.randint(1, 5)), float(rng.choice([0., 0.5, 1.]))
    given = {'kernel': name, 'gamma': gamma, 'degree': degree, 'coef0': coef0}
    if name == 'rbf' and rng.rand() < 0.5:
        del given['kernel']
    if degree == 3 and rng.rand() < 0.5:
        del given['degree']
    if coef0 == 0 and rng.rand() < 0.5:
        del given['coef0']
    model = KernelBayesianLogisticRegression(lin, decompose=decompose, jitter=jitter, **given)

    def k(A, B):
        g = 1 / A.shape[1] if gamma is None else gamma
        if name == 'linear':
            return A @ B.T
        if name == 'poly':
            return (g * (A @ B.T) + coef0) ** degree
        return np.exp(-g * ((A[:, None] - B[None]) ** 2).sum(-1))

    for _ in range(rng.randint(1, 4)):
        n, d = rng.randint(1, 12), rng.randint(1, 4)
        X, Z = rng.normal(size=(n, d)), rng.normal(size=(rng.randint(1, 8), d))
        y = (rng.rand(n) < 0.5) * 1.
        model.fit(X, y)
        ctx.same(lin.y, y, 'labels given to the linear model')
        K = k(X, X)
        own = np.array([k(z[None], z[None])[0, 0] for z in Z])
        scale = max(1, abs(K).max(), own.max())
        if decompose:
            G = K + jitter * np.eye(n)
            if np.linalg.cond(G) > 1e6:
                raise Skip()  # hardly decomposable
            ctx.check(lin.K.shape == (n, n + 1), 'shape of the decomposed kernel matrix {}', lin.K.shape)
            ctx.close(lin.K @ lin.K.T, G, 'training rows have the kernel as inner products', atol=1e-8 * scale)
        else:
            ctx.close(lin.K, K, 'kernel matrix', atol=1e-12 * scale)
        T = lin.K
        for f in (model.predict_proba, model.predict, model.predict_all):
            f(Z)
            if decompose:
                ctx.close(lin.seen @ T.T, k(Z, X), 'rows have the kernel as inner products with the training rows', atol=1e-8 * scale)
                ctx.close((lin.seen ** 2).sum(1), own + jitter, 'squared norms are the diagonal of the kernel', atol=1e-8 * scale)
            else:
                ctx.close(lin.seen, k(Z, X), 'kernel matrix against the training set', atol=1e-12 * scale)
            ctx.event('kernel_rows', len(Z))
    ctx.case(decompose, n, d, gamma, jitter, name, degree, coef0)
