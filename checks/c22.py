"""
C22: kernels, kernel features, margin-enhancing preprocessing and interaction terms against formulas evaluated entry by entry.
"""
import contextlib
import io
import itertools
import math
import re
import warnings

import numpy as np

from aideme.active_learning.aluma import aluma_preprocessing
from aideme.active_learning.factorization.interaction import add_interaction_terms, print_interactions
from aideme.active_learning.kernel import FactorizedKernelTransform, GaussianKernel, IncrementedDiagonalKernel, Kernel, KernelTransformer, LinearKernel, PolynomialKernel
from harness.core import workload
from harness import gen

RULE = 'A case is one kernel, transformer or preprocessing with its data; non-trivial when some matrix was compared; signature: parameters and shapes.'
QUICK = 4  # times the cases of the quick tier
REQUIRED = {'clones': 900, 'columns': 32000, 'entries': 68000, 'expected_errors': 160, 'factorized_transformers': 340, 'feature_matrices': 4400, 'fit_transforms': 1100, 'jittered': 900, 'nystroem_features': 2100, 'printed_pairs': 930, 'rejected': 160, 'terms': 3900}
ASSUMPTIONS = ['kernel features by Nystroem are compared with all subsets of the points they may be based on']


def formula(kind, gamma, degree, coef0, d):
    g = 1. / d if gamma is None else gamma
    if kind == 'linear':
        return lambda a, b: math.fsum(p * q for p, q in zip(a, b))
    if kind == 'rbf':
        return lambda a, b: math.exp(-g * math.fsum((p - q) ** 2 for p, q in zip(a, b)))
    return lambda a, b: (g * math.fsum(p * q for p, q in zip(a, b)) + coef0) ** degree


def gram(k, X, Y):
    return np.array([[k(a, b) for b in Y.tolist()] for a in X.tolist()]).reshape(len(X), len(Y))


def any_kernel(rng, d):
    """ :return: kernel, formula, description """
    kind = ['linear', 'rbf', 'poly'][rng.randint(3)]
    params, how = {}, rng.randint(2)
    if kind != 'linear' and rng.rand() < 0.5:
        params['gamma'] = [None, 0.1, 2., 0.7, 1e-4, 40.][rng.randint(6)]
    if kind == 'poly':
        if rng.rand() < 0.6:
            params['degree'] = int(rng.randint(1, 6))
        if rng.rand() < 0.6:
            params['coef0'] = float(rng.choice([0, 1, 0.3, -0.2]))
    if how:
        name = {'linear': ['linear', 'Linear'], 'rbf': ['rbf', 'gaussian', 'RBF', 'Gaussian'], 'poly': ['poly', 'POLY']}[kind]
        extra = {'degree': 7, 'coef0': 3} if kind != 'poly' and rng.rand() < 0.3 else {}
        kernel = Kernel.get(name[rng.randint(len(name))], **params, **extra)
    else:
        kernel = {'linear': LinearKernel, 'rbf': GaussianKernel, 'poly': PolynomialKernel}[kind](**params)
    return kernel, formula(kind, params.get('gamma'), params.get('degree', 3), params.get('coef0', 1.), d), (kind, sorted(params.items()), how)


def matrix(rng, n, d):
    X = rng.normal(size=(n, d)) * 10. ** rng.uniform(-2, 0.5)
    if n > 2 and rng.rand() < 0.3:
        X[1] = X[0]
    if rng.rand() < 0.2:
        X = np.round(X)
    return np.asfortranarray(X) if rng.rand() < 0.3 else X


@workload(quick=2000, thorough=20000)
def kernels(ctx, rng):
    d = rng.randint(1, 7)
    X, Y = matrix(rng, rng.randint(1, 10), d), matrix(rng, rng.randint(1, 10), d)
    kernel, k, what = any_kernel(rng, d)
    X0, Y0 = X.copy(), Y.copy()
    tol = dict(rtol=1e-7, atol=1e-9 * max(1., np.abs(gram(k, X, X)).max()))
    for how in (kernel, kernel.compute):
        ctx.close(how(X, Y), gram(k, X, Y), '{}: matrix', what, **tol)
        ctx.close(how(X), gram(k, X, X), '{}: matrix of one set', what, **tol)
        ctx.close(how(X, None), gram(k, X, X), '{}: matrix of one set', what, **tol)
    ctx.close(how(X, X), gram(k, X, X), '{}: matrix of the same set twice', what, **tol)
    ctx.close(kernel.diagonal(X), np.diag(gram(k, X, X)), '{}: diagonal', what, **tol)
    ctx.event('entries', X.shape[0] * Y.shape[0] * 3)

    jitter = float(rng.choice([1e-6, 0.1, 3.]))
    inc = IncrementedDiagonalKernel(kernel, jitter)
    eye = jitter * np.eye(len(X))
    ctx.close(inc(X), gram(k, X, X) + eye, '{}: matrix with jitter', what, **tol)
    ctx.close(inc(X, X), gram(k, X, X) + eye, '{}: matrix with jitter', what, **tol)
    ctx.close(inc(X, Y), gram(k, X, Y), '{}: matrix of two sets has no jitter', what, **tol)
    ctx.close(inc.diagonal(X), np.diag(gram(k, X, X)) + jitter, '{}: diagonal with jitter', what, **tol)
    ctx.close(kernel.diagonal(X), np.diag(gram(k, X, X)), '{}: diagonal after jitter', what, **tol)
    ctx.close(inc.diagonal(X), np.diag(gram(k, X, X)) + jitter, '{}: diagonal with jitter, again', what, **tol)
    ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), '{}: data was modified', what)
    ctx.event('jittered')
    ctx.case(what, X.shape, Y.shape)
    ctx.sample(kernel=what, shapes=(X.shape, Y.shape))


@workload(quick=20, thorough=100)
def rejections(ctx, rng):
    bad = [lambda: Kernel.get('cosine'), lambda: Kernel.get(''), lambda: GaussianKernel(0), lambda: GaussianKernel(-1.), lambda: PolynomialKernel(degree=0), lambda: PolynomialKernel(degree=-2),
           lambda: PolynomialKernel(degree=1.5), lambda: PolynomialKernel(gamma=0), lambda: PolynomialKernel(gamma=-0.1), lambda: IncrementedDiagonalKernel(LinearKernel(), 0), lambda: IncrementedDiagonalKernel(LinearKernel(), -1e-9),
           lambda: Kernel.get('rbf', gamma=-1), lambda: Kernel.get('poly', degree=0),
           lambda: aluma_preprocessing(np.eye(2), None, 0, 1, 0.1), lambda: aluma_preprocessing(np.eye(2), None, -1, 1, 0.1), lambda: aluma_preprocessing(np.eye(2), None, 1, -1, 0.1),
           lambda: aluma_preprocessing(np.eye(2), None, 1, 1, -0.1), lambda: aluma_preprocessing(np.eye(2), None, 1, 1, 1.1)]
    for i, f in enumerate(bad):
        ctx.raises((ValueError, TypeError), f, 'invalid parameters {}', i)
    ctx.event('rejected', len(bad))
    ctx.case(ctx.index)


def expected_features(k, base, Z):
    """ inner products of Nystroem features """
    C = gram(k, base, base)
    Q = gram(k, Z, base)
    return Q @ np.linalg.pinv(C, hermitian=True, rcond=1e-12) @ Q.T


@workload(quick=1500, thorough=15000)
def transformers(ctx, rng):
    d = rng.randint(1, 6)
    kind = ['linear', 'rbf', 'poly'][rng.randint(3)]
    name = {'linear': 'linear', 'rbf': ['rbf', 'gaussian'][rng.randint(2)], 'poly': 'poly'}[kind]
    p = {'gamma': [None, 0.5, 0.02, 3.][rng.randint(4)], 'degree': int(rng.randint(1, 4)), 'coef0': float(rng.choice([0, 1]))}
    nystroem = rng.rand() < 0.4
    jitter = 0. if nystroem else float(rng.choice([0, 1e-3, 0.5]))
    parts = None
    if rng.rand() < 0.5:
        parts = [gen.random_subset(rng, range(d), rng.randint(1, d + 1)) for _ in range(rng.randint(1, 4))]
    args = dict(kernel=name, jitter=jitter, **p)
    if nystroem:
        args['nystroem_components'] = int(rng.randint(1, 8))
    base = KernelTransformer.get(**args)
    make = (lambda: FactorizedKernelTransform(base, parts)) if parts is not None else base.clone
    a = make()
    seen = {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')  # more components than points
        others = []
        for step in range(rng.randint(2, 6)):
            t = a
            if rng.rand() < 0.5:
                if not others or rng.rand() < 0.5:
                    others.append((others[-1] if others and rng.rand() < 0.5 else a).clone())
                t = others[rng.randint(len(others))]
            X = rng.normal(size=(rng.randint(1, 7), d))
            fitted, X0 = X, X.copy()
            if rng.rand() < 0.5:
                t.fit(X)
            else:
                T = t.fit_transform(X)
                judge(ctx, t, T, X, X, kind, p, nystroem, jitter, parts, args, fitted_with=True)
                ctx.event('fit_transforms')
            seen[id(t)] = (t, X)
            for t, X in seen.values():
                Z = rng.normal(size=(rng.randint(1, 6), d))
                judge(ctx, t, t.transform(Z), X, Z, kind, p, nystroem, jitter, parts, args)
                if not nystroem:
                    ctx.check(t.n_components == len(X), '{}: {} components for {} points', args, t.n_components, len(X))
                elif len(X) >= args['nystroem_components']:
                    ctx.check(t.n_components == args['nystroem_components'], '{}: {} components', args, t.n_components)
            ctx.same(fitted, X0, 'fitting modified the data')
        ctx.event('clones', len(others))
    ctx.event('factorized_transformers', int(parts is not None))
    ctx.case(sorted(args.items(), key=str), parts, len(seen))


def judge(ctx, t, T, X, Z, kind, p, nystroem, jitter, parts, args, fitted_with=False):
    T = np.asarray(T)
    if parts is None:
        slices = [(T, slice(None))]
        ctx.check(T.ndim == 2 and len(T) == len(Z), '{}: features of shape {} for {} points', args, T.shape, len(Z))
    else:
        ctx.check(T.ndim == 3 and T.shape[2] == len(parts) and len(T) == len(Z), '{}: features of shape {} for {} points and subspaces {}', args, T.shape, len(Z), parts)
        slices = [(T[:, :, j], s) for j, s in enumerate(parts)]
    for F, s in slices:
        A, B = X[:, s], Z[:, s]
        k = formula(kind, p['gamma'], p['degree'], p['coef0'], A.shape[1])
        if not nystroem:
            want = gram(k, B, A)
            if fitted_with:
                want = want + jitter * np.eye(len(B))
            ctx.close(F, want, '{}: features of subspace {} of {}', args, s, parts, rtol=1e-7, atol=1e-8)
            ctx.event('feature_matrices')
            continue
        m = min(args['nystroem_components'], len(A))
        ctx.check(F.shape == (len(B), m), '{}: {} features instead of {}', args, F.shape, m)
        K = gram(k, A, A)
        if np.linalg.cond(K) > 1e6 and m > 1 or np.linalg.svd(K, compute_uv=False).min() < 1e-6:
            continue
        G = F @ F.T
        ok = any(np.allclose(G, expected_features(k, A[list(c)], B), rtol=1e-4, atol=1e-4 * max(1, np.abs(G).max())) for c in itertools.combinations(range(len(A)), m))
        ctx.check(ok, '{}: inner products {} do not follow from the kernel on {} points', args, G.tolist(), m)
        ctx.event('nystroem_features')


@workload(quick=200, thorough=2000)
def aluma(ctx, rng):
    n, d = rng.randint(1, 5), rng.randint(1, 5)
    X = rng.normal(size=(n, d))
    margin, H, delta = rng.uniform(0.5, 1.5), float(rng.choice([0, 0.2, 1, 4])), rng.uniform(0.05, 0.9)
    kernel, k, what = None, None, 'none'
    B = X
    if rng.rand() < 0.5:
        kernel, k, what = any_kernel(rng, d)
        K = gram(k, X, X)
        if np.linalg.eigvalsh(K).min() < 1e-4 * np.abs(K).max():  # no Cholesky factor
            kernel, k, what = GaussianKernel(0.7), formula('rbf', 0.7, 0, 0, d), 'rbf'
            K = gram(k, X, X)
        B = np.linalg.cholesky(K)
    X0 = X.copy()
    seed = int(rng.randint(2 ** 31))
    out = np.asarray(aluma_preprocessing(X, kernel, margin, H, delta, seed=seed))
    ctx.same(X, X0, 'preprocessing modified the data')
    eps = margin / 2 / (1 + math.sqrt(H))
    size = math.ceil(4 * math.log(4 * n / delta) / (eps ** 2 * (1 - eps)))
    ctx.check(out.shape == (n, size), 'shape {} instead of {}', out.shape, (n, size))
    a = 1 / math.sqrt(1 + math.sqrt(H))
    b = math.sqrt(max(0, 1 - a * a))
    signs = np.array(list(itertools.product([-1, 1], repeat=B.shape[1]))).T
    proj = a * B @ signs  # one column for each choice of signs
    R = out[:, :, None] - proj[:, None, :]
    err = np.abs(np.abs(R) - b).max(axis=0)
    best = err.argmin(axis=1)
    ctx.check(err.min(axis=1).max() < 1e-9 * max(1, np.abs(B).max()), 'margin {}, H {}: column {} is no random projection of the data', margin, H, err.min(axis=1).argmax())
    ctx.event('columns', size)
    used = signs[:, best].T
    clear = np.sort(err, axis=1)[:, 1].min() > 1e-7  # otherwise several choices of signs explain a column
    ctx.event('recovered_signs', int(clear))
    if size > 50 and clear:
        ctx.check(len(np.unique(used, axis=0)) > 1, 'all columns use the same signs')
        z = np.abs(used.mean(axis=0)) * np.sqrt(size)
        ctx.check(z.max() < 6.5, 'unbalanced signs ({:.1f} standard deviations)', z.max())
        if b > 0.1:
            extra = np.sign(np.take_along_axis(R, best[None, :, None], axis=2)[:, :, 0])
            z = np.abs(extra.mean()) * np.sqrt(extra.size)
            ctx.check(z < 6.5, 'unbalanced signs of the additional term')
    ctx.same(np.asarray(aluma_preprocessing(X, kernel, margin, H, delta, seed=seed)), out, 'the same seed')
    ctx.same(np.asarray(aluma_preprocessing(X, kernel, margin, H, delta, seed=np.random.RandomState(seed))), out, 'a random state of the same seed')
    ctx.check(not np.array_equal(np.asarray(aluma_preprocessing(X, kernel, margin, H, delta, seed=seed + 1)), out), 'another seed gives the same')
    ctx.case(str(what), n, d, size)


@workload(quick=800, thorough=8000)
def interactions(ctx, rng):
    n, d = rng.randint(1, 8), rng.randint(1, 7)
    if rng.rand() < 0.15:
        d = rng.randint(7, 26)
    X = rng.normal(size=(n, d))
    own = bool(rng.rand() < 0.5)
    X0 = X.copy()
    out = np.asarray(add_interaction_terms(X, own) if rng.rand() < 0.5 else add_interaction_terms(X, self_interacting=own))
    ctx.same(X, X0, 'data was modified')
    cols = [X[:, i] for i in range(d)] + ([X[:, i] ** 2 for i in range(d)] if own else [])
    pairs = [(i, j) for i in range(d) for j in range(i + 1, d)]
    cols += [X[:, i] * X[:, j] for i, j in pairs]
    ctx.close(out, np.array(cols).T, 'interaction terms of {} features, with squares: {}', d, own, rtol=1e-12)
    ctx.event('terms', len(cols))
    if d > 1:
        w = np.where(rng.rand(len(cols)) < 0.5, rng.normal(size=len(cols)), 1e-8)
        tol = float(rng.choice([1e-5, 0.3]))
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            print_interactions(w, own, tol)
        line = text.getvalue().split('Interacting features:')[-1]
        got = [(int(i), int(j)) for i, j in re.findall(r'\((\d+), (\d+)\)', line)]
        want = [p for p, v in zip(pairs, w[-len(pairs):]) if abs(v) > tol]
        ctx.check(got == want, 'interacting features printed: {}, expected {}', got, want)
        ctx.event('printed_pairs', len(want))
    ctx.case(n, d, own)
