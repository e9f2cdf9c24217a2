"""
C23: loss and gradient of factorized models, as handed to a recording optimizer, against the likelihood of the labels computed from per-subspace
margins, its analytic derivative and finite differences; mini-batches are decoded into the points they visited. Run with poisoned memory.
"""
import copy

import numpy as np
from scipy.optimize import OptimizeResult

from aideme.active_learning.factorization.kernel import KernelFactorizationLearner
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import FISTA, ProximalGradientDescent
from aideme.active_learning.factorization.partitioning import FactorizedLinearLearner
from aideme.active_learning.kernel import FactorizedKernelTransform, KernelTransformer
from harness.core import workload
from harness import gen
from checks.c26 import NAMES, PROXIMAL, Spec

RULE = 'A case is one training set with one factorization and penalty; non-trivial when both classes are present; signature: shapes, layout, factorization, penalty, batch size.'
QUICK = 5  # times the cases of the quick tier
REQUIRED = {'decoded_batches': 2300, 'epochs': 1600, 'finite_differences': 3100, 'fixed_subspaces': 530, 'gradients': 3800, 'kernel_learners': 67, 'layout_C': 280, 'layout_F': 260, 'layout_column_slice': 270, 'layout_permuted_axes': 250, 'layout_strided_rows': 270, 'losses': 3800, 'partial_batches': 750, 'partition_gradients': 540, 'proximal': 240, 'saturated': 150, 'three_dimensional': 550}
ASSUMPTIONS = ['labels are contiguous floats, as training sets are; margins are below 300 in absolute value (probabilities are not exactly one)']


class Probe:
    """ optimizer which evaluates what it is given, and stays where it started """
    def __init__(self, batch_size=None):
        self.batch_size = batch_size
        self.starts = []

    def minimize(self, x0, func, grad):
        self.starts.append(np.array(x0))
        self.func, self.grad = func, grad
        return OptimizeResult(x=x0, fun=float(len(self.starts)), success=True)


class ProximalProbe(ProximalGradientDescent):
    def __init__(self, batch_size=None):
        super().__init__(batch_size=batch_size)
        self.starts = []

    minimize = Probe.minimize


def softplus(x):
    return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


def sigmoid(x):
    return np.exp(-softplus(-x))


def margins_of(X, W, b):
    """ W: K x d """
    if X.ndim == 2:
        return np.stack([(X * w).sum(axis=1) for w in W], axis=1) + b
    return np.stack([(X[:, :, k] * w).sum(axis=1) for k, w in enumerate(W)], axis=1) + b


def log_probas(m):
    return -softplus(-m).sum(axis=1)


def nll(m, y):
    lp = log_probas(m)
    with np.errstate(divide='ignore', over='ignore', invalid='ignore'):
        low = np.where(lp < -0.5, np.log1p(-np.exp(lp)), np.log(-np.expm1(lp)))
    return np.where(y > 0, -lp, -low)


def slopes(m, y):
    """ derivative of the loss of each point by each of its margins """
    lp = log_probas(m)
    with np.errstate(divide='ignore', over='ignore'):
        c = np.where(y > 0, -1., 1. / np.expm1(-lp))
    return c[:, None] * sigmoid(-m)


def point_gradients(X, y, W, b):
    """ n x K x (d + 1), bias last """
    s = slopes(margins_of(X, W, b), y)
    Xk = X[:, None, :] if X.ndim == 2 else np.swapaxes(X, 1, 2)
    return np.concatenate([s[:, :, None] * Xk, s[:, :, None]], axis=2)


def layouts(rng, X):
    kind = rng.randint(5)
    if kind == 0:
        return X, 'C'
    if kind == 1:
        return np.asfortranarray(X), 'F'
    if kind == 2:
        big = rng.normal(size=(2 * len(X),) + X.shape[1:])
        big[::2] = X
        return big[::2], 'strided rows'
    if kind == 3:
        big = rng.normal(size=X.shape[:1] + (X.shape[1] + 2,) + X.shape[2:])
        big[:, 1:-1] = X
        return big[:, 1:-1], 'column slice'
    order = rng.permutation(X.ndim)
    return np.ascontiguousarray(X.transpose(order)).transpose(np.argsort(order)), 'permuted axes'


def problem(rng, three=None, n_max=40):
    n, d, K = rng.randint(1, n_max), rng.randint(1, 7), rng.randint(1, 6)
    if rng.rand() < 0.05:
        K = rng.randint(6, 15)
    three = rng.rand() < 0.4 if three is None else three
    X = rng.normal(size=(n, d, K) if three else (n, d)) * 10. ** rng.uniform(-1, 1)
    if rng.rand() < 0.2:
        X[rng.rand(*X.shape) < 0.3] = 0
    X, layout = layouts(rng, X)
    return X, gen.binary_labels(rng, n).astype(float), K, layout


def start_and_mask(rng, K, d, add_bias, X):
    """ weights with distinct values, and the attributes of each subspace (or None) """
    W = rng.normal(size=(K, d + add_bias)) * 10. ** rng.uniform(-1, 0.3)
    subspaces = None
    if rng.rand() < 0.4:
        subspaces = [sorted(rng.permutation(d)[:rng.randint(1, d + 1)].tolist()) for _ in range(K)]
        if rng.rand() < 0.3:
            subspaces = [rng.permutation(s).tolist() for s in subspaces]
    scale = max(1., np.abs(X).max() * np.abs(W).max() * d / 150.)
    return W / scale, subspaces


def mask_of(subspaces, W, d):
    mask = np.ones(W.shape, dtype=bool)
    if subspaces is not None:
        mask[:, :d] = False
        for i, s in enumerate(subspaces):
            mask[i, s] = True
    return mask


class Coder:
    """ from vectors of the optimizer to weight matrices, by recognising the values of the starting point """
    def __init__(self, ctx, W, mask, start):
        flat = np.asarray(start).ravel()
        self.shape, self.start_shape = W.shape, np.shape(start)
        where = {v: p for p, v in np.ndenumerate(W)}
        ctx.check(sorted(flat.tolist()) == sorted(W[mask].tolist()), 'the optimizer starts from {} instead of the free weights of {}', flat.tolist(), W.tolist())
        self.pos = [where[v] for v in flat.tolist()]

    def matrix(self, v):
        W = np.zeros(self.shape)
        for p, x in zip(self.pos, np.asarray(v).ravel()):
            W[p] = x
        return W

    def vector(self, W):
        return np.array([W[p] for p in self.pos]).reshape(self.start_shape)

    def gradient(self, ctx, g):
        ctx.check(np.shape(g) == self.start_shape, 'gradient of shape {} for weights of shape {}', np.shape(g), self.start_shape)
        return np.asarray(g, dtype=float).ravel()


def split(W, add_bias):
    return (W[:, :-1], W[:, -1]) if add_bias else (W, np.zeros(len(W)))


def check_loss_and_gradient(ctx, rng, where, opt, code, X, y, add_bias, spec, proximal, points):
    for W in points:
        v = code.vector(W)
        v0 = v.copy()
        w, b = split(W, add_bias)
        m = margins_of(X, w, b)
        want = nll(m, y).mean()
        pen = 0. if spec is None else spec.value(w)
        got = opt.func(v)
        ctx.close(got, want + pen, '{}: loss, without penalty {}', where, want, rtol=1e-9, atol=1e-12)
        ctx.event('losses')
        g = code.gradient(ctx, opt.grad(v))
        full = point_gradients(X, y, w, b).mean(axis=0)
        if not add_bias:
            full = full[:, :-1]
        if spec is not None and not proximal:
            full = full.copy()
            full[:, :w.shape[1]] += np.broadcast_to(np.asarray(spec.pen.grad(w), dtype=float), w.shape)
        want_g = np.array([full[p] for p in code.pos])
        scale = max(np.abs(full).max(), 1e-12)
        ctx.close(g, want_g, '{}: gradient, entries {}', where, code.pos, rtol=1e-8, atol=1e-10 * scale)
        ctx.event('gradients')
        ctx.event('saturated', int((np.abs(m) > 36).any()))
        ctx.check(np.array_equal(v, v0), '{}: weights modified by evaluating loss and gradient', where)
        # finite differences
        if spec is None or proximal or spec.kinks(w) > 1e-2 and spec.name != 'Huber':
            e = rng.normal(size=v.shape)
            e /= np.linalg.norm(e)
            h = 1e-5 / max(1., np.abs(X).max())
            base = pen_only(spec, code, add_bias) if proximal and spec is not None else lambda u: 0.
            # the penalty is not smooth for proximal optimizers, whose gradients do not include it
            num = ((opt.func(v + h * e) - base(v + h * e)) - (opt.func(v - h * e) - base(v - h * e))) / (2 * h)
            noise = 1e-15 * (abs(got) + 1) / h
            ctx.close((g * e.ravel()).sum(), num, '{}: derivative along {}', where, e.tolist(), rtol=1e-4, atol=1e-6 * scale + 100 * noise)
            ctx.event('finite_differences')


def pen_only(spec, code, add_bias):
    return lambda u: spec.value(split(code.matrix(u), add_bias)[0])


def make_penalty(rng, d, proximal):
    if not proximal and rng.rand() < 0.35:
        return None
    return Spec(rng, d, PROXIMAL if proximal else NAMES)


@workload(quick=3000, thorough=30000)
def full_batch(ctx, rng):
    X, y, K, layout = problem(rng)
    d, add_bias = X.shape[1], bool(rng.rand() < 0.7)
    W, subspaces = start_and_mask(rng, K, d, add_bias, X)
    proximal = subspaces is None and rng.rand() < 0.3
    spec = make_penalty(rng, d, proximal)
    reference = copy.deepcopy(spec)
    opt = (ProximalProbe if proximal else Probe)(None if rng.rand() < 0.7 else int(len(X) + rng.randint(3)))
    learner = LinearFactorizationLearner(opt, None if spec is None else spec.pen, add_bias=add_bias)
    if spec is not None and spec.groups is not None and rng.rand() < 0.3:
        learner.feature_groups = spec.groups
        ctx.check(learner.feature_groups == spec.groups, 'feature groups {} after setting {}', learner.feature_groups, spec.groups)
    snap = gen.snapshot(X, y, W)
    learner.fit(X, y, K if subspaces is None else subspaces, x0=W)
    where = '{} points ({}), {} subspaces {}, bias {}, penalty {}'.format(X.shape, layout, K, subspaces, add_bias, reference)
    mask = mask_of(subspaces, W, d)
    code = Coder(ctx, W, mask, opt.starts[0])
    ctx.check(len(opt.starts) == 1, '{}: {} optimizations', where, len(opt.starts))
    points = [np.where(mask, W, 0), np.where(mask, W * rng.uniform(-1, 1, size=W.shape), 0), np.where(mask & (rng.rand(*W.shape) < 0.6), W, 0)]
    check_loss_and_gradient(ctx, rng, where, opt, code, X, y, add_bias, reference, proximal, points[:3 if spec is None or spec.kinks(points[2][:, :d]) > 0 else 2])
    ctx.check(gen.unchanged((X, y, W), snap), '{}: arguments were modified', where)
    ctx.event('layout_' + layout.replace(' ', '_'))
    ctx.event('three_dimensional', int(X.ndim == 3))
    ctx.event('fixed_subspaces', int(subspaces is not None))
    ctx.event('proximal', int(proximal))
    if 0 < y.sum() < len(y):
        ctx.case(X.shape, layout, str(subspaces), repr(reference), add_bias)
    ctx.sample(shape=X.shape, layout=layout, subspaces=subspaces, penalty=reference)


@workload(quick=400, thorough=6000)
def saturated(ctx, rng):
    """ margins around and beyond those where 1 - p or p round to zero or one """
    n, d, K = rng.randint(1, 12), rng.randint(1, 4), rng.randint(1, 4)
    X = rng.normal(size=(n, d))
    X *= (10. ** rng.uniform(0, 2.3, size=(n, 1))) / np.abs(X).sum(axis=1, keepdims=True)
    W = rng.uniform(-1, 1, size=(K, d + 1))
    if rng.rand() < 0.5:
        W[:, :d] = np.abs(W[:, :d])
        X = np.abs(X) * rng.choice([-1, 1])
    y = gen.binary_labels(rng, n).astype(float)
    opt = Probe()
    LinearFactorizationLearner(opt).fit(X, y, K, x0=W)
    where = 'saturated margins, {} points, {} subspaces'.format(X.shape, K)
    check_loss_and_gradient(ctx, rng, where, opt, Coder(ctx, W, np.ones(W.shape, dtype=bool), opt.starts[0]), X, y, True, None, False, [W])
    ctx.case(X.shape, K, float(X.flat[0]))


@workload(quick=1200, thorough=12000)
def batches(ctx, rng):
    """ gradients of mini-batches are averages over disjoint sets of points, which make up an epoch """
    X, y, K, layout = problem(rng, n_max=14)
    n, d = len(X), X.shape[1]
    add_bias = bool(rng.rand() < 0.7)
    W, subspaces = start_and_mask(rng, K, d, add_bias, X)
    proximal = subspaces is None and rng.rand() < 0.3
    spec = make_penalty(rng, d, proximal)
    reference = copy.deepcopy(spec)
    b = rng.randint(1, n + 1)
    opt = (ProximalProbe if proximal else Probe)(b)
    learner = LinearFactorizationLearner(opt, None if spec is None else spec.pen, add_bias=add_bias)
    learner.fit(X, y, K if subspaces is None else subspaces, x0=W)
    mask = mask_of(subspaces, W, d)
    code = Coder(ctx, W, mask, opt.starts[0])
    where = '{} points ({}), batches of {}, {} subspaces {}, penalty {}'.format(X.shape, layout, b, K, subspaces, reference)
    W = np.where(mask, W, 0)
    v = code.vector(W)
    w, bias = split(W, add_bias)
    per_point = np.stack([np.array([g[p] if p[1] < d else g[p[0], d] for p in code.pos]) for g in point_gradients(X, y, w, bias)])
    extra = np.zeros(len(code.pos))
    if reference is not None and not proximal:
        pg = np.broadcast_to(np.asarray(reference.pen.grad(w), dtype=float), w.shape)
        extra = np.array([pg[p] if p[1] < d else 0. for p in code.pos])
    norms = np.linalg.norm(per_point, axis=1)
    scale = max(norms.max(), 1e-12)
    A = (per_point / np.maximum(norms, 1e-300)[:, None]).T
    decodable = norms.min() > 1e-7 * max(scale, np.abs(extra).max()) and np.linalg.matrix_rank(A, tol=1e-5) == n
    per_epoch = -(-n // b)
    ctx.close(opt.func(v), nll(margins_of(X, w, bias), y).mean() + (0 if reference is None else reference.value(w)), '{}: loss', where, rtol=1e-9, atol=1e-12)
    for epoch in range(3):
        seen, total, sizes = [], np.zeros(len(code.pos)), []
        for j in range(per_epoch):
            g = code.gradient(ctx, opt.grad(v)) - extra
            size = min(b, n - j * b)
            total += size * g
            if decodable:
                c = np.linalg.lstsq(A, g, rcond=None)[0] / norms * size
                ctx.check(np.abs(c - np.round(c)).max() < 1e-3 and set(np.round(c).astype(int).tolist()) <= {0, 1}, '{}: batch {} of epoch {} weighs the points by {}', where, j, epoch, (c / size).tolist())
                members = np.where(c > 0.5)[0].tolist()
                ctx.check(len(members) == size, '{}: batch {} of epoch {} has {} points instead of {}', where, j, epoch, len(members), size)
                seen += members
                ctx.event('decoded_batches')
        ctx.close(total / n, per_point.mean(axis=0), '{}: gradients averaged over epoch {}', where, epoch, rtol=1e-7, atol=1e-9 * scale + 1e-12 * np.abs(extra).max())
        if decodable:
            ctx.check(sorted(seen) == list(range(n)), '{}: epoch {} visited points {}', where, epoch, seen)
        ctx.event('epochs')
        ctx.event('partial_batches', int(n % b != 0 and b < n))
    ctx.case(X.shape, layout, b, K, str(subspaces), repr(reference))


@workload(quick=150, thorough=2000)
def kernels(ctx, rng):
    """ kernel learners optimize the same loss on the kernel matrix of their data """
    n, d = rng.randint(2, 12), rng.randint(1, 5)
    X = rng.normal(size=(n, d))
    y = gen.binary_labels(rng, n).astype(float)
    kernel = ['linear', 'rbf', 'poly'][rng.randint(3)]
    params = dict(gamma=None if rng.rand() < 0.5 else float(rng.uniform(0.1, 2)), degree=int(rng.randint(1, 4)), coef0=float(rng.uniform(0, 1)), jitter=float(rng.choice([1e-12, 1e-3])))
    add_bias = bool(rng.rand() < 0.7)
    fact = gen.random_partition(rng, d) if rng.rand() < 0.6 else int(rng.randint(1, 4))
    K = fact if isinstance(fact, int) else len(fact)
    spec = make_penalty(rng, n, False)
    if spec is not None:
        spec.groups = None
        if hasattr(spec.pen, 'groups'):
            spec.pen.groups = None
    reference = copy.deepcopy(spec)
    opt = Probe()
    learner = KernelFactorizationLearner(opt, None if spec is None else spec.pen, add_bias=add_bias, kernel=kernel, **params)
    base = KernelTransformer.get(kernel, **params)
    F = (base if isinstance(fact, int) else FactorizedKernelTransform(base, fact)).fit_transform(X)
    W = rng.normal(size=(K, F.shape[1] + add_bias))
    W /= max(1., np.abs(F).sum(axis=1).max() / 100.)
    learner.fit(X, y, fact, x0=W)
    where = '{} kernel on {} points, factorization {}, penalty {}'.format(kernel, X.shape, fact, reference)
    code = Coder(ctx, W, np.ones(W.shape, dtype=bool), opt.starts[0])
    check_loss_and_gradient(ctx, rng, where, opt, code, np.asarray(F), y, add_bias, reference, False, [W])
    ctx.event('kernel_learners')
    ctx.case(X.shape, kernel, str(fact), repr(reference))


@workload(quick=600, thorough=8000)
def partitioned(ctx, rng):
    """ classifiers over a partition of the attributes: loss and gradient as handed to scipy """
    n, d = rng.randint(1, 30), rng.randint(1, 7)
    X, layout = layouts(rng, rng.normal(size=(n, d)) * 10. ** rng.uniform(-1, 1))
    y = gen.binary_labels(rng, n).astype(float)
    part = gen.random_partition(rng, d)
    dim = d + len(part)
    w = rng.normal(size=dim) * 10. ** rng.uniform(-1, 0.5)
    w /= max(1., np.abs(X).max() * np.abs(w).max() * d / 150.)
    where = '{} points ({}), partition {}'.format(X.shape, layout, part)
    calls = []

    def method(fun, x0, args=(), jac=None, **kwargs):
        x0 = np.asarray(x0, dtype=float)
        calls.append(x0.copy())
        for v in (x0.copy(), x0 * rng.uniform(-1, 1, size=x0.shape)):
            blocks, pos = [], 0
            for p in part:
                blocks.append((pos, v[pos], v[pos + 1:pos + 1 + len(p)]))
                pos += 1 + len(p)
            m = np.stack([b + (X[:, p] * c).sum(axis=1) for (_, b, c), p in zip(blocks, part)], axis=1)
            got = fun(v.copy())
            f, g = got if isinstance(got, tuple) else (got, jac(v.copy()))
            ctx.close(f, nll(m, y).mean(), '{}: loss at {}', where, v.tolist(), rtol=1e-9, atol=1e-12)
            s = slopes(m, y) / n
            want = np.concatenate([np.r_[s[:, k].sum(), s[:, k] @ X[:, p]] for k, p in enumerate(part)])
            ctx.close(g, want, '{}: gradient at {}', where, v.tolist(), rtol=1e-8, atol=1e-10 * max(np.abs(want).max(), 1e-12))
            ctx.event('partition_gradients')
            ctx.event('saturated', int((np.abs(m) > 36).any()))
        return OptimizeResult(x=x0, fun=7.5, success=True)

    start = None if rng.rand() < 0.2 else w
    clf, loss = FactorizedLinearLearner(optimizer=method).fit_and_loss(X, y, part, start)
    ctx.check(len(calls) == 1 and np.array_equal(calls[0], np.zeros(dim) if start is None else w), '{}: optimization started from {} instead of {}', where, calls, start)
    ctx.check(loss == 7.5 and np.array_equal(clf.weights, calls[0]), '{}: loss {} and weights {} returned', where, loss, clf.weights)
    ctx.case(X.shape, layout, str(part))
