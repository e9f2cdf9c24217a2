"""
C27: trained factorized models against products of logistic probabilities of their published weights; stand-in optimizers decide what training
returns, real ones are compared with scikit-learn and with each other. Pruning against the definition of relevance.
"""
import copy

import numpy as np
from scipy.optimize import OptimizeResult
from sklearn.linear_model import LogisticRegression

from aideme.active_learning.factorization.kernel import KernelFactorizationLearner
from aideme.active_learning.factorization.learn import prune_irrelevant_subspaces
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent, ProximalGradientDescent
from aideme.active_learning.factorization.penalty import L1Penalty, L2Penalty, SparseGroupLassoPenalty
from aideme.active_learning.kernel import FactorizedKernelTransform, KernelTransformer
from harness.core import workload
from harness import gen
from checks.c23 import Probe, layouts, log_probas, margins_of, mask_of, nll, problem, sigmoid, start_and_mask
from checks.c26 import PROXIMAL, Spec

RULE = 'A case is one trained model; non-trivial when it has several subspaces or attributes; signature: shapes, factorization, bias, weights.'
QUICK = 4  # times the cases of the quick tier
REQUIRED = {'copies': 2700, 'default_kernels': 91, 'equal_subspaces': 360, 'exact_halves': 17000, 'expected_errors': 8200, 'fixed_subspaces': 1000, 'given_starts': 550, 'infinite_values': 310, 'kept': 5000, 'kernel_models': 450, 'logistic_regressions': 210, 'nothing_relevant': 380, 'positives': 55000, 'predictions': 280000, 'proximal_subspaces': 210, 'pruned': 2700, 'restarts': 2900, 'shared': 350, 'single_points_decide': 600, 'too_close': 71, 'trained_Adam': 100, 'trained_BFGS': 110, 'trained_FISTA': 100, 'trained_GradientDescent': 100, 'trained_ProximalGradientDescent': 110}
ASSUMPTIONS = ['objective values of restarts are numbers or infinite, not NaN']


class Scripted(Probe):
    """ returns the starting points as trained models, with the objective values it was told """
    def __init__(self, values=None, move=None):
        super().__init__(None)
        self.values, self.move, self.results = values, move, []

    def minimize(self, x0, func, grad):
        i = len(self.starts)
        self.starts.append(np.array(x0))
        self.func, self.grad = func, grad
        x = np.array(x0) if self.move is None else self.move(np.array(x0))
        value = float(func(x)) if self.values is None else self.values[i % len(self.values)]
        self.results.append((x, value))
        return OptimizeResult(x=x, fun=value, success=True)


def sizes(rng):
    return rng.randint(1, 7), rng.randint(1, 6)


def check_model(ctx, rng, where, model, X, d, K, W=None, b=None):
    """ predictions of a model at X are those of its weights """
    w, bias = model.weights, model.bias
    ctx.check(w is not None and w.shape == (K, d) and model.num_subspaces == K, '{}: weights {} for {} subspaces of {} attributes', where, w, K, d)
    ctx.check(bias is not None and np.shape(bias) == (K,), '{}: bias {}', where, bias)
    if W is not None:
        ctx.same(w, W, '{}: weights', where)
        ctx.same(bias, b, '{}: bias', where)
    if model.add_bias:
        ctx.same(model.weight_matrix, np.hstack([w, bias.reshape(-1, 1)]), '{}: weight matrix', where)
    else:
        ctx.same(model.weight_matrix, w, '{}: weight matrix', where)
        ctx.check(not np.any(bias), '{}: bias {} of a model without', where, bias)
    X0 = X.copy()
    m = margins_of(X, w, bias)
    lp = log_probas(m)
    got = np.asarray(model.predict_proba(X))
    ctx.close(got, np.exp(lp), '{}: probabilities', where, rtol=1e-9, atol=1e-300)
    labels = np.asarray(model.predict(X))
    ctx.check(labels.shape == (len(X),) and set(labels.tolist()) <= {0., 1.}, '{}: labels {}', where, labels)
    clear = np.abs(lp - np.log(0.5)) > 1e-9 * np.maximum(1, np.abs(m).max(axis=1))
    ctx.check(np.array_equal((labels > 0)[clear], (lp > np.log(0.5))[clear]), '{}: labels {} for probabilities {}', where, labels.tolist(), np.exp(lp).tolist())
    part = np.asarray(model.partial_proba(X))
    ctx.close(part, sigmoid(m), '{}: probabilities of the subspaces', where, rtol=1e-9, atol=1e-300)
    if hasattr(model, 'partial_predict'):
        pl = np.asarray(model.partial_predict(X))
        clear = np.abs(m) > 1e-9 * max(1., np.abs(m).max())
        ctx.check(pl.shape == m.shape and np.array_equal((pl > 0)[clear], (m > 0)[clear]), '{}: labels of the subspaces {} for margins {}', where, pl.tolist(), m.tolist())
    # exactly one half is not above one half
    half = np.where((m == 0).all(axis=1) & (K == 1))[0]
    ctx.check(not np.any(labels[half]), '{}: labels {} for probabilities of exactly one half', where, labels[half])
    if hasattr(model, 'partial_predict'):
        ctx.check(not np.any(pl[m == 0]), '{}: labels of the subspaces {} for margins {}', where, pl.tolist(), m.tolist())
        ctx.event('exact_halves', int((m == 0).sum()))
    ctx.check(np.array_equal(X, X0), '{}: data was modified', where)
    # what was handed out can be modified freely
    for a in (model.weights, model.bias, model.weight_matrix):
        a[...] = 1e3
    ctx.same(model.weights, w, '{}: weights after modifying the returned array', where)
    ctx.same(model.bias, bias, '{}: bias after modifying the returned array', where)
    ctx.event('predictions', len(X))
    ctx.event('positives', int((lp > np.log(0.5)).sum()))


@workload(quick=1500, thorough=25000)
def predictions(ctx, rng):
    X, y, K, layout = problem(rng)
    d, add_bias = X.shape[1], bool(rng.rand() < 0.7)
    W, subspaces = start_and_mask(rng, K, d, add_bias, X)
    if rng.rand() < 0.3:
        W *= 10. ** rng.uniform(0, 1)
    if rng.rand() < 0.1:
        W[rng.randint(K)] = 0
    opt = Scripted()
    model = LinearFactorizationLearner(opt, add_bias=add_bias)
    where = '{} points ({}), {} subspaces {}, bias {}'.format(X.shape, layout, K, subspaces, add_bias)
    for a in (model.weights, model.bias, model.weight_matrix):
        ctx.check(a is None, '{}: weights {} before training', where, a)
    ctx.check(model.num_subspaces == 0, '{}: {} subspaces before training', where, model.num_subspaces)
    W0 = W.copy()
    model.fit(X, y, K if subspaces is None else subspaces, x0=W)
    ctx.same(W, W0, '{}: starting weights were modified', where)
    mask = mask_of(subspaces, W, d)
    want = np.where(mask, W, 0)
    new, _ = layouts(rng, rng.normal(size=(rng.randint(1, 20),) + X.shape[1:]) * np.abs(X).max())
    for data in (X, new):
        check_model(ctx, rng, where, model, data, d, K, want[:, :d], want[:, d] if add_bias else np.zeros(K))
    # copies are independent, both ways
    other = model.copy()
    check_model(ctx, rng, where + ', copy', other, new, d, K, want[:, :d], want[:, d] if add_bias else np.zeros(K))
    ctx.check(other.add_bias == add_bias, '{}: the copy has bias {}', where, other.add_bias)
    first, second = (model, other) if rng.rand() < 0.5 else (other, model)
    if rng.rand() < 0.5:
        K2 = rng.randint(1, 5) if X.ndim == 2 else K
        V = rng.normal(size=(K2, d + add_bias))
        first.fit(X, y, K2, x0=V)
        ctx.same(first.weight_matrix, V, '{}: weights after training again', where)
    else:
        first.clear()
        ctx.check(first.weights is None and first.bias is None and first.num_subspaces == 0, '{}: weights are left after a reset', where)
    check_model(ctx, rng, where + ', once the original or copy changed', second, new, d, K, want[:, :d], want[:, d] if add_bias else np.zeros(K))
    ctx.event('copies')
    ctx.event('fixed_subspaces', int(subspaces is not None))
    if K * d > 1:
        ctx.case(X.shape, K, str(subspaces), add_bias, float(W[0, 0]))
    ctx.sample(shape=X.shape, subspaces=subspaces, weights=W)


@workload(quick=600, thorough=8000)
def restarts(ctx, rng):
    """ the best of several starting points is kept; given ones are used, random ones differ """
    X, y, K, layout = problem(rng, three=False)
    d, add_bias = X.shape[1], bool(rng.rand() < 0.7)
    R = rng.randint(1, 6)
    W, subspaces = start_and_mask(rng, K, d, add_bias, X)
    fact = K if subspaces is None else subspaces
    mask = mask_of(subspaces, W, d)
    values = (rng.permutation(R) + rng.normal()).tolist() if rng.rand() < 0.7 else None
    infinite = 0
    if values is not None and rng.rand() < 0.4:
        infinite = rng.randint(1, R + 1)
        for i in rng.permutation(R)[:infinite]:
            values[i] = np.inf
    shift = rng.normal()
    opt = Scripted(values, None if rng.rand() < 0.5 else lambda x: x + shift)
    model = LinearFactorizationLearner(opt, add_bias=add_bias)
    given = rng.rand() < 0.6
    starts = rng.normal(size=(R,) + W.shape) if given else None
    where = '{} starting points for {} subspaces {} of {} attributes, values {}'.format(R, K, subspaces, d, values)
    fit = lambda: model.fit(X, y, fact, retries=R, x0=starts)
    if infinite == R:
        ctx.raises(RuntimeError, fit, where)
        return
    fit()
    ctx.check(len(opt.starts) == R, '{}: {} optimizations', where, len(opt.starts))
    for i, s in enumerate(opt.starts):
        flat = np.sort(np.ravel(s))
        if given:
            ctx.check(np.array_equal(flat, np.sort(starts[i][mask])), '{}: optimization {} starts from {}', where, i, s.tolist())
        else:
            ctx.check(len(flat) == mask.sum() and np.isfinite(flat).all() and len(set(flat.tolist())) == len(flat), '{}: optimization {} starts from {}', where, i, s.tolist())
    if not given:
        ctx.check(len(set(np.ravel(s)[0] for s in opt.starts)) == R, '{}: random restarts begin at the same point', where)
    best = int(np.argmin([v for _, v in opt.results]))
    x = np.ravel(opt.results[best][0])
    got = model.weight_matrix
    ctx.check(np.array_equal(np.sort(got[mask]), np.sort(x)) and not np.any(got[~mask]), '{}: weights {}, but the best run ({}) ended at {}', where, got.tolist(), best, x.tolist())
    if given and opt.move is None:
        ctx.same(got, np.where(mask, starts[best], 0), '{}: weights of the best run', where)
    ctx.event('restarts', R)
    ctx.event('given_starts', int(given))
    ctx.event('infinite_values', infinite)
    if R > 1:
        ctx.case(R, W.shape, str(subspaces), str(values))


def real_optimizer(rng, X, K, proximal):
    L = 0.25 * (np.square(X).sum(axis=1).max() + 1) * K
    if proximal:
        cls = [FISTA, ProximalGradientDescent][rng.randint(2)]
        return cls(step_size=1 / L, max_iter=int(rng.randint(5, 60)), gtol=1e-6)
    kind = rng.randint(3)
    if kind == 0:
        return BFGS(gtol=1e-6, max_iter=int(rng.randint(5, 60)))
    if kind == 1:
        return Adam(step_size=0.05, max_iter=int(rng.randint(5, 60)))
    return GradientDescent(step_size=1 / L, max_iter=int(rng.randint(5, 60)), gtol=1e-8)


@workload(quick=300, thorough=5000)
def trainings(ctx, rng):
    """ real optimizers: fixed subspaces are honoured, restarts equal separate runs, learners sharing parts do not disturb each other """
    n, d, K = rng.randint(4, 30), rng.randint(1, 5), rng.randint(1, 4)
    X = rng.normal(size=(n, d))
    y = gen.binary_labels(rng, n).astype(float)
    add_bias = bool(rng.rand() < 0.7)
    W, subspaces = start_and_mask(rng, K, d, add_bias, X)
    proximal = rng.rand() < 0.4
    fact = K if subspaces is None else subspaces
    spec = Spec(rng, d, PROXIMAL) if proximal or rng.rand() < 0.4 else None
    if spec is not None and not spec.covering:
        spec.pen.groups = spec.groups = None
    opt = real_optimizer(rng, X, K, proximal)
    R = rng.randint(1, 4)
    starts = rng.normal(size=(R,) + W.shape)
    where = '{} with {} on {} points, {} subspaces {}, {} starts'.format(type(opt).__name__, spec, X.shape, K, subspaces, R)
    pen = None if spec is None else spec.pen

    def objective(M):
        w, b = (M[:, :d], M[:, d]) if add_bias else (M, 0.)
        return nll(margins_of(X, w, b), y).mean() + (0 if spec is None else spec.value(w))

    mask = mask_of(subspaces, W, d)
    model = LinearFactorizationLearner(opt, pen, add_bias=add_bias)
    model.fit(X, y, fact, retries=R, x0=starts)
    check_model(ctx, rng, where, model, X, d, K)
    got = model.weight_matrix
    ctx.check(not np.any(got[~mask]), '{}: weights {} outside of the subspaces', where, got.tolist())
    # each start on its own
    single = []
    for s in starts:
        m = LinearFactorizationLearner(copy.deepcopy(opt), copy.deepcopy(pen), add_bias=add_bias)
        m.fit(X, y, fact, x0=s)
        single.append(m.weight_matrix)
    values = [objective(M) for M in single]
    ctx.close(objective(got), min(values), '{}: objective of the model, separate trainings reach {}', where, values, rtol=1e-7, atol=1e-9)
    if type(opt) is BFGS or (type(opt) is GradientDescent and spec is None):
        start = objective(np.where(mask, starts[int(np.argmin(values))], 0))
        ctx.check(min(values) <= start + 1e-9, '{}: training went from {} to {}', where, start, min(values))
    ctx.event('trained_' + type(opt).__name__)
    # a learner sharing optimizer or penalty, with other settings, trained in between
    if spec is not None:
        shared = LinearFactorizationLearner(opt if rng.rand() < 0.5 else real_optimizer(rng, X, K, not proximal), pen if rng.rand() < 0.5 or not proximal else Spec(rng, d, PROXIMAL, groups=False).pen, add_bias=not add_bias)
        shared.fit(X, y, K)
        model.fit(X, y, fact, retries=R, x0=starts)
        ctx.close(model.weight_matrix, got, '{}: weights after another learner used the same optimizer or penalty', where, rtol=1e-9, atol=1e-12)
        ctx.event('shared')
    if K * d > 1:
        ctx.case(where, float(X[0, 0]))


@workload(quick=200, thorough=3000)
def equal_subspaces(ctx, rng):
    """ subspaces of the same attributes: as training on these attributes only """
    n, d, K = rng.randint(4, 30), rng.randint(2, 6), rng.randint(1, 4)
    X = rng.normal(size=(n, d))
    y = gen.binary_labels(rng, n).astype(float)
    attrs = np.sort(rng.permutation(d)[:rng.randint(1, d)])
    add_bias = bool(rng.rand() < 0.7)
    W = rng.normal(size=(K, d + add_bias))
    proximal = rng.rand() < 0.6
    spec = Spec(rng, d, PROXIMAL if proximal else ['L2'], groups=False) if proximal or rng.rand() < 0.4 else None
    if spec is not None:
        spec.groups = None
        if hasattr(spec.pen, 'groups'):
            spec.pen.groups = None
    opt = real_optimizer(rng, X, K, proximal)
    while isinstance(opt, (BFGS, Adam)):  # their paths may amplify rounding errors
        opt = real_optimizer(rng, X, K, proximal)
    where = '{} with {} on {} points, {} subspaces of {}'.format(type(opt).__name__, spec, X.shape, K, attrs.tolist())
    a, b = [LinearFactorizationLearner(copy.deepcopy(opt), None if spec is None else copy.deepcopy(spec.pen), add_bias=add_bias) for _ in range(2)]
    a.fit(X, y, [attrs.tolist()] * K, x0=W)
    cols = np.r_[attrs, d] if add_bias else attrs
    b.fit(np.ascontiguousarray(X[:, attrs]), y, K, x0=W[:, cols])
    got = a.weight_matrix
    rest = np.ones(W.shape, dtype=bool)
    rest[:, cols] = False
    ctx.check(not np.any(got[rest]), '{}: weights {} outside of the subspaces', where, got.tolist())
    ctx.close(got[:, cols], b.weight_matrix, '{}: weights, compared to training without the other attributes', where, rtol=1e-5, atol=1e-7)
    ctx.event('equal_subspaces')
    ctx.event('proximal_subspaces', int(proximal))
    ctx.case(where, float(X[0, 0]))


@workload(quick=120, thorough=1500)
def logistic_regression(ctx, rng):
    """ one subspace: the models are those of regularised logistic regression """
    n, d = rng.randint(10, 60), rng.randint(1, 5)
    X = rng.normal(size=(n, d))
    y = (X @ rng.normal(size=d) + rng.normal(size=n) > 0).astype(float)
    if y.min() == y.max():
        y[0] = 1 - y[0]
    lam = float(10. ** rng.uniform(-2.5, 0))
    l1 = rng.rand() < 0.4
    L = 0.25 * (np.square(X).sum(axis=1).mean() + 1) + 2 * lam
    if l1:
        opt = [FISTA, ProximalGradientDescent][rng.randint(2)](step_size=1 / L, max_iter=4000, gtol=1e-7)
    else:
        opt = [BFGS(gtol=1e-8), GradientDescent(step_size=1 / L, gtol=1e-8, max_iter=20000), FISTA(step_size=1 / L, max_iter=4000), Adam(step_size=0.02, max_iter=8000)][rng.randint(4)]
    model = LinearFactorizationLearner(opt, (L1Penalty if l1 else L2Penalty)(lam))
    model.fit(X, y, 1)

    def objective(w, b):
        return nll(margins_of(X, w.reshape(1, -1), b), y).mean() + lam * (np.abs(w).sum() if l1 else w @ w)

    sk = LogisticRegression(penalty='l1' if l1 else 'l2', C=1 / (n * lam) if l1 else 1 / (2 * n * lam), solver='saga' if l1 else 'lbfgs', tol=1e-9, max_iter=20000).fit(X, y)
    ours, theirs = objective(model.weights[0], model.bias), objective(sk.coef_[0], sk.intercept_)
    slow = L * (np.linalg.norm(sk.coef_) + abs(sk.intercept_[0]) + 5) ** 2 / 8000 if type(opt) is ProximalGradientDescent else 0.  # not accelerated
    ctx.check(ours <= theirs + slow + 1e-5 * (1 + theirs), '{} reached {} on {} points, scikit-learn {}', type(opt).__name__, ours, X.shape, theirs)
    p, q = model.predict_proba(X), sk.predict_proba(X)[:, 1]
    if abs(ours - theirs) < 1e-5 * (1 + theirs):
        ctx.check(np.abs(p - q).max() < 2e-2, '{}: probabilities {}, scikit-learn {}', type(opt).__name__, p.tolist(), q.tolist())
    ctx.event('logistic_regressions')
    ctx.case(X.shape, lam, l1, type(opt).__name__)


@workload(quick=1500, thorough=25000)
def pruning(ctx, rng):
    d, K = sizes(rng)
    n = rng.randint(1, 30) if rng.rand() < 0.97 else int(10. ** rng.uniform(2, 3.7))
    three = rng.rand() < 0.1
    X = rng.normal(size=(n, d, K) if three else (n, d))
    if rng.rand() < 0.2:  # a single point decides
        X[rng.choice([0, n - 1, rng.randint(n)])] *= 10. ** rng.uniform(0, 2)
    add_bias = bool(rng.rand() < 0.7)
    W = rng.normal(size=(K, d + add_bias)) * 10. ** rng.uniform(-1, 1, size=(K, 1))
    kinds = rng.randint(5, size=K)
    usual = rng.rand() < 0.25
    tol = 1e-8 if usual else float(10. ** rng.uniform(-9, -1))
    for k in range(K):
        if kinds[k] == 0:
            W[k, :d] = 0
        elif kinds[k] == 1:
            W[k, :d] *= tol * 10. ** rng.uniform(-2, 5 if usual else 2) / np.linalg.norm(W[k, :d])
        elif kinds[k] == 2 and add_bias:
            W[k, d] = np.abs(X).max() * np.abs(W[k, :d]).sum() + rng.uniform(0, 8)  # positive everywhere
    W /= np.maximum(1., np.abs(X).max() * np.abs(W).sum(axis=1, keepdims=True) / 500.)  # beyond, a wrong certainty costs infinitely much
    threshold = float(rng.choice([0.5, 0.9, 0.99, 0.999, 1., rng.uniform(0, 1)]))
    if n > 1 and rng.rand() < 0.3:  # between the least and the second least probability
        q = np.sort(sigmoid(margins_of(X, W[:, :d], W[:, d] if add_bias else np.zeros(K)))[:, rng.randint(K)])[:2]
        if q[0] < q[1] < 1:
            threshold = float(q.mean())
            ctx.event('single_points_decide')
    model = LinearFactorizationLearner(Scripted(), SparseGroupLassoPenalty(1., 1.) if rng.rand() < 0.3 else None, add_bias=add_bias)
    y = gen.binary_labels(rng, n).astype(float)
    model.fit(X, y, K, x0=W)
    w, b = W[:, :d], W[:, d] if add_bias else np.zeros(K)
    low = sigmoid(margins_of(X, w, b)).min(axis=0)
    norms = np.linalg.norm(w, axis=1)
    where = 'pruning {} subspaces (least probabilities {}, norms {}) with threshold {} and tolerance {}'.format(K, low.tolist(), norms.tolist(), threshold, tol)
    if np.any(np.abs(low - threshold) < 1e-12) or np.any(np.abs(norms - tol) < 1e-12 * tol):
        if threshold != 1. or np.any(np.abs(norms - tol) < 1e-12 * tol):
            ctx.event('too_close')
            return
    relevant = (low < threshold) & (norms > tol)
    if threshold == 1. and np.any((low >= 1 - 1e-15) & (norms > tol)):
        return
    keep = np.where(relevant)[0] if relevant.any() else np.arange(K)
    X0 = X.copy()
    default = threshold == 0.99 and rng.rand() < 0.3
    if default and usual:
        pruned = prune_irrelevant_subspaces(X, model)
    elif usual:
        pruned = prune_irrelevant_subspaces(X, model, threshold)
    elif default:
        pruned = prune_irrelevant_subspaces(X, model, tol=tol)
    else:
        pruned = prune_irrelevant_subspaces(X, model, threshold, tol)
    ctx.check(pruned is not model, '{}: the model itself was returned', where)
    ctx.same(pruned.weights, w[keep], '{}: weights kept', where)
    ctx.same(pruned.bias, b[keep], '{}: bias kept', where)
    ctx.check(pruned.num_subspaces == len(keep) and pruned.add_bias == add_bias, '{}: {} subspaces', where, pruned.num_subspaces)
    ctx.same(model.weights, w, '{}: weights of the original', where)
    ctx.same(model.bias, b, '{}: bias of the original', where)
    ctx.same(X, X0, '{}: data', where)
    ctx.check(pruned.feature_groups == model.feature_groups, '{}: feature groups', where)
    # changing one does not change the other
    if not three:
        check_model(ctx, rng, where + ', pruned', pruned, X, d, len(keep))
        V = rng.normal(size=(2, d + add_bias))
        pruned.fit(X, y, 2, x0=V)
        ctx.same(model.weights, w, '{}: weights of the original after training the pruned model', where)
    ctx.event('pruned', K - len(keep))
    ctx.event('kept', len(keep))
    ctx.event('nothing_relevant', int(not relevant.any()))
    for bad in (-0.1, 1.1):
        ctx.raises(ValueError, lambda: prune_irrelevant_subspaces(X, model, bad), 'threshold {}', bad)
    ctx.raises(ValueError, lambda: prune_irrelevant_subspaces(X, model, 0.9, 0), 'tolerance 0')
    if K > 1:
        ctx.case(W.shape, threshold, tol, len(keep))


@workload(quick=250, thorough=4000)
def kernels(ctx, rng):
    n, d = rng.randint(2, 15), rng.randint(1, 5)
    X = rng.normal(size=(n, d))
    y = gen.binary_labels(rng, n).astype(float)
    kernel = ['linear', 'rbf', 'poly'][rng.randint(3)]
    params = dict(gamma=None if rng.rand() < 0.5 else float(rng.uniform(0.1, 2)), degree=int(rng.randint(1, 4)), coef0=float(rng.uniform(0, 1)), jitter=float(rng.choice([1e-12, 1e-3])))
    add_bias = bool(rng.rand() < 0.7)
    if rng.rand() < 0.2:  # options left to their defaults
        kernel, params = 'rbf', dict(gamma=None, degree=3, coef0=0., jitter=1e-12)
        add_bias = True
        make = KernelFactorizationLearner
        ctx.event('default_kernels')
    else:
        def make(opt):
            return KernelFactorizationLearner(opt, add_bias=add_bias, kernel=kernel, **params)
    fact = gen.random_partition(rng, d) if rng.rand() < 0.6 else int(rng.randint(1, 4))
    K = fact if isinstance(fact, int) else len(fact)
    model = make(Scripted())
    base = KernelTransformer.get(kernel, **params)
    reference = base if isinstance(fact, int) else FactorizedKernelTransform(base, fact)
    F = reference.fit_transform(X)
    W = rng.normal(size=(K, F.shape[1] + add_bias)) / max(1., np.abs(F).sum(axis=1).max() / 20.)
    model.fit(X, y, fact, x0=W)
    where = '{} kernel, {} points, factorization {}, {}'.format(kernel, X.shape, fact, params)
    ctx.same(model.weights, W[:, :F.shape[1]], '{}: weights', where)
    ctx.same(model.weight_matrix, W, '{}: weight matrix', where)
    ctx.check(model.num_subspaces == K, '{}: {} subspaces', where, model.num_subspaces)
    new = rng.normal(size=(rng.randint(1, 10), d))
    for data in (new, X):
        m = margins_of(np.asarray(reference.transform(data)), W[:, :F.shape[1]], W[:, -1] if add_bias else np.zeros(K))
        lp = log_probas(m)
        ctx.close(model.predict_proba(data), np.exp(lp), '{}: probabilities', where, rtol=1e-7, atol=1e-12)
        ctx.close(model.partial_proba(data), sigmoid(m), '{}: probabilities of the subspaces', where, rtol=1e-7, atol=1e-12)
        clear = np.abs(lp - np.log(0.5)) > 1e-7
        ctx.check(np.array_equal((np.asarray(model.predict(data)) > 0)[clear], (lp > np.log(0.5))[clear]), '{}: labels', where)
    ctx.event('kernel_models')
    ctx.case(kernel, X.shape, str(fact), float(X[0, 0]))


@workload(quick=30, thorough=300)
def rejections(ctx, rng):
    X, y, K, _ = problem(rng, three=False)
    d = X.shape[1]
    for bad in (0, -1):
        ctx.raises(ValueError, lambda: LinearFactorizationLearner(Scripted()).fit(X, y, bad), '{} subspaces', bad)
        ctx.raises(ValueError, lambda: LinearFactorizationLearner(Scripted()).fit(X, y, 1, retries=bad), '{} retries', bad)
    ctx.raises(ValueError, lambda: LinearFactorizationLearner(Scripted()).fit(X, y, 1, retries=1.5), '1.5 retries')
    ctx.raises(ValueError, lambda: LinearFactorizationLearner(Scripted()).fit(X, y, 1, x0=np.zeros(d + 2)), 'start of another size')
    ctx.case(d, K)
