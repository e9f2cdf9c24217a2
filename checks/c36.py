"""
C36: the same data given in another representation (integer or boolean arrays instead of floats, lists, column-major, strided, reversed or
read-only arrays) leads to the same answers. Every script is run twice under the same random seed: once with plain float arrays, once with some of
its inputs represented otherwise.
"""
import contextlib
import io
import warnings

import numpy as np

from aideme.active_learning.aluma import aluma_preprocessing
from aideme.active_learning.dsm.convex.convex import ConvexCone, ConvexHull
from aideme.active_learning.dsm.convex.one_dim_convex import OneDimensionalConvexCone, OneDimensionalConvexHull
from aideme.active_learning.dsm.model import FactorizedPolytopeModel, PolytopeModel
from aideme.active_learning.dsm.polytope import CategoricalPolytope, MultiSetPolytope
from aideme.active_learning.factorization.kernel import KernelFactorizationLearner
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent, ProximalGradientDescent
from aideme.active_learning.factorization.partitioning import FactorizedLinearLearner, GreedySelector
from aideme.active_learning.factorization.penalty import L1Penalty, L2Penalty, L2SqrtPenalty, SparseGroupLassoPenalty
from aideme.active_learning.kernel import FactorizedKernelTransform, IncrementedDiagonalKernel, Kernel, KernelTransformer
from aideme.active_learning.inference.inference import Inference
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.explore.manager import ExplorationManager
from aideme.initial_sampling import random_sampler, stratified_sampler
from aideme.utils.convergence import max_iter_reached
from aideme.utils.metrics import classification_metrics, three_set_metric, training_classification_metrics
from aideme.utils.noise import random_noise_injector
from harness.core import Skip, workload
from harness import gen
from harness import learners as L

RULE = ('A case runs one script with plain float arrays and again with some inputs represented otherwise, and compares all answers; non-trivial '
        'when the script asked for at least one input of the varied kind and gave an answer; signature: script, representation, answers.')
REQUIRED = {'answers': 14000, 'compared_BayesianKernelVersionSpace': 22, 'compared_BayesianLinearVersionSpace': 22, 'compared_CategoricalActiveLearner': 22, 'compared_DualSpaceModel': 22, 'compared_EntropyReductionLearner': 22, 'compared_FLMUncertaintySampler': 22, 'compared_FactorizedDualSpaceModel': 11, 'compared_KernelVersionSpace': 22, 'compared_LinearVersionSpace': 22, 'compared_MultiSetActiveLearner': 22, 'compared_QueryByDisagreement': 22, 'compared_RandomSampler': 22, 'compared_RatioMargin': 22, 'compared_SimpleMargin': 22, 'compared_SimplifiedSwapLearner': 22, 'compared_SubspatialSimpleMargin': 22, 'compared_SubspatialVersionSpace': 13, 'compared_SwapLearner': 22, 'compared_UncertaintySampler': 22, 'compared_categories': 72, 'compared_dataset': 72, 'compared_factorized_model': 72, 'compared_kernels': 72, 'compared_label_sets': 72, 'compared_optimizer': 72, 'compared_partition_search': 72, 'compared_penalties': 72, 'compared_sampler': 71, 'compared_structure': 71, 'represented_i:int16': 29, 'represented_i:int32': 29, 'represented_i:list': 28, 'represented_i:mixed': 62, 'represented_i:read-only': 21, 'represented_i:strided': 36, 'represented_i:tuple': 33, 'represented_u:backwards': 23, 'represented_u:bool': 12, 'represented_u:column-major': 13, 'represented_u:float32': 20, 'represented_u:int32-strided': 14, 'represented_u:int64': 13, 'represented_u:int8': 17, 'represented_u:list': 11, 'represented_u:mixed': 62, 'represented_u:read-only': 14, 'represented_u:strided': 23, 'represented_u:uint8': 17, 'represented_w:backwards': 15, 'represented_w:column-major': 15, 'represented_w:int32': 34, 'represented_w:int64': 31, 'represented_w:int64-column-major': 27, 'represented_w:mixed': 23, 'represented_w:read-only': 13, 'represented_w:strided': 16, 'represented_x:backwards': 33, 'represented_x:column-major': 51, 'represented_x:int16-strided': 51, 'represented_x:int32': 51, 'represented_x:int64': 43, 'represented_x:int64-column-major': 47, 'represented_x:int8': 49, 'represented_x:mixed': 100, 'represented_x:read-only': 38, 'represented_x:strided': 39, 'represented_y:backwards': 26, 'represented_y:bool': 29, 'represented_y:column-major': 22, 'represented_y:float32': 24, 'represented_y:int32-strided': 27, 'represented_y:int64': 19, 'represented_y:int8': 22, 'represented_y:mixed': 80, 'represented_y:read-only': 29, 'represented_y:strided': 27, 'represented_y:uint8': 22}
ASSUMPTIONS = ['numbers are exactly representable in all types used: small integers for the type changes, any real numbers for the memory layouts',
               'floats are compared up to 1e-6 (1e-4 when points or weights are represented otherwise), since the order of summation may depend on types and memory layout; cases where changes of 1e-14 of the inputs matter are put aside']


def strided(A):
    big = np.full(tuple(2 * s + 1 for s in A.shape), 77).astype(A.dtype)
    view = big[tuple(slice(1, 2 * s + 1, 2) for s in A.shape)]
    view[...] = A
    return view


def backwards(A):
    return A[::-1].copy()[::-1]


def read_only(A):
    A = A.copy()
    A.setflags(write=False)
    return A


LAYOUTS = {'column-major': lambda A: np.array(A, order='F'), 'strided': strided, 'backwards': backwards, 'read-only': read_only}
TYPES = {'int64': lambda A: A.astype(np.int64), 'int32': lambda A: A.astype(np.int32), 'int8': lambda A: A.astype(np.int8),
         'int16-strided': lambda A: strided(A.astype(np.int16)), 'int64-column-major': lambda A: np.array(A.astype(np.int64), order='F')}
WIDE = {k: f for k, f in TYPES.items() if '64' in k or '32' in k}  # sums of weights need not fit into small integers
LABELS = {'int64': lambda A: A.astype(np.int64), 'int8': lambda A: A.astype(np.int8), 'uint8': lambda A: A.astype(np.uint8), 'bool': lambda A: A.astype(bool), 'float32': lambda A: A.astype(np.float32),
          'int32-strided': lambda A: strided(A.astype(np.int32)), **LAYOUTS}
INDEXES = {'int32': lambda A: np.asarray(A).astype(np.int32), 'list': lambda A: np.asarray(A).tolist(), 'strided': lambda A: strided(np.asarray(A)), 'tuple': lambda A: tuple(np.asarray(A).tolist()),
           'int16': lambda A: np.asarray(A).astype(np.int16), 'read-only': lambda A: read_only(np.asarray(A))}


class Inputs:
    """
    How the inputs of a script are represented: data points (x), weights (w), labels (y), labels which may be given as a list (u) and row
    identifiers (i).
    """
    def __init__(self, integral, **how):
        self.integral, self.how, self.used = integral, how, set()
        self.answers, self.calls = [], 0

    def __getattr__(self, kind):
        if kind not in 'xwyui' or len(kind) > 1:
            raise AttributeError(kind)

        def represent(A):
            self.used.add(kind)
            if kind not in self.how:
                return A
            how = self.how[kind]
            if isinstance(how, tuple):  # another one for each call
                self.calls += 1
                how = how[self.calls % len(how)]
            return how(A)
        return represent

    def points(self, rng, *shape):
        """ values exactly representable in all the types used """
        return rng.randint(-4, 5, size=shape).astype(float) if self.integral else rng.normal(size=shape)

    def record(self, what, *values):
        self.answers.append((what, [plain(v) for v in values]))


def plain(v):
    """ values without their types """
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and not all(isinstance(x, (int, float, np.number, np.bool_)) for x in v):
        return [plain(x) for x in v]
    v = np.asarray(v)
    return v.astype(float).copy()


def equal(a, b, tol=1e-6):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(p, q, tol) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return a == b


def execute(kind, seed, inputs):
    np.random.seed(seed)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        KINDS[kind](np.random.RandomState(seed), inputs)
    return inputs


def ill_conditioned(rng, kind, seed, base, slots):
    """ whether relative changes of 1e-14 of the inputs change the answers as well """
    def change(A):
        return A * (1 + 1e-14 * rng.normal(size=A.shape))
    return any(not equal(base.answers, execute(kind, seed, Inputs(base.integral, **{s: change for s in slots})).answers, 1e-5) for _ in range(4))


EXACT = ('dataset', 'label_sets', 'categories', 'penalties', 'kernels', 'CategoricalActiveLearner', 'MultiSetActiveLearner')


def compare(ctx, rng, kind):
    seed = int(rng.randint(2 ** 31))
    slot = rng.rand()
    how, names, integral = {}, [], bool(rng.rand() < 0.6)
    for slot in ['xwyui'[rng.randint(5)]] if rng.rand() < 0.8 else 'xwyui':
        table = INDEXES if slot == 'i' else LABELS if slot == 'y' else {**LABELS, 'list': lambda A: A.tolist()} if slot == 'u' else LAYOUTS if not integral else WIDE if slot == 'w' else TYPES
        name = list(table)[rng.randint(len(table))]
        how[slot] = table[name]
        if rng.rand() < 0.3:
            name, how[slot] = 'mixed', tuple([table[t] for t in rng.permutation(list(table))] + [lambda A: A])
        names.append(slot + ':' + name)
    base = execute(kind, seed, Inputs(integral))
    if not base.used & set(how):
        slot = sorted(base.used)[rng.randint(len(base.used))]
        table = INDEXES if slot == 'i' else LABELS if slot in 'yu' else LAYOUTS if not integral else WIDE if slot == 'w' else TYPES
        name = list(table)[rng.randint(len(table))]
        how, names = {slot: table[name]}, [slot + ':' + name]
    other = execute(kind, seed, Inputs(integral, **how))
    tol = 1e-4 if set(how) & set('xw') else 1e-6
    if set(how) & set('xw') and kind not in EXACT and not equal(base.answers, other.answers, tol) and ill_conditioned(rng, kind, seed, base, set(how) & set('xw')):
        ctx.event('ill_conditioned')
        raise Skip()
    for i, ((what, a), (_, b)) in enumerate(zip(base.answers, other.answers)):
        ctx.check(equal(a, b, tol), '{} with inputs represented as {}: answer {} ({}) is {:.400}, and {:.400} with plain float arrays', kind, names, i, what, repr(b), repr(a))
    ctx.check(len(base.answers) == len(other.answers), '{} with inputs represented as {}: {} answers, and {} with plain float arrays', kind, names, len(other.answers), len(base.answers))
    for n in names:
        if n[0] in base.used:
            ctx.event('represented_' + n)
    ctx.event('answers', len(base.answers))
    ctx.event('compared_' + kind)
    if base.answers:
        ctx.case(kind, names, integral, repr(base.answers)[:2000])
    ctx.sample(kind=kind, inputs=names, integral=integral, answers=[w for w, _ in base.answers][:8])


# ---------------------------------------------------------------------------------------------------------------- scripts

def labelled_grid(rng, domain, n, d):
    """ like learners.dataset, with integer attributes """
    for _ in range(50):
        made = L.dataset(rng, domain, n, d)
        if made is None:
            return None
        X, y, P = made
        if isinstance(domain, tuple):
            P = P.copy()
            for j, (idx, mode) in enumerate(zip(domain[1], domain[2])):
                if mode in ('categorical', 'multiset'):
                    continue
                X[:, idx] = np.round(3 * X[:, idx])
                r = np.square(X[:, idx] - rng.randint(-1, 2, size=len(idx))).sum(axis=1)
                P[:, j] = r < np.quantile(r, rng.uniform(0.5, 0.8))
                if mode == 'negative':
                    P[:, j] = 1 - P[:, j]
            y = P.min(axis=1)
            if y.sum() >= 2 and (P.max(axis=1) == 0).sum() >= 2:
                return X, y, P
            continue
        X = np.round(3 * X)
        first = np.sort(np.unique(X, axis=0, return_index=True)[1])  # equal points must not have different labels
        X, y = X[first], y[first]
        if domain in ('linear', 'cone'):
            m = X @ rng.randint(-3, 4, size=d) + (0.5 if domain == 'linear' else 0)
            X, y = X[m != 0], (m[m != 0] > 0).astype(float)
        elif domain in ('convex', 'concave'):
            r = np.square((X - rng.randint(-1, 2, size=d)) @ rng.normal(size=(d, d))).sum(axis=1)
            y = (r < np.quantile(r, 0.5)).astype(float)
            y = y if domain == 'convex' else 1 - y
        if 2 <= y.sum() <= len(y) - 2:
            return X, y, None
    return None


def explored(rng, inp, name):
    d = int(rng.choice([2, 3, 4]) if name in L.FACTORIZED else rng.choice([1, 2, 2, 3]))
    k = int(rng.randint(1, min(d, 3) + 1))
    cfg = L.config(rng, name, d, k)
    n = int(rng.randint(20 if isinstance(cfg.domain, tuple) else 8, min(cfg.max_n, 30) + 1))
    made = (labelled_grid if inp.integral else L.dataset)(rng, cfg.domain, n, d)
    if made is None:
        raise Skip()
    return (cfg,) + made


def learner(name):
    def script(rng, inp):
        cfg, X, y, P = explored(rng, inp, name)
        index = np.asarray(gen.index_values(rng, len(X)))
        index = index if np.issubdtype(index.dtype, np.integer) and np.abs(index).max() < 2 ** 15 else rng.permutation(200)[:len(X)]
        ls = LabeledSet(inp.u(y), None if P is None else inp.u(P), inp.i(index))
        X = inp.x(X)
        m = ExplorationManager(PartitionedDataset(X, inp.i(index)), cfg.make(), subsampling=None if rng.rand() < 0.5 else int(rng.randint(1, 10)),
                               initial_sampler=stratified_sampler(ls, neg_in_all_subspaces=True), callback=[three_set_metric, classification_metrics(X, inp.y(y), ['fscore', 'accuracy'])] if cfg.consistent else None,
                               convergence_criteria=max_iter_reached(int(rng.randint(2, min(cfg.max_iter, 5) + 1))))
        while not m.converged():
            chosen = m.get_next_to_label()
            if chosen is None:
                break
            inp.record('points', chosen.index, chosen.data)
            m.update(ls.get_index(inp.i(chosen.index)))
            inp.record('parts', m.data.labeled.index, m.data.inferred.index, m.data.unknown.index)
            if m.is_exploration_phase:
                inp.record('predictions', m.active_learner.predict(X), m.active_learner.predict_proba(X))
                inp.record('metrics', {k: v for k, v in m.get_callback_metrics().items()})
        if m.is_exploration_phase:
            final = m.compute_user_labels_prediction()
            inp.record('final', final.index, final.labels)
    return script


def dataset(rng, inp):
    n, d, k = int(rng.choice([3, 8, 20])), int(rng.randint(1, 4)), int(rng.randint(1, 4))
    X, index = inp.points(rng, n, d), rng.permutation(500)[:n]
    data = PartitionedDataset(inp.x(X), inp.i(index))
    for _ in range(rng.randint(5, 15)):
        op = rng.randint(6)
        if op < 3 and data.unlabeled_size:
            if op == 0 and data.unknown_size:
                data.move_to_inferred(inp.i(gen.random_subset(rng, data.unknown.index, 2)))
            elif op:
                some = gen.random_subset(rng, data.unlabeled.index, rng.randint(1, 4))
                y = gen.binary_labels(rng, len(some))
                data.move_to_labeled(LabeledSet(inp.u(y), inp.u(gen.partial_labels(rng, y, k)), inp.i(some)))
        elif op == 3 and data.labeled_size:
            data.move_to_unknown(inp.i(gen.random_subset(rng, data.labeled.index, 1)))
        elif op == 4:
            data.remove_inferred()
        elif op == 5 and rng.rand() < 0.2:
            data.clear()
        inp.record('parts', data.labeled.index, data.inferred.index, data.unknown.index, data.labeled.data, data.unlabeled.data)
        inp.record('labels', data.labeled_set.index, data.labeled_set.labels, data.labeled_set.partial)
        if data.labeled_size:
            inp.record('training', *data.training_set(), *data.last_training_set(), *data.training_set(get_partial=True))
        if data.unknown_size:
            inp.record('sample', data.unknown.sample(3).index)


def label_sets(rng, inp):
    n, k = int(rng.randint(1, 15)), int(rng.randint(1, 4))
    y = gen.binary_labels(rng, n)
    P, index = gen.partial_labels(rng, y, k), rng.permutation(300)[:n]
    ls = LabeledSet(inp.u(y), inp.u(P), inp.i(index))
    for it in range(3):
        some = ls.get_index(inp.i(gen.random_subset(rng, index, int(rng.randint(1, n + 1)))))
        inp.record('some', some.labels, some.partial, some.index, some.asdict())
        noisy = random_noise_injector(float(rng.choice([0.1, 0.5, 1])), skip_initial=int(rng.randint(2)))(it, some)
        inp.record('noisy', noisy.labels, noisy.partial, noisy.index, noisy.asdict(noisy=True))
        both = ls.concat(LabeledSet(inp.u(1 - y), inp.u(1 - P), inp.i(index + 1000)))
        inp.record('both', both.labels, both.partial, both.index, both.has_positive_and_negative_labels())
    if 0 < y.sum() < n:
        data = PartitionedDataset(inp.x(inp.points(rng, n, 2)), inp.i(index))
        inp.record('initial', stratified_sampler(ls, pos=1, neg=1)(data), random_sampler(2)(data))


def structure(rng, inp):
    kind, d = rng.randint(6), int(rng.choice([1, 2, 3]))
    X = inp.points(rng, int(rng.randint(10, 25)), d)
    X = np.unique(X, axis=0)[rng.permutation(len(np.unique(X, axis=0)))]
    Q = np.r_[inp.points(rng, 15, d), X]
    if kind == 0:
        if d == 1:
            hull = OneDimensionalConvexHull(inp.x(X[:2]))
        else:
            if np.linalg.matrix_rank(X[1:d + 1] - X[0]) < d:
                raise Skip()
            hull = ConvexHull(inp.x(X[:d + 1]))
        inp.record('before', hull.is_inside(inp.x(Q)))
        hull.add_points(inp.x(X[d + 1:]))
        inp.record('after', hull.is_inside(inp.x(Q)))
        if d > 1:
            inp.record('vertices', hull.vertices)
    elif kind == 1:
        if d == 1:
            cone = OneDimensionalConvexCone(inp.x(X[:1] + 20), -30.)
            inp.record('cone', cone.is_inside(inp.x(Q * 10)))
            return
        vertex = X[0] + 12
        if np.linalg.matrix_rank(X[1:d + 1] - vertex) < d:
            raise Skip()
        cone = ConvexCone(inp.x(X[1:d + 1]), inp.x(vertex))
        cone.add_points_to_hull(inp.x(X[d + 1:]))
        inp.record('cone', cone.is_inside(inp.x(Q)), cone.is_inside(inp.x(2 * vertex[None] - Q)))
    else:
        r = np.square(X).sum(axis=1)
        y = (r < np.median(r)).astype(float)
        modes = ['persist', 'positive', 'negative']
        if kind < 4:
            model = PolytopeModel(modes[rng.randint(3)])
        else:
            part = gen.random_partition(rng, d)
            model = FactorizedPolytopeModel(part, [modes[rng.randint(3)] for _ in part])
            y = np.stack([np.square(X[:, p]).sum(axis=1) < 4 for p in part], axis=1).astype(float)
        for i in np.array_split(np.arange(len(X)), int(rng.randint(1, len(X)))):
            inp.record('updated', model.update(inp.x(X[i]), inp.y(y[i])), model.is_valid)
            if not model.is_valid:
                break
            inp.record('asked', model.predict(inp.x(Q)))
            if kind > 3:
                inp.record('parts', model.predict_partial(inp.x(Q)))


def categories(rng, inp):
    d, n = int(rng.randint(1, 7)), int(rng.randint(2, 15))
    good = rng.rand(d) < 0.6
    kind = rng.randint(3)
    X = np.eye(d)[rng.randint(d, size=n)] if kind == 0 else (rng.rand(n, d) < 0.5).astype(float)
    if kind:
        X[X.sum(axis=1) == 0, 0] = 1
    y = (X @ ~good == 0).astype(float)
    if kind == 2:
        part = gen.random_partition(rng, d)
        y = np.array([all(hash(tuple(x[p])) % 3 for p in part) for x in X]).astype(float)
    pol = [CategoricalPolytope, MultiSetPolytope][kind]() if kind < 2 else Inference(part)
    for i in np.array_split(np.arange(n), int(rng.randint(1, n + 1))):
        try:
            inp.record('updated', pol.update(inp.x(X[i]), inp.y(y[i])), pol.is_valid)
        except RuntimeError:
            inp.record('contradiction', True)
            break
        if not pol.is_valid:
            break
        inp.record('asked', pol.predict(inp.x(X)))
        if kind == 2:
            inp.record('parts', pol.predict_partial(inp.x(X)))


def optimizer(rng, inp):
    shape = (int(rng.randint(1, 4)), int(rng.randint(1, 5)))
    A, c = rng.normal(size=(shape[1], shape[1])), rng.normal(size=shape)
    H = A @ A.T / shape[1] + 0.1 * np.eye(shape[1])
    func = lambda x: 0.5 * float((((x.reshape(shape) - c) @ H) * (x.reshape(shape) - c)).sum())
    grad = lambda x: (x.reshape(shape) - c) @ H
    p = dict(max_iter=int(rng.randint(1, 15)))
    q = dict(p, step_size=float(10. ** rng.uniform(-2, -0.5)), adapt_step_size=bool(rng.rand() < 0.5), adapt_every=int(rng.randint(1, 4)))
    penalty = [SparseGroupLassoPenalty(0.01, 0.02), L1Penalty(0.01), L2SqrtPenalty(0.02)][rng.randint(3)]
    opt = [lambda: BFGS(**p), lambda: GradientDescent(**q), lambda: Adam(**q), lambda: ProximalGradientDescent(penalty, **q), lambda: FISTA(penalty, **q)][rng.randint(5)]()
    for _ in range(2):
        res = opt.minimize(inp.w(inp.points(rng, *shape)), func, grad)
        inp.record('result', res.x, res.fun, res.success)


def penalties(rng, inp):
    k, d = int(rng.randint(1, 4)), int(rng.randint(1, 5))
    groups = gen.random_partition(rng, d) if rng.rand() < 0.5 else None
    p = [lambda: L1Penalty(0.3), lambda: L2Penalty(0.3), lambda: L2SqrtPenalty(0.3, groups), lambda: SparseGroupLassoPenalty(0.2, 0.3, groups)][rng.randint(4)]()
    for _ in range(3):
        W = inp.points(rng, k, d)
        inp.record('loss', p.loss(inp.w(W)), p.grad(inp.w(W)))
        if not isinstance(p, L2Penalty):
            inp.record('proximal', p.proximal(inp.w(W), 0.7))


def factorized_model(rng, inp):
    d, n = int(rng.randint(1, 5)), int(rng.randint(5, 40))
    X, y = inp.points(rng, n, d), gen.binary_labels(rng, n, both=True)
    kind = rng.randint(5)
    p = dict(max_iter=int(rng.randint(2, 6)))  # many iterations amplify rounding errors without bounds
    q = dict(p, step_size=0.05, batch_size=None if rng.rand() < 0.5 else int(rng.randint(1, n + 1)))
    opt = [lambda: BFGS(**p), lambda: GradientDescent(**q), lambda: Adam(**q), lambda: ProximalGradientDescent(**q), lambda: FISTA(**q)][kind]()
    penalty = SparseGroupLassoPenalty(1e-3, 1e-3) if kind > 2 else L2Penalty(0.01) if rng.rand() < 0.5 else None
    kernel = rng.rand() < 0.3
    model = KernelFactorizationLearner(opt, penalty, kernel='rbf', jitter=1e-6) if kernel else LinearFactorizationLearner(opt, penalty, add_bias=bool(rng.rand() < 0.7))
    for _ in range(2):
        structure = int(rng.randint(1, 4)) if rng.rand() < 0.6 or kernel else gen.random_partition(rng, d)
        x0 = None
        if rng.rand() < 0.5 and not kernel:
            x0 = inp.w(inp.points(rng, structure if isinstance(structure, int) else len(structure), d + model.add_bias))
        model.fit(inp.x(X), inp.y(y), structure, retries=1 if x0 is not None else int(rng.randint(1, 3)), x0=x0)
        inp.record('model', model.weights, model.bias, model.num_subspaces)
        inp.record('probabilities', model.predict(inp.x(X)), model.predict_proba(inp.x(X)), model.partial_proba(inp.x(X)))


def partition_search(rng, inp):
    d, n = int(rng.randint(1, 5)), int(rng.randint(5, 30))
    X, y = inp.points(rng, n, d), gen.binary_labels(rng, n, both=True)
    base = FactorizedLinearLearner(maxiter=int(rng.randint(2, 6)))
    part = gen.random_partition(rng, d)
    x0 = inp.w(inp.points(rng, len(part) + d)) if rng.rand() < 0.5 else None
    clf, loss = base.fit_and_loss(inp.x(X), inp.y(y), part, x0)
    inp.record('fitted', clf.weights, loss, clf.predict_proba(inp.x(X)), clf.predict(inp.x(X)))


def kernels(rng, inp):
    d = int(rng.randint(1, 5))
    X, Q = inp.points(rng, int(rng.randint(3, 20)), d), inp.points(rng, 7, d)
    name = ['linear', 'rbf', 'poly'][rng.randint(3)]
    p = {} if name == 'linear' else {'gamma': None if rng.rand() < 0.5 else float(rng.uniform(0.1, 2))}
    if name == 'poly':
        p['coef0'] = int(rng.randint(0, 3))
        p['degree'] = int(rng.randint(1, 4))
    k = Kernel.get(name, **p)
    k = IncrementedDiagonalKernel(k, 0.01) if rng.rand() < 0.5 else k
    inp.record('matrix', k(inp.x(X)))
    inp.record('cross', k(inp.x(X), inp.x(Q)), k.diagonal(inp.x(Q)))
    t = KernelTransformer.get(name, jitter=0.01, **p)
    t = FactorizedKernelTransform(t, gen.random_partition(rng, d)) if rng.rand() < 0.6 else t
    inp.record('features', t.fit_transform(inp.x(X)))
    inp.record('features again', t.transform(inp.x(Q)), t.n_components)
    inp.record('preprocessed', aluma_preprocessing(inp.x(X), None if rng.rand() < 0.5 else IncrementedDiagonalKernel(Kernel.get('rbf'), 0.01), margin=0.9, H=0., delta=0.5, seed=3)[:, :5])


def sampler(rng, inp):
    d = int(rng.randint(1, 5))
    X = inp.points(rng, int(rng.randint(2, 15)), d)
    w = rng.normal(size=d)
    X = X[np.abs(X @ w) > 0.1]
    if len(X) == 0:
        raise Skip()
    y = (X @ w > 0).astype(float)
    p = L.vs_params(rng, kernel=False)
    s = HitAndRunSampler(**{k: p[k] for k in ('single_chain', 'warmup', 'thin', 'cache_samples', 'rounding', 'rounding_cache', 'rounding_options') if k in p})
    for m in sorted(set(int(v) for v in rng.randint(1, len(X) + 1, size=2))):
        inp.record('samples', s.sample(inp.x(X[:m]), inp.y(y[:m]), 4)[:, :1].shape)
        first = s.sample(inp.x(X[:m]), inp.y(y[:m]), 4)
        inp.record('inside', ((first @ X[:m].T > -1e-9) == (y[:m] == 1)).all())


KINDS = {**{name: learner(name) for name in L.NAMES}, 'dataset': dataset, 'label_sets': label_sets, 'structure': structure, 'categories': categories, 'optimizer': optimizer,
         'penalties': penalties, 'factorized_model': factorized_model, 'partition_search': partition_search, 'kernels': kernels, 'sampler': sampler}
NAMES = list(KINDS)


@workload(quick=len(L.NAMES) * 50, thorough=len(L.NAMES) * 200, cpu=240)
def of_learners(ctx, rng):
    compare(ctx, rng, L.NAMES[ctx.index % len(L.NAMES)])


OTHERS = [k for k in NAMES if k not in L.NAMES]


@workload(quick=len(OTHERS) * 160, thorough=len(OTHERS) * 800, cpu=120)
def of_other_parts(ctx, rng):
    compare(ctx, rng, OTHERS[ctx.index % len(OTHERS)])
