"""
C35: several objects of the package are used side by side in one process, their operations interleaved at random (also in the middle of
minimizations, callbacks and predictions). Each one must answer exactly as when it is the only one which was ever used. Both executions run in
processes of their own, forked from one where nothing of the package was used before.
"""
import contextvars
import copy
import os
import pickle
import select
import signal
import sys
import threading
import time
import traceback
import warnings

import numpy as np

from aideme.active_learning.aluma import aluma_preprocessing
from aideme.active_learning.dsm.convex.convex import ConvexCone, ConvexHull
from aideme.active_learning.dsm.convex.geometry import NegativeCone, PositiveRegion
from aideme.active_learning.dsm.convex.one_dim_convex import OneDimensionalConvexCone, OneDimensionalConvexHull
from aideme.active_learning.dsm.model import FactorizedPolytopeModel, PolytopeModel
from aideme.active_learning.dsm.polytope import CategoricalPolytope, MultiSetPolytope
from aideme.active_learning.factorization.active_learning import FactorizationManager
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent, ProximalGradientDescent
from aideme.active_learning.factorization.partitioning import FactorizedLinearLearner, GreedySelector
from aideme.active_learning.factorization.penalty import L2Penalty, SparseGroupLassoPenalty
from aideme.active_learning.kernel import FactorizedKernelTransform, IncrementedDiagonalKernel, Kernel, KernelTransformer
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.explore.manager import ExplorationManager
from aideme.initial_sampling import random_sampler, stratified_sampler
from aideme.utils.convergence import max_iter_reached
from aideme.utils.metrics import classification_metrics, prediction_entropy, three_set_metric, training_classification_metrics
from aideme.utils.noise import random_noise_injector
from harness.core import Skip, workload
from harness import gen
from harness import learners as L

RULE = ('A case runs two to four objects interleaved, and each of them alone, in fresh processes, and compares everything they answered; '
        'non-trivial when there were at least five switches between them; signature: kinds, seeds and number of answers.')
REQUIRED = {'answers': 9200, 'compared_BayesianKernelVersionSpace': 17, 'compared_BayesianLinearVersionSpace': 17, 'compared_CategoricalActiveLearner': 18, 'compared_DualSpaceModel': 16, 'compared_EntropyReductionLearner': 20, 'compared_FLMUncertaintySampler': 18, 'compared_FactorizedDualSpaceModel': 19, 'compared_KernelVersionSpace': 18, 'compared_LinearVersionSpace': 19, 'compared_MultiSetActiveLearner': 16, 'compared_QueryByDisagreement': 19, 'compared_RandomSampler': 19, 'compared_RatioMargin': 13, 'compared_SimpleMargin': 16, 'compared_SimplifiedSwapLearner': 14, 'compared_SubspatialSimpleMargin': 18, 'compared_SubspatialVersionSpace': 24, 'compared_SwapLearner': 15, 'compared_UncertaintySampler': 17, 'compared_categories': 17, 'compared_dataset': 18, 'compared_factorized_model': 19, 'compared_kernels': 17, 'compared_manager': 20, 'compared_optimizer': 19, 'compared_partition_search': 17, 'compared_sampler': 17, 'compared_stability': 20, 'compared_structure': 17, 'switches': 4400}
ASSUMPTIONS = ['the metric log is shared by design: logged metrics and interleaved runs of explorations are not compared', 'every object has its own state of the global random generator, restored whenever it is its turn']


class Solo:
    """ nobody else: nothing to wait for """
    switches = 0

    def pause(self):
        pass


class Turns:
    """ scripts in threads, only one of which runs at any moment; whoever pauses hands over to a random one """
    def __init__(self, rng):
        self.rng = rng
        self.lock = threading.Condition()
        self.waiting = []
        self.current = None
        self.states = {}
        self.switches = 0

    def run(self, scripts):
        self.waiting = list(range(len(scripts)))
        self.current = self.waiting[self.rng.randint(len(scripts))]

        def body(i, script):
            with self.lock:
                self.lock.wait_for(lambda: self.current == i)
            try:
                script()
            finally:
                with self.lock:
                    self.waiting.remove(i)
                    self.current = self.waiting[self.rng.randint(len(self.waiting))] if self.waiting else None
                    self.lock.notify_all()

        threads = [threading.Thread(target=contextvars.copy_context().run, args=(body, i, s)) for i, s in enumerate(scripts)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    def pause(self):
        with self.lock:
            me = self.current
            other = self.waiting[self.rng.randint(len(self.waiting))]
            if other == me:
                return
            state = np.random.get_state()
            self.switches += 1
            self.current = other
            self.lock.notify_all()
            self.lock.wait_for(lambda: self.current == me)
            np.random.set_state(state)


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v.item() if isinstance(v, np.generic) else v


class Script:
    """ one object being used: what it answers is recorded """
    def __init__(self, kind, seed, turns):
        self.kind, self.seed, self.turns = kind, seed, turns
        self.answers, self.error = [], None

    def __call__(self):
        np.random.seed(self.seed)
        rng = np.random.RandomState(self.seed)
        try:
            KINDS[self.kind](rng, self.record)
        except Skip:
            self.error = 'Skip'
        except Exception:
            self.error = traceback.format_exc()

    def record(self, what, *values):
        self.answers.append((what, repr([plain(v) for v in values])))
        self.turns.pause()


def in_child(function, timeout=200):
    """ the result of function in a new process; None when it takes too long """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(function()))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.monotonic() + timeout
    try:
        while True:
            if not select.select([r], [], [], max(0., end - time.monotonic()))[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return None, None
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
    finally:
        os.close(r)
    status = os.waitpid(pid, 0)[1]
    return status, pickle.loads(b''.join(chunks)) if status == 0 else None


def alone(kind, seed):
    s = Script(kind, seed, Solo())
    s()
    return [(s.answers, s.error)], 0


def together(specs, seed):
    turns = Turns(np.random.RandomState(seed))
    scripts = [Script(k, s, turns) for k, s in specs]
    turns.run(scripts)
    return [(s.answers, s.error) for s in scripts], turns.switches


def side_by_side(ctx, rng, kinds):
    specs, expected = [], []
    seed = int(rng.randint(2 ** 31))
    for n, k in enumerate(kinds):
        if n and rng.rand() < 0.1:  # equal objects, used on equal data
            specs.append(specs[0])
            expected.append(expected[0])
            continue
        for attempt in range(5):
            s = int(rng.randint(2 ** 31))
            status, result = in_child(lambda: alone(k, s))
            if status != 0 or result[0][0][1] != 'Skip':
                break
        if status is None:
            ctx.event('too_slow')
            raise Skip()
        ctx.check(status == 0, '{} alone, seed {}: the process died with status {}', k, s, status)
        answers, error = result[0][0]
        if error is not None:
            ctx.check(error == 'Skip', '{} alone, seed {}: {}', k, s, error)
            raise Skip()
        specs.append((k, s))
        expected.append(answers)
    status, result = in_child(lambda: together(specs, seed))
    if status is None:
        ctx.event('too_slow')
        raise Skip()
    ctx.check(status == 0, '{} side by side: the process died with status {}', specs, status)
    got, switches = result
    for (kind, s), want, (answers, error) in zip(specs, expected, got):
        ctx.check(error is None, '{} next to {}: {}', kind, [k for k, _ in specs], error)
        for i, (a, b) in enumerate(zip(want, answers)):
            ctx.check(a == b, '{} next to {}: answer {} ({}) is {:.300}, and {:.300} when it is alone', kind, [k for k, _ in specs], i, b[0], b[1], a[1])
        ctx.check(len(want) == len(answers), '{}: {} answers, {} alone', kind, len(answers), len(want))
        ctx.event('compared_' + kind)
        ctx.event('answers', len(want))
    ctx.event('switches', switches)
    if switches >= 5:
        ctx.case(specs, [len(a) for a in expected])
    ctx.sample(kinds=kinds, switches=switches, answers=[len(a) for a in expected])


# ---------------------------------------------------------------------------------------------------------------- objects

def explored(rng, name):
    d = int(rng.choice([2, 3, 4]) if name in L.FACTORIZED else rng.choice([1, 2, 2, 3]))
    k = int(rng.randint(1, min(d, 3) + 1))
    cfg = L.config(rng, name, d, k)
    n = int(rng.randint(20 if isinstance(cfg.domain, tuple) else 8, min(cfg.max_n, 30) + 1))
    made = L.dataset(rng, cfg.domain, n, d)
    if made is None:
        raise Skip()
    return (cfg,) + made


def learner(name):
    def script(rng, record):
        cfg, X, y, P = explored(rng, name)
        ls = LabeledSet(y, P, gen.index_values(rng, len(X)))
        data = PartitionedDataset(X, ls.index)
        model = cfg.make()
        record('made', 0)
        data.move_to_labeled(ls.get_index(stratified_sampler(ls, neg_in_all_subspaces=True)(data)))
        record('first points', data.labeled.index)
        for it in range(int(rng.randint(2, min(6, cfg.max_iter) + 1))):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                model.fit_data(data)
            record('inferred', data.inferred.index, data.unknown.index)
            record('labels', model.predict(X))
            record('probabilities', model.predict_proba(X))
            if data.unlabeled_size == 0:
                break
            chosen = model.next_points_to_label(data, None if rng.rand() < 0.5 else int(rng.randint(1, 10))).index
            record('proposal', chosen)
            data.move_to_labeled(ls.get_index(chosen))
        if rng.rand() < 0.3:
            model.clear()
            data.clear()
            record('cleared', 0)
    return script


def dataset(rng, record):
    n = int(rng.choice([3, 8, 20]))
    X, k = gen.identified_data(rng, n, 2), rng.randint(1, 4)
    data = PartitionedDataset(X, gen.index_values(rng, n), copy=bool(rng.rand() < 0.5))
    for _ in range(rng.randint(5, 15)):
        op = rng.randint(6)
        if op < 3 and data.unlabeled_size:
            some = gen.random_subset(rng, data.unlabeled.index, rng.randint(1, 4))
            if op == 0:
                data.move_to_inferred(gen.random_subset(rng, data.unknown.index, 2))
            else:
                y = gen.binary_labels(rng, len(some))
                data.move_to_labeled(LabeledSet(y, gen.partial_labels(rng, y, k), some))
        elif op == 3 and data.labeled_size:
            data.move_to_unknown(gen.random_subset(rng, data.labeled.index, 1))
        elif op == 4:
            data.remove_inferred()
        elif op == 5 and rng.rand() < 0.2:
            data.clear()
        record('parts', data.labeled.index, data.inferred.index, data.unknown.index)
        record('labels', data.labeled_set.index, data.labeled_set.labels, data.labeled_set.partial)
        record('training', *data.training_set(), *data.last_training_set()) if data.labeled_size else record('sample', data.unknown.sample(3).index)


def manager(rng, record):
    name = L.NAMES[rng.randint(len(L.NAMES))]
    cfg, X, y, P = explored(rng, name)
    ls = LabeledSet(y, P, gen.index_values(rng, len(X)))
    scores = [three_set_metric, prediction_entropy, classification_metrics(X, y, ['fscore', 'accuracy'], prefix='all_'), training_classification_metrics(['precision'])]
    noise = random_noise_injector(0.2, skip_initial=2) if cfg.domain == 'any' and 'VersionSpace' not in name and name != 'EntropyReductionLearner' else None

    def callback(data, model):
        if not data.labeled_set.has_positive_and_negative_labels():
            return {}
        out = {}
        for f in scores:
            got = f(data, model)
            record('metric', got)
            out.update(got or {})
        return out

    m = ExplorationManager(PartitionedDataset(X, ls.index), cfg.make(), subsampling=None if rng.rand() < 0.5 else int(rng.randint(1, 10)), initial_sampler=random_sampler(2) if rng.rand() < 0.4 and P is None else stratified_sampler(ls, neg_in_all_subspaces=True),
                           callback=callback, callback_skip=int(rng.randint(1, 3)), convergence_criteria=max_iter_reached(int(rng.randint(2, 7))))
    for it in range(int(rng.randint(3, 7))):
        chosen = m.get_next_to_label()
        if chosen is None:
            break
        record('points', chosen.index, m.phase.name)
        new = ls.get_index(chosen.index)
        if noise is not None:
            new = noise(it, new)
            record('noisy labels', new.labels)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m.update(new)
        record('updated', m.iters, m.phase.name, m.data.labeled.index)
        record('converged', m.converged())
        m.get_callback_metrics()
    if m.is_exploration_phase:
        final = m.compute_user_labels_prediction()
        record('final', final.index, final.labels)


def structure(rng, record):
    kind = rng.randint(7)
    d = int(rng.choice([2, 3])) if kind < 2 else int(rng.choice([1, 2, 3]))
    X = rng.normal(size=(int(rng.randint(d + 2, 20)), d))
    if kind in (1, 4):
        X[0] *= 8 / np.linalg.norm(X[0])  # a vertex outside of the hull of the other points
    Q = np.r_[rng.normal(size=(15, d)), X]
    a = d + 1
    if kind == 0:
        hull = ConvexHull(X[:a].copy())
        steps = [lambda: hull.add_points(X[a:].copy()), lambda: record('vertices', hull.vertices)]
        ask = lambda: hull.is_inside(Q)
    elif kind == 1:
        hull = ConvexCone(X[1:a + 1].copy(), X[0].copy())
        steps = [lambda: hull.add_points_to_hull(X[a + 1:].copy())] if len(X) > a + 1 else []
        ask = lambda: hull.is_inside(Q)
    elif kind == 2:
        X, Q = X[:, :1], Q[:, :1]
        hull = OneDimensionalConvexHull(X[:1]) if rng.rand() < 0.5 else OneDimensionalConvexCone(X[1:2] + 1 + np.abs(X[0]), float(X[0, 0]))
        steps = [lambda: hull.add_points(X[1:])] if isinstance(hull, OneDimensionalConvexHull) else []
        ask = lambda: hull.is_inside(Q)
    elif kind == 3:
        region = PositiveRegion()
        steps = [lambda x=x: region.update(x.copy()) for x in np.array_split(X, int(rng.randint(1, len(X))))]
        ask = lambda: [region.is_built, region.is_inside(Q) if region.is_built else None]
    elif kind == 4:
        region = NegativeCone(X[:1].copy())
        steps = [lambda x=x: region.add_points_to_hull(x.copy()) for x in np.array_split(X[1:], int(rng.randint(1, len(X) - 1)))] if d > 1 else []
        ask = lambda: [region.is_built, region.is_inside(Q) if region.is_built else None]
    else:
        r = np.square(X).sum(axis=1)
        y = (r < np.median(r)).astype(float)
        modes = ['persist', 'positive', 'negative']
        if kind == 5:
            model = PolytopeModel(modes[rng.randint(3)])
        else:
            part = gen.random_partition(rng, d)
            model = FactorizedPolytopeModel(part, [modes[rng.randint(3)] for _ in part])
            y = np.stack([np.square(X[:, p]).sum(axis=1) < 1 for p in part], axis=1).astype(float)
        steps = [lambda i=i: record('valid', model.update(X[i].copy(), y[i].copy()) if model.is_valid else None, model.is_valid) for i in np.array_split(np.arange(len(X)), int(rng.randint(1, len(X))))]
        ask = lambda: model.predict(Q) if model.is_valid else None
    record('asked', ask() if kind < 3 else 0)
    for step in steps:
        step()
        record('asked', ask())


def categories(rng, record):
    d = int(rng.randint(1, 7))
    good = rng.rand(d) < 0.6
    kind = rng.randint(2)
    pol = [CategoricalPolytope, MultiSetPolytope][kind]()
    n = int(rng.randint(2, 15))
    X = np.eye(d)[rng.randint(d, size=n)] if kind == 0 else (rng.rand(n, d) < 0.5).astype(float)
    if kind:
        X[X.sum(axis=1) == 0, 0] = 1
    y = (X @ ~good == 0).astype(float)
    for i in np.array_split(np.arange(n), int(rng.randint(1, n + 1))):
        record('updated', pol.update(X[i], y[i]) if pol.is_valid else None, pol.is_valid)
        record('asked', pol.predict(X))
        if rng.rand() < 0.05:
            pol.clear()


def optimizer(rng, record):
    shape = (int(rng.randint(1, 4)), int(rng.randint(1, 5)))
    A, c = rng.normal(size=(shape[1], shape[1])), rng.normal(size=shape)
    H = A @ A.T / shape[1] + 0.1 * np.eye(shape[1])
    func = lambda x: 0.5 * float((((x.reshape(shape) - c) @ H) * (x.reshape(shape) - c)).sum())

    def grad(x):
        if rng.rand() < 0.3:
            record('gradient', x)
        return (x.reshape(shape) - c) @ H

    def seen(x):
        record('iterate', x)

    kind = rng.randint(5)
    p = dict(max_iter=int(rng.randint(1, 15)), callback=seen)
    q = dict(p, step_size=float(10. ** rng.uniform(-2, -0.5)), adapt_step_size=bool(rng.rand() < 0.5), adapt_every=int(rng.randint(1, 4)))
    penalty = SparseGroupLassoPenalty(0.01, 0.02)
    opt = [lambda: BFGS(**p), lambda: GradientDescent(**q), lambda: Adam(**q), lambda: ProximalGradientDescent(penalty, **q), lambda: FISTA(penalty, **q)][kind]()
    for _ in range(2):
        res = opt.minimize(rng.normal(size=shape), func, grad)
        record('result', res.x, res.fun, res.success)


def factorized_model(rng, record):
    d, n = int(rng.randint(1, 5)), int(rng.randint(5, 40))
    X, y = rng.normal(size=(n, d)), gen.binary_labels(rng, n, both=True)
    opt = [Adam, GradientDescent][rng.randint(2)](step_size=0.1, max_iter=int(rng.randint(2, 20)), batch_size=None if rng.rand() < 0.5 else int(rng.randint(1, n + 1)), callback=lambda x: record('iterate', x))
    model = LinearFactorizationLearner(opt, L2Penalty(0.01) if rng.rand() < 0.5 else None, add_bias=bool(rng.rand() < 0.7))
    for _ in range(2):
        model.fit(X, y, int(rng.randint(1, 4)) if rng.rand() < 0.6 else gen.random_partition(rng, d), retries=int(rng.randint(1, 3)))
        record('model', model.weights, model.bias, model.num_subspaces)
        record('probabilities', model.predict_proba(X), model.partial_proba(X))


def partition_search(rng, record):
    d, n = int(rng.randint(1, 5)), int(rng.randint(5, 30))
    X, y = rng.normal(size=(n, d)), gen.binary_labels(rng, n, both=True)
    base = FactorizedLinearLearner(maxiter=int(rng.randint(2, 20)))

    class Slow:
        def __getattr__(self, name):
            f = getattr(base, name)

            def call(*args, **kwargs):
                record(name, args[2])
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return f(*args, **kwargs)
            return call
    record('best', GreedySelector()(X, y, Slow()))


def kernels(rng, record):
    d = int(rng.randint(1, 5))
    X, Q = rng.normal(size=(int(rng.randint(3, 20)), d)), rng.normal(size=(7, d))
    name = ['linear', 'rbf', 'poly'][rng.randint(3)]
    p = {} if name == 'linear' else {'gamma': None if rng.rand() < 0.5 else float(rng.uniform(0.1, 2))}
    k = Kernel.get(name, **p)
    k = IncrementedDiagonalKernel(k, 1e-6) if rng.rand() < 0.5 else k
    record('matrix', k(X))
    record('cross', k(X, Q), k.diagonal(Q))
    t = KernelTransformer.get(name, jitter=1e-6, **p)
    t = FactorizedKernelTransform(t, gen.random_partition(rng, d)) if rng.rand() < 0.6 else t
    record('features', t.fit_transform(X))
    u = t.clone()
    u.fit(Q)
    record('clone', u.transform(X))
    record('features again', t.transform(Q), t.n_components)


def sampler(rng, record):
    d = int(rng.randint(1, 5))
    X = rng.normal(size=(int(rng.randint(2, 15)), d))
    w = rng.normal(size=d)
    X = X + np.sign(X @ w)[:, None] * 0.1 * w / np.sqrt(w @ w)
    y = (X @ w > 0).astype(float)
    p = L.vs_params(rng, kernel=False)
    s = HitAndRunSampler(**{k: p[k] for k in ('single_chain', 'warmup', 'thin', 'cache_samples', 'rounding', 'rounding_cache', 'rounding_options') if k in p})
    for m in sorted(set(int(v) for v in rng.randint(1, len(X) + 1, size=3))):
        record('samples', s.sample(X[:m].copy(), y[:m].copy(), 8))
        if rng.rand() < 0.1:
            s.clear()
            record('cleared', 0)


def stability(rng, record):
    d = int(rng.randint(2, 6))
    user = gen.random_partition(rng, d)
    m = FactorizationManager(user if rng.rand() < 0.5 else None, stable_count=int(rng.randint(1, 4)))
    for _ in range(rng.randint(3, 12)):
        f = [sorted(g) for g in (user if rng.rand() < 0.7 else gen.random_partition(rng, d))]
        m.update(copy.deepcopy(f))
        record('switch', m.can_switch_to_full_factorization(f))
        if rng.rand() < 0.2:
            m.set_user_fact(user)
        if rng.rand() < 0.05:
            m.clear()


KINDS = {**{name: learner(name) for name in L.NAMES}, 'dataset': dataset, 'manager': manager, 'structure': structure, 'categories': categories, 'optimizer': optimizer,
         'factorized_model': factorized_model, 'partition_search': partition_search, 'kernels': kernels, 'sampler': sampler, 'stability': stability}
NAMES = list(KINDS)


@workload(quick=len(NAMES) * 12, thorough=len(NAMES) * 150, cpu=240)
def same_kind(ctx, rng):
    """ different objects of one kind """
    kind = NAMES[ctx.index % len(NAMES)]
    side_by_side(ctx, rng, [kind] * int(rng.choice([2, 2, 3])))


@workload(quick=120, thorough=2500, cpu=240)
def mixed_kinds(ctx, rng):
    side_by_side(ctx, rng, [NAMES[i] for i in rng.randint(len(NAMES), size=int(rng.randint(2, 5)))])
