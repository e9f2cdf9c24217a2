"""
C37: whatever an exploration, training or sampling was interrupted at - the stop button at any line, or an error of a component of the user - the
objects taking part can be reset and used again, and then answer like new ones.
"""
import os
import sys
import warnings

import numpy as np

from aideme.active_learning.dsm.model import FactorizedPolytopeModel, PolytopeModel
from aideme.active_learning.dsm.polytope import CategoricalPolytope, MultiSetPolytope
from aideme.active_learning.factorization.active_learning import FactorizationManager
from aideme.active_learning.factorization.kernel import KernelFactorizationLearner
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent, ProximalGradientDescent
from aideme.active_learning.factorization.partitioning import FactorizedLinearLearner
from aideme.active_learning.factorization.penalty import L2Penalty, SparseGroupLassoPenalty
from aideme.active_learning.inference.inference import Inference
from aideme.active_learning.kernel import FactorizedKernelTransform, KernelTransformer
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.explore.manager import ExplorationManager
from aideme.initial_sampling import stratified_sampler
from aideme.utils import metric_logger
from aideme.utils.convergence import max_iter_reached
from harness.core import REPO, Skip, workload
from harness import gen
from harness import learners as L
from checks.c07 import Setup, difference, plain, some_seed

RULE = ('A case interrupts one piece of work of an object at a random point, resets the object, lets it do the work again and compares with a new '
        'object; non-trivial when the interruption happened before the work was done; signature: object, place of the interruption and answers.')
REQUIRED = {'failed_callback': 21, 'failed_criterion': 19, 'failed_line': 16, 'failed_sampler': 2, 'failed_user': 20, 'interruptions': 350, 'lines': 870000, 'misfits_refused': 90, 'reset_BayesianKernelVersionSpace': 5, 'reset_BayesianLinearVersionSpace': 5, 'reset_CategoricalActiveLearner': 5, 'reset_DualSpaceModel': 5, 'reset_EntropyReductionLearner': 5, 'reset_FLMUncertaintySampler': 5, 'reset_KernelVersionSpace': 5, 'reset_LinearVersionSpace': 5, 'reset_MultiSetActiveLearner': 5, 'reset_QueryByDisagreement': 5, 'reset_RandomSampler': 5, 'reset_RatioMargin': 5, 'reset_SimpleMargin': 5, 'reset_SimplifiedSwapLearner': 5, 'reset_SubspatialSimpleMargin': 5, 'reset_SubspatialVersionSpace': 3, 'reset_SwapLearner': 5, 'reset_UncertaintySampler': 5, 'restarted_BayesianKernelVersionSpace': 5, 'restarted_BayesianLinearVersionSpace': 5, 'restarted_CategoricalActiveLearner': 5, 'restarted_DualSpaceModel': 5, 'restarted_EntropyReductionLearner': 5, 'restarted_FLMUncertaintySampler': 5, 'restarted_FactorizedDualSpaceModel': 3, 'restarted_KernelVersionSpace': 5, 'restarted_LinearVersionSpace': 5, 'restarted_MultiSetActiveLearner': 5, 'restarted_QueryByDisagreement': 5, 'restarted_RandomSampler': 5, 'restarted_RatioMargin': 5, 'restarted_SimpleMargin': 5, 'restarted_SimplifiedSwapLearner': 5, 'restarted_SubspatialSimpleMargin': 5, 'restarted_SubspatialVersionSpace': 4, 'restarted_SwapLearner': 5, 'restarted_UncertaintySampler': 5, 'stopped': 470, 'used_again_categories': 27, 'used_again_factorized_model': 27, 'used_again_kernel_features': 27, 'used_again_optimizer': 27, 'used_again_partition_fit': 27, 'used_again_polytope': 27, 'used_again_sampler': 27, 'used_again_stability': 27}
ASSUMPTIONS = ['exchanging rows inside a partitioned data set is not interrupted when the very data set is used again', 'runs start with a seed, which restores the random generator']

SOURCE = os.path.join(os.path.realpath(REPO), 'aideme') + os.sep
SWAPPING = tuple(os.path.join(SOURCE, 'explore', f) for f in ('partitioned.py', 'index.py', 'labeledset.py'))


class Stop(KeyboardInterrupt):
    """ the user pressed the stop button """


class Tracer:
    """ counts executed lines of the package, and stops at a given one """
    def __init__(self, at=None, spared=()):
        self.at, self.spared, self.count, self.where = at, spared, 0, None
        self.known = {}

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name not in self.known:
            path = os.path.realpath(name)
            self.known[name] = path.startswith(SOURCE) and path not in self.spared
        return self.line if self.known[name] else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.count == self.at:
                self.where = (os.path.relpath(os.path.realpath(frame.f_code.co_filename), SOURCE), frame.f_code.co_name, frame.f_lineno)
                raise Stop()
        return self.line

    def run(self, work):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return work()
        finally:
            sys.settrace(old)


def interrupt(ctx, rng, count_on, work, spared=()):
    """ :return: where work was interrupted; count_on does the same on another object, which tells the number of lines """
    counter = Tracer(spared=spared)
    counter.run(count_on)
    if counter.count == 0:
        raise Skip()
    at = int(np.exp(rng.uniform(0, np.log(counter.count + 1)))) if rng.rand() < 0.3 else int(rng.randint(1, counter.count + 1))
    tracer = Tracer(at, spared)
    try:
        tracer.run(work)
    except KeyboardInterrupt:
        ctx.event('stopped')
    else:
        ctx.check(tracer.where is None, 'the stop button pressed at {} was ignored', tracer.where)
    return tracer.where, counter.count


def name_of(where):
    return '{}:{}'.format(*where[:2])


@workload(quick=len(L.NAMES) * 12, thorough=len(L.NAMES) * 250, cpu=300)
def runs(ctx, rng):
    """ the stop button during a whole exploration, which is then started over """
    s = Setup(rng, L.NAMES[ctx.index % len(L.NAMES)])
    seed = some_seed(rng)
    want = s.run(s.cfg.make(), seed)[0]
    used = s.cfg.make()
    other, other_seed = s, seed
    if rng.rand() < 0.3:
        other_seed = some_seed(rng)
    if rng.rand() < 0.3:
        s.run(used, some_seed(rng))
    X, y = s.X.copy(), s.y.copy()
    where, lines = interrupt(ctx, rng, lambda: s.run(s.cfg.make(), other_seed), lambda: s.run(used, other_seed))
    ctx.check((X == s.X).all() and (y == s.y).all(), '{}: an interruption at {} left changed data of the user', s.cfg, where)
    got = s.run(used, seed)[0]
    diff = difference(want, got)
    ctx.check(diff is None, '{}: interrupted at {}, and started over, the exploration differs from that of a new learner: {}', s.cfg, where, diff)
    ctx.event('restarted_' + s.cfg.name)
    ctx.event('lines', lines)
    if where:
        ctx.event('stopped_in_' + where[0].split(os.sep)[0])
        ctx.case(repr(s.cfg), where, len(want))
    ctx.sample(learner=repr(s.cfg), where=where, lines=lines)


class Failure(Exception):
    """ of a component written by the user """


class Failing:
    """ a component failing at its n-th call """
    def __init__(self, f, calls):
        self.f, self.left = f, calls

    def __call__(self, *args):
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                raise Failure()
        return self.f(*args)


@workload(quick=len(L.NAMES) * 12, thorough=len(L.NAMES) * 250, cpu=300)
def managers(ctx, rng):
    """ a learner or component of the user fails in the middle: no point is lost, and after a reset everything starts over """
    s = Setup(rng, L.NAMES[ctx.index % len(L.NAMES)])
    seed = some_seed(rng)
    ls = LabeledSet(s.y, s.P, s.idx)
    kind = ['line', 'callback', 'criterion', 'sampler', 'user'][rng.randint(5)]
    when = int(rng.randint(1, s.limit + 1))

    def predicted(data, learner):
        if not data.labeled_set.has_positive_and_negative_labels():
            return {}
        return {'labels': plain(np.asarray(learner.predict(s.X))), 'probas': plain(np.asarray(learner.predict_proba(s.X)))}

    def build(failing):
        def part(name, f):
            return Failing(f, when if failing and kind == name else None)
        asked = part('user', lambda points: ls.get_index(points.index))
        m = ExplorationManager(PartitionedDataset(s.X, s.idx), s.cfg.make(), subsampling=s.subsampling, initial_sampler=part('sampler', stratified_sampler(ls, neg_in_all_subspaces=True)),
                               callback=part('callback', predicted), convergence_criteria=part('criterion', max_iter_reached(s.limit)))
        return m, asked

    def explore(m, asked, out):
        np.random.seed(seed % 2 ** 32)
        m.clear()
        metric_logger.flush()
        while not m.converged():
            new = asked(m.get_next_to_label())
            out.append({'labeled_indexes': plain(new.index)})
            m.update(new)
            out[-1].update({k: plain(v) for k, v in m.get_callback_metrics().items() if 'time' not in k})
            out[-1]['parts'] = [plain(m.data.labeled.index), plain(m.data.inferred.index), plain(m.data.unknown.index)]
            metric_logger.flush()
        return out

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = explore(*build(False), [])
        m, asked = build(True)
        done, where = [], None
        if kind == 'line':
            where, _ = interrupt(ctx, rng, lambda: explore(*build(False), []), lambda: explore(m, asked, done), SWAPPING)
        else:
            try:
                explore(m, asked, done)
            except Failure:
                where = (kind, when)
        for f in (m.callbacks + [asked, m.initial_sampler] + m.convergence_criteria):
            if isinstance(f, Failing):
                f.left = None
        # nothing is lost, and every label is the user's
        parts = [plain(p.index) for p in (m.data.labeled, m.data.inferred, m.data.unknown)]
        ctx.check(sorted(sum(parts, [])) == sorted(plain(s.idx)), '{}: after a failure ({}) the parts are {}, of {}', s.cfg, where, parts, plain(s.idx))
        got = m.data.labeled_set
        true = ls.get_index(got.index) if len(got) else got
        ctx.check(plain(true.labels) == plain(got.labels) and plain(true.partial) == plain(got.partial), '{}: after a failure ({}) labels of {} are {}, and were {}', s.cfg, where, plain(got.index), plain(got.labels), plain(true.labels))
        given = [i for o in done for i in o['labeled_indexes']]
        ctx.check(set(plain(got.index)) <= set(given) and set(given) - set(plain(got.index)) <= set(done[-1]['labeled_indexes'] if done else []), '{}: after a failure ({}) labeled points are {}, and those labeled by the user were {}', s.cfg, where, plain(got.index), given)
        again = explore(m, asked, [])
    diff = difference(want, again)
    ctx.check(diff is None, '{}: after a failure ({}) and a reset the exploration differs from that of new objects: {}', s.cfg, where, diff)
    ctx.event('reset_' + s.cfg.name)
    if where:
        ctx.event('failed_' + kind)
        ctx.case(repr(s.cfg), kind, where, len(want))
    ctx.sample(learner=repr(s.cfg), kind=kind, where=where, iterations=len(want))


# ---------------------------------------------------------------------------------------------------------------- other objects
# each script returns a function making an object, and a function which makes it work (with sign -1: on other data) and returns what it answered

def optimizer(rng):
    shape = (int(rng.randint(1, 4)), int(rng.randint(1, 5)))
    A, c = rng.normal(size=(shape[1], shape[1])), rng.normal(size=shape)
    H = A @ A.T / shape[1] + 0.1 * np.eye(shape[1])
    kind, n, rate, adapt = rng.randint(5), int(rng.randint(2, 15)), float(10. ** rng.uniform(-2, -0.5)), bool(rng.rand() < 0.5)
    penalty = SparseGroupLassoPenalty(0.01, 0.02)
    x0 = rng.normal(size=shape)

    def make():
        q = dict(max_iter=n, step_size=rate, adapt_step_size=adapt)
        return [lambda: BFGS(max_iter=n), lambda: GradientDescent(**q), lambda: Adam(**q), lambda: ProximalGradientDescent(penalty, **q), lambda: FISTA(penalty, **q)][kind]()

    def work(o, sign=1):
        goal = sign * c
        res = o.minimize(x0, lambda x: 0.5 * float((((x.reshape(shape) - goal) @ H) * (x.reshape(shape) - goal)).sum()), lambda x: (x.reshape(shape) - goal) @ H)
        return [res.x, res.fun, res.success, res.it if 'it' in res else None]
    return make, work


def factorized_model(rng):
    d, n = int(rng.randint(1, 5)), int(rng.randint(5, 40))
    X, y = rng.normal(size=(n, d)), gen.binary_labels(rng, n, both=True)
    kind, batch, steps, bias = rng.randint(4), None if rng.rand() < 0.5 else int(rng.randint(1, n + 1)), int(rng.randint(2, 15)), bool(rng.rand() < 0.7)
    kernel = rng.rand() < 0.3
    what, retries = int(rng.randint(1, 4)) if rng.rand() < 0.6 or kernel else gen.random_partition(rng, d), int(rng.randint(1, 3))

    def make():
        q = dict(max_iter=steps, step_size=0.05, batch_size=batch)
        opt = [lambda: BFGS(max_iter=steps), lambda: Adam(**q), lambda: ProximalGradientDescent(**q), lambda: FISTA(**q)][kind]()
        penalty = SparseGroupLassoPenalty(1e-3, 1e-3) if kind > 1 else L2Penalty(0.01)
        return KernelFactorizationLearner(opt, penalty, jitter=1e-6) if kernel else LinearFactorizationLearner(opt, penalty, add_bias=bias)

    def work(m, sign=1):
        np.random.seed(5)
        m.fit(X * sign, y, what, retries=retries)
        return [m.weights, m.bias, m.num_subspaces, m.predict(X), m.predict_proba(X), m.partial_proba(X)]
    return make, work


def partition_fit(rng):
    d, n = int(rng.randint(1, 5)), int(rng.randint(5, 30))
    X, y, part = rng.normal(size=(n, d)), gen.binary_labels(rng, n, both=True), gen.random_partition(rng, d)

    def work(m, sign=1):
        clf, loss = m.fit_and_loss(X * sign, y, part)
        return [clf.weights, loss, clf.predict_proba(X)]
    return lambda: FactorizedLinearLearner(maxiter=5), work


def sampler(rng):
    d = int(rng.randint(1, 5))
    X, w = rng.normal(size=(int(rng.randint(2, 15)), d)), rng.normal(size=d)
    X = X + np.sign(X @ w)[:, None] * 0.1 * w / np.sqrt(w @ w)
    y = (X @ w > 0).astype(float)
    p = L.vs_params(rng, kernel=False)
    sizes = sorted(set(int(v) for v in rng.randint(1, len(X) + 1, size=3)))

    def work(s, sign=1):
        s.clear()
        np.random.seed(3)
        return [s.sample(X[:m] * sign, y[:m].copy(), 6) for m in sizes]
    return lambda: HitAndRunSampler(**{k: p[k] for k in ('single_chain', 'warmup', 'thin', 'cache_samples', 'rounding', 'rounding_cache', 'rounding_options') if k in p}), work


def polytope(rng):
    d = int(rng.choice([1, 2, 3]))
    X = rng.normal(size=(int(rng.randint(d + 2, 20)), d))
    Q, r = rng.normal(size=(10, d)), np.square(X).sum(axis=1)
    y, mode, part = (r < np.median(r)).astype(float), ['persist', 'positive', 'negative'][rng.randint(3)], None
    if rng.rand() < 0.5:
        part = gen.random_partition(rng, d)
        y = np.stack([np.square(X[:, p]).sum(axis=1) < 1 for p in part], axis=1).astype(float)
    batches = np.array_split(np.arange(len(X)), int(rng.randint(1, len(X))))

    def work(m, sign=1):
        m.clear()
        out = []
        for i in batches:
            if not m.is_valid:
                break
            out.append([m.update(sign * X[i] + (1 - sign), y[i]), m.is_valid])
            if m.is_valid:
                out.append(m.predict(Q))
        return out
    return lambda: PolytopeModel(mode) if part is None else FactorizedPolytopeModel(part, mode), work


def categories(rng):
    d, n, kind = int(rng.randint(1, 7)), int(rng.randint(2, 15)), rng.randint(3)
    good = rng.rand(d) < 0.6
    X = np.eye(d)[rng.randint(d, size=n)] if kind == 0 else (rng.rand(n, d) < 0.5).astype(float)
    if kind:
        X[X.sum(axis=1) == 0, 0] = 1
    y = (X @ ~good == 0).astype(float)
    part = gen.random_partition(rng, d)
    batches = np.array_split(np.arange(n), int(rng.randint(1, n + 1)))

    def work(m, sign=1):
        m.clear()
        out = []
        for i in batches:
            if not m.is_valid:
                break
            out.append([m.update(X[:, ::sign][i], y[i]), m.is_valid, m.predict(X)])
        return out
    return [CategoricalPolytope, MultiSetPolytope, lambda: Inference(part)][kind], work


def kernel_features(rng):
    d = int(rng.randint(1, 5))
    X, Q = rng.normal(size=(int(rng.randint(3, 20)), d)), rng.normal(size=(7, d))
    part = gen.random_partition(rng, d) if rng.rand() < 0.6 else None
    name = ['linear', 'rbf', 'poly'][rng.randint(3)]

    def make():
        t = KernelTransformer.get(name, jitter=1e-6)
        return t if part is None else FactorizedKernelTransform(t, part)
    return make, lambda t, sign=1: [t.fit_transform(X[::sign] * sign), t.transform(Q), t.n_components]


def stability(rng):
    d = int(rng.randint(2, 6))
    user = gen.random_partition(rng, d) if rng.rand() < 0.5 else None
    seen = [[sorted(g) for g in gen.random_partition(rng, d)] for _ in range(3)]
    order, stable = rng.randint(3, size=int(rng.randint(3, 15))), int(rng.randint(1, 4))

    def work(m, sign=1):
        m.clear()
        out = []
        for i in order[::sign]:
            m.update(seen[i])
            out.append(m.can_switch_to_full_factorization(seen[i]))
        return out
    return lambda: FactorizationManager(user, stable_count=stable), work


KINDS = {f.__name__: f for f in (optimizer, factorized_model, partition_fit, sampler, polytope, categories, kernel_features, stability)}


@workload(quick=len(KINDS) * 120, thorough=len(KINDS) * 1500, cpu=120)
def parts(ctx, rng):
    kind = list(KINDS)[ctx.index % len(KINDS)]
    make, work = KINDS[kind](rng)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = repr(plain(work(make())))
        used = make()
        if rng.rand() < 0.3:
            work(used, -1)
        stops = []
        for _ in range(int(rng.randint(1, 4))):
            sign = int(rng.choice([1, -1]))
            where, lines = interrupt(ctx, rng, lambda: work(make(), sign), lambda: work(used, sign))
            stops.append(where)
        got = repr(plain(work(used)))
    ctx.check(want == got, '{} interrupted at {} answers {:.300} afterwards, and a new one {:.300}', kind, stops, got, want)
    ctx.event('used_again_' + kind)
    ctx.event('interruptions', sum(w is not None for w in stops))
    ctx.case(kind, stops, want[:2000])
    ctx.sample(kind=kind, stops=stops, lines=lines)


@workload(quick=300, thorough=10000)
def misfits(ctx, rng):
    """ points of another number of attributes are an error, not a success, and the model can be used again """
    d = int(rng.randint(1, 4))
    X = rng.normal(size=(int(rng.randint(2, 20)), d))
    r = np.square(X).sum(axis=1)
    y = (r <= np.sort(r)[rng.randint(len(X) - 1)]).astype(float)
    Q, mode = rng.normal(size=(10, d)), ['persist', 'positive', 'negative'][rng.randint(3)]
    fresh, used = PolytopeModel(mode), PolytopeModel(mode)
    if not used.update(X, y):
        raise Skip()
    known = used.predict(Q)
    wrong = rng.normal(size=(int(rng.randint(1, 4)), d + int(rng.choice([1, 2] if d == 1 else [-1, 1, 2]))))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            done = used.update(wrong, (rng.rand(len(wrong)) < 0.5).astype(float))
    except Exception:
        ctx.event('misfits_refused')
    else:
        ctx.fail('{} polytope over {} attributes was updated with points of {}, and answered {}', mode, d, wrong.shape[1], done)
    used.clear()
    fresh.update(X, y)
    used.update(X, y)
    ctx.check(plain(used.predict(Q)) == plain(fresh.predict(Q)) == plain(known), '{} polytope: after refusing points and a reset the answers differ from those of a new one', mode)
    ctx.case(mode, d, wrong.shape, plain(known))
