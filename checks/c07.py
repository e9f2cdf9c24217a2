"""
C07: two executions of the same exploration must give the same event log (timings aside): with equal seeds, with a learner which went
through another exploration before, and as one of several repeated runs. The oracle compares the recorded logs of both executions.
"""
import random

import numpy as np

from aideme.active_learning import ActiveLearner
from aideme.explore import LabeledSet, PoolBasedExploration
from aideme.initial_sampling import fixed_sampler, random_sampler, stratified_sampler
from aideme.utils.convergence import max_iter_reached, metric_reached_threshold
from aideme.utils.metrics import classification_metrics
from aideme.utils.noise import random_noise_injector
from harness.core import Skip, workload
from harness import gen
from harness import learners as L

RULE = ('A case runs one exploration in two ways which must not differ (twice, after another exploration, or as part of repeated runs) and compares every metric, label and prediction; '
        'non-trivial when the model was trained at least twice; signature: learner, options and labeled points.')
QUICK = 2  # times the cases of the quick tier
REQUIRED = {**{'compared_' + n: 6 for n in L.NAMES}, 'equal_seed_pairs': 60, 'reset_pairs': 60, 'repeated_runs': 60, 'different_seeds_differ': 40, 'abandoned_before': 25, 'other_data_before': 20, 'finished_before': 25, 'drawing_learners': 70}
ASSUMPTIONS = ['metrics whose name contains "time" are timings', 'the other work of the process draws no random numbers during a run']

SAMPLERS = ('stratified', 'random', 'fixed')


class Setup:
    """ an exploration which can be started any number of times """
    def __init__(self, rng, name, d=None, k=None, cfg=None):
        self.d = d or (int(rng.choice([2, 3, 4, 6]) if name in L.FACTORIZED else rng.choice([1, 2, 2, 3, 4])))
        self.k = k or int(rng.randint(1, min(self.d, 3) + 1))
        self.cfg = cfg or L.config(rng, name, self.d, self.k)
        self.n = int(rng.randint(20 if isinstance(self.cfg.domain, tuple) else 8, self.cfg.max_n + 1))
        made = L.dataset(rng, self.cfg.domain, self.n, self.d)
        if made is None:
            raise Skip()
        self.X, self.y, self.P = made
        self.idx = gen.index_values(rng, self.n)
        self.limit = int(rng.randint(2, min(8, self.cfg.max_iter) + 1))
        self.subsampling = None if rng.rand() < 0.5 else int(rng.randint(1, 20))
        self.sampler = 'stratified' if isinstance(self.cfg.domain, tuple) else SAMPLERS[rng.randint(3)]
        self.threshold = None if rng.rand() < 0.6 else float(rng.choice([0.6, 0.8, 0.95]))
        self.noise = rng.rand() < 0.15 and self.cfg.domain == 'any' and 'VersionSpace' not in name and name != 'EntropyReductionLearner'

    def explorer(self):
        ls = LabeledSet(self.y, self.P, self.idx)
        pos, neg = self.idx[self.y == 1], self.idx[self.y == 0]
        sampler = {'stratified': lambda: stratified_sampler(ls, neg_in_all_subspaces=True), 'random': lambda: random_sampler(min(3, self.n)), 'fixed': lambda: fixed_sampler([pos[0], neg[0]])}[self.sampler]()

        scores = classification_metrics(self.X, self.y, ['accuracy', 'fscore'])

        def capture(data, learner):
            if len(set(data.labeled_set.labels)) < 2:  # there is no model yet
                return {}
            return {**scores(data, learner), 'labels': np.asarray(learner.predict(self.X)).tolist(), 'probas': np.asarray(learner.predict_proba(self.X)).tolist(), 'inferred': data.inferred.index.tolist()}
        return ls, PoolBasedExploration(initial_sampler=sampler, subsampling=self.subsampling, callback=capture, convergence_criteria=[max_iter_reached(self.limit)] + ([metric_reached_threshold('accuracy', self.threshold)] if self.threshold else []),
                                        noise_injector=random_noise_injector(0.2) if self.noise else None)

    def run(self, learner, seeds, repeat=1, as_generator=False, copy=True):
        ls, e = self.explorer()
        data = self.X.copy()
        runs = e.run(data, ls, learner, repeat=repeat, seeds=seeds, copy=copy, return_generator=as_generator)
        return [untimed(r) for r in runs]


def untimed(run):
    return [{k: plain(v) for k, v in m.items() if 'time' not in k} for m in run]


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def difference(a, b):
    if len(a) != len(b):
        return '{} and {} iterations'.format(len(a), len(b))
    for i, (p, q) in enumerate(zip(a, b)):
        if p.keys() != q.keys():
            return 'iteration {} reports {} and {}'.format(i, sorted(p), sorted(q))
        for k in p:
            if repr(p[k]) != repr(q[k]):  # repr: NaN equals itself
                return 'iteration {}: {} is {:.200} and {:.200}'.format(i, k, str(p[k]), str(q[k]))
    return None


def labeled(run):
    return tuple(i for m in run for i in m['labeled_indexes'])


def disturb(rng):
    """ whatever happened before a run must not matter """
    np.random.rand(int(rng.randint(0, 5)))
    random.random()


def record(ctx, s, run):
    ctx.event('compared_' + s.cfg.name)
    if sum('labels' in m for m in run) >= 2:
        ctx.case(repr(s.cfg), labeled(run))
    ctx.sample(learner=repr(s.cfg), n=s.n, iterations=len(run))


def some_seed(rng):
    return int(rng.choice([0, 1, 2 ** 32 - 1, rng.randint(10000)], p=[0.2, 0.05, 0.05, 0.7]))


def pick_name(ctx, rng, every=len(L.NAMES)):
    return L.NAMES[ctx.index % every]


@workload(quick=len(L.NAMES) * 12, thorough=len(L.NAMES) * 120, cpu=240)
def equal_seeds(ctx, rng):
    s = Setup(rng, pick_name(ctx, rng))
    seed = some_seed(rng)
    a = s.run(s.cfg.make(), seed, as_generator=bool(rng.rand() < 0.5), copy=bool(rng.rand() < 0.7))[0]
    disturb(rng)
    b = s.run(s.cfg.make(), seed if rng.rand() < 0.5 else [seed], copy=bool(rng.rand() < 0.7))[0]
    diff = difference(a, b)
    ctx.check(diff is None, '{}: two runs with seed {} differ: {}', s.cfg, seed, diff)
    ctx.event('equal_seed_pairs')
    record(ctx, s, a)
    other = s.run(s.cfg.make(), seed + 1 if seed < 2 ** 32 - 1 else 1)[0]
    if difference(a, other) is not None:
        ctx.event('different_seeds_differ')


@workload(quick=len(L.NAMES) * 16, thorough=len(L.NAMES) * 150, cpu=240)
def after_reset(ctx, rng):
    s = Setup(rng, pick_name(ctx, rng))
    seed = some_seed(rng)
    used = s.cfg.make()
    other = s
    if rng.rand() < 0.4 and not isinstance(s.cfg.domain, tuple) and 'one_hot_groups' not in s.cfg.params:
        other = Setup(rng, s.cfg.name, d=int(rng.choice([1, 2, 3, 5])), k=s.k, cfg=s.cfg)
        ctx.event('other_data_before')
    ls, e = other.explorer()
    before = e.run(other.X.copy(), ls, used, seeds=int(rng.randint(10000)))
    if rng.rand() < 0.5:
        steps = int(rng.randint(1, 7))
        run = next(iter(before))
        for _ in range(steps):
            if next(run, None) is None:
                break
        if rng.rand() < 0.5:
            run.close()
        ctx.event('abandoned_before')
    else:
        for run in before:
            list(run)
        ctx.event('finished_before')
    if rng.rand() < 0.5:
        used.clear()
    disturb(rng)
    a = s.run(used, seed)[0]
    disturb(rng)
    b = s.run(s.cfg.make(), seed)[0]
    diff = difference(a, b)
    ctx.check(diff is None, '{}: after another exploration a run differs from that of a new learner: {}', s.cfg, diff)
    ctx.event('reset_pairs')
    record(ctx, s, a)


@workload(quick=len(L.NAMES) * 10, thorough=len(L.NAMES) * 100, cpu=240)
def repeated(ctx, rng):
    s = Setup(rng, pick_name(ctx, rng))
    seeds = [some_seed(rng) for _ in range(int(rng.randint(2, 4)))]
    if len(seeds) == 3:
        seeds[2] = seeds[0]
    together = s.run(s.cfg.make(), seeds, repeat=len(seeds), as_generator=bool(rng.rand() < 0.5), copy=bool(rng.rand() < 0.7))
    ctx.check(len(together) == len(seeds), '{}: {} runs requested, {} done', s.cfg, len(seeds), len(together))
    for i, seed in enumerate(seeds):
        disturb(rng)
        alone = s.run(s.cfg.make(), seed)[0]
        diff = difference(together[i], alone)
        ctx.check(diff is None, '{}: run {} of {} differs from a separate run with its seed: {}', s.cfg, i, len(seeds), diff)
        ctx.event('repeated_runs')
    record(ctx, s, together[0])
    wrong = len(seeds) + (1 if rng.rand() < 0.5 else -1)
    ctx.raises(Exception, lambda: s.run(s.cfg.make(), seeds, repeat=wrong), '{} seeds for {} runs were accepted', len(seeds), wrong)
    ctx.raises(Exception, lambda: s.run(s.cfg.make(), seeds[0], repeat=len(seeds)), 'one seed for {} runs was accepted', len(seeds))


class Drawer(ActiveLearner):
    """ draws random numbers wherever it can: when reset, trained, and asked for points or predictions """
    def __init__(self):
        self.state = None

    def clear(self):
        self.state = np.random.rand()

    def fit(self, X, y):
        self.state += np.random.rand()

    def predict(self, X):
        return (np.sin(X.sum(axis=1) * 50 + self.state) > 0).astype(float)

    def predict_proba(self, X):
        return 0.5 + 0.5 * np.sin(X.sum(axis=1) * 50 + self.state)

    def rank(self, X):
        return np.random.rand(len(X)) * self.state


@workload(quick=150, thorough=2000)
def drawing_learners(ctx, rng):
    n = int(rng.randint(8, 40))
    X, y, idx = rng.normal(size=(n, 2)), gen.binary_labels(rng, n, both=True), gen.index_values(rng, n)
    seeds = [some_seed(rng) for _ in range(int(rng.randint(1, 4)))]
    kwargs = dict(subsampling=None if rng.rand() < 0.5 else int(rng.randint(1, 20)), convergence_criteria=max_iter_reached(int(rng.randint(2, 8))))
    noise = rng.rand() < 0.3
    kind = rng.randint(3)

    def run(learner, seeds):
        ls = LabeledSet(y, index=idx)
        sampler = [None, stratified_sampler(ls), random_sampler(3)][kind]
        e = PoolBasedExploration(initial_sampler=sampler, callback=lambda ds, al: {'state': float(al.state)}, noise_injector=random_noise_injector(0.2) if noise else None, **kwargs)
        return [untimed(r) for r in e.run(X, ls, learner, repeat=len(seeds), seeds=seeds, return_generator=False)]
    used = Drawer()
    used.clear()
    together = run(used, seeds)
    for i, seed in enumerate(seeds):
        disturb(rng)
        learner = Drawer()
        learner.clear()
        diff = difference(together[i], run(learner, [seed])[0])
        ctx.check(diff is None, 'run {} of {} with seed {} of a learner drawing random numbers differs from a separate run: {}', i, len(seeds), seed, diff)
    ctx.event('drawing_learners')
    ctx.case('drawing', n, tuple(seeds), labeled(together[0]))
