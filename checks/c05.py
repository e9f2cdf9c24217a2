"""
C05: trace monitor. A simulated exploration is run with recording learner, sampler, noise injector and criteria; the recorded
event sequence and the yielded metrics are checked against the protocol, replayed by a small model of the labeled points.
"""
import itertools
import warnings

import numpy as np

from aideme.active_learning import SimpleMargin, RandomSampler, DualSpaceModel
from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset, PoolBasedExploration
from aideme.explore.manager import Phase
from aideme.initial_sampling import fixed_sampler, random_sampler, stratified_sampler
from aideme.utils import max_iter_reached
from harness.core import workload
from harness.stubs import Recorder
from harness import gen

RULE = ('A case is one exploration (1 to 3 runs) with random data, labels, batch sizes, initial sampler, subsampling, noise and stopping; non-trivial '
        'when it had exploration iterations; signature: the sequence of labeled indexes.')
QUICK = 6  # times the cases of the quick tier
REQUIRED = {'bare_labels': 16, 'exploration_iterations': 11000, 'fits': 13000, 'initial_iterations': 5900, 'iterations': 26000, 'noise_calls': 4700, 'one_class_runs': 310, 'real_learner_runs': 64, 'runs_to_the_end': 1500, 'stopped_by_criterion': 2200}
ASSUMPTIONS = ['initial samplers propose unlabeled points; stopping criteria have no side effects']


def one_by_one(order):
    """ initial sampler going through the unlabeled points in a fixed order """
    def sampler(data):
        free = set(np.asarray(data.unlabeled.index).tolist())
        return [next(i for i in order if i in free)]
    return sampler


class Setup:
    def __init__(self, rng, ctx):
        self.n = n = int(rng.choice([2, 3, 5, 10, 25, 60]))
        self.X = gen.identified_data(rng, n, 3)
        self.idx = gen.index_values(rng, n)
        one_class = rng.rand() < 0.1
        self.y = np.full(n, float(rng.rand() < 0.5)) if one_class else gen.binary_labels(rng, n, both=True)
        self.k = rng.randint(1, 4)
        self.P = gen.partial_labels(rng, self.y, self.k) if self.k > 1 else None
        # user labels come in an order which is not that of the data rows
        self.labeled_set = LabeledSet(self.y, self.P, self.idx)
        self.labels = dict(zip(self.idx.tolist(), self.y))
        self.partial = dict(zip(self.idx.tolist(), (self.P if self.P is not None else self.y.reshape(-1, 1)).tolist()))
        self.row = dict(zip(self.idx.tolist(), self.X.tolist()))
        self.one_class = one_class
        self.sampler_calls = []

    def initial_sampler(self, rng):
        kind = rng.choice(['none', 'stratified', 'random', 'fixed', 'slow'])
        if kind == 'none':
            return None
        if kind in ('stratified', 'fixed') and self.one_class:
            kind = 'slow'
        if kind == 'stratified':
            inner = stratified_sampler(self.labeled_set, neg_in_all_subspaces=False)
        elif kind == 'fixed':
            pos, neg = [i for i in self.labels if self.labels[i] == 1], [i for i in self.labels if self.labels[i] == 0]
            inner = fixed_sampler([pos[rng.randint(len(pos))], neg[rng.randint(len(neg))]])
        elif kind == 'random':
            inner = random_sampler(int(rng.randint(1, 4)))
        else:
            inner = one_by_one(gen.random_subset(rng, self.labels, self.n))

        def sampler(data):
            res = inner(data)
            self.sampler_calls.append(list(np.asarray(res).tolist()))
            return res
        return sampler


@workload(quick=700, thorough=20000)
def explorations(ctx, rng):
    s = Setup(rng, ctx)
    sampler = s.initial_sampler(rng)
    log = []
    own = rng.rand() < 0.4
    batch = int(rng.choice([1, 2, 5])) if own else 1
    learner = Recorder(salt=rng.rand() + 0.5, batch=batch, own_selection=own, log=log)
    subsampling = None if rng.rand() < 0.4 else int(rng.choice([1, 2, 7, 100]))

    noise_calls = []
    noise = None
    if rng.rand() < 0.4:
        flips = rng.rand(s.n) < 0.3
        flips = dict(zip(s.idx.tolist(), flips))

        def noise(it, labeled_set):
            noise_calls.append((it, np.asarray(labeled_set.index).tolist(), np.asarray(labeled_set.labels).tolist()))
            y = np.array([1 - v if flips[i] else v for i, v in zip(labeled_set.index.tolist(), labeled_set.labels)])
            P = labeled_set.partial.copy()
            P[y == 1] = 1
            P[y == 0, 0] = 0
            return LabeledSet(y, P, labeled_set.index.copy())

    limit = int(rng.choice([0, 1, 3, 8, 10 ** 6]))
    size_limit = int(rng.randint(1, s.n + 1)) if rng.rand() < 0.3 else None
    criteria = [max_iter_reached(limit)]
    if size_limit is not None:
        criteria.append(lambda manager, metrics: manager.data.labeled_size >= size_limit)
    criteria = [criteria[i] for i in rng.permutation(len(criteria))]

    expl = PoolBasedExploration(initial_sampler=sampler, subsampling=subsampling, noise_injector=noise,
                                convergence_criteria=criteria if rng.rand() < 0.7 or len(criteria) > 1 else criteria[0])
    repeat = int(rng.randint(1, 4))
    as_list = rng.rand() < 0.5
    runs = expl.run(s.X, s.labeled_set, learner, repeat=repeat, seeds=[int(v) for v in rng.randint(0, 10 ** 6, repeat)], copy=rng.rand() < 0.7, return_generator=not as_list)

    n_runs = 0
    pos_log = 0
    all_seen = []
    if as_list:
        # the log of all runs is available at once: split it at the resets
        starts = [i for i, e in enumerate(log) if e[0] == 'clear'] + [len(log)]
        ctx.check(len(starts) == repeat + 1, 'the learner was reset {} times in {} runs', len(starts) - 1, repeat)
    nc, sc = 0, 0
    for r, run in enumerate(runs):
        n_runs += 1
        labeled, order, finished = {}, [], None
        if as_list:
            events = iter(log[starts[r]:starts[r + 1]])
        it = 0
        source = iter(run)
        while True:
            before = len(log)
            try:
                m = next(source)
            except StopIteration:
                break
            chunk = log[before:] if not as_list else None
            ctx.event('iterations')
            ctx.check(finished is None, 'iteration {} was run although {}', it, finished)

            both = len(set(labeled.values())) == 2
            exploring = sampler is None or both
            ctx.check(m['phase'] == ('exploration' if exploring else 'initial_sampling'), 'iteration {} has phase {} with labels {} known', it, m['phase'], sorted(set(labeled.values())))
            ctx.event('exploration_iterations' if exploring else 'initial_iterations')

            new = list(m['labeled_indexes'])
            ctx.check(len(new) >= 1, 'iteration {} labels nothing', it)
            ctx.check(len(set(new)) == len(new) and not set(new) & set(labeled), 'iteration {} labels {} again', it, [i for i in new if i in labeled or new.count(i) > 1])
            ctx.check(set(new) <= set(s.labels), 'iteration {} labels unknown points {}', it, new)
            ctx.check(m['labels'] == [s.labels[i] for i in new], 'iteration {}: labels {} of {} are not those of the user, {}', it, m['labels'], new, [s.labels[i] for i in new])
            ctx.check(m['partial_labels'] == [s.partial[i] for i in new], 'iteration {}: partial labels of {} are not those of the user', it, new)

            # noise injection
            shown = [s.labels[i] for i in new]
            shown_partial = [s.partial[i] for i in new]
            if noise is not None and exploring:
                ctx.event('noise_calls')
                ctx.check(nc < len(noise_calls) and noise_calls[nc] == (it, new, shown), 'iteration {}: noise injector called with {} instead of {}', it, noise_calls[nc:nc + 1], (it, new, shown))
                nc += 1
                shown = [1 - s.labels[i] if flips[i] else s.labels[i] for i in new]
                shown_partial = [[1.] * s.k if lb == 1 else [0.] + p[1:] for lb, p in zip(shown, shown_partial)]
                ctx.check(m.get('noisy_labels') == shown, 'iteration {}: noisy labels {} instead of {}', it, m.get('noisy_labels'), shown)
            else:
                ctx.check('noisy_labels' not in m, 'iteration {} has noisy labels without noise', it)

            for i, lb in zip(new, shown):
                labeled[i] = lb
            order.append(tuple(new))
            known_partial = dict(zip(new, shown_partial)) if it == 0 else {**known_partial, **dict(zip(new, shown_partial))}

            # calls received by sampler and learner
            fit_expected = sampler is None or len(set(labeled.values())) == 2
            expected = (['clear'] if it == 0 else []) + (['next'] if exploring else []) + (['fit_data'] if fit_expected else [])
            if as_list:
                chunk = list(itertools.islice(events, len(expected)))
            got = [e[0] for e in chunk]
            ctx.check(got == expected, 'iteration {}: the learner was called with {} instead of {}', it, got, expected)
            if exploring:
                e = [e for e in chunk if e[0] == 'next'][0]
                ctx.check(e[2] == new, 'iteration {} labels {} while the learner proposed {}', it, new, e[2])
                ctx.check(e[1] == subsampling, 'iteration {}: subsample of {} asked instead of {}', it, e[1], subsampling)
                free = set(s.labels) - (set(labeled) - set(new))
                ctx.check(set(e[3]) == free, 'iteration {}: {} offered to the learner instead of {}', it, sorted(e[3]), sorted(free))
            else:
                ctx.check(sc < len(s.sampler_calls) and s.sampler_calls[sc] == new, 'iteration {} labels {} instead of what was sampled', it, new)
                sc += 1
            if fit_expected:
                ctx.event('fits')
                e = [e for e in chunk if e[0] == 'fit_data'][0]
                ctx.check(e[3] == labeled, 'iteration {}: trained on labels {} instead of {}', it, e[3], labeled)
                ctx.check(e[4] == known_partial, 'iteration {}: trained on partial labels {} instead of {}', it, e[4], known_partial)
                pairs = sorted((tuple(x), v) for x, v in zip(e[1].tolist(), e[2].tolist()))
                want = sorted((tuple(s.row[i]), v) for i, v in labeled.items())
                ctx.check(pairs == want, 'iteration {}: the training set does not match the labels given', it)

            it += 1
            if it > limit:
                finished = 'the limit of {} iterations was reached'.format(limit)
            elif size_limit is not None and len(labeled) >= size_limit:
                finished = 'there are {} labeled points'.format(len(labeled))
            elif len(labeled) == s.n:
                finished = 'all points are labeled'
        ctx.check(finished is not None, 'the run stopped after {} iterations although no criterion holds and {} points are unlabeled', it, s.n - len(labeled))
        ctx.event('runs_to_the_end' if len(labeled) == s.n else 'stopped_by_criterion')
        if s.one_class and sampler is not None:
            ctx.event('one_class_runs')
            ctx.check(not any(e[0] == 'fit_data' for e in log) or noise is not None, 'the model was trained on a single class')
        all_seen.append(tuple(order))
    ctx.check(n_runs == repeat, '{} runs instead of {}', n_runs, repeat)
    ctx.check(nc == len(noise_calls), 'the noise injector was called {} times outside exploration iterations', len(noise_calls) - nc)
    ctx.check(sc == len(s.sampler_calls), 'the initial sampler was called {} times too often', len(s.sampler_calls) - sc)
    ctx.case(s.n, tuple(all_seen))
    ctx.sample(n=s.n, subsampling=subsampling, limit=limit, labeled=all_seen[0][:6])


@workload(quick=150, thorough=3000)
def managers(ctx, rng):
    """ the manager driven directly, as a web service would """
    s = Setup(rng, ctx)
    sampler = s.initial_sampler(rng)
    learner = Recorder(salt=rng.rand() + 0.5, own_selection=rng.rand() < 0.5, batch=int(rng.randint(1, 4)))
    ds = PartitionedDataset(s.X, s.idx)
    subsampling = None if rng.rand() < 0.5 else int(rng.randint(1, 10))
    manager = ExplorationManager(ds, learner, initial_sampler=sampler, subsampling=subsampling)
    for rounds in range(2):
        labeled, it = {}, 0
        while True:
            both = len(set(labeled.values())) == 2
            exploring = sampler is None or both
            ctx.check(manager.is_exploration_phase == exploring and manager.is_initial_sampling_phase == (not exploring)
                      and manager.phase == (Phase.EXPLORE if exploring else Phase.INITIAL), 'phase is {} after labels {}', manager.phase, labeled)
            ctx.check(manager.iters == it, '{} iterations counted instead of {}', manager.iters, it)
            ctx.check(manager.converged() == (len(labeled) == s.n), 'converged() is {} with {} of {} points labeled', manager.converged(), len(labeled), s.n)
            points = manager.get_next_to_label()
            if len(labeled) == s.n:
                ctx.check(points is None, 'a point is proposed although all are labeled')
                break
            ctx.event('iterations')
            new = np.asarray(points.index).tolist()
            ctx.check(len(new) > 0 and not set(new) & set(labeled) and len(set(new)) == len(new), 'points {} proposed, {} being labeled', new, sorted(labeled))
            ctx.same(points.data, np.array([s.row[i] for i in new]), 'the rows proposed are not those of their indexes')
            fits = learner.fits
            manager.update(LabeledSet([s.labels[i] for i in new], index=np.array(new, dtype=s.idx.dtype)))
            labeled.update({i: s.labels[i] for i in new})
            trained = sampler is None or len(set(labeled.values())) == 2
            ctx.check(learner.fits == fits + trained, 'the model was trained {} times after labels {}', learner.fits - fits, labeled)
            it += 1
            if rounds == 0 and rng.rand() < 0.1:
                break
        if rounds == 0:
            manager.clear()
            ctx.check(manager.iters == 0 and ds.labeled_size == 0, 'the manager is not reset')
    ctx.case('manager', s.n, s.idx[0], sampler is None)


@workload(quick=24, thorough=400)
def real_learners(ctx, rng):
    """ the protocol seen in the metrics, with learners of the library """
    n = rng.randint(10, 60)
    X = rng.normal(size=(n, 2))
    y = ((X ** 2).sum(axis=1) < np.median((X ** 2).sum(axis=1))).astype(float)
    bare = rng.rand() < 0.3  # labels alone: rows are identified by their positions
    idx = np.arange(n) if bare else gen.index_values(rng, n, strings=False)
    ls = LabeledSet(y, index=idx)
    labels = dict(zip(idx.tolist(), y))
    from sklearn.svm import SVC
    learner = [SimpleMargin(C=100.), RandomSampler(SVC(), batch_size=int(rng.randint(1, 4))), DualSpaceModel(SimpleMargin(C=10.))][rng.randint(3)]
    limit = int(rng.choice([5, 15, 10 ** 6]))
    sampler = stratified_sampler(ls) if rng.rand() < 0.7 else random_sampler(2)
    expl = PoolBasedExploration(initial_sampler=sampler, subsampling=None if rng.rand() < 0.5 else 5, convergence_criteria=max_iter_reached(limit))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run = expl.run(X, [y.copy(), y.tolist()][rng.randint(2)] if bare else ls, learner, seeds=int(rng.randint(1000)), return_generator=False)[0]
    seen = [i for m in run for i in m['labeled_indexes']]
    ctx.check(len(set(seen)) == len(seen), 'points labeled twice: {}', [i for i in seen if seen.count(i) > 1])
    ctx.check(all(m['labels'] == [labels[i] for i in m['labeled_indexes']] for m in run), 'labels are not those of the user')
    ctx.check(len(seen) == n or len(run) == limit + 1, 'the run ended after {} iterations and {} of {} labels', len(run), len(seen), n)
    phases = [m['phase'] for m in run]
    both = [len({v for q in run[:j] for v in q['labels']}) == 2 for j in range(len(run))]
    ctx.check(phases == ['exploration' if b else 'initial_sampling' for b in both], 'phases {}', phases)
    ctx.event('real_learner_runs')
    ctx.event('bare_labels', int(bare))
    ctx.event('iterations', len(run))
    ctx.case('real', type(learner).__name__, tuple(seen[:8]))
