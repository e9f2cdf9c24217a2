"""
C03: fault sequences. Illegal moves are inserted at random positions of batches in random histories; after each rejection the
whole observable state must equal the snapshot taken before. Caller-owned arrays are compared with copies all along.
"""
import warnings

import numpy as np

from aideme.active_learning import ActiveLearner, SimpleMargin, DualSpaceModel, RandomSampler
from aideme.explore import LabeledSet, PartitionedDataset, PoolBasedExploration
from aideme.initial_sampling import stratified_sampler
from aideme.utils import max_iter_reached, random_noise_injector
from harness.core import workload
from harness import gen

RULE = ('A case is a random history with illegal moves (point already there, unknown index, duplicate) at random batch positions, or a full '
        'exploration watched for changes of the arrays it was given; signature: the history and the faults in it.')
QUICK = 8  # times the cases of the quick tier
REQUIRED = {'rejected_moves': 1500, 'resets': 400, 'isolation_checks': 400, 'fault_first': 100, 'fault_last': 100, 'fault_middle': 100, 'explorations': 20}
ASSUMPTIONS = []


def state_of(ds):
    """ everything a user can observe, independently of internal row order """
    parts = {p: sorted((i, tuple(r)) for i, r in zip(np.asarray(v.index).tolist(), v.data.tolist()))
             for p, v in (('labeled', ds.labeled), ('inferred', ds.inferred), ('unknown', ds.unknown), ('unlabeled', ds.unlabeled))}
    ls = ds.labeled_set
    parts['labels'] = sorted((i, l, tuple(p)) for i, l, p in zip(np.asarray(ls.index).tolist(), np.asarray(ls.labels).tolist(), np.asarray(ls.partial).tolist()))
    for name, get in (('training', ds.training_set), ('last', ds.last_training_set)):
        for gp in (False, True):
            X, y = get(get_partial=gp)
            parts[name + str(gp)] = sorted((tuple(r), tuple(np.ravel(l))) for r, l in zip(np.asarray(X).tolist(), np.asarray(y).tolist()))
    parts['sizes'] = (ds.labeled_size, ds.inferred_size, ds.unknown_size, ds.unlabeled_size, len(ds))
    return parts


def differing(a, b):
    return [k for k in a if a[k] != b[k]]


@workload(quick=900, thorough=30000)
def rejected_moves(ctx, rng):
    n = int(rng.choice([2, 3, 5, 8, 15, 30]))
    X = gen.identified_data(rng, n, rng.randint(1, 4))
    idx = gen.index_values(rng, n)
    mine = [X, idx]
    saved = gen.snapshot(X, idx)
    ds = PartitionedDataset(X, idx, copy=True)
    k = rng.randint(1, 3)
    part = {v: 'u' for v in idx.tolist()}
    given, history = [], []
    is_str = idx.dtype.kind == 'U'

    def missing():
        return 'zzz%d' % rng.randint(5) if is_str else int(10 ** 15 + rng.randint(5))

    for _ in range(rng.randint(4, 16)):
        op = rng.choice(['label', 'infer', 'unknown', 'flush', 'clear'], p=[.4, .25, .2, .05, .1])
        if op == 'flush':
            ds.remove_inferred()
            part = {i: 'u' if v == 'i' else v for i, v in part.items()}
            continue
        if op == 'clear':
            ds.clear()
            ctx.event('resets')
            ctx.same(np.asarray(ds.index), np.sort(saved[1]), 'after a reset the points are not sorted by index')
            order = np.argsort(saved[1])
            ctx.same(np.asarray(ds.data), saved[0][order], 'after a reset rows do not follow their index')
            s = state_of(ds)
            ctx.check(s['sizes'] == (0, 0, n, n, n), 'sizes after a reset are {}', s['sizes'])
            ctx.check(not s['labels'] and not s['trainingFalse'] and not s['lastFalse'] and len(ds.labeled_set) == 0, 'labels survive a reset')
            part = {i: 'u' for i in part}
            continue

        code = {'label': 'l', 'infer': 'i', 'unknown': 'u'}[op]
        batch = gen.random_subset(rng, [i for i in part if part[i] != code], rng.randint(0, 5))
        fault = None
        if rng.rand() < 0.6:
            there = [i for i in part if part[i] == code]
            fault = rng.choice(['there', 'missing', 'duplicate'])
            if fault == 'there' and not there or fault == 'duplicate' and not batch:
                fault = 'missing'
            bad = {'there': lambda: there[rng.randint(len(there))], 'missing': missing, 'duplicate': lambda: batch[rng.randint(len(batch))]}[fault]()
            where = rng.randint(0, len(batch) + 1)
            batch.insert(where, bad)
            ctx.event('fault_first' if where == 0 else 'fault_last' if where == len(batch) - 1 else 'fault_middle')
        if not batch:
            continue

        arg = np.array(batch) if rng.rand() < 0.6 else list(batch)
        y = gen.binary_labels(rng, len(batch))
        P = gen.partial_labels(rng, y, k)
        if op == 'label':
            labeled_set = LabeledSet(y, P, arg)
            given.append((labeled_set, gen.snapshot(labeled_set.labels, labeled_set.partial, labeled_set.index), [y, P], gen.snapshot(y, P)))
            move = lambda: ds.move_to_labeled(labeled_set)
        elif op == 'infer':
            move = lambda: ds.move_to_inferred(arg)
        else:
            move = lambda: ds.move_to_unknown(arg)

        if fault:
            before = state_of(ds)
            ctx.raises(Exception, move, 'moving {} ({} at position {}) to {}', batch, fault, where, op)
            ctx.event('rejected_moves')
            after = state_of(ds)
            ctx.check(before == after, 'a rejected move ({} of {}, {} at position {}) changed {}', op, batch, fault, where, differing(before, after))
        else:
            move()
            for i in batch:
                part[i] = code
        history.append((op, tuple(batch), fault))

        if op == 'label' and ds.labeled_size and rng.rand() < 0.1:
            ds.set_partial_labels(np.zeros((ds.labeled_size, k)))

    got = {p: sorted(np.asarray(v.index).tolist()) for p, v in (('l', ds.labeled), ('i', ds.inferred), ('u', ds.unknown))}
    want = {p: sorted(i for i in part if part[i] == p) for p in 'liu'}
    ctx.check(got == want, 'the parts are {} instead of {}', got, want)

    ctx.event('isolation_checks')
    ctx.check(gen.unchanged(mine, saved), 'the caller\'s data or index was modified although a copy was requested')
    for ls, copies, arrays, array_copies in given:
        ctx.check(gen.unchanged([ls.labels, ls.partial, ls.index], copies), 'a LabeledSet given by the caller was modified')
        ctx.check(gen.unchanged(arrays, array_copies), 'label arrays given by the caller were modified')
    if any(h[2] for h in history):
        ctx.case(n, tuple(history))
        ctx.sample(n=n, history=history[:6])


@workload(quick=200, thorough=3000)
def lookups_of_unknown_indexes(ctx, rng):
    n = rng.randint(1, 10)
    X = gen.identified_data(rng, n, 2)
    idx = gen.index_values(rng, n, strings=False)
    ds = PartitionedDataset(X, idx)
    before = state_of(ds)
    ctx.raises(Exception, lambda: ds.from_index([idx[0], 10 ** 15]), 'looking up an unknown index')
    ls = LabeledSet(gen.binary_labels(rng, n), index=idx)
    ctx.raises(Exception, lambda: ls.get_index([10 ** 15]), 'looking up the label of an unknown index')
    ctx.check(state_of(ds) == before, 'a rejected lookup changed the data set')
    # duplicates are no copies: moving a point twice in a row
    i = idx[rng.randint(n)]
    ds.move_to_labeled(LabeledSet([1.], index=[i]))
    before = state_of(ds)
    ctx.raises(Exception, lambda: ds.move_to_labeled(LabeledSet([0.], index=[i])), 'labeling a point twice')
    ctx.check(state_of(ds) == before, 'labeling a point twice changed {}', differing(before, state_of(ds)))
    ctx.event('rejected_moves')
    ctx.case('lookup', n, idx[0])


class Picky(ActiveLearner):
    """ a learner which scribbles over the arrays it is given would be at fault itself: this one only reads """
    def clear(self):
        pass

    def fit(self, X, y):
        self.y = float(np.mean(y))

    def predict(self, X):
        return np.full(len(X), round(self.y))

    def predict_proba(self, X):
        return np.full(len(X), self.y)

    def rank(self, X):
        return np.random.rand(len(X))


@workload(quick=60, thorough=800)
def explorations(ctx, rng):
    n = rng.randint(6, 40)
    X = rng.normal(size=(n, 2))
    if rng.rand() < 0.3:
        X = np.asfortranarray(X)
    y = (X[:, 0] ** 2 + X[:, 1] ** 2 < np.median((X ** 2).sum(axis=1))).astype(float)
    P = gen.partial_labels(rng, y, 2) if rng.rand() < 0.5 else None
    idx = gen.index_values(rng, n, strings=False)
    ls = LabeledSet(y, P, idx)
    arrays = [X, y, idx, ls.labels, ls.partial, ls.index] + ([P] if P is not None else [])
    saved = gen.snapshot(*arrays)
    copy = rng.rand() < 0.7
    learner = [Picky, SimpleMargin, lambda: DualSpaceModel(SimpleMargin())][rng.randint(3)]()
    expl = PoolBasedExploration(initial_sampler=stratified_sampler(ls), convergence_criteria=max_iter_reached(int(rng.randint(1, 12))),
                                subsampling=None if rng.rand() < 0.5 else 5, noise_injector=random_noise_injector(0.2, 3) if rng.rand() < 0.3 else None)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            expl.run(X, ls, learner, repeat=2, seeds=[1, 2], copy=copy, return_generator=False)
        except ValueError as e:
            if 'number of classes' not in str(e):  # noisy labels of a single class
                raise
    ctx.event('explorations')
    ctx.event('isolation_checks')
    watched = list(zip(arrays, saved)) if copy else list(zip(arrays, saved))[1:]
    for name, (a, c) in zip((['data'] if copy else []) + ['labels', 'index', 'set labels', 'set partial', 'set index', 'partial'], watched):
        ctx.check(gen.unchanged([a], [c]), 'an exploration (copy={}) modified the caller\'s {}', copy, name)
    ctx.case('exploration', n, type(learner).__name__, copy, P is None)
