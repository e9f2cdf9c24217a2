"""
C01: reference-model monitor over random histories of PartitionedDataset operations. After every operation all views,
sizes and lookups are compared with a dictionary model (index -> part, index -> row).
"""
import numpy as np

from aideme.explore import LabeledSet, PartitionedDataset
from aideme.explore.partitioned import IndexedDataset
from harness.core import workload
from harness import gen

RULE = ('A case is a random history (label / infer / un-infer / flush / reset / lookup / sample) over a random matrix with random unique '
        'index values; non-trivial when at least two parts were non-empty at some point; the signature is size, index kind and operation list.')
QUICK = 8  # times the cases of the quick tier
REQUIRED = {'operations': 2000, 'state_checks': 2000, 'moved_to_labeled': 300, 'moved_to_inferred': 300, 'moved_to_unknown': 200, 'resets': 20, 'flushes': 20, 'lookups': 200, 'samples': 200}
ASSUMPTIONS = ['index values are unique, as the interface requires']


class Model:
    def __init__(self, idx, X):
        self.idx = list(idx)
        self.row = {i: X[k].copy() for k, i in enumerate(self.idx)}
        self.part = {i: 'unknown' for i in self.idx}

    def members(self, *parts):
        return [i for i in self.idx if self.part[i] in parts]


def check_view(ctx, model, view, members, name):
    index, data = np.asarray(view.index), np.asarray(view.data)
    ctx.check(len(view) == len(members) and len(index) == len(members) and data.shape[0] == len(members), '{} has {} points instead of {}', name, len(index), len(members))
    ctx.check(sorted(index.tolist()) == sorted(members), '{} holds {} instead of {}', name, index.tolist(), members)
    for i, row in zip(index.tolist(), data):
        if not np.array_equal(row, model.row[i]):
            ctx.fail('{}: index {} has row {} instead of {}', name, i, row.tolist(), model.row[i].tolist())


def check_state(ctx, ds, model):
    ctx.event('state_checks')
    lab, inf, unk = model.members('labeled'), model.members('inferred'), model.members('unknown')
    check_view(ctx, model, ds.labeled, lab, 'labeled')
    check_view(ctx, model, ds.inferred, inf, 'inferred')
    check_view(ctx, model, ds.unknown, unk, 'unknown')
    check_view(ctx, model, ds.unlabeled, inf + unk, 'unlabeled')
    check_view(ctx, model, IndexedDataset(ds.data, ds.index, check_data=False), model.idx, 'whole data')
    sizes = (ds.labeled_size, ds.inferred_size, ds.unknown_size, ds.unlabeled_size, len(ds))
    want = (len(lab), len(inf), len(unk), len(inf) + len(unk), len(model.idx))
    ctx.check(sizes == want, 'sizes (labeled, inferred, unknown, unlabeled, all) are {} instead of {}', sizes, want)
    ctx.check(sorted(np.asarray(ds.labeled_set.index).tolist()) == sorted(lab), 'the labels kept are those of {}, while {} are labeled', np.asarray(ds.labeled_set.index).tolist(), lab)


@workload(quick=1500, thorough=40000)
def histories(ctx, rng):
    n = int(rng.choice([1, 2, 3, 5, 8, 13, 25, 60]))
    X = gen.identified_data(rng, n, rng.randint(1, 5))
    if rng.rand() < 0.2:
        X = np.round(X * 2).astype(int) * 1000 + np.arange(n)[:, None]
    idx = None if rng.rand() < 0.15 else gen.index_values(rng, n)
    model = Model(np.arange(n) if idx is None else idx.tolist(), X)
    copy = rng.rand() < 0.5
    ds = PartitionedDataset(X if copy else X.copy(), idx if copy or idx is None else idx.copy(), copy=bool(copy))
    check_state(ctx, ds, model)
    history, mixed = [], False
    k = rng.randint(1, 4)

    for _ in range(rng.randint(5, 30)):
        op = rng.choice(['label', 'label', 'infer', 'infer', 'unknown', 'unknown', 'flush', 'clear', 'lookup', 'sample', 'view'], p=[.15, .15, .13, .13, .1, .1, .04, .03, .06, .06, .05])
        ctx.event('operations')
        if op in ('label', 'infer', 'unknown'):
            target = {'label': 'labeled', 'infer': 'inferred', 'unknown': 'unknown'}[op]
            movable = model.members(*({'labeled', 'inferred', 'unknown'} - {target}))
            if op == 'infer' and rng.rand() < 0.7:
                movable = model.members('unknown')
            size = rng.randint(0, 1 + min(len(movable), rng.choice([1, 2, 5, 100])))
            batch = gen.random_subset(rng, movable, size)
            history.append((op, tuple(batch)))
            arg = np.array(batch, dtype=np.asarray(model.idx).dtype) if rng.rand() < 0.6 else batch
            if op == 'label':
                y = gen.binary_labels(rng, len(batch))
                if len(batch) == 0:
                    continue
                ds.move_to_labeled(LabeledSet(y, gen.partial_labels(rng, y, k), arg))
            elif op == 'infer':
                ds.move_to_inferred(arg if rng.rand() < 0.7 else iter(batch))
            else:
                ds.move_to_unknown(arg if rng.rand() < 0.7 else iter(batch))
            for i in batch:
                model.part[i] = target
            ctx.event('moved_to_' + target, len(batch))
        elif op == 'flush':
            ds.remove_inferred()
            for i in model.members('inferred'):
                model.part[i] = 'unknown'
            history.append((op,))
            ctx.event('flushes')
        elif op == 'clear':
            ds.clear()
            for i in model.idx:
                model.part[i] = 'unknown'
            history.append((op,))
            ctx.event('resets')
        elif op == 'lookup':
            wanted = gen.random_subset(rng, model.idx, rng.randint(0, n + 1))
            if wanted and rng.rand() < 0.3:
                wanted.append(wanted[0])
            got = ds.from_index(np.array(wanted, dtype=np.asarray(model.idx).dtype) if rng.rand() < 0.5 else wanted)
            ctx.same(np.asarray(got.index).tolist(), wanted, 'from_index returns other points')
            if wanted:
                ctx.same(got.data, np.array([model.row[i] for i in wanted]), 'from_index returns other rows')
            ctx.event('lookups')
        elif op == 'sample':
            size = None if rng.rand() < 0.2 else int(rng.randint(1, n + 3))
            rows = np.asarray(ds.sample(size))
            expected = n if size is None else min(size, n)
            ctx.check(len(rows) == expected, 'sample of size {} over {} points has {} rows', size, n, len(rows))
            seen = {tuple(r) for r in rows.tolist()}
            ctx.check(len(seen) == len(rows) and seen <= {tuple(r.tolist()) for r in model.row.values()}, 'sample repeats or invents rows')
            part = rng.choice(['labeled', 'inferred', 'unknown', 'unlabeled'])
            members = model.members(*(['inferred', 'unknown'] if part == 'unlabeled' else [part]))
            sub = getattr(ds, part).sample(size)
            expected = members if size is None or size >= len(members) else None
            if expected is not None:
                check_view(ctx, model, sub, members, 'sample of ' + part)
            else:
                chosen = np.asarray(sub.index).tolist()
                ctx.check(len(set(chosen)) == size, 'sample of size {} of the {} part returns {}', size, part, chosen)
                ctx.check(set(chosen) <= set(members), 'sample of the {} part returns {}', part, chosen)
                check_view(ctx, model, sub, chosen, 'sample of ' + part)
            ctx.event('samples')
        else:
            part = rng.choice(['labeled', 'inferred', 'unknown', 'unlabeled'])
            view = getattr(ds, part)
            if len(view):
                ids = np.asarray(view.index).tolist()
                j = int(rng.randint(len(view)))
                check_view(ctx, model, view[j], [ids[j]], 'one row of ' + part)
                check_view(ctx, model, view[np.int64(j)], [ids[j]], 'one row of ' + part)
                mask = rng.rand(len(view)) < 0.5
                check_view(ctx, model, view[mask], [i for i, m in zip(ids, mask) if m], 'rows of ' + part)
                a, b = sorted(rng.randint(0, len(view) + 1, 2))
                check_view(ctx, model, view[a:b], ids[a:b], 'slice of ' + part)
            history.append((op, part))
        check_state(ctx, ds, model)
        mixed |= sum(bool(model.members(p)) for p in ('labeled', 'inferred', 'unknown')) > 1

    if mixed:
        ctx.case(n, tuple(model.idx[:3]), tuple(history))
        ctx.sample(n=n, history=history[:8])


@workload(quick=40, thorough=600)
def uniform_samples(ctx, rng):
    """ Every row is reachable by sampling, all equally often. """
    n = rng.randint(3, 9)
    X = gen.identified_data(rng, n, 2)
    ds = PartitionedDataset(X, gen.index_values(rng, n))
    lab = gen.random_subset(rng, ds.index.tolist(), rng.randint(0, n - 2))
    if lab:
        ds.move_to_labeled(LabeledSet(np.ones(len(lab)), index=lab))
    size = rng.randint(1, n)
    counts = np.zeros(n)
    draws = 600
    for _ in range(draws):
        counts[(np.asarray(ds.sample(size))[:, 0] - 0.5).astype(int)] += 1
    p = size / n
    z = (counts - draws * p) / np.sqrt(draws * p * (1 - p))
    ctx.check(np.all(np.abs(z) < 6), 'rows are sampled {} times each in {} samples of {} of {}', counts.tolist(), draws, size, n)
    ctx.event('samples', draws)
    ctx.case('uniform', n, size, len(lab))
