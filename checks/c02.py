"""
C02: reference-model monitor over random labeling histories: the training set, the last training set and the final user
labeling are compared with the labels recorded at the boundary when they were given.
"""
import numpy as np

from aideme.active_learning import ActiveLearner
from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
from harness.core import workload
from harness import gen

RULE = ('A case is a random history of labeling, inferring, un-labeling, flushing and resetting with random labels and partial labels; '
        'non-trivial when at least two labeled batches were seen; the signature is the history with its labels.')
QUICK = 8  # times the cases of the quick tier
REQUIRED = {'empty_batches': 300, 'labeled_points': 2000, 'training_set_checks': 3000, 'unlabeled_again': 100, 'relabeled': 20, 'final_labelings': 300}
ASSUMPTIONS = ['every batch of one history has the same number of partial labels']


class RowPredictor(ActiveLearner):
    """ predicts a different, known value for every row of the data """
    def __init__(self, rng, n):
        self.labels = (rng.rand(n) < 0.5).astype(float)
        self.calls = 0

    def predict(self, X):
        self.calls += 1
        return self.labels[(np.asarray(X)[:, 0] - 0.5).astype(int)]


def row_ids(X):
    return (np.asarray(X)[:, 0] - 0.5).astype(int).tolist()


def check_pairs(ctx, X, y, rows, want, data, name):
    ids = row_ids(X)
    ctx.check(sorted(ids) == sorted(want), '{} has the rows {} instead of {}', name, ids, sorted(want))
    ctx.check(len(y) == len(ids), '{} has {} rows but {} labels', name, len(ids), len(y))
    for r, row, lb in zip(ids, X, y):
        if not np.array_equal(np.ravel(lb), np.ravel(want[r])):
            ctx.fail('{}: row {} has label {} instead of {}', name, r, np.ravel(lb).tolist(), np.ravel(want[r]).tolist())
        if not np.array_equal(row, data[r]):
            ctx.fail('{}: row {} is altered', name, r)


@workload(quick=1200, thorough=40000)
def histories(ctx, rng):
    n = int(rng.choice([2, 3, 5, 8, 15, 40])) if rng.rand() < 0.98 else int(rng.randint(150, 700))
    X = gen.identified_data(rng, n, rng.randint(1, 4))
    idx = gen.index_values(rng, n)
    pos = {v: k for k, v in enumerate(idx.tolist())}
    ds = PartitionedDataset(X, idx, copy=True)
    k = rng.randint(1, 4)
    with_partial = k > 1 or rng.rand() < 0.3
    labels, partial, last, part = {}, {}, [], {v: 'u' for v in pos}
    predictor = RowPredictor(rng, n)
    history, batches, was = [], 0, set()

    def check():
        ctx.event('training_set_checks')
        want_y = {pos[i]: labels[i] for i in labels}
        want_p = {pos[i]: partial[i] for i in labels}
        Xt, yt = ds.training_set()
        check_pairs(ctx, Xt, yt, None, want_y, X, 'training set')
        Xt, yp = ds.training_set(get_partial=True)
        check_pairs(ctx, Xt, yp, None, want_p, X, 'partial training set')
        if labels:
            ctx.check(np.ndim(yp) == 2 and np.shape(yp)[1] == k, 'partial labels have shape {} with {} subspaces', np.shape(yp), k)
        ls = ds.labeled_set
        got = {i: (l, p) for i, l, p in zip(np.asarray(ls.index).tolist(), ls.labels, ls.partial)}
        ctx.check(set(got) == set(labels) and len(ls) == len(labels), 'labeled set holds {} instead of {}', sorted(got), sorted(labels))
        for i, (l, p) in got.items():
            if l != labels[i] or not np.array_equal(p, partial[i]):
                ctx.fail('labeled set: {} has labels {} instead of {}', i, (l, p.tolist()), (labels[i], partial[i]))
        Xl, yl = ds.last_training_set()
        check_pairs(ctx, Xl, yl, None, {pos[i]: labels[i] for i in last}, X, 'last training set')
        Xl, yl = ds.last_training_set(get_partial=True)
        check_pairs(ctx, Xl, yl, None, {pos[i]: last_partial[i] for i in last}, X, 'last partial training set')
        if last:
            ctx.check(np.ndim(yl) == 2 and np.shape(yl)[1] == k, 'last partial labels have shape {} with {} subspaces', np.shape(yl), k)

    last_partial = {}
    for _ in range(rng.randint(3, 16)):
        op = rng.choice(['label', 'infer', 'unlabel', 'flush', 'clear', 'final', 'partial'], p=[.42, .16, .15, .05, .03, .14, .05])
        if op == 'label':
            free = [i for i in part if part[i] != 'l']
            batch = gen.random_subset(rng, free, rng.randint(1, 5) if n < 100 or rng.rand() < 0.3 else rng.randint(1, n // 2))
            if not batch:
                continue
            if rng.rand() < 0.06:  # the user labels nothing
                ds.move_to_labeled(LabeledSet([]))
                last = []
                ctx.event('empty_batches')
                history.append(('nothing',))
                check()
                continue
            y = gen.binary_labels(rng, len(batch))
            P = gen.partial_labels(rng, y, k) if with_partial else None
            arg = np.array(batch, dtype=idx.dtype)
            if rng.rand() < 0.3 and not with_partial:
                y = y.astype(int)
            ds.move_to_labeled(LabeledSet(y, P, arg) if with_partial else LabeledSet(y, index=arg))
            last = list(batch)
            for j, i in enumerate(batch):
                part[i], labels[i] = 'l', float(y[j])
                partial[i] = P[j].tolist() if with_partial else [float(y[j])]
                last_partial[i] = partial[i]
                ctx.event('labeled_points')
                if i in was:
                    ctx.event('relabeled')
            batches += 1
            history.append((op, tuple(batch), tuple(y.tolist())))
        elif op in ('infer', 'unlabel'):
            free = [i for i in part if part[i] != ('i' if op == 'infer' else 'u')]
            if op == 'infer' and rng.rand() < 0.6:
                free = [i for i in part if part[i] == 'u']
            batch = gen.random_subset(rng, free, rng.randint(1, 4) if n < 100 else rng.randint(1, n // 3))
            (ds.move_to_inferred if op == 'infer' else ds.move_to_unknown)(np.array(batch, dtype=idx.dtype))
            for i in batch:
                if i in labels:
                    ctx.event('unlabeled_again')
                    was.add(i)
                    del labels[i], partial[i]
                    last = [v for v in last if v != i]
                part[i] = 'i' if op == 'infer' else 'u'
            history.append((op, tuple(batch)))
        elif op == 'flush':
            ds.remove_inferred()
            part = {i: 'u' if v == 'i' else v for i, v in part.items()}
            history.append((op,))
        elif op == 'clear':
            ds.clear()
            labels, partial, last = {}, {}, []
            part = {i: 'u' for i in part}
            history.append((op,))
        elif op == 'partial':
            if not labels:
                continue
            order = np.asarray(ds.labeled_set.index).tolist()
            P = (rng.rand(len(order), k) < 0.5).astype(float)
            rows = row_ids(ds.training_set()[0])
            ctx.check(rows == [pos[i] for i in order], 'labels are kept for {} while the labeled rows are {}', [pos[i] for i in order], rows)
            ds.set_partial_labels(P)
            for i, p in zip(order, P):
                partial[i] = p.tolist()
            # whether the last batch sees these labels too is left open: forget it
            last_seen = np.asarray(ds.last_training_set(get_partial=True)[1])
            for i, p in zip([v for r in row_ids(ds.last_training_set()[0]) for v in pos if pos[v] == r], last_seen):
                last_partial[i] = p.tolist()
            history.append((op,))
        else:
            ctx.event('final_labelings')
            if rng.rand() < 0.5:
                final = ds.predict_user_labels(predictor)
            else:
                manager = ExplorationManager(ds, predictor)
                final = manager.compute_user_labels_prediction()
            got = dict(zip(np.asarray(final.index).tolist(), final.labels))
            ctx.check(len(final) == n and set(got) == set(pos), 'the final labeling covers {} points instead of {}', len(got), n)
            for i in pos:
                want = labels[i] if i in labels else predictor.labels[pos[i]]
                if got[i] != want:
                    ctx.fail('final labeling: {} (labeled: {}) has label {} instead of {}', i, i in labels, got[i], want)
        check()

    if batches >= 2:
        ctx.case(n, k, tuple(history))
        ctx.sample(n=n, history=history[:6])
