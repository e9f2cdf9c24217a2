"""
C18: whole explorations of dual-space learners around a recording learner, compared after every step with shadow polytopes which are fed the
user labels directly (the polytopes themselves are checked by C14, C15 and C17).
"""
import warnings

import numpy as np
from sklearn.linear_model import LogisticRegression

from aideme.active_learning import ActiveLearner, DualSpaceModel, FactorizedDualSpaceModel, UncertaintySampler
from aideme.active_learning.dsm.polytope import CategoricalPolytope, FlippedPolytope, MultiSetPolytope, PersistentPolytope, Polytope
from aideme.explore import LabeledSet, PartitionedDataset
from checks.c14 import region
from harness.core import Skip, workload
from harness import gen
from harness import learners as L

RULE = ('A case is one exploration by a dual-space learner; non-trivial when the polytope knew some unlabeled point; signature: options, labels asked, '
        'known points and conflicts.')
QUICK = 4  # times the cases of the quick tier
REQUIRED = {'steps': 1500, 'known_points': 3000, 'delegated_points': 3000, 'proposals': 1000, 'proposals_with_known_points': 300, 'trainings': 2000, 'inferred_training_labels': 300, 'conflicts': 60, 'steps_after_conflict': 60, 'steps_without_model': 30, 'factorized_steps': 400, 'partly_invalid': 15, 'resets': 40, 'new_structures': 13, 'tolerances': 80}
ASSUMPTIONS = ['data without repeated rows']

CLASSES = {'positive': Polytope, 'negative': FlippedPolytope, 'persist': PersistentPolytope}


class Wrapped(ActiveLearner):
    """ scores, labels and probabilities are functions of the row; remembers the last training set """
    def __init__(self, salt, batch=1):
        self.salt, self.batch = salt, batch
        self.trainings = []
        self.cleared = 0

    def clear(self):
        self.cleared += 1

    def fit(self, X, y):
        self.trainings.append((np.array(X), np.array(y)))

    def _hash(self, X, k):
        return np.mod(np.abs(X).sum(axis=1) * 7919.77 * (self.salt + k), 1.)

    def predict_proba(self, X):
        return self._hash(X, 0)

    def predict(self, X):
        return (self._hash(X, 0) > 0.5).astype(float)

    def rank(self, X):
        return self._hash(X, 1)

    def _select_next(self, dataset):
        if self.batch == 1:
            return super()._select_next(dataset)
        return dataset[np.argsort(self.rank(dataset.data))[:self.batch]]


class Shadow:
    """ the polytopes which the labels given so far imply """
    def __init__(self, partition, modes, tol=1e-12):
        self.partition = partition
        self.exact = tol <= 1e-12  # a generous tolerance knows labels next to the border which turn out wrong without being in conflict
        self.pols = [CategoricalPolytope() if m == 'categorical' else MultiSetPolytope() if m == 'multiset' else CLASSES[m](tol) for m in modes]
        self.conflict = False

    @property
    def valid(self):
        return any(p.is_valid for p in self.pols)

    @property
    def all_valid(self):
        return all(p.is_valid for p in self.pols)

    def update(self, X, P):
        self.conflict = False
        if not self.valid:
            return
        for j, (idx, pol) in enumerate(zip(self.partition, self.pols)):
            if pol.is_valid and not pol.update(X[:, idx], P[:, j]):
                self.conflict = True

    def partial(self, X):
        return np.array([pol.predict(X[:, idx]) if pol.is_valid else np.full(len(X), 0.5) for idx, pol in zip(self.partition, self.pols)]).T

    def predict(self, X):
        return self.partial(X).min(axis=1)


def rows_of(data):
    return {tuple(r) for r in np.asarray(data)}


def inspect(ctx, dsm, wrapped, shadow, ds, X, was_known, rng, factorized, cfg):
    """ state after a fit """
    all_rows = np.asarray(ds.data)
    known = shadow.predict(all_rows) != 0.5 if shadow.valid else np.zeros(len(all_rows), dtype=bool)
    inferred = rows_of(ds.inferred.data) if ds.inferred_size else set()
    labeled = rows_of(ds.labeled.data)
    now = {tuple(r) for r, k in zip(all_rows, known) if k} - labeled
    missing, extra = now - inferred, inferred - now
    ctx.check(not missing, '{}: the polytope knows {} but it is not in the inferred part', cfg, list(missing)[:1])
    ctx.check(extra <= was_known - labeled, '{}: {} is in the inferred part although its label is not known', cfg, list(extra - was_known)[:1])
    ctx.event('known_points', len(now))
    ctx.event('steps')

    C = np.vstack([X[rng.permutation(len(X))[:12]], X[rng.permutation(len(X))[:3]] * 1.01]) if not factorized else X[rng.permutation(len(X))[:15]]
    Z = C.copy()
    pred, proba = np.array(dsm.predict(Z), dtype=float), np.array(dsm.predict_proba(Z), dtype=float)
    ctx.same(Z, C, 'predicting modified the data')
    if shadow.valid:
        k = shadow.predict(C)
        sure = k != 0.5
        ctx.same(pred[sure], k[sure], '{}: labels where the polytope knows', cfg)
        ctx.same(proba[sure], k[sure], '{}: probabilities where the polytope knows', cfg)
    else:
        sure = np.zeros(len(C), dtype=bool)
        ctx.event('steps_without_model')
    ctx.same(pred[~sure], wrapped.predict(C[~sure]), '{}: labels elsewhere', cfg)
    ctx.same(proba[~sure], wrapped.predict_proba(C[~sure]), '{}: probabilities elsewhere', cfg)
    ctx.event('delegated_points', int((~sure).sum()))
    if factorized:
        ctx.event('factorized_steps')
        ctx.same(dsm.polytope_model.predict_partial(C), shadow.partial(C), '{}: partial labels of the polytopes', cfg)
        if shadow.valid and not shadow.all_valid:
            ctx.event('partly_invalid')
    ctx.check(bool(dsm.polytope_model.is_valid) == shadow.valid, '{}: polytope model valid: {}, should be {}', cfg, dsm.polytope_model.is_valid, shadow.valid)
    return now


def check_trainings(ctx, wrapped, shadow, labels, rows, cfg):
    """ the trainings since the last fit_data: all user labels, and only inferred labels which the polytopes still imply """
    ctx.check(len(wrapped.trainings) > 0, '{}: the learner was not trained', cfg)
    for T, t in wrapped.trainings:
        ctx.check(len(T) == len(t), '{} rows with {} labels', len(T), len(t))
        given = {}
        extra = []
        for r, v in zip(map(tuple, T), t):
            if r in labels:
                ctx.check(v == labels[r] or not shadow.exact, '{}: {} is labeled {} by the user but the learner was trained with {}', cfg, r, labels[r], v)
                given[r] = v
            else:
                extra.append((r, v))
        ctx.check(len(given) == len(labels), '{}: the learner was trained with {} of {} user labels', cfg, len(given), len(labels))
        if extra:
            R = np.array([r for r, _ in extra])
            ctx.check(rows_of(R) <= rows, '{}: trained with points which are not in the data', cfg)
            ctx.check(shadow.valid, '{}: trained with inferred labels although the polytope is invalid', cfg)
            want = shadow.predict(R)
            got = np.array([v for _, v in extra])
            ctx.check(np.array_equal(want, got) or not shadow.exact, '{}: trained with inferred labels {}, the polytope says {}', cfg, got, want)
            ctx.event('inferred_training_labels', len(extra))
        ctx.event('trainings')


def explore(ctx, rng, dsm, wrapped, shadow, X, y, P, cfg, factorized, steps):
    n = len(X)
    idx = gen.index_values(rng, n)
    where = {v: i for i, v in enumerate(idx.tolist())}
    ds = PartitionedDataset(X.copy(), idx)
    rows = rows_of(X)
    labels, was_known, log = {}, set(), []
    subsample = None if rng.rand() < 0.5 else int(rng.randint(1, 15))
    start = [np.where(y == 1)[0][0], np.where(y == 0)[0][0]] if 0 < y.sum() < n else [0]
    batch = [int(i) for i in start]
    for step in range(steps):
        new = LabeledSet(y[batch], P[batch] if P is not None else None, idx[batch])
        ds.move_to_labeled(new)
        labels.update(zip(map(tuple, X[batch]), y[batch]))
        wrapped.trainings = []
        shadow.update(X[batch], P[batch] if P is not None else y[batch, None])
        dsm.fit_data(ds)
        if shadow.conflict:
            was_known = set()
            ctx.event('conflicts')
            log.append(step)
        if log:
            ctx.event('steps_after_conflict')
        was_known |= inspect(ctx, dsm, wrapped, shadow, ds, X, was_known, rng, factorized, cfg)
        check_trainings(ctx, wrapped, shadow, labels, rows, cfg)
        if ds.unlabeled_size == 0:
            break
        if rng.rand() < 0.75:
            unknown_before = ds.unknown_size
            unlabeled = ds.unlabeled_size
            candidates = (ds.unknown if unknown_before else ds.unlabeled).data
            sizes = (ds.labeled_size, ds.inferred_size, ds.unknown_size)
            points = dsm.next_points_to_label(ds, subsample)
            ctx.event('proposals')
            ctx.check((ds.labeled_size, ds.inferred_size, ds.unknown_size) == sizes, '{}: proposing moved points', cfg)
            ctx.check(len(points) >= 1, '{}: no proposal', cfg)
            for i, r in zip(points.index.tolist(), map(tuple, points.data)):
                ctx.check(i in where and tuple(X[where[i]]) == r and r not in labels, '{}: proposed {}', cfg, i)
                if shadow.valid and unknown_before:
                    ctx.check(shadow.predict(np.array([r]))[0] == 0.5, '{}: proposed a point of known label while {} unknown points remain', cfg, unknown_before)
                    if ds.inferred_size:
                        ctx.event('proposals_with_known_points')
            if wrapped.batch == 1:
                score = wrapped.rank(points.data)[0]
                better = int((wrapped.rank(candidates) < score).sum())
                ctx.check(better <= (0 if subsample is None else max(0, unlabeled - subsample)), '{}: the wrapped learner prefers {} of {} points to the one proposed, with subsample {}', cfg, better, len(candidates), subsample)
            check_trainings(ctx, wrapped, shadow, labels, rows, cfg)
            batch = [where[i] for i in points.index.tolist()]
        else:
            free = [i for i in range(n) if tuple(X[i]) not in labels]
            batch = gen.random_subset(rng, free, int(rng.randint(1, 4)))
    ctx.case(cfg, sorted(labels.values()), len(was_known), log)
    ctx.sample(options=cfg, labels=len(labels), inferred=ds.inferred_size, conflicts=log)


def noisy(rng, y, p):
    flip = rng.rand(len(y)) < p
    return np.where(flip, 1 - y, y)


@workload(quick=200, thorough=4000, cpu=120)
def whole_space(ctx, rng):
    d = int(rng.choice([1, 2, 2, 3]))
    n = int(rng.randint(8, 50))
    X = rng.normal(size=(n, d)) * 1.5
    y = region(rng, d)(X).astype(float)
    mode = ['positive', 'negative', 'persist'][ctx.index % 3]
    if mode == 'negative' or (mode == 'persist' and rng.rand() < 0.5):
        y = 1 - y
    y = noisy(rng, y, rng.choice([0., 0., 0.08, 0.3]))
    wrapped = Wrapped(rng.rand() + 0.1, int(rng.choice([1, 1, 2, 4])))
    p = {'mode': mode, 'sample_unknown_proba': float(rng.choice([0.1, 0.5, 0.5, 1.]))}
    tol = float(rng.choice([1e-12, 1e-12, 1e-3, 0.1]))
    if tol != 1e-12:
        p['tol'] = tol
        ctx.event('tolerances')
    dsm = DualSpaceModel(wrapped, **p)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for session in range(int(rng.randint(1, 3))):
            if session:
                before = wrapped.cleared
                dsm.clear()
                ctx.check(wrapped.cleared > before, 'reset does not reach the wrapped learner')
                ctx.check(bool(dsm.polytope_model.is_valid) and np.all(np.asarray(dsm.polytope_model.predict(X)) == 0.5), 'reset does not reach the polytope')
                ctx.event('resets')
            explore(ctx, rng, dsm, wrapped, Shadow([slice(None)], [mode], tol), X, y, None, repr((p, d)), False, int(rng.randint(3, 20)))


@workload(quick=150, thorough=3000, cpu=120)
def factorized(ctx, rng):
    d = int(rng.choice([2, 3, 4, 5]))
    k = int(rng.randint(1, min(d, 3) + 1))
    partition = L.partition_of(rng, d, k)
    modes = [['positive', 'negative', 'persist', 'categorical', 'multiset'][rng.randint(5)] for _ in partition]
    n = int(rng.randint(12, 50))
    made = L.dataset(rng, ('factorized', partition, modes, 'AND'), n, d)
    if made is None:
        raise Skip()
    X, y, P = made
    X, keep = np.unique(X, axis=0, return_index=True)
    P = P[keep]
    if len(X) < 6:
        raise Skip()
    p = rng.choice([0., 0., 0.03, 0.15])
    P = np.array([noisy(rng, c, p) for c in P.T]).T
    y = P.min(axis=1)
    wrapped = Wrapped(rng.rand() + 0.1, int(rng.choice([1, 1, 2, 4])))
    same_mode = len(set(modes)) == 1 and rng.rand() < 0.5
    options = {'partition': partition, 'mode': modes[0] if same_mode else modes, 'sample_unknown_proba': float(rng.choice([0.1, 0.5, 1.]))}
    if k == 1 and list(partition[0]) == list(range(d)) and rng.rand() < 0.5:
        options.pop('partition')
    tol = float(rng.choice([1e-12, 1e-12, 1e-3, 0.1]))
    if tol != 1e-12:
        options['tol'] = tol
        ctx.event('tolerances')
    structure_later = rng.rand() < 0.3
    dsm = FactorizedDualSpaceModel(wrapped, **({k: v for k, v in options.items() if k not in ('partition', 'mode')} if structure_later else options))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for session in range(int(rng.randint(1, 3))):
            if session:
                dsm.clear()
                ctx.check(bool(dsm.polytope_model.is_valid) and np.all(np.asarray(dsm.polytope_model.predict(X)) == 0.5), 'reset does not reach the polytopes')
                ctx.event('resets')
            elif structure_later:
                dsm.set_factorization_structure(partition=partition, mode=modes)
                ctx.event('new_structures')
            explore(ctx, rng, dsm, wrapped, Shadow(partition, modes, tol), X, y, P, repr((options, d)), True, int(rng.randint(3, 20)))
    if k > 1:
        ctx.raises(ValueError, lambda: FactorizedDualSpaceModel(wrapped, partition=partition, mode=modes[1:]), 'fewer modes than subspaces')


@workload(quick=30, thorough=500, cpu=120)
def real_learner(ctx, rng):
    """ with a learner of the package: labels follow the hidden convex region wherever the polytope knows """
    d = int(rng.choice([2, 3]))
    n = int(rng.randint(20, 60))
    X = rng.normal(size=(n, d)) * 1.5
    y = region(rng, d)(X).astype(float)
    if not 2 <= y.sum() <= n - 2:
        raise Skip()
    dsm = DualSpaceModel(UncertaintySampler(LogisticRegression()), mode='positive' if rng.rand() < 0.5 else 'persist')
    idx = gen.index_values(rng, n)
    ds = PartitionedDataset(X.copy(), idx)
    where = {v: i for i, v in enumerate(idx.tolist())}
    batch = [np.where(y == 1)[0][0], np.where(y == 0)[0][0]]
    for _ in range(25):
        ds.move_to_labeled(LabeledSet(y[batch], index=idx[batch]))
        dsm.fit_data(ds)
        pred = np.asarray(dsm.predict(X))
        inf = [where[i] for i in ds.inferred.index.tolist()]
        ctx.same(pred[inf], y[inf], 'labels of the inferred part')
        ctx.same(np.asarray(dsm.predict_proba(X))[inf], y[inf], 'probabilities of the inferred part')
        if ds.unlabeled_size == 0:
            break
        points = dsm.next_points_to_label(ds)
        batch = [where[i] for i in points.index.tolist()]
    ctx.case('real', d, n, len(inf))
