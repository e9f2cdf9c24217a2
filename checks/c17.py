"""
C17: predictions of the categorical and multi-set models and of conjunctive inference against the enumeration of every hypothesis which
is consistent with the labels given so far.
"""
import itertools

import numpy as np

from aideme.active_learning.dsm.polytope import CategoricalPolytope, MultiSetPolytope
from aideme.active_learning.inference.inference import Inference
from aideme.active_learning.version_space.categorical import CategoricalActiveLearner, MultiSetActiveLearner
from aideme.explore import LabeledSet, PartitionedDataset
from harness.core import Skip, workload
from harness import gen

RULE = 'A case is a label sequence given to one model; non-trivial when something was inferred beyond the labels; signature: model, labels and predictions.'
QUICK = 8  # times the cases of the quick tier
REQUIRED = {'categorical_updates': 5200, 'contradicting_positives': 480, 'contradictions': 1600, 'contradictions_of_learners': 360, 'expected_errors': 2700, 'forced_items': 66000, 'inference_updates': 5700, 'inferred_beyond_labels': 80000, 'inferred_partial': 5100, 'learner_probabilities': 5200, 'multiset_updates': 6400, 'order_comparisons': 1400, 'reused_inferences': 560}
ASSUMPTIONS = ['at most seven items per universe, so that all hypotheses can be listed']


def hypotheses(m):
    return np.array(list(itertools.product([0., 1.], repeat=m)))


def verdicts(H, X):
    """ :return: matrix telling whether hypothesis i (its good items) makes set j positive """
    return (1 - H) @ X.T == 0


def batches(rng, n):
    i = 0
    while i < n:
        b = min(n, i + int(rng.choice([1, 1, 2, 4])))
        yield np.arange(i, b)
        i = b


def sets(rng, n, m):
    X = (rng.rand(n, m) < rng.choice([0.2, 0.4, 0.7])).astype(float)
    empty = X.sum(axis=1) == 0
    X[empty, rng.randint(m, size=int(empty.sum()))] = 1
    return X


def judge_sets(ctx, got, X, H, labeled, positive_items, negatives):
    ok = verdicts(H, X)
    for x, g, v in zip(X, got, ok.T):
        key = tuple(x)
        ctx.check(g in (0., 0.5, 1.), 'prediction {}', g)
        if v.all():
            ctx.check(g == 1, 'set {} is positive under every consistent hypothesis but predicted {}', x, g)
        elif not v.any():
            ctx.check(g != 1, 'set {} is negative under every consistent hypothesis but predicted {}', x, g)
            forced = any(len(n - positive_items) == 1 and (n - positive_items) <= set(np.where(x > 0)[0]) for n in negatives)
            if forced:
                ctx.check(g == 0, 'set {} contains an item which must be negative but is predicted {}', x, g)
                ctx.event('forced_items')
        else:
            ctx.check(g == 0.5, 'set {} may be positive or negative but is predicted {}', x, g)
        if key in labeled:
            ctx.check(g in (labeled[key], 0.5), 'set {} was labeled {} but is predicted {}', x, labeled[key], g)
            ctx.check(g == 1 or labeled[key] == 0, 'set {} was labeled positive but is predicted {}', x, g)
        elif g != 0.5:
            ctx.event('inferred_beyond_labels')


@workload(quick=500, thorough=12000)
def multisets(ctx, rng):
    m = int(rng.randint(1, 8))
    n = int(rng.randint(1, 14))
    X = sets(rng, n, m)
    if rng.rand() < 0.75:
        good = rng.rand(m) < rng.choice([0.4, 0.7])
        y = (X @ (~good) == 0).astype(float)
        if rng.rand() < 0.2:
            y[rng.randint(n)] = 1 - y[rng.randint(n)]
    else:
        y = gen.binary_labels(rng, n)
    A = hypotheses(m)
    Q = A[1:]
    pol = MultiSetPolytope()
    if rng.rand() < 0.3:
        pol.update(sets(rng, 5, m), gen.binary_labels(rng, 5))
        pol.clear()
    ctx.check(pol.is_valid and np.all(np.asarray(pol.predict(Q)) == 0.5), 'a new or cleared model infers labels')
    dtype = [float, int, np.int8][rng.randint(3)]
    for b in batches(rng, n):
        seen = np.arange(b[-1] + 1)
        P, N = X[seen][y[seen] == 1], X[seen][y[seen] == 0]
        H = A
        for x in P:
            H = H[verdicts(H, x[None])[:, 0]]
        for x in N:
            H = H[~verdicts(H, x[None])[:, 0]]
        arg = X[b].astype(dtype)
        ok = pol.update(arg, y[b].copy())
        ctx.same(arg, X[b], 'update modified its input')
        ctx.event('multiset_updates')
        if len(H) == 0:
            ctx.check(not ok and not pol.is_valid, 'labels {} of sets {} are contradicting but the model is valid', y[seen], X[seen])
            ctx.check(np.all(np.asarray(pol.predict(Q)) == 0.5), 'an invalid model still infers labels')
            ctx.raises(RuntimeError, lambda: pol.update(X[b], y[b]), 'update of an invalid model')
            ctx.event('contradictions')
            pol.clear()
            ctx.check(bool(pol.is_valid) and np.all(np.asarray(pol.predict(Q)) == 0.5), 'a cleared model is invalid or infers labels')
            return
        ctx.check(bool(ok) and bool(pol.is_valid), 'labels {} of sets {} are consistent but the model is invalid', y[seen], X[seen])
        got = np.asarray(pol.predict(Q.astype(dtype)))
        items = set(np.where(P.sum(axis=0) > 0)[0]) if len(P) else set()
        labeled = dict(zip(map(tuple, X[seen]), y[seen]))
        judge_sets(ctx, got, Q, H, labeled, items, [set(np.where(x > 0)[0]) for x in N])
    # another order
    other = MultiSetPolytope()
    order = rng.permutation(n)
    for b in batches(rng, n):
        other.update(X[order[b]], y[order[b]])
    ctx.same(other.predict(Q), got, 'another order of the same labels')
    ctx.event('order_comparisons')
    ctx.case('multiset', m, got.tolist())
    ctx.sample(model='multi-set', items=m, sets=n, predictions=got)


@workload(quick=300, thorough=6000)
def categories(ctx, rng):
    m = int(rng.randint(1, 9))
    n = int(rng.randint(1, 20))
    cat = rng.randint(m, size=n)
    hidden = gen.binary_labels(rng, m)
    y = hidden[cat]
    if rng.rand() < 0.3:
        i = rng.randint(n)
        y[i] = 1 - y[i]
    pol = CategoricalPolytope()
    learner = CategoricalActiveLearner()
    if rng.rand() < 0.3:
        pol.update(np.eye(m)[:1], np.ones(1))
        pol.clear()
        learner.fit(np.eye(m)[:1], np.ones(1))
        learner.clear()
    E = np.eye(m)
    known = {}
    for b in batches(rng, n):
        bad = False
        for c, lb in zip(cat[b], y[b]):
            bad = bad or known.setdefault(c, lb) != lb
        ok = pol.update(E[cat[b]], y[b])
        ctx.event('categorical_updates')
        want = np.array([known.get(c, 0.5) for c in range(m)])
        if bad:
            ctx.check(not ok and not pol.is_valid and np.all(np.asarray(pol.predict(E)) == 0.5), 'contradicting labels {} of categories {} were accepted', y[:b[-1] + 1], cat[:b[-1] + 1])
            ctx.raises(RuntimeError, lambda: pol.update(E[:1], np.ones(1)), 'update of an invalid model')
            if rng.rand() < 0.5:
                ctx.raises(RuntimeError, lambda: learner.fit(E[cat[:b[-1] + 1]], y[:b[-1] + 1]), 'learner trained with contradicting labels')
            ctx.event('contradictions')
            return
        ctx.check(bool(ok) and bool(pol.is_valid), 'consistent labels were rejected')
        got = np.asarray(pol.predict(E))
        ctx.same(got, want, 'categories labeled {}', known)
        learner.fit(E[cat[:b[-1] + 1]], y[:b[-1] + 1])
        ctx.same(learner.predict_proba(E), want, 'probabilities of the categorical learner')
        ctx.same(learner.predict(E), want > 0.5, 'labels of the categorical learner')
        ctx.same(learner.rank(E), np.abs(want - 0.5), 'scores of the categorical learner')
    ctx.case('categorical', m, want.tolist())


@workload(quick=400, thorough=8000)
def conjunctions(ctx, rng):
    k = int(rng.randint(1, 4) if rng.rand() < 0.7 else rng.randint(4, 12))
    d = k + int(rng.randint(0, 2))
    partition = gen.random_partition(rng, d)
    k = len(partition)
    n = int(rng.randint(1, 14))
    kind = rng.randint(3)
    codes = rng.randint(0, 3, size=(n, d))
    if k > 3 and n > 2:  # many points which differ from the first one at a single place
        codes[1:] = np.where(rng.rand(n - 1, d) < 1.3 / d, codes[1:], codes[0])
    X = codes if kind == 0 else codes.astype(float) if kind == 1 else np.array([['v%d' % v for v in row] for row in codes]).reshape(n, d)
    good = {}
    for x in X:
        for j, p in enumerate(partition):
            good.setdefault((j,) + tuple(x[p]), rng.rand() < 0.65 or (k > 3 and np.array_equal(x[p], X[0][p])))
    items = sorted(good, key=str)
    partial = np.array([[good[(j,) + tuple(x[p])] for j, p in enumerate(partition)] for x in X], dtype=float)
    y = partial.min(axis=1)
    inf = Inference(partition)
    if rng.rand() < 0.4:
        # an earlier exploration of another user
        other = {v: rng.rand() < 0.5 for v in items}
        inf.update(X, np.array([min(other[(j,) + tuple(x[p])] for j, p in enumerate(partition)) for x in X], dtype=float))
        inf.clear()
        ctx.event('reused_inferences')
    order = rng.permutation(n)
    X, y = X[order], y[order]
    seen_pos, negatives = set(), []
    for b in batches(rng, n):
        inf.update(X[b], y[b])
        ctx.event('inference_updates')
        for i in b:
            values = {(j,) + tuple(X[i][p]) for j, p in enumerate(partition)}
            if y[i] == 1:
                seen_pos |= values
            else:
                negatives.append(values)
        forced = set().union(*[v - seen_pos for v in negatives if len(v - seen_pos) == 1])
        rest = [v for v in items]
        Q = X if rng.rand() < 0.5 else X[rng.permutation(n)]
        if kind != 2:
            Q = np.vstack([Q, rng.randint(0, 4, size=(4, d))])
        got = np.asarray(inf.predict_partial(Q), dtype=float)
        want = np.array([[1. if v in seen_pos else 0. if v in forced else 0.5 for v in ((j,) + tuple(x[p]) for j, p in enumerate(partition))] for x in Q])
        ctx.same(got, want, 'partial labels after {} labels', b[-1] + 1)
        ctx.same(np.asarray(inf.predict(Q), dtype=float), want.min(axis=1), 'final labels')
        ctx.check(bool(inf.is_valid), 'consistent labels made the inference invalid')
        ctx.event('inferred_partial', len(forced))
    # the deductions are right
    truth = dict(good)
    for x in X:
        for j, p in enumerate(partition):
            v = (j,) + tuple(x[p])
            g = float(np.asarray(inf.predict_partial(x[None]))[0, j])
            ctx.check(g == 0.5 or g == truth[v], 'value {} is deduced to be {}, it is {}', v, g, truth[v])
    if negatives and (y == 1).any():
        # a point made of positive values only cannot be negative
        x = X[np.where(y == 1)[0][0]]
        ctx.raises(RuntimeError, lambda: inf.update(x[None], np.zeros(1)), 'a negative point of positive values only')
        ctx.event('contradictions')
    if len(forced) and k > 1:
        # a point with a value which must be negative cannot be positive
        inf.clear()
        inf.update(X, y)
        x = next(x for x in X if any((j,) + tuple(x[p]) in forced for j, p in enumerate(partition)))
        ctx.raises(RuntimeError, lambda: inf.update(x[None], np.ones(1)), 'a positive point with a negative value')
        ctx.check(not inf.is_valid, 'contradicting labels left the inference valid')
        inf.clear()
        ctx.check(bool(inf.is_valid), 'the inference is invalid after a reset')
        ctx.event('contradicting_positives')
    ctx.case('conjunction', k, d, got.tolist())


@workload(quick=60, thorough=1500)
def learner(ctx, rng):
    """ the multi-set learner gives the share of consistent hypotheses under which a set is positive """
    m = int(rng.randint(2, 7))
    n = int(rng.randint(2, 8))
    X = sets(rng, n, m)
    good = rng.rand(m) < 0.6
    y = (X @ (~good) == 0).astype(float)
    clf = MultiSetActiveLearner()
    if rng.rand() < 0.5:
        idx = gen.index_values(rng, n)
        ds = PartitionedDataset(X, idx)
        ls = LabeledSet(y, index=idx)
        for b in batches(rng, n):
            ds.move_to_labeled(ls.get_index(idx[b]))
            clf.fit_data(ds)
    else:
        clf.fit(sets(rng, 2, m), np.ones(2))
        clf.fit(X, y)
    A = hypotheses(m)
    H = A
    for x, lb in zip(X, y):
        H = H[verdicts(H, x[None])[:, 0] == (lb == 1)]
    if len(H) == 0:
        raise Skip()
    share = verdicts(H, A[1:]).mean(axis=0)
    rounds = 40
    total = np.zeros(len(share))
    for _ in range(rounds):
        p = np.asarray(clf.predict_proba(A[1:]))
        ctx.check(p.shape == share.shape and np.all((p >= 0) & (p <= 1)), 'probabilities {}', p)
        ctx.check(np.all(p[share == 1] == 1) and np.all(p[share == 0] == 0), 'sets of certain label have probabilities {}', p[(share == 1) | (share == 0)])
        total += p
    draws = 50 * rounds
    bound = 6.5 * np.sqrt(share * (1 - share) / draws) + 1e-9
    ctx.check(np.all(np.abs(total / rounds - share) <= bound), 'probabilities {} instead of {}', total / rounds, share)
    ctx.event('learner_probabilities', len(share))
    certain = (share == 0) | (share == 1)
    ctx.same(np.asarray(clf.predict(A[1:]))[certain], share[certain], 'labels of certain sets')
    i = rng.randint(n)
    if y[i] == 1:
        ctx.raises(RuntimeError, lambda: clf.fit(np.vstack([X, X[i:i + 1]]), np.r_[y, 0.]), 'learner trained with contradicting labels')
    ctx.case('learner', m, share.tolist())


@workload(quick=100, thorough=2000)
def new_labels(ctx, rng):
    """ learners which are given the new labels only, until these contradict the former ones """
    m, n = int(rng.randint(2, 8)), int(rng.randint(2, 20))
    single = bool(rng.rand() < 0.5)
    if single:
        cat = rng.randint(m, size=n)
        X, y = np.eye(m)[cat], gen.binary_labels(rng, m)[cat]
        clf = CategoricalActiveLearner()
    else:
        X = sets(rng, n, m)
        y = (X @ (rng.rand(m) < 0.4) == 0).astype(float)
        clf = MultiSetActiveLearner()
    # the last point repeats another one, with the other label
    i = rng.randint(n)
    X, y = np.vstack([X, X[i:i + 1]]), np.r_[y, 1 - y[i]]
    idx = gen.index_values(rng, n + 1)
    data, labels = PartitionedDataset(X, idx), LabeledSet(y, index=idx)
    extra = int(rng.randint(0, 3))  # consistent labels which come with the contradicting one
    begin = 0
    while begin < n - extra:
        size = int(rng.randint(1, 4))
        data.move_to_labeled(labels.get_index(idx[begin:min(begin + size, n - extra)]))
        clf.fit_data(data)
        begin += size
    if single and begin:
        known = {c: v for c, v in zip(cat[:n - extra], y)}
        ctx.same(clf.predict_proba(np.eye(m)), [known.get(c, 0.5) for c in range(m)], 'categories labeled {}, one batch at a time', known)
    data.move_to_labeled(labels.get_index(idx[max(0, n - extra):]))
    ctx.raises(RuntimeError, lambda: clf.fit_data(data), '{}: {} new labels, the last one contradicts a former one', type(clf).__name__, 1 + min(extra, n))
    ctx.event('contradictions_of_learners')
    if rng.rand() < 0.5:
        clf.clear()
        clf.fit(X[:n], y[:n])
        ctx.check(np.all(np.asarray(clf.predict_proba(X[:n][y[:n] == 1])) == 1), '{}: trained again after a contradiction', type(clf).__name__)
    ctx.case('new labels', single, m, y.tolist())
