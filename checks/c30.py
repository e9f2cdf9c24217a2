"""
C30: subspace learners with recording base learners against a recombination of their answers; version space and margin variants against separately
trained models of each subspace.
"""
import numpy as np
from sklearn.svm import SVC
from aideme.active_learning import ActiveLearner, KernelVersionSpace
from aideme.active_learning.version_space.categorical import CategoricalActiveLearner, MultiSetActiveLearner
from aideme.active_learning.version_space.subspace import SubspaceLearner, SubspatialSimpleMargin, SubspatialVersionSpace
from aideme.explore import LabeledSet, PartitionedDataset
from scipy.special import expit
from harness.core import workload
from harness import gen
from harness.learners import dataset, vs_params

RULE = 'A case is one learner over a partition; non-trivial with several subspaces or a changed structure; signature: partition, modes, connectors.'
QUICK = 5  # times the cases of the quick tier
REQUIRED = {'base_trainings': 30000, 'categorical': 240, 'changes': 3300, 'expected_errors': 1000, 'labels_from_probabilities': 1700, 'multisets': 220, 'numerical': 640, 'one_half': 220, 'option_comparisons': 130, 'points': 30000, 'recombined': 320, 'reset_categories': 83, 'svm_points': 9000, 'with_AND': 1700, 'with_MAX': 1600, 'with_MIN': 1600, 'with_None': 1700, 'with_OR': 1700, 'with_PROD': 1700, 'with_SQUARE': 2200, 'with_SUM': 2100, 'with_callable': 5700, 'with_kernel_linear': 34, 'with_kernel_poly': 28, 'with_kernel_rbf': 72, 'with_loss_GREEDY': 99, 'with_loss_PRODUCT': 73, 'with_loss_SQUARE': 88, 'with_loss_callable': 61, 'with_votes': 44}
ASSUMPTIONS = ['partial labels have one column per subspace, with both classes present where support vector machines are trained',
               'multi-set answers are Monte Carlo estimates: only their labels on determined points are compared']


def opinion(X, salt, which):
    """ a number in [0, 1) for each point, the same whatever the layout of the data """
    total = np.rint(np.abs(np.asarray(X)) * 1e6).astype(np.int64).sum(axis=1)
    values = np.mod(total * 1e-6 * 331.7 * salt * (which + 1), 1.)
    return np.round(values * 4) / 4 if which == 1 and salt > 100 else values


class Base(ActiveLearner):
    """ records its trainings; opinions depend on its identity and on the points only """
    made = []

    def __init__(self, salt):
        self.salt, self.sets, self.cleared, self.seen = salt, [], 0, []

    def fit(self, X, y):
        self.sets.append((np.array(X), np.array(y)))

    def clear(self):
        self.cleared += 1

    def _value(self, X, which):
        self.seen.append((which, np.array(X)))
        return opinion(X, self.salt, which)

    def predict(self, X):
        return (self._value(X, 0) > 0.4).astype(float)

    def predict_proba(self, X):
        return self._value(X, 1)

    def rank(self, X):
        return self._value(X, 2) * 3 - 1


class Factory:
    def __init__(self, coarse=False):
        self.made, self.first = [], 101. if coarse else 1.

    def clone(self):
        self.made.append(Base(self.first + 0.37 * len(self.made)))
        return self.made[-1]


LABELS = {'AND': lambda v: v.min(axis=0), 'OR': lambda v: v.max(axis=0)}
PROBAS = {'MIN': lambda v: v.min(axis=0), 'MAX': lambda v: v.max(axis=0), 'PROD': lambda v: np.array([np.prod(c) for c in v.T])}
RANKS = {'SUM': lambda v: np.array([sum(c) for c in v.T]), 'SQUARE': lambda v: np.array([sum(x * x for x in c) for c in v.T])}
LOSSES = {'GREEDY': lambda v: np.array([np.prod([1 - 2 * p * (1 - p) for p in c]) for c in v.T]),
          'SQUARE': lambda v: np.array([sum((p - 0.5) ** 2 for p in c) for c in v.T]),
          'PRODUCT': lambda v: np.array([abs(np.prod(c) - 0.5) for c in v.T])}


def choose(rng, table, none=False):
    """ :return: argument, expected function """
    kind = rng.randint(len(table) + 1 + none)
    if kind == len(table):
        w = rng.uniform(0.5, 2)
        return (lambda v: w * v.mean(axis=0)), (lambda v: w * v.mean(axis=0)), 'callable'
    if kind > len(table):
        return None, None, None
    name = sorted(table)[kind]
    return [name, name.lower(), name.capitalize()][rng.randint(3)], table[name], name


def random_structure(rng, d):
    """ :return: partition argument, columns of each subspace """
    kind = rng.randint(6)
    if kind == 0:
        return None, [list(range(d))]
    if kind == 1:
        k = rng.randint(1, d + 1)
        cuts = [0] + sorted(rng.choice(np.arange(1, d), k - 1, replace=False).tolist()) + [d] if k > 1 else [0, d]
        return [slice(a, b) for a, b in zip(cuts, cuts[1:])], [list(range(a, b)) for a, b in zip(cuts, cuts[1:])]
    groups = gen.random_partition(rng, d)
    if kind == 2:  # overlapping or partial
        groups = [gen.random_subset(rng, range(d), rng.randint(1, d + 1)) for _ in range(rng.randint(1, 4))]
    if kind == 3:
        return [np.array(g) for g in groups], groups
    return [list(g) for g in groups], groups


def stacked(ctx, where, learner, bases, columns, X, which):
    """ answers of the base learners, and their columns """
    return np.array([opinion(X[:, c], b.salt, which) for b, c in zip(bases, columns)])


@workload(quick=1500, thorough=30000)
def connectors(ctx, rng):
    """ dispatch to base learners and combination of their answers, over changes of structure """
    d, n = rng.randint(1, 8), rng.randint(1, 12)
    if rng.rand() < 0.15:
        d = rng.randint(8, 31)
    X = rng.normal(size=(n, d)) * 3
    partition, columns = random_structure(rng, d)
    label, label_f, label_n = choose(rng, LABELS, none=True)
    proba, proba_f, proba_n = choose(rng, PROBAS)
    rank, rank_f, rank_n = choose(rng, RANKS)
    factory = Factory(coarse=rng.rand() < 0.3)
    learner = SubspaceLearner(factory, partition=partition, label_function=label, probability_function=proba, ranking_function=rank)
    names = (label_n, proba_n, rank_n)
    for step in range(rng.randint(1, 4)):
        where = '{} of {}'.format(names, columns)
        if step:
            former = list(learner.learners)
            partition, columns = random_structure(rng, d)
            if partition is None and rng.rand() < 0.5:
                learner.set_factorization_structure()
            elif rng.rand() < 0.3:
                learner.set_factorization_structure(partition=partition, mode='numerical')
            else:
                learner.set_factorization_structure(partition=partition)
            ctx.check(not any(b is f for b in learner.learners for f in former), '{}: base learners kept after a change of structure', where)
            ctx.event('changes')
        where = '{} of {}'.format(names, columns)
        bases = list(learner.learners)
        ctx.check(len(bases) == len(columns) == len(learner.partition) and len(set(map(id, bases))) == len(bases), '{}: {} base learners', where, len(bases))
        for b in bases:
            ctx.check(not b.sets, '{}: base learner trained before', where)
        for fit in range(rng.randint(1, 3)):
            P = (rng.rand(n, len(columns)) < 0.5).astype(float)
            if rng.rand() < 0.5:
                learner.fit(X, P)
                order = np.arange(n)
            else:
                data = PartitionedDataset(X)
                order = rng.permutation(n)[:rng.randint(1, n + 1)]
                P = P[:len(order)]
                data.move_to_labeled(LabeledSet(P.min(axis=1), P, index=order))
                learner.fit_data(data)
            for i, (b, c) in enumerate(zip(bases, columns)):
                ctx.check(len(b.sets) == fit + 1, '{}: base learner {} trained {} times instead of {}', where, i, len(b.sets), fit + 1)
                BX, By = b.sets[-1]
                ctx.same(BX, X[order][:, c], '{}: data of base learner {}', where, i)
                ctx.same(By, P[:, i], '{}: labels of base learner {}', where, i)
                ctx.event('base_trainings')
        T = rng.normal(size=(rng.randint(1, 9), d)) * 3
        T0 = T.copy()
        V = [stacked(ctx, where, learner, bases, columns, T, w) for w in range(3)]
        L, Q, S = (V[0] > 0.4).astype(float), V[1], V[2] * 3 - 1
        ctx.same(learner.predict_all(T), L, '{}: partial labels', where)
        ctx.same(learner.predict_proba_all(T), Q, '{}: partial probabilities', where)
        ctx.same(learner.rank_all(T), S, '{}: partial scores', where)
        p = proba_f(Q)
        ctx.close(learner.predict_proba(T), p, '{}: probabilities of {}', where, Q.tolist(), rtol=1e-12)
        ctx.close(learner.rank(T), rank_f(S), '{}: scores of {}', where, S.tolist(), rtol=1e-12, atol=1e-12)
        if label_f is None:
            ok = np.abs(p - 0.5) > 1e-9
            if factory.first > 100 and proba_n in ('MIN', 'MAX'):
                ctx.event('one_half', int((~ok).sum()))
                ok[:] = True
            ctx.same(learner.predict(T)[ok], (p > 0.5).astype(float)[ok], '{}: labels from probabilities', where)
            ctx.event('labels_from_probabilities')
        else:
            ctx.close(learner.predict(T), label_f(L), '{}: labels of {}', where, L.tolist(), rtol=1e-12)
        ctx.same(T, T0, '{}: points', where)
        ctx.event('points', len(T))
        before = [b.cleared for b in bases]
        learner.clear()
        ctx.check([b.cleared for b in bases] == [k + 1 for k in before] and list(learner.learners) == bases, '{}: reset reached {}', where, [b.cleared for b in bases])
        for nm in names:
            ctx.event('with_{}'.format(nm))
        ctx.case(names, columns)


def subspace_problem(rng, d, K, modes=None):
    """ rows with partial labels, both classes in each subspace """
    groups = [sorted(g) for g in gen.random_partition(rng, d)]
    modes = [['numerical', 'numerical', 'categorical', 'multiset'][rng.randint(4)] for _ in groups] if modes is None else [modes] * len(groups)
    n = rng.randint(10, 30)
    while True:
        X, P = rng.normal(size=(n, d)), np.zeros((n, len(groups)))
        for j, (g, m) in enumerate(zip(groups, modes)):
            if m == 'categorical':
                c = rng.randint(len(g), size=n)
                X[:, g] = np.eye(len(g))[c]
                P[:, j] = (rng.rand(len(g)) < 0.5)[c]
            elif m == 'multiset':
                V = (rng.rand(n, len(g)) < 0.5).astype(float)
                V[V.sum(axis=1) == 0, 0] = 1
                bad = rng.rand(len(g)) < 0.4
                P[:, j] = V @ bad == 0
                X[:, g] = V
            else:
                w = rng.normal(size=len(g))
                P[:, j] = X[:, g] @ w + 0.2 * rng.normal() > 0
        if all(0 < s < n for s, m in zip(P.sum(axis=0), modes) if m == 'numerical'):
            return X, P, groups, modes


@workload(quick=150, thorough=2500)
def version_spaces(ctx, rng):
    """ version space of each subspace, by mode """
    d = rng.randint(1, 7)
    X, P, groups, modes = subspace_problem(rng, d, None)
    q = vs_params(rng)
    q['n_samples'] = int(rng.choice([2, 4, 8]))
    label, loss = ['AND', 'OR', 'PROD'][rng.randint(3)], rng.choice(sorted(LOSSES))
    custom = rng.rand() < 0.15
    numeric_only = bool(rng.rand() < 0.15)
    names = [str(m) if rng.rand() < 0.5 else m.upper() for m in modes]
    names = [['positive', 'negative', 'persist', 'numerical'][rng.randint(4)] if m == 'numerical' and rng.rand() < 0.3 else n for m, n in zip(modes, names)]
    late = rng.rand() < 0.5
    single = len(set(modes)) == 1 and rng.rand() < 0.5
    votes = rng.rand() < 0.15
    kw = dict(label_function=(lambda ys: (ys.mean(axis=0) >= 0.6).astype(float)) if votes else label if rng.rand() < 0.5 else label.lower(), loss=(lambda ps: ps.mean(axis=0)) if custom else loss, numerical_only=numeric_only, **q)
    mode = names[0] if single else names
    if late:
        learner = SubspatialVersionSpace(**kw)
        learner.set_factorization_structure(partition=groups, mode=mode)
    else:
        learner = SubspatialVersionSpace(partition=groups, mode=mode, **kw)
    where = '{} {} of {} as {}, {}'.format('callable' if votes else label, 'callable' if custom else loss, groups, mode, q)
    if numeric_only:
        modes = ['numerical'] * len(modes)
    classes = {'numerical': KernelVersionSpace, 'categorical': CategoricalActiveLearner, 'multiset': MultiSetActiveLearner}
    ctx.check(len(learner.learners) == len(groups) and all(type(l) is classes[m] for l, m in zip(learner.learners, modes)), '{}: learners {}', where, learner.learners)
    before = [X.copy(), P.copy()]
    for fit in range(rng.randint(1, 3)):
        m = rng.randint(6, len(X) + 1)
        learner.fit(X[:m], P[:m])
        V = learner.predict_proba_all(X)
        L = (V > 0.5).astype(float)
        ctx.check(V.shape == (len(groups), len(X)) and V.min() >= 0 and V.max() <= 1, '{}: partial probabilities {}', where, V.tolist())
        for j, (g, mode_j) in enumerate(zip(groups, modes)):
            if mode_j == 'categorical':
                known = {np.argmax(x[g]): v for x, v in zip(X[:m], P[:m, j])}
                ctx.same(V[j], [known.get(np.argmax(x[g]), 0.5) for x in X], '{}: probabilities of categories', where)
                ctx.event('categorical')
            elif mode_j == 'numerical':
                ctx.close(V[j] * q['n_samples'], np.round(V[j] * q['n_samples']), '{}: {} samples give probabilities {}', where, q['n_samples'], V[j].tolist(), atol=1e-9)
                unique = np.unique(X[:m][:, g], axis=0, return_inverse=True)[1].ravel()
                clean = [i for i in range(m) if len(set(P[:m, j][unique == unique[i]])) == 1]
                if modes is not None and not numeric_only:
                    ctx.same(V[j][clean], P[clean, j], '{}: probabilities of labeled points of {}', where, g)
                ctx.event('numerical')
            else:
                ctx.same(V[j][:m][P[:m, j] == 1], np.ones(int(P[:m, j].sum())), '{}: probabilities of positive sets', where)
                ctx.event('multisets')
        if 'multiset' in modes:
            continue
        final = {'AND': V.min(axis=0), 'OR': V.max(axis=0), 'PROD': np.prod(V, axis=0)}[label]
        if not votes:  # probabilities are not defined by connectors of labels
            ctx.close(learner.predict_proba(X), final, '{}: probabilities', where, rtol=1e-12)
        want = (L.mean(axis=0) >= 0.6).astype(float) if votes else {'AND': L.min(axis=0), 'OR': L.max(axis=0), 'PROD': (final > 0.5).astype(float)}[label]
        ok = (np.abs(V - 0.5) > 1e-9).all(axis=0) & (np.abs(final - 0.5) > 1e-9)
        ctx.same(learner.predict(X)[ok], want[ok], '{}: labels', where)
        ctx.close(learner.rank(X), V.mean(axis=0) if custom else LOSSES[loss](V), '{}: scores', where, rtol=1e-12, atol=1e-12)
        ctx.event('recombined')
        ctx.event('with_{}'.format('votes' if votes else label))
        ctx.event('with_loss_{}'.format('callable' if custom else loss))
    ctx.check(gen.unchanged([X, P], before), '{}: data changed', where)
    if rng.rand() < 0.5:
        learner.clear()
        ctx.check(all(type(l) is classes[m] for l, m in zip(learner.learners, modes)), '{}: learners after a reset', where)
        for l, g, mode_j in zip(learner.learners, groups, modes):
            if mode_j == 'categorical':
                ctx.same(l.predict_proba(X[:, g]), np.full(len(X), 0.5), '{}: probabilities of categories after a reset', where)
                ctx.event('reset_categories')
        learner.fit(X, P)
        for j, (g, mode_j) in enumerate(zip(groups, modes)):
            if mode_j == 'categorical':
                ctx.same(learner.predict_proba_all(X)[j], P[:, j], '{}: probabilities of categories after a reset and a training', where)
    ctx.case(groups, modes, label, loss, custom)


@workload(quick=60, thorough=1000)
def options(ctx, rng):
    """ a single numerical subspace is a version space with the same options """
    d = rng.randint(1, 4)
    q = vs_params(rng, any_kernel=True)
    q['n_samples'] = 32
    if q['kernel'] != 'rbf':
        q['add_intercept'] = True
        if q['kernel'] == 'poly':
            q['degree'], q['coef0'] = int(rng.randint(2, 4)), float(rng.choice([0.5, 1.]))
    X, y, _ = dataset(rng, 'any' if q['kernel'] == 'rbf' else 'linear', 15, d)
    a = SubspatialVersionSpace(label_function='AND', loss='SQUARE', **q)
    b = KernelVersionSpace(**q)
    # as sampling is random, both are given the same random numbers
    T = rng.normal(size=(20, d))
    seed = rng.randint(2 ** 31)
    got = []
    for learner, labels in ((a, y.reshape(-1, 1)), (b, y)):
        np.random.seed(seed)
        learner.fit(X, labels)
        got.append(learner.predict_proba(T))
    ctx.close(got[0], got[1], 'version space with {} over one subspace, and the version space alone', q, atol=1e-9)
    ctx.event('option_comparisons')
    ctx.event('with_kernel_' + q['kernel'])
    ctx.case(sorted(q.items(), key=str))


@workload(quick=300, thorough=5000)
def margins(ctx, rng):
    """ support vector machines of each subspace """
    d = rng.randint(1, 7)
    X, P, groups, _ = subspace_problem(rng, d, None, 'numerical')
    C, kernel, gamma = float(rng.choice([0.5, 1., 100.])), str(rng.choice(['rbf', 'linear', 'poly'])), [0.5, 'auto', 'scale'][rng.randint(3)]
    label = ['AND', 'OR', 'and', 'or', None][rng.randint(5)]
    fn = (lambda v: v.max(axis=0)) if label is None else label
    learner = SubspatialSimpleMargin(partition=groups if rng.rand() < 0.6 else None, label_function=fn, C=C, kernel=kernel, gamma=gamma)
    if len(learner.partition) != len(groups) or rng.rand() < 0.3:
        learner.set_factorization_structure(partition=groups, mode='numerical')
    where = '{} with C {}, kernel {}, gamma {} of {}'.format(label, C, kernel, gamma, groups)
    for fit in range(rng.randint(1, 3)):
        rows = rng.permutation(len(X))
        if fit == 0 or len(np.unique(P[rows[:6]], axis=0)) < 2 or any(len(set(P[rows[:8], j])) < 2 for j in range(len(groups))):
            m = len(X)
        else:
            m = 8
        rows = rows[:m]
        learner.fit(X[rows], P[rows])
        T = rng.normal(size=(9, d))
        M = np.array([SVC(C=C, kernel=kernel, gamma=gamma).fit(X[rows][:, g], P[rows, j]).decision_function(T[:, g]) for j, g in enumerate(groups)])
        ok = (np.abs(M) > 1e-6).all(axis=0)
        labels = (M > 0).astype(float)
        both = {'AND': (labels.min(axis=0), expit(M).min(axis=0)), 'OR': (labels.max(axis=0), expit(M).max(axis=0))}
        if label is not None:
            want, proba = both[label.upper()]
            ctx.close(learner.predict_proba(T), proba, '{}: probabilities', where, rtol=1e-6, atol=1e-9)
        else:
            want = labels.max(axis=0)
        ctx.same(learner.predict(T)[ok], want[ok], '{}: labels', where)
        ctx.close(learner.rank(T), np.abs(M).sum(axis=0), '{}: scores', where, rtol=1e-6, atol=1e-9)
        ctx.event('svm_points', len(T))
    ctx.case(groups, C, kernel, str(gamma), str(label))


@workload(quick=60, thorough=600)
def rejections(ctx, rng):
    """ structures and names without meaning """
    d = rng.randint(2, 6)
    groups = gen.random_partition(rng, d)
    wrong = ['numerical'] * (len(groups) + [-1, 1, 2][rng.randint(3)])
    learner = SubspatialVersionSpace(partition=groups)
    ctx.raises(ValueError, lambda: learner.set_factorization_structure(partition=groups, mode=wrong), '{} modes for {} subspaces', len(wrong), len(groups))
    ctx.raises(ValueError, lambda: SubspatialVersionSpace(partition=groups, mode=wrong), '{} modes for {} subspaces', len(wrong), len(groups))
    bad = list(['numerical'] * len(groups))
    bad[rng.randint(len(bad))] = ['numeric', 'cat', '', 'multi'][rng.randint(4)]
    ctx.raises(ValueError, lambda: learner.set_factorization_structure(partition=groups, mode=bad), 'modes {}', bad)
    name = ['XOR', 'min', 'SUM', ''][rng.randint(4)]
    ctx.raises((ValueError, KeyError), lambda: SubspaceLearner(Factory(), label_function=name), 'label function {!r}', name)
    ctx.raises((ValueError, KeyError), lambda: SubspaceLearner(Factory(), probability_function=['AND', 'SUM'][rng.randint(2)]), 'probability function')
    ctx.raises((ValueError, KeyError), lambda: SubspaceLearner(Factory(), ranking_function=['AND', 'PROD'][rng.randint(2)]), 'ranking function')
    ctx.raises((ValueError, KeyError), lambda: SubspatialVersionSpace(loss=['LOG', 'SUM'][rng.randint(2)]), 'loss')
    ctx.raises((ValueError, TypeError), lambda: SubspaceLearner(Factory(), label_function=3), 'label function 3')
    ctx.case(groups, name, bad)
