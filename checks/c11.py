"""
C11: the proposals of next_points_to_label are checked against the scores the learner itself gave to the candidates it was shown (seen by a
recording learner), or against scores recomputed over all unlabeled points for the learners of the package.
"""
import warnings

import numpy as np

from aideme.active_learning import ActiveLearner, DualSpaceModel, RandomSampler
from aideme.explore import LabeledSet, PartitionedDataset
from harness.core import Skip, workload
from harness import gen
from harness import learners as L

RULE = ('A case is one proposal (or many, for tie breaking) from a data set in a random partition state; non-trivial when several candidates exist; '
        'signature: candidates, subsample size and proposal.')
QUICK = 4  # times the cases of the quick tier
REQUIRED = {'proposals': 1200, 'subsampled': 250, 'ties': 268, 'tie_statistics': 34, 'sample_statistics': 34, 'infinite_scores': 200, 'random_strategy': 500, 'fewer_than_requested': 100, 'library_proposals': 250, 'dual_space': 300, 'dual_space_all_known': 40, 'with_inferred_points': 800}
ASSUMPTIONS = ['learners score each candidate by itself']

RANKED = ['SimpleMargin', 'RatioMargin', 'UncertaintySampler', 'QueryByDisagreement', 'KernelVersionSpace', 'LinearVersionSpace', 'SubspatialVersionSpace', 'SubspatialSimpleMargin',
          'SwapLearner', 'SimplifiedSwapLearner', 'FLMUncertaintySampler', 'BayesianLinearVersionSpace', 'BayesianKernelVersionSpace']


class Scorer(ActiveLearner):
    """ scores rows by a table over their identifying first column, and records the candidates """
    def __init__(self, table):
        self.table = table
        self.seen = []

    def rank(self, X):
        ids = np.asarray(X)[:, 0].tolist()
        self.seen.append(ids)
        return np.array([self.table[v] for v in ids])

    def predict(self, X):
        return np.zeros(len(X))


def state(ctx, rng, n):
    """ a data set with labeled, inferred and unknown points """
    idx = gen.index_values(rng, n)
    X = gen.identified_data(rng, n, 2)
    ds = PartitionedDataset(X, idx)
    rows = dict(zip(idx.tolist(), X[:, 0].tolist()))
    order = gen.random_subset(rng, idx, n)
    a = int(rng.randint(0, n))
    b = int(rng.randint(a, n + 1))
    if a:
        ds.move_to_labeled(LabeledSet(gen.binary_labels(rng, a), index=np.array(order[:a])))
    if b > a:
        ds.move_to_inferred(order[a:b])
        ctx.event('with_inferred_points')
    free = {getattr(v, 'item', lambda: v)() for v in order[a:]}
    return ds, rows, free


def scores(rng, n):
    kind = rng.randint(7)
    if kind == 0:
        return rng.rand(n)
    if kind == 5:  # differences in the last digits
        return np.float64(rng.choice([1., -0.25, 3e4, 1e-300])) * (1 + rng.randint(0, 4, n) * 2. ** -52)
    if kind == 6:
        return rng.randint(0, 4, n) * 10. ** rng.uniform(-300, -9)
    if kind == 1:
        return rng.randint(0, 3, n).astype(float)
    if kind == 2:
        return -rng.rand(n) * 10 ** rng.uniform(-3, 300)
    if kind == 3:
        return rng.choice([np.inf, np.inf, 1., 2.], n)
    return rng.choice([-np.inf, 0., np.inf], n)


def frozen(ds):
    return (np.asarray(ds.index).tolist(), np.asarray(ds.data).tolist(), ds.labeled_size, ds.inferred_size, np.asarray(ds.labeled_set.labels).tolist())


@workload(quick=2500, thorough=60000)
def proposals(ctx, rng):
    n = int(rng.choice([1, 2, 3, 8, 25, 80]))
    ds, rows, free = state(ctx, rng, n)
    table = scores(rng, n)
    if not np.all(np.isfinite(table)):
        ctx.event('infinite_scores')
    table = dict(zip(rows.values(), table.tolist()))
    learner = Scorer(table)
    subsample = None if rng.rand() < 0.4 else int(rng.choice([1, 2, 5, 24, 1000]))
    before = frozen(ds)
    points = learner.next_points_to_label(ds, subsample) if subsample or rng.rand() < 0.5 else learner.next_points_to_label(ds)
    ctx.check(frozen(ds) == before, 'proposing a point changed the data set')
    got = np.asarray(points.index).tolist()
    ctx.event('proposals')
    ctx.check(len(got) == 1 and got[0] in free, 'proposed {}, unlabeled are {}', got, sorted(free))
    ctx.same(points.data[:, 0], [rows[got[0]]], 'the row proposed is not the one of its index')
    ctx.check(len(learner.seen) >= 1, 'a point was proposed without scores')
    if len(learner.seen) == 1:
        shown = learner.seen[0]
        ctx.check(len(set(shown)) == len(shown) == min(subsample or 10 ** 9, len(free)), '{} distinct candidates of {} considered, subsample size is {}', len(set(shown)), len(free), subsample)
        ctx.check(set(shown) <= {rows[i] for i in free}, 'some candidates are labeled')
        best = min(table[v] for v in shown)
        ctx.check(table[rows[got[0]]] == best, 'proposed a point of score {}, the best candidate has {}', table[rows[got[0]]], best)
        if sum(table[v] == best for v in shown) > 1:
            ctx.event('ties')
    if subsample is not None and subsample < len(free):
        ctx.event('subsampled')
    if len(free) > 1:
        ctx.case(n, sorted(free)[:5], subsample, tuple(got))
    ctx.sample(n=n, unlabeled=len(free), subsample=subsample, proposed=got)


@workload(quick=80, thorough=1000)
def fairness(ctx, rng):
    """ ties and subsamples are drawn uniformly: counts stay within 6.5 standard deviations """
    n = int(rng.randint(4, 12)) if rng.rand() < 0.9 else int(rng.randint(120, 300))
    ds, rows, free = state(ctx, rng, n)
    m = len(free)
    if m < 2:
        raise Skip()
    ids = sorted(rows[i] for i in free)
    best = set(gen.random_subset(rng, ids, int(rng.randint(2, m + 1) if m < 100 else m - rng.randint(3))))
    draws = 60 * m

    def uniform(counts, p, what):
        sd = np.sqrt(draws * p * (1 - p))
        for c in counts:
            ctx.check(abs(c - draws * p) <= 6.5 * sd + 1, '{}: {} of {} instead of about {:.1f}', what, c, draws, draws * p)

    learner = Scorer({v: 0.5 if v in best else 1. for v in rows.values()})
    counts = dict.fromkeys(sorted(best), 0)
    for _ in range(draws):
        v = float(learner.next_points_to_label(ds).data[0, 0])
        ctx.check(v in counts, 'proposed a point which is not among the best')
        counts[v] += 1
    uniform(counts.values(), 1 / len(best), 'proposals of one of {} tied points'.format(len(best)))
    ctx.event('tie_statistics')

    learner = Scorer({v: rng.rand() for v in rows.values()})
    size = int(rng.randint(1, m))
    counts = dict.fromkeys(ids, 0)
    for _ in range(draws):
        learner.seen = []
        learner.next_points_to_label(ds, size)
        for v in learner.seen[0]:
            counts[v] += 1
    uniform(counts.values(), size / m, 'candidacies in samples of {} of {}'.format(size, m))
    ctx.event('sample_statistics')
    ctx.case('fairness', n, m, size, tuple(counts.values()))


@workload(quick=1000, thorough=20000)
def random_strategy(ctx, rng):
    n = int(rng.choice([1, 2, 5, 12, 40]))
    ds, rows, free = state(ctx, rng, n)
    batch = int(rng.choice([1, 1, 2, 5, 50]))
    learner = RandomSampler(None, batch_size=batch) if batch > 1 or rng.rand() < 0.5 else RandomSampler(None)
    subsample = None if rng.rand() < 0.6 else int(rng.choice([1, 3, 100]))
    before = frozen(ds)
    points = learner.next_points_to_label(ds, subsample)
    ctx.check(frozen(ds) == before, 'proposing points changed the data set')
    got = np.asarray(points.index).tolist()
    ctx.check(len(set(got)) == len(got) and set(got) <= free, 'proposed {}, unlabeled are {}', got, sorted(free))
    available = min(len(free), subsample or 10 ** 9)
    ctx.check(len(got) == min(batch, available), 'proposed {} points, {} requested, {} candidates', len(got), batch, available)
    ctx.same(points.data[:, 0], [rows[i] for i in got], 'the rows proposed are not those of their indexes')
    ctx.event('random_strategy')
    if available < batch:
        ctx.event('fewer_than_requested')
    ctx.case('random', n, batch, tuple(got))
    if len(free) <= 8 and rng.rand() < 0.2:
        seen = set()
        for _ in range(25 * len(free)):
            seen |= set(np.asarray(learner.next_points_to_label(ds).index).tolist())
        ctx.check(seen == free, 'points {} are never proposed', sorted(free - seen))


@workload(quick=120, thorough=3000, cpu=120)
def dual_space(ctx, rng):
    """ a dual-space learner proposes the wrapped learner's best point: among the unknown ones, or any unlabeled one if none is left """
    n, d = int(rng.randint(6, 30)), int(rng.randint(1, 3))
    X = np.round(rng.normal(size=(n, d)), 4)
    if len(set(X[:, 0].tolist())) < n:
        raise Skip()
    y = (np.square(X - X[0]).sum(axis=1) <= np.quantile(np.square(X - X[0]).sum(axis=1), 0.4)).astype(float)
    mode = ['positive', 'negative', 'persist'][ctx.index % 3]
    y = 1 - y if mode == 'negative' else y
    idx = gen.index_values(rng, n)
    ds = PartitionedDataset(X, idx)
    table = dict(zip(X[:, 0].tolist(), scores(rng, n).tolist()))
    score = {i: table[v] for i, v in zip(idx.tolist(), X[:, 0].tolist())}
    learner = DualSpaceModel(Scorer(table), mode=mode, sample_unknown_proba=float(rng.choice([0.2, 0.5, 1.])))
    learner.active_learner.fit = lambda X, y: None
    batch = [int(np.where(y == 1)[0][0]), int(np.where(y == 0)[0][0])] + gen.random_subset(rng, range(n), int(rng.choice([0, n // 2, n])))
    where = {v: i for i, v in enumerate(idx.tolist())}
    while ds.unlabeled_size:
        batch = list(dict.fromkeys(batch))
        ds.move_to_labeled(LabeledSet(y[batch], index=idx[batch]))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            learner.fit_data(ds)
        if not ds.unlabeled_size:
            break
        unlabeled = ds.unlabeled.index.tolist()
        candidates = ds.unknown.index.tolist() or unlabeled
        subsample = None if rng.rand() < 0.6 else int(rng.choice([1, 3, 10]))
        for _ in range(3):
            before = frozen(ds)
            got = learner.next_points_to_label(ds, subsample).index.tolist()
            ctx.check(frozen(ds) == before, 'proposing a point changed the data set')
            ctx.check(len(got) == 1 and got[0] in candidates, 'a dual-space learner proposed {}, candidates are {}', got, candidates)
            worse = sum(score[i] < score[got[0]] for i in candidates)
            allowed = 0 if subsample is None else max(0, len(unlabeled) - subsample)
            ctx.check(worse <= allowed, 'a dual-space learner proposed a point although {} of {} candidates have a better score, with subsample {}', worse, len(candidates), subsample)
            ctx.event('dual_space')
            if not ds.unknown_size:
                ctx.event('dual_space_all_known')
        batch = [where[got[0]]] if rng.rand() < 0.7 else [where[i] for i in gen.random_subset(rng, unlabeled, int(rng.randint(1, 4)))]
    ctx.case('dual space', mode, n, d, tuple(got) if ds.unlabeled_size else ())


@workload(quick=len(RANKED) * 24, thorough=len(RANKED) * 400, cpu=240)
def library(ctx, rng):
    """ learners of the package propose a minimizer of their own score over the unlabeled points """
    name = RANKED[ctx.index % len(RANKED)]
    d = int(rng.choice([2, 3, 4]))
    k = int(rng.randint(1, min(d, 3) + 1))
    cfg = L.config(rng, name, d, k)
    if 'multiset' in str(cfg.params.get('mode')):
        raise Skip()  # their probabilities are estimated by drawing at random in each call
    n = int(rng.randint(20 if isinstance(cfg.domain, tuple) else 10, cfg.max_n + 1))
    made = L.dataset(rng, cfg.domain, n, d)
    if made is None:
        raise Skip()
    X, y, P = made
    idx = gen.index_values(rng, n)
    ds = PartitionedDataset(X, idx)
    learner = cfg.make()
    first = np.r_[rng.choice(np.where(y == 1)[0], 2, replace=False), rng.choice(np.where(y == 0)[0], 2, replace=False)]
    if P is not None:
        in_all = np.where(P.max(axis=1) == 0)[0]
        first = np.unique(np.r_[np.where(y == 1)[0][:1], in_all[:1]])
    todo = list(first) + [i for i in rng.permutation(n) if i not in first]
    ls = LabeledSet(y, P, idx)
    ds.move_to_labeled(ls.get_index(idx[todo[:len(first)]]))
    rest = todo[len(first):]
    for step in range(int(rng.randint(1, 5))):
        learner.fit_data(ds)
        if not rest:
            break
        ranks = np.asarray(learner.rank(ds.unlabeled.data.copy()), dtype=float)
        ctx.check(ranks.shape == (len(rest),), '{}: {} scores for {} points', cfg, ranks.shape, len(rest))
        score = dict(zip(ds.unlabeled.index.tolist(), ranks.tolist()))
        before = frozen(ds)
        for _ in range(3):
            subsample = None if rng.rand() < 0.6 else int(rng.randint(1, 10))
            got = learner.next_points_to_label(ds, subsample).index.tolist()
            ctx.check(len(got) == 1 and got[0] in score, '{}: proposed {}', cfg, got)
            worse = sum(v < score[got[0]] - 1e-9 * max(1, abs(score[got[0]])) for v in score.values() if np.isfinite(score[got[0]]) or np.isfinite(v))
            allowed = 0 if subsample is None else max(0, len(score) - subsample)
            ctx.check(worse <= allowed, '{}: {} of {} unlabeled points have a better score than the one proposed, with subsample {}', cfg, worse, len(score), subsample)
            ctx.event('library_proposals')
        ctx.check(frozen(ds) == before, '{}: proposing points changed the data set', cfg)
        b = int(rng.randint(1, 4))
        batch, rest = rest[:b], rest[b:]
        ds.move_to_labeled(ls.get_index(idx[batch]))
    ctx.case(repr(cfg), tuple(got))
