"""
C08: the dictionaries returned by metric callbacks are compared with scores recounted point by point from what the monitored learner answered.
"""
import math
import warnings

import numpy as np

from aideme.active_learning import ActiveLearner, DualSpaceModel, SimpleMargin
from aideme.explore import LabeledSet, PartitionedDataset, PoolBasedExploration
from aideme.initial_sampling import stratified_sampler
from aideme.utils.convergence import max_iter_reached
from aideme.utils.metrics import classification_metrics, prediction_entropy, three_set_metric, training_classification_metrics
from harness.core import workload
from harness import gen

RULE = ('A case is one metric evaluation on random true and predicted labels (all class balances), probabilities or polytope answers; non-trivial when data is not empty; '
        'signature: the metric, confusion counts and requested scores.')
QUICK = 6  # times the cases of the quick tier
REQUIRED = {'score_dictionaries': 1452, 'undefined_ratios': 300, 'training_scores': 300, 'entropies': 200, 'three_set': 250, 'all_known_negative': 30, 'bound_checks': 100, 'bound_checks_with_unknown': 30, 'expected_errors': 100, 'no_polytope': 20}
ASSUMPTIONS = ['labels are 0 or 1']

SCORES = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']


class Answers(ActiveLearner):
    """ answers by the first column, which identifies the row """
    def __init__(self, labels=None, probas=None, polytope=None):
        self.labels, self.probas = labels, probas
        self.seen = []
        if polytope is not None:
            self.polytope_model = polytope

    def predict(self, X):
        self.seen.append(np.array(X))
        return np.array([self.labels[v] for v in X[:, 0].tolist()])

    def predict_proba(self, X):
        self.seen.append(np.array(X))
        return np.array([self.probas[v] for v in X[:, 0].tolist()])


def recount(true, pred):
    tp = sum(1 for t, p in zip(true, pred) if t == 1 and p == 1)
    fp = sum(1 for t, p in zip(true, pred) if t == 0 and p == 1)
    fn = sum(1 for t, p in zip(true, pred) if t == 1 and p == 0)
    tn = sum(1 for t, p in zip(true, pred) if t == 0 and p == 0)

    def ratio(a, b):
        return a / b if b else 0.
    precision, recall = ratio(tp, tp + fp), ratio(tp, tp + fn)
    return {'true_positive': tp, 'false_positive': fp, 'true_negative': tn, 'false_negative': fn, 'accuracy': ratio(tp + tn, tp + fp + fn + tn),
            'precision': precision, 'recall': recall, 'fscore': ratio(2 * precision * recall, precision + recall)}


def scores_asked(rng):
    asked = gen.random_subset(rng, SCORES, int(rng.randint(0, len(SCORES) + 1)))
    prefix = ['', 'test_', 'x', 'train-'][rng.randint(4)]
    return asked, prefix


def judge(ctx, got, asked, prefix, true, pred, what):
    want = recount(true, pred)
    ctx.check(set(got) == {prefix + s for s in asked}, '{}: keys {} for scores {} and prefix {!r}', what, sorted(got), asked, prefix)
    for s in asked:
        v = float(got[prefix + s])
        ctx.check(math.isfinite(v) and abs(v - want[s]) <= 1e-12, '{}: {} is {} instead of {} (true {}, predicted {})', what, s, v, want[s], list(true)[:20], list(pred)[:20])
    ctx.event('score_dictionaries')
    if not want['true_positive']:
        ctx.event('undefined_ratios')


def some_labels(rng, n):
    kind = rng.randint(4)
    y = np.zeros(n) if kind == 0 else np.ones(n) if kind == 1 else gen.binary_labels(rng, n)
    return y.astype([float, int, bool][rng.randint(3)])


@workload(quick=700, thorough=20000)
def classification(ctx, rng):
    n = int(rng.choice([1, 2, 3, 10, 50])) if rng.rand() < 0.95 else int(10 ** rng.uniform(2, 4))
    X = gen.identified_data(rng, n, int(rng.randint(1, 4)))
    y = some_labels(rng, n)
    asked, prefix = scores_asked(rng)
    container = [list, tuple][rng.randint(2)](asked)
    y_arg = y.tolist() if rng.rand() < 0.3 else y
    callback = classification_metrics(X if rng.rand() < 0.7 else X.tolist(), y_arg, container, prefix) if prefix or rng.rand() < 0.5 else classification_metrics(X, y_arg, container)
    # the data explored is not the test set
    m = int(rng.randint(2, 20))
    Z = gen.identified_data(rng, m, X.shape[1]) + 1e6
    ds = PartitionedDataset(Z)
    for _ in range(3):
        pred = some_labels(rng, n)
        pred = {v: p for v, p in zip(X[:, 0].tolist(), pred)}
        learner = Answers(labels={**pred, **{v: rng.randint(2) for v in Z[:, 0].tolist()}})
        got = callback(ds, learner)
        judge(ctx, got, asked, prefix, y.astype(int), [int(pred[v]) for v in X[:, 0].tolist()], 'test scores')
        if len(learner.seen) == 1:
            ctx.same(learner.seen[0], X, 'predictions were asked for other points than the test set')
    cm = recount(y, [pred[v] for v in X[:, 0].tolist()])
    ctx.case('test', cm['true_positive'], cm['false_positive'], cm['false_negative'], cm['true_negative'], tuple(asked), prefix)
    ctx.sample(scores=asked, prefix=prefix, got=got)

    if rng.rand() < 0.3:
        bad = asked + [['f1', 'Accuracy', 'tsm', ''][rng.randint(4)]]
        bad = gen.random_subset(rng, bad, len(bad))
        ctx.raises(ValueError, lambda: classification_metrics(X, y, bad, prefix), 'scores {} were accepted', bad)
        ctx.raises(ValueError, lambda: training_classification_metrics(bad, prefix), 'scores {} were accepted', bad)


@workload(quick=400, thorough=8000)
def training(ctx, rng):
    n = int(rng.choice([2, 5, 30]))
    X = gen.identified_data(rng, n, 2)
    idx = gen.index_values(rng, n)
    ds = PartitionedDataset(X, idx)
    y = dict(zip(idx.tolist(), some_labels(rng, n).astype(float)))
    asked, prefix = scores_asked(rng)
    callback = training_classification_metrics(asked, prefix)
    row = dict(zip(idx.tolist(), X[:, 0].tolist()))
    todo = gen.random_subset(rng, idx.tolist(), int(rng.randint(1, n + 1)))
    while todo:
        b = int(rng.randint(1, len(todo) + 1))
        batch, todo = todo[:b], todo[b:]
        ds.move_to_labeled(LabeledSet([y[i] for i in batch], index=np.array(batch, dtype=idx.dtype)))
        if rng.rand() < 0.5 and ds.unknown_size > 1:
            ds.move_to_inferred([i for i in ds.unknown.index if i not in todo][:1])
        learner = Answers(labels={v: float(rng.randint(2)) for v in X[:, 0].tolist()})
        got = callback(ds, learner)
        known = ds.labeled_set.index.tolist()
        judge(ctx, got, asked, prefix, [y[i] for i in known], [learner.labels[row[i]] for i in known], 'training scores')
        ctx.event('training_scores')
    ctx.case('train', n, tuple(sorted(asked)), tuple(known))


@workload(quick=400, thorough=8000)
def entropies(ctx, rng):
    n = int(rng.choice([1, 2, 10, 60]))
    X = gen.identified_data(rng, n, 2)
    kind = rng.randint(4)
    p = [np.zeros(n), np.full(n, 0.5), rng.rand(n), rng.choice([0., 1., 0.5, 1e-300, 1e-12, 1 - 1e-12], n)][kind]
    probas = dict(zip(X[:, 0].tolist(), p))
    ds = PartitionedDataset(X, gen.index_values(rng, n))
    if n > 2:
        ds.move_to_labeled(LabeledSet([1.], index=ds.index[:1].copy()))
    got = prediction_entropy(ds, Answers(probas=probas))
    ctx.check(set(got) == {'prediction_entropy'}, 'entropy metric has keys {}', sorted(got))

    def h(q):
        return -(q * math.log(q) if q > 0 else 0.) - ((1 - q) * math.log(1 - q) if q < 1 else 0.)
    want = math.fsum(h(q) for q in p.tolist()) / n
    ctx.close(got['prediction_entropy'], want, 'prediction entropy of {}', p[:10], rtol=1e-9, atol=1e-12)
    ctx.event('entropies')
    ctx.case('entropy', n, kind, round(want, 6))


class Polytope:
    def __init__(self, answers):
        self.answers = answers

    def predict(self, X):
        return np.array([self.answers[v] for v in X[:, 0].tolist()])


@workload(quick=500, thorough=8000)
def three_set(ctx, rng):
    n = int(rng.choice([1, 2, 5, 40]))
    X = gen.identified_data(rng, n, 2)
    kind = rng.randint(5)
    answers = [np.zeros(n), np.ones(n), np.full(n, 0.5), rng.choice([0., 0.5, 1.], n), rng.choice([0., 0.5, 1.], n, p=[0.9, 0.05, 0.05])][kind]
    ds = PartitionedDataset(X, gen.index_values(rng, n))
    if n > 2:
        ds.move_to_labeled(LabeledSet([1.], index=ds.index[:1].copy()))
        ds.move_to_inferred(ds.unknown.index[:1].copy())
    pos, unknown = int((answers == 1).sum()), int((answers == 0.5).sum())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = three_set_metric(ds, Answers(polytope=Polytope(dict(zip(X[:, 0].tolist(), answers)))))
    ctx.check(set(got) == {'tsm'}, 'three-set metric has keys {}', sorted(got))
    ctx.close(got['tsm'], pos / (pos + unknown) if pos + unknown else 0., 'three-set metric of {} positive and {} unknown points', pos, unknown)
    ctx.event('three_set')
    if pos + unknown == 0:
        ctx.event('all_known_negative')
    if rng.rand() < 0.1:
        ctx.check(three_set_metric(ds, Answers()) == {}, 'three-set metric of a learner without polytope')
        ctx.event('no_polytope')
    ctx.case('tsm', n, pos, unknown)


@workload(quick=60, thorough=1500)
def lower_bound(ctx, rng):
    """ explorations of convex regions: the metric is a lower bound of the F-score of the model over all the data """
    n, d = int(rng.randint(20, 80)), int(rng.randint(1, 4))
    X = rng.normal(size=(n, d))
    r = np.square((X - rng.normal(size=d) * 0.5) @ rng.normal(size=(d, d))).sum(axis=1)
    y = (r <= np.quantile(r, rng.uniform(0.1, 0.6))).astype(float)
    mode = ['positive', 'persist', 'negative'][rng.randint(3)]
    if mode == 'negative' or (mode == 'persist' and rng.rand() < 0.5):
        y = 1 - y
    if not 0 < y.sum() < n:
        return
    idx = gen.index_values(rng, n)
    ls = LabeledSet(y, index=idx)
    truth = dict(zip(map(tuple, X.tolist()), y))
    learner = DualSpaceModel(SimpleMargin(C=float(10 ** rng.uniform(0, 5))), mode=mode, sample_unknown_proba=0.5)

    def callback(data, al):
        pred = al.predict(data.data)
        f = recount([truth[tuple(x)] for x in data.data.tolist()], pred)['fscore']
        got = three_set_metric(data, al)['tsm']
        wrong_side = mode == 'persist' and np.any([v != 0.5 and v != truth[tuple(x)] for x, v in zip(data.data.tolist(), al.polytope_model.predict(data.data))])
        if not wrong_side:  # the persistent model may start with the wrong convexity assumption
            ctx.check(got <= f + 1e-12, 'three-set metric {} above the F-score {} with {} labels', got, f, data.labeled_size)
            ctx.check(0 <= got <= 1, 'three-set metric {}', got)
            ctx.event('bound_checks')
            if 0 < got < 1:
                ctx.event('bound_checks_with_unknown')
        return {'tsm': got}
    run = PoolBasedExploration(initial_sampler=stratified_sampler(ls), callback=callback, convergence_criteria=max_iter_reached(int(rng.randint(3, 20)))).run(X, ls, learner, seeds=int(rng.randint(10000)), return_generator=False)[0]
    ctx.case('bound', mode, n, d, tuple(i for m in run for i in m['labeled_indexes'])[:8])
