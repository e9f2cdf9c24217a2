"""
C13: every learner of the package, with random documented options, is run through whole explorations; a contract monitor
evaluates its labels and probabilities on all points after each iteration.
"""
import numpy as np

from aideme.explore import LabeledSet, PartitionedDataset, PoolBasedExploration
from aideme.initial_sampling import stratified_sampler
from aideme.utils.convergence import max_iter_reached
from harness.core import Skip, workload
from harness import gen
from harness import learners as L

RULE = ('A case is a whole exploration (to exhaustion or an iteration limit) of one learner with random options on a data set fulfilling its assumptions; '
        'non-trivial when the model was trained at least twice; signature: learner, options, sizes and labeled points.')
QUICK = 2  # times the cases of the quick tier
REQUIRED = {**{'explored_' + n: 15 for n in L.NAMES}, 'prediction_checks': 4000, 'asked_alone': 5000, 'ran_to_exhaustion': 60, 'one_attribute': 30}
ASSUMPTIONS = ['data fulfil the documented assumptions of the learner (separable, consistent partial labels, distinct points for kernels)']


def contract(ctx, cfg, X, learner):
    before = X.copy()
    labels = np.asarray(learner.predict(X))
    probas = np.asarray(learner.predict_proba(X))
    ctx.event('prediction_checks')
    ctx.same(X, before, '{}: predicting modified the data', cfg)
    ctx.check(labels.shape == (len(X),) and probas.shape == (len(X),), '{}: shapes of labels and probabilities are {} and {} for {} points', cfg, labels.shape, probas.shape, len(X))
    ctx.check(bool(np.all((labels == 0) | (labels == 1))), '{}: labels are {}', cfg, np.unique(labels).tolist())
    probas = probas.astype(float)
    ctx.check(bool(np.all(np.isfinite(probas))), '{}: some probabilities are not numbers', cfg)
    ctx.check(probas.min() >= -1e-12 and probas.max() <= 1 + 1e-12, '{}: probabilities range from {} to {}', cfg, probas.min(), probas.max())
    if 'multiset' not in repr(cfg) and 'MultiSet' not in repr(cfg):  # these count random samples anew
        L.alone(ctx, learner, X, labels, probas, cfg)
    if cfg.consistent:
        wrong = ((probas > 0.5 + 1e-9) & (labels == 0)) | ((probas < 0.5 - 1e-9) & (labels == 1))
        ctx.check(not wrong.any(), '{}: {} points have label and probability on different sides, such as label {} with probability {}', cfg, int(wrong.sum()), labels[wrong][:1], probas[wrong][:1])


def explore(ctx, rng, name):
    d = int(rng.choice([2, 3, 4, 6]) if name in L.FACTORIZED else rng.choice([1, 2, 2, 3, 4]))
    k = int(rng.randint(1, min(d, 3) + 1))
    cfg = L.config(rng, name, d, k)
    n = int(rng.randint(20 if isinstance(cfg.domain, tuple) else 8, cfg.max_n + 1))
    made = L.dataset(rng, cfg.domain, n, d)
    if made is None:
        raise Skip()
    X, y, P = made
    idx = gen.index_values(rng, n)
    ls = LabeledSet(y, P, idx)
    learner = cfg.make()
    limit = int(rng.randint(2, cfg.max_iter + 1)) if rng.rand() < 0.6 else cfg.max_iter
    evaluate = X.copy()

    def callback(data, active_learner):
        ctx.check(active_learner is learner, '{}: callback received another learner', cfg)
        contract(ctx, cfg, evaluate, active_learner)
        return None

    subsampling = None if rng.rand() < 0.5 else int(rng.randint(1, 20))
    expl = PoolBasedExploration(initial_sampler=stratified_sampler(ls, neg_in_all_subspaces=True), subsampling=subsampling, callback=callback, convergence_criteria=max_iter_reached(limit))
    run = expl.run(X, ls, learner, seeds=int(rng.randint(1000)), return_generator=False)[0]
    labeled = [i for m in run for i in m['labeled_indexes']]
    ctx.check(len(set(labeled)) == len(labeled), '{}: a point was labeled twice', cfg)
    ctx.check(len(run) == limit + 1 or len(labeled) == n, '{}: the exploration ended after {} iterations', cfg, len(run))
    ctx.event('explored_' + name)
    if len(labeled) == n:
        ctx.event('ran_to_exhaustion')
    if d == 1:
        ctx.event('one_attribute')
    if len(run) >= 2:
        ctx.case(name, repr(cfg), n, d, tuple(labeled[:10]))
    ctx.sample(learner=repr(cfg), n=n, d=d, iterations=len(run))


FAST = [n for n in L.NAMES if n not in ('RatioMargin',)]


@workload(quick=len(FAST) * 36, thorough=len(FAST) * 600, cpu=240)
def explorations(ctx, rng):
    explore(ctx, rng, FAST[rng.randint(len(FAST))] if rng.rand() < 0.1 else FAST[ctx.index % len(FAST)])


@workload(quick=24, thorough=400, cpu=240)
def ratio_margin(ctx, rng):
    explore(ctx, rng, 'RatioMargin')


@workload(quick=2, thorough=10)
def two_steps(ctx, rng):
    from sklearn.linear_model import LogisticRegression
    from aideme.active_learning import SimpleMargin, TwoStepsLearner
    n = 30
    X = rng.normal(size=(n, 4))
    P = np.c_[X[:, 0] > -0.5, X[:, 2] > -0.5].astype(float)
    y = P.min(axis=1)
    ls = LabeledSet(y, P)
    learner = TwoStepsLearner(SimpleMargin(), SimpleMargin(), switch_iter=8, text_column_start=2)
    expl = PoolBasedExploration(initial_sampler=stratified_sampler(ls, neg_in_all_subspaces=True), convergence_criteria=max_iter_reached(5))
    try:
        run = expl.run(X, ls, learner, seeds=3, return_generator=False)[0]
    except AttributeError as e:
        if 'select_cols' not in str(e):
            raise
        ctx.finding('two-steps-learner', 'TwoStepsLearner cannot run: it calls PartitionedDataset.select_cols, which does not exist')
