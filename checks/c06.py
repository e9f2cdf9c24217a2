"""
C06: offline checker of the callback and stopping schedule. The callbacks and criteria given to the exploration write down
each of their calls; the log and the metrics yielded are then compared with a specification of the schedule, computed
iteration by iteration from the settings alone.
"""
import math

import numpy as np

from aideme.explore import LabeledSet, PartitionedDataset, PoolBasedExploration
from aideme.initial_sampling import random_sampler, stratified_sampler
from aideme.utils import metric_logger
from aideme.utils.convergence import max_iter_reached, metric_reached_threshold
from harness.core import workload
from harness.stubs import Recorder
from harness import gen

RULE = ('A case is a simulated exploration (or several runs of it, some of them abandoned half-way) with random callback period, callbacks, '
        'iteration limit, metric thresholds and custom criteria; non-trivial when it had at least two iterations; signature: settings and run lengths.')
QUICK = 8  # times the cases of the quick tier
REQUIRED = {'initial_iterations': 2000, 'iterations': 5000, 'callback_runs': 2000, 'iterations_without_callback': 1000, 'runs': 500, 'stopped_by_limit': 50, 'stopped_by_score': 30,
            'stopped_by_learner_metric': 30, 'stopped_by_custom': 20, 'stopped_by_exhaustion': 50, 'abandoned_runs': 50, 'bad_settings': 100}
ASSUMPTIONS = ['callbacks and criteria have no side effects', 'runs are consumed one after another (the metric log is global)']

SCRIPT = ('phase', 'labeled_indexes', 'labels', 'partial_labels')
TIMES = ('get_next_time', 'fit_time', 'iter_time')


class Calls:
    def __init__(self):
        self.log = []


def make_callback(calls, name, values, kind):
    """ reports values[number of labeled points - 1] """
    def callback(data, learner):
        k = int(data.labeled_size)
        calls.log.append((name, k, data, learner))
        if kind == 'none':
            return None
        if kind == 'empty':
            return {}
        res = {name: values[k - 1]}
        if kind == 'two':
            res['also_' + name] = -k
        return res
    return callback


def expected_keys(name, kind):
    return {'none': [], 'empty': [], 'one': [name], 'two': [name, 'also_' + name]}[kind]


@workload(quick=800, thorough=20000)
def schedules(ctx, rng):
    n = int(rng.choice([1, 2, 4, 9, 30]))
    X = gen.identified_data(rng, n, 2)
    idx = gen.index_values(rng, n)
    y = gen.binary_labels(rng, n, both=n >= 2)
    ls = LabeledSet(y, index=idx)
    label = dict(zip(idx.tolist(), y))

    learner = Recorder(salt=rng.rand() + 0.5)
    calls = Calls()
    kinds = [str(rng.choice(['one', 'two', 'none', 'empty'])) for _ in range(rng.randint(0, 4))]
    names = ['score', 'cb1', 'cb2'][:len(kinds)]
    values = {}
    for nm in names:
        values[nm] = rng.rand(n).round(2) if rng.rand() < 0.7 else np.arange(n) / n
        if rng.rand() < 0.3:
            values[nm] = rng.choice([0., 0.5, 1.], n)
        values[nm] = values[nm].tolist()
    callbacks = [make_callback(calls, nm, values[nm], kind) for nm, kind in zip(names, kinds)]
    given_cb = callbacks if rng.rand() < 0.5 else tuple(callbacks)
    if len(callbacks) == 1 and rng.rand() < 0.4:
        given_cb = callbacks[0]
    elif not callbacks and rng.rand() < 0.5:
        given_cb = None
    cb_copy = list(given_cb) if isinstance(given_cb, (list, tuple)) else None

    skip = int(rng.choice([1, 1, 2, 3, 5, 7, 10, 100]))
    limit = None if rng.rand() < 0.4 else int(rng.choice([0, 1, 2, 3, 7, 15]))
    thresholds = {}
    if 'score' in names and kinds[0] in ('one', 'two') and rng.rand() < 0.6:
        thresholds['score'] = float(rng.choice([0., 0.5, 0.7, 1.]))
    if rng.rand() < 0.3:
        thresholds['fits'] = int(rng.randint(1, 10))
    if rng.rand() < 0.1:
        thresholds['no_such_metric'] = -1e9
    custom = int(rng.randint(1, 12)) if rng.rand() < 0.25 else None
    criteria = [metric_reached_threshold(m, t) for m, t in thresholds.items()]
    if limit is not None:
        criteria.append(max_iter_reached(limit if rng.rand() < 0.97 else limit))
    elif rng.rand() < 0.2:
        criteria.append(max_iter_reached(math.inf))
    if custom is not None:
        criteria.append(lambda manager, metrics: manager.data.labeled_size == custom)
    criteria = [criteria[i] for i in rng.permutation(len(criteria))]
    given_cr = criteria if rng.rand() < 0.6 else tuple(criteria)
    if len(criteria) == 1 and rng.rand() < 0.5:
        given_cr = criteria[0]
    elif not criteria and rng.rand() < 0.5:
        given_cr = None
    cr_copy = list(given_cr) if isinstance(given_cr, (list, tuple)) else None

    sampler = stratified_sampler(ls, neg_in_all_subspaces=False) if n >= 2 and rng.rand() < 0.5 else None
    if rng.rand() < 0.3:  # several iterations before both labels are known
        sampler = random_sampler(int(rng.choice([1, 1, 2])))
        if n > 4 and rng.rand() < 0.5:
            y[:] = rng.randint(2)
            y[rng.randint(n)] = 1 - y[0]
            ls, label = LabeledSet(y, index=idx), dict(zip(idx.tolist(), y))
    metric_logger.flush()
    if rng.rand() < 0.2:  # left over by something else
        metric_logger.log_metric('score', 5.)
        metric_logger.log_metric('fits', 1000)
        metric_logger.log_metric('cb1', 1.)

    expl = PoolBasedExploration(initial_sampler=sampler, subsampling=None, callback=given_cb, callback_skip=skip, convergence_criteria=given_cr)
    lengths, previous = [], []
    for attempt in range(int(rng.choice([1, 1, 2]))):
        repeat = int(rng.randint(1, 4))
        as_list = rng.rand() < 0.3
        seeds = [None, [int(v) for v in rng.randint(0, 1000, repeat)]][rng.randint(2)]
        if repeat == 1 and rng.rand() < 0.3:
            seeds = int(rng.randint(1000))
        calls.log.clear()
        learner.log.clear()
        runs = expl.run(X, ls, learner, repeat=repeat, seeds=seeds, return_generator=not as_list)
        count = 0
        for run in runs:
            count += 1
            ctx.event('runs')
            stop_after = int(rng.randint(1, 8)) if not as_list and rng.rand() < 0.25 else None
            got, copies, it, labeled = [], [], 0, 0
            if as_list:
                per_run = list(run)
            why = None
            source = iter(run)
            while True:
                try:
                    m = next(source)
                except StopIteration:
                    break
                it += 1
                ctx.event('iterations')
                ctx.check(why is None, 'iteration {} was run although {} stops the exploration', it, why)
                ctx.check(all(m is not o for o in got) and all(m is not o for o in previous), 'iteration {} yields a dictionary handed out before', it)
                got.append(m)
                copies.append(dict(m))

                for key in SCRIPT + TIMES:
                    ctx.check(key in m, 'iteration {} reports no {}', it, key)
                ctx.check(all(label[i] == v for i, v in zip(m['labeled_indexes'], m['labels'])), 'labels reported are not those of the points')
                labeled += len(m['labeled_indexes'])
                for key, v in m.items():
                    if key.endswith('_time'):
                        ctx.check(isinstance(v, float) and 0 <= v < 1e4, 'iteration {}: {} is {!r}', it, key, v)
                ctx.check(m['iter_time'] >= m['fit_time'] + m['get_next_time'] - 1e-6, 'iteration {} took less time than its parts', it)

                # learner metrics appear in the iterations they were logged in
                seen = [lb for q in got for lb in q['labels']]
                trained = sampler is None or len(set(seen)) == 2
                first_trained = next((j for j in range(1, it + 1) if sampler is None or len({lb for q in got[:j] for lb in q['labels']}) == 2), None)
                if not trained:
                    ctx.event('initial_iterations')
                fits = it - first_trained + 1 if trained else 0
                ctx.check(m.get('fits', 0) == fits, 'iteration {} reports {} model updates instead of {}', it, m.get('fits', 0), fits)
                ctx.check(('odd_fit' in m) == (trained and fits % 2 == 1), 'iteration {}: metrics logged in an earlier iteration reappear, or new ones are missing', it)

                # stopping criteria which do not depend on the callbacks
                if labeled == n:
                    why = 'exhaustion'
                if custom is not None and labeled == custom:
                    why = 'custom'
                if 'fits' in thresholds and trained and fits >= thresholds['fits']:
                    why = 'learner_metric'
                if limit is not None and it > limit:
                    why = 'limit'
                run_now = (it - 1) % skip == 0 or why is not None

                # callbacks
                if not as_list:
                    log = list(calls.log)
                    calls.log.clear()
                else:
                    log, rest = [], []
                    if run_now:
                        log = calls.log[:len(callbacks)]
                        del calls.log[:len(callbacks)]
                want = [(nm, labeled) for nm in names] if run_now else []
                ctx.check([(c[0], c[1]) for c in log] == want, 'iteration {} (period {}, {}): callbacks run (name, number of labels) are {} instead of {}',
                          it, skip, 'last' if why else 'not last', [(c[0], c[1]) for c in log], want)
                ctx.check(all(isinstance(c[2], PartitionedDataset) and c[3] is learner for c in log), 'callbacks were called with other objects')
                ctx.event('callback_runs' if run_now else 'iterations_without_callback')
                for nm, kind in zip(names, kinds):
                    for key in expected_keys(nm, 'two'):
                        present = run_now and key in expected_keys(nm, kind)
                        ctx.check((key in m) == present, 'iteration {} (period {}): metric {} is {}', it, skip, key, 'missing' if present else 'reported although its callback did not return it')
                        if present:
                            ctx.check(m[key] == (values[nm][labeled - 1] if key == nm else -labeled), 'iteration {}: metric {} is {} instead of what its callback returned', it, key, m[key])
                if run_now and 'score' in thresholds and m['score'] >= thresholds['score']:
                    why = why or 'score'
                if as_list:
                    continue
                if stop_after is not None and it >= stop_after:
                    break
            abandoned = stop_after is not None and it >= stop_after
            if abandoned:
                ctx.event('abandoned_runs')
                if hasattr(source, 'close') and rng.rand() < 0.5:
                    source.close()
            else:
                ctx.check(why is not None, 'the run ended after {} iterations ({} of {} points labeled) although nothing stops it (limit {}, thresholds {}, custom {})', it, labeled, n, limit, thresholds, custom)
                ctx.event('stopped_by_' + why)
            ctx.check(all(a == b for a, b in zip(got, copies)), 'metrics of an iteration were changed afterwards')
            previous = got
            lengths.append((it, why))
            if it >= 2:
                ctx.case(n, skip, limit, tuple(sorted(thresholds.items())), tuple(kinds), tuple(lengths))
        ctx.check(count == repeat, '{} runs instead of {}', count, repeat)
        if as_list:
            ctx.check(not calls.log, 'callbacks were run {} times too often', len(calls.log))
    if cb_copy is not None:
        ctx.check(len(given_cb) == len(cb_copy) and all(a is b for a, b in zip(given_cb, cb_copy)), "the caller's list of callbacks was changed")
    if cr_copy is not None:
        ctx.check(len(given_cr) == len(cr_copy) and all(a is b for a, b in zip(given_cr, cr_copy)), "the caller's list of criteria was changed")
    ctx.sample(n=n, period=skip, limit=limit, thresholds=thresholds, runs=lengths)


@workload(quick=60, thorough=1000)
def settings(ctx, rng):
    """ settings out of range are rejected """
    fn = lambda data, learner: {}
    for kwargs in ({'callback_skip': 0}, {'callback_skip': -1}, {'callback_skip': 1.5}, {'callback_skip': None}, {'callback_skip': math.inf}, {'subsampling': 0},
                   {'subsampling': -3}, {'subsampling': 2.5}, {'callback': [fn, 3]}, {'convergence_criteria': [fn, 'x']}, {'callback': ['x']}):
        ctx.event('bad_settings')
        ctx.raises(ValueError, lambda: PoolBasedExploration(**kwargs), 'settings {} are accepted', kwargs)
    for bad in (-1, 0.5, None, 'a'):
        ctx.event('bad_settings')
        ctx.raises((ValueError, TypeError), lambda: max_iter_reached(bad), 'iteration limit {!r} is accepted', bad)
    # the criteria alone
    class Manager:
        iters, data = 0, None
    for limit in (int(10 ** rng.uniform(0, 6)), int(rng.randint(200)), 0, math.inf):
        converged = max_iter_reached(limit)
        for it in (limit, limit + 1, limit - 1, 2 * limit, limit // 2, 0, 1, int(rng.randint(10 ** 7))):
            if 0 <= it < math.inf:
                Manager.iters = int(it)
                ctx.check(bool(converged(Manager(), {})) == (it > limit), 'iteration limit {}: {} after {} iterations', limit, 'stopped' if it <= limit else 'not stopped', it)
    threshold = float(rng.choice([0, 1, -1, rng.normal() * 10. ** rng.randint(-9, 9)]))
    converged = metric_reached_threshold('m', threshold)
    for v in (threshold, np.nextafter(threshold, math.inf), np.nextafter(threshold, -math.inf), threshold + 1, threshold - 1, -threshold, 0., float(rng.normal()), math.inf, -math.inf):
        for value in (v, np.float64(v)):
            ctx.check(bool(converged(Manager(), {'m': value, 'n': 1e30})) == (v >= threshold), 'threshold {}: {} with {}', threshold, 'stopped' if v < threshold else 'not stopped', v)
    ctx.check(not converged(Manager(), {'n': 1e30}) and not converged(Manager(), {}), 'a missing metric stops the exploration')
    ctx.event('criteria_alone')
    n = rng.randint(2, 6)
    repeat = int(rng.randint(1, 5))
    wrong = repeat + int(rng.choice([-1, 1]))
    expl = PoolBasedExploration()
    ctx.raises(ValueError, lambda: list(expl.run(np.zeros((n, 1)), np.zeros(n), Recorder(), repeat=repeat, seeds=list(range(wrong)))), '{} seeds are accepted for {} runs', wrong, repeat)
    if repeat > 1:
        ctx.raises(ValueError, lambda: list(expl.run(np.zeros((n, 1)), np.zeros(n), Recorder(), repeat=repeat, seeds=3)), 'a single seed is accepted for {} runs', repeat)
