"""
C31: the metric log against a model fed with the same calls, and the parameter checks (called directly and through the constructors which use them)
against the documented sets of values.
"""
import contextlib
import copy
import io
import math
import time
from decimal import Decimal
from fractions import Fraction
import numpy as np
from aideme.utils import metric_logger
from aideme.utils import validation
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from harness.core import workload
from harness.learners import with_pystan

RULE = 'A case is a history of log operations, a family of values given to a check, or a parameter of a constructor; non-trivial when keys repeat or the value is invalid; signature: operations used, parameter and value kind.'
QUICK = 3  # times the cases of the quick tier
REQUIRED = {'accepted': 92000, 'callback_lists': 1000, 'duplicates_append': 2000, 'duplicates_overwrite': 9100, 'duplicates_sum': 5200, 'expected_errors': 15000, 'flushes': 13000, 'handed_out_metrics': 1700, 'invalid_parameters': 41000, 'logged_append': 10000, 'logged_many': 24000, 'logged_overwrite': 17000, 'logged_sum': 13000, 'nested_timings': 1600, 'range_accepted': 9300, 'range_bounds': 3600, 'range_rejected': 16000, 'rejected': 230000, 'sampler_metrics': 54, 'states_compared': 110000, 'timed_raised': 2500, 'timed_returned': 11000, 'unknown_options': 430, 'unknown_strategies': 13000, 'valid_parameters': 9800}
ASSUMPTIONS = ['values are appended only to lists, and summed only with compatible values (None counts as absent)',
               'numpy integers are not given to parameter checks']

KEYS = ['time', 'count', 'labels', 'a', 'b', '', 'é']


def cases(rng, word):
    return [word, word.upper(), word.lower(), word.capitalize(), word.swapcase(), ''.join(c.upper() if rng.rand() < 0.5 else c.lower() for c in word)][rng.randint(6)]


class Key(str):
    pass


class Sized:
    """ compared by identity: the log must keep the very object """
    def __add__(self, other):
        return ('sum', self, other)


def any_value(rng):
    return [lambda: float(rng.randn()), lambda: int(rng.randint(-5, 5)), lambda: None, lambda: 'text', lambda: [], lambda: [1, 2], lambda: np.arange(3), lambda: Sized(),
            lambda: {'k': 1}, lambda: (1, 2), lambda: float('nan'), lambda: True, lambda: np.float64(0.25), lambda: 0][rng.randint(14)]()


def addend(rng, like):
    if isinstance(like, bool) or isinstance(like, (int, float, np.float64)):
        return [0, 1, -3, 0.5, True, np.float64(1.5)][rng.randint(6)]
    if isinstance(like, np.ndarray):
        return np.ones(3) if like.dtype.kind == 'f' else np.arange(3)
    if isinstance(like, list):
        return [[], [7]][rng.randint(2)]
    if isinstance(like, tuple):
        return (3,)
    if isinstance(like, str):
        return 'more'
    if isinstance(like, Sized):
        return 5
    return NotImplemented


def equal(a, b):
    """ same structure and the same values (NaN equal to itself), objects by identity """
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(equal(u, v) for u, v in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


class Failure(Exception):
    pass


class Model:
    """ what the log should hold, and everything handed out before """
    def __init__(self, ctx):
        self.ctx = ctx
        self.current = {}
        self.old = []       # (dictionary handed out before a flush, its content then)
        self.owned = []     # (list which belongs to a caller, its content)
        self.ops = set()

    def own(self, value):
        if isinstance(value, (list, np.ndarray, dict)):
            self.owned.append((value, copy.copy(value)))

    def store(self, key, value, how):
        how = how.upper()
        if how == 'OVERWRITE':
            self.current[key] = value
        elif how == 'SUM':
            cur = self.current.get(key)
            self.current[key] = value if cur is None else cur + value
        elif how == 'APPEND':
            self.current[key] = list(self.current.get(key, [])) + [value]

    def verify(self, what):
        got = metric_logger.get_metrics()
        self.ctx.check(isinstance(got, dict) and set(got) == set(self.current), 'after {}, the log has keys {} instead of {}', what, sorted(map(str, got)), sorted(map(str, self.current)))
        for key, value in self.current.items():
            self.ctx.check(equal(got[key], value), 'after {}, metric {!r} is {!r} instead of {!r}', what, key, got[key], value)
        for handed, content in self.old:
            self.ctx.check(handed is not got and set(handed) == set(content) and all(equal(handed[k], content[k]) for k in content),
                           'after {}, a dictionary handed out before a flush changed from {} to {}', what, content, handed)
        for mine, content in self.owned:
            self.ctx.check(equal(mine, content), 'after {}, a value logged by the caller changed from {!r} to {!r}', what, content, mine)
        self.ctx.event('states_compared')


def strategy_for(rng, model, key):
    """ :return: strategy and value which fit the current value of the key """
    cur = model.current.get(key)
    how = ['overwrite', 'sum', 'append'][rng.randint(3)]
    if how == 'append' and not (key not in model.current or isinstance(cur, list)):
        how = 'overwrite'
    value = any_value(rng)
    if how == 'sum' and cur is not None:
        value = addend(rng, cur)
        if value is NotImplemented:
            how, value = 'overwrite', any_value(rng)
    return how, value


def timed_call(ctx, rng, model):
    """ nested and recursive timed functions, some raising """
    key, inner_key = KEYS[rng.randint(2)], KEYS[rng.randint(2)]
    for k in (key, inner_key):
        if not isinstance(model.current.get(k, 0.), (int, float, list)):
            metric_logger.log_metric(k, 0.)
            model.current[k] = 0.

    def how_for(k):
        c = model.current.get(k)
        return rng.choice(['overwrite', 'append']) if isinstance(c, list) else rng.choice(['overwrite', 'sum'] if k in model.current else ['overwrite', 'sum', 'append'])
    if key == inner_key:
        how = inner_how = how_for(key)
    else:
        how, inner_how = how_for(key), how_for(inner_key)
    how, inner_how = cases(rng, str(how)), cases(rng, str(inner_how))
    depth, fails = int(rng.randint(0, 4)), rng.rand() < 0.3
    fail_at, sleep = int(rng.randint(0, 4)), float(rng.choice([0, 0, 0.002]))
    result = any_value(rng)
    bare = rng.rand() < 0.5
    if bare and rng.rand() < 0.5:
        result = [None, 0, False, '', 0.][rng.randint(5)]
    wall = []

    @metric_logger.log_execution_time(inner_key, on_duplicates=inner_how)
    def inner(n, *args, extra=None):
        """ inner doc """
        if sleep:
            time.sleep(sleep)
        if fails and n == fail_at:
            raise Failure(n)
        if n > 0:
            t0 = time.perf_counter()
            try:
                out = inner(n - 1, *args, extra=extra)
            finally:
                wall.append((inner_key, inner_how, time.perf_counter() - t0))
            return out
        return result if bare else (result, args, extra)

    outer_args = lambda: None
    outer = inner
    decorated_default = rng.rand() < 0.3 and how.upper() == 'OVERWRITE'

    def body(n, *args, **kwargs):
        """ outer doc """
        return inner(n, *args, **kwargs)

    if decorated_default:
        outer = metric_logger.log_execution_time(key)(body)
    else:
        outer = metric_logger.log_execution_time(key, on_duplicates=how)(body)
    ctx.check(outer.__name__ == 'body' and outer.__doc__ == ' outer doc ' and inner.__name__ == 'inner', 'a timed function lost its name or documentation: {}', outer.__name__)

    before = dict(metric_logger.get_metrics())
    args, extra = (any_value(rng), outer_args), object()
    raised = False
    t0 = time.perf_counter()
    try:
        out = outer(depth, *args, extra=extra)
    except Failure:
        raised = True
    total = time.perf_counter() - t0
    raises = fails and fail_at <= depth
    ctx.check(raised == raises, 'a timed function {} an exception', 'raised' if raised else 'swallowed')
    if not raised and bare:
        ctx.check(out is result, 'a timed function returned {} instead of its result', out)
    elif not raised:
        ctx.check(isinstance(out, tuple) and out[0] is result and all(a is b for a, b in zip(out[1], args)) and len(out[1]) == 2 and out[2] is extra, 'a timed function returned {} instead of its result', out)
    n_inner = 0 if raises else depth + 1
    expected = {}
    if n_inner:
        expected.setdefault(inner_key, [inner_how.upper(), 0])[1] += n_inner
        expected.setdefault(key, [how.upper(), 0])[1] += 1
    now = metric_logger.get_metrics()
    for k in (key, inner_key):
        cur = now.get(k)
        if k not in expected:
            ctx.check((k in now) == (k in before) and (k not in now or cur is before[k]), 'a time was recorded for {!r} although the function raised', k)
            continue
        strategy, calls = expected[k]
        if strategy == 'APPEND':
            old = list(before.get(k, []))
            ctx.check(isinstance(cur, list) and len(cur) == len(old) + calls and equal(cur[:len(old)], old), 'metric {!r} is {!r} after {} calls appended to {!r}', k, cur, calls, old)
            times = cur[len(old):]
        else:
            ctx.check(isinstance(cur, (int, float)), 'metric {!r} is {!r} after timing', k, cur)
            base = before.get(k) if strategy == 'SUM' else None
            if base is not None and not math.isfinite(base):
                times = []
            else:
                times = [cur - (base or 0)]
        for i, t in enumerate(times):
            floor = sleep * (1 if strategy == 'APPEND' or k != inner_key else (1 if strategy == 'OVERWRITE' and key != inner_key else calls if key != inner_key else 1))
            ceil = total * (calls if strategy == 'SUM' else 1)
            ctx.check(isinstance(t, float) and floor * 0.99 - 1e-9 <= t <= ceil + 1e-9, 'recorded time {} for {!r} is not between {} and {}', t, k, floor, ceil)
        if times and strategy == 'OVERWRITE' and k == key:
            ctx.check(times[0] >= sleep * (depth + 1) * 0.99, 'recorded time {} of a function which slept {} times {}', times[0], depth + 1, sleep)
        if times and strategy == 'OVERWRITE' and k != key and wall:
            ctx.event('nested_timings')
    if raises:
        ctx.event('timed_raised')
    else:
        ctx.event('timed_returned')
    for k in (key, inner_key):
        if k in now:
            model.current[k] = now[k]


@workload(quick=2500, thorough=30000, cpu=60)
def histories(ctx, rng):
    metric_logger.flush()
    model = Model(ctx)
    model.verify('a flush')
    for _ in range(int(rng.randint(5, 60))):
        op = ['log', 'log', 'log', 'many', 'flush', 'get', 'timed', 'unknown'][rng.randint(8)]
        key = KEYS[rng.randint(len(KEYS))]
        model.ops.add(op)
        if op == 'log':
            how, value = strategy_for(rng, model, key)
            model.own(value)
            word = cases(rng, how)
            if how == 'overwrite' and rng.rand() < 0.3:
                metric_logger.log_metric(key, value)
            elif rng.rand() < 0.5:
                metric_logger.log_metric(key, value, on_duplicates=word)
            else:
                metric_logger.log_metric(key, value, word)
            ctx.event('logged_' + how)
            if key in model.current:
                ctx.event('duplicates_' + how)
            model.store(key, value, how)
            op = '{} of {!r} in {!r}'.format(word, value, key)
        elif op == 'many':
            chosen = [KEYS[i] for i in rng.permutation(len(KEYS))[:rng.randint(0, 5)]]
            how = ['overwrite', 'sum', 'append'][rng.randint(3)]
            metrics = {}
            for k in chosen:
                cur = model.current.get(k)
                if how == 'append' and not (k not in model.current or isinstance(cur, list)):
                    continue
                v = any_value(rng)
                if how == 'sum' and cur is not None:
                    v = addend(rng, cur)
                    if v is NotImplemented:
                        continue
                metrics[k] = v
                model.own(v)
            given = dict(metrics)
            if how == 'overwrite' and rng.rand() < 0.3:
                metric_logger.log_metrics(metrics)
            else:
                metric_logger.log_metrics(metrics, on_duplicates=cases(rng, how))
            ctx.check(equal(metrics, given), 'log_metrics changed its argument')
            for k, v in given.items():
                model.store(k, v, how)
            ctx.event('logged_many', len(given))
            op = 'log_metrics({})'.format(how)
        elif op == 'flush':
            handed = metric_logger.get_metrics()
            model.old.append((handed, dict(handed)))
            metric_logger.flush()
            model.current = {}
            ctx.event('flushes')
        elif op == 'get':
            ctx.check(metric_logger.get_metrics() is metric_logger.get_metrics() or equal(metric_logger.get_metrics(), metric_logger.get_metrics()), 'reading the log twice gives different values')
        elif op == 'timed':
            timed_call(ctx, rng, model)
        else:
            bad = ['', 'replace', 'summ', 'over write', 'avg', 'appends', 'max'][rng.randint(7)]
            which = rng.randint(3)
            if which == 0:
                ctx.raises(ValueError, lambda: metric_logger.log_metric(key, 1, on_duplicates=bad), 'strategy {!r}'.format(bad))
            elif which == 1:
                ctx.raises(ValueError, lambda: metric_logger.log_metrics({key: 1}, on_duplicates=bad), 'strategy {!r}'.format(bad))
            else:
                def timed():
                    return metric_logger.log_execution_time(key, on_duplicates=bad)(lambda: 1)()
                ctx.raises(ValueError, timed, 'strategy {!r}'.format(bad))
            ctx.event('unknown_strategies')
        model.verify(op)
        model.old, model.owned = model.old[-6:], model.owned[-12:]
    metric_logger.flush()
    ctx.case(True, 'ops={} keys={} old={} lists={}'.format(','.join(sorted(model.ops)), len(model.current), len(model.old), sum(isinstance(v, list) for v in model.current.values())))


@workload(quick=200, thorough=2000, cpu=60)
def runs_after_runs(ctx, rng):
    """ learners of two users log one after the other: what one logged never shows up in the other's metrics """
    from aideme.explore import PoolBasedExploration
    from harness.stubs import Recorder
    seen = []
    n = int(rng.randint(6, 15))
    for user in range(int(rng.randint(2, 4))):
        X, y = rng.randn(n, 2), np.array([0, 1] * n, dtype=float)[:n]
        stop = int(rng.randint(1, 4))

        def mark(*_, user=user):
            return {'user{}'.format(user): user}
        metric_logger.flush()
        metric_logger.log_metric('left_over{}'.format(user), 1)
        from aideme.explore import LabeledSet
        pool = PoolBasedExploration(callback=mark, convergence_criteria=lambda manager, metrics: manager.iters > stop)
        run = next(iter(pool.run(X, LabeledSet(y), Recorder())))
        taken = []
        for m in run:
            taken.append((m, dict(m)))
            if rng.rand() < 0.15:
                break
        run.close()
        for m, content in taken:
            ctx.check(not any(k.startswith('left_over') for k in m), 'metrics contain what was logged before the run: {}', sorted(m))
            ctx.check(all(k == 'user{}'.format(user) for k in m if k.startswith('user')), 'metrics of user {} contain {}', user, sorted(m))
        seen.extend(taken)
    for m, content in seen[:-1]:
        ctx.check(equal(m, content), 'metrics handed out earlier changed from {} to {}', content, m)
    ctx.event('handed_out_metrics', len(seen))
    ctx.case(True, 'users')


# ---- value checks
INF, NAN = math.inf, math.nan
VALUES = [0, 1, 2, 3, -1, -2, 10 ** 30, -10 ** 30, 0., -0., 1., 2., 0.5, -0.5, 1e-300, 5e-324, -5e-324, 1e308, INF, -INF, NAN, True, False, None, '1', '', 'abc', b'1', [], [1], (), (1,), {}, {1},
          1j, 1 + 0j, object(), np.float64(0.5), np.float64(-0.5), np.float64('nan'), np.float64('inf'), np.float64('-inf'), np.float64(0), int, len, range(3)]


def kind_of(v):
    return type(v).__name__


def expected(v, integer, positive, allow_inf, allow_none):
    if v is None:
        return allow_none
    if isinstance(v, (bool, int)):
        return v > 0 if positive else v >= 0
    if isinstance(v, float):
        if v != v:
            return False
        if v == INF:
            return allow_inf
        if integer:
            return False
        return v > 0 if positive else v >= 0
    return False


KINDS = {'assert_positive': (False, True), 'assert_non_negative': (False, False), 'assert_positive_integer': (True, True), 'assert_non_negative_integer': (True, False)}


def random_value(rng):
    k = rng.randint(4)
    if k == 0:
        return VALUES[rng.randint(len(VALUES))]
    if k == 1:
        return int(rng.randint(-4, 5)) * int(10 ** rng.randint(0, 12))
    if k == 2:
        return float(rng.choice([-1, 1]) * 10. ** rng.uniform(-20, 20))
    return float(rng.randint(-3, 4))


@workload(quick=64, thorough=600, cpu=60)
def value_checks(ctx, rng):
    for name, (integer, positive) in KINDS.items():
        check = getattr(validation, name)
        for v in VALUES + [random_value(rng) for _ in range(60)]:
            for allow_inf in (None, False, True):
                for allow_none in (None, False, True):
                    options = {k: b for k, b in (('allow_inf', allow_inf), ('allow_none', allow_none)) if b is not None}
                    want = expected(v, integer, positive, bool(allow_inf), bool(allow_none))
                    label = 'some_parameter'
                    try:
                        out = check(v, label, **options)
                        got, err = True, None
                    except ValueError as e:
                        got, err = False, e
                    ctx.check(got == want, '{}({!r}, {}) {}', name, v, options, 'accepts it' if got else 'raises ' + str(err))
                    if not got:
                        ctx.check(label in str(err), 'the error {!r} does not name the parameter', str(err))
                    ctx.event('accepted' if got else 'rejected')
    for _ in range(300):
        v, low, high = [float(x) if rng.rand() < 0.5 else int(x) for x in rng.randint(-3, 4, size=3)]
        if rng.rand() < 0.2:
            v = [INF, -INF, NAN, low, high, np.nextafter(low, -9), np.nextafter(high, 9), Fraction(1, 2), np.float64(0.5), True][rng.randint(10)]
        if rng.rand() < 0.2:
            low = -INF
        if rng.rand() < 0.2:
            high = INF
        want = (v > low or v == low) and (v < high or v == high)
        try:
            if rng.rand() < 0.5:
                validation.assert_in_range(v, 'some_parameter', low, high)
            else:
                validation.assert_in_range(v, 'some_parameter', low=low, high=high)
            got = True
        except ValueError as e:
            got = False
            ctx.check('some_parameter' in str(e), 'the error {!r} does not name the parameter', str(e))
        ctx.check(got == bool(want), 'assert_in_range({!r}, {!r}, {!r}) {}', v, low, high, 'accepts it' if got else 'raises')
        ctx.event('range_accepted' if got else 'range_rejected')
        if v in (low, high) and low <= high:
            ctx.event('range_bounds')
    for v in ('1', None, [0.5], {}):
        ctx.raises((ValueError, TypeError), lambda: validation.assert_in_range(v, 'some_parameter', 0, 1), 'value {!r}'.format(v))
    ctx.case(True, 'values')


class Callable:
    def __call__(self, *args):
        return {}


@workload(quick=40, thorough=400, cpu=30)
def callbacks(ctx, rng):
    makers = [lambda: (lambda *a: {}), lambda: len, Callable, lambda: Callable().__call__, lambda: dict]
    for empty in (None, [], ()):
        got = validation.process_callback(empty)
        ctx.check(list(got) == [], 'process_callback({!r}) gives {!r}', empty, got)
    for make in makers:
        f = make()
        got = validation.process_callback(f)
        ctx.check(isinstance(got, (list, tuple)) and len(got) == 1 and got[0] is f, 'process_callback of a callable gives {!r}', got)
    for _ in range(20):
        fs = [makers[rng.randint(len(makers))]() for _ in range(rng.randint(1, 6))]
        given = fs if rng.rand() < 0.5 else tuple(fs)
        got = validation.process_callback(given)
        ctx.check(len(got) == len(fs) and all(a is b for a, b in zip(got, fs)), 'process_callback changes the callbacks')
        bad = list(fs)
        bad.insert(rng.randint(len(fs) + 1), [1, None, 'f', {}, 0.5][rng.randint(5)])
        ctx.raises(ValueError, lambda: validation.process_callback(bad if rng.rand() < 0.5 else tuple(bad)), 'callbacks {}'.format(bad))
        ctx.event('callback_lists')
    ctx.raises(ValueError, lambda: validation.process_callback('abc'), "callbacks 'abc'")
    ctx.raises(ValueError, lambda: validation.process_callback([1]), 'callbacks [1]')
    ctx.case(True, 'callbacks')


# ---- parameters of the package
def table():
    """ :return: (parameter, kind, takes the value and builds the object, whether valid values can be tried) """
    with_pystan()
    from sklearn.linear_model import LogisticRegression
    import aideme.active_learning as al
    from aideme import initial_sampling as ini
    from aideme.active_learning.aluma import aluma_preprocessing
    from aideme.active_learning.dsm.convex.convex import ConvexCone, ConvexHull
    from aideme.active_learning.dsm.convex.geometry import NegativeCone, PositiveRegion
    from aideme.active_learning.factorization import LinearFactorizationLearner
    from aideme.active_learning.factorization import optimization as opt, penalty as pen, step_size_scheduler as sched
    from aideme.active_learning.factorization.active_learning import FactorizationManager
    from aideme.active_learning.factorization.learn import prune_irrelevant_subspaces
    from aideme.active_learning.factorization.partitioning import learn as part
    from aideme.active_learning.kernel import GaussianKernel, IncrementedDiagonalKernel, LinearKernel, PolynomialKernel
    from aideme.active_learning.version_space.bayesian.laplace import KernelLaplaceBayesianLogisticRegression, LaplaceBayesianLogisticRegression
    from aideme.active_learning.version_space.hit_and_run import hit_and_run as har
    from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
    from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm, SphericalGradientDescent
    from aideme.explore.command_line_explore import CommandLineExploration
    from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset, PoolBasedExploration
    from aideme.utils import max_iter_reached, random_noise_injector
    from harness.stubs import Recorder

    labels = LabeledSet(np.array([0., 1., 0., 1., 1., 0.]))
    X, y = np.random.RandomState(0).randn(12, 2), np.array([0., 1.] * 6)
    corners = np.array([[0., 0.], [1., 0.], [0., 1.]])
    fitted = LinearFactorizationLearner(optimizer=opt.Adam(max_iter=3))
    np.random.seed(0)
    fitted.fit(X, y, 2)

    def data():
        return PartitionedDataset(X, copy=True)

    P, I, NN, NNI = 'positive', 'positive integer', 'non-negative', 'non-negative integer'
    unit = 'in [0, 1]'
    swap = lambda **kw: al.SwapLearner(al.SimpleMargin(), LinearFactorizationLearner(optimizer=opt.BFGS()), **kw)
    rows = [
        ('stratified_sampler.pos', I, lambda v: ini.stratified_sampler(labels, pos=v)),
        ('stratified_sampler.neg', I, lambda v: ini.stratified_sampler(labels, neg=v)),
        ('random_sampler.sample_size', I, lambda v: ini.random_sampler(v)),
        ('EntropyReductionLearner.data_sample_size', I + ' or none', lambda v: al.EntropyReductionLearner(data_sample_size=v)),
        ('SwapLearner.swap_iter', I, lambda v: swap(swap_iter=v)),
        ('SwapLearner.num_subspaces', I, lambda v: swap(num_subspaces=v)),
        ('SwapLearner.retries', I, lambda v: swap(retries=v)),
        ('SwapLearner.train_sample_size', I + ' or none', lambda v: swap(train_sample_size=v)),
        ('SwapLearner.prune_threshold', unit, lambda v: swap(prune_threshold=v)),
        ('FactorizationManager.compute_every', I, lambda v: FactorizationManager([[0], [1]], compute_every=v)),
        ('FactorizationManager.stable_count', I, lambda v: FactorizationManager([[0], [1]], stable_count=v)),
        ('FactorizationManager.max_iter', I, lambda v: FactorizationManager([[0], [1]], max_iter=v)),
        ('FactorizationManager.step_size', P, lambda v: FactorizationManager([[0], [1]], step_size=v)),
        ('FactorizationManager.l1_penalty', P, lambda v: FactorizationManager([[0], [1]], l1_penalty=v)),
        ('FactorizationManager.l2_sqrt_penalty', P, lambda v: FactorizationManager([[0], [1]], l2_sqrt_penalty=v)),
        ('FLMUncertaintySampler.penalty', NN, lambda v: al.FLMUncertaintySampler(penalty=v)),
        ('L1Penalty.penalty', P, lambda v: pen.L1Penalty(v)),
        ('InteractionPenalty.penalty', P, lambda v: pen.InteractionPenalty(v)),
        ('L2Penalty.penalty', P, lambda v: pen.L2Penalty(v)),
        ('L2SqrtPenalty.penalty', P, lambda v: pen.L2SqrtPenalty(v)),
        ('SparseGroupLassoPenalty.l1_penalty', P, lambda v: pen.SparseGroupLassoPenalty(l1_penalty=v, l2_sqrt_penalty=1.)),
        ('SparseGroupLassoPenalty.l2_sqrt_penalty', P, lambda v: pen.SparseGroupLassoPenalty(l1_penalty=1., l2_sqrt_penalty=v)),
        ('HuberPenalty.penalty', P, lambda v: pen.HuberPenalty(v)),
        ('HuberPenalty.delta', P, lambda v: pen.HuberPenalty(1., delta=v)),
        ('LinearFactorizationLearner.fit.retries', I, lambda v: fitted.copy().fit(X, y, 2, retries=v)),
        ('FixedScheduler.step_size', P, lambda v: sched.FixedScheduler(v)),
        ('PowerDecayScheduler.step_size', P, lambda v: sched.PowerDecayScheduler(v, 1.)),
        ('PowerDecayScheduler.power', P, lambda v: sched.PowerDecayScheduler(1., v)),
        ('PowerDecayScheduler.adapt_every', I, lambda v: sched.PowerDecayScheduler(1., 1., adapt_every=v)),
        ('ExponentialDecayScheduler.step_size', P, lambda v: sched.ExponentialDecayScheduler(v, 0.5)),
        ('ExponentialDecayScheduler.decay', P, lambda v: sched.ExponentialDecayScheduler(1., v)),
        ('ExponentialDecayScheduler.adapt_every', I, lambda v: sched.ExponentialDecayScheduler(1., 0.5, adapt_every=v)),
        ('prune_irrelevant_subspaces.threshold', unit, lambda v: prune_irrelevant_subspaces(X, fitted, threshold=v), False),
        ('prune_irrelevant_subspaces.tol', P, lambda v: prune_irrelevant_subspaces(X, fitted, tol=v), False),
        ('single_chain_sampler.warmup', I, lambda v: har.single_chain_sampler(v, 10)),
        ('single_chain_sampler.thin', I, lambda v: har.single_chain_sampler(10, v)),
        ('multiple_chain_sampler.chain_length', I, lambda v: har.multiple_chain_sampler(v)),
        ('RoundingAlgorithm.max_iter', I + ' or none', lambda v: RoundingAlgorithm(max_iter=v)),
        ('SphericalGradientDescent.grad_norm_threshold', P, lambda v: SphericalGradientDescent(grad_norm_threshold=v)),
        ('SphericalGradientDescent.rel_tol', P, lambda v: SphericalGradientDescent(rel_tol=v)),
        ('SphericalGradientDescent.max_iter', I + ' or none', lambda v: SphericalGradientDescent(max_iter=v)),
        ('SphericalGradientDescent.step_size', P + ' or none', lambda v: SphericalGradientDescent(step_size=v)),
        ('Ellipsoid.dim', I, lambda v: Ellipsoid(v)),
        ('TwoStepsLearner.switch_iter', I, lambda v: al.TwoStepsLearner(al.SimpleMargin(), al.SimpleMargin(), v, 1)),
        ('aluma_preprocessing.H', NN, lambda v: aluma_preprocessing(X, None, 0.5, v, 0.1), False),
        ('aluma_preprocessing.margin', P, lambda v: aluma_preprocessing(X, None, v, 0., 0.1), False),
        ('aluma_preprocessing.delta', unit, lambda v: aluma_preprocessing(X, None, 0.5, 0., v), False),
        ('QueryByDisagreement.background_sample_size', I, lambda v: al.QueryByDisagreement(LogisticRegression(), background_sample_size=v)),
        ('QueryByDisagreement.background_sample_weight', P, lambda v: al.QueryByDisagreement(LogisticRegression(), background_sample_weight=v)),
        ('PositiveRegion.tol', P, lambda v: PositiveRegion(tol=v)),
        ('NegativeCone.tol', P, lambda v: NegativeCone(corners[0], tol=v)),
        ('ConvexHull.tol', P, lambda v: ConvexHull(corners, tol=v)),
        ('ConvexCone.tol', P, lambda v: ConvexCone(corners, np.array([5., 5.]), tol=v)),
        ('RandomSampler.batch_size', I, lambda v: al.RandomSampler(LogisticRegression(), batch_size=v)),
        ('GaussianKernel.gamma', P + ' or none', lambda v: GaussianKernel(gamma=v)),
        ('PolynomialKernel.gamma', P + ' or none', lambda v: PolynomialKernel(gamma=v)),
        ('PolynomialKernel.degree', I, lambda v: PolynomialKernel(degree=v)),
        ('IncrementedDiagonalKernel.jitter', P, lambda v: IncrementedDiagonalKernel(LinearKernel(), v)),
        ('KernelVersionSpace.gamma', P + ' or none', lambda v: al.KernelVersionSpace(gamma=v)),
        ('KernelVersionSpace.warmup', I, lambda v: al.KernelVersionSpace(warmup=v)),
        ('KernelVersionSpace.thin', I, lambda v: al.KernelVersionSpace(thin=v)),
        ('KernelVersionSpace.jitter', P, lambda v: al.KernelVersionSpace(jitter=v)),
        ('LinearVersionSpace.warmup', I, lambda v: al.LinearVersionSpace(warmup=v)),
        ('LinearVersionSpace.thin', I, lambda v: al.LinearVersionSpace(thin=v)),
        ('DualSpaceModel.tol', P, lambda v: al.DualSpaceModel(al.SimpleMargin(), tol=v)),
        ('ExplorationManager.subsampling', I + ' or none', lambda v: ExplorationManager(data(), Recorder(), subsampling=v)),
        ('ExplorationManager.callback_skip', I, lambda v: ExplorationManager(data(), Recorder(), callback_skip=v)),
        ('PoolBasedExploration.subsampling', I + ' or none', lambda v: PoolBasedExploration(subsampling=v)),
        ('PoolBasedExploration.callback_skip', I, lambda v: PoolBasedExploration(callback_skip=v)),
        ('CommandLineExploration.subsampling', I + ' or none', lambda v: CommandLineExploration(subsampling=v)),
        ('CommandLineExploration.callback_skip', I, lambda v: CommandLineExploration(callback_skip=v)),
        ('ExplorationManager.callback', 'callables', lambda v: ExplorationManager(data(), Recorder(), callback=v)),
        ('ExplorationManager.convergence_criteria', 'callables', lambda v: ExplorationManager(data(), Recorder(), convergence_criteria=v)),
        ('PoolBasedExploration.callback', 'callables', lambda v: PoolBasedExploration(callback=v)),
        ('PoolBasedExploration.convergence_criteria', 'callables', lambda v: PoolBasedExploration(convergence_criteria=v)),
        ('CommandLineExploration.callback', 'callables', lambda v: CommandLineExploration(callback=v)),
        ('CommandLineExploration.convergence_criteria', 'callables', lambda v: CommandLineExploration(convergence_criteria=v)),
        ('max_iter_reached.max_iters', NNI + ' or infinity', lambda v: max_iter_reached(v)),
        ('random_noise_injector.noise', unit, lambda v: random_noise_injector(v)),
        ('random_noise_injector.skip_initial', NNI, lambda v: random_noise_injector(0.5, skip_initial=v)),
    ]
    for cls in (LaplaceBayesianLogisticRegression, KernelLaplaceBayesianLogisticRegression):
        for name in ('prior_std', 'tol', 'max_iter'):
            rows.append(('{}.{}'.format(cls.__name__, name), P, lambda v, cls=cls, name=name: cls(**{name: v})))
    for cls in (part.FactorizationSelector,) + tuple(c for c in vars(part).values() if isinstance(c, type) and issubclass(c, part.FactorizationSelector) and c is not part.FactorizationSelector):
        for name in ('max_partitions', 'max_dim'):
            rows.append(('{}.{}'.format(cls.__name__, name), I + ' or none', lambda v, cls=cls, name=name: cls(**{name: v})))
    optimizers = ['BFGS', 'GradientDescent', 'NoisyGradientDescent', 'ProximalGradientDescent', 'FISTA', 'Adam']
    found = 0
    for name in optimizers:
        cls = getattr(opt, name, None)
        if cls is None:
            continue
        found += 1
        for parameter, kind in (('gtol', NN), ('rel_tol', NN), ('max_iter', I + ' or none')):
            rows.append(('{}.{}'.format(name, parameter), kind, lambda v, cls=cls, parameter=parameter: cls(**{parameter: v})))
        for parameter, kind in (('batch_size', I + ' or none'), ('momentum', unit), ('beta1', unit), ('beta2', unit), ('epsilon', P)):
            import inspect
            if parameter in inspect.signature(cls.__init__).parameters:
                rows.append(('{}.{}'.format(name, parameter), kind, lambda v, cls=cls, parameter=parameter: cls(**{parameter: v})))
    options = [
        ('Kernel', lambda v: al.KernelVersionSpace(kernel=v), ['rbf', 'gaussian', 'linear', 'poly', 'RBF', 'Linear'], ['sigmoid', '', 'rbf ', 'polynomial']),
        ('RoundingAlgorithm.strategy', lambda v: RoundingAlgorithm(strategy=v), ['default', 'opt'], ['', 'optimal', 'none', 'lovasz']),
        ('LaplaceBayesianLogisticRegression.prior', lambda v: LaplaceBayesianLogisticRegression(prior=v), ['gaussian', 'improper'], ['', 'cauchy', 'flat', 'normal']),
        ('SphericalGradientDescent.retraction', lambda v: SphericalGradientDescent(retraction=v, step_size=1.), ['sphere', 'project', 'Sphere'], ['', 'cayley', 'expmap']),
        ('DualSpaceModel.mode', lambda v: al.DualSpaceModel(al.SimpleMargin(), mode=v), ['positive', 'negative', 'persist'], ['', 'both', 'pos']),
    ]
    return rows, options, found


GOOD = {'positive': [1, 2, 0.5, 1., 1e-9, 3.5, True], 'non-negative': [0, 0., 1, 0.25, False, 1e-12], 'positive integer': [1, 2, 3, 5], 'non-negative integer': [0, 1, 4],
        'in [0, 1]': [0, 1, 0., 1., 0.5, 1e-9, np.nextafter(1, 0)]}
BAD = {'positive': [0, 0., -1, -0.5, -1e-12, NAN, INF, -INF, None, '1', [1], (2,), 1j], 'non-negative': [-1, -0.5, -1e-12, NAN, INF, -INF, None, '1', [1], 1j],
       'positive integer': [0, -1, 1.5, 2., 0.5, NAN, INF, -INF, None, '1', [1], (2,)], 'non-negative integer': [-1, 0.5, 1., NAN, INF, -INF, None, '1', [1]],
       'in [0, 1]': [-1e-9, np.nextafter(1, 2), 2, -1, NAN, INF, -INF, 5.]}


@workload(quick=64, thorough=600, cpu=120)
def constructors(ctx, rng):
    rows, options, optimizers = table()
    for row in rows:
        name, kind, build = row[:3]
        try_good = len(row) == 3
        if kind == 'callables':
            good, bad = [None, [], lambda *a: {}, [lambda *a: {}, len], (len,)], [1, 0.5, 'f', [len, 1], [None]]
        else:
            base = kind.split(' or ')[0]
            good, bad = list(GOOD[base]), list(BAD[base])
            if kind.endswith(' or none'):
                good, bad = good + [None], [v for v in bad if v is not None]
            if kind.endswith(' or infinity'):
                good, bad = good + [INF], [v for v in bad if not (isinstance(v, float) and v == INF)]
        if try_good:
            v = good[rng.randint(len(good))]
            try:
                build(v)
            except Exception as e:
                ctx.fail('{} = {!r} is {} but raises {!r}', name, v, kind, e)
            ctx.event('valid_parameters')
        for v in [bad[i] for i in rng.permutation(len(bad))[:4]]:
            try:
                build(v)
                ctx.fail('{} = {!r} is accepted although it must be {}', name, v, kind)
            except (ValueError, TypeError) if kind == 'callables' or not isinstance(v, (int, float)) else ValueError:
                ctx.check(True, '')
            ctx.event('invalid_parameters')
    for name, build, good, bad in options:
        build(good[rng.randint(len(good))])
        v = bad[rng.randint(len(bad))]
        ctx.raises(ValueError, lambda: build(v), '{} = {!r}'.format(name, v))
        ctx.event('unknown_options')
    ctx.case(True, 'constructors')


@workload(quick=40, thorough=1500)
def sampler_metrics(ctx, rng):
    """ rounding iterations are listed and times summed over all samplings since the log was flushed """
    d = int(rng.randint(1, 4))
    X = rng.normal(size=(int(rng.randint(2, 10)), d))
    y = (X @ rng.normal(size=d) > 0).astype(float)
    metric_logger.flush()
    k = int(rng.randint(1, 5))
    held, times = [], []
    with contextlib.redirect_stdout(io.StringIO()):
        for i in range(k):
            HitAndRunSampler(warmup=5, thin=2, single_chain=bool(rng.rand() < 0.5)).sample(X, y, 3)
            m = dict(metric_logger.get_metrics())
            held.append((m['rounding_iters'], list(m['rounding_iters'])))
            times.append([m['rounding_fit_time'], m['hit_and_run_time']])
    iters = m['rounding_iters']
    ctx.check(isinstance(iters, list) and len(iters) == k and all(int(v) == v and v >= 0 for v in iters), '{} roundings were logged as {}', k, iters)
    ctx.check(len(set(map(tuple, (h[1] for h in held)))) == k and all(a == b for a, b in held), 'a list handed out earlier has changed: {}', held)
    ctx.check(all(b[j] > a[j] > 0 for a, b in zip(times, times[1:]) for j in range(2)) and min(times[0]) > 0, 'times do not add up: {}', times)
    metric_logger.flush()
    ctx.event('sampler_metrics')
    ctx.case('sampler', k, str(iters))
