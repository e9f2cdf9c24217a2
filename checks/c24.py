"""
C24: the compiled routines against 60-digit decimal arithmetic, in a process where fresh memory is NaN and arrays have guard zones; and the same cases
in a process where the routines are built with AddressSanitizer and UndefinedBehaviorSanitizer, on arrays allocated to their exact size.
"""
import decimal
import json
import os
import subprocess
import sys

import numpy as np

import aideme.active_learning.factorization.utils as routines
from harness import build
from harness.core import VERIF, Violation, workload
from harness import gen

RULE = 'A case is one input array of one routine; non-trivial when it is not empty; signature: routine, shape, kind of values.'
REQUIRED = {'calls': 18000, 'classification_losses': 1300, 'expected_errors': 3300, 'gradient_weights': 12000, 'huber': 1300, 'log_probas': 17000, 'losses': 1800, 'negative_points': 8000, 'refused_arrays': 130, 'sanitized_calls': 2300, 'sanitized_cases': 2100, 'sanitized_model_gradients': 1100, 'saturated_margins': 25000, 'saturated_negatives': 450, 'sigmoids': 12000, 'strided': 840}
ASSUMPTIONS = ['labels are 0 or 1; log-probabilities are not positive; results (and 1 - p, for negative points) are above the smallest normal number and do not overflow']

D = decimal.Decimal
CONTEXT = decimal.Context(prec=60, Emin=-999999999, Emax=999999999)
EPS = 2. ** -53
TINY = D('1e-22')


def ln1p(t):
    """ for t > -1 """
    if abs(t) < TINY:
        return CONTEXT.subtract(t, CONTEXT.divide(CONTEXT.multiply(t, t), D(2)))
    return CONTEXT.ln(CONTEXT.add(D(1), t))


def softplus(x):
    """ log(1 + exp(x)) """
    x = D(float(x))
    e = CONTEXT.exp(-abs(x)) if abs(x) < 5000 else D(0)
    return CONTEXT.add(max(x, D(0)), ln1p(e))


def expm1(x):
    if abs(x) < TINY:
        return CONTEXT.add(x, CONTEXT.divide(CONTEXT.multiply(x, x), D(2)))
    return CONTEXT.subtract(CONTEXT.exp(x), D(1)) if x > -5000 else D(-1)


def log1mexp(lp):
    """ log(1 - exp(lp)) for lp < 0 """
    if lp < -5000:
        return D(0)
    if lp < -1:
        return ln1p(-CONTEXT.exp(lp))
    return CONTEXT.ln(-expm1(lp))


def total(values):
    s = D(0)
    for v in values:
        s = CONTEXT.add(s, v)
    return s


def exact_log_probas(margins):
    return [-total(softplus(-m) for m in row) for row in margins]


def exact_losses(lps, y):
    return [-lp if l > 0 else -log1mexp(lp) for lp, l in zip(lps, y)]


def near(ctx, got, want, tol, msg, *args):
    """ relative error of at most tol (in units of the rounding error), or both under the smallest normal numbers """
    got, want = float(got), want if isinstance(want, D) else D(want)
    err = abs(CONTEXT.subtract(D(got), want)) if np.isfinite(got) else D('Infinity')
    ok = err <= abs(want) * D(tol * EPS) + D('4e-308')
    ctx.check(ok, '{}: got {!r} instead of {!r} (error of {} ulps)', msg.format(*args), got, float(want), float(err / abs(want) / D(EPS)) if want else None)


# ------------------------------------------------------------ inputs

KINDS = ['moderate', 'around one', 'saturated', 'tiny', 'thresholds', 'far', 'huge', 'zeros', 'mixed']


def values(rng, shape, kind):
    if kind == 'moderate':
        x = rng.uniform(-8, 8, size=shape)
    elif kind == 'around one':
        x = rng.normal(size=shape)
    elif kind == 'saturated':
        x = rng.uniform(30, 45, size=shape) * rng.choice([-1, 1], size=shape)
    elif kind == 'tiny':
        x = 10. ** rng.uniform(-300, -3, size=shape) * rng.choice([-1, 1], size=shape)
    elif kind == 'thresholds':
        x = rng.choice([0., -0., np.log(2), -np.log(2), np.log(0.5), 36.7368, 37.4299, -36.7368, 18.0218, -18.0218, 33.3, 5e-324, -5e-324, 1e-16, 2.2e-16], size=shape)
        x = x * (1 + rng.randint(-3, 4, size=shape) * 2.2e-16)
    elif kind == 'far':
        x = rng.uniform(45, 700, size=shape) * rng.choice([-1, 1], size=shape)
    elif kind == 'huge':
        x = 10. ** rng.uniform(2.8, 300, size=shape) * rng.choice([-1, 1], size=shape)
    elif kind == 'zeros':
        x = np.zeros(shape)
    else:
        x = values(rng, shape, 'moderate')
        flat = x.reshape(-1)
        for i in range(flat.size):
            flat[i] = values(rng, (1,), KINDS[rng.randint(len(KINDS) - 1)])[0]
    return np.asarray(x, dtype=float)


def one_sign(rng, x):
    return np.abs(x) * rng.choice([-1, 1]) if rng.rand() < 0.4 else x


class Allocator:
    """ hands out arrays as they are, or in memory of their exact size """
    def __init__(self):
        self.used = []

    def __call__(self, x):
        return np.array(x, dtype=float)

    def strided(self, rng, x):
        kind = rng.randint(4)
        if kind == 0:
            return np.array(x)
        if kind == 1:
            return np.asfortranarray(x)
        big = np.full((x.shape[0] * 2, x.shape[1] * 3), np.nan)
        if kind == 2:
            view = big[::2, 1::3]
        else:
            view = big[::-2, ::-3]
        view[:] = x
        return view

    def done(self):
        self.used = []


ALLOCATE = Allocator()


def sizes(rng):
    n = 0 if rng.rand() < 0.03 else int(rng.randint(1, 6)) if rng.rand() < 0.8 else int(rng.randint(6, 70))
    return n, 0 if rng.rand() < 0.02 else int(rng.randint(1, 5)) if rng.rand() < 0.85 else int(rng.randint(5, 20))


def pristine(ctx, arrays, copies, where):
    for a, c in zip(arrays, copies):
        ctx.check(a.tobytes() == c.tobytes(), '{}: inputs were modified', where)


def twice(ctx, where, func):
    a, b = func(), func()
    ctx.check(np.asarray(a).tobytes() == np.asarray(b).tobytes(), '{}: two calls returned {} and {}', where, np.asarray(a).tolist(), np.asarray(b).tolist())
    ctx.event('calls', 2)
    return a


# ------------------------------------------------------------ routines

@workload(quick=4000, thorough=40000)
def log_probas(ctx, rng):
    n, k = sizes(rng)
    kind = KINDS[rng.randint(len(KINDS))]
    m = ALLOCATE(one_sign(rng, values(rng, (n, k), kind)))
    copy = m.copy()
    got = np.asarray(twice(ctx, 'log-probabilities of {} margins'.format(kind), lambda: routines.compute_log_probas(m)))
    ctx.check(got.shape == (n,), 'log-probabilities of {} margins have shape {}', m.shape, got.shape)
    for i, want in enumerate(exact_log_probas(m)):
        near(ctx, got[i], want, 8 + 2 * k, 'log-probability of margins {}', m[i].tolist())
    pristine(ctx, [m], [copy], 'log-probabilities')
    ctx.event('log_probas', n)
    ctx.event('saturated_margins', int((np.abs(m) > 36).sum()))
    if n * k:
        ctx.case('log_probas', m.shape, kind)
    ctx.sample(margins=m, log_probas=got)
    ALLOCATE.done()


@workload(quick=3000, thorough=25000)
def sigmoids(ctx, rng):
    n = sizes(rng)[0]
    kind = KINDS[rng.randint(len(KINDS))]
    x = ALLOCATE(one_sign(rng, values(rng, (n,), kind)))
    copy = x.copy()
    got = np.asarray(twice(ctx, 'log-sigmoid of {} values'.format(kind), lambda: routines.log_sigmoid(x)))
    ctx.check(got.shape == (n,), 'log-sigmoid of {} values has shape {}', x.shape, got.shape)
    for i in range(n):
        near(ctx, got[i], -softplus(-x[i]), 8, 'log-sigmoid of {!r}', float(x[i]))
    pristine(ctx, [x], [copy], 'log-sigmoid')
    ctx.event('sigmoids', n)
    if n:
        ctx.case('log_sigmoid', n, kind)
    ALLOCATE.done()


def losses_close(ctx, got, wants, conditions, where):
    n = len(wants)
    want = CONTEXT.divide(total(wants), D(n))
    slack = sum(float(w) * (8 + c) for w, c in zip(wants, conditions)) / max(float(total(wants)), 1e-300)
    near(ctx, got, want, slack + 2 * n, where)


def usable(lps, y):
    """ 1 - p of negative points can be represented """
    return [l > 0 or lp < D('-1e-300') for lp, l in zip(lps, y)]


@workload(quick=4000, thorough=30000)
def losses(ctx, rng):
    n, k = sizes(rng)
    n, k = max(n, 1), max(k, 1)
    kind = KINDS[rng.randint(len(KINDS))]
    y = gen.binary_labels(rng, n).astype(float)
    m = one_sign(rng, values(rng, (n, k), kind))
    lps = exact_log_probas(m)
    keep = usable(lps, y)
    y = np.where(keep, y, 1.)
    m, y = ALLOCATE(m), ALLOCATE(y)
    copies = [m.copy(), y.copy()]
    got = twice(ctx, 'loss', lambda: routines.compute_loss(m, y))
    cond = [2 * k if l > 0 else 2 * k * (1 + min(float(-lp), 800.)) for lp, l in zip(lps, y)]
    losses_close(ctx, got, exact_losses(lps, y), cond, 'loss of margins {} with labels {}'.format(m.tolist(), y.tolist()))
    pristine(ctx, [m, y], copies, 'loss')
    ctx.event('losses')
    ctx.event('negative_points', int((y == 0).sum()))
    ctx.event('saturated_negatives', int(((y == 0) & (m > 36).all(axis=1)).sum()))
    ctx.case('loss', m.shape, kind, y.tolist())
    ALLOCATE.done()


def negative_log_probas(rng, n):
    lp = -np.abs(values(rng, (n,), KINDS[rng.randint(len(KINDS))]))
    return np.where(lp > -1e-300, -10. ** rng.uniform(-299, 2, size=n), lp)


@workload(quick=3000, thorough=25000)
def classification_losses(ctx, rng):
    n = max(1, sizes(rng)[0])
    lp, y = ALLOCATE(negative_log_probas(rng, n)), ALLOCATE(gen.binary_labels(rng, n).astype(float))
    copies = [lp.copy(), y.copy()]
    got = twice(ctx, 'classification loss', lambda: routines.compute_classification_loss(lp, y))
    lps = [D(float(v)) for v in lp]
    losses_close(ctx, got, exact_losses(lps, y), [0 if l > 0 else 2 * (1 + min(float(-v), 800.)) for v, l in zip(lps, y)], 'loss of log-probabilities {} with labels {}'.format(lp.tolist(), y.tolist()))
    pristine(ctx, [lp, y], copies, 'classification loss')
    ctx.event('classification_losses')
    ctx.case('classification_loss', n, float(lp[0]))
    ALLOCATE.done()


@workload(quick=3000, thorough=25000)
def gradient_weights(ctx, rng):
    n = sizes(rng)[0]
    lp, y = ALLOCATE(negative_log_probas(rng, n)), ALLOCATE(gen.binary_labels(rng, n).astype(float))
    copies = [lp.copy(), y.copy()]
    got = np.asarray(twice(ctx, 'gradient weights', lambda: routines.grad_weights(lp, y)))
    ctx.check(got.shape == (n,), 'gradient weights of {} points have shape {}', n, got.shape)
    for i in range(n):
        v = D(float(lp[i]))
        want = D(-1) if y[i] > 0 else D(0) if v < -5000 else CONTEXT.divide(D(1), expm1(-v))
        near(ctx, got[i], want, 8, 'gradient weight of log-probability {!r} with label {}', float(lp[i]), y[i])
    pristine(ctx, [lp, y], copies, 'gradient weights')
    ctx.event('gradient_weights', n)
    if n:
        ctx.case('grad_weights', n, float(lp[0]))
    ALLOCATE.done()


@workload(quick=3000, thorough=25000)
def huber(ctx, rng):
    n, k = sizes(rng)
    delta, strength = float(10. ** rng.uniform(-5, 3)), float(10. ** rng.uniform(-5, 3))
    w = rng.normal(size=(n, k)) * 10. ** rng.uniform(-6, 6)
    if rng.rand() < 0.5:
        w *= delta / 10. ** rng.uniform(-1, 1)
    if rng.rand() < 0.3 and w.size:
        w[rng.rand(n, k) < 0.4] = rng.choice([0., delta, -delta, delta * (1 + 2.2e-16), -delta * (1 + 2.2e-16)])
    w = ALLOCATE.strided(rng, w)
    copy = w.copy()
    got = twice(ctx, 'Huber penalty', lambda: routines.compute_huber_penalty(w, strength, delta))
    d, parts = D(delta), []
    for v in w.ravel():
        a = abs(D(float(v)))
        parts.append(CONTEXT.multiply(d, CONTEXT.subtract(a, d / 2)) if a > d else CONTEXT.divide(CONTEXT.multiply(a, a), D(2)))
    near(ctx, got, CONTEXT.multiply(D(strength), total(parts)), 10 + 2 * w.size, 'Huber penalty of {} with strength {} and delta {}', w.tolist(), strength, delta)
    ctx.check(np.array_equal(w, copy), 'Huber penalty: weights were modified')
    ctx.event('huber')
    ctx.event('strided', int(not w.flags.c_contiguous))
    if w.size:
        ctx.case('huber', w.shape, delta)
    ALLOCATE.done()


@workload(quick=300, thorough=3000)
def bad_arguments(ctx, rng):
    """ arrays of the wrong length, layout or type are refused instead of being read beyond their end """
    n, k = int(rng.randint(2, 9)), int(rng.randint(2, 4))
    m, y = rng.normal(size=(n, k)), gen.binary_labels(rng, n).astype(float)
    lp = -np.abs(rng.normal(size=n)) - 0.01
    short = ALLOCATE(y[:int(rng.randint(0, n))])
    m_, lp_ = ALLOCATE(m), ALLOCATE(lp)
    ctx.raises(ValueError, lambda: routines.compute_loss(m_, short), 'loss of {} points with {} labels', n, len(short))
    ctx.raises(ValueError, lambda: routines.compute_classification_loss(lp_, short), 'loss of {} log-probabilities with {} labels', n, len(short))
    ctx.raises(ValueError, lambda: routines.grad_weights(lp_, short), 'gradient weights of {} log-probabilities with {} labels', n, len(short))
    for bad in (np.asfortranarray(m), m[:, ::-1], m[:, 0], m.astype('float32'), m.astype(int)):
        ctx.raises((ValueError, TypeError), lambda: routines.compute_log_probas(bad), 'log-probabilities of a bad array')
        ctx.raises((ValueError, TypeError), lambda: routines.compute_loss(bad, y), 'loss of a bad array')
    for bad in (m[:, 0], lp[::-1], lp.astype('float32')):
        ctx.raises((ValueError, TypeError), lambda: routines.log_sigmoid(bad), 'log-sigmoid of a bad array')
        ctx.raises((ValueError, TypeError), lambda: routines.grad_weights(bad, y), 'gradient weights of a bad array')
        ctx.raises((ValueError, TypeError), lambda: routines.compute_classification_loss(bad, y), 'classification loss of a bad array')
        ctx.raises((ValueError, TypeError), lambda: routines.compute_loss(m, bad), 'loss with bad labels')
    ctx.event('refused_arrays')
    ctx.case('bad', n, k)
    ALLOCATE.done()


# ------------------------------------------------------------ sanitizers

SANITIZED = {'quick': 600, 'thorough': 5000}


def runtime(name):
    return subprocess.run(['gcc', '-print-file-name=' + name], capture_output=True, text=True, check=True).stdout.strip()


@workload(quick=8, thorough=32, cpu=600)
def sanitized(ctx, rng):
    """ the workloads above (and trainings of whole models) in a process with sanitizers """
    if build.extension('asan') is None:
        return
    env = dict(os.environ, LD_PRELOAD=runtime('libasan.so') + ' ' + runtime('libubsan.so'), PYTHONMALLOC='malloc', VERIF_SANITIZED='1',
               ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:max_free_fill_size=1000000000:free_fill_byte=255:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=77:print_stacktrace=1')
    tier = 'thorough' if ctx.thorough else 'quick'
    cmd = [sys.executable, '-m', 'harness.sanitized', str(ctx.index), str(SANITIZED[tier]), str(rng.randint(1 << 30))]
    res = subprocess.run(cmd, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=1500)
    report = [l for l in res.stderr.splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error' in l]
    if report or res.returncode == 77 or res.returncode < 0:
        first = report[0] if report else 'exit status {}'.format(res.returncode)
        where = [l.strip() for l in res.stderr.splitlines() if 'utils.c' in l or 'aideme' in l][:2]
        ctx.fail('sanitizer: {} {} while running {}', first, where, res.stdout.splitlines()[-1:] or '')
    lines = [json.loads(l) for l in res.stdout.splitlines() if l.startswith('{')]
    for l in lines:
        if 'violation' in l:
            raise_violation(ctx, l['violation'])
    if res.returncode != 0 or not lines or 'events' not in lines[-1]:
        raise RuntimeError('sanitized process failed with status {}:\n{}'.format(res.returncode, res.stderr[-2000:]))
    for name, value in lines[-1]['events'].items():
        ctx.event('sanitized_' + name, value)
    ctx.case('sanitized', ctx.index)


def raise_violation(ctx, text):
    ctx.failures.append('in the sanitized process: ' + text)
    raise Violation(ctx.failures[-1])
