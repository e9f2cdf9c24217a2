"""
C25: optimizers run on objectives which record every evaluation and every callback. Oracles: the stopping rule recomputed at each recorded iterate,
textbook recurrences, step size formulas, the exact minimum along search directions, and convergence bounds for strongly convex functions.
"""
import copy
import warnings

import numpy as np

from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent, NoisyGradientDescent, ProximalGradientDescent
from harness.core import workload
from checks.c26 import PROXIMAL, Spec

RULE = 'A case is one minimization; non-trivial when at least one step was made; signature: optimizer, options, shape, starting point.'
QUICK = 4  # times the cases of the quick tier
REQUIRED = {'composite': 67, 'composite_successes': 20, 'converged_Adam': 28, 'converged_BFGS': 26, 'converged_GradientDescent': 57, 'expected_errors': 600, 'iteration_limits': 340, 'line_searches': 420, 'minimizations': 2100, 'noise_runs': 18, 'noise_vectors': 3800, 'recognised_optima': 35, 'repeated': 540, 'schedule_exponential': 2200, 'schedule_fixed': 2600, 'schedule_ignored': 3000, 'schedule_power': 3300, 'steps_Adam': 2900, 'steps_FISTA': 3700, 'steps_GradientDescent': 2600, 'steps_ProximalGradientDescent': 1800, 'successes': 130}
ASSUMPTIONS = ['FISTA, which has no gradient test, is given a relative tolerance or an iteration limit; proximal optimizers are given a step size (no line search)']


class Quadratic:
    """ strongly convex, over matrices or vectors; counts calls """
    def __init__(self, rng, shape, cond=None):
        self.shape = shape
        n = int(np.prod(shape))
        Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
        cond = 10. ** rng.uniform(0, 1.5) if cond is None else cond
        eig = np.exp(rng.uniform(0, np.log(cond), size=n))
        eig[0] = 1.
        if n > 1:
            eig[-1] = cond
        self.scale = 10. ** rng.uniform(-1, 1)
        self.A = Q @ np.diag(eig * self.scale) @ Q.T
        self.mu, self.L = self.scale, self.scale * (cond if n > 1 else 1.)
        self.c = rng.normal(size=n) * 10. ** rng.uniform(-1, 1)
        self.offset = rng.normal()
        self.calls, self.grads = 0, []

    def func(self, x):
        self.calls += 1
        r = np.ravel(x) - self.c
        return 0.5 * r @ self.A @ r + self.offset

    def exact_grad(self, x):
        return (self.A @ (np.ravel(x) - self.c)).reshape(np.shape(x))

    def grad(self, x):
        g = self.exact_grad(x)
        self.grads.append((np.array(x), g.copy()))
        return g


class Trace:
    """ callback which keeps the arrays it gets and their values at that time """
    def __init__(self):
        self.arrays, self.values = [], []

    def __call__(self, x, *args):
        self.arrays.append(x)
        self.values.append(np.array(x))

    def unchanged(self):
        return all(np.array_equal(a, v) for a, v in zip(self.arrays, self.values))


NAMES = ['GradientDescent', 'NoisyGradientDescent', 'Adam', 'ProximalGradientDescent', 'FISTA', 'BFGS']
CLASSES = {c.__name__: c for c in (GradientDescent, NoisyGradientDescent, Adam, ProximalGradientDescent, FISTA, BFGS)}


class Setup:
    def __init__(self, rng, name, shape, L, stopping=True):
        self.name = name
        self.shape = shape
        self.trace = Trace()
        p = {'gtol': float(rng.choice([0., 1e-6, 1e-3, 0.1])), 'rel_tol': float(rng.choice([0., 0., 1e-6, 1e-3, 1e-2])), 'callback': self.trace, 'verbose': bool(rng.rand() < 0.3)}
        p['max_iter'] = int(rng.choice([1, 2, 3, 10, 50, 200])) if stopping or rng.rand() < 0.5 else None
        self.step = self.line = None
        self.spec, self.bias = None, False
        if name != 'BFGS':
            self.step = float(rng.uniform(0.2, 1.) / L)
            p['step_size'] = self.step
            kind = rng.randint(4)
            self.every, self.power, self.decay = int(rng.randint(1, 6)), float(rng.choice([0.3, 0.5, 1., 2.])), float(rng.uniform(0.5, 1.))
            self.schedule = ['fixed', 'power', 'exponential', 'ignored'][kind]
            if kind in (1, 2, 3):
                p.update(adapt_every=self.every, power=self.power, adapt_step_size=kind != 3)
            if kind == 2 or kind == 3 and rng.rand() < 0.5:
                p['exp_decay'] = self.decay
            if kind == 1 and rng.rand() < 0.3:
                p['exp_decay'] = 0
            if name in ('GradientDescent', 'NoisyGradientDescent', 'Adam') and rng.rand() < 0.15:
                p['step_size'], self.step, self.schedule = None, None, 'line'
        if name == 'GradientDescent':
            p['momentum'] = float(rng.choice([0., 0.5, 0.9, 0.99]))
        if name == 'Adam':
            p.update(beta1=float(rng.choice([0., 0.5, 0.9])), beta2=float(rng.choice([0.5, 0.9, 0.999])), epsilon=float(rng.choice([1e-8, 1e-3])))
        if name in ('ProximalGradientDescent', 'FISTA'):
            self.bias = bool(rng.rand() < 0.5) and shape[1] > 1
            self.spec = Spec(rng, shape[1] - self.bias, PROXIMAL)
            if not self.spec.covering:
                self.spec.pen.groups = self.spec.groups = None
            p['penalty_term'] = self.spec.pen
        self.params = p
        self.opt = CLASSES[name](**p)
        if self.spec is not None:
            self.opt.remove_bias_column = self.bias

    def __repr__(self):
        return '{}({}{})'.format(self.name, {k: v for k, v in self.params.items() if k not in ('callback', 'penalty_term')}, '' if self.spec is None else ', {}, bias {}'.format(self.spec, self.bias))

    def step_at(self, it):
        if self.schedule in ('fixed', 'ignored'):
            return self.step
        if self.schedule == 'power':
            return self.step / (1 + it // self.every) ** self.power
        return self.step * self.decay ** (it // self.every)

    def split(self, x):
        return (x[:, :-1], x[:, -1]) if self.bias else (x, np.zeros(0))

    def prox(self, z, step):
        w, b = self.split(z)
        w = self.spec.pen.proximal(w.copy(), step)
        return np.hstack([w, b.reshape(-1, 1)]) if self.bias else w

    def stationary(self, x, g, tol):
        """ whether the gradient test holds at x """
        if self.name == 'FISTA':
            return False
        if self.spec is None:
            return bool(np.linalg.norm(g) < tol)
        gw, gb = self.split(g)
        return bool(np.linalg.norm(gb) <= tol and self.spec.pen.is_subgradient(-gw, self.split(x)[0].copy(), tol))

    def value(self, x):
        return 0. if self.spec is None else self.spec.value(self.split(x)[0])


def close_arrays(a, b, scale, rtol=1e-8):
    return np.shape(a) == np.shape(b) and np.abs(a - b).max() <= rtol * scale


def minimize(ctx, setup, f, x0):
    x_start = x0.copy()
    setup.trace.__init__()
    f.grads = []
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = setup.opt.minimize(x0, f.func, f.grad)
    ctx.check(np.array_equal(x0, x_start), '{}: the starting point was modified', setup)
    ctx.check(not np.may_share_memory(res.x, x0) or setup.name == 'BFGS', '{}: the result is the array of the starting point', setup)
    ctx.check(np.isfinite(res.x).all() and np.size(res.x) == np.size(x0), '{}: returned {}', setup, res.x)
    ctx.close(res.fun, f.func(res.x), '{}: objective value returned', setup, rtol=1e-12, atol=1e-14)
    if setup.name != 'BFGS':
        warned = any(w.category is UserWarning for w in caught)
        ctx.check(warned == (setup.params['verbose'] and not res.success), '{}: success is {} and the user was {}warned', setup, res.success, '' if warned else 'not ')
        ctx.event('warnings', int(warned))
    ctx.event('minimizations')
    return res


def random_setup(rng, name=None, stopping=True):
    name = NAMES[rng.randint(len(NAMES))] if name is None else name
    if name in ('ProximalGradientDescent', 'FISTA') or rng.rand() < 0.6:
        shape = (rng.randint(1, 4), rng.randint(1, 5))
    else:
        shape = (rng.randint(1, 9),)
    f = Quadratic(rng, shape)
    return Setup(rng, name, shape, f.L, stopping), f, rng.normal(size=shape) * 10. ** rng.uniform(-1, 1)


@workload(quick=1200, thorough=20000)
def stopping(ctx, rng):
    setup, f, x0 = random_setup(rng)
    p = setup.params
    if rng.rand() < 0.1:
        x0 = f.c.reshape(x0.shape) * (1 + (rng.rand() < 0.5) * 1e-9)
    x0 = np.asfortranarray(x0) if rng.rand() < 0.1 else x0
    np.random.seed(ctx.index)
    res = minimize(ctx, setup, f, x0)
    xs = setup.trace.values
    if setup.name == 'BFGS':
        ctx.check(res.nit <= p['max_iter'], '{}: {} iterations', setup, res.nit)
        g = f.exact_grad(np.ravel(res.x))
        if res.success:
            ctx.check(np.abs(g).max() <= p['gtol'] * (1 + 1e-9) + 1e-15, '{}: success with a gradient of {}', setup, g.tolist())
            ctx.event('successes')
        ctx.check(len(xs) == res.nit and (not xs or np.array_equal(np.ravel(xs[-1]), np.ravel(res.x))), '{}: {} callbacks for {} iterations', setup, len(xs), res.nit)
        if res.nit:
            ctx.case(repr(setup), x0.shape, float(np.ravel(x0)[0]))
        return
    ctx.check(len(xs) == res.it + 1, '{}: {} callbacks for {} iterations', setup, len(xs), res.it)
    ctx.check(res.it <= p['max_iter'], '{}: {} iterations', setup, res.it)
    ctx.check(np.array_equal(xs[0], x0) and np.array_equal(xs[-1], res.x), '{}: first and last callbacks got {} and {}, not the starting point {} and the result {}', setup, xs[0], xs[-1], x0, res.x)
    ctx.check(setup.trace.unchanged(), '{}: an iterate was modified after it was handed to the callback', setup)

    def stops(i, factor, limit=np.inf):
        x = xs[i]
        if i > 0 and np.linalg.norm(x - xs[i - 1]) < p['rel_tol'] * factor * np.linalg.norm(x):
            return True
        return i < limit and setup.stationary(x, f.exact_grad(x), p['gtol'] * factor)

    eps = 1e-6
    for i in range(len(xs) - 1):
        ctx.check(not stops(i, 1 - eps, p['max_iter']), '{}: the stopping condition held at iterate {}, but {} more were computed', setup, i, len(xs) - 1 - i)
    last = len(xs) - 1
    if res.success:
        ctx.check(stops(last, 1 + eps) or p['gtol'] == 0 and not f.exact_grad(res.x).any(), '{}: success after {} iterations, but gradient {} and last step {}', setup, last, f.exact_grad(res.x).tolist(), None if last == 0 else (xs[-1] - xs[-2]).tolist())
        ctx.event('successes')
    else:
        ctx.check(last == p['max_iter'], '{}: stopped without success after {} iterations', setup, last)
        ctx.event('iteration_limits')
    if last:
        ctx.case(repr(setup), x0.shape, float(np.ravel(x0)[0]))
    ctx.sample(optimizer=setup, iterations=last, success=bool(res.success))


@workload(quick=1200, thorough=20000)
def trajectories(ctx, rng):
    setup, f, x0 = random_setup(rng, NAMES[rng.randint(5)])
    p = setup.params
    np.random.seed(ctx.index)
    state = np.random.get_state()
    minimize(ctx, setup, f, x0)
    xs = setup.trace.values
    # again, after minimizing something else in between: nothing is left over
    other = rng.normal(size=x0.shape)
    keep = list(xs)
    if rng.rand() < 0.5:
        minimize(ctx, setup, f, other)
    else:  # something of another size
        rows = int(rng.randint(1, 5))
        shape = (rows,) + x0.shape[1:] if x0.ndim > 1 or setup.spec is not None else (rows,)
        g = Quadratic(rng, shape)
        setup.opt.minimize(rng.normal(size=shape), g.func, g.grad)
        ctx.event('other_sizes', int(shape != x0.shape))
    np.random.set_state(state)
    minimize(ctx, setup, f, x0)
    ctx.check(len(setup.trace.values) == len(keep) and all(np.array_equal(a, b) for a, b in zip(keep, setup.trace.values)), '{}: minimizing again from the same point visits other iterates', setup)
    ctx.event('repeated')
    xs = keep
    v = m2 = 0.
    y, theta = xs[0], 1.
    for it in range(len(xs) - 1):
        x, new = xs[it], xs[it + 1]
        g = f.exact_grad(x)
        size = max(np.abs(x).max(), np.abs(new).max(), np.abs(f.c).max())
        if setup.name == 'GradientDescent':
            v = p['momentum'] * v + (1 - p['momentum']) * g
            d = v
        elif setup.name == 'Adam':
            v = p['beta1'] * v + (1 - p['beta1']) * g
            m2 = p['beta2'] * m2 + (1 - p['beta2']) * g ** 2
            d = v / (1 - p['beta1'] ** (it + 1)) / (np.sqrt(m2 / (1 - p['beta2'] ** (it + 1))) + p['epsilon'])
        elif setup.name == 'NoisyGradientDescent':
            if setup.schedule == 'line':
                break
            step = setup.step_at(it)
            noise = (x - new) / step - g
            ctx.close(np.linalg.norm(noise), 1., '{}: size of the noise in iteration {}', setup, it, rtol=1e-6, atol=1e-13 * size / step)
            ctx.event('noise_vectors')
            continue
        elif setup.name == 'ProximalGradientDescent':
            step = setup.step_at(it)
            want = setup.prox(x - step * g, step)
        else:
            step = setup.step_at(it)
            want = setup.prox(y - step * f.exact_grad(y), step)
            theta, old = (1 + np.sqrt(1 + 4 * theta ** 2)) / 2, theta
            y = want + (old - 1) / theta * (want - x)
        if setup.name in ('GradientDescent', 'Adam'):
            if setup.schedule == 'line':
                dd = d.ravel() @ f.A @ d.ravel()
                if dd < 1e-12 * f.L * size ** 2 or np.abs(d).max() > 1e6 or np.linalg.norm(g) < 1e-3 * f.L * size:
                    break
                best = (d.ravel() @ g.ravel()) / dd
                gain = 0.5 * dd * best ** 2  # what the exact minimum along the line gains
                slack = f.func(new) - (f.func(x) - gain)
                ctx.check(slack <= 1e-5 * gain + 1e-9 * (abs(f.func(x)) + abs(f.func(x) - f.offset)), '{}: the line search of iteration {} stops {} above the minimum along the direction (which gains {})', setup, it, slack, gain)
                ctx.event('line_searches')
                # the point must be on the line
                t = ((x - new).ravel() @ d.ravel()) / (d.ravel() @ d.ravel())
                ctx.check(np.abs(x - t * d - new).max() <= 1e-6 * size, '{}: iterate {} left the search line', setup, it + 1)
                continue
            step = setup.step_at(it)
            want = x - step * d
        ctx.check(close_arrays(new, want, size), '{}: iterate {} is {}, expected {} (step size {})', setup, it + 1, new.tolist(), want.tolist(), step)
        ctx.event('steps_' + setup.name)
        ctx.event('schedule_' + setup.schedule)
        if setup.name == 'FISTA' and not close_arrays(new, want, size, 1e-10):
            break
    ctx.case(repr(setup), x0.shape, float(x0.flat[0]))


@workload(quick=250, thorough=4000)
def smooth_convergence(ctx, rng):
    """ fixed step sizes up to 1 / L, and line searches: the minimizer is reached """
    name = ['GradientDescent', 'Adam', 'BFGS', 'GradientDescent'][rng.randint(4)]
    shape = (rng.randint(1, 4), rng.randint(1, 5)) if rng.rand() < 0.6 else (rng.randint(1, 9),)
    f = Quadratic(rng, shape)
    x0 = rng.normal(size=shape) * 10. ** rng.uniform(-1, 1)
    gtol = float(10. ** rng.uniform(-6, -3)) * f.scale
    if name == 'BFGS':
        opt, label = BFGS(gtol=gtol, max_iter=None if rng.rand() < 0.5 else 500), 'BFGS'
    elif name == 'Adam':
        step = float(10. ** rng.uniform(-2.5, -1.5)) * max(np.abs(x0.ravel() - f.c).max(), 1e-3)
        n_iter = int(60 * np.abs(x0.ravel() - f.c).max() / step) // 10 + 2000
        opt, label = Adam(step_size=step, gtol=gtol, max_iter=n_iter), 'Adam(step {})'.format(step)
    else:
        momentum = float(rng.choice([0., 0.5, 0.9]))
        line = momentum == 0. and rng.rand() < 0.3
        step = None if line else float(rng.uniform(0.3, 1.) / f.L)
        opt, label = GradientDescent(step_size=step, momentum=momentum, gtol=gtol, max_iter=None if not line else 5000), 'GradientDescent(step {}, momentum {})'.format(step, momentum)
    res = opt.minimize(x0, f.func, f.grad)
    dist = np.linalg.norm(np.ravel(res.x) - f.c)
    n = np.size(x0)
    if name == 'Adam':
        bound = gtol / f.mu + 3 * step * np.sqrt(n)
    else:
        bound = gtol / f.mu * np.sqrt(n) * 1.01 + 1e-7 * (1 + np.abs(f.c).max())
        ctx.check(bool(res.success) or name == 'BFGS' or step is None, '{}: no success', label)
    ctx.check(dist <= bound, '{} on a quadratic with condition {}: ended at distance {} of the minimizer, after starting at distance {} (bound {})', label, f.L / f.mu, dist, np.linalg.norm(x0.ravel() - f.c), bound)
    ctx.event('converged_' + name)
    ctx.case(label, shape, float(x0.flat[0]))


@workload(quick=150, thorough=2500)
def composite_convergence(ctx, rng):
    """ quadratics plus penalty: the gap to the optimum is within the known bounds, and the optimum is accepted """
    name = ['ProximalGradientDescent', 'FISTA'][rng.randint(2)]
    shape = (rng.randint(1, 4), rng.randint(1, 5))
    f = Quadratic(rng, shape, cond=float(10. ** rng.uniform(0, 1)))
    bias = bool(rng.rand() < 0.5) and shape[1] > 1
    spec = Spec(rng, shape[1] - bias, PROXIMAL)
    if not spec.covering:
        spec.pen.groups = spec.groups = None
    reference = copy.deepcopy(spec.pen)
    x0 = rng.normal(size=shape) * 10. ** rng.uniform(-1, 1)
    step = float(rng.uniform(0.5, 1.) / f.L)
    n_iter = int(rng.choice([5, 30, 300]))

    def parts(x):
        return (x[:, :-1], x[:, -1:]) if bias else (x, x[:, :0])

    def total(x):
        return f.func(x) + spec.value(parts(x)[0])

    # optimum by plain proximal steps
    z = x0.copy()
    for _ in range(1200):
        u = z - f.exact_grad(z) / f.L
        w, b = parts(u)
        z = np.hstack([reference.proximal(w.copy(), 1 / f.L), b])
    best, R2 = total(z), ((z - x0) ** 2).sum()
    gtol = float(10. ** rng.uniform(-5, -2)) * f.scale
    opt = (ProximalGradientDescent if name != 'FISTA' else FISTA)(penalty_term=spec.pen, step_size=step, gtol=gtol, max_iter=n_iter)
    opt.remove_bias_column = bias
    res = opt.minimize(x0, f.func, f.grad)
    gap = total(res.x) - best
    label = '{}(step {} / L) with {}, bias {}'.format(name, step * f.L, spec, bias)
    if res.success:
        bound = 2 * gtol * np.sqrt(x0.size) * (np.linalg.norm(res.x - z) + 1e-9)
        ctx.event('composite_successes')
    elif name == 'FISTA':
        bound = 2 * R2 / (step * (n_iter + 1) ** 2)
    else:
        bound = R2 / (2 * step * n_iter)
    ctx.check(gap <= bound * (1 + 1e-6) + 1e-9 * (1 + abs(best)), '{}: {} above the optimum after {} iterations, more than {}', label, gap, res.it, bound)
    # started from the optimum, it stays there
    again = (ProximalGradientDescent if name != 'FISTA' else FISTA)(penalty_term=spec.pen, step_size=step, gtol=gtol, max_iter=20)
    again.remove_bias_column = bias
    r = again.minimize(z, f.func, f.grad)
    ctx.check(np.abs(r.x - z).max() <= 1e-6 * (1 + np.abs(z).max()), '{}: moves away from the optimum {} to {}', label, z.tolist(), r.x.tolist())
    if name == 'ProximalGradientDescent' and all(np.linalg.norm(v) == 0 or np.linalg.norm(v) > 1e-6 for v in parts(z)[0].reshape(-1, 1)):
        ctx.check(bool(r.success), '{}: the optimum {} is not recognised', label, z.tolist())
        ctx.event('recognised_optima')
    ctx.event('composite')
    ctx.case(label, shape, float(x0.flat[0]))


@workload(quick=40, thorough=400)
def noise(ctx, rng):
    """ noisy directions: independent unit vectors without preferred direction """
    d = int(rng.randint(1, 6))
    trace = Trace()
    n = 3000
    step = 0.1
    opt = NoisyGradientDescent(step_size=step, gtol=0, max_iter=n, callback=trace)
    opt.minimize(np.zeros(d), lambda x: 0., lambda x: np.zeros(d))
    u = -np.diff(np.array(trace.values), axis=0) / step
    ctx.check(u.shape == (n, d) and np.abs(np.linalg.norm(u, axis=1) - 1).max() < 1e-6, 'noise of norms between {} and {}', np.linalg.norm(u, axis=1).min(), np.linalg.norm(u, axis=1).max())
    ctx.check(np.abs(u.mean(axis=0)).max() * np.sqrt(n * d) < 6.5, 'mean of the noise {}', u.mean(axis=0).tolist())
    cov = u.T @ u / n - np.eye(d) / d
    ctx.check(np.abs(cov).max() * np.sqrt(n) * d < 9, 'covariance of the noise {}', (cov + np.eye(d) / d).tolist())
    ctx.check(np.abs((u[1:] * u[:-1]).sum(axis=1).mean()) * np.sqrt(n * d) < 6.5, 'consecutive noise vectors are correlated')
    ctx.event('noise_runs')
    ctx.case(d, ctx.index)


@workload(quick=20, thorough=100)
def rejections(ctx, rng):
    for cls in CLASSES.values():
        for bad in ({'max_iter': 0}, {'max_iter': -1}, {'max_iter': 1.5}, {'gtol': -1e-9}, {'rel_tol': -1.}):
            ctx.raises(ValueError, lambda: cls(**bad), '{} with {}', cls.__name__, bad)
        if cls is not BFGS:
            for bad in ({'step_size': 0}, {'step_size': -1.}, {'batch_size': 0}, {'batch_size': 1.5}, {'adapt_step_size': True, 'adapt_every': 0}, {'adapt_step_size': True, 'power': -1}):
                ctx.raises(ValueError, lambda: cls(**bad), '{} with {}', cls.__name__, bad)
    for bad in (-0.1, 1.1):
        ctx.raises(ValueError, lambda: GradientDescent(momentum=bad), 'momentum {}', bad)
        ctx.raises(ValueError, lambda: Adam(beta1=bad), 'beta1 {}', bad)
        ctx.raises(ValueError, lambda: Adam(beta2=bad), 'beta2 {}', bad)
    ctx.raises(ValueError, lambda: Adam(epsilon=0), 'epsilon 0')
    ctx.case(ctx.index)
