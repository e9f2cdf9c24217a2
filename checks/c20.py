"""
C20: every cut of the rounding ellipsoid is observed: ellipsoid before and after, against points of the version space found by a walk of our own
(interior points and border points) and against the textbook formula of the smallest ellipsoid containing the part kept.
"""
import numpy as np

from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm, SphericalGradientDescent
from harness.core import Skip, workload
from harness.geom import cone_points

RULE = ('A case is a history of cuts or of roundings; non-trivial when an ellipsoid was cut; signature: options, dimension, number of cuts per rounding.')
QUICK = 2  # times the cases of the quick tier
REQUIRED = {'axes': 6000, 'chained_roundings': 3000, 'containments': 1200000, 'converged': 3600, 'cuts': 10000, 'deep_cuts': 5800, 'default_roundings': 1700, 'direct_forms': 8900, 'empty_cuts': 790, 'grown_starts': 420, 'high_dimensions': 27, 'limited': 300, 'own_optimizers': 50, 'negative_cuts': 3700, 'one_dimensional': 74, 'roundings': 900, 'shallow_cuts': 790, 'shrinks': 10000, 'sphere_roundings': 580, 'thin_roundings': 220, 'warm_starts': 2200, 'well_formed': 17000, 'z_cut_roundings': 940}
ASSUMPTIONS = ['version spaces are not thinner than 1e-3 of their length', 'containment is judged on walked interior and border points, not on all points']


def matrix(elp):
    return (elp.L * elp.D.reshape(1, -1)) @ elp.L.T


def well_formed(ctx, elp, what):
    d = elp.dim
    ctx.check(elp.L.shape == (d, d) and elp.D.shape == (d,) and elp.center.shape == (d,), '{}: shapes', what)
    ctx.check(np.isfinite(elp.L).all() and np.isfinite(elp.D).all() and np.isfinite(elp.center).all(), '{}: ellipsoid is not finite', what)
    ctx.check(np.all(elp.D > 0), '{}: ellipsoid is not positive definite, diagonal {}', what, elp.D.tolist())
    ctx.check(np.all(np.triu(elp.L, 1) == 0) and np.all(np.abs(np.diag(elp.L)) > 0), '{}: factor is not lower triangular', what)
    P = matrix(elp)
    if elp.scale is not None:
        s = np.sqrt(np.diag(P))
        ctx.check(elp.scale.shape == P.shape and np.abs((elp.scale - P) / s[:, None] / s[None]).max() < 1e-6, '{}: direct form {} differs from the factorized form {}', what,
                  elp.scale.tolist(), P.tolist())
        ctx.event('direct_forms')
    ctx.event('well_formed')
    return P


def contains(ctx, center, P, W, what):
    """ largest (w - center)^T P^-1 (w - center) """
    D = W - center
    s = np.sqrt(np.diag(P))
    C = np.linalg.cholesky(P / s[:, None] / s[None])
    q = np.square(np.linalg.solve(C, (D / s).T)).sum(axis=0)
    ctx.check(q.max() <= 1 + 1e-6, '{}: version space point {} is outside of the ellipsoid ({!r} > 1)', what, W[q.argmax()].tolist(), q.max())
    ctx.event('containments', len(W))


def log_volume(elp):
    return np.log(elp.D).sum() + 2 * np.log(np.abs(np.diag(elp.L))).sum()


def state(elp):
    return elp.center.copy(), elp.L.copy(), elp.D.copy(), None if elp.scale is None else elp.scale.copy()


def judged_cut(ctx, cut, elp, bias, g, W=None):
    """ makes the cut and judges it. W: points which have to stay inside, all of them on the kept side """
    d = elp.dim
    c, L, D, S = state(elp)
    P = (L * D.reshape(1, -1)) @ L.T
    g0 = np.array(g, dtype=float)
    gamma = np.sqrt(g0 @ P @ g0)
    alpha = (g0 @ c - bias) / gamma
    vol = log_volume(elp)
    try:
        result = cut(elp, bias, g)
    except RuntimeError:
        ctx.check(alpha > 1 - 1e-9, 'cut with alpha {!r} was refused as empty', alpha)
        for a, b in zip(state(elp), (c, L, D, S)):
            ctx.check(a is None or np.array_equal(a, b), 'refused cut changed the ellipsoid')
        ctx.event('empty_cuts')
        raise
    ctx.check(alpha < 1 + 1e-9, 'cut with alpha {!r}, which leaves nothing, was accepted', alpha)
    if g is not elp.center:  # cuts by the center itself are moved with it
        ctx.same(g, g0, 'cutting modified the hyperplane')
    if abs(alpha + 1 / d) > 1e-9:
        ctx.check(bool(result) == (alpha > -1 / d), 'cut with alpha {!r} in dimension {} returned {}', alpha, d, result)
    if not result:
        for a, b in zip(state(elp), (c, L, D, S)):
            ctx.check(a is None or np.array_equal(a, b), 'a cut which cannot shrink the ellipsoid changed it')
        ctx.event('shallow_cuts')
        return result
    P2 = well_formed(ctx, elp, 'after a cut with alpha {} in dimension {}'.format(alpha, d))
    # smallest ellipsoid containing the part {w: g w <= bias} of the ellipsoid
    b = P @ g0 / gamma
    tau = (1 + d * alpha) / (d + 1)
    if d == 1:
        want_c, want_P = c - tau * b, P * ((1 - alpha) / 2) ** 2
    else:
        want_c = c - tau * b
        want_P = d * d / (d * d - 1.) * (1 - alpha * alpha) * (P - 2 * tau / (1 + alpha) * np.outer(b, b))
    s = np.sqrt(np.diag(P))
    if alpha < 1 - 1e-6:
        tol = 1e-6
        ctx.check(np.abs((elp.center - want_c) / s).max() < tol, 'cut with alpha {} in dimension {}: center {} instead of {}', alpha, d, elp.center.tolist(), want_c.tolist())
        ctx.check(np.abs((P2 - want_P) / s[:, None] / s[None]).max() < tol, 'cut with alpha {} in dimension {}: matrix {} instead of {}', alpha, d, P2.tolist(), want_P.tolist())
    if alpha > -1 / d + 1e-3:
        ctx.check(log_volume(elp) < vol, 'cut with alpha {} in dimension {} did not shrink the volume', alpha, d)
        ctx.event('shrinks')
    if W is not None and len(W):
        contains(ctx, elp.center, P2, W, 'after a cut with alpha {} in dimension {}'.format(alpha, d))
    ctx.event('cuts')
    ctx.event('deep_cuts', int(alpha > 0))
    ctx.event('negative_cuts', int(alpha < 0))
    return result


@workload(quick=1200, thorough=12000)
def single_cuts(ctx, rng):
    """ sequences of arbitrary cuts keeping a chosen point """
    d = rng.randint(1, 8)
    elp = Ellipsoid(d, compute_scale_matrix=bool(rng.rand() < 0.5))
    ctx.close(matrix(elp), np.eye(d), 'new ellipsoids are unit balls')
    ctx.same(elp.center, np.zeros(d), 'new ellipsoids are unit balls')
    W = rng.normal(size=(60, d))
    W *= (rng.rand(60) ** (1 / d) / np.linalg.norm(W, axis=1))[:, None]
    W[0] *= 0.5
    n = 0
    for _ in range(rng.randint(1, 25)):
        g = rng.normal(size=d) * 10. ** rng.uniform(-3, 3)
        P = matrix(elp)
        gamma = np.sqrt(g @ P @ g)
        kind = rng.randint(8)
        alpha = rng.uniform(-1 / d, 0.9) if kind < 6 else rng.uniform(-1.5, -1 / d) if kind == 6 else 1 + rng.uniform(1e-3, 1)
        bias = g @ elp.center - alpha * gamma
        a = elp.compute_alpha_single(bias, g)
        ctx.close(a, alpha, 'relative distance of the hyperplane', rtol=1e-6, atol=1e-8)
        ctx.close(elp.compute_alpha(np.vstack([g, -2 * g])), np.array([1, -1]) * (g @ elp.center) / gamma, 'relative distances of hyperplanes through the origin', rtol=1e-6, atol=1e-8)
        try:
            judged_cut(ctx, Ellipsoid.cut, elp, bias, g, W[W @ g <= bias])
        except RuntimeError:
            continue
        W = W[W @ g <= bias]
        n += 1
        x = rng.normal(size=(40, d))
        x *= (rng.rand(40) ** (1 / d) / np.linalg.norm(x, axis=1))[:, None]
        W = np.vstack([W[-100:], elp.center + 0.999 * x @ np.linalg.cholesky(matrix(elp)).T])  # points of the new ellipsoid
        if np.linalg.cond(matrix(elp)) > 1e6 or np.linalg.eigvalsh(matrix(elp))[0] < 1e-6:
            break
    ctx.case(d, n, elp.scale is None)
    ctx.sample(dimension=d, cuts=n)


def options(rng):
    p = {'strategy': ['default', 'opt', 'OPT', 'Default'][rng.randint(4)], 'z_cut': bool(rng.rand() < 0.5), 'sphere_cuts': bool(rng.rand() < 0.3)}
    if rng.rand() < 0.25:
        p['max_iter'] = int(rng.choice([1, 2, 5, 30]))
    return p


class Watch:
    """ hooks the cuts and the roundings """
    def __init__(self, ctx):
        self.ctx, self.W, self.cuts = ctx, None, 0
        self.before_fit = self.after_fit = None

    def __enter__(self):
        self.cut, self.fit = Ellipsoid.cut, RoundingAlgorithm.fit
        watch, cut, fit = self, self.cut, self.fit

        def watched_cut(elp, bias, g):
            watch.ctx.check(np.all(watch.W @ g <= bias + 1e-9 * np.linalg.norm(g)), 'hyperplane ({}, {}) cuts off a part of the version space', bias, g)
            done = judged_cut(watch.ctx, cut, elp, bias, g, watch.W)
            watch.cuts += bool(done)
            return done

        def watched_fit(algorithm, body, elp=None):
            if watch.before_fit is not None:
                watch.before_fit(algorithm, body, elp)
            watch.cuts = 0
            out = fit(algorithm, body, elp)
            if watch.after_fit is not None:
                watch.after_fit(algorithm, body, out)
            return out

        Ellipsoid.cut, RoundingAlgorithm.fit = watched_cut, watched_fit
        return self

    def __exit__(self, *args):
        Ellipsoid.cut, RoundingAlgorithm.fit = self.cut, self.fit


def farthest(c, tau, P):
    """ largest distance from the origin to points of the ellipsoid shrunk by tau: |c + tau R u| over the sphere, by the secular equation """
    R = tau * np.linalg.cholesky(P)
    w, V = np.linalg.eigh(R.T @ R)
    b = V.T @ (R.T @ c)
    lo, hi = w[-1] * (1 + 1e-15), w[-1] + np.linalg.norm(b)
    if hi <= lo or np.sum((b / (lo - w)) ** 2) < 1:  # hard case
        b = np.where(w == w[-1], 0., b)
        u = np.where(w == w[-1], 0., b / np.where(w == w[-1], 1., w[-1] - w))
        u[-1] = np.sqrt(max(0., 1 - u @ u))
    else:
        for _ in range(200):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if np.sum((b / (m - w)) ** 2) > 1 else (lo, m)
        u = b / (hi - w)
    return np.sqrt(w @ (u * u) + 2 * b @ u + c @ c)


def rounded(ctx, elp, A, W, cuts, opts):
    """ after a rounding """
    d = elp.dim
    P = well_formed(ctx, elp, 'after rounding {}'.format(opts))
    contains(ctx, elp.center, P, W, 'after rounding {}'.format(opts))
    limit = opts.get('max_iter')
    if limit is not None:
        ctx.check(cuts <= limit, '{}: {} cuts', opts, cuts)
        if cuts >= limit:
            ctx.event('limited')
            return
    tau = 1 / ((d + 1) * np.sqrt(d))
    if opts['sphere_cuts'] and opts['strategy'].upper() == 'OPT':
        ctx.event('sphere_roundings')
        v = farthest(elp.center, 0.95 * tau, P)
        ctx.check(v <= 1 + 1e-9, '{}: shrunk ellipsoid leaves the unit ball after {} cuts, by {!r}', opts, cuts, v - 1)
    gamma = np.sqrt(np.einsum('ij,jk,ik->i', A, P, A))
    worst = (A @ elp.center / gamma).max()
    ctx.check(worst <= -tau * (1 - 1e-6), '{}: shrunk ellipsoid leaves the version space cone after {} cuts ({!r} > {!r})', opts, cuts, worst, -tau)
    z = np.linalg.norm(elp.center)
    if opts['strategy'].upper() == 'OPT' and opts['z_cut']:
        a = (elp.center @ elp.center - z) / np.sqrt(elp.center @ P @ elp.center)
        ctx.check(a <= -tau * (1 - 1e-6), '{}: shrunk ellipsoid leaves the half-space given by its center ({!r})', opts, a)
        ctx.event('z_cut_roundings')
    if opts['strategy'].upper() == 'DEFAULT':
        E = np.array(list(elp.extremes()))
        ctx.check(E.shape == (2 * d + 1, d), '{}: shape {} of the extreme points', opts, E.shape)
        axes = E - elp.center
        if np.linalg.eigvalsh(P)[0] > 1e-8:
            q = axes @ np.linalg.solve(P, axes.T) * (d + 1) ** 2
            ctx.close(np.sort(np.diag(q)), [0.] + [1.] * (2 * d), 'extreme points are on the ellipsoid shrunk by {}', 1 / (d + 1), rtol=1e-3, atol=1e-12)
            ctx.close(axes.T @ axes * (d + 1) ** 2 / 2, P, 'extreme points are the ends of the axes', rtol=1e-3, atol=1e-3 * np.abs(P).max())
            ctx.event('axes', d)
        ctx.check(np.all(E @ A.T < 1e-9 * np.linalg.norm(A, axis=1)) and np.linalg.norm(E, axis=1).max() < 1 + 1e-9, '{}: an extreme point of the shrunk ellipsoid is not in the version space', opts)
        ctx.event('default_roundings')
    ctx.event('converged')


def cone(rng, n, d):
    """ rows of A, and a point w0 such that A w0 < 0 """
    w0 = rng.normal(size=d)
    w0 *= 0.5 / np.linalg.norm(w0)
    kind = rng.randint(3)
    A = rng.normal(size=(5 * n + 20, d))
    if kind == 1:
        A = np.round(A * 2)
    m = A @ w0
    gap = 10. ** rng.uniform(-2.5, -0.5)
    A = A * -np.sign(m)[:, None]
    A = A[np.abs(m) > gap * np.linalg.norm(A, axis=1) * 0.5]
    A = A[np.abs(A).sum(axis=1) > 0][:n]
    if kind == 2:
        A = A * 10. ** rng.uniform(-2, 2, size=(len(A), 1))
    if len(A) == 0:
        raise Skip()
    return A, w0


class OnSphere(SphericalGradientDescent):
    calls = 0

    def optimize(self, x0, *args, **kwargs):
        self.calls += 1
        return super().optimize(x0, *args, **kwargs)


@workload(quick=1000, thorough=9000)
def roundings(ctx, rng):
    d = rng.randint(1, 7)
    A, w0 = cone(rng, rng.randint(1, 25), d)
    opts = options(rng)
    own = OnSphere() if rng.rand() < 0.5 else None
    algorithm = RoundingAlgorithm(**opts) if own is None else RoundingAlgorithm(**opts, sphere_cuts_optimizer=own)
    body = BoundedPolyhedralCone(A.copy())
    inner, border = cone_points(rng, A, w0, 15)
    with Watch(ctx) as watch:
        watch.W = np.vstack([inner, border[::2]])
        elp = algorithm.fit(body)
        rounded(ctx, elp, A, watch.W, watch.cuts, opts)
        cuts = watch.cuts
        ctx.same(body.A, A, 'rounding modified the version space')
        if own is not None:
            on_sphere = opts['sphere_cuts'] and opts['strategy'].upper() == 'OPT'
            if opts.get('max_iter') is None or cuts < opts['max_iter'] or not on_sphere:
                ctx.check((own.calls > 0) == on_sphere, '{}: {} cuts over the sphere were looked for', opts, own.calls)
                ctx.event('own_optimizers', int(on_sphere))
        again = algorithm.fit(body, elp)
        rounded(ctx, again, A, watch.W, watch.cuts, opts)
        if opts.get('max_iter') is None:
            ctx.check(watch.cuts == 0, '{}: {} more cuts when rounding again', opts, watch.cuts)
        ctx.event('roundings', 2)
        if d == 1:
            ctx.event('one_dimensional')
    ctx.case(sorted(opts.items()), d, len(A), cuts)
    ctx.sample(options=opts, dimension=d, constraints=len(A), cuts=cuts)


@workload(quick=60, thorough=400)
def many_dimensions(ctx, rng):
    d = rng.randint(8, 41)
    A, w0 = cone(rng, rng.randint(1, 6), d)
    opts = {**options(rng), 'strategy': 'opt'}
    if opts['sphere_cuts'] and d > 25:
        opts['sphere_cuts'] = False
    inner, border = cone_points(rng, A, w0, 15)
    with Watch(ctx) as watch:
        watch.W = np.vstack([inner, border[::2]])
        elp = RoundingAlgorithm(**opts).fit(BoundedPolyhedralCone(A.copy()))
        rounded(ctx, elp, A, watch.W, watch.cuts, opts)
    ctx.event('high_dimensions')
    ctx.case(sorted(opts.items()), d, len(A), watch.cuts)


@workload(quick=500, thorough=4000)
def thin_bodies(ctx, rng):
    """ data in large units next to an intercept: the version space is a needle, too thin for exact containment oracles """
    d = rng.randint(1, 6)
    X = rng.normal(size=(rng.randint(2, 40), d)) + rng.normal(size=d) * rng.randint(3)
    w = rng.normal(size=d)
    m = X @ w - np.median(X @ w)
    keep = np.abs(m) > 0.02 * np.median(np.abs(m))
    if keep.sum() < 2:
        raise Skip()
    unit = 10. ** rng.uniform(2, 8)
    A = (np.c_[np.ones(len(X)), X * unit] * -np.sign(m)[:, None])[keep]
    opts = options(rng)
    elp = RoundingAlgorithm(**opts).fit(BoundedPolyhedralCone(A.copy()))
    where = '{}, {} points in units of {:.3g}'.format(opts, A.shape, unit)
    ctx.check(np.isfinite(elp.D).all() and np.isfinite(elp.L).all() and np.isfinite(elp.center).all() and (elp.D > 0).all(), '{}: ellipsoid {} {} {}', where, elp.center, elp.D, elp.L)
    ctx.event('thin_roundings')
    ctx.case(sorted(opts.items()), A.shape, float(A[0, -1]))


@workload(quick=400, thorough=4000)
def same_dimension(ctx, rng):
    """ cached ellipsoids carried over to more points """
    d = rng.randint(1, 6)
    A, w0 = cone(rng, rng.randint(4, 20), d)
    chain(ctx, rng, d, lambda m: (A[:m], w0), len(A))


@workload(quick=500, thorough=5000)
def growing_dimension(ctx, rng):
    """ cached ellipsoids carried over to more points in more dimensions """
    n = rng.randint(2, 9)
    B = np.tril(rng.normal(size=(n, n)) * rng.uniform(0.05, 0.7))
    B[np.diag_indices(n)] = rng.uniform(0.3, 1.2, size=n)
    B *= rng.choice([-1, 1], size=(n, 1))

    def at(m):
        A = B[:m, :m]
        w = np.linalg.solve(A, -np.ones(m))
        w *= 0.7 / np.linalg.norm(w)
        if (-(A @ w) / np.linalg.norm(A, axis=1)).min() < 2e-3:
            raise Skip()
        return np.c_[A, np.zeros((m, 1))], np.r_[w, 0.01]

    chain(ctx, rng, None, at, n)


def chain(ctx, rng, d, at, n):
    opts = options(rng)
    sampler = HitAndRunSampler(single_chain=bool(rng.rand() < 0.5), warmup=5, thin=1, cache_samples=bool(rng.rand() < 0.5), rounding=True, rounding_cache=True, rounding_options=opts)
    m, hist = rng.randint(1, 3), []
    with Watch(ctx) as watch:
        state = {}

        def before(algorithm, body, elp):
            state['dim'] = body.dim
            ctx.check(body.dim == watch.W.shape[1], 'dimension of the version space')
            if elp is not None:
                ctx.event('warm_starts')
                ctx.event('grown_starts', int(hist[-1][0] < body.dim))
                P = well_formed(ctx, elp, 'carried over to dimension {}'.format(body.dim))
                contains(ctx, elp.center, P, watch.W, 'carried over to dimension {}'.format(body.dim))

        def after(algorithm, body, elp):
            rounded(ctx, elp, np.array(body.A), watch.W, watch.cuts, opts)
            hist.append((body.dim, watch.cuts))
            ctx.event('chained_roundings')

        watch.before_fit, watch.after_fit = before, after
        while m <= n:
            A, w0 = at(m)
            inner, border = cone_points(rng, A, w0, 8)
            watch.W = np.vstack([inner, border[::2]])
            y = (rng.rand(len(A)) < 0.5).astype(float)
            sampler.sample(A * np.where(y == 1, -1, 1)[:, None], y, 1)
            if rng.rand() < 0.1:
                sampler.clear()
            m += int(rng.choice([0, 1, 1, 1, 2]))
    ctx.case(sorted(opts.items()), hist)
