"""
C21: geometric answers about version spaces against direct evaluation, and the distribution of hit-and-run samples: for every cone intersected with
the unit ball |w|^d is uniform on [0, 1] and independent of the direction, whose distribution is compared with rejection sampling.
"""
import numpy as np
from scipy import stats

from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.hit_and_run.hit_and_run import HitAndRunChain
from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
from checks.c20 import cone
from harness.core import Skip, workload
from harness.geom import chord, cone_points

RULE = ('A case is one version space with its queries, or one sample of a chain; non-trivial when the version space is neither empty nor the whole '
        'ball; signature: dimension, constraints, options.')
REQUIRED = {'close_samples': 3600, 'compared_samples': 78000, 'distant_samples': 900, 'distributions': 61, 'empty_bodies': 100, 'expected_errors': 1100, 'interior_points': 160, 'intersections': 4000, 'missing_lines': 1100, 'needles': 47, 'parallel_lines': 110, 'points_inside': 9800, 'points_outside': 14000, 'rounded': 13, 'shifted_lines': 1100, 'short_chains': 3600, 'single_chains': 10, 'single_steps': 54000, 'warmed_up': 540, 'wedges': 14}
ASSUMPTIONS = ['distributions are compared within 6.5 standard deviations, on version spaces which are not thin']


def inside(A, x, margin=0.):
    return np.linalg.norm(x) < 1 - margin and np.all(A @ x < -margin * np.linalg.norm(A, axis=1))


@workload(quick=1500, thorough=30000)
def geometry(ctx, rng):
    d = rng.randint(1, 8)
    A, w0 = cone(rng, rng.randint(1, 20), d)
    body = BoundedPolyhedralCone(A.copy())
    ctx.check(body.dim == d, 'dimension {} instead of {}', body.dim, d)
    inner, border = cone_points(rng, A, w0, 6, steps=3)
    W = np.vstack([inner, border])

    # points inside and outside
    X = np.vstack([inner, inner * rng.uniform(0.01, 1.5, size=(len(inner), 1)), rng.normal(size=(10, d)) * rng.uniform(0.1, 1.2), -inner[:2], inner[:2] * 3])
    # just outside and just inside of the unit ball
    grazing = np.vstack([inner, rng.normal(size=(4, d))])
    grazing *= ((1 + 10. ** rng.uniform(-8.5, -2, size=len(grazing)) * rng.choice([1, 1, -1], size=len(grazing))) / np.linalg.norm(grazing, axis=1))[:, None]
    X = np.vstack([X, grazing])
    M = X @ A.T / np.linalg.norm(A, axis=1)
    clear = np.abs(M).min(axis=1) > 1e-12
    in_cone = (M < 0).all(axis=1)
    ctx.same(np.asarray(body.is_inside_polytope(X))[clear], in_cone[clear], 'points fulfilling the constraints')
    for x, c, i in zip(X, clear, in_cone):
        nx = np.linalg.norm(x)
        if not c or abs(nx - 1) < 1e-9:
            continue
        ctx.check(bool(body.is_inside_polytope(x)) == i, 'a single point fulfils the constraints: {}', i)
        x0 = x.copy()
        h = body.get_separating_oracle(x)
        ctx.same(x, x0, 'the oracle modified the point')
        if i and nx < 1:
            ctx.check(h is None, 'a half-space {} separates {}, which is inside', h, x.tolist())
            ctx.event('points_inside')
        else:
            ctx.check(h is not None, 'no half-space separates {}, which is outside', x.tolist())
            b, g = h
            g = np.asarray(g)
            ng = np.linalg.norm(g)
            ctx.check(np.isfinite(ng) and ng > 0, 'half-space ({}, {})', b, g.tolist())
            ctx.check(g @ x >= b - 1e-12 * ng, 'point {} is not cut off by the half-space ({}, {})', x.tolist(), b, g.tolist())
            ctx.check(np.all(W @ g <= b + 1e-9 * ng), 'half-space ({}, {}) does not contain the version space', b, g.tolist())
            ctx.event('points_outside')

    # lines through points inside
    for _ in range(6):
        x = inner[rng.randint(len(inner))]
        if rng.rand() < 0.2:
            x = border[rng.randint(len(border))] * 0.5 + x * 0.5
        u = rng.normal(size=d)
        if rng.rand() < 0.4:
            u = np.round(u * 2)
            if not u.any():
                u[rng.randint(d)] = 1
        u = u * 10. ** rng.uniform(-3, 3)
        n = np.linalg.norm(u)
        shift = 0.
        if rng.rand() < 0.3:
            shift = rng.uniform(-3, 3)  # the same line, given by a point which may be outside
        c = x - shift * u / n
        with np.errstate(all='ignore'):
            t1, t2 = body.intersection(c.copy(), u.copy())
        lo, hi = chord(A, x, u / n)
        ctx.close([t1, t2], [(lo + shift) / n, (hi + shift) / n], 'line through {} with direction {}', c.tolist(), u.tolist(), rtol=1e-6, atol=1e-7 / n)
        for t, inn in ((t1 + 1e-4 * (t2 - t1), True), (t2 - 1e-4 * (t2 - t1), True), (rng.uniform(t1, t2), True), (t1 - 1e-3 / n, False), (t2 + 1e-3 / n, False)):
            p = c + t * u
            if inn and (hi - lo) > 1e-5:
                ctx.check(np.linalg.norm(p) < 1 and np.all(A @ p <= 1e-9 * np.linalg.norm(A, axis=1)), 'point {} of the segment is outside', p.tolist())
            elif not inn:
                ctx.check(not inside(A, p, 1e-9), 'point {} beyond the segment is inside', p.tolist())
        ctx.event('intersections')
        ctx.event('shifted_lines', int(shift != 0))

    # lines missing the body
    for _ in range(3):
        c, u = rng.normal(size=d) * rng.uniform(0.3, 2), rng.normal(size=d)
        kind = rng.randint(3)
        if kind == 1 and d > 1:  # parallel to a constraint which it violates
            a = A[rng.randint(len(A))]
            k = np.flatnonzero(a)
            if len(k) == d:
                continue
            u = np.zeros(d)
            u[np.flatnonzero(a == 0)] = rng.normal(size=d - len(k))
            c = c - a * (a @ c) / (a @ a) * 2 if a @ c < 0 else c
            if a @ c < 1e-3 * np.linalg.norm(a):
                continue
            ctx.event('parallel_lines')
        T = missing(A, c, u)
        if T is None:
            continue
        with np.errstate(all='ignore'):
            ctx.raises(RuntimeError, lambda: body.intersection(c, u), 'line through {} with direction {} misses the version space'.format(c.tolist(), u.tolist()))
        ctx.event('missing_lines')
    ctx.same(body.A, A, 'constraints were modified')
    ctx.case(d, len(A), hash(A.tobytes()) % 10 ** 6)
    ctx.sample(dimension=d, constraints=len(A))


def missing(A, c, u):
    """ a proof that the line misses the body by a clear distance, or None """
    n = np.linalg.norm(u)
    u = u / n
    b = c @ u
    r2 = b * b - (c @ c - 1)
    if r2 < -1e-6:
        return 'ball'
    lo, hi = -b - np.sqrt(max(r2, 0)), -b + np.sqrt(max(r2, 0))
    for a in A:
        na = np.linalg.norm(a)
        s, m = a @ u / na, a @ c / na
        if abs(s) < 1e-12:
            if s == 0 and m > 1e-6:
                return 'parallel'
            return None
        if s > 0:
            hi = min(hi, -m / s)
        else:
            lo = max(lo, -m / s)
    return 'empty' if lo > hi + 1e-6 else None


@workload(quick=600, thorough=10000)
def interior(ctx, rng):
    d = rng.randint(1, 8)
    A, w0 = cone(rng, rng.randint(1, 40), d)
    if rng.rand() < 0.3:
        A = A * 10. ** rng.uniform(-9, 9)
    kind = rng.randint(5)
    if rng.rand() < 0.2 and d > 1:
        # a needle: two constraints nearly opposite
        kind = 4
        width = 10. ** rng.uniform(-7.5, -2)
        u, v = np.linalg.qr(rng.normal(size=(d, 2)))[0].T
        A = np.vstack([-u, u - width * v]) * 10. ** rng.uniform(-1, 1, size=(2, 1))
        ctx.event('needles')
    elif kind == 0:
        A = np.vstack([A, -A[rng.randint(len(A))] * 2. ** rng.randint(-4, 5)])
    elif kind == 1:
        w = rng.uniform(0.1, 1, size=len(A))
        A = np.vstack([A, -w @ A])
    elif kind == 2 and rng.rand() < 0.3:
        A = np.vstack([A, np.zeros(d)])
    else:
        kind = 3
    A = A[rng.permutation(len(A))]
    body = BoundedPolyhedralCone(A.copy())
    if kind < 3:
        # combinations which are opposite up to rounding errors may leave a tiny version space
        try:
            p = body.get_interior_point()
            ctx.check(kind == 1 and np.all(p @ A.T < 1e-14 * np.linalg.norm(A, axis=1)), 'no error although the version space of {} is empty', A.tolist())
        except RuntimeError:
            ctx.event('empty_bodies')
    else:
        p = body.get_interior_point()
        ctx.check(p.shape == (d,) and np.isfinite(p).all(), 'interior point {}', p)
        ctx.check(inside(A, p), 'interior point {} is not strictly inside', p.tolist())
        ctx.event('interior_points')
    ctx.same(body.A, A, 'constraints were modified')
    ctx.case(kind, d, len(A))


def fat_cone(rng, d, scale=1):
    """ constraints of a cone with a fair share of the ball, and a sampler of independent uniform points by rejection """
    while True:
        n = rng.randint(1, 5)
        A = rng.normal(size=(n, d)) * 10. ** (scale * rng.uniform(-1, 1, size=(n, 1)))
        X = ball(rng, 4000, d)
        share = (X @ A.T < 0).all(axis=1).mean()
        if share > 0.04:
            break

    def exact(m):
        got, tries = [], 0
        while sum(map(len, got)) < m:
            X = ball(rng, int(1.3 * m / share) + 100, d)
            got.append(X[(X @ A.T < 0).all(axis=1)])
        return np.vstack(got)[:m]

    return A, exact


def ball(rng, n, d):
    X = rng.normal(size=(n, d))
    return X / np.linalg.norm(X, axis=1)[:, None] * rng.rand(n, 1) ** (1 / d)


def same_distribution(ctx, S, exact, A, what, strict=4.2):
    """ S: independent (or hardly dependent) draws, to be compared with the uniform distribution """
    n, d = S.shape
    ctx.check(np.isfinite(S).all() and np.linalg.norm(S, axis=1).max() <= 1 + 1e-9 and (S @ A.T <= 1e-12 * np.linalg.norm(A, axis=1)).all(), '{}: sample outside the version space', what)
    radius = np.linalg.norm(S, axis=1) ** d
    D = stats.kstest(radius, 'uniform').statistic * np.sqrt(n)
    ctx.check(D < strict, '{}: distribution of the norms (distance {:.2f} from uniform on {} samples)', what, D, n)
    E = exact(4 * n)
    rng = ctx.rng
    for k in range(4):
        g = rng.normal(size=d) if k else np.eye(d)[rng.randint(d)]
        D = stats.ks_2samp(S @ g, E @ g, method='asymp').statistic * np.sqrt(n * len(E) / (n + len(E)))
        ctx.check(D < strict, '{}: distribution along {} (distance {:.2f} from uniform on {} samples)', what, g.tolist(), D, n)
    U, V = S / np.linalg.norm(S, axis=1)[:, None], E / np.linalg.norm(E, axis=1)[:, None]
    g = rng.normal(size=d)
    cut = np.median(V @ g)
    if d > 1:
        p = (V @ g > cut).mean()
        z = ((U @ g > cut).mean() - p) / np.sqrt(p * (1 - p) * (1 / n + 1 / len(E)))
        ctx.check(abs(z) < 1.9 * strict, '{}: share of directions ({:.1f} standard deviations)', what, z)
    ctx.event('compared_samples', n)
    ctx.event('distributions')


@workload(quick=48, thorough=400)
def one_step(ctx, rng):
    """ the uniform distribution is kept by any number of steps """
    d = rng.randint(1, 5)
    A, exact = fat_cone(rng, d)
    body = BoundedPolyhedralCone(A)
    R = None
    if rng.rand() < 0.6:
        R = np.tril(rng.normal(size=(d, d))) * 0.7 + np.eye(d) if rng.rand() < 0.5 else np.diag(10. ** rng.uniform(-1, 1, size=d))
    n = 6000 if ctx.thorough else 3000
    steps = int(rng.choice([1, 1, 2, 3]))
    S, X0 = np.empty((n, d)), exact(n)
    for i in range(n):
        x0 = X0[i].copy()
        ch = HitAndRunChain(x0, body, R)
        S[i] = ch.advance(steps)
        if i < 30:
            ctx.check(ch.dim == d, 'dimension of the chain')
            ctx.same(x0, X0[i], 'the starting point was modified')
            before = S[i].copy()
            ch.advance(1)
            ctx.same(S[i], before, 'later steps modify samples returned before')
            ctx.check(not np.array_equal(S[i], x0), 'the chain does not move')
            ch.reset()
            if i < 2:
                again = np.array([(ch.reset(), ch.advance(1))[1] for _ in range(2)])
                ctx.check(not np.array_equal(again[0], again[1]), 'chains which are reset repeat their samples')
    same_distribution(ctx, S, exact, A, '{} steps, rounding matrix {}'.format(steps, None if R is None else R.tolist()))
    # a step is a uniform draw on the chord
    pos = (S - X0) @ rng.normal(size=d)
    ctx.check(abs((pos > 0).mean() - 0.5) < 6.5 * 0.5 / np.sqrt(n) + 0.2, 'steps go in one direction')
    ctx.case(d, len(A), steps, R is None)


def steps_from(ctx, x0, body, R, n):
    """ n independent steps from x0: directions (up to sign) and relative positions on their chords """
    ch = HitAndRunChain(x0.copy(), body, R)
    U, P = np.empty((n, len(x0))), np.empty(n)
    g = ctx.rng.normal(size=len(x0))
    for i in range(n):
        ch.reset()
        u = ch.advance(1) - x0
        length = np.linalg.norm(u)
        if length == 0:
            ctx.fail('the chain does not move from {}', x0.tolist())
        u = u / length * (1 if u @ g > 0 else -1)
        lo, hi = chord(body.A, x0, u)
        U[i] = u
        P[i] = (ch.advance(0) - x0) @ u
        P[i] = (P[i] - lo) / (hi - lo)
    return U, P


@workload(quick=60, thorough=500)
def single_steps(ctx, rng):
    """ a step is a uniform draw from a chord, in a direction which does not depend on the point: together they make the chain reversible """
    d = rng.randint(1, 7)
    A, exact = fat_cone(rng, d, scale=rng.choice([1, 9]))
    body = BoundedPolyhedralCone(A)
    kind = rng.randint(4)
    R = None if kind == 0 else np.eye(d) if kind == 1 else np.tril(rng.normal(size=(d, d))) * 0.7 + np.eye(d) if kind == 2 else np.diag(10. ** rng.uniform(-1, 1, size=d))
    if R is not None:
        R = R * 10. ** rng.uniform(-3, 2)
    n = 2000 if ctx.thorough else 1000
    where = 'rounding matrix {}'.format(None if R is None else R.tolist())
    directions = []
    for x0 in exact(2):
        if rng.rand() < 0.5:  # close to the origin, where all constraints meet, or to the sphere
            x0 = x0 * (10. ** rng.uniform(-4, 0) if rng.rand() < 0.5 else (1 - 1e-6) / np.linalg.norm(x0))
        U, P = steps_from(ctx, x0, body, R, n)
        ctx.check(P.min() > -1e-6 and P.max() < 1 + 1e-6, '{}: step from {} out of its chord', where, x0.tolist())
        D = stats.kstest(P, 'uniform').statistic * np.sqrt(n)
        ctx.check(D < 4.2, '{}: positions on chords through {} (distance {:.2f} from uniform on {} steps)', where, x0.tolist(), D, n)
        directions.append(U)
        ctx.event('single_steps', n)
    if d > 1:
        for k in range(4):
            g = rng.normal(size=d)
            p, q = (np.abs(U @ g) for U in directions)
            D = stats.ks_2samp(p, q, method='asymp').statistic * np.sqrt(n / 2)
            ctx.check(D < 4.2, '{}: directions depend on the point (distance {:.2f} on {} steps)', where, D, n)
        ctx.check(np.linalg.matrix_rank(directions[0], tol=1e-9) == d, '{}: only some directions are taken', where)
    ctx.case(d, len(A), kind, len(directions))


@workload(quick=48, thorough=400)
def mixing(ctx, rng):
    """ whole sampler from a fixed start: single and multiple chains, with and without rounding """
    d = rng.randint(1, 5)
    A, exact = fat_cone(rng, d)
    y = (rng.rand(len(A)) < 0.5).astype(float)
    X = A * np.where(y == 1, -1, 1)[:, None]
    single, rounding = bool(rng.rand() < 0.5), bool(rng.rand() < 0.6)
    opts = {}
    if rounding:
        opts = {'strategy': ['default', 'opt'][rng.randint(2)], 'z_cut': bool(rng.rand() < 0.5)}
    length = 60 if rounding else 150
    sampler = HitAndRunSampler(single_chain=single, warmup=length, thin=length, cache_samples=bool(rng.rand() < 0.5), rounding=rounding, rounding_cache=bool(rng.rand() < 0.5), rounding_options=opts or None)
    n = 1000 if ctx.thorough else 400
    S = sampler.sample(X, y, n)
    same_distribution(ctx, S, exact, A, 'single {}, rounding {} {}'.format(single, rounding, opts), strict=3.6)
    ctx.event('single_chains', int(single))
    ctx.event('rounded', int(rounding))
    ctx.case(d, len(A), single, rounding, sorted(opts.items()))


def wedge(rng, d, angle):
    """ two constraints leaving a wedge of some angle (and sometimes another one, cutting it), and a sampler of independent uniform points """
    Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
    turn = rng.uniform(0, 2 * np.pi)
    lo, hi = turn, turn + angle
    A = np.zeros((2, d))
    A[0, :2] = np.sin(lo), -np.cos(lo)
    A[1, :2] = -np.sin(hi), np.cos(hi)
    A = A @ Q.T * 10. ** rng.uniform(-1, 1, size=(2, 1))
    if d > 2 and rng.rand() < 0.5:
        A = np.vstack([A, Q[:, 2]])

    def exact(m):
        # the polar angle of uniform points is uniform and independent of everything else
        X = ball(rng, m, d)
        r, t = np.hypot(X[:, 0], X[:, 1]), rng.uniform(lo, hi, size=m)
        X[:, 0], X[:, 1] = r * np.cos(t), r * np.sin(t)
        if len(A) == 3:
            X[:, 2] = -np.abs(X[:, 2])
        return X @ Q.T

    return A, exact, Q, (lo, hi)


@workload(quick=32, thorough=300)
def thin_wedges(ctx, rng):
    """ after rounding, chains also cross version spaces which are much longer than wide """
    d = rng.randint(2, 6)
    angle = 10. ** rng.uniform(-6, -1.5)
    A, exact, Q, (lo, hi) = wedge(rng, d, angle)
    y = (rng.rand(len(A)) < 0.5).astype(float)
    X = A * np.where(y == 1, -1, 1)[:, None]
    opts = {'strategy': ['default', 'opt'][rng.randint(2)], 'z_cut': bool(rng.rand() < 0.5)}
    single = bool(rng.rand() < 0.5)
    sampler = HitAndRunSampler(single_chain=single, warmup=60, thin=60, cache_samples=bool(rng.rand() < 0.5), rounding=True, rounding_cache=bool(rng.rand() < 0.5), rounding_options=opts)
    n = 800 if ctx.thorough else 300
    S = sampler.sample(X, y, n)
    where = 'wedge of {:.2g} in dimension {}, single {}, rounding {}'.format(angle, d, single, opts)
    same_distribution(ctx, S, exact, A, where, strict=3.9)
    P = S @ Q
    t = np.mod(np.arctan2(P[:, 1], P[:, 0]) - lo + 1, 2 * np.pi) - 1
    D = stats.kstest(t / (hi - lo), 'uniform').statistic * np.sqrt(n)
    ctx.check(D < 3.9, '{}: distribution across the wedge (distance {:.2f} from uniform on {} samples)', where, D, n)
    ctx.event('wedges')
    ctx.case(d, len(A), round(np.log10(angle), 2), single, sorted(opts.items()))


@workload(quick=32, thorough=240)
def spacing(ctx, rng):
    """ as many steps as asked before the first sample of a chain and between its samples """
    d = rng.randint(6, 10)
    A, exact = fat_cone(rng, d)
    y = (rng.rand(len(A)) < 0.5).astype(float)
    X = A * np.where(y == 1, -1, 1)[:, None]
    long = int(rng.randint(120, 200))
    kind = ctx.index % 4
    g = rng.normal(size=d)
    if kind == 0:
        # hardly any warm-up, but distant samples
        n = 400 if ctx.thorough else 250
        sampler = HitAndRunSampler(single_chain=True, warmup=1, thin=long, cache_samples=False, rounding=False)
        S = sampler.sample(X, y, n) @ g
        r = np.corrcoef(S[1:-1], S[2:])[0, 1]
        ctx.check(abs(r) < 6.5 / np.sqrt(n - 2), 'samples {} steps apart have correlation {:.2f}', long, r)
        ctx.event('distant_samples', n)
    elif kind == 1:
        # consecutive samples of one chain
        n = 1000
        sampler = HitAndRunSampler(single_chain=True, warmup=long, thin=1, cache_samples=False, rounding=False)
        S = sampler.sample(X, y, n) @ g
        r = np.corrcoef(S[:-1], S[1:])[0, 1]
        ctx.check(r > 0.3, 'samples one step apart have correlation {:.2f}', r)
        ctx.event('close_samples', n)
    elif kind == 3:
        # many short chains, all from the same start
        n = 1000
        sampler = HitAndRunSampler(single_chain=False, warmup=int(rng.choice([1, 1, 2])), thin=long, cache_samples=False, rounding=bool(rng.rand() < 0.5))
        S = sampler.sample(X, y, n) @ g
        r = np.corrcoef(S[:-1], S[1:])[0, 1]
        ctx.check(abs(r) < 6.5 / np.sqrt(n - 1), 'consecutive short chains have correlation {:.2f}', r)
        ctx.event('short_chains', n)
    else:
        # long warm-ups, with one chain of two samples or with two chains
        n = 250 if ctx.thorough else 150
        single = bool(rng.rand() < 0.5)
        sampler = HitAndRunSampler(single_chain=single, warmup=long, thin=1, cache_samples=bool(rng.rand() < 0.3), rounding=False)
        S = np.array([(sampler.clear(), sampler.sample(X, y, 2))[1] for _ in range(n)])
        same_distribution(ctx, S[:, 0], exact, A, 'first of samples after {} steps, single chain {}'.format(long, single), strict=3.9)
        if not single:
            r = np.corrcoef(S[:, 0] @ g, S[:, 1] @ g)[0, 1]
            ctx.check(abs(r) < 6.5 / np.sqrt(n), 'samples of different chains have correlation {:.2f}', r)
        ctx.event('warmed_up', n)
    ctx.case(d, len(A), kind, long)
