"""
C14: predictions of the polytope models against membership in the convex hull of the positive points and in the cones of the
negative ones, decided by non-negative least squares (independent of the hull library), and against the hidden convex region.
"""
import numpy as np

from aideme.active_learning.dsm.polytope import FlippedPolytope, PersistentPolytope, Polytope
from harness.core import Skip, workload
from harness.geom import cone_side, hull_side
from harness import gen

RULE = ('A case is a sequence of label batches from a convex region; non-trivial when some query point is inferred and some is not; '
        'signature: dimension, model, batch sizes and predictions.')
QUICK = 2  # times the cases of the quick tier
REQUIRED = {'grids': 110, 'implied_negative': 2900, 'implied_positive': 2800, 'inferred_labels': 64000, 'large': 16, 'many_labels': 8000, 'not_implied': 3500, 'one_dimensional': 27, 'order_comparisons': 220, 'sound_labels': 160000, 'updates': 1700}
ASSUMPTIONS = ['points closer than 1e-5 (relative) to the boundary of what is implied are not judged for completeness']

MODELS = ['positive', 'negative', 'persist']


def build(rng, mode):
    tol = [None, 1e-12, 1e-10, 1e-9][rng.randint(4)]
    cls = {'positive': Polytope, 'negative': FlippedPolytope, 'persist': PersistentPolytope}[mode]
    return cls() if tol is None else cls(tol)


def region(rng, d):
    """ a random convex region, as a function """
    kind = rng.randint(4)
    c = rng.normal(size=d) * 0.4
    A = rng.normal(size=(d, d)) + np.eye(d)
    if kind == 0:
        r = rng.uniform(0.8, 2.5)
        return lambda X: np.square((X - c) @ A).sum(axis=1) <= r * r * d
    if kind == 1:
        W, b = rng.normal(size=(int(rng.randint(1, 2 * d + 2)), d)), rng.uniform(0.3, 2.5)
        return lambda X: np.all((X - c) @ W.T <= b, axis=1)
    if kind == 2:
        lo, hi = c - rng.uniform(0.3, 2, d), c + rng.uniform(0.3, 2, d)
        return lambda X: np.all((X >= lo) & (X <= hi), axis=1)
    r = rng.uniform(1, 3) * d
    return lambda X: np.abs((X - c) @ A).sum(axis=1) <= r


def points(ctx, rng, n, d):
    kind = rng.randint(5)
    if kind == 0:
        ctx.event('grids')
        return rng.randint(-3, 4, size=(n, d)).astype(float)
    if kind == 1:
        return rng.uniform(-3, 3, size=(n, d))
    if kind == 2:
        X = rng.normal(size=(n, d)) * 1.5
        X[rng.randint(n, size=n // 5)] = X[rng.randint(n)]
        return X
    return rng.normal(size=(n, d)) * 1.5


def batches(rng, n):
    cuts = []
    i = 0
    style = rng.randint(3)
    while i < n:
        b = 1 if style == 0 else int(rng.randint(1, 6)) if style == 1 else int(rng.randint(1, n + 1))
        cuts.append(np.arange(i, min(n, i + b)))
        i += b
    return cuts


def queries(rng, P, N, m, d):
    Q = [rng.normal(size=(m // 3, d)) * 2]
    if len(P):
        w = rng.dirichlet(np.ones(min(len(P), d + 2)), size=m // 3)
        Q.append(np.array([P[rng.choice(len(P), w.shape[1], replace=False)].T @ v for v in w]))
        if len(N):
            for _ in range(m // 3):
                v = N[rng.randint(len(N))]
                p = P.T @ rng.dirichlet(np.ones(len(P)))
                Q.append((v + rng.exponential(1.) * (v - p))[None])
    return np.vstack(Q)


def judge(ctx, got, P, N, Q, what):
    """ got: predictions for a convex positive region """
    values = set(got.tolist())
    ctx.check(values <= {0., 0.5, 1.}, '{}: predictions {}', what, values)
    for g, x in zip(got, Q):
        h = hull_side(P, x)
        if h == 1:
            ctx.check(g == 1, '{}: {} is in the hull of {} positive points but predicted {}', what, x, len(P), g)
            ctx.event('implied_positive')
            continue
        sides = [cone_side(P, v, x) for v in N]
        if 1 in sides:
            ctx.check(g == 0, '{}: {} would put a negative point in the hull of {} positive ones but is predicted {}', what, x, len(P), g)
            ctx.event('implied_negative')
        elif h == -1 and 0 not in sides:
            ctx.check(g == 0.5, '{}: {} is not implied by {} positive and {} negative points but predicted {}', what, x, len(P), len(N), g)
            ctx.event('not_implied')


@workload(quick=500, thorough=12000)
def exact(ctx, rng):
    d = int(rng.choice([1, 2, 2, 3, 3, 4, 5]))
    n = int(rng.randint(2, 30))
    X = points(ctx, rng, n, d)
    y = region(rng, d)(X).astype(float)
    if y.sum() < min(d, n - 1) and rng.rand() < 0.7:
        y = (np.abs(X - X[0]).sum(axis=1) <= np.median(np.abs(X - X[0]).sum(axis=1))).astype(float)
    mode = MODELS[ctx.index % 3]
    pol = build(rng, mode)
    flip = mode == 'negative'
    z = 1 - y if flip else y
    last = None
    todo = batches(rng, n)
    for k, b in enumerate(todo):
        ok = pol.update(X[b].copy(), z[b].copy())
        ctx.check(pol.is_valid is True or pol.is_valid == True, '{} polytope became invalid on labels of a convex region', mode)  # noqa: E712
        if mode != 'persist':
            ctx.check(bool(ok), '{} polytope reported a failed update on labels of a convex region', mode)
        ctx.event('updates')
        if len(todo) > 6 and k < len(todo) - 1 and rng.rand() < 0.6:
            continue
        seen = np.arange(b[-1] + 1)
        P, N = X[seen][y[seen] == 1], X[seen][y[seen] == 0]
        Q = queries(rng, P, N, 24 if k == len(todo) - 1 else 9, d)
        C = Q.copy()
        got = np.asarray(pol.predict(C), dtype=float)
        ctx.same(C, Q, 'predict modified its input')
        ctx.check(got.shape == (len(Q),), 'predictions of shape {}', got.shape)
        judge(ctx, 1 - got if flip else got, P, N, Q, '{} polytope in {} dimensions'.format(mode, d))
        last = got
    if d == 1:
        ctx.event('one_dimensional')
    if len(set(last)) > 1:
        ctx.case(mode, d, [len(b) for b in todo], last.tolist())
        ctx.sample(mode=mode, dimension=d, labels=n, predictions=last)


@workload(quick=250, thorough=6000)
def orders(ctx, rng):
    """ any order and batching of the same labels gives the same predictions """
    d = int(rng.choice([1, 2, 3, 4]))
    n = int(rng.randint(d + 2, 25))
    X = points(ctx, rng, n, d)
    y = region(rng, d)(X).astype(float)
    mode = MODELS[ctx.index % 3]
    z = 1 - y if mode == 'negative' else y
    P, N = X[y == 1], X[y == 0]
    Q = queries(rng, P, N, 21, d)
    settled = np.array([hull_side(P, x) != 0 and all(cone_side(P, v, x) != 0 for v in N) for x in Q], dtype=bool)
    ref = None
    for _ in range(3):
        pol = build(rng, mode)
        if rng.rand() < 0.3:  # an earlier session
            junk = points(ctx, rng, 12, d)
            pol.update(junk, gen.binary_labels(rng, 12))
            pol.clear()
            ctx.check(pol.is_valid and np.all(np.asarray(pol.predict(Q)) == 0.5), 'a cleared polytope is invalid or still infers labels')
        order = rng.permutation(n)
        for b in batches(rng, n):
            pol.update(X[order[b]], z[order[b]])
        got = np.asarray(pol.predict(Q))[settled]
        if ref is not None:
            ctx.same(got, ref, 'another order of the same labels ({}, {} dimensions)', mode, d)
            ctx.event('order_comparisons')
        ref = got
    ctx.case('orders', mode, d, ref.tolist())


@workload(quick=250, thorough=6000)
def sound(ctx, rng):
    """ labels of a whole pool, inferred while some of it gets labeled: never wrong, never withdrawn """
    d = int(rng.choice([1, 2, 2, 3, 4]))
    n = int(rng.randint(20, 150))
    X = points(ctx, rng, n, d)
    y = region(rng, d)(X).astype(float)
    mode = MODELS[ctx.index % 3]
    pol = build(rng, mode)
    z = 1 - y if mode == 'negative' else y
    order = rng.permutation(n)
    if rng.rand() < 0.5:  # positive points first
        order = np.r_[rng.permutation(np.where(y == 1)[0]), rng.permutation(np.where(y == 0)[0])]
    before = np.full(n, 0.5)
    for b in batches(rng, min(n, 40)):
        pol.update(X[order[b]], z[order[b]])
        got = np.asarray(pol.predict(X))
        known = got != 0.5
        wrong = known & (got != z)
        ctx.check(not wrong.any(), '{} polytope in {} dimensions inferred label {} for {}, true label is {}', mode, d, got[wrong][:1], X[wrong][:1], z[wrong][:1])
        lost = (before != 0.5) & ~known
        if lost.any():
            s = order[:b[-1] + 1]
            P, N = X[s][y[s] == 1], X[s][y[s] == 0]
            for x in X[lost]:
                if hull_side(P, x) == 1 or any(cone_side(P, v, x) == 1 for v in N):
                    ctx.fail('{} polytope in {} dimensions no longer infers the label of {}', mode, d, x)
        ctx.event('sound_labels', n)
        ctx.event('inferred_labels', int(known.sum()))
        before = got
    ctx.case('sound', mode, d, before.tolist())


@workload(quick=36, thorough=400)
def large(ctx, rng):
    """ hundreds of labels: many hull corners, many negative points, large batches """
    d = int(rng.choice([1, 2, 2, 2, 3]))
    mode = MODELS[ctx.index % 3]
    n = int(rng.randint(300, 800) if d < 3 else rng.randint(150, 300))
    kind = rng.randint(3)
    if kind == 0 and d == 2:  # nearly all positive points are corners
        t = rng.uniform(0, 2 * np.pi, size=n)
        X = np.c_[np.cos(t), np.sin(t)] * np.where(rng.rand(n) < 0.5, 1, rng.uniform(1.05, 3, size=n))[:, None]
        y = (np.square(X).sum(axis=1) < 1.02).astype(float)
    else:
        X = rng.normal(size=(n, d)) * 1.5
        r = np.abs(X - rng.normal(size=d) * 0.5).max(axis=1) if kind == 1 else np.square(X - rng.normal(size=d) * 0.5).sum(axis=1)
        y = (r <= np.quantile(r, rng.uniform(0.1, 0.9))).astype(float)
    pol = build(rng, mode)
    z = 1 - y if mode == 'negative' else y
    cuts = np.sort(rng.randint(0, n, size=rng.randint(0, 4)))
    for b in np.split(np.arange(n), cuts):
        if len(b):
            pol.update(X[b].copy(), z[b].copy())
    ctx.check(bool(pol.is_valid), '{} polytope became invalid on {} labels of a convex region', mode, n)
    P, N = X[y == 1], X[y == 0]
    Q = queries(rng, P, N[:100] if rng.rand() < 0.5 else N, 15, d)
    # points which only single labels imply something about: close to labeled points
    if len(P):
        far = P[np.argsort(-(P @ rng.normal(size=d)))[:6]]
        Q = np.vstack([Q, far + 0.02 * (P.mean(axis=0) - far)])
        v = N[np.r_[:min(3, len(N)), rng.randint(len(N), size=3)]] if len(N) else np.zeros((0, d))
        if len(v):
            Q = np.vstack([Q, v + 0.02 * (v - P.mean(axis=0))])
    got = np.asarray(pol.predict(Q), dtype=float)
    judge(ctx, 1 - got if mode == 'negative' else got, P, N, Q, '{} polytope in {} dimensions, {} labels'.format(mode, d, n))
    ctx.event('large')
    ctx.event('many_labels', n)
    ctx.case('large', mode, d, n, got.tolist())
