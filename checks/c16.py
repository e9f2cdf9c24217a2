"""
C16: membership answers of hulls and cones against non-negative least squares, against structures built in one go, and against their pickled
and restored copies, at every stage of their growth.
"""
import copy
import pickle

import numpy as np
from scipy.spatial import ConvexHull as Reference

from aideme.active_learning.dsm.convex.convex import ConvexCone, ConvexError, ConvexHull
from aideme.active_learning.dsm.convex.geometry import NegativeCone, PositiveRegion
from aideme.active_learning.dsm.convex.one_dim_convex import OneDimensionalConvexCone, OneDimensionalConvexHull
from harness.core import Skip, workload
from harness.geom import cone_side, hull_side
from harness import gen

RULE = 'A case is one hull or cone growing by batches of points; non-trivial when queries fall on both sides; signature: kind, dimension, batches and answers.'
QUICK = 5  # times the cases of the quick tier
REQUIRED = {'inside': 1500, 'outside': 1500, 'restored_copies': 200, 'grown_after_restoring': 100, 'swallowed_vertices': 100, 'vertices_judged': 1500, 'tolerances': 150, 'one_dimensional': 200, 'wrong_dimensions': 200}
ASSUMPTIONS = ['queries closer than 1e-5 (relative) to the boundary are not judged, except for explicit tolerances']


def stages(rng, n, first):
    cuts = [first]
    while cuts[-1] < n:
        cuts.append(min(n, cuts[-1] + int(rng.choice([1, 1, 2, 5]))))
    return cuts


def cloud(rng, n, d):
    kind = rng.randint(4)
    X = rng.normal(size=(n, d))
    if kind == 0:
        X /= np.sqrt(np.square(X).sum(axis=1))[:, None]  # all of them vertices
    elif kind == 1:
        X = rng.randint(-4, 5, size=(n, d)) + rng.uniform(-0.05, 0.05, size=(n, d))
    return X * 10. ** rng.randint(-1, 2)


def around(rng, P, m):
    w = rng.dirichlet(np.ones(len(P)) * 0.4, size=m)
    inside = w @ P
    c = P.mean(axis=0)
    return np.vstack([inside, c + (inside - c) * rng.uniform(0.5, 3, size=(m, 1)), c + rng.normal(size=(m, P.shape[1])) * np.abs(P - c).max()])


def restored(ctx, rng, obj):
    ctx.event('restored_copies')
    kind = rng.randint(3)
    return pickle.loads(pickle.dumps(obj)) if kind < 2 else copy.deepcopy(obj)


@workload(quick=300, thorough=6000)
def hulls(ctx, rng):
    d = int(rng.choice([2, 3, 4, 5]))
    n = int(rng.randint(d + 1, 24))
    X = cloud(rng, n, d)
    cuts = stages(rng, n, int(rng.randint(d + 1, n + 1)))
    tol = float(rng.choice([1e-12, 1e-10]))
    hull = ConvexHull(X[:cuts[0]].copy(), tol) if rng.rand() < 0.7 else ConvexHull(X[:cuts[0]].tolist(), tol)
    was_restored = False
    for a, b in zip([0] + cuts, cuts):
        if a:
            hull.add_points(X[a:b].copy())
            if was_restored:
                ctx.event('grown_after_restoring')
        P = X[:b]
        Q = around(rng, P, 5)
        got = np.asarray(hull.is_inside(Q))
        ctx.check(got.shape == (len(Q),) and got.dtype == bool, 'answers {} of type {}', got.shape, got.dtype)
        for g, x in zip(got, Q):
            s = hull_side(P, x)
            if s:
                ctx.check(bool(g) == (s == 1), 'hull of {} points in {} dimensions: {} is {} but the answer is {}', len(P), d, x, 'inside' if s == 1 else 'outside', g)
                ctx.event('inside' if s == 1 else 'outside')
        V = np.asarray(hull.vertices)
        known = {tuple(x) for x in P}
        ctx.check(V.ndim == 2 and all(tuple(v) in known for v in V) and len({tuple(v) for v in V}) == len(V), 'vertices are not distinct points of the hull')
        rows = {tuple(v) for v in V}
        for i in rng.choice(b, min(b, 5), replace=False):
            s = hull_side(np.delete(P, i, axis=0), P[i])
            if s:
                ctx.check((tuple(P[i]) in rows) == (s == -1), 'point {} of {} {} listed among the vertices', i, b, 'is not' if s == -1 else 'is')
                ctx.event('vertices_judged')
        if rng.rand() < 0.4:
            other = restored(ctx, rng, hull)
            settled = np.array([hull_side(P, x) != 0 for x in Q], dtype=bool)
            ctx.same(np.asarray(other.is_inside(Q))[settled], got[settled], 'answers of a restored hull')
            ctx.check(other.tol == hull.tol, 'tolerance of a restored hull')
            if rng.rand() < 0.6:
                hull, was_restored = other, True
    ctx.raises(ValueError, lambda: hull.is_inside(np.ones((2, d + 1))), 'query in a wrong dimension')
    ctx.raises(ValueError, lambda: hull.add_points(np.ones((2, d + 1))), 'point of a wrong dimension')
    ctx.event('wrong_dimensions')
    ctx.case('hull', d, cuts, got.tolist())
    ctx.sample(kind='hull', dimension=d, stages=cuts, answers=got)


@workload(quick=400, thorough=8000)
def cones(ctx, rng):
    d = int(rng.choice([2, 2, 3, 4]))
    n = int(rng.randint(d, 20))
    X = cloud(rng, n, d)
    s = np.abs(X).max()
    v = X.mean(axis=0) + rng.normal(size=d) * s * rng.choice([0.3, 1., 3.])
    X = X[rng.permutation(n)]
    cuts = stages(rng, n, int(rng.randint(d, n + 1)))
    through_region = rng.rand() < 0.4
    cone, was_restored = None, False
    for a, b in zip([0] + cuts, cuts):
        P = X[:b]
        side = hull_side(P, v)
        try:
            if cone is None:
                cone = NegativeCone(v) if through_region else ConvexCone(P.copy(), v.copy())
                if through_region:
                    cone.add_points_to_hull(P.copy())
            else:
                cone.add_points_to_hull(X[a:b].copy())
                if was_restored:
                    ctx.event('grown_after_restoring')
        except ConvexError:
            ctx.check(side != -1, 'vertex {} was reported to be in the hull of {} points in {} dimensions, it is not', v, b, d)
            ctx.event('swallowed_vertices')
            ctx.case('swallowed', d, cuts, b)
            return
        ctx.check(side != 1, 'vertex {} is in the hull of {} points in {} dimensions, which was not reported (cone restored: {})', v, b, d, was_restored)
        w = rng.dirichlet(np.ones(b) * 0.4, size=6) @ P
        Q = np.vstack([v + rng.exponential(1., size=(6, 1)) * (v - w), around(rng, P, 3), v + rng.normal(size=(6, d)) * s])
        got = np.asarray(cone.is_inside(Q))
        ctx.check(got.shape == (len(Q),), 'answers of shape {}', got.shape)
        for g, x in zip(got, Q):
            c = cone_side(P, v, x)
            if c:
                ctx.check(bool(g) == (c == 1), 'cone of {} points in {} dimensions: {} is {} but the answer is {}', b, d, x, 'inside' if c == 1 else 'outside', g)
                ctx.event('inside' if c == 1 else 'outside')
        if rng.rand() < 0.4:
            other = restored(ctx, rng, cone)
            settled = np.array([cone_side(P, v, x) != 0 for x in Q], dtype=bool)
            ctx.same(np.asarray(other.is_inside(Q))[settled], got[settled], 'answers of a restored cone')
            if rng.rand() < 0.7:
                cone, was_restored = other, True
    ctx.raises(ValueError, lambda: cone.add_points_to_hull(np.ones((1, d + 1))), 'point of a wrong dimension')
    ctx.event('wrong_dimensions')
    ctx.case('cone', d, cuts, got.tolist())


@workload(quick=250, thorough=4000)
def tolerance(ctx, rng):
    """ points are accepted up to the given distance beyond the facets """
    d = int(rng.choice([2, 3, 4]))
    n = int(rng.randint(d + 1, 15))
    X = rng.normal(size=(n, d))
    tol = float(10 ** rng.uniform(-6, -1))
    E = Reference(X).equations
    Q = around(rng, X, 8)
    beyond = np.max(Q @ E[:, :-1].T + E[:, -1], axis=1)
    # move the queries close to the boundary of what is accepted
    f = np.argmax(Q @ E[:, :-1].T + E[:, -1], axis=1)
    Q = Q + (tol * rng.choice([0.5, 0.9, 1.1, 2., -1.], size=len(Q)) - beyond)[:, None] * E[f, :-1]
    beyond = np.max(Q @ E[:, :-1].T + E[:, -1], axis=1)
    ok = np.abs(beyond - tol) > 1e-9
    ctx.same(np.asarray(ConvexHull(X, tol).is_inside(Q))[ok], (beyond <= tol)[ok], 'hull with tolerance {}', tol)

    v = X.mean(axis=0) + rng.normal(size=d) * 4
    if hull_side(X, v) != -1:
        raise Skip()
    H = Reference(np.vstack([X, v]))
    E = H.equations[[n in s for s in H.simplices]]
    Q = v + rng.exponential(1., size=(12, 1)) * (v - rng.dirichlet(np.ones(n), size=12) @ X)
    lack = np.min(Q @ E[:, :-1].T + E[:, -1], axis=1)
    f = np.argmin(Q @ E[:, :-1].T + E[:, -1], axis=1)
    Q = Q + (-tol * rng.choice([0.5, 0.9, 1.1, 2., -1.], size=len(Q)) - lack)[:, None] * E[f, :-1]
    lack = np.min(Q @ E[:, :-1].T + E[:, -1], axis=1)
    ok = np.abs(lack + tol) > 1e-9
    ctx.same(np.asarray(ConvexCone(X, v, tol).is_inside(Q))[ok], (lack >= -tol)[ok], 'cone with tolerance {}', tol)
    ctx.event('tolerances')
    for bad in (0., -tol):
        ctx.raises(ValueError, lambda: ConvexHull(X, bad), 'hull of tolerance {}', bad)
        ctx.raises(ValueError, lambda: ConvexCone(X, v, bad), 'cone of tolerance {}', bad)
    ctx.case('tolerance', d, n, tol)


@workload(quick=400, thorough=8000)
def one_dimension(ctx, rng):
    n = int(rng.randint(1, 12))
    x = np.round(rng.normal(size=n) * 3, int(rng.randint(1, 6)))
    cuts = stages(rng, n, int(rng.randint(1, n + 1)))
    v = float(np.round(rng.normal() * 4, 3))
    hull = OneDimensionalConvexHull(x[:cuts[0]].copy() if rng.rand() < 0.5 else x[:cuts[0]].reshape(-1, 1))
    cone = None
    try:
        cone = OneDimensionalConvexCone(x[:cuts[0]].reshape(-1, 1), v)
    except ConvexError:
        pass
    ctx.check((cone is None) == (x[:cuts[0]].min() <= v <= x[:cuts[0]].max()), 'vertex {} and points {}: conflict {}', v, x[:cuts[0]], cone is None)
    for a, b in zip([0] + cuts, cuts):
        if a:
            more = x[a:b] if rng.rand() < 0.5 else x[a:b].reshape(-1, 1)
            hull.add_points(more if b - a > 1 or rng.rand() < 0.5 else float(x[a]))
            if cone is not None:
                swallowed = False
                try:
                    cone.add_points_to_hull(more)
                except ConvexError:
                    swallowed = True
                ctx.check(swallowed == bool(x[:b].min() <= v <= x[:b].max()), 'vertex {} and points {}: conflict {}', v, x[:b], swallowed)
                if swallowed:
                    cone = None
                    ctx.event('swallowed_vertices')
        lo, hi = x[:b].min(), x[:b].max()
        q = np.r_[rng.normal(size=5) * 4, lo, hi, v, (lo + hi) / 2]
        Q = q if rng.rand() < 0.5 else q.reshape(-1, 1)
        ctx.same(hull.is_inside(Q), (q >= lo) & (q <= hi), 'interval of {}', x[:b])
        ctx.same(np.sort(np.asarray(hull.vertices).ravel()), [lo, hi], 'ends of the interval')
        ctx.check(bool(hull.is_inside(float(lo))) and not bool(hull.is_inside(float(hi) + 1)), 'single numbers')
        if cone is not None:
            ctx.same(cone.is_inside(Q), q >= v if v > hi else q <= v, 'ray at {} for points {}', v, x[:b])
        if rng.rand() < 0.3:
            hull = restored(ctx, rng, hull)
            cone = restored(ctx, rng, cone)
        ctx.event('one_dimensional')
    ctx.raises(ValueError, lambda: hull.is_inside(np.ones((2, 2))), 'query in a wrong dimension')
    ctx.case('interval', cuts, x.tolist(), v)


@workload(quick=300, thorough=6000)
def regions(ctx, rng):
    """ the structures which collect points until a hull can be built """
    d = int(rng.choice([1, 2, 3]))
    n = int(rng.randint(1, 14))
    X = cloud(rng, n, d)
    region, v = PositiveRegion(), X.mean(axis=0) + rng.normal(size=d) * 3 * np.abs(X).max()
    cone = NegativeCone(v)
    if rng.rand() < 0.3:
        region.update(cloud(rng, 4, d))
        cone.add_points_to_hull(X[:1] + 1)
        region.clear()
        cone.clear()
    a = 0
    alive = True
    while a < n:
        b = min(n, a + int(rng.choice([1, 2, 4])))
        region.update(X[a:b].copy())
        P = X[:b]
        if alive:
            try:
                cone.add_points_to_hull(X[a:b].copy())
                ctx.check(hull_side(P, v) != 1, 'a cone vertex in the hull was not reported')
            except ConvexError:
                ctx.check(hull_side(P, v) != -1, 'a cone vertex outside the hull was reported to be inside')
                alive = False
        Q = around(rng, P, 3)
        ctx.check(region.is_built == (b > d), '{} points in {} dimensions: hull built {}', b, d, region.is_built)
        got = np.asarray(region.is_inside(Q))
        for g, x in zip(got, Q):
            s = hull_side(P, x)
            if s:
                ctx.check(bool(g) == (s == 1), 'positive region of {} points in {} dimensions: {} answered {}', b, d, x, g)
                ctx.event('inside' if s == 1 else 'outside')
        if alive:
            Q = np.vstack([Q, v + rng.exponential(1., size=(4, 1)) * (v - P[rng.randint(b)])])
            for g, x in zip(np.asarray(cone.is_inside(Q)), Q):
                c = cone_side(P, v, x)
                if c:
                    ctx.check(bool(g) == (c == 1), 'negative cone of {} points in {} dimensions: {} answered {}', b, d, x, g)
                    ctx.event('inside' if c == 1 else 'outside')
        listed = {tuple(np.atleast_1d(p)) for p in np.asarray(region.vertices)}
        ctx.check(listed <= {tuple(p) for p in P}, 'vertices are not points of the region')
        if rng.rand() < 0.2:
            region, cone = restored(ctx, rng, region), restored(ctx, rng, cone)
        a = b
    ctx.case('region', d, n, X[0].tolist())
