"""
C15: validity flags, update results and predictions along label sequences which contradict convexity at some point, against membership of
the negative points in the hull of the positive ones (non-negative least squares).
"""
import numpy as np

from aideme.active_learning.dsm.model import FactorizedPolytopeModel, PolytopeModel, PolytopeModelBase
from aideme.active_learning.dsm.polytope import FlippedPolytope, PersistentPolytope, Polytope
from checks.c14 import batches, judge, points, region
from harness.core import Skip, workload
from harness.geom import hull_side
from harness import gen

RULE = ('A case is a sequence of label batches given to one polytope model; non-trivial when a contradiction occurs; signature: model, dimension, '
        'position of the contradictions and predictions.')
REQUIRED = {'both_invalid': 18, 'conflict_by_negative': 52, 'conflict_by_positive': 43, 'conflicts': 180, 'expected_errors': 440, 'factorized_conflicts': 120, 'fallbacks': 140, 'grids': 96, 'identical_points': 100, 'implied_negative': 2700, 'implied_positive': 3100, 'not_implied': 24000, 'one_dimensional': 80, 'partly_valid': 130, 'refused_factorized': 32, 'refused_updates': 140, 'resets': 470, 'valid_updates': 3200}
ASSUMPTIONS = ['negative points closer than 1e-5 (relative) to the boundary of the hull are not judged']

MODES = ['positive', 'negative', 'persist']


def contradiction(P, N):
    """ 1: some row of N is clearly in the hull of P, -1: clearly none, 0: too close to call """
    sides = [hull_side(P, v) for v in N]
    return 1 if 1 in sides else 0 if 0 in sides else -1


def make(rng, mode):
    tol = [None, 1e-12, 1e-10][rng.randint(3)]
    if rng.rand() < 0.4:
        return PolytopeModel(mode) if tol is None else PolytopeModel(mode, tol)
    if rng.rand() < 0.3:
        return PolytopeModelBase.get_polytope(mode, tol or 1e-12)
    cls = {'positive': Polytope, 'negative': FlippedPolytope, 'persist': PersistentPolytope}[mode]
    return cls() if tol is None else cls(tol)


def labels(rng, X):
    """ labels of a convex region, with some wrong ones, and of other shapes """
    n, d = X.shape
    kind = rng.randint(4)
    y = region(rng, d)(X).astype(float)
    if kind == 0:
        k = int(rng.randint(1, 4))
        flip = rng.choice(n, min(n, k), replace=False)
        y[flip] = 1 - y[flip]
    elif kind == 1:
        y = gen.binary_labels(rng, n)
    elif kind == 2:
        y = 1 - y
    return y


@workload(quick=700, thorough=15000)
def sequences(ctx, rng):
    d = int(rng.choice([1, 2, 2, 3, 3, 4]))
    mode = MODES[ctx.index % 3]
    pol = make(rng, mode)
    history = []
    for session in range(int(rng.randint(1, 3))):
        n = int(rng.randint(3, 30))
        X = points(ctx, rng, n, d)
        if d == 1:
            X = X + rng.uniform(-0.01, 0.01, size=X.shape)
            ctx.event('one_dimensional')
        y = labels(rng, X)
        ctx.check(bool(pol.is_valid), 'a new or cleared {} polytope is invalid', mode)
        p = f = -1  # state of the two convexity assumptions
        for b in batches(rng, n):
            seen = np.arange(b[-1] + 1)
            P, N = X[seen][y[seen] == 1], X[seen][y[seen] == 0]
            oldp, oldf = p, f
            p = max(p, contradiction(P, N)) if mode != 'negative' else p
            f = max(f, contradiction(N, P)) if mode != 'positive' else f
            ok = pol.update(X[b].copy(), y[b].copy())
            valid = bool(pol.is_valid)
            Q = np.vstack([X[rng.choice(n, min(n, 6), replace=False)], rng.normal(size=(6, d)) * 1.5])
            got = np.asarray(pol.predict(Q))
            ctx.check(got.shape == (len(Q),), 'predictions of shape {}', got.shape)

            if mode == 'persist':
                if p == -1 and f == -1:
                    ctx.check(bool(ok) and valid, 'persistent polytope reports a failure without any contradiction')
                if p == 1 and oldp == -1:
                    ctx.check(not ok, 'persistent polytope reports success although a negative point is in the hull of the positive ones')
                if -1 in (p, f):
                    ctx.check(valid, 'persistent polytope became invalid although labels are consistent with one of the convexity assumptions')
                if p == 1 and f == 1:
                    ctx.check(not valid and (not ok or (oldp, oldf) != (p, f)), 'persistent polytope is still valid although both assumptions are contradicted')
                    ctx.event('both_invalid')
                if p == -1:
                    judge(ctx, got, P, N, Q, 'persistent polytope')
                elif p == 1 and f == -1:
                    judge(ctx, 1 - got, N, P, Q, 'persistent polytope on its second assumption')
                    ctx.event('fallbacks')
            else:
                state = p if mode == 'positive' else f
                if state == -1:
                    ctx.check(valid and bool(ok), '{} polytope in {} dimensions became invalid although labels are consistent', mode, d)
                    judge(ctx, got if mode == 'positive' else 1 - got, *((P, N) if mode == 'positive' else (N, P)), Q, mode + ' polytope')
                elif state == 1:
                    ctx.check(not valid and not ok, '{} polytope in {} dimensions is valid (update returned {}) although a point is in the hull of the opposite class', mode, d, ok)

            if p == -1 or f == -1:
                ctx.event('valid_updates')
            if (p == 1 and oldp == -1) or (f == 1 and oldf == -1):
                ctx.event('conflicts')
                if len(set(y[b])) == 1:
                    ctx.event('conflict_by_positive' if (y[b][0] == 1) else 'conflict_by_negative')
                ctx.case(mode, d, session, int(b[0]), got.tolist())
                history.append((session, int(b[0])))
            if not valid:
                ctx.check(np.all(got == 0.5), 'invalid {} polytope still infers labels {}', mode, got)
                for lb in (0., 1.):
                    ctx.raises(RuntimeError, lambda: pol.update(X[:1], np.array([lb])), 'update of an invalid {} polytope', mode)
                ctx.check(not pol.is_valid and np.all(np.asarray(pol.predict(Q)) == 0.5), 'a refused update changed the {} polytope', mode)
                ctx.event('refused_updates')
                break
        pol.clear()
        ctx.event('resets')
        ctx.check(bool(pol.is_valid) and np.all(np.asarray(pol.predict(X)) == 0.5), 'a cleared {} polytope is invalid or still infers labels', mode)
    ctx.sample(mode=mode, dimension=d, conflicts=history)


@workload(quick=20, thorough=200)
def modes(ctx, rng):
    for bad in ('Positive', 'convex', '', None, 'persistent'):
        ctx.raises(ValueError, lambda: PolytopeModel(bad), 'unknown mode {}', bad)
    for tol in (0, -1e-12, -1.):
        for cls in (Polytope, FlippedPolytope, PersistentPolytope):
            ctx.raises(ValueError, lambda: cls(tol), 'tolerance {}', tol)


@workload(quick=250, thorough=4000)
def identical(ctx, rng):
    """ some point is labeled twice, with opposite labels: no region at all is consistent with that, whatever its shape """
    d = int(rng.choice([1, 1, 2, 2, 3, 4]))
    mode = MODES[ctx.index % 3]
    pol = make(rng, mode)
    n = int(rng.randint(1, 12))
    X = rng.randint(-4, 5, size=(n, d)).astype(float) if d == 1 or rng.rand() < 0.3 else rng.normal(size=(n, d))
    y = region(rng, d)(X).astype(float) if rng.rand() < 0.7 else gen.binary_labels(rng, n)
    k = int(rng.randint(n))
    X, y = np.vstack([X, X[k]]), np.r_[y, 1 - y[k]]
    if d > 1:
        same = [X[i] for i in range(n) if y[i] == y[k] and np.any(X[i] != X[k])]
        if same and hull_side(np.array(same), X[k]) == 0:
            raise Skip  # on the boundary of the hull, but not one of its corners
    order = rng.permutation(n + 1)
    X, y = X[order], y[order]
    p = f = False
    for b in batches(rng, n + 1):
        P, N = X[:b[-1] + 1][y[:b[-1] + 1] == 1], X[:b[-1] + 1][y[:b[-1] + 1] == 0]
        if d == 1:  # decided exactly
            p, f = [len(A) > 0 and bool(np.any((B >= A.min()) & (B <= A.max()))) for A, B in ((P, N), (N, P))]
        elif any((v == w).all() for v in P for w in N):
            p = f = True
        ok = pol.update(X[b].copy(), y[b].copy())
        broken = {'positive': p, 'negative': f, 'persist': p and f}[mode]
        if d == 1 or broken:
            ctx.check(bool(pol.is_valid) == (not broken), '{} polytope in {} dimensions is {} after the positive points {} and negative points {}', mode, d,
                      'valid' if pol.is_valid else 'invalid', P.tolist(), N.tolist())
        if broken:
            ctx.check(not ok and np.all(np.asarray(pol.predict(X)) == 0.5), '{} polytope: update returned {} and labels are inferred although labels contradict each other', mode, ok)
            ctx.event('identical_points')
        if not pol.is_valid:
            break
    ctx.case('identical', d, mode, n, X.tolist() if d == 1 else k)


@workload(quick=150, thorough=4000)
def factorized(ctx, rng):
    """ a model of several subspaces: contradicting partial labels turn off the models of their subspaces only """
    d = int(rng.randint(1, 6))
    groups = gen.random_partition(rng, d)
    k, n = len(groups), int(rng.randint(3, 25))
    X = rng.normal(size=(n, d)) if rng.rand() < 0.6 else np.eye(d)[rng.randint(d, size=n)]
    which = [MODES[rng.randint(3)] if X[0].sum() != 1 else ['categorical', 'positive', 'multiset'][rng.randint(3)] for _ in groups]
    if X[0].sum() == 1:
        which = [m if m != 'positive' or len(g) == 1 else 'categorical' for m, g in zip(which, groups)]
    Y = np.stack([region(rng, len(g))(X[:, g]) for g in groups], axis=1).astype(float)
    bad = rng.rand(k) < rng.choice([0.2, 0.6, 1])
    for j in np.where(bad)[0]:
        i = rng.choice(n, rng.randint(1, min(n, 4)), replace=False)
        Y[i, j] = 1 - Y[i, j]
    single = len(set(which)) == 1 and rng.rand() < 0.5
    model = FactorizedPolytopeModel(groups, which[0] if single else which)
    alone = [PolytopeModel(m) for m in which]
    Q = np.vstack([X, rng.normal(size=(6, d))]) if X[0].sum() != 1 else X
    for session in range(int(rng.randint(1, 3))):
        refused = False
        for b in batches(rng, n):
            if not any(m.is_valid for m in alone):
                ctx.raises(RuntimeError, lambda: model.update(X[b], Y[b]), 'update of a model without any valid subspace')
                ctx.event('refused_factorized')
                refused = True
            else:
                before = [m.is_valid for m in alone]
                ok = [m.update(X[b][:, g], Y[b, j]) for j, (g, m) in enumerate(zip(groups, alone)) if before[j]]
                done = model.update(X[b].copy(), Y[b].copy())
                ctx.check(bool(done) == all(ok), 'update of {} as {} returned {}, its subspaces {}', groups, which, done, ok)
                ctx.event('factorized_conflicts', len(ok) - int(sum(map(bool, ok))))
            valid = [m.is_valid for m in alone]
            ctx.check(bool(model.is_valid) == any(valid) and bool(model.is_all_valid) == all(valid), '{} as {}: subspaces are valid: {}, the model says {} and {}', groups, which, valid, model.is_valid, model.is_all_valid)
            parts = np.stack([m.predict(Q[:, g]) if m.is_valid else np.full(len(Q), 0.5) for g, m in zip(groups, alone)], axis=1)
            ctx.same(np.asarray(model.predict_partial(Q)), parts, 'partial labels of {} as {}', groups, which)
            ctx.same(np.asarray(model.predict(Q)), parts.min(axis=1), 'labels of {} as {}, of which {} are valid', groups, which, valid)
            ctx.event('partly_valid', any(valid) and not all(valid))
            if refused:
                break
        ctx.case(groups, which, valid, parts[:, 0].tolist())
        model.clear()
        for m in alone:
            m.clear()
        ctx.check(bool(model.is_all_valid) and np.all(np.asarray(model.predict(Q)) == 0.5), 'a cleared model of {} is invalid or still infers labels', groups)
