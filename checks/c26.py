"""
C26: penalties against the definition of gradients, proximal maps and subgradients: finite differences, the growth of strongly convex objectives away
from their minimizer, and subgradients built from the dual balls. Run with poisoned memory.
"""
import numpy as np

from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS
from aideme.active_learning.factorization.penalty import HuberPenalty, InteractionPenalty, L1Penalty, L2Penalty, L2SqrtPenalty, SparseGroupLassoPenalty
from harness.core import workload
from harness import gen

RULE = 'A case is one penalty with one weight matrix; non-trivial when the penalty is positive; signature: penalty, groups, shape, zeros.'
QUICK = 5  # times the cases of the quick tier
REQUIRED = {'accepted': 550, 'changed_strengths': 54, 'derivatives': 4900, 'expected_errors': 870, 'grouped': 260, 'kinked_rows': 1400, 'kinks': 1800, 'proximal_points': 900, 'refused': 340, 'values': 1100, 'zero_rows': 640, 'zeroed_entries': 1500}
ASSUMPTIONS = ['groups are disjoint; for the subgradient test they cover all features']

NAMES = ['L1', 'L2Sqrt', 'SparseGroupLasso', 'L2', 'Interaction', 'Huber']
PROXIMAL = ['L1', 'L2Sqrt', 'SparseGroupLasso', 'L2']


class Spec:
    """ a penalty with the formula of its value """
    def __init__(self, rng, d, names=NAMES, groups=None):
        self.name = names[rng.randint(len(names))]
        self.lam, self.lam2, self.delta = [float(10. ** rng.uniform(-3, 1)) for _ in range(3)]
        self.groups = None
        with_groups = rng.rand() < 0.6 if groups is None else groups
        self.covering = True
        if self.name in ('L2Sqrt', 'SparseGroupLasso') and with_groups:
            self.groups = gen.random_partition(rng, d)
            if len(self.groups) > 1 and rng.rand() < 0.15:
                self.groups = self.groups[1:]
                self.covering = False
        late = self.groups is not None and rng.rand() < 0.4
        g = None if late else self.groups
        if self.name == 'L1':
            self.pen = L1Penalty(self.lam)
        elif self.name == 'L2Sqrt':
            self.pen = L2SqrtPenalty(self.lam, g)
        elif self.name == 'SparseGroupLasso':
            self.pen = SparseGroupLassoPenalty(self.lam, self.lam2, g)
        elif self.name == 'L2':
            self.pen = L2Penalty(self.lam)
        elif self.name == 'Interaction':
            self.pen = InteractionPenalty(self.lam)
        else:
            self.pen = HuberPenalty(self.lam, self.delta)
        if self.name != 'Huber' and rng.rand() < 0.3:  # another strength later on
            self.lam = self.lam2 = float(10. ** rng.uniform(-3, 1))
            self.pen.penalty = self.lam
        if late:
            if rng.rand() < 0.3:
                self.pen.groups = gen.random_partition(rng, d)
            if rng.rand() < 0.5:
                learner = LinearFactorizationLearner(BFGS(), self.pen)
                learner.feature_groups = self.groups
            else:
                self.pen.groups = self.groups
        elif self.name in ('L2Sqrt', 'SparseGroupLasso') and self.groups is None and rng.rand() < 0.3:
            self.pen.groups = gen.random_partition(rng, d)
            self.pen.groups = None

    def __repr__(self):
        return '{}(strengths {:.3g}, {:.3g}, delta {:.3g}, groups {})'.format(self.name, self.lam, self.lam2, self.delta, self.groups)

    def value(self, x):
        groups = [list(range(x.shape[1]))] if self.groups is None else self.groups
        grouped = sum(np.sqrt((x[:, g] ** 2).sum(axis=1)).sum() for g in groups)
        if self.name == 'L1':
            return self.lam * np.abs(x).sum()
        if self.name == 'L2Sqrt':
            return self.lam * grouped
        if self.name == 'SparseGroupLasso':
            return self.lam * (np.abs(x).sum() if self.groups is None else grouped) + self.lam2 * np.sqrt((x ** 2).sum(axis=1)).sum()
        if self.name == 'L2':
            return self.lam * (x ** 2).sum()
        if self.name == 'Interaction':
            return 0.5 * self.lam * sum((x[i] ** 2 * x[j] ** 2).sum() for i in range(len(x)) for j in range(len(x)) if i != j)
        a = np.abs(x)
        return self.lam / self.delta * np.where(a <= self.delta, 0.5 * x ** 2, self.delta * (a - self.delta / 2)).sum()

    def kinks(self, x):
        """ smallest distance to points where the penalty is not differentiable """
        groups = [list(range(x.shape[1]))] if self.groups is None else self.groups
        rows = np.sqrt((x ** 2).sum(axis=1)).min()
        grouped = min(np.sqrt((x[:, g] ** 2).sum(axis=1)).min() for g in groups)
        return {'L1': np.abs(x).min(), 'L2Sqrt': grouped, 'SparseGroupLasso': min(rows, np.abs(x).min() if self.groups is None else grouped)}.get(self.name, np.inf)


def weights(rng, zeros=True):
    K, d = rng.randint(1, 6), rng.randint(1, 9)
    if rng.rand() < 0.02:
        K = rng.randint(40, 90)
    x = rng.normal(size=(K, d)) * 10. ** rng.uniform(-2, 1.5)
    if rng.rand() < 0.1:
        x *= 10. ** rng.uniform(-12, -2)
    if zeros:
        if rng.rand() < 0.5:
            x[rng.rand(K, d) < 0.4] = 0
        if rng.rand() < 0.4:
            x[rng.randint(K)] = 0
        if rng.rand() < 0.05:
            x[:] = 0
    return np.asfortranarray(x) if rng.rand() < 0.2 else x


def shifted_groups_zero(rng, spec, x):
    if spec.groups is not None and rng.rand() < 0.5:
        for g in spec.groups:
            x[np.ix_(rng.rand(len(x)) < 0.4, g)] = 0


@workload(quick=2500, thorough=40000)
def values(ctx, rng):
    x = weights(rng)
    spec = Spec(rng, x.shape[1])
    shifted_groups_zero(rng, spec, x)
    pen, x0 = spec.pen, x.copy()
    want = spec.value(x)
    ctx.close(pen.loss(x), want, '{}: value', spec, rtol=1e-9, atol=1e-300)
    ctx.event('values')
    g = pen.grad(x)
    g = np.broadcast_to(np.asarray(g, dtype=float), x.shape)
    ctx.check(np.isfinite(g).all(), '{}: gradient {} at {}', spec, g.tolist(), x.tolist())
    ctx.same(np.broadcast_to(np.asarray(pen.grad(x), dtype=float), x.shape), g, '{}: gradient depends on more than the weights', spec)
    ctx.close(pen.loss(x.copy()), pen.loss(x), '{}: value depends on more than the weights', spec, rtol=1e-12, atol=0)
    ctx.same(x, x0, '{}: weights were modified', spec)
    s = np.abs(x).max()
    # entry by entry, where differentiable
    for _ in range(6):
        i, j = rng.randint(x.shape[0]), rng.randint(x.shape[1])
        h = 1e-5 * (s if s > 0 else 1e-3)
        e = np.zeros(x.shape)
        e[i, j] = h
        row = x[i:i + 1]
        smooth = spec.kinks(row) > 100 * h
        if spec.name == 'Huber':
            smooth = abs(abs(x[i, j]) - spec.delta) > 2 * h
            h = min(h, spec.delta * 0.1)
            e[i, j] = h
        if not smooth:
            ctx.event('kinks')
            continue
        num = (spec.value(x + e) - spec.value(x - e)) / (2 * h)
        ctx.close(g[i, j], num, '{}: derivative at {}, entry {}', spec, x.tolist(), (i, j), rtol=2e-3, atol=1e-4 * max(np.abs(g).max(), abs(num)) + 1e-11 * abs(want) / h)
        ctx.event('derivatives')
    zero = x.reshape(x.shape) == 0
    if spec.name in ('L1', 'L2', 'Huber', 'L2Sqrt') and spec.groups is None and zero.all():
        ctx.same(g, np.zeros(x.shape), '{}: gradient at zero', spec)
    ctx.case(repr(spec), x.shape, int(zero.sum()))
    ctx.sample(penalty=spec, weights=x)


@workload(quick=2000, thorough=30000)
def proximal(ctx, rng):
    x = weights(rng)
    spec = Spec(rng, x.shape[1], PROXIMAL)
    shifted_groups_zero(rng, spec, x)
    eta = float(10. ** rng.uniform(-2, 1 if rng.rand() < 0.8 else 4))
    x0 = x.copy()
    y = spec.pen.proximal(x, eta)
    ctx.same(x, x0, '{}: weights were modified', spec)
    ctx.check(y.shape == x.shape and np.isfinite(y).all(), '{}: proximal point {} of {}', spec, y.tolist(), x.tolist())
    ctx.same(spec.pen.proximal(x, eta), y, '{}: proximal map depends on more than its input', spec)
    obj = lambda z: spec.value(z) + ((z - x) ** 2).sum() / (2 * eta)
    best = obj(y)
    s = max(np.abs(x).max(), 1e-3)
    for _ in range(25):
        kind = rng.randint(5)
        if kind == 0:
            z = y + rng.normal(size=x.shape) * s * 10. ** rng.uniform(-5, 0)
        elif kind == 1:
            z = y * (1 + rng.normal(size=(x.shape[0], 1)) * 10. ** rng.uniform(-4, 0))
        elif kind == 2:
            z = np.where(rng.rand(*x.shape) < 0.5, 0, y)
        elif kind == 3:
            z = y.copy()
            z[rng.randint(len(z)), rng.randint(z.shape[1])] += rng.normal() * s * 10. ** rng.uniform(-5, 0)
        else:
            z = y + (x - y) * rng.uniform(-0.5, 1)
        # the objective grows at least quadratically away from its minimizer
        slack = obj(z) - best - ((z - y) ** 2).sum() / (2 * eta)
        ctx.check(slack >= -1e-9 * (abs(best) + abs(obj(z))), '{}: {} has an objective of {!r} but {}, which the proximal map returned for step {}, has {!r}', spec, z.tolist(), obj(z), y.tolist(), eta, best)
    ctx.event('proximal_points')
    ctx.event('zeroed_entries', int(((y == 0) & (x != 0)).sum()))
    ctx.event('zero_rows', int((x == 0).all(axis=1).sum()))
    ctx.event('grouped', int(spec.groups is not None))
    ctx.case(repr(spec), x.shape, eta)


def dual(rng, v, norm, size):
    """ v scaled to the given norm """
    n = norm(v)
    return v * (size / n) if n > 0 else v


def row_norms(v):
    return np.sqrt((v ** 2).sum(axis=1))


@workload(quick=2000, thorough=30000)
def subgradients(ctx, rng):
    x = weights(rng)
    K, d = x.shape
    spec = Spec(rng, d, PROXIMAL + ['L1', 'L2Sqrt', 'SparseGroupLasso', 'SparseGroupLasso'])
    if not spec.covering:
        spec.pen.groups = spec.groups = [list(range(d))]
    shifted_groups_zero(rng, spec, x)
    x0 = x.copy()
    tol = float(10. ** rng.uniform(-8, -3)) * spec.lam
    inside = rng.rand() < 0.6
    v = np.zeros((K, d))
    outside = np.zeros((K, d))
    groups = [list(range(d))] if spec.groups is None else spec.groups
    share = lambda: rng.uniform(0, 1) if rng.rand() < 0.7 else 1.
    for i in range(K):
        r = x[i]
        if spec.name == 'L1' or spec.name == 'SparseGroupLasso' and spec.groups is None:
            v[i] = spec.lam * np.where(r != 0, np.sign(r), rng.uniform(-1, 1, size=d) if rng.rand() < 0.7 else rng.choice([-1., 1.], size=d))
        elif spec.name in ('L2Sqrt', 'SparseGroupLasso'):
            for g in groups:
                n = np.linalg.norm(r[g])
                v[i, g] = spec.lam * r[g] / n if n > 0 else dual(rng, rng.normal(size=len(g)), np.linalg.norm, spec.lam * share())
        else:
            v[i] = 2 * spec.lam * r
        if spec.name == 'SparseGroupLasso':
            n = np.linalg.norm(r)
            v[i] += spec.lam2 * r / n if n > 0 else dual(rng, rng.normal(size=d), np.linalg.norm, spec.lam2 * share())
    # v is a subgradient: the penalty is above the plane it gives
    for _ in range(3):
        z = x + rng.normal(size=x.shape) * 10. ** rng.uniform(-3, 1)
        lhs, rhs = spec.value(z), spec.value(x) + (v * (z - x)).sum()
        ctx.check(lhs >= rhs - 1e-9 * (abs(lhs) + abs(rhs)), 'HARNESS: {} is no subgradient of {}', v, spec)
    if inside:
        e = rng.normal(size=x.shape)
        u = v + e * (0.3 * tol / np.linalg.norm(e))
        u0 = u.copy()
        ctx.check(bool(spec.pen.is_subgradient(u, x, tol)), '{}: subgradient {} at {} was rejected with tolerance {}', spec, u.tolist(), x.tolist(), tol)
        ctx.event('accepted')
    else:
        # far enough from all subgradients: some direction in which the plane is above the penalty by a clear slope
        size = tol * 4 * np.sqrt(K * d) * 10. ** rng.uniform(0, 3)
        if spec.name == 'L2' or (x != 0).all():
            e = rng.normal(size=x.shape)
            u = v + e * (size / np.linalg.norm(e))
        else:
            i = rng.randint(K)
            u = v.copy()
            r = x[i]
            # push out of the dual ball along a subgradient on its border
            if spec.name == 'L1' or spec.name == 'SparseGroupLasso' and spec.groups is None:
                j = rng.randint(d)
                u[i] = v[i]
                if spec.name == 'L1' or r.any():
                    base = u[i, j] if r[j] != 0 else spec.lam * (np.sign(u[i, j]) or 1) + (spec.lam2 * 0)
                    u[i, j] = base + size * (np.sign(base) or 1) * (rng.choice([-1, 1]) if r[j] != 0 else 1)
                else:
                    t = np.sign(rng.normal(size=d)) * (rng.rand(d) < 0.6)
                    t[j] = t[j] or 1
                    u[i] = t * (spec.lam + (spec.lam2 + size) / np.linalg.norm(t))
            elif r.any() or spec.name == 'L2Sqrt':
                g = groups[rng.randint(len(groups))]
                if r[g].any():
                    e = rng.normal(size=len(g))
                    u[i, g] += e * (size / np.linalg.norm(e))
                else:
                    off = 0. if spec.name == 'L2Sqrt' else spec.lam2 * r[g] / max(np.linalg.norm(r), 1e-300)
                    u[i, g] = dual(rng, rng.normal(size=len(g)), np.linalg.norm, spec.lam + size) + off
            else:
                k = rng.randint(1, len(groups) + 1)
                chosen = [groups[c] for c in rng.permutation(len(groups))[:k]]
                u[i] = 0
                for g in chosen:
                    u[i, g] = dual(rng, rng.normal(size=len(g)), np.linalg.norm, spec.lam + (spec.lam2 + size) / np.sqrt(k))
        u0 = u.copy()
        ctx.check(not spec.pen.is_subgradient(u, x, tol), '{}: {}, which is no subgradient at {}, was accepted with tolerance {} (distance {})', spec, u.tolist(), x.tolist(), tol, size)
        ctx.event('refused')
    ctx.check(np.array_equal(x, x0) and np.array_equal(u, u0), '{}: inputs were modified', spec)
    ctx.event('kinked_rows', int((x == 0).any(axis=1).sum()))
    ctx.case(repr(spec), x.shape, inside)


@workload(quick=30, thorough=300)
def rejections(ctx, rng):
    bad = [0, 0., -1, -1e-12, -np.inf]
    for b in bad:
        for cls in (L1Penalty, L2Penalty, L2SqrtPenalty, InteractionPenalty, HuberPenalty):
            ctx.raises(ValueError, lambda: cls(b), '{} of strength {}', cls.__name__, b)
            p = cls(0.5)
            old = p.penalty
            with_error = ctx.raises(ValueError, lambda: setattr(p, 'penalty', b), '{} set to strength {}', cls.__name__, b)
            ctx.check(p.penalty == old and with_error is not None, '{}: strength changed by a rejected value', cls.__name__)
        ctx.raises(ValueError, lambda: SparseGroupLassoPenalty(b, 1.), 'first strength {}', b)
        ctx.raises(ValueError, lambda: SparseGroupLassoPenalty(1., b), 'second strength {}', b)
        ctx.raises(ValueError, lambda: HuberPenalty(1., b), 'delta {}', b)
    x = rng.normal(size=(2, 3))
    for cls in (L1Penalty, L2Penalty, L2SqrtPenalty, InteractionPenalty):
        p = cls(0.5)
        a = p.loss(x)
        p.penalty = 1.5
        ctx.close(p.loss(x), 3 * a, '{}: value after changing the strength', cls.__name__)
        ctx.check(p.penalty == 1.5, '{}: strength {}', cls.__name__, p.penalty)
        ctx.event('changed_strengths')
    ctx.case(ctx.index)
