"""
C10: the indexes returned by the initial samplers are checked against the labels they were asked for; over many draws each eligible point
must be drawn (bounds chosen so that a correct sampler misses one with probability below 1e-9).
"""
import numpy as np

from aideme.explore import LabeledSet, PartitionedDataset
from aideme.initial_sampling import fixed_sampler, random_sampler, stratified_sampler
from harness.core import workload
from harness import gen

RULE = 'A case is one sampler drawn from several times on a data set with random labels and indexes; signature: sampler, sizes and points drawn.'
QUICK = 8  # times the cases of the quick tier
REQUIRED = {'stratified_draws': 1670, 'negative_in_all': 800, 'random_draws': 1050, 'fixed_draws': 200, 'all_points_reached': 80, 'impossible_requests': 25, 'invalid_requests': 174, 'after_labeling': 304, 'large': 10}
ASSUMPTIONS = []


def values(seq):
    return [v.item() if hasattr(v, 'item') else v for v in seq]


@workload(quick=900, thorough=25000)
def stratified(ctx, rng):
    n, k = int(rng.randint(2, 30)), int(rng.randint(1, 7))
    if rng.rand() < 0.04:
        n = int(10 ** rng.uniform(2, 3.8))
    y = gen.binary_labels(rng, n, both=True)
    if rng.rand() < 0.3:
        y = y.astype(int)
    P = (rng.rand(n, k) < rng.choice([0.5, 0.2])).astype(float)
    P[y == 1] = 1
    if k > 1:
        neg = np.where(y == 0)[0]
        P[neg, rng.randint(0, k, size=len(neg))] = 0
    else:
        P = None
    idx = gen.index_values(rng, n)
    ls = LabeledSet(y, P, idx)
    in_all = rng.rand() < 0.5
    positive = set(idx[y == 1].tolist())
    negative = set(idx[y == 0].tolist())
    if in_all:
        negative = {i for i, p in zip(idx.tolist(), ls.partial) if p.max() == 0}
    ds = PartitionedDataset(gen.identified_data(rng, n, 2), idx)
    a, b = int(rng.randint(1, max(2, len(positive) + 1))), int(rng.randint(1, max(2, len(negative) + 1)))
    if rng.rand() < 0.4:
        a = b = 1
    before = gen.snapshot(ls.labels, ls.partial, ls.index, ds.index, ds.data)

    default = a == b == 1 and not in_all and rng.rand() < 0.5
    sampler = stratified_sampler(ls) if default else stratified_sampler(ls, pos=a, neg=b, neg_in_all_subspaces=in_all)
    if a > len(positive) or b > len(negative):
        ctx.raises(ValueError, lambda: sampler(ds), '{} positive and {} negative points were drawn out of {} and {}', a, b, len(positive), len(negative))
        ctx.event('impossible_requests')
        return
    for _ in range(4):
        drawn = values(sampler(ds))
        pos = [i for i in drawn if i in positive]
        neg = [i for i in drawn if i in negative]
        ctx.check(len(drawn) == a + b and len(pos) == a and len(neg) == b, 'drawn {} instead of {} of {} and {} of {}', drawn, a, sorted(positive), b, sorted(negative))
        ctx.check(len(set(drawn)) == len(drawn), 'drawn twice: {}', drawn)
        found = ds.from_index(drawn)
        ctx.check(values(found.index) == drawn, 'the data set finds {} for the points drawn, {}', values(found.index), drawn)
        ctx.event('stratified_draws')
        if in_all:
            ctx.event('negative_in_all')
    ctx.check(gen.unchanged([ls.labels, ls.partial, ls.index, ds.index, ds.data], before), 'sampling modified its input')
    ctx.case(n, a, b, in_all, tuple(drawn))
    ctx.sample(n=n, pos=a, neg=b, neg_in_all_subspaces=in_all, drawn=drawn)

    if n > 100:
        # the draws cover the points evenly, wherever they are in the data
        for group in (positive, negative):
            group = [i for i in values(idx) if i in group]
            if len(group) >= 60:
                half = {i: j for j, i in enumerate(group)}
                total = late = 0
                for _ in range(30):
                    js = [half[i] for i in values(sampler(ds)) if i in half]
                    total, late = total + len(js), late + sum(2 * j >= len(group) for j in js)
                p = sum(2 * j >= len(group) for j in range(len(group))) / len(group)
                ctx.check(abs(late - total * p) <= 6.5 * np.sqrt(total * p * (1 - p)) + 1, '{} of {} points drawn are in the second half of {}', late, total, len(group))
        ctx.event('large')

    if n <= 10 and rng.rand() < 0.5:
        m = max(len(positive), len(negative))
        seen = set()
        for _ in range(25 * m):  # each point is missed with probability below (1 - 1/m)^(25 m) = e^-25
            seen |= set(values(sampler(ds)))
        ctx.check(seen == positive | negative, 'points {} are never drawn', sorted((positive | negative) - seen))
        ctx.event('all_points_reached')

    if rng.rand() < 0.4:
        bad = [0, -1, 1.5, -3][rng.randint(4)]
        ctx.raises(ValueError, lambda: stratified_sampler(ls, pos=bad), 'pos={} was accepted', bad)
        ctx.raises(ValueError, lambda: stratified_sampler(ls, neg=bad), 'neg={} was accepted', bad)
        ctx.raises(ValueError, lambda: random_sampler(bad), 'sample_size={} was accepted', bad)
        ctx.event('invalid_requests')


@workload(quick=700, thorough=15000)
def random(ctx, rng):
    n = int(rng.randint(1, 30)) if rng.rand() < 0.97 else int(10 ** rng.uniform(2, 3.7))
    idx = gen.index_values(rng, n)
    ds = PartitionedDataset(gen.identified_data(rng, n, 2), idx)
    free = set(idx.tolist())
    done = gen.random_subset(rng, idx, int(rng.randint(0, n)))
    if done:
        ds.move_to_labeled(LabeledSet(gen.binary_labels(rng, len(done)), index=np.array(done)))
        free -= set(values(done))
        ctx.event('after_labeling')
    moved = gen.random_subset(rng, ds.unknown.index, int(rng.randint(0, len(free))))
    ds.move_to_inferred(moved)
    size = int(rng.randint(1, len(free) + 1))
    sampler = random_sampler(size)
    order = values(ds.index)
    for _ in range(3):
        drawn = values(sampler(ds))
        ctx.check(len(drawn) == size == len(set(drawn)) and set(drawn) <= free, '{} points asked from {}, got {}', size, sorted(free), drawn)
        ctx.event('random_draws')
    ctx.check(values(ds.index) == order and ds.labeled_size == len(done) and ds.inferred_size == len(moved), 'sampling changed the data set')
    if len(free) <= 10:
        m = len(free)
        seen = set()
        for _ in range(25 * m):
            seen |= set(values(sampler(ds)))
        ctx.check(seen == free, 'points {} are never drawn', sorted(free - seen))
        ctx.event('all_points_reached')
    ctx.case('random', n, size, len(done), tuple(drawn))


@workload(quick=200, thorough=2000)
def fixed(ctx, rng):
    n = int(rng.randint(1, 20))
    idx = gen.index_values(rng, n)
    ds = PartitionedDataset(gen.identified_data(rng, n, 2), idx)
    chosen = gen.random_subset(rng, idx, int(rng.randint(1, n + 1)))
    given = [list(chosen), tuple(chosen), np.array(chosen)][rng.randint(3)]
    sampler = fixed_sampler(given)
    for _ in range(2):
        got = values(sampler(ds))
        ctx.check(got == values(chosen), 'the fixed sampler returns {} instead of {}', got, values(chosen))
        ctx.event('fixed_draws')
        ds.move_to_inferred(ds.unknown.index[:1].copy())
    ctx.case('fixed', n, tuple(values(chosen)))
