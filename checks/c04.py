"""
C04: reference-model monitor for label collections: a list of (index, label, partial labels) entries, against which every
answer of LabeledSet is compared through random chains of concatenations and lookups.
"""
import numpy as np

from aideme.explore import LabeledSet
from harness.core import workload
from harness import gen

RULE = ('A case is a chain of constructions, concatenations (empty operands included) and lookups; non-trivial when at least two operands '
        'were concatenated; signature: the entries and operations.')
QUICK = 8  # times the cases of the quick tier
REQUIRED = {'lookups': 2000, 'concats': 1500, 'exports': 1000, 'expected_errors': 600, 'large': 70}
ASSUMPTIONS = ['index values are unique']


def make(rng, labels, partial, index):
    """ all ways of passing the same labels """
    y = np.array(labels, dtype=rng.choice([float, int]))
    form = rng.randint(4)
    arg = [y, y.tolist(), y.reshape(-1, 1), tuple(y.tolist())][form]
    p = None if partial is None else (np.array(partial, dtype=float).reshape(len(labels), -1) if rng.rand() < 0.5 or not len(labels) else [list(r) for r in partial])
    i = None if index is None else (np.array(index) if rng.rand() < 0.5 else list(index))
    if i is not None and len(index) and isinstance(index[0], int) and max(map(abs, index)) < 100 and rng.rand() < 0.5:
        i = np.array(index, dtype=np.int8)
    return LabeledSet(arg, p, i)


def check(ctx, ls, entries, k, name):
    ctx.check(len(ls) == len(entries), '{} has {} entries instead of {}', name, len(ls), len(entries))
    ctx.same(ls.index, [e[0] for e in entries], name + ': indexes')
    ctx.same(ls.labels, [e[1] for e in entries], name + ': labels')
    if entries:
        ctx.same(ls.partial, [e[2] for e in entries], name + ': partial labels')
        ctx.check(ls.num_partitions == k, '{} has {} partial labels instead of {}', name, ls.num_partitions, k)
    s = sum(e[1] for e in entries)
    ctx.check(bool(ls.has_positive_and_negative_labels()) == (0 < s < len(entries)), '{}: both labels present is {}', name, ls.has_positive_and_negative_labels())


def check_lookup(ctx, rng, ls, entries, name):
    by_index = {e[0]: e for e in entries}
    wanted = gen.random_subset(rng, [e[0] for e in entries], rng.randint(0, len(entries) + 1))
    if not wanted:
        return
    ctx.event('lookups')
    got = ls.get_index(np.array(wanted) if rng.rand() < 0.5 else wanted)
    ctx.same(got.index, wanted, '{}: indexes of a lookup', name)
    ctx.same(got.labels, [by_index[i][1] for i in wanted], '{}: labels of a lookup', name)
    ctx.same(got.partial, [by_index[i][2] for i in wanted], '{}: partial labels of a lookup', name)
    again = got.get_index(wanted[::-1])
    ctx.same(again.labels, [by_index[i][1] for i in wanted[::-1]], '{}: labels of a nested lookup', name)


def check_export(ctx, ls, entries, name):
    ctx.event('exports')
    d = ls.asdict()
    want = {'labels': [e[1] for e in entries], 'partial_labels': [list(e[2]) for e in entries], 'labeled_indexes': [e[0] for e in entries]}
    ctx.check(d == want, '{}: exported {} instead of {}', name, d, want)
    noisy = ls.asdict(noisy=True)
    want = {'noisy_labels': want['labels'], 'noisy_partial_labels': want['partial_labels']}
    ctx.check(noisy == want, '{}: exported {} instead of {}', name, noisy, want)


@workload(quick=1500, thorough=40000)
def chains(ctx, rng):
    total = rng.randint(1, 30)
    ids = gen.index_values(rng, total).tolist()
    k = rng.randint(1, 4)
    has_partial = k > 1 or rng.rand() < 0.3
    current, entries, ops = LabeledSet([]), [], []
    used = 0
    for _ in range(rng.randint(1, 7)):
        m = int(rng.choice([0, 0, 1, 2, 4])) if used < total else 0
        m = min(m, total - used)
        part = ids[used:used + m]
        used += m
        y = gen.binary_labels(rng, m).tolist()
        P = gen.partial_labels(rng, np.array(y), k).tolist() if has_partial else None
        new = make(rng, y, P, part) if m else LabeledSet([])
        new_entries = [(i, lb, P[j] if has_partial else [lb]) for j, (i, lb) in enumerate(zip(part, y))]
        check(ctx, new, new_entries, k, 'a new collection')
        saved = gen.snapshot(new.labels, new.partial, new.index, current.labels, current.partial, current.index)
        front = rng.rand() < 0.3
        res = new.concat(current) if front else current.concat(new)
        ctx.event('concats')
        ctx.check(gen.unchanged([new.labels, new.partial, new.index, current.labels, current.partial, current.index], saved), 'concatenation modified its operands')
        current, entries = res, (new_entries + entries if front else entries + new_entries)
        ops.append((m, front))
        check(ctx, current, entries, k, 'a concatenation')
        check_lookup(ctx, rng, current, entries, 'a concatenation')
        check_export(ctx, current, entries, 'a concatenation') if entries else None
        if entries and rng.rand() < 0.2:
            newP = (rng.rand(len(entries), k) < 0.5).astype(float)
            current.set_partial_labels(newP if rng.rand() < 0.5 else newP.tolist())
            entries = [(e[0], e[1], p) for e, p in zip(entries, newP.tolist())]
            check(ctx, current, entries, k, 'a collection with new partial labels')
    if len(entries) > 1:
        ctx.case(tuple(map(repr, entries)), tuple(ops))
        ctx.sample(entries=entries[:4], ops=ops)


@workload(quick=150, thorough=3000)
def large(ctx, rng):
    """ hundreds of labels, the rarer class anywhere among them """
    n, k = int(rng.randint(40, 600)), int(rng.randint(1, 4))
    y = np.full(n, float(rng.randint(2)))
    rare = rng.choice(n, int(rng.choice([0, 1, 1, 2])), replace=False)
    y[rare] = 1 - y[rare]
    P = gen.partial_labels(rng, y, k)
    ids = gen.index_values(rng, n)
    entries = list(zip(ids.tolist(), y.tolist(), P.tolist()))
    cuts = sorted(rng.randint(0, n + 1, size=int(rng.randint(0, 4))))
    ls = LabeledSet([])
    for a, b in zip([0] + cuts, cuts + [n]):
        if a < b:
            ls = ls.concat(LabeledSet(y[a:b], P[a:b], ids[a:b]))
            check(ctx, ls, entries[:b], k, 'a large collection')
            check_lookup(ctx, rng, ls, entries[:b], 'a large collection')
    check_export(ctx, ls, entries, 'a large collection')
    ctx.event('large')
    ctx.case('large', n, k, tuple(rare.tolist()), tuple(cuts))


@workload(quick=200, thorough=3000)
def construction(ctx, rng):
    n = rng.randint(1, 12)
    y = gen.binary_labels(rng, n)
    ls = make(rng, y.tolist(), None, None)
    ctx.same(ls.index, np.arange(n), 'default indexes')
    ctx.same(ls.partial, y.reshape(-1, 1), 'default partial labels')
    check_export(ctx, ls, [(i, v, [v]) for i, v in enumerate(y.tolist())], 'a default collection')

    other = int(rng.choice([m for m in (n - 1, n + 1, 2 * n, 0) if m != n]))
    ctx.raises(ValueError, lambda: LabeledSet(y, index=np.arange(other)), '{} indexes for {} labels', other, n)
    ctx.raises(ValueError, lambda: LabeledSet(y, partial=np.ones((other, 2))), '{} rows of partial labels for {} labels', other, n)
    ctx.raises(ValueError, lambda: LabeledSet(y, partial=np.ones(n)), 'a vector of partial labels')
    ctx.raises(ValueError, lambda: LabeledSet(y, partial=np.ones((n, 2, 2))), 'three-dimensional partial labels')
    ctx.raises(ValueError, lambda: ls.set_partial_labels(np.ones((other, 2))), 'replacing partial labels by {} rows for {} labels', other, n)
    ctx.same(ls.partial, y.reshape(-1, 1), 'partial labels after a rejected replacement')
    ctx.raises(Exception, lambda: ls.get_index([n + 5]), 'looking up an index which is not there')
    ctx.case('construction', n, other, tuple(y))
