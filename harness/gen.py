""" Generators shared by the workloads. All randomness comes from the RandomState they are given. """
import numpy as np


def index_values(rng, n, strings=True):
    """ unique index values of several kinds, in any order """
    kind = rng.randint(9 if strings else 7)
    if kind == 0:
        idx = np.arange(n)
    elif kind == 1:
        idx = rng.permutation(n)
    elif kind == 2:
        idx = rng.permutation(n) * 7 + 100
    elif kind == 3:
        idx = rng.choice(np.arange(-5 * n, 5 * n), n, replace=False) if n else np.arange(0)
    elif kind == 4:
        idx = np.arange(n)[::-1].copy()
    elif kind == 5:
        idx = rng.permutation(n).astype(np.int64) + 10 ** 12
    elif kind == 6:
        idx = rng.permutation(n).astype(np.int64) + 2 ** 60  # not representable as floating point numbers
    elif kind == 7:
        idx = np.array(['k%03d' % i for i in rng.permutation(n)], dtype='<U4' if n <= 1000 else '<U12')
    else:
        idx = np.array(['%d%s' % (i, 'x' * rng.randint(4)) for i in rng.permutation(n)], dtype='<U12')
    return idx


def identified_data(rng, n, dim):
    """ rows are all different, the first column telling the row they started as """
    X = rng.normal(size=(n, dim)) * 10 ** rng.uniform(-2, 2)
    X[:, 0] = np.arange(n) + 0.5
    return X


def binary_labels(rng, n, both=False):
    p = rng.choice([0.1, 0.5, 0.9])
    y = (rng.rand(n) < p).astype(float)
    if both and n >= 2:
        i, j = rng.choice(n, 2, replace=False)
        y[i], y[j] = 0, 1
    return y


def partial_labels(rng, y, k):
    """ consistent partial labels: all positive for positive points, at least one negative otherwise """
    P = (rng.rand(len(y), k) < 0.6).astype(float)
    P[y == 1] = 1
    neg = np.where(y == 0)[0]
    P[neg, rng.randint(0, k, size=len(neg))] = 0
    return P


def random_subset(rng, items, size):
    items = list(items)
    return [items[i] for i in rng.permutation(len(items))[:size]]


def random_partition(rng, n, max_groups=None):
    """ a random partition of range(n) in non-empty groups, in random order """
    k = rng.randint(1, (max_groups or n) + 1)
    perm = rng.permutation(n)
    k = min(k, n)
    cuts = np.sort(rng.choice(np.arange(1, n), k - 1, replace=False)) if k > 1 else []
    return [[int(v) for v in g] for g in np.split(perm, cuts)]


def snapshot(*arrays):
    return [None if a is None else np.array(a, copy=True) for a in arrays]


def unchanged(arrays, copies):
    for a, c in zip(arrays, copies):
        if a is None:
            continue
        if a.shape != c.shape or a.dtype != c.dtype or not np.array_equal(a, c):
            return False
    return True
