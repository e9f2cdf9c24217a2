""" Convexity oracles by non-negative least squares, independent of the hull library used by the package """
import numpy as np
from scipy.optimize import nnls

EPS = 1e-5


def _combination(A, b):
    """ relative distance of b to the cone generated by the columns of A """
    if A.shape[1] == 0:
        return 1.
    s = np.abs(A).max(axis=0)
    s[s == 0] = 1
    t = max(np.abs(b).max(), 1e-300)
    try:
        return float(nnls(A / s, b / t)[1])
    except RuntimeError:  # too many iterations
        return float('nan')


def _settled(near, far, M):
    """ near, far: distance of the point, and of the point moved away from the middle of the body; M: vectors spanning the body """
    if near > EPS * 0.1:
        return -1
    if far < 1e-10 and np.linalg.matrix_rank(M, tol=1e-3) == M.shape[1]:
        return 1
    return 0


def hull_side(P, x):
    """ 1 if x is clearly inside the convex hull of the rows of P, -1 if clearly outside, 0 if too close to call """
    P, x = np.atleast_2d(np.asarray(P, dtype=float)), np.asarray(x, dtype=float).reshape(-1)
    if len(P) == 0:
        return -1
    c = P.mean(axis=0)
    scale = max(np.abs(P - c).max(), 1e-300)
    Q, q = (P - c) / scale, (x - c) / scale
    if np.abs(q).max() > 1 + EPS:
        return -1
    A = np.vstack([Q.T, np.ones(len(Q))])
    near = _combination(A, np.r_[q, 1.])
    far = _combination(A, np.r_[q * (1 + EPS), 1.])
    return _settled(near, far, Q) if len(P) > P.shape[1] or near > EPS * 0.1 else 0


def cone_side(P, v, x):
    """ 1 if v is clearly between x and the hull of P (so that x positive would make v positive), -1 if clearly not, 0 if too close to call """
    P, v, x = np.atleast_2d(np.asarray(P, dtype=float)), np.asarray(v, dtype=float).reshape(-1), np.asarray(x, dtype=float).reshape(-1)
    if len(P) == 0:
        return -1
    A = (v - P).T
    s = np.sqrt(np.square(A).sum(axis=0))
    b = x - v
    nb = np.sqrt(b @ b)
    if np.any(s < 1e-9) or nb < 1e-9:
        return 0
    A, b = A / s, b / nb
    m = A.mean(axis=1)
    near = _combination(A, b)
    far = _combination(A, b + EPS * (b - m))
    if len(P) < len(v):
        return -1 if near > EPS * 0.1 else 0
    return _settled(near, far, A.T)


def cone_points(rng, A, w0, n, steps=8):
    """
    Points of {w: A w <= 0, |w| <= 1}: a hit-and-run walk of our own from the interior point w0, with the ends of the chords it walks on
    :return: (interior points, border points)
    """
    x, inner, border = np.array(w0, dtype=float), [], []
    d = len(x)
    for i in range(n * steps):
        u = rng.normal(size=d)
        u /= np.sqrt(u @ u)
        lo, hi = chord(A, x, u)
        border += [x + lo * u, x + hi * u]
        x = x + rng.uniform(lo, hi) * u
        if i % steps == steps - 1:
            inner.append(x)
    return np.array(inner), np.array(border)


def chord(A, x, u):
    """ [lo, hi] such that x + t u fulfils A (x + t u) <= 0 and |x + t u| <= 1, for x fulfilling it and a unit vector u """
    b = x @ u
    r = np.sqrt(max(b * b - (x @ x - 1), 0))
    lo, hi = -b - r, -b + r
    for a in A:
        s, m = a @ u, a @ x
        if s > 0:
            hi = min(hi, -m / s)
        elif s < 0:
            lo = max(lo, -m / s)
    return lo, hi
