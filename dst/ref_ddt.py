"""Independent derivative estimates: weights from polynomial exactness."""

import functools

import numpy as np
import scipy.interpolate as si


@functools.lru_cache(None)
def weights(offsets):
    """Weights w with sum w_j p(x_j) = p'(0) for all polynomials p that fit the stencil."""
    x = np.array(offsets, dtype=float)
    V = np.array([x**i for i in range(len(x))])
    e = np.zeros(len(x))
    e[1] = 1.0
    return np.linalg.solve(V, e)


def stencils(scheme, k):
    """[(column of the estimate, columns used)] of a scheme for k snapshots."""
    mode, order = scheme[:3], int(scheme[3])
    if mode == "fwd":
        return [(j, range(j, j + order + 1)) for j in range(k - order)]
    if mode == "bwd":
        return [(j, range(j - order, j + 1)) for j in range(order, k)]
    half = order // 2
    if mode == "ctr":
        return [(j, range(j - half, j + half + 1)) for j in range(half, k - half)]
    out = []  # "ord": of the same order at the ends
    for j in range(k):
        lo = min(max(j - half, 0), k - order - 1)
        out.append((j, range(lo, lo + order + 1)))
    return out


def least(scheme):
    """Fewest snapshots for a nonempty estimate."""
    return int(scheme[3]) + 1


def uniform(states, dt, scheme):
    """(columns, derivatives)"""
    Q = np.asarray(states, dtype=float)
    cols, ddts = [], []
    for j, used in stencils(scheme, Q.shape[1]):
        w = weights(tuple(i - j for i in used)) / dt
        cols.append(j)
        ddts.append(Q[:, used.start : used.stop] @ w)
    return cols, np.array(ddts).T.reshape(Q.shape[0], len(cols))


def nonuniform(states, t):
    """Second order: the parabola through three neighbouring snapshots."""
    Q = np.asarray(states, dtype=float)
    k = Q.shape[1]
    ddts = np.empty(Q.shape)
    for j in range(k):
        lo = min(max(j - 1, 0), k - 3)
        used = range(lo, lo + 3)
        scale = t[lo + 2] - t[lo]
        w = weights(tuple((t[i] - t[j]) / scale for i in used)) / scale
        ddts[:, j] = sum(wi * Q[:, i] for wi, i in zip(w, used))
    return ddts


def spline(kind, t, row, new, nu, options):
    """One row at a time."""
    row = np.asarray(row, dtype=float)
    if kind == "cubic" and not options:
        tck = si.make_interp_spline(t, row, k=3)
        return tck(new) if nu == 0 else tck.derivative(nu)(new)
    if kind == "cubic":
        return si.CubicSpline(t, row, **options)(new, nu)
    if kind == "akima":
        return si.Akima1DInterpolator(t, row, **options)(new, nu)
    if kind == "pchip":
        return si.PchipInterpolator(t, row, **options)(new, nu)
    # Straight lines (a class of the user).
    i = np.clip(np.searchsorted(t, new, side="right") - 1, 0, len(t) - 2)
    slope = (row[i + 1] - row[i]) / (t[i + 1] - t[i])
    return slope if nu else row[i] + slope * (new - t[i])


def interpolated(kind, t, states, new, nu, options):
    return np.array([spline(kind, t, row, new, nu, options) for row in np.atleast_2d(states)])
