"""Independent reference computations, written from the documentation of the
library with plain numpy; nothing here calls the package."""

import numpy as np
import scipy.integrate
import scipy.interpolate

from . import zoo

ORDER = {"c": 0, "A": 1, "H": 2, "G": 3, "Q": 4}


def monomials(r, p):
    """Index tuples i1 >= i2 >= ... of the monomials of degree p."""
    if p == 0:
        return [()]
    return [(i,) + rest for i in range(r) for rest in monomials(i + 1, p - 1)]


def order(k, o=None):
    return o if k == "P" else ORDER.get(k)


def block(k, Q, U=None, o=None):
    """Data block: one row for each column of the operator entries."""
    Q = np.atleast_2d(Q)
    if k == "B":
        return np.atleast_2d(U)
    if k == "N":
        U = np.atleast_2d(U)
        return np.vstack([U[j : j + 1] * Q for j in range(U.shape[0])])
    out = []
    for idx in monomials(Q.shape[0], order(k, o)):
        row = np.ones(Q.shape[1])
        for i in idx:
            row = row * Q[i]
        out.append(row)
    return np.array(out)


def dense(E):
    return E.toarray() if hasattr(E, "toarray") else np.asarray(E, dtype=float)


def matrix(k, E):
    """Operator entries as an (r x columns) matrix."""
    E = dense(E)
    return E.reshape(-1, 1) if E.ndim == 1 else E


def apply(k, E, q, u=None, o=None):
    """Operator applied to one state (1D) or several (2D)."""
    q = np.asarray(q)
    if q.ndim == 1:
        U = None if u is None else np.asarray(u).reshape(-1, 1)
        return (matrix(k, E) @ block(k, q.reshape(-1, 1), U, o))[:, 0]
    return matrix(k, E) @ block(k, q, u, o)


def jacobian(k, E, q, u=None, o=None):
    """Derivative of apply() with respect to the state."""
    M = matrix(k, E)
    r = len(q)
    J = np.zeros((r, r))
    if k == "B":
        return J
    if k == "N":
        for j, uj in enumerate(np.atleast_1d(u)):
            J += uj * M[:, j * r : (j + 1) * r]
        return J
    for col, idx in enumerate(monomials(r, order(k, o))):
        for pos, i in enumerate(idx):
            rest = 1.0
            for p2, i2 in enumerate(idx):
                if p2 != pos:
                    rest *= q[i2]
            J[:, i] += M[:, col] * rest
    return J


# Parametric operators ========================================================
def thetas(c, mu):
    """Coefficients of an affine operator recipe."""
    mu = np.atleast_1d(np.asarray(mu, dtype=float))
    if c["coeffs"] == "int":
        return mu
    vals = [1.0, np.sum(mu), np.cos(mu[0]), mu[-1] ** 2]
    return np.array([vals[i % 4] for i in range(c["nterms"])])


def interpolate(name, params, entries, mu):
    """Entries of an interpolatory operator at mu."""
    P, E = np.asarray(params, dtype=float), np.array([dense(e) for e in entries])
    if name is None:
        if P.ndim == 1:
            o = np.argsort(P)
            return scipy.interpolate.CubicSpline(P[o], E[o])(float(np.ravel(mu)[0]))
        name = "linear"
    cls = zoo.INTERPOLATORS[name]
    if P.ndim == 1:
        return cls(P, E)(float(np.ravel(mu)[0]))
    out = cls(P, E)(np.asarray(mu))
    return out[0] if out.ndim == E.ndim else out


def entries_at(c, entries, mu, params=None, interp=None):
    """Entries of an operator recipe at a parameter value."""
    if c["t"] == "op":
        return entries
    if c["t"] == "aff":
        return sum(t * dense(e) for t, e in zip(thetas(c, mu), entries))
    return interpolate(interp, params, entries, mu)


# Regression ==================================================================
def solve(kind, D, Z, reg=None, modes=None, cond=None):
    """Solution (r x d) of the regression, or None if it is not well determined."""
    d, nr = D.shape[1], Z.shape[0]
    U, s, Vt = np.linalg.svd(D, full_matrices=False)
    full = len(s) == d and s[-1] > 1e-7 * s[0]
    if kind == "plain":
        return Z @ (U / s) @ Vt if full and not (cond and cond > 1e-8) else None
    if kind in ("l2", "l2dec", "tik", "tikdec"):
        if reg is None:
            return None
        if kind == "l2":
            Gs = [reg * np.eye(d)] * nr
        elif kind == "l2dec":
            Gs = [x * np.eye(d) for x in reg]
        elif kind == "tik":
            Gs = [dense(reg)] * nr
        else:
            Gs = [dense(G) for G in reg]
        out = []
        for G, z in zip(Gs, Z):
            P = np.vstack((D, np.diag(G) if G.ndim == 1 else G))
            if np.linalg.cond(P) > 1e4:
                return None
            q, rr = np.linalg.qr(P)
            out.append(np.linalg.solve(rr, q.T @ np.concatenate([z, np.zeros(d)])))
        return np.array(out)
    if kind == "tls":
        A = np.hstack((D, Z.T))
        if A.shape[0] < A.shape[1]:
            return None
        u, sv, v = np.linalg.svd(A, full_matrices=False)
        v = v.T
        if np.linalg.svd(v[d:, d:], compute_uv=False)[-1] < 1e-3 or sv[d - 1] <= sv[d] * 1.001:
            return None
        return (-v[:d, d:] @ np.linalg.inv(v[d:, d:])).T
    m = len(s)
    n = m if modes is None else (min(modes, m) if modes > 0 else m + modes)
    if n < 1 or s[n - 1] <= 1e-7 * s[0] or (n < m and s[n - 1] < 1.001 * s[n]):
        return None
    return Z @ (U[:, :n] / s[:n]) @ Vt[:n]


# Models ======================================================================
def model_matrices(c, data, known):
    """Data matrix and right-hand side of a model recipe's regression.

    known: {operator index: entries}. Interpolatory models give one pair for
    each training parameter.
    """
    pars = data.get("parameters")
    single = pars is None
    Qs, Ls = ([data["states"]], [data["lhs"]]) if single else (data["states"], data["lhs"])
    Us = [data["inputs"]] if single else (data["inputs"] or [None] * len(Qs))
    Qs, Ls = [np.atleast_2d(Q) for Q in Qs], [np.atleast_2d(L).astype(float) for L in Ls]
    Us = [None if U is None else np.atleast_2d(U) for U in Us]
    Zs, Ds = [], []
    for i, (Q, L, U) in enumerate(zip(Qs, Ls, Us)):
        rows = []
        for j, o in enumerate(c["ops"]):
            if j in known:
                E = known[j] if o["t"] == "op" else entries_at(o, known[j], pars[i], *own(o, c))
                L = L - apply(o["k"], E, Q, U, o.get("order"))
                continue
            B = block(o["k"], Q, U, o.get("order"))
            if o["t"] == "int" and c["t"][0] == "p":  # entries of their own for each parameter
                B = np.vstack([B if i == l else 0 * B for l in range(len(Qs))])
            if o["t"] == "aff":
                B = np.vstack([t * B for t in thetas(o, pars[i])])
            rows.append(B)
        Ds.append(np.vstack(rows).T)
        Zs.append(L)
    if c["t"][0] == "i":
        return list(zip(Ds, Zs))
    return [(np.vstack(Ds), np.hstack(Zs))]


def own(o, c):
    """Parameters and interpolator of a known operator of a model recipe."""
    return (zoo.make_params(o["params"]), c.get("interp") or o["interp"]) if o["t"] == "int" else ()


def split_solution(c, Ohat, known, r, m, s=1):
    """Entries of each inferred operator from a solution of the regression."""
    out, at = {}, 0
    for j, o in enumerate(c["ops"]):
        if j in known:
            continue
        d = zoo.opdim(o["k"], r, m, o.get("order"))
        if o["t"] == "aff" or (o["t"] == "int" and c["t"][0] == "p"):
            out[j] = []
            for _ in range(o["nterms"] if o["t"] == "aff" else s):
                out[j].append(Ohat[:, at : at + d])
                at += d
        else:
            out[j] = Ohat[:, at : at + d]
            at += d
    return out


def model_rhs(c, entries, q, u, mu=None, params=None, jac=False):
    """Sum of the operators of a model recipe at one state."""
    r = len(q)
    out = np.zeros((r, r)) if jac else np.zeros(r)
    for o, E in zip(c["ops"], entries):
        if o["t"] == "int":
            E = entries_at(o, E, mu, *(own(o, c) if o["filled"] else (params, c.get("interp") or o["interp"])))
        elif o["t"] != "op":
            E = entries_at(o, E, mu)
        out = out + (jacobian if jac else apply)(o["k"], E, q, u, o.get("order"))
    return out


def predict_discrete(rhs, q0, n, U=None):
    out = [np.asarray(q0, dtype=float)]
    for j in range(n - 1):
        out.append(rhs(out[-1], None if U is None else np.atleast_2d(U)[:, j]))
    return np.array(out).T


def predict_continuous(rhs, q0, t, ufunc=None, **options):
    out = scipy.integrate.solve_ivp(
        lambda s, q: rhs(q, None if ufunc is None else np.atleast_1d(ufunc(s))),
        [t[0], t[-1]], q0, t_eval=t, **options,
    )
    return out.y
