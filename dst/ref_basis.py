"""Independent reference of the bases."""

import numpy as np

from . import zoo
from .zoo import arr


def dense_weights(kind, seed, n):
    W = zoo.make_weights(kind, seed, n)
    if W is None:
        return None
    W = W.toarray() if hasattr(W, "toarray") else W
    return np.diag(W) if W.ndim == 1 else W


def root(W):
    lam, E = np.linalg.eigh(W)
    return (E * np.sqrt(lam)) @ E.T


class RefB:
    """What a basis has to be after its latest fit."""

    def __init__(self, c):
        self.c = c
        self.members = [RefB(m) for m in c.get("members", ())]
        self.trained = c["t"] == "linear" or (c["t"] == "bmulti" and all(m.trained for m in self.members))
        self.n = c["n"]
        self.W = None
        if c["t"] == "linear":
            B = zoo.build_basis(c)
            self.V = np.array(B.entries)
            self.W = dense_weights(c["weights"], c["seed"], c["n"])
        if c["t"] == "pod":
            self.crit, self.solver = list(c["crit"]), c["svdsolver"]
            self.W = dense_weights(c["weights"], c["seed"], c["n"])

    def fit(self, X):
        t = self.c["t"]
        self.trained = True
        if t == "bmulti":
            for m, x in zip(self.members, np.split(X, np.cumsum(self.c["sizes"])[:-1])):
                m.fit(x)
        elif t == "pod":
            self.n, self.solver = X.shape[0], getattr(self, "next_solver", self.solver)
            S = np.eye(self.n) if self.W is None else root(self.W)
            U, s, Zt = np.linalg.svd(S @ X, full_matrices=False)
            keep = min(self.c["max_vectors"] or s.size, s.size)
            self.full = np.linalg.solve(S, U)[:, :keep]
            self.right = Zt[:keep].T
            if self.solver == "randomized":
                s = s[:keep]
            self.sigma = s / s[0]
            self.choose()

    def choose(self):
        """Number of vectors that the criterion asks for."""
        kind, v = self.crit
        e = np.cumsum(self.sigma**2) / (self.sigma**2).sum()
        if kind == "num_vectors":
            r = v
        elif kind == "svdval_threshold":
            r = int((self.sigma >= v).sum())
        elif kind == "cumulative_energy":
            r = 1 + int((e < v).sum())
        elif kind == "residual_energy":
            r = 1 + int((1 - e >= v).sum())
        else:
            r = 1 + int((np.sqrt(np.clip(1 - e, 0, None)) >= v).sum())
        self.dimension(r)

    def dimension(self, r):
        self.r = min(int(r), self.full.shape[1])

    def adopt(self, basis):
        """The vectors are unique up to their signs: take those of the basis. Returns a complaint or None."""
        if self.c["t"] == "bmulti":
            for m, b in zip(self.members, basis.bases):
                if (d := m.adopt(b)):
                    return d
            return None
        if self.c["t"] == "linear":
            return None
        r = self.r
        E = np.asarray(basis.entries)
        if E.shape != (self.n, r):
            return f"entries of shape {E.shape} instead of {(self.n, r)} ({self.crit})"
        tol = 1e-5 if self.solver == "method-of-snapshots" else 1e-7
        W = np.eye(self.n) if self.W is None else self.W
        signs = np.sign((self.full[:, :r] * (W @ E)).sum(axis=0))
        if not np.allclose(self.full[:, :r] * signs, E, rtol=tol, atol=tol):
            return f"entries are not the leading {r} singular vectors (off by {np.abs(self.full[:, :r] * signs - E).max():.1e})"
        if not np.allclose(E.T @ W @ E, np.eye(r), atol=tol):
            return "basis is not orthonormal"
        if basis.rightvecs is not None:
            R = np.asarray(basis.rightvecs)
            if R.shape != self.right.shape or not np.allclose(self.right[:, :r] * signs, R[:, :r], rtol=tol, atol=tol):
                return "right singular vectors do not belong to the left ones"
        self.V = E
        return None

    def compress(self, X):
        if self.c["t"] == "bmulti":
            return np.concatenate([m.compress(x) for m, x in zip(self.members, np.split(X, np.cumsum(self.c["sizes"])[:-1]))])
        return self.V.T @ (X if self.W is None else self.W @ X)

    def rs(self):
        return [m.V.shape[1] for m in self.members]

    def dim(self):
        return sum(self.rs()) if self.members else self.V.shape[1]

    def decompress(self, Y, locs=None):
        if self.c["t"] == "bmulti":
            return np.concatenate([m.decompress(y, locs) for m, y in zip(self.members, np.split(Y, np.cumsum(self.rs())[:-1]))])
        return (self.V if locs is None else self.V[locs]) @ Y
