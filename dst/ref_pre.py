"""Independent reference of the transformers: every one is an affine map of rows."""

import numpy as np

from .zoo import arr


def col(v, X):
    return v if np.ndim(v) == 0 or X.ndim == 1 else np.asarray(v).reshape(-1, 1)


class Unknown(Exception):
    """The reference was not fitted."""


class RefT:
    """Y = (X - mean) * a + b, row by row; containers compose or stack."""

    def __init__(self, c):
        self.c = c
        self.n = None
        self.members = [RefT(m) for m in c.get("members", ())]
        self.mean, self.a, self.b = 0.0, 1.0, 0.0
        self.trained = c["t"] not in ("shiftscale", "null", "scale", "own") and all(m.trained for m in self.members)
        if c["t"] == "shift":
            self.n, self.mean = c["n"], arr(c["seed"], c["n"])
        elif c["t"] == "scale":
            s = 0.5 + np.abs(arr(c["seed"], c["n"]))
            self.a = s if c["byrow"] else float(s[0])
            self.trained = c["byrow"]
        elif c["t"] == "tmulti":
            self.cuts = np.cumsum(c["sizes"])[:-1]

    def fit(self, X):
        c = self.c
        t = c["t"]
        self.trained, self.n = True, X.shape[0]
        if t == "pipeline":
            for m in self.members:
                X = m.fit(X)
            return X
        if t == "tmulti":
            return np.concatenate([m.fit(x) for m, x in zip(self.members, np.split(X, self.cuts))])
        if t == "own":
            self.a = 1 / np.abs(X).max(axis=1)
        if t == "shiftscale":
            mean, a, b = 0.0, 1.0, 0.0
            if c["centering"]:
                mean = X.sum(axis=1) / X.shape[1]
            Y = X - col(mean, X)
            if (s := c["scaling"]) is not None:
                rows = list(Y) if c["byrow"] else [Y.ravel()]
                ab = [self.scaling(s, v, Y) for v in rows]
                a, b = (np.array(v) for v in zip(*ab)) if c["byrow"] else ab[0]
            self.mean, self.a, self.b = mean, a, b
        return self.forward(X)

    @staticmethod
    def scaling(s, v, Y):
        lo, hi, mu = v.min(), v.max(), v.sum() / v.size
        if s == "standard":
            a = 1 / np.sqrt(((v - mu) ** 2).sum() / v.size)
            return a, -mu * a
        if s == "minmax":
            return 1 / (hi - lo), -lo / (hi - lo)
        if s == "minmaxsym":
            return 2 / (hi - lo), -(hi + lo) / (hi - lo)
        if s == "maxabs":
            return 1 / np.abs(v).max(), 0.0
        if s == "maxabssym":
            a = 1 / np.abs(v - mu).max()
            return a, -mu * a
        if s == "maxnorm":
            return 1 / np.sqrt((Y**2).sum(axis=0).max()), 0.0
        a = 1 / np.sqrt(((Y - mu) ** 2).sum(axis=0).max())
        return a, -mu * a

    def forward(self, X):
        if self.c["t"] == "pipeline":
            for m in self.members:
                X = m.forward(X)
            return X
        if self.c["t"] == "tmulti":
            return np.concatenate([m.forward(x) for m, x in zip(self.members, np.split(X, self.cuts))])
        return (X - col(self.mean, X)) * col(self.a, X) + col(self.b, X)

    def derivative(self, Z):
        if self.c["t"] == "pipeline":
            for m in self.members:
                Z = m.derivative(Z)
                if Z is NotImplemented:
                    break
            return Z
        if self.c["t"] == "tmulti":
            parts = [m.derivative(z) for m, z in zip(self.members, np.split(Z, self.cuts))]
            return NotImplemented if any(z is NotImplemented for z in parts) else np.concatenate(parts)
        if not self.c.get("ddts", True):
            return NotImplemented
        return Z * col(self.a, Z)

    def backward(self, Y, locs=None):
        if self.c["t"] == "pipeline":
            for m in reversed(self.members):
                Y = m.backward(Y, locs)
            return Y
        if self.c["t"] == "tmulti":
            cuts = self.cuts if locs is None else len(self.members)
            return np.concatenate([m.backward(y, locs) for m, y in zip(self.members, np.split(Y, cuts))])

        def at(v):
            return v if locs is None or np.ndim(v) == 0 else v[locs]

        return (Y - col(at(self.b), Y)) / col(at(self.a), Y) + col(at(self.mean), Y)
