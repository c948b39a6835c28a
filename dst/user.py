"""Classes a user might derive from the package's templates, right and wrong ones."""

import numpy as np

import opinf

from .zoo import arr

DEFECTS = {
    "T": [None, "shape", "copy", "inverse", "locs", "ddts", "noddts", "raise"],
    "B": [None, "shape", "ndim", "project", "locs", "raise"],
    "S": [None, "shape", "copyclass", "copydata", "nosave", "lossy", "raise", "saveraise"],
    "L": [None, "columns", "inverse", "ddts", "noddts", "raise"],
    "D": [None, "two", "rows", "columns", "inputs", "raise"],
    "O": [None, "shape", "jacobian", "jacshape", "nojac", "galerkin", "galtype", "raise"],
}


def gen_user(r):
    f = r.pick("TBSLDO")
    return {"t": "user", "f": f, "defect": r.pick(DEFECTS[f]), "seed": r.seed32(), "n": r.int(3, 7), "at": r.int(0, 6), "inputs": r.flag(0.4)}


class Own:
    """Counts the calls of its methods; one of them may raise."""

    calls = 0  # of the class, not part of the object's state

    def _init(self, c):
        self.c = c
        self.weights = 0.5 + np.abs(arr(c["seed"], c["n"]))
        self.notes = ["user", dict(defect=c["defect"])]

    def _tick(self):
        Own.calls += 1
        if self.c["defect"] == "raise" and Own.calls > self.c["at"]:
            raise RuntimeError("simulated failure of a user class")

    def _is(self, *names):
        return self.c["defect"] in names

    def own(self):
        return {"weights": self.weights, "notes": self.notes, "c": str(self.c), "keys": sorted(k for k in vars(self) if k in ("c", "weights", "notes", "V"))}


class UserTransformer(Own, opinf.pre.TransformerTemplate):
    def __init__(self, c):
        opinf.pre.TransformerTemplate.__init__(self, name="user")
        self._init(c)
        self.state_dimension = c["n"]

    def fit(self, states):
        return self

    def fit_transform(self, states, inplace=False):
        return self.transform(states, inplace)

    def transform(self, states, inplace=False):
        self._tick()
        if self._is("shape"):
            return states[:-1]
        if self._is("copy"):
            return states
        out = states if inplace else states.copy()
        out *= self.weights[:, None] if states.ndim == 2 else self.weights
        return out

    def inverse_transform(self, states_transformed, inplace=False, locs=None):
        self._tick()
        out = states_transformed if inplace else states_transformed.copy()
        w = self.weights if locs is None or self._is("locs") else self.weights[locs]
        if self._is("locs") and locs is not None:
            w = w[: len(locs)] + 1
        out /= w[:, None] if out.ndim == 2 else w
        return out + 1 if self._is("inverse") else out

    def transform_ddts(self, ddts, inplace=False):
        self._tick()
        if self._is("noddts"):
            return NotImplemented
        out = ddts if inplace else ddts.copy()
        out *= self.weights[:, None] * (2 if self._is("ddts") else 1)
        return out

    def save(self, savefile, overwrite=False):
        raise NotImplementedError

    @classmethod
    def load(cls, loadfile):
        raise NotImplementedError


class UserBasis(Own, opinf.basis.BasisTemplate):
    def __init__(self, c):
        opinf.basis.BasisTemplate.__init__(self, name="user")
        self._init(c)
        self.V = np.linalg.qr(arr(c["seed"], c["n"], 2))[0]
        self.full_state_dimension = c["n"]
        self.reduced_state_dimension = 2

    def fit(self, states):
        return self

    def compress(self, states):
        self._tick()
        out = self.V.T @ states
        if self._is("shape") and out.ndim == 2:
            return out[:, :-1]
        return out.reshape(-1, 1) if self._is("ndim") and out.ndim == 1 else out

    def decompress(self, states_compressed, locs=None):
        self._tick()
        V = self.V if locs is None else self.V[locs]
        out = (2 if self._is("project") else 1) * (V @ states_compressed)
        return out + 1 if self._is("locs") and locs is not None else out

    def save(self, savefile, overwrite=False):
        raise NotImplementedError

    @classmethod
    def load(cls, loadfile):
        raise NotImplementedError


class UserSolver(Own, opinf.lstsq.SolverTemplate):
    def __init__(self, c):
        opinf.lstsq.SolverTemplate.__init__(self)
        self._init(c)

    def solve(self):
        self._tick()
        out = np.linalg.lstsq(self.data_matrix, self.lhs_matrix.T, rcond=None)[0].T
        return out[:-1] if self._is("shape") else out

    def save(self, savefile, overwrite=False):
        self._tick()
        if self._is("nosave"):
            raise NotImplementedError
        with opinf.utils.hdf5_savehandle(savefile, overwrite) as hf:
            hf.create_dataset("D", data=self.data_matrix)
            if self._is("saveraise"):
                raise OSError("simulated failure of a user class")
            hf.create_dataset("Z", data=self.lhs_matrix * (2 if self._is("lossy") else 1))

    @classmethod
    def load(cls, loadfile):
        c = {"defect": None, "seed": 1, "n": 3, "at": 99}
        new = cls(c)
        with opinf.utils.hdf5_loadhandle(loadfile) as hf:
            new.fit(hf["D"][:], hf["Z"][:])
        return new

    def copy(self):
        new = opinf.lstsq.PlainSolver() if self._is("copyclass") else UserSolver(self.c)
        if self.data_matrix is not None:
            new.fit(self.data_matrix[:-1] if self._is("copydata") else self.data_matrix,
                    self.lhs_matrix[:, :-1] if self._is("copydata") else self.lhs_matrix)
        return new


class UserLifter(Own, opinf.lift.LifterTemplate):
    def __init__(self, c):
        self._init(c)

    def lift(self, states):
        self._tick()
        out = np.concatenate((states, states**2))
        return out[:, :-1] if self._is("columns") else out

    def unlift(self, lifted_states):
        self._tick()
        out = lifted_states[: lifted_states.shape[0] // 2]
        return out + 1 if self._is("inverse") else out

    def lift_ddts(self, states, ddts):
        self._tick()
        if self._is("noddts"):
            return NotImplemented
        return np.concatenate((ddts, (3 if self._is("ddts") else 2) * states * ddts))


class UserDdt(Own, opinf.ddt.DerivativeEstimatorTemplate):
    def __init__(self, c):
        opinf.ddt.DerivativeEstimatorTemplate.__init__(self, np.linspace(0, 1, 12))
        self._init(c)

    def mask(self, arr):
        return arr

    def estimate(self, states, inputs=None):
        self._tick()
        if self._is("two"):
            return states
        d = np.gradient(states, self.time_domain, axis=1)
        if self._is("rows"):
            d = d[:-1]
        if self._is("columns"):
            d = d[:, :-1]
        if inputs is None:
            return states, d
        return states, d, (inputs[:, 1:] if self._is("inputs") else inputs)


class UserOperator(Own, opinf.operators.OperatorTemplate):
    def __init__(self, c):
        self._init(c)
        n = c["n"]
        self.V = arr(c["seed"], n, n)

    @property
    def state_dimension(self):
        return self.c["n"]

    def apply(self, state, input_=None):
        self._tick()
        out = self.V @ state
        return out[:-1] if self._is("shape") else out

    def jacobian(self, state, input_=None):
        self._tick()
        if self._is("nojac"):
            raise NotImplementedError
        if self._is("jacshape"):
            return self.V[:, :-1]
        return 2 * self.V if self._is("jacobian") else self.V

    def galerkin(self, Vr, Wr=None):
        self._tick()
        W = Vr if Wr is None else Wr
        new = UserOperator(dict(self.c, n=Vr.shape[1]))
        new.V = np.linalg.solve(W.T @ Vr, W.T @ self.V @ Vr) * (2 if self._is("galerkin") else 1)
        return 3 if self._is("galtype") else new

    def copy(self):
        return UserOperator(self.c)


KINDS = {"T": UserTransformer, "B": UserBasis, "S": UserSolver, "L": UserLifter, "D": UserDdt, "O": UserOperator}


def build_user(c):
    obj = KINDS[c["f"]](c)
    if c["f"] == "S":
        obj.fit(arr((c["seed"], 1), 12, 3), arr((c["seed"], 2), 2, 12))
    Own.calls = 0
    return obj


def probe_user(obj, c):
    """State of a user object, without calling the methods that count."""
    out = obj.own()
    for a in ("state_dimension", "full_state_dimension", "reduced_state_dimension", "name", "time_domain", "data_matrix", "lhs_matrix", "k", "d", "r", "V"):
        if hasattr(obj, a):
            out[a] = getattr(obj, a)
    from .values import snap

    return snap(out)
