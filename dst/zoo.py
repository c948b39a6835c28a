"""What the simulator works on: recipes (JSON) for every kind of object of the
library, training data, settings, and a battery of queries.

A recipe is a dictionary with the kind under "t". Everything is a pure function
of the recipe and of integer data seeds, so that a run can be replayed.
"""

import re
import warnings

import numpy as np
import scipy.interpolate
import scipy.sparse as sparse

import opinf

from .rng import Rng
from .values import outcome, snap

warnings.simplefilter("ignore")


def arr(seed, *shape):
    return np.random.default_rng(seed).standard_normal(shape)


def text(obj):
    """String form, without addresses and without the difference between 1.0 and np.float64(1.0)."""
    return re.sub(r" at 0x[0-9a-f]+", "", re.sub(r"np\.(float64|int64)\(([^()]*)\)", r"\2", str(obj)))


# Transformers ================================================================
SCALINGS = (
    "standard", "minmax", "minmaxsym", "maxabs", "maxabssym", "maxnorm", "maxnormsym",
)
NAMES = [
    None, None, None, "q", "pressure", "two words", "ψ-variable", "a/b", "None?", "0", "variable 1",
]
TRANSFORMERS = ("shift", "scale", "shiftscale", "null", "pipeline", "tmulti")


def gen_transformer(r, n, depth=2, kind=None, nested=False):
    pairs = [("shiftscale", 6), ("shift", 1.5), ("scale", 1.5), ("null", 0.7)]
    if nested:
        pairs.append(("own", 0.9))
    if depth > 0:
        pairs += [("pipeline", 2.5), ("tmulti", 2.5)]
    t = kind or r.weighted(pairs)
    c = {"t": t, "n": n, "name": r.pick(NAMES)}
    if t == "shift":
        c["seed"] = r.seed32()
    elif t == "scale":
        c["seed"] = r.seed32()
        c["byrow"] = r.flag()
    elif t == "shiftscale":
        c["centering"] = r.flag(0.6)
        c["scaling"] = r.pick(SCALINGS + (None, "minmax", "standard"))
        c["byrow"] = (
            c["scaling"] is not None
            and not c["scaling"].startswith("maxnorm")
            and r.flag(0.45)
        )
        c["verbose"] = r.flag(0.15)
    elif t == "own":
        c["ddts"] = r.flag(0.8)
    elif t == "pipeline":
        m = r.weighted([(2, 5), (3, 3), (1, 1), (11, 0.7)])
        c["members"] = [
            gen_transformer(r, n, depth - 1 if m < 5 else 0, nested=True) for _ in range(m)
        ]
    elif t == "tmulti":
        m = r.weighted([(2, 5), (3, 3), (1, 1), (4, 1), (11, 0.7)])
        m = max(1, min(m, n))
        if n % m == 0 and r.flag(0.6):
            sizes = [n // m] * m
        else:
            sizes = _partition(r, n, m)
        c["sizes"] = sizes
        c["give_sizes"] = len(set(sizes)) > 1 or r.flag(0.5)
        c["members"] = []
        names = set()
        for s in sizes:
            d = gen_transformer(
                r, s, 0 if m > 4 or r.flag(0.7) else depth - 1, nested=True,
            )
            while d["t"] == "tmulti" or (
                d["t"] == "pipeline" and (c["give_sizes"] or not _known_dim(d))
            ):
                d = gen_transformer(r, s, 0, nested=True)
            while d["name"] is not None and d["name"] in names:
                d["name"] += "x"
            if d["name"] == "variable 1":
                d["name"] = "var"
            names.add(d["name"])
            c["members"].append(d)
        del c["name"]
    return c


def _partition(r, n, m):
    cuts = sorted(r.sample(range(1, n), m - 1)) if m > 1 else []
    ends = cuts + [n]
    return [b - a for a, b in zip([0] + cuts, ends)]


def build_transformer(c):
    t = c["t"]
    if t == "shift":
        return opinf.pre.ShiftTransformer(arr(c["seed"], c["n"]), name=c["name"])
    if t == "scale":
        s = 0.5 + np.abs(arr(c["seed"], c["n"]))
        return opinf.pre.ScaleTransformer(s if c["byrow"] else float(s[0]), name=c["name"])
    if t == "shiftscale":
        return opinf.pre.ShiftScaleTransformer(
            centering=c["centering"], scaling=c["scaling"], byrow=c["byrow"],
            name=c["name"], verbose=c["verbose"],
        )
    if t == "null":
        return opinf.pre.NullTransformer(name=c["name"])
    if t == "own":
        return (OwnTransformer if c["ddts"] else OwnStatic)(name=c["name"])
    if t == "pipeline":
        return opinf.pre.TransformerPipeline(
            [build_transformer(m) for m in c["members"]], name=c["name"]
        )
    if t == "tmulti":
        return opinf.pre.TransformerMulti(
            [build_transformer(m) for m in c["members"]],
            variable_sizes=tuple(c["sizes"]) if c["give_sizes"] else None,
        )
    raise KeyError(t)


class OwnStatic(opinf.pre.TransformerTemplate):
    """A transformer of the user, which scales rows by what they reach; it does not say how derivatives change."""

    reach = None

    def fit_transform(self, states, inplace=False):
        self.state_dimension = states.shape[0]
        self.reach = np.abs(states).max(axis=1)
        return self.transform(states, inplace)

    def transform(self, states, inplace=False):
        if self.reach is None:
            raise AttributeError("transformer not trained")
        if states.shape[0] != self.state_dimension:
            raise opinf.errors.DimensionalityError("wrong dimension")
        return self._times(1 / self.reach, states, inplace)

    def inverse_transform(self, states_transformed, inplace=False, locs=None):
        if self.reach is None:
            raise AttributeError("transformer not trained")
        w = self.reach if locs is None else self.reach[locs]
        if states_transformed.shape[0] != w.size:
            raise opinf.errors.DimensionalityError("wrong dimension")
        return self._times(w, states_transformed, inplace)

    @staticmethod
    def _times(w, states, inplace):
        out = states if inplace else states.copy()
        out *= w if out.ndim == 1 else w[:, None]
        return out

    def save(self, savefile, overwrite=False):
        with opinf.utils.hdf5_savehandle(savefile, overwrite) as hf:
            hf.create_dataset("reach", data=[] if self.reach is None else self.reach)
            hf.attrs["name"] = str(self.name)
            if self.state_dimension is not None:
                hf.attrs["n"] = self.state_dimension

    @classmethod
    def load(cls, loadfile):
        with opinf.utils.hdf5_loadhandle(loadfile) as hf:
            out = cls(name=None if hf.attrs["name"] == "None" else hf.attrs["name"])
            reach = hf["reach"][:]
            if "n" in hf.attrs:
                out.state_dimension = int(hf.attrs["n"])
            out.reach = reach if reach.size else None
        return out


class OwnTransformer(OwnStatic):
    def transform_ddts(self, ddts, inplace=False):
        return self.transform(ddts, inplace)


CLASSES = {
    "own": None,
    "shift": opinf.pre.ShiftTransformer,
    "scale": opinf.pre.ScaleTransformer,
    "shiftscale": opinf.pre.ShiftScaleTransformer,
    "null": opinf.pre.NullTransformer,
    "pipeline": opinf.pre.TransformerPipeline,
    "tmulti": opinf.pre.TransformerMulti,
    "linear": opinf.basis.LinearBasis,
    "pod": opinf.basis.PODBasis,
    "bmulti": opinf.basis.BasisMulti,
    "plain": opinf.lstsq.PlainSolver,
    "l2": opinf.lstsq.L2Solver,
    "l2dec": opinf.lstsq.L2DecoupledSolver,
    "tik": opinf.lstsq.TikhonovSolver,
    "tikdec": opinf.lstsq.TikhonovDecoupledSolver,
    "tls": opinf.lstsq.TotalLeastSquaresSolver,
    "tsvd": opinf.lstsq.TruncatedSVDSolver,
}


class _Loader:
    """A class whose load() already knows the classes of its members."""

    def __init__(self, c):
        self.c = c

    def load(self, source):
        return load(self.c, source)


def _known_dim(c):
    """Does an untrained transformer know its state dimension?"""
    if c["t"] == "pipeline":
        return any(_known_dim(m) for m in c["members"])
    if c["t"] == "tmulti":
        return c["give_sizes"] or all(_known_dim(m) for m in c["members"])
    return c["t"] == "shift" or (c["t"] == "scale" and c["byrow"])


def _flexible(c):
    """Can a trained transformer be fitted again to another dimension?"""
    if c["t"] in ("shiftscale", "null", "own"):
        return True
    if c["t"] == "scale":
        return not c["byrow"]
    if c["t"] == "pipeline":
        return all(_flexible(m) for m in c["members"])
    return False


def probe_transformer(obj, c, seed, n=None):
    n = n or c["n"]
    X, x = arr((seed, 1), n, 3), arr((seed, 2), n)
    out = {
        "str": outcome(text, obj),
        "repr_cls": type(obj).__name__,
        "state_dimension": outcome(lambda: obj.state_dimension),
        "transform": outcome(lambda: obj.transform(X.copy())),
        "transform1": outcome(lambda: obj.transform(x.copy())),
        "inverse": outcome(lambda: obj.inverse_transform(X.copy())),
        "inverse1": outcome(lambda: obj.inverse_transform(x.copy())),
        "ddts": outcome(lambda: obj.transform_ddts(X.copy(), inplace=False)),
        "eq_self": outcome(lambda: bool(obj == obj)),
    }
    if c["t"] == "tmulti":
        sizes = set(c["sizes"])
        nv = len(c["members"])
        locs = np.array([0]) if len(sizes) > 1 or n // nv < 3 else np.array([0, 2])
        Y = arr((seed, 3), nv * len(locs), 3)
        out["variable_names"] = outcome(lambda: list(obj.variable_names))
        out["variable_sizes"] = outcome(lambda: list(obj.variable_sizes))
        out["split"] = outcome(lambda: obj.split(X))
        out["get_var"] = outcome(lambda: [obj.get_var(i, X) for i in range(nv)])
        out["members"] = [
            probe_transformer(tf, m, seed, None)
            for tf, m in zip(obj.transformers, c["members"])
        ] if nv <= 4 else outcome(lambda: [str(tf) for tf in obj.transformers])
    else:
        locs = np.array([0, n - 1]) if n > 1 else np.array([0])
        Y = arr((seed, 3), len(locs), 3)
        out["name"] = outcome(lambda: obj.name)
    out["inverse_locs"] = outcome(lambda: obj.inverse_transform(Y.copy(), locs=locs))
    if c["t"] == "shiftscale":
        for a in ("mean_", "scale_", "shift_", "centering", "scaling", "byrow", "verbose"):
            out[a] = outcome(lambda: getattr(obj, a))
    elif c["t"] == "shift":
        out["reference"] = outcome(lambda: obj.reference)
    elif c["t"] == "scale":
        out["scaler"] = outcome(lambda: obj.scaler)
        out["byrow"] = outcome(lambda: obj.byrow)
    return out


# Bases =======================================================================
def gen_criterion(r, n):
    t = r.weighted([
        ("num_vectors", 5), ("svdval_threshold", 1.5), ("cumulative_energy", 1.5),
        ("residual_energy", 1.5), ("projection_error", 1.5),
    ])
    if t == "num_vectors":
        return [t, r.int(1, max(1, min(n - 1, 5)))]
    if t == "svdval_threshold":
        return [t, r.pick([0.9, 0.5, 0.2, 0.05])]
    if t == "cumulative_energy":
        return [t, r.pick([0.3, 0.7, 0.9, 0.99])]
    if t == "residual_energy":
        return [t, r.pick([0.5, 0.2, 0.05])]
    return [t, r.pick([0.7, 0.4, 0.2])]


def gen_basis(r, n, depth=1, kind=None):
    pairs = [("pod", 6), ("linear", 2.5)]
    if depth > 0 and n >= 4:
        pairs.append(("bmulti", 3))
    t = kind or r.weighted(pairs)
    c = {"t": t, "n": n, "name": r.pick(NAMES)}
    if t == "linear":
        c["seed"] = r.seed32()
        c["r"] = r.int(1, max(1, min(n, 4)))
        c["weights"] = r.weighted([(None, 4), ("vec", 1), ("mat", 1), ("sparse", 1), ("tridiag", 0.5), ("dia", 0.5)])
        c["orth"] = r.flag(0.7)
    elif t == "pod":
        c["crit"] = gen_criterion(r, n)
        c["max_vectors"] = r.pick([None, None, None, 4, 7])
        c["svdsolver"] = r.weighted([("dense", 6), ("method-of-snapshots", 2), ("randomized", 1)])
        c["weights"] = r.weighted([(None, 6), ("vec", 2), ("mat", 1), ("sparse", 0.7)])
        c["seed"] = r.seed32()
    else:
        m = r.weighted([(2, 5), (3, 2), (1, 0.7), (11, 0.5)])
        m = max(1, min(m, n // 2))
        if n % m == 0 and r.flag(0.6):
            sizes = [n // m] * m
        else:
            sizes = _partition(r, n, m)
        c["sizes"] = sizes
        c["give_sizes"] = len(set(sizes)) > 1 or r.flag(0.5)
        c["members"] = []
        names = set()
        for s in sizes:
            d = gen_basis(r, s, 0)
            while d["name"] is not None and d["name"] in names:
                d["name"] += "x"
            if d["name"] == "variable 1":
                d["name"] = "var"
            names.add(d["name"])
            c["members"].append(d)
        del c["name"]
    return c


def make_weights(kind, seed, n):
    if kind is None:
        return None
    w = 0.5 + np.abs(arr((seed, 7), n))
    kind, _, other = kind.partition("+")
    if other:  # one weight is different
        w[int(other) % n] *= 2.5
    if kind == "vec":
        return w
    if kind == "sparse":
        return sparse.diags_array(w).tocsr() if False else sparse.csr_array(np.diag(w))
    if kind == "dia":
        return sparse.diags_array([w + 2, np.full(n - 1, 0.5), np.full(n - 1, 0.5)], offsets=[0, 1, -1]) if n > 1 else sparse.dia_array(np.diag(w))
    if kind == "tridiag":
        return sparse.csc_array(
            np.diag(w + 2) + np.diag(np.full(n - 1, 0.5), 1) + np.diag(np.full(n - 1, 0.5), -1)
        ) if n > 1 else sparse.csc_array(np.diag(w))
    B = arr((seed, 8), n, n) * 0.2
    return B @ B.T + np.diag(w)


def build_basis(c):
    t = c["t"]
    if t == "linear":
        n, r = c["n"], c["r"]
        V = arr(c["seed"], n, r)
        W = make_weights(c["weights"], c["seed"], n)
        if c["orth"]:
            V = np.linalg.qr(V)[0]
            if W is not None:
                Wd = W.toarray() if sparse.issparse(W) else (np.diag(W) if W.ndim == 1 else W)
                L = np.linalg.cholesky(V.T @ Wd @ V)
                V = np.linalg.solve(L, V.T).T
        return opinf.basis.LinearBasis(V, weights=W, check_orthogonality=c["orth"], name=c["name"])
    if t == "pod":
        opts = {}
        if c["svdsolver"] == "randomized":
            opts["random_state"] = c["seed"] % 1000
        return opinf.basis.PODBasis(
            **{c["crit"][0]: c["crit"][1]}, max_vectors=c["max_vectors"],
            svdsolver=c["svdsolver"], weights=make_weights(c["weights"], c["seed"], c["n"]),
            name=c["name"], **opts,
        )
    if t == "bmulti":
        return opinf.basis.BasisMulti(
            [build_basis(m) for m in c["members"]],
            full_variable_sizes=tuple(c["sizes"]) if c["give_sizes"] else None,
        )
    raise KeyError(t)


def _pod_in(c):
    return c["t"] == "pod" or any(_pod_in(m) for m in c.get("members", ()))


def probe_basis(obj, c, seed, n=None):
    n = n or c["n"]
    X, x = arr((seed, 1), n, 3), arr((seed, 2), n)
    rr = obj.reduced_state_dimension
    rr = rr if isinstance(rr, (int, np.integer)) else 2
    Y, y = arr((seed, 3), rr, 3), arr((seed, 4), rr)
    out = {
        "repr_cls": type(obj).__name__,
        "full": outcome(lambda: obj.full_state_dimension),
        "reduced": outcome(lambda: obj.reduced_state_dimension),
        "shape": outcome(lambda: list(obj.shape)),
        "compress": outcome(lambda: obj.compress(X.copy())),
        "compress1": outcome(lambda: obj.compress(x.copy())),
        "decompress": outcome(lambda: obj.decompress(Y.copy())),
        "decompress1": outcome(lambda: obj.decompress(y.copy())),
        "project": outcome(lambda: obj.project(X.copy())),
        "perr": outcome(lambda: obj.projection_error(X.copy())),
        "perr_abs": outcome(lambda: obj.projection_error(X.copy(), relative=False)),
    }
    if c["t"] == "bmulti":
        nv = len(c["members"])
        locs = np.array([0])
        out["variable_names"] = outcome(lambda: list(obj.variable_names))
        out["full_sizes"] = outcome(lambda: list(obj.full_variable_sizes))
        out["reduced_sizes"] = outcome(lambda: list(obj.reduced_variable_sizes))
        out["split"] = outcome(lambda: obj.split(X))
        if nv <= 4:
            out["members"] = [
                probe_basis(b, m, seed, None) for b, m in zip(obj.bases, c["members"])
            ]
    else:
        locs = np.array([0, n - 1]) if n > 1 else np.array([0])
        out["name"] = outcome(lambda: obj.name)
        out["entries"] = outcome(lambda: obj.entries)
        out["weights"] = outcome(lambda: _dense_weights(obj.weights))
    out["decompress_locs"] = outcome(lambda: obj.decompress(Y.copy(), locs=locs))
    if c["t"] == "pod":
        for a in ("svdvals", "leftvecs", "rightvecs", "max_vectors", "cumulative_energy", "residual_energy"):
            out[a] = outcome(lambda: getattr(obj, a))
    if not _pod_in(c):
        out["str"] = outcome(text, obj)
    return out


def _dense_weights(w):
    if w is None:
        return None
    if sparse.issparse(w):
        return w.toarray()
    w = np.asarray(w)
    return np.diag(w) if w.ndim == 1 else w


# Solvers =====================================================================
SOLVERS = ("plain", "l2", "l2dec", "tik", "tikdec", "tls", "tsvd")


def gen_reg(r, kind, form=None):
    """Regularizer recipe."""
    if kind == "l2":
        return r.pick([0, 1e-6, 1e-2, 0.3, 2.0])
    if kind == "l2dec":
        return {"seed": r.seed32(), "scale": r.pick([1e-4, 1e-2, 1.0])}
    if kind == "tik":
        return {"seed": r.seed32(), "form": form or r.pick(["diag", "diag", "full", "sparse"]), "scale": r.pick([1e-3, 1e-1, 1.0])}
    if kind == "tikdec":
        return {"seed": r.seed32(), "form": form or r.pick(["diag", "diag", "full", "sparse"]), "scale": r.pick([1e-3, 1e-1, 1.0])}
    return None


def make_reg(kind, reg, d, nr):
    """Regularizer value for a problem with d unknowns and nr right-hand sides."""
    if reg is None:
        return None
    if kind == "l2":
        return reg
    if kind == "l2dec":
        return reg["scale"] * (0.1 + np.abs(arr(reg["seed"], nr)))
    if kind == "tik":
        return _one_reg(reg["form"], reg["scale"], reg["seed"], d)
    if kind == "tikdec":
        return [_one_reg(reg["form"], reg["scale"], (reg["seed"], i), d) for i in range(nr)]
    raise KeyError(kind)


def _one_reg(form, scale, seed, d):
    v = scale * (0.1 + np.abs(arr(seed, d)))
    if form == "diag":
        return v
    if form == "sparse":
        return sparse.csr_array(np.diag(v))
    return np.diag(v) + 0.1 * scale * arr((9, d), d, d)


def gen_solver(r, kind=None, d=None, nr=None):
    t = kind or r.pick(SOLVERS)
    c = {"t": t, "d": d or r.int(1, 6), "r": nr or r.int(1, 4)}
    if t in ("l2", "l2dec"):
        c["reg"] = gen_reg(r, t) if r.flag(0.85) else None
        c["driver"] = r.pick(["gesdd", "gesdd", "gesvd"])
    elif t in ("tik", "tikdec"):
        c["reg"] = gen_reg(r, t) if r.flag(0.85) else None
        c["method"] = r.pick(["lstsq", "normal"])
        c["cond"] = r.pick([None, None, 1e-12])
        c["driver"] = r.pick([None, "gelsd", "gelsy"])
    elif t == "plain":
        c["cond"] = r.pick([None, None, 1e-12, 1e-1])
        c["driver"] = r.pick([None, "gelsd", "gelsy"])
    elif t == "tls":
        c["driver"] = r.pick(["gesdd", "gesvd"])
    elif t == "tsvd":
        c["modes"] = r.pick([None, 1, 2, 3, 5, -1, 0])
        c["driver"] = r.pick(["gesdd", "gesvd"])
    return c


def build_solver(c):
    t, cls = c["t"], CLASSES[c["t"]]
    if t in ("l2", "l2dec"):
        return cls(regularizer=make_reg(t, c["reg"], c["d"], c["r"]), lapack_driver=c["driver"])
    if t in ("tik", "tikdec"):
        return cls(
            regularizer=make_reg(t, c["reg"], c["d"], c["r"]), method=c["method"],
            cond=c["cond"], lapack_driver=c["driver"],
        )
    if t == "plain":
        return cls(cond=c["cond"], lapack_driver=c["driver"])
    if t == "tls":
        return cls(lapack_driver=c["driver"])
    return cls(c["modes"], lapack_driver=c["driver"])


def solver_data(c, seed, k=None, d=None, nr=None, rank=None):
    d, nr = d or c["d"], nr or c["r"]
    k = k or (d + nr + 6)
    D = arr((seed, 1), k, d)
    if rank is not None and rank < d:
        D = arr((seed, 3), k, rank) @ arr((seed, 4), rank, d)
    Z = (D @ arr((seed, 5), d, nr)).T + 0.1 * arr((seed, 2), nr, k)
    return D, Z


def probe_solver(obj, c, seed, d=None, nr=None):
    d = d or (obj.d if obj.d else c["d"])
    nr = nr or (obj.r if obj.r else c["r"])
    O = arr((seed, 1), nr, d)
    out = {
        "str": outcome(text, obj),
        "repr_cls": type(obj).__name__,
        "kdr": outcome(lambda: [obj.k, obj.d, obj.r]),
        "D": outcome(lambda: obj.data_matrix),
        "Z": outcome(lambda: obj.lhs_matrix),
        "solve": outcome(lambda: obj.solve()),
        "cond": outcome(lambda: obj.cond()),
        "residual": outcome(lambda: obj.residual(O)),
        "options": outcome(lambda: dict(obj.options)),
    }
    t = c["t"]
    if t in ("l2", "l2dec", "tik", "tikdec"):
        out["regularizer"] = outcome(lambda: obj.regularizer)
        out["regcond"] = outcome(lambda: obj.regcond())
        out["regresidual"] = outcome(lambda: obj.regresidual(O))
        out["posterior"] = outcome(lambda: list(obj.posterior()))
        if t in ("tik", "tikdec"):
            out["method"] = outcome(lambda: obj.method)
    elif t == "tls":
        out["augcond"] = outcome(lambda: obj.augcond)
        out["error"] = outcome(lambda: obj.error)
    elif t == "tsvd":
        out["modes"] = outcome(lambda: obj.num_svdmodes)
        out["max_modes"] = outcome(lambda: obj.max_modes)
        out["tcond"] = outcome(lambda: obj.tcond())
    return out


# Operators ===================================================================
OPS = {
    "c": opinf.operators.ConstantOperator,
    "A": opinf.operators.LinearOperator,
    "H": opinf.operators.QuadraticOperator,
    "G": opinf.operators.CubicOperator,
    "Q": opinf.operators.QuarticOperator,
    "B": opinf.operators.InputOperator,
    "N": opinf.operators.StateInputOperator,
}
AFFINE = {k: getattr(opinf.operators, f"Affine{v.__name__}") for k, v in OPS.items() if k != "Q"}
INTERP = {k: getattr(opinf.operators, f"Interp{v.__name__}") for k, v in OPS.items() if k != "Q"}


def opdim(k, r, m, order=None):
    if k == "c":
        return 1
    if k == "A":
        return r
    if k == "H":
        return r * (r + 1) // 2
    if k == "G":
        return r * (r + 1) * (r + 2) // 6
    if k == "Q":
        return r * (r + 1) * (r + 2) * (r + 3) // 24
    if k == "B":
        return m
    if k == "N":
        return r * m
    if k == "P":
        import math

        return 1 if order == 0 else math.comb(r + order - 1, order)
    raise KeyError(k)


def op_entries(k, r, m, seed, fmt="dense", order=None):
    d = opdim(k, r, m, order)
    E = 0.3 * arr(seed, r, d)
    if k in ("c",):
        E = E[:, 0]
    if fmt == "int":
        return np.round(4 * E).astype(np.int64)
    if fmt == "f32":
        return E.astype(np.float32)
    if fmt == "fortran":
        return np.asfortranarray(E)
    if fmt == "sparse" and E.ndim == 2:
        E = E * (np.abs(E) > 0.2)
        return sparse.csr_array(E)
    if fmt == "csc" and E.ndim == 2:
        return sparse.csc_array(E * (np.abs(E) > 0.2))
    return E


FORMATS = [("dense", 6), ("sparse", 1.2), ("csc", 0.7), ("int", 0.7), ("f32", 0.7), ("fortran", 0.7)]


TRIP = {"left": None}  # calls of user coefficient functions until one raises


def _trip(f):
    def g(mu):
        if TRIP["left"] is not None:
            TRIP["left"] -= 1
            if TRIP["left"] < 0:
                raise RuntimeError("simulated failure of a user function")
        return f(mu)

    return g


def coeff_functions(kind, nterms, p):
    """Affine coefficient functions (picklable by recipe)."""
    if kind == "int":
        return p  # theta_i(mu) = mu_i
    funs = [lambda mu: 1.0, lambda mu: np.sum(np.atleast_1d(mu)),
            lambda mu: np.cos(np.atleast_1d(mu)[0]), lambda mu: np.atleast_1d(mu)[-1] ** 2]
    funs = [_trip(f) for f in funs]
    if kind == "list":
        return [funs[i % 4] for i in range(nterms)]
    return lambda mu: np.array([float(funs[i % 4](mu)) for i in range(nterms)])


def gen_params(r, p, s, sort=True):
    seed = r.seed32()
    return {"seed": seed, "p": p, "s": s, "sort": sort}


def make_params(d):
    g = np.random.default_rng(d["seed"])
    if d["p"] == 1:
        x = np.linspace(0.5, 2.0, d["s"]) + 0.1 * g.random(d["s"]) * (1.5 / d["s"])
        if d.get("bump"):  # one parameter is different
            x[-1] += 0.1
        if not d["sort"]:
            x = g.permutation(x)
        return [float(v) for v in x]
    base = [[0.5, 0.5], [2.0, 0.5], [0.5, 2.0], [2.0, 2.0], [1.2, 1.3], [0.9, 1.7], [1.6, 0.8], [1.1, 0.6]]
    pts = np.array([base[i % 8] + [0.0] * (d["p"] - 2) for i in range(d["s"])])
    pts = pts + 0.05 * g.random(pts.shape)
    if d["p"] > 2:
        pts[:, 2:] = g.random((d["s"], d["p"] - 2))
    if d["seed"] % 3 == 0 and d["s"] > 3:  # parameters that agree in one component
        pts[3, 0], pts[2, 1] = pts[1, 0], pts[3, 1]
    if d.get("bump"):
        pts[-1, -1] += 0.1
    return [v for v in pts]


def query_param(p, seed):
    g = np.random.default_rng((seed, 77))
    if p == 1:
        return float(0.8 + g.random())
    return 1.0 + 0.2 * g.random(p)


class CustomInterpolator(scipy.interpolate.CubicSpline):
    """An interpolator that is not from scipy.interpolate."""


INTERPOLATORS = {
    None: None,
    "custom": CustomInterpolator,
    "cubic": scipy.interpolate.CubicSpline,
    "pchip": scipy.interpolate.PchipInterpolator,
    "akima": scipy.interpolate.Akima1DInterpolator,
    "linear": scipy.interpolate.LinearNDInterpolator,
    "nearest": scipy.interpolate.NearestNDInterpolator,
}


def gen_operator(r, rdim, mdim, kind=None, k=None, filled=None, plain=False):
    """Recipe of one operator; kind: "op", "aff", "int"."""
    t = kind or r.weighted([("op", 5), ("aff", 2), ("int", 2)])
    k = k or r.pick("cAHGBN" + ("QP" if t == "op" else ""))
    c = {"t": t, "k": k, "r": rdim, "m": mdim, "seed": r.seed32()}
    c["filled"] = r.flag(0.8) if filled is None else filled
    if t == "op":
        c["fmt"] = "dense" if plain else r.weighted(FORMATS)
        if k == "P":
            c["order"] = r.int(0, 5 if rdim <= 3 else 3)
            c["fmt"] = "dense"
        if k in ("G", "Q", "N", "H") and c["fmt"] in ("sparse", "csc") and (
            rdim == 1 or r.flag(0.3)
        ):
            c["fmt"] = "dense"
    elif t == "aff":
        c["p"] = r.pick([1, 2, 3])
        c["coeffs"] = r.pick(["int", "list", "callable"])
        c["nterms"] = c["p"] if c["coeffs"] == "int" else r.weighted([(1, 3), (2, 3), (3, 3)] + ([] if plain else [(11, 1.5)]))
        c["fmt"] = "dense" if plain else r.weighted([("dense", 6), ("sparse", 1)])
        if rdim == 1:
            c["fmt"] = "dense"
    else:
        c["p"] = r.pick([1, 1, 2])
        c["interp"] = r.pick([None, None, "cubic", "pchip", "akima", "custom"]) if c["p"] == 1 else r.pick([None, "linear", "nearest"])
        c["params"] = gen_params(r, c["p"], r.int(4, 6), sort=c["interp"] is not None or r.flag())
        c["fmt"] = "dense"
        c["setparams"] = r.flag(0.8)
    return c


def build_operator(c):
    k, r, m = c["k"], c["r"], c["m"]
    if c["t"] == "op":
        E = op_entries(k, r, m, c["seed"], c["fmt"], c.get("order")) if c["filled"] else None
        if k == "P":
            return opinf.operators.PolynomialOperator(c["order"], E)
        return OPS[k](E)
    if c["t"] == "aff":
        E = [op_entries(k, r, m, (c["seed"], i), c["fmt"]) for i in range(c["nterms"])] if c["filled"] else None
        return AFFINE[k](coeff_functions(c["coeffs"], c["nterms"], c["p"]), nterms=c["nterms"], entries=E)
    P = make_params(c["params"]) if c["params"] else None
    E = [op_entries(k, r, m, (c["seed"], i)) for i in range(len(P))] if c["filled"] else None
    if E is None and not c["setparams"]:
        P = None
    return INTERP[k](training_parameters=P, entries=E, InterpolatorClass=INTERPOLATORS[c["interp"]])


def probe_operator(obj, c, seed):
    r, m = c["r"], c["m"]
    if c["t"] == "aff":  # the first evaluation settles the parameter dimension
        outcome(lambda: obj.evaluate(query_param(c["p"], seed)))
    q, u = arr((seed, 1), r), arr((seed, 2), m)
    Q, U = arr((seed, 3), r, 4), arr((seed, 4), m, 4)
    out = {
        "repr_cls": type(obj).__name__,
        "str": outcome(text, obj),
        "entries": outcome(lambda: obj.entries),
        "shape": outcome(lambda: obj.shape),
        "state_dimension": outcome(lambda: obj.state_dimension),
    }
    if c["k"] in "BN":
        out["input_dimension"] = outcome(lambda: obj.input_dimension)
    if c["t"] == "op":
        out["apply1"] = outcome(lambda: obj.apply(q, u))
        out["apply"] = outcome(lambda: obj.apply(Q, U))
        out["jacobian"] = outcome(lambda: obj.jacobian(q, u))
        out["opdim"] = outcome(lambda: obj.operator_dimension(r, m))
        out["datablock"] = outcome(lambda: obj.datablock(Q, U))
        if c["k"] == "P":
            out["order"] = outcome(lambda: obj.polynomial_order)
    else:
        mu = query_param(c["p"], seed)
        out["param_dim"] = outcome(lambda: obj.parameter_dimension)
        out["evaluate"] = outcome(lambda: obj.evaluate(mu).entries)
        out["apply1"] = outcome(lambda: obj.apply(mu, q, u))
        out["jacobian"] = outcome(lambda: obj.jacobian(mu, q, u))
        if c["t"] == "aff":
            out["nterms"] = outcome(lambda: obj.nterms)
        else:
            out["training"] = outcome(lambda: obj.training_parameters)
    return out


# Models ======================================================================
def gen_model(r, family=None, rdim=None, mdim=None, known=None):
    """family: cont, disc, pcont, pdisc (affine), icont, idisc (interp)."""
    f = family or r.weighted([("cont", 3), ("disc", 3), ("pcont", 1.5), ("pdisc", 1.5), ("icont", 1.5), ("idisc", 1.5)])
    rd = rdim or r.int(1, 4)
    terms = ["A"] if r.flag(0.9) else ["H"]
    for k, p in (("c", 0.5), ("H", 0.4), ("G", 0.12), ("B", 0.4), ("N", 0.15)):
        if k not in terms and r.flag(p):
            terms.append(k)
    if rd == 1 and r.flag(0.1) and f in ("cont", "disc"):
        terms.append("Q")
    free = [p for p, k in enumerate("cAHGQ") if k not in terms] + [5]
    orders = [p for p in r.sample(free, r.pick([1, 1, 2])) if p < 4 or rd < 3] if f in ("cont", "disc") and r.flag(0.12) else []
    terms += ["P"] * len(orders)
    r.shuffle(terms)
    has_u = any(k in "BN" for k in terms)
    md = (mdim or r.int(1, 2)) if has_u else 0
    c = {"t": f, "r": rd, "m": md, "ops": []}
    p = r.pick([1, 2]) if f[0] in "pi" else 0
    c["p"] = p
    for k in terms:
        if f in ("cont", "disc"):
            filled = known if known is not None else r.flag(0.15)
            c["ops"].append(gen_operator(r, rd, md, "op", k, filled=filled, plain=r.flag(0.8)))
            if k == "P":
                c["ops"][-1]["order"] = orders.pop()
        elif f[0] == "p":
            kind = r.weighted([("aff", 6), ("op", 2.2), ("int", 1.8)])
            o = gen_operator(r, rd, md, kind, k, filled=r.flag(0.12), plain=True)
            if kind == "int":
                o["p"] = p
                o["interp"] = r.pick([None, None, "akima", "pchip", "cubic"]) if p == 1 else r.pick([None, "linear", "nearest"])
                if o["filled"]:  # evaluated also where other parameters are, which these interpolators can
                    o["interp"] = r.pick([None, "pchip", "cubic"]) if p == 1 else "nearest"
                o["setparams"] = o["filled"]
                o["params"] = gen_params(r, p, r.int(4, 6)) if o["filled"] else None
            if kind == "aff":
                o["p"] = p
                if o["coeffs"] == "int":
                    o["nterms"] = p
            c["ops"].append(o)
        else:
            o = gen_operator(r, rd, md, "int", k, filled=r.flag(0.12))
            o["p"] = p
            o["interp"] = None
            if o["filled"]:
                o["interp"] = r.pick([None, "pchip", "cubic"]) if p == 1 else "nearest"
            o["setparams"] = o["filled"]
            o["params"] = gen_params(r, p, r.int(4, 6)) if o["filled"] else None
            c["ops"].append(o)
    if f[0] == "p" and not any(o["t"] == "aff" for o in c["ops"]):
        o = c["ops"][0]
        c["ops"][0] = gen_operator(r, rd, md, "aff", o["k"], filled=False, plain=True)
        c["ops"][0]["p"] = p
        if c["ops"][0]["coeffs"] == "int":
            c["ops"][0]["nterms"] = p
    if all(o["filled"] for o in c["ops"]) and known is None:
        c["ops"][0]["filled"] = False
    if f[0] == "i":
        c["interp"] = r.pick([None, None, "cubic", "pchip", "custom"]) if p == 1 else r.pick([None, "linear", "nearest"])
        if p == 2 and c["interp"] and any(o["filled"] for o in c["ops"]):
            c["interp"] = "nearest"
    sk = r.weighted([("l2", 5), ("plain", 2), ("l2dec", 1), ("tik", 2), ("tikdec", 1), ("tls", 0.5), ("tsvd", 1), (None, 1)])
    c["solver"] = gen_solver(r, sk, d=model_d(c), nr=rd) if sk else None
    if c["solver"]:
        if "reg" in c["solver"] and c["solver"]["reg"] is None:
            c["solver"]["reg"] = gen_reg(r, sk)
        if sk == "tsvd":
            c["solver"]["modes"] = r.pick([None, 3, -1])
            c["solver"]["modes"] = None if c["solver"]["d"] < 4 else c["solver"]["modes"]
    return c


def model_d(c, s=None):
    """Number of unknowns of a model's regression; s: number of training parameters."""
    tot = 0
    s = s or (4 if c["p"] == 1 else 5)
    for o in c["ops"]:
        if o["filled"]:
            continue
        d = opdim(o["k"], c["r"], c["m"], o.get("order"))
        tot += d * (o["nterms"] if o["t"] == "aff" else s if o["t"] == "int" and c["t"][0] == "p" else 1)
    return max(1, tot)


MODELS = {
    "cont": opinf.models.ContinuousModel,
    "disc": opinf.models.DiscreteModel,
    "pcont": opinf.models.ParametricContinuousModel,
    "pdisc": opinf.models.ParametricDiscreteModel,
    "icont": opinf.models.InterpContinuousModel,
    "idisc": opinf.models.InterpDiscreteModel,
}
for _k, _v in MODELS.items():
    CLASSES[_k] = _v


def build_model(c):
    ops = [build_operator(o) for o in c["ops"]]
    solver = build_solver(c["solver"]) if c["solver"] else None
    kw = {}
    if c["t"][0] == "i":
        kw["InterpolatorClass"] = INTERPOLATORS[c["interp"]]
    return MODELS[c["t"]](ops, solver=solver, **kw)


def model_data(c, seed, k=None, s=None, r=None, sort=False):
    """Training data: dict with parameters, states, lhs, inputs."""
    rd, m = r or c["r"], c["m"]
    need = model_d(c, s)
    k = k or (need + rd + 8)
    if c["t"] in ("cont", "disc"):
        Q = 0.7 * arr((seed, 1), rd, k)
        L = 0.5 * arr((seed, 2), rd, k) - 0.3 * Q
        U = arr((seed, 3), m, k) if m else None
        return {"states": Q, "lhs": L, "inputs": U}
    s = s or (4 if c["p"] == 1 else 5)
    par = make_params({"seed": seed % 2**31, "p": c["p"], "s": s, "sort": sort or c.get("interp") is not None or any(o.get("interp") for o in c["ops"])})
    if c["t"][0] == "p" and seed % 4 == 0 and not any(o["t"] == "int" for o in c["ops"]):  # two data sets of one parameter
        par[-1] = par[0] if c["p"] == 1 else par[0].copy()
    Q = [0.7 * arr((seed, 1, i), rd, k) for i in range(s)]
    L = [0.5 * arr((seed, 2, i), rd, k) - 0.3 * Q[i] for i in range(s)]
    U = [arr((seed, 3, i), m, k) for i in range(s)] if m else None
    return {"parameters": par, "states": Q, "lhs": L, "inputs": U}


def fit_model(obj, c, data):
    args = [data["states"], data["lhs"]]
    if "parameters" in data:
        args.insert(0, data["parameters"])
    return obj.fit(*args, inputs=data["inputs"])


def ufunc(m, seed):
    ph = arr((seed, 9), m)
    return lambda t: np.cos(3 * t + ph)


def probe_model(obj, c, seed, ops=True):
    r, m = c["r"], c["m"]
    rd = obj.state_dimension
    rd = rd if isinstance(rd, (int, np.integer)) and rd else r
    q = 0.3 * arr((seed, 1), rd)
    u = arr((seed, 2), m) if m else None
    t = np.linspace(0.0, 0.04, 4)
    out = {
        "repr_cls": type(obj).__name__,
        "state_dimension": outcome(lambda: obj.state_dimension),
        "input_dimension": outcome(lambda: obj.input_dimension),
    }
    if c["t"] in ("cont", "disc"):
        lead = []
    else:
        lead = [query_param(c["p"], seed)]
        out["param_dim"] = outcome(lambda: obj.parameter_dimension)
    if c["t"].endswith("cont"):
        uf = ufunc(m, seed) if m else None
        out["rhs"] = outcome(lambda: obj.rhs(0.1, *lead, q, uf))
        out["jacobian"] = outcome(lambda: obj.jacobian(0.1, *lead, q, uf))
        out["predict"] = outcome(lambda: obj.predict(*lead, q, t, uf))
        out["predict_bdf"] = outcome(lambda: obj.predict(*lead, q, t, uf, method="BDF"))
    else:
        U = arr((seed, 5), m, 4) if m else None
        out["rhs"] = outcome(lambda: obj.rhs(*lead, q, u))
        out["jacobian"] = outcome(lambda: obj.jacobian(*lead, q, u))
        out["predict"] = outcome(lambda: obj.predict(*lead, q, 4, U))
    if lead:
        out["evaluate"] = outcome(
            lambda: [o.entries for o in obj.evaluate(lead[0]).operators]
        )
    if ops:
        out["operators"] = outcome(lambda: [[type(o).__name__, o.entries] for o in obj.operators])
        out["infer"] = outcome(lambda: [str(o).split("\n")[0] for o in obj.operators])
    if c["t"] in ("cont", "disc"):
        out["operator_matrix"] = outcome(lambda: obj.operator_matrix)
    return out


# Posteriors ==================================================================
def gen_posterior(r):
    nr = r.int(1, 12)
    same = r.flag(0.5)
    d0 = r.int(1, 4)
    return {"t": "posterior", "dims": [d0 if same else r.int(1, 4) for _ in range(nr)],
            "seed": r.seed32(), "inverted": r.flag()}


def build_posterior(c):
    means, mats = [], []
    for i, d in enumerate(c["dims"]):
        means.append(arr((c["seed"], i), d))
        B = arr((c["seed"], i, 1), d, d)
        mats.append(np.eye(d) + B @ B.T)
    return opinf.roms.OperatorPosterior(means, mats, alreadyinverted=c["inverted"])


def probe_posterior(obj, c, seed):
    def draw():
        state = np.random.get_state()
        np.random.seed(seed % 2**31)
        try:
            x = obj.rvs()
        finally:
            np.random.set_state(state)
        return [list(np.shape(row)) for row in x] + [isinstance(x, np.ndarray)]

    return {
        "repr_cls": type(obj).__name__,
        "nrows": outcome(lambda: obj.nrows),
        "means": outcome(lambda: list(obj.means)),
        "covs": outcome(lambda: list(obj.covs)),
        "draw_shape": outcome(draw),
    }


# Derivative estimators and lifters ===========================================
FD = tuple(f"{a}{b}" for a in ("fwd", "bwd") for b in range(1, 7)) + (
    "ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6",
)


def gen_ddt(r, k=None):
    t = r.pick(["uniform", "uniform", "nonuniform", "interp"])
    c = {"t": "ddt", "kind": t, "k": k or r.int(12, 16), "seed": r.seed32(), "n": r.int(1, 4)}
    if t == "uniform":
        c["scheme"] = r.pick(FD)
    if t == "interp":
        c["interp"] = r.pick(["cubic", "akima"])
        c["new"] = r.flag(0.3)
    return c


def ddt_times(c):
    t = np.linspace(0, 1, c["k"])
    if c["kind"] == "nonuniform" or c["kind"] == "interp":
        g = np.random.default_rng(c["seed"])
        t = t + 0.2 / c["k"] * g.random(c["k"])
    return t


def build_ddt(c):
    t = ddt_times(c)
    if c["kind"] == "uniform":
        return opinf.ddt.UniformFiniteDifferencer(t, scheme=c["scheme"])
    if c["kind"] == "nonuniform":
        return opinf.ddt.NonuniformFiniteDifferencer(t)
    new = np.linspace(t[1], t[-2], c["k"] - 3) if c["new"] else None
    return opinf.ddt.InterpDerivativeEstimator(t, c["interp"], new_time_domain=new)


def probe_ddt(obj, c, seed):
    Q, U = arr((seed, 1), c["n"], c["k"]), arr((seed, 2), 2, c["k"])
    return {
        "str": outcome(text, obj),
        "repr_cls": type(obj).__name__,
        "time_domain": outcome(lambda: obj.time_domain),
        "estimate": outcome(lambda: list(obj.estimate(Q.copy()))),
        "estimate_u": outcome(lambda: list(obj.estimate(Q.copy(), U.copy()))),
        "mask": outcome(lambda: obj.mask(Q.copy())),
    }


def gen_lifter(r):
    return {"t": "lifter", "kind": r.pick(["quadratic", "poly"]), "orders": r.pick([[1, 2], [1, 2, 3], [1, -1], [0, 1, 2]]), "n": r.int(1, 4)}


def build_lifter(c):
    if c["kind"] == "quadratic":
        return opinf.lift.QuadraticLifter()
    return opinf.lift.PolynomialLifter(tuple(c["orders"]))


def probe_lifter(obj, c, seed):
    Q, Qd = 1.5 + 0.2 * arr((seed, 1), c["n"], 4), arr((seed, 2), c["n"], 4)
    return {
        "repr_cls": type(obj).__name__,
        "lift": outcome(lambda: obj.lift(Q.copy())),
        "lift_ddts": outcome(lambda: obj.lift_ddts(Q.copy(), Qd.copy())),
        "unlift": outcome(lambda: obj.unlift(obj.lift(Q.copy()))),
    }


# Generic access ==============================================================
def family(c):
    t = c["t"]
    if t in TRANSFORMERS or t == "own":
        return "T"
    if t in ("linear", "pod", "bmulti"):
        return "B"
    if t in SOLVERS:
        return "S"
    if t in ("op", "aff", "int"):
        return "O"
    if t in MODELS:
        return "M"
    if t == "posterior":
        return "Y"
    if t == "ddt":
        return "D"
    if t == "lifter":
        return "L"
    if t in ("rom", "prom", "brom"):
        return "R"
    raise KeyError(t)


def _rom():
    from . import zoo_rom

    return zoo_rom


def build(c):
    if family(c) == "R":
        return _rom().build_rom(c)
    return {
        "T": build_transformer, "B": build_basis, "S": build_solver, "O": build_operator,
        "M": build_model, "Y": build_posterior, "D": build_ddt, "L": build_lifter,
    }[family(c)](c)


def gen(r, fam, **kw):
    if fam == "T":
        return gen_transformer(r, kw.get("n") or r.int(2, 8), kw.get("depth", 2))
    if fam == "B":
        return gen_basis(r, kw.get("n") or r.int(3, 9))
    if fam == "S":
        return gen_solver(r)
    if fam == "O":
        return gen_operator(r, r.int(1, 4), r.int(1, 2))
    if fam == "M":
        return gen_model(r)
    if fam == "Y":
        return gen_posterior(r)
    if fam == "D":
        return gen_ddt(r)
    if fam == "R":
        return _rom().gen_rom(r)
    return gen_lifter(r)


def probe(obj, c, seed):
    if family(c) == "R":
        return _rom().probe_rom(obj, c, seed)
    return {
        "T": probe_transformer, "B": probe_basis, "S": probe_solver, "O": probe_operator,
        "M": probe_model, "Y": probe_posterior, "D": probe_ddt, "L": probe_lifter,
    }[family(c)](obj, c, seed)


def train(obj, c, seed, **kw):
    """Fit with generated data; returns what was used."""
    f = family(c)
    if f in "TB":
        Q = train_states(c, seed, kw.get("k"), kw.get("n"))
        obj.fit(Q)
        return Q
    if f == "S":
        D, Z = solver_data(c, seed, **kw)
        obj.fit(D, Z)
        return D, Z
    if f == "M":
        data = model_data(c, seed, **kw)
        fit_model(obj, c, data)
        return data
    if f == "O":
        retrain_operator(obj, c, seed)
    if f == "R":
        data = _rom().rom_data(c, seed, **kw)
        _rom().fit_rom(obj, c, data)
        return data
    return None


def train_states(c, seed, k=None, n=None):
    n, k = n or c["n"], k or 12
    decay = 0.6 ** np.arange(min(n, k))
    U, V = arr((seed, 1), n, len(decay)), arr((seed, 2), len(decay), k)
    return (U * decay) @ V + 0.05 * arr((seed, 3), n, k) + 0.5


def retrain_operator(obj, c, seed):
    k, r, m = c["k"], c["r"], c["m"]
    if c["t"] == "op":
        obj.set_entries(op_entries(k, r, m, seed, c["fmt"], c.get("order")))
    elif c["t"] == "aff":
        obj.set_entries([op_entries(k, r, m, (seed, i), c["fmt"]) for i in range(c["nterms"])])
    else:
        P = make_params(c["params"])
        if obj.training_parameters is None:
            obj.set_training_parameters(P)
        obj.set_entries([op_entries(k, r, m, (seed, i)) for i in range(len(P))])


def settle(obj, c):
    """The first evaluation of an affine operator sets an unknown number of parameters: do it now."""
    if (p := (c.get("model") or c).get("p")):
        for op in [obj, getattr(obj, "model", None), *(getattr(obj, "operators", None) or [])]:
            if hasattr(op, "evaluate"):
                outcome(op.evaluate, np.atleast_1d(query_param(p, 1)))
    return obj


def savable(c):
    if c["t"] in ("pcont", "pdisc", "ddt", "lifter", "rom", "prom", "brom"):
        return False
    return True


def save(obj, c, target, overwrite=False):
    if c["t"] == "posterior":
        return obj.save(target, overwrite=overwrite)
    return obj.save(target, overwrite=overwrite)


def load(c, source):
    t = c["t"]
    if t in ("pipeline", "tmulti", "bmulti"):
        return CLASSES[t].load(source, [
            _Loader(m) if "members" in m or m["t"] == "own" else CLASSES[m["t"]] for m in c["members"]
        ])
    if t == "op":
        cls = opinf.operators.PolynomialOperator if c["k"] == "P" else OPS[c["k"]]
        return cls.load(source)
    if t == "aff":
        return AFFINE[c["k"]].load(source, coeff_functions(c["coeffs"], c["nterms"], c["p"]))
    if t == "int":
        cls = INTERPOLATORS[c["interp"]]
        return INTERP[c["k"]].load(source, cls) if cls else INTERP[c["k"]].load(source)
    if t in ("icont", "idisc"):
        cls = INTERPOLATORS[c["interp"]]
        return MODELS[t].load(source, cls) if cls else MODELS[t].load(source)
    if t == "posterior":
        return opinf.roms.OperatorPosterior.load(source)
    if t == "own":
        return (OwnTransformer if c["ddts"] else OwnStatic).load(source)
    return CLASSES[t].load(source)


def saved_view(battery):
    """The part of a battery that a file is documented to keep."""
    drop = {"operator_matrix", "infer"}
    out = {}
    for k, v in battery.items():
        if k in drop:
            continue
        if isinstance(v, dict):
            v = saved_view(v)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            v = [saved_view(x) for x in v]
        out[k] = v
    return out

