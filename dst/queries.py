"""Queries: what can be asked of an object, with drawn, invalid or failing arguments.

A step {"q", "seed", "bad"?, "arg"?, "callback"?} stands for one question; make()
turns it into (function of the object and the arguments, list of arguments).
"""

import os

import numpy as np

import opinf

from . import zoo, zoo_rom
from .zoo import arr


class Callback:
    """An input function that raises at one of its calls."""

    def __init__(self, m, seed, at=None):
        self.f, self.at, self.n = zoo.ufunc(m, seed), at, 0

    def __call__(self, t):
        self.n += 1
        if self.at is not None and self.n > self.at:
            raise RuntimeError("simulated failure of a user function")
        return self.f(t)


BAD = ("nan", "row", "col", "dim", "flat", "text", "none", "int", "empty")


def spoil(x, how):
    if not isinstance(x, np.ndarray):
        return x
    if how == "nan":
        y = x.astype(float)
        if y.size:
            y.ravel()[-1] = np.nan
        return y
    if how == "row":
        return x[:-1].copy()
    if how == "col":
        return x[..., :-1].copy()
    if how == "dim":
        return x[None].copy()
    if how == "flat":
        return x.ravel().copy()
    if how == "text":
        return "array"
    if how == "none":
        return None
    if how == "int":
        return np.round(3 * x).astype(int)
    return x[:0].copy()


def _common(c):
    return ["str", "repr", "eq"] + (["save"] if zoo.savable(c) else [])


def names(c):
    f, t = zoo.family(c), c["t"]
    if f == "T":
        return ["transform", "transform1", "inverse", "inverse1", "inverse_locs", "ddts", "dim"] + (["split", "get_var", "member"] if t == "tmulti" else [])
    if f == "B":
        out = ["compress", "compress1", "decompress", "decompress1", "decompress_locs", "project", "perr", "perr_abs", "shape", "error"]
        return out + (["split", "get_var", "member"] if t == "bmulti" else ["copy"])
    if f == "S":
        out = ["solve", "cond", "residual", "copy", "kdr"]
        if t in ("l2", "l2dec", "tik", "tikdec"):
            out += ["regcond", "regresidual", "posterior"]
        return out + (["tcond"] if t == "tsvd" else []) + (["augcond"] if t == "tls" else [])
    if f == "O":
        out = ["apply1", "apply", "jacobian", "galerkin", "galerkin2", "copy", "shape"]
        return out + (["opdim", "datablock", "add"] if t == "op" else ["evaluate", "use"])
    if f == "M":
        out = ["rhs", "jacobian", "predict", "predict_other", "galerkin", "copy", "matrix", "dims"]
        return out + (["evaluate", "use"] if t not in ("cont", "disc") else [])
    if f == "R":
        return ["encode", "encode1", "encode2", "decode", "decode1", "project"] + (["predict", "predict_other"] if t != "brom" else ["posterior"])
    if f == "Y":
        return ["means", "covs", "nrows"]
    if f == "D":
        return ["estimate", "estimate_u", "mask", "times"]
    return ["lift", "lift_ddts", "unlift"]


def gen_query(r, c, bad=0.25):
    s = {"q": r.pick(names(c) * 3 + _common(c)), "seed": r.seed32()}
    if r.flag(bad):
        s["bad"], s["arg"] = r.pick(BAD), r.int(0, 2)
    if s["q"].startswith("predict") and r.flag(0.2):
        s["callback"] = r.int(0, 8)
    if c["t"] in ("aff", "pcont", "pdisc", "prom") and r.flag(0.15):
        s["trip"] = r.int(0, 5)
    return s


def make(obj, c, s, scratch):
    """(callable taking the object and the arguments, arguments)."""
    func, args = _make(obj, c, s["q"], s["seed"], s.get("callback"), scratch)
    if s.get("bad") and args:
        i = s["arg"] % len(args)
        args[i] = spoil(args[i], s["bad"])
    return func, args


def _make(obj, c, q, seed, callback, scratch):
    f, t = zoo.family(c), c["t"]
    if q == "str":
        return (lambda o: zoo.text(o)), []
    if q == "repr":
        return (lambda o: len(repr(o)) > 0), []
    if q == "eq":
        return (lambda o: [bool(o == o), bool(o != o), o == 3]) if f in "TBS" else (lambda o: bool(o == o)), []
    if q == "save":
        path = os.path.join(scratch, f"q{seed}.h5")
        return (lambda o: zoo.save(o, c, path, overwrite=True)), []
    return globals()["_" + f](obj, c, q, seed, callback)


def _dim(x, default):
    return int(x) if isinstance(x, (int, np.integer)) and x else default


def _T(obj, c, q, seed, callback):
    n = c["n"]
    if q.endswith("1"):
        X = arr((seed, 2), n)
        return {"transform1": lambda o, X: o.transform(X), "inverse1": lambda o, X: o.inverse_transform(X)}[q], [X]
    X = arr((seed, 1), n, 3)
    if q == "inverse_locs":
        if c["t"] == "tmulti":
            return (lambda o, Y, l: o.inverse_transform(Y, locs=l)), [arr((seed, 3), len(c["members"]), 3), np.array([0])]
        return (lambda o, Y, l: o.inverse_transform(Y, locs=l)), [arr((seed, 3), 2, 3), np.array([0, n - 1])]
    return {
        "transform": (lambda o, X: o.transform(X), [X]),
        "inverse": (lambda o, X: o.inverse_transform(X), [X]),
        "ddts": (lambda o, X: o.transform_ddts(X, inplace=False), [X]),
        "dim": (lambda o: o.state_dimension, []),
        "split": (lambda o, X: [x.copy() for x in o.split(X)], [X]),
        "get_var": (lambda o, X: o.get_var(0, X).copy(), [X]),
        "member": (lambda o: [zoo.text(m) for m in o.transformers] + [zoo.text(o[0])], []),
    }[q]


def _B(obj, c, q, seed, callback):
    n = c["n"]
    rr = _dim(obj.reduced_state_dimension, 2)
    X, x, Y, y = arr((seed, 1), n, 3), arr((seed, 2), n), arr((seed, 3), rr, 3), arr((seed, 4), rr)
    locs = np.array([0]) if c["t"] == "bmulti" or n == 1 else np.array([0, n - 1])
    return {
        "compress": (lambda o, X: o.compress(X), [X]),
        "compress1": (lambda o, X: o.compress(X), [x]),
        "decompress": (lambda o, X: o.decompress(X), [Y]),
        "decompress1": (lambda o, X: o.decompress(X), [y]),
        "decompress_locs": (lambda o, X, l: o.decompress(X, locs=l), [Y, locs]),
        "project": (lambda o, X: o.project(X), [X]),
        "perr": (lambda o, X: o.projection_error(X), [X]),
        "perr_abs": (lambda o, X: o.projection_error(X, relative=False), [X]),
        "shape": (lambda o: [list(o.shape), o.full_state_dimension, o.reduced_state_dimension], []),
        "error": (lambda o, X: opinf.post.projection_error(X, o.entries), [X]),
        "split": (lambda o, X: [v.copy() for v in o.split(X)], [X]),
        "get_var": (lambda o, X: o.get_var(0, X).copy(), [X]),
        "member": (lambda o: [str(type(m)) for m in o.bases] + [o[0].full_state_dimension], []),
        "copy": (lambda o: o.copy().entries, []),
    }[q]


def _S(obj, c, q, seed, callback):
    d, nr = _dim(obj.d, c["d"]), _dim(obj.r, c["r"])
    O = arr((seed, 1), nr, d)
    return {
        "solve": (lambda o: o.solve(), []),
        "cond": (lambda o: o.cond(), []),
        "residual": (lambda o, O: o.residual(O), [O]),
        "copy": (lambda o: o.copy().data_matrix, []),
        "kdr": (lambda o: [o.k, o.d, o.r], []),
        "regcond": (lambda o: o.regcond(), []),
        "regresidual": (lambda o, O: o.regresidual(O), [O]),
        "posterior": (lambda o: [list(x) for x in o.posterior()], []),
        "tcond": (lambda o: [o.tcond(), o.num_svdmodes, o.max_modes], []),
        "augcond": (lambda o: [o.augcond, o.error], []),
    }[q]


def _O(obj, c, q, seed, callback):
    rr, m = _dim(obj.state_dimension, c["r"]), c["m"]
    lead = [] if c["t"] == "op" else [np.atleast_1d(zoo.query_param(c["p"], seed))]
    k = len(lead)
    qv, u, Q, U = arr((seed, 1), rr), arr((seed, 2), m), arr((seed, 3), rr, 4), arr((seed, 4), m, 4)
    V = np.linalg.qr(arr((seed, 5), rr, max(1, rr - 1)))[0]
    W = arr((seed, 6), *V.shape) + V
    return {
        "apply1": (lambda o, *a: o.apply(*a), [*lead, qv, u]),
        "apply": (lambda o, *a: o.apply(*a), [*lead, Q, U]),
        "jacobian": (lambda o, *a: o.jacobian(*a), [*lead, qv, u]),
        "galerkin": (lambda o, V: o.galerkin(V).entries, [V]),
        "galerkin2": (lambda o, V, W: o.galerkin(V, W).entries, [V, W]),
        "copy": (lambda o: o.copy().entries, []),
        "shape": (lambda o: [o.shape, o.state_dimension], []),
        "opdim": (lambda o: o.operator_dimension(rr, m), []),
        "datablock": (lambda o, Q, U: o.datablock(Q, U), [Q, U]),
        "add": (lambda o: (o + o.copy()).entries, []),
        "evaluate": (lambda o, mu: o.evaluate(mu).entries, lead),
        "use": (lambda o, mu, q, u: o.evaluate(mu).apply(q, u), [*lead, qv, u]),
    }[q] if k or q not in ("evaluate", "use") else None


def _M(obj, c, q, seed, callback):
    rr, m = _dim(obj.state_dimension, c["r"]), c["m"]
    cont = c["t"].endswith("cont")
    lead = [] if c["t"] in ("cont", "disc") else [np.atleast_1d(zoo.query_param(c["p"], seed))]
    qv, u = 0.3 * arr((seed, 1), rr), arr((seed, 2), m) if m else None
    t, U = np.linspace(0.0, 0.04, 4), arr((seed, 5), m, 4) if m else None
    V = np.linalg.qr(arr((seed, 6), rr, max(1, rr - 1)))[0]
    uf = Callback(m, seed, callback) if m else None
    if cont:
        calls = {
            "rhs": (lambda o, *a: o.rhs(0.1, *a, uf), [*lead, qv]),
            "jacobian": (lambda o, *a: o.jacobian(0.1, *a, uf), [*lead, qv]),
            "predict": (lambda o, *a: o.predict(*a, uf), [*lead, qv, t]),
            "predict_other": (lambda o, *a: o.predict(*a, uf, method="BDF"), [*lead, qv, t]),
        }
    else:
        calls = {
            "rhs": (lambda o, *a: o.rhs(*a), [*lead, qv, u]),
            "jacobian": (lambda o, *a: o.jacobian(*a), [*lead, qv, u]),
            "predict": (lambda o, *a: o.predict(*a[:-1], 4, a[-1]), [*lead, qv, U]),
            "predict_other": (lambda o, *a: o.predict(*a[:-1], 2, a[-1]), [*lead, qv, U]),
        }
    calls.update({
        "galerkin": (lambda o, V: [x.entries for x in o.galerkin(V).operators], [V]),
        "copy": (lambda o: [x.entries for x in o.copy().operators], []),
        "matrix": (lambda o: o.operator_matrix if c["t"] in ("cont", "disc") else len(o), []),
        "dims": (lambda o: [o.state_dimension, o.input_dimension, [type(x).__name__ for x in o]], []),
        "evaluate": (lambda o, mu: [x.entries for x in o.evaluate(mu).operators], lead),
        "use": (lambda o, mu, q: o.evaluate(mu).rhs(*([0.1, q, uf] if cont else [q, u])), [*lead, qv]),
    })
    return calls[q]


def _R(obj, c, q, seed, callback):
    m = c["model"]
    X, L = 1.5 + 1.0 / (1.0 + np.exp(-arr((seed, 43), c["n0"], 3))), arr((seed, 44), c["n0"], 3)
    rr = _dim(obj.model.state_dimension, c["n"])
    lead, x0, more = zoo_rom.probe_args(c, seed)
    lead = [np.atleast_1d(v) for v in lead]
    if m["t"].endswith("cont"):
        uf = Callback(m["m"], seed, callback) if m["m"] else None
        t = more[0]
        pred = (lambda o, *a: o.predict(*a, uf), [*lead, x0, t])
        other = (lambda o, *a: o.predict(*a, uf, method="BDF"), [*lead, x0, t])
    else:
        pred = (lambda o, *a: o.predict(*a[:-1], 4, a[-1]), [*lead, x0, more[1]])
        other = (lambda o, *a: o.predict(*a[:-1], 2, a[-1]), [*lead, x0, more[1]])
    return {
        "encode": (lambda o, X: o.encode(X), [X]),
        "encode1": (lambda o, x: o.encode(x), [X[:, 0].copy()]),
        "encode2": (lambda o, X, L: list(o.encode(X, L)), [X, L]),
        "decode": (lambda o, Y: o.decode(Y), [arr((seed, 45), rr, 3)]),
        "decode1": (lambda o, Y: o.decode(Y), [arr((seed, 46), rr)]),
        "project": (lambda o, X: o.project(X), [X]),
        "predict": pred,
        "predict_other": other,
        "posterior": (lambda o: [list(o.posterior.means), list(o.posterior.covs)], []),
    }[q]


def _Y(obj, c, q, seed, callback):
    return {"means": lambda o: list(o.means), "covs": lambda o: list(o.covs), "nrows": lambda o: o.nrows}[q], []


def _D(obj, c, q, seed, callback):
    Q, U = arr((seed, 1), c["n"], c["k"]), arr((seed, 2), 2, c["k"])
    return {
        "estimate": (lambda o, Q: list(o.estimate(Q)), [Q]),
        "estimate_u": (lambda o, Q, U: list(o.estimate(Q, U)), [Q, U]),
        "mask": (lambda o, Q: o.mask(Q), [Q]),
        "times": (lambda o: o.time_domain.copy(), []),
    }[q]


def _L(obj, c, q, seed, callback):
    Q, Qd = 1.5 + 0.2 * arr((seed, 1), c["n"], 4), arr((seed, 2), c["n"], 4)
    lifted = 1.5 + 0.2 * arr((seed, 3), c["n"] * (2 if c["kind"] == "quadratic" else len(c["orders"])), 4)
    return {
        "lift": (lambda o, Q: o.lift(Q), [Q]),
        "lift_ddts": (lambda o, Q, Qd: o.lift_ddts(Q, Qd), [Q, Qd]),
        "unlift": (lambda o, Q: o.unlift(Q), [lifted]),
    }[q]
