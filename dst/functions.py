"""Calls of the package's functions (no object involved)."""

import numpy as np

import opinf

from .queries import BAD, spoil
from .zoo import arr

_kron = [opinf.operators.QuadraticOperator, opinf.operators.CubicOperator, opinf.operators.QuarticOperator]
FD = [n for n in dir(opinf.ddt) if n[:3] in ("fwd", "bwd", "ctr", "ord")]
NAMES = ["shift", "scale", "pod_basis", "mos", "energy", "residual", "decay", "fd", "ddt", "frobenius", "lp", "Lp", "proj", "ckron", "compress", "expand", "size", "gridsearch", "stack"]


def gen_call(r):
    s = {"q": r.pick(NAMES), "seed": r.seed32()}
    if r.flag(0.25):
        s["bad"], s["arg"] = r.pick(BAD), r.int(0, 2)
    return s


def make(s):
    func, args = _make(s["q"], s["seed"])
    if s.get("bad") and args:
        i = s["arg"] % len(args)
        args[i] = spoil(args[i], s["bad"])
    return func, args


def _make(q, seed):
    g = np.random.default_rng(seed)
    n, k = int(g.integers(2, 7)), int(g.integers(7, 12))
    X, Y = arr((seed, 1), n, k), arr((seed, 2), n, k)
    pick = int(g.integers(0, 1000))
    t = np.sort(g.random(k)) + np.arange(k)
    s = np.sort(np.abs(arr((seed, 3), k)))[::-1].copy()
    w = 0.5 + g.random(n)
    r = int(g.integers(1, 4))
    K = _kron[pick % 3]
    p = pick % 3 + 2
    crit = [{"num_vectors": 2}, {"svdval_threshold": 0.3}, {"cumulative_energy": 0.8}, {"residual_energy": 0.3}, {"projection_error": 0.5}][pick % 5]
    weights = [None, w, np.diag(w)][pick % 3]
    calls = {
        "shift": (lambda _, X, b: list(opinf.pre.shift(X, b)) if b is None else opinf.pre.shift(X, b), [X, [None, w][pick % 2]]),
        "scale": (lambda _, X: list(opinf.pre.scale(X, (0, 1))), [X]),
        "pod_basis": (lambda _, X, W: list(opinf.basis.pod_basis(X, **crit, weights=W, svdsolver=["dense", "method-of-snapshots"][pick % 2])), [X, weights]),
        "mos": (lambda _, X, W: list(opinf.basis.method_of_snapshots(X, W)), [X, weights]),
        "energy": (lambda _, s: opinf.basis.cumulative_energy(s, 0.9, plot=False), [s]),
        "residual": (lambda _, s: opinf.basis.residual_energy(s, 0.1, plot=False), [s]),
        "decay": (lambda _, s: opinf.basis.svdval_decay(s, 0.1, plot=False), [s]),
        "fd": (lambda _, X, U: list(getattr(opinf.ddt, FD[pick % len(FD)])(X, 0.1, U)), [X, Y]),
        "ddt": (lambda _, X, t: opinf.ddt.ddt_nonuniform(X, t) if pick % 2 else opinf.ddt.ddt_uniform(X, 0.1, [2, 4, 6][pick % 3]), [X, t]),
        "frobenius": (lambda _, X, Y: list(opinf.post.frobenius_error(X, Y)), [X, Y]),
        "lp": (lambda _, X, Y: list(opinf.post.lp_error(X, Y, p=[1, 2, np.inf][pick % 3], normalize=bool(pick % 2))), [X, Y]),
        "Lp": (lambda _, X, Y, t: list(opinf.post.Lp_error(X, Y, t, p=[1, 2, np.inf][pick % 3])), [X, Y, t]),
        "proj": (lambda _, X, V: list(opinf.post.projection_error(X, V)), [X, np.linalg.qr(arr((seed, 4), n, min(n, 2)))[0]]),
        "ckron": (lambda _, X: K.ckron(X), [X]),
        "compress": (lambda _, E: K.compress_entries(E), [arr((seed, 5), r, r**p)]),
        "expand": (lambda _, E: K.expand_entries(K.compress_entries(E)), [arr((seed, 5), r, r**p)]),
        "size": (lambda _: opinf.lstsq.lstsq_size("cAH", r), []),
        "gridsearch": (lambda _, x: opinf.utils.gridsearch(lambda v: (np.log10(v) + 1) ** 2 if np.isscalar(v) else float(np.sum(v**2)), x), [10.0 ** -np.sort(g.random(4) * 4)]),
        "stack": (lambda _, X, U: list(opinf.models.DiscreteModel.stack_trajectories([X, Y], [U, Y])), [X, Y]),
    }
    return calls[q]
