"""H09: derivative estimates belong to the time domain and scheme shown."""

import contextlib
import io
import warnings

import numpy as np

import opinf

from .. import ref_ddt as ref
from ..inject import attempt, gen_fault
from ..values import diff, outcome, recycle, snap
from ..zoo import arr

ID = "H09"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = (
    "One evaluation is one simulated run: one to three derivative estimators (and the estimation functions) with drawn time "
    "domains, schemes, interpolators of the package or of the user, go through 2 to 8 drawn operations (estimates with data of "
    "drawn layout and inputs, masks, verifications, misaligned data, callers writing into what they got), some made to fail at a "
    "drawn call or interrupted at a drawn line; every answer and, after every operation, every estimator's settings and answers to "
    "fixed questions are compared with weights computed from polynomial exactness and interpolants computed row by row. "
    "Non-trivial: a step failed or a fault fired, distinct by event log."
)
STATES = "kind x scheme x operation x outcome"
REAL = ["opinf.ddt", "numpy and scipy"]
STUBS = ["numerical calls, lines of the package and interpolators of the user that are made to fail"]
ASSUMPTIONS = ["finite differences accept any number of snapshots with the spacing of their time domain"]

SCHEMES = [f"{m}{i}" for m in ("fwd", "bwd") for i in range(1, 7)] + ["ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"]
LAYOUTS = ["C", "C", "F", "strided", "readonly", "int", "float32"]


class Lines:
    """Interpolator of the user: straight lines; may fail."""

    left = None

    def __init__(self, t, y, scale=1.0):
        self._tick()
        self.t, self.y, self.scale = t, y, scale

    @classmethod
    def _tick(cls):
        if cls.left is not None:
            cls.left -= 1
            if cls.left < 0:
                raise ArithmeticError("simulated failure of the user's interpolator")

    def __call__(self, new, nu=0):
        self._tick()
        return self.scale * ref.interpolated("lines", self.t, self.y, new, nu, {})


def gen_est(r):
    kind = r.weighted([("uniform", 5), ("nonuniform", 2), ("interp", 4)])
    c = {"kind": kind, "k": r.int(9, 14), "t0": r.pick([0.0, -1.0, 3.0]), "dt": r.pick([0.1, 0.1, 1e-3, 2.0, 1e-9]), "seed": r.seed32()}
    if kind == "uniform":
        c["scheme"] = r.pick(SCHEMES)
        c["down"] = r.flag(0.05)
    if kind == "interp":
        c["dt"] = r.pick([0.1, 0.5])
        c["name"] = r.pick(["cubic", "cubic", "akima", "pchip", "lines", "class"])
        c["new"] = r.pick([None, None, "inner", "fine", "beyond", "same"])
        c["opts"] = r.pick([None, None, "a"])
    return c


def times(c):
    t = c["t0"] * (1 if c["dt"] > 1e-6 else 0) + c["dt"] * np.arange(c["k"])
    if c["kind"] == "uniform":
        return t[::-1].copy() if c.get("down") else t
    g = np.random.default_rng(c["seed"])
    return t + 0.3 * c["dt"] * g.random(c["k"])


def new_times(c, t):
    how = c.get("new")
    if how is None:
        return None
    if how == "same":
        return t.copy()
    if how == "inner":
        return np.linspace(t[1], t[-2], len(t) - 3)
    if how == "fine":
        return np.linspace(t[0], t[-1], 2 * len(t))
    return np.linspace(t[0] - 0.2 * c["dt"], t[-1] + 0.1 * c["dt"], len(t))


def options(c):
    """(options for the class, options for the reference)"""
    if not c.get("opts"):
        return {}, {}
    name = c["name"]
    if name in ("cubic", "class"):
        return {"bc_type": "natural"}, {"bc_type": "natural"}
    if name == "pchip":
        return {"extrapolate": True}, {"extrapolate": True}
    if name == "lines":
        return {"scale": 2.0}, {}
    return {"method": "makima"}, {"method": "makima"}


def build(c):
    t = times(c)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["kind"] == "uniform":
            return opinf.ddt.UniformFiniteDifferencer(t, c["scheme"])
        if c["kind"] == "nonuniform":
            return opinf.ddt.NonuniformFiniteDifferencer(t)
        import scipy.interpolate as si

        cls = {"lines": Lines, "class": si.CubicSpline}.get(c["name"], c["name"])
        opts = dict(options(c)[0])
        if c["name"] == "class":
            opts["axis"] = 1
        return opinf.ddt.InterpDerivativeEstimator(t, cls, new_time_domain=new_times(c, t), **opts)


def data(seed, tag, n, k, layout="C"):
    Q = arr((seed, tag), n, k)
    if layout == "F":
        return np.asfortranarray(Q)
    if layout == "strided":
        big = np.full((2 * n, 3 * k), np.nan)
        big[::2, ::3] = Q
        return big[::2, ::3]
    if layout == "readonly":
        Q.flags.writeable = False
        return Q
    if layout == "int":
        return np.round(9 * Q).astype(np.int64)
    if layout == "float32":
        return Q.astype(np.float32)
    return Q


def expected(c, Q, U):
    """What estimate(Q, U) has to return."""
    t = times(c)
    Qf = np.asarray(Q, dtype=float)
    if U is not None and U.ndim == 1:
        U = U.reshape(1, -1)
    if c["kind"] == "uniform":
        cols, d = ref.uniform(Qf, t[1] - t[0], c["scheme"])
        out = [Qf[:, cols], d]
        return out if U is None else out + [np.asarray(U, float)[:, cols]]
    if c["kind"] == "nonuniform":
        out = [Qf, ref.nonuniform(Qf, t)]
        return out if U is None else out + [np.asarray(U, float)]
    name, opts = ("cubic" if c["name"] == "class" else c["name"]), options(c)[1]
    s = 2.0 if c["name"] == "lines" and c.get("opts") else 1.0
    new = new_times(c, t)
    at = t if new is None else new
    out = [Qf if new is None else s * ref.interpolated(name, t, Qf, at, 0, opts), s * ref.interpolated(name, t, Qf, at, 1, opts)]
    if U is not None:
        out.append(np.asarray(U, float) if new is None else s * ref.interpolated(name, t, U, at, 0, opts))
    return out


def expected_mask(c, A):
    Af = np.asarray(A, dtype=float)
    if c["kind"] == "uniform":
        return Af[..., [j for j, _ in ref.stencils(c["scheme"], Af.shape[-1])]]
    new = new_times(c, times(c)) if c["kind"] == "interp" else None
    if new is None:
        return Af
    name, opts = ("cubic" if c["name"] == "class" else c["name"]), options(c)[1]
    s = 2.0 if c["name"] == "lines" and c.get("opts") else 1.0
    flat = Af.reshape(-1, Af.shape[-1])
    return (s * ref.interpolated(name, times(c), flat, new, 0, opts)).reshape(Af.shape[:-1] + (len(new),))


def gen(r, tier, index):
    ests = [gen_est(r) for _ in range(r.weighted([(1, 3), (2, 3), (3, 1)]))]
    steps = []
    for _ in range(r.int(2, 8)):
        op = r.weighted([("estimate", 6), ("mask", 2), ("verify", 1.2), ("bad", 2), ("write", 1), ("func", 2.5), ("new", 0.7), ("ctor", 0.8)])
        s = {"op": op, "o": r.int(0, len(ests) - 1), "seed": r.seed32(), "n": r.int(1, 4), "layout": r.pick(LAYOUTS),
             "inputs": r.pick([None, None, "2d", "2d", "1d"]), "extra": r.pick([0, 0, 1, 5]), "how": r.int(0, 5), "scheme": r.pick(SCHEMES), "recycle": r.flag(0.3)}
        if r.flag(0.3):
            s["fault"] = gen_fault(r, (("call", 1),) if op == "verify" else (("call", 3), ("line", 3)))
            if r.flag(0.2):
                s["fault"] = None
                s["left"] = r.int(0, 4)
        steps.append(s)
    return {"knobs": {"ests": ests, "qseed": r.seed32()}, "steps": steps}


def tolerance(layout, dt):
    return (2e-3, 1e-4 / dt) if layout == "float32" else (1e-7, 1e-9 / dt)


def quiet(func):
    def inner():
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return func()

    return inner


def close(want, got, layout, dt):
    """Difference of derivatives of size 1/dt."""
    rtol, atol = tolerance(layout, dt)
    if isinstance(got, tuple):
        got = list(got)
    if isinstance(got, list):
        got = [np.asarray(g, dtype=float) if isinstance(g, np.ndarray) else g for g in got]
    elif isinstance(got, np.ndarray):
        got = np.asarray(got, dtype=float)
    return diff(snap(want), snap(got), rtol, atol)


def names(c):
    return c["kind"] + " " + str(c.get("scheme") or c.get("name") or "") + (f" new={c['new']}" if c.get("new") else "")


def run(case, ctx):
    cs = [dict(c) for c in case["knobs"]["ests"]]
    qseed = case["knobs"]["qseed"]
    objs = [build(c) for c in cs]
    Lines.left = None
    last = None, None
    for j, s in enumerate(case["steps"]):
        o = s["o"] % len(objs)
        obj, c = objs[o], cs[o]
        t = times(c)
        dt = abs(t[1] - t[0])
        op, fault, label = s["op"], s.get("fault"), names(c)
        ex = fired = None
        seed, layout = s["seed"], s["layout"]
        k = len(t)
        if op in ("estimate", "write") and c["kind"] == "uniform":
            k = max(ref.least(c["scheme"]), k + s["extra"] - 3)
        Q = data(seed, 1, s["n"], k, layout)
        U = None
        if s["inputs"]:
            U = data(seed, 2, 1 if s["inputs"] == "1d" else 2, k, layout)
            U = U[0] if s["inputs"] == "1d" else U
        if s.get("recycle"):  # the caller uses its arrays again
            Q, U = recycle(last[0], Q), recycle(last[1], U)
        last = Q, U
        held = snap([Q, U, t])

        def go(func):
            nonlocal ex, fired
            if s.get("left") is not None and c.get("name") == "lines":
                Lines.left = s["left"]
            value, ex, fired = attempt(quiet(func), fault, ctx)
            if Lines.left is not None:
                if Lines.left < 0 and ex is None:
                    ctx.fail("swallowed", f"{label}: {op} hides the failure of the user's interpolator")
                if Lines.left < 0:
                    fired = fired or ("user",)
                    ctx.fault("user interpolator")
                Lines.left = None
            return value

        if op == "new":
            cs[o] = dict(c, seed=seed, k=9 + seed % 6)
            objs[o] = build(cs[o])
        elif op in ("estimate", "write"):
            value = go(lambda: obj.estimate(Q, U) if U is not None or seed % 2 else obj.estimate(Q))
            if ex is not None and not fired:
                ctx.fail("refused", f"{label}: estimate of {layout} data raised {type(ex).__name__}: {ex}")
            if ex is None:
                want = expected(c, Q, U)
                if not isinstance(value, tuple) or len(value) != len(want):
                    ctx.fail("shape", f"{label}: estimate returns {type(value).__name__} of {len(value)}")
                for what, w, g in zip(("states", "derivatives", "inputs"), want, value):
                    if (d := close(w, g, layout, dt if what == "derivatives" else 1.0)):
                        ctx.fail("estimate", f"{label}: {what} for {layout} data: {d}")
                if (d := diff(held, snap([Q, U, t]), 0, 0)):
                    ctx.fail("arguments", f"{label}: estimate changed its arguments: {d}")
                if layout in ("C", "F", "strided") and seed % 3 == 0:  # new data in the same arrays
                    Q *= -0.5
                    Q[0, -1] += 1
                    if U is not None:
                        U *= 2
                    want = expected(c, Q, U)
                    again = quiet(lambda: obj.estimate(Q, U))()
                    for what, w, g in zip(("states", "derivatives", "inputs"), want, again):
                        if (d := close(w, g, layout, dt if what == "derivatives" else 1.0)):
                            ctx.fail("estimate", f"{label}: {what} for new data in the same arrays: {d}")
                if op == "write":
                    for g in value:
                        if g.flags.writeable:
                            g[:] = 77
        elif op == "mask":
            lead = [(), (2,), (2, 3)][s["how"] % 3]
            A = np.asarray(data(seed, 3, int(np.prod(lead, dtype=int)), k, layout)).reshape(lead + (k,))
            value = go(lambda: obj.mask(A))
            if ex is not None and not fired:
                ctx.fail("refused", f"{label}: mask of a {A.ndim}-dimensional array raised {type(ex).__name__}: {ex}")
            if ex is None and (d := close(expected_mask(c, A), value, layout, 1.0)):
                ctx.fail("mask", f"{label}: mask of a {A.ndim}-dimensional array: {d}")
        elif op == "verify":
            value = go(lambda: obj.verify(return_errors=True))
            if ex is not None and not fired:
                ctx.fail("refused", f"{label}: verify raised {type(ex).__name__}: {ex}")
            if ex is None and (d := check_errors(c, value)):
                ctx.fail("verify", f"{label}: verify: {d}")
        elif op == "bad":
            how = s["how"] % 4
            if how == 0:
                call = lambda: obj.estimate(Q[0], U)  # noqa: E731
            elif how == 1:
                call = lambda: obj.estimate(np.array([Q, Q]), U)  # noqa: E731
            elif how == 2:
                call = lambda: obj.estimate(Q, arr((seed, 4), 2, Q.shape[1] - 1))  # noqa: E731
            else:
                if c["kind"] == "uniform":
                    call = lambda: obj.estimate(Q, arr((seed, 4), Q.shape[1] + 1))  # noqa: E731
                else:
                    call = lambda: obj.estimate(Q[:, :-1])  # noqa: E731
            go(call)
            if ex is None or (not fired and not isinstance(ex, opinf.errors.DimensionalityError)):
                ctx.fail("accepted", f"{label}: misaligned data ({how}) gave {type(ex).__name__ if ex else 'an estimate'}")
        elif op == "ctor":
            bad_constructor(ctx, s, c, t)
        elif op == "func":
            function(ctx, s, go, lambda: (ex, fired))
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, o, type(ex).__name__ if ex else "ok", "/".join(map(str, fired)) if fired else "")
        ctx.state(label, op, type(ex).__name__ if ex else "", layout)
        for i, (x, cc) in enumerate(zip(objs, cs)):
            if (d := check(x, cc, qseed)):
                ctx.fail("later", f"{names(cc)} after {op} on {'itself' if i == o else names(c)}: {d}")


def check(x, c, seed):
    t = times(c)
    if (d := diff(snap(t), outcome(lambda: x.time_domain), 0, 0)):
        return f"time_domain: {d}"
    if c["kind"] == "uniform":
        if x.scheme is not getattr(opinf.ddt, c["scheme"]):
            return f"scheme: {x.scheme}"
        if abs(x.dt - (t[1] - t[0])) > 1e-12 * abs(t[1] - t[0]):
            return f"dt: {x.dt}"
    if c["kind"] == "interp" and (d := diff(snap(new_times(c, t)), outcome(lambda: x.new_time_domain), 0, 0)):
        return f"new_time_domain: {d}"
    text = str(x)
    if f"{len(t)} entries in [{t.min()}, {t.max()}]" not in text:
        return f"text: {text}"
    Q, U = arr((seed, 8), 2, len(t)), arr((seed, 9), 1, len(t))
    dt = abs(t[1] - t[0])
    for what, w, g in zip(("states", "derivatives", "inputs"), expected(c, Q, U), x.estimate(Q, U)):
        if (d := close(w, g, "C", dt if what == "derivatives" else 1.0)):
            return f"{what}: {d}"
    return None


def check_errors(c, errors):
    """The reported errors are those of the scheme on the test functions."""
    dts = np.asarray(errors["dts"])
    if dts.shape != (12,) or len(errors) != 7:
        return f"{len(errors)} entries, {dts.shape} time steps"
    for key, vals in errors.items():
        if len(vals) != 12:
            return f"{key}: {len(vals)} errors"
    if c["kind"] != "uniform":
        return None
    for i, dt in enumerate(dts[:3]):
        t = 1 + dt * np.arange(1001)
        for key, f, df in (("$f(t) = e^t$", np.exp, np.exp), (r"$f(t) = \sin(t)$", np.sin, np.cos)):
            cols, d = ref.uniform(f(t)[None], t[1] - t[0], c["scheme"])
            truth = df(t)[cols]
            err = np.linalg.norm(d[0] - truth) / np.linalg.norm(truth)
            if err > 1e-8 and abs(errors[key][i] - err) > 1e-3 * err:
                return f"{key} at dt={dt}: {errors[key][i]} instead of {err}"
    return None


def bad_constructor(ctx, s, c, t):
    cls = opinf.ddt
    how = s["how"]
    tests = [
        ("a two-dimensional time domain", ValueError, lambda: cls.UniformFiniteDifferencer(t.reshape(1, -1))),
        ("a list as time domain", ValueError, lambda: cls.InterpDerivativeEstimator(list(t))),
        ("an unknown scheme", ValueError, lambda: cls.UniformFiniteDifferencer(np.linspace(0, 1, 9), "ord3")),
        ("an unknown interpolator", ValueError, lambda: cls.InterpDerivativeEstimator(t, "spline")),
        ("a scalar new time domain", TypeError, lambda: cls.InterpDerivativeEstimator(t, "cubic", 3.0)),
        ("a nonuniform time domain", ValueError, lambda: cls.UniformFiniteDifferencer(10.0 ** -(s["seed"] % 12) * np.array([0, 1, 2, 3.1, 4, 5.3, 6, 7]))),
    ]
    name, kind, func = tests[how % len(tests)]
    try:
        quiet(func)()
    except kind:
        return
    ctx.fail("constructor", f"{name} is accepted")


def function(ctx, s, go, last):
    """Estimation functions."""
    scheme, seed = s["scheme"], s["seed"]
    dt = [0.1, 1e-3, 2.0][seed % 3]
    k = ref.least(scheme) + s["extra"] + seed % 3
    layout = s["layout"]
    Q = data(seed, 1, s["n"], k, layout)
    U = data(seed, 2, 2, k, layout) if s["inputs"] == "2d" else (data(seed, 2, 1, k, layout)[0] if s["inputs"] else None)
    held = snap([Q, U])
    cols, d = ref.uniform(Q, dt, scheme)
    how = s["how"] % 3
    if how == 0 or scheme[:3] != "ord":
        f = getattr(opinf.ddt, scheme)
        value = go(lambda: f(Q, dt, U) if U is not None else f(Q, dt))
        want = [np.asarray(Q, float)[:, cols], d] + ([] if U is None else [np.asarray(U, float)[..., cols]])
        name = scheme
    elif how == 1:
        value = go(lambda: opinf.ddt.ddt(Q, dt, order=int(scheme[3])) if seed % 2 else opinf.ddt.ddt_uniform(Q, dt, int(scheme[3])))
        want, name = d, f"ddt(order={scheme[3]})"
    else:
        t = dt * (np.arange(k) + 0.3 * np.random.default_rng(seed).random(k))
        value = go(lambda: opinf.ddt.ddt(Q, t) if seed % 2 else opinf.ddt.ddt_nonuniform(Q, t))
        want, name = ref.nonuniform(Q, t), "ddt(t)"
    ex, fired = last()
    if ex is not None and not fired:
        ctx.fail("refused", f"{name} of {layout} data raised {type(ex).__name__}: {ex}")
    if ex is None:
        if isinstance(value, tuple):
            for what, w, g in zip(("states", "derivatives", "inputs"), want, value):
                if (dd := close(w, g, layout, dt if what == "derivatives" else 1.0)):
                    ctx.fail("function", f"{name}: {what} of {layout} data: {dd}")
        elif (dd := close(want, value, layout, dt)):
            ctx.fail("function", f"{name} of {layout} data: {dd}")
        if (dd := diff(held, snap([Q, U]), 0, 0)):
            ctx.fail("arguments", f"{name} changed its arguments: {dd}")
