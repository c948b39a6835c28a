"""G01: a parameter search is never worse than its best candidate."""

import math

import numpy as np
import scipy.optimize

from .. import sched

sched.install()

import opinf  # noqa: E402

from ..rng import Rng  # noqa: E402
from ..values import snap, diff  # noqa: E402

ID = "G01"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = (
    "One evaluation is one simulated run: one to four searches, with candidates in a drawn form and an objective with drawn "
    "valleys, ripples and regions of infinite, undefined or huge values, which fails at a drawn call (user error, numerical "
    "error, interrupt), calls another search, or whose follow-up optimisation is replaced by one that stops anywhere, "
    "succeeds at a worse point or reports failure. Every result is judged against all recorded calls of the objective; a "
    "search is repeated after the failures and has to give the same. Non-trivial: a call failed, the optimisation was "
    "disturbed or unusable values occurred; distinct by event log."
)
STATES = "form of candidates x dimension x grid only x usable values x failure x disturbance x who won"
REAL = ["opinf.utils.gridsearch", "scipy.optimize (in runs without disturbance)"]
STUBS = ["objective", "scipy.optimize.minimize / minimize_scalar in disturbed runs"]
ASSUMPTIONS = ["candidates are positive unless the search is restricted to the grid", "objectives are functions of the candidate alone"]


class UserError(Exception):
    pass


ERRORS = {
    "user": UserError, "value": ValueError, "linalg": np.linalg.LinAlgError, "interrupt": KeyboardInterrupt,
    "memory": MemoryError, "runtime": RuntimeError, "zero": ZeroDivisionError,
}


def _gen_search(r):
    p = r.weighted([(0, 5), (1, 1), (2, 3), (3, 1)])  # 0: scalars, 1: one-element arrays
    n = r.weighted([(1, 2), (2, 2), (3, 3), (5, 3), (8, 2)])
    dim = max(p, 1)
    lo = r.pick([-8, -4, -2, 0])
    pts = [[round(lo + r.random() * r.pick([0.5, 4, 8]), 3) for _ in range(dim)] for _ in range(n)]
    if n > 1 and r.flag(0.15):
        pts[-1] = pts[0]
    if n > 2 and r.flag(0.2):
        pts.sort()
    holes = []
    for _ in range(r.weighted([(0, 3), (1, 3), (2, 2), (4, 2)])):
        c, w = lo + r.random() * 8, r.pick([0.05, 0.5, 2, 5])
        holes.append([c - w, c + w, r.pick(["inf", "inf", "nan", "nan", "huge", "-inf"] if r.flag(0.15) else ["inf", "nan", "huge"])])
    if r.flag(0.12):
        holes.append([-99, 99, r.pick(["inf", "nan", "huge"])])
    if r.flag(0.12):  # only the candidates are usable, or only they are not
        holes.append(["only" if r.flag() else "not", 0, r.pick(["inf", "nan", "huge"])])
    return {
        "p": p, "form": r.pick(["list", "array", "tuple", "arrays"]), "points": pts, "holes": holes,
        "center": [lo + r.random() * 6 for _ in range(dim)], "slope": r.pick([0.01, 1, 10]), "base": r.pick([0.0, 1e-12, 0.3, -2.0, 1e19]),
        "ripple": r.pick([0, 0, 0.5, 3]), "flat": r.flag(0.08), "kind": r.pick(["float", "float", "np", "0d", "int", "f32"]),
        "grid": r.flag(0.25), "verbose": r.flag(0.3), "label": r.pick(["parameter", "regularization"]),
        "fail": [r.pick(sorted(ERRORS)), r.weighted([(r.int(0, n), 3), (r.int(0, 40), 1)])] if r.flag(0.25) else None,
        "nested": r.int(0, n) if r.flag(0.08) else None,
        "disturb": [r.pick(["stop", "worse", "fail", "best"]), r.seed32(), r.int(1, 6)] if r.flag(0.4) else None,
    }


def gen(r, tier, index):
    return {"knobs": {}, "steps": [_gen_search(r) for _ in range(r.weighted([(1, 4), (2, 3), (4, 1)]))]}


def simplify(case):
    for i, s in enumerate(case["steps"]):
        for key, val in (("verbose", False), ("nested", None), ("disturb", None), ("fail", None), ("kind", "float"), ("ripple", 0), ("form", "list"), ("flat", False)):
            if s[key] != val:
                steps = list(case["steps"])
                steps[i] = dict(s, **{key: val})
                yield dict(case, steps=steps)
        for key in ("points", "holes"):
            for j in range(len(s[key]) if len(s[key]) > (key == "points") else 0):
                steps = list(case["steps"])
                steps[i] = dict(s, **{key: s[key][:j] + s[key][j + 1:]})
                yield dict(case, steps=steps)


def make_candidates(s):
    vals = [[10.0**v for v in p] for p in s["points"]]
    if s["p"] == 0:
        vals = [v[0] for v in vals]
        if s["form"] == "arrays" and len(vals) == 1:
            return vals[0]
    if s["form"] == "array":
        return np.array(vals)
    if s["form"] == "tuple":
        return tuple(tuple(v) if isinstance(v, list) else v for v in vals)
    if s["form"] == "arrays" and s["p"]:
        return [np.array(v) for v in vals]
    return vals


class Objective:
    def __init__(self, s, fail):
        self.s, self.fail = s, fail
        self.calls = []
        self.raised = None
        self.cands = [np.array([10.0**v for v in p]) for p in s["points"]]

    def value(self, x):
        s = self.s
        lx = np.log10(np.atleast_1d(np.asarray(x, dtype=float)))
        known = any(np.allclose(np.atleast_1d(x), c, rtol=1e-13, atol=0) for c in self.cands)
        for a, b, what in s["holes"]:
            if (a == "only" and not known) or (a == "not" and known) or (not isinstance(a, str) and a <= lx[0] <= b):
                return {"inf": math.inf, "nan": math.nan, "huge": 1e30 + abs(float(lx[0])) * 1e28, "-inf": -math.inf}[what]
        if s["flat"]:
            return s["base"]
        out = s["base"] + s["slope"] * float(np.sum((lx - np.array(s["center"])) ** 2))
        return out + s["ripple"] * float(np.sum(np.sin(9 * lx) ** 2))

    def __call__(self, x):
        n = len(self.calls)
        v = self.value(x)
        self.calls.append((np.array(x, dtype=float, copy=True), v))
        if self.fail is not None and n == self.fail[1]:
            self.raised = ERRORS[self.fail[0]]("simulated failure of the objective")
            raise self.raised
        if self.s["nested"] == n:
            opinf.utils.gridsearch(lambda z: (math.log10(z) - 1.0) ** 2 if z < 1e3 else math.inf, [0.1, 1.0, 1e5])
        kind = self.s["kind"]
        if kind == "np":
            return np.float64(v)
        if kind == "0d":
            return np.array(v)[()]
        if kind == "f32" and math.isfinite(v):
            v = float(np.float32(v))
            self.calls[-1] = (self.calls[-1][0], v)
        if kind == "int" and math.isfinite(v):
            v = int(round(v))
            self.calls[-1] = (self.calls[-1][0], v)
        return v


class Disturbed:
    """An optimiser that stops where the simulator says."""

    def __init__(self, how, seed, steps):
        self.how, self.seed, self.steps = how, seed, steps
        self.used = 0

    def __call__(self, fun, *args, **kw):
        self.used += 1
        r = Rng(self.seed, self.used)
        if kw.get("x0") is None and args:
            kw["x0"] = args[0]
        seen = []
        for _ in range(self.steps):
            if kw.get("x0") is not None:
                x = np.array(kw["x0"], dtype=float) + np.array([r.random() * 4 - 2 for _ in np.atleast_1d(kw["x0"])])
            else:
                b = kw.get("bounds", kw.get("bracket"))
                a, b = (-8.0, 8.0) if b is None else (float(b[0]), float(b[-1]))
                x = np.float64(a + r.random() * (b - a))
            seen.append((fun(x), x))
        best = min(seen, key=lambda v: v[0])
        worst = max(seen, key=lambda v: v[0])
        f, x = {"stop": seen[-1], "worse": worst, "fail": best, "best": best}[self.how]
        ok = self.how in ("worse", "best") or (self.how == "stop" and r.flag())
        return scipy.optimize.OptimizeResult(x=x, fun=f, success=ok, status=0 if ok else 2, nfev=len(seen), nit=len(seen), message="simulated optimiser")


def search(s, ctx, fail):
    cands = make_candidates(s)
    held = snap(cands)
    obj = Objective(s, fail)
    dist = Disturbed(*s["disturb"]) if s["disturb"] else None
    saved = scipy.optimize.minimize, scipy.optimize.minimize_scalar
    if dist and s["nested"] is None:
        scipy.optimize.minimize = scipy.optimize.minimize_scalar = dist
    out = ex = None
    try:
        out = opinf.utils.gridsearch(obj, cands, gridsearch_only=s["grid"], label=s["label"], verbose=s["verbose"])
    except (Exception, KeyboardInterrupt) as e:
        ex = e
    finally:
        scipy.optimize.minimize, scipy.optimize.minimize_scalar = saved
    if (d := diff(held, snap(cands), 0, 0)):
        ctx.fail("candidates", f"the candidates were changed: {d}")
    if dist and dist.used:
        ctx.fault(f"optimiser: {dist.how}")
    if obj.raised is not None:
        ctx.fault(f"objective raises {type(obj.raised).__name__}")
        if ex is None or type(ex) is not type(obj.raised):
            ctx.fail("swallowed", f"the objective raised {obj.raised!r}, the search gave {ex!r} / {out!r}")
        return "raised", None, obj
    plain = Objective(s, None)
    values = [plain(c if s["p"] else float(c[0])) for c in plain.cands]
    usable = [float(v) for v in values if not math.isnan(v) and v != math.inf]
    if any(v != v or v == math.inf for v in values):
        ctx.probe("unusable candidate")
        ctx.nontrivial = True
    if not usable:
        if ex is None:
            ctx.fail("no-error", f"no candidate is usable ({values}), but the search returned {out!r}")
        if not isinstance(ex, RuntimeError):
            ctx.fail("no-error", f"no candidate is usable: expected a RuntimeError, got {ex!r}")
        return "none", None, obj
    if ex is not None:
        ctx.fail("refused", f"usable candidates exist ({values}), but the search raised {type(ex).__name__}: {ex}")
    best = min(usable)
    bound = best + 1e-9 * abs(best) if math.isfinite(best) else best
    got = np.atleast_1d(np.asarray(out, dtype=float))
    if got.shape != (max(s["p"], 1),):
        ctx.fail("shape", f"the winner has the wrong shape: {out!r}")
    near = [v for x, v in obj.calls if np.allclose(np.atleast_1d(x), got, rtol=1e-9, atol=0)]
    if not near:
        ctx.fail("unseen", f"the winner {out!r} was never evaluated")
    if not any(v <= bound for v in near):
        ctx.fail("worse", f"the winner {out!r} has objective {near[0]}, the best candidate has {best}")
    on_grid = [v for c, v in zip(plain.cands, values) if np.allclose(c, got, rtol=1e-12, atol=0)]
    if s["grid"] and not any(v <= bound for v in on_grid):
        ctx.fail("grid", f"restricted to the grid, the winner is {out!r} (candidates {make_candidates(s)!r} with {values})")
    for c in plain.cands:
        if not any(np.allclose(np.atleast_1d(x), c, rtol=1e-12, atol=0) for x, _ in obj.calls):
            ctx.fail("skipped", f"candidate {c} was never evaluated")
    return ("grid" if on_grid else "optimised"), out, obj


def run(case, ctx):
    done = []
    for s in case["steps"]:
        who, out, obj = search(s, ctx, s["fail"])
        ctx.event(who, len(obj.calls), *np.atleast_1d(out) if out is not None else [])
        ctx.state(s["form"], s["p"], s["grid"], who, s["fail"] and s["fail"][0], s["disturb"] and s["disturb"][0], len(s["points"]))
        done.append((s, who, out))
    for s, who, out in done:  # again, after whatever happened in between
        again = search(s, ctx, None if who == "raised" else s["fail"])
        if who != "raised" and (again[0] != who or diff(snap(out), snap(again[1]), 0, 0)):
            ctx.fail("repeat", f"the same search gave {out!r} and then {again[1]!r}")
