"""H03: preprocessing reflects the latest fit and can be undone."""

import contextlib
import io
import os

import numpy as np

import opinf

from .. import zoo
from ..inject import attempt, gen_fault
from ..ref_pre import RefT
from ..values import diff, outcome, recycle, scribble, snap
from ..zoo import arr

ID = "H03"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 80000}
RULE = (
    "One evaluation is one simulated run: a transformer or nesting of transformers is fitted 1 to 8 times on data of changing "
    "size, spread and layout, between which it is used, given invalid data, has statistics assigned, is saved and loaded, and "
    "fits and queries fail at a drawn numerical call or are interrupted at a drawn line. After every step its answers are "
    "compared with an independent reference fitted on the latest data. Non-trivial: a step was rejected or a fault fired."
)
STATES = "transformer kind and nesting x step x outcome x kind of data"
REAL = ["opinf.pre", "opinf.utils (hdf5)", "numpy"]
STUBS = ["numerical calls and lines of the package that are made to fail"]
ASSUMPTIONS = [
    "training data has at least three snapshots and no constant row",
    "between a failed fit and the next successful one nothing is claimed, except that the caller's data are unchanged "
    "unless the fit was to work in place",
]


def gen(r, tier, index):
    n = r.weighted([(2, 1), (4, 2), (6, 3), (9, 2), (12, 1)])
    c = zoo.gen_transformer(r, n)
    steps = []
    for j in range(r.int(2, 10)):
        op = "fit" if j == 0 else r.weighted([("fit", 5), ("reject", 1.2), ("query", 3), ("setstat", 1), ("reload", 0.7), ("name", 0.3), ("badquery", 0.8), ("function", 0.5)])
        s = {"op": op, "seed": r.seed32(), "how": r.int(0, 7)}
        if op == "fit":
            s |= {"k": r.pick([3, 5, 12]), "data": r.pick(["plain", "offset", "scales", "tiny", "positive", "negative"]),
                  "via": r.pick(["fit", "fit_transform", "inplace"]), "layout": r.pick(["c", "f", "view"]), "recycle": r.flag(0.4), "near": r.flag(0.15)}
            if zoo._flexible(c) and r.flag(0.3):
                s["n"] = n + r.int(1, 3)
        if op in ("fit", "query", "function") and r.flag(0.3):
            s["fault"] = gen_fault(r)
        steps.append(s)
    return {"knobs": {"tf": c, "qseed": r.seed32()}, "steps": steps}


def make_data(s, n):
    X = arr((s["seed"], 1), n, s["k"])
    d = s["data"]
    if d == "offset":
        X = X + 100 * arr((s["seed"], 2), n, 1)
    elif d == "scales":
        X = X * 10.0 ** (3 * arr((s["seed"], 2), n, 1).clip(-1, 1))
    elif d == "tiny":
        X = X * 1e-6
    elif d == "positive":
        X = np.abs(X) + 1
    elif d == "negative":
        X = -np.abs(X) - 1
    if s["layout"] == "f":
        X = np.asfortranarray(X)
    elif s["layout"] == "view":
        big = np.full((n, 2 * s["k"]), 7.0)
        big[:, ::2] = X
        X = big[:, ::2]
    return X


def kinds(c):
    return c["t"] + ("[" + ",".join(sorted({kinds(m) for m in c["members"]})) + "]" if "members" in c else "")


def has(c, t):
    return c["t"] == t or any(has(m, t) for m in c.get("members", ()))


def run(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case, ctx)


def _run(case, ctx):
    c, qseed = case["knobs"]["tf"], case["knobs"]["qseed"]
    obj = zoo.build_transformer(c)
    ref = RefT(c)
    valid = fitted = False
    last = None
    name = kinds(c)
    for j, s in enumerate(case["steps"]):
        op, fault = s["op"], s.get("fault")
        ex = fired = None
        if op == "fit":
            n = s.get("n", c["n"])
            X = make_data(s, n)
            if s["near"] and fitted and held.shape[0] == n:  # the latest data, but for one entry
                X = held.copy()
                X[s["seed"] % n, s["seed"] // 7 % X.shape[1]] += 0.5
            if s.get("recycle"):  # the caller uses its array again
                X = recycle(last, X)
            last = X
            held = X.copy()
            inplace = s["via"] == "inplace"
            if s["via"] == "fit":
                value, ex, fired = attempt(lambda: obj.fit(X), fault, ctx)
            else:
                value, ex, fired = attempt(lambda: obj.fit_transform(X, inplace=inplace), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{name}: fit raised {type(ex).__name__}: {ex}")
            if not inplace and not np.array_equal(X, held):
                ctx.fail("arguments", f"{name}: {s['via']} changed the caller's data")
            if ex is None:
                valid = fitted = True
                ref = RefT(c)
                Y = ref.fit(held)
                if s["via"] == "fit":
                    if value is not obj:
                        ctx.fail("fit-self", f"{name}: fit() returned something else than the transformer")
                else:
                    scale = 1e-9 * max(1.0, np.abs(Y).max())
                    if (d := diff(snap(Y), snap(value), 1e-7, scale)):
                        ctx.fail("fit_transform", f"{name}: fit_transform: {d}")
                    if inplace and (value is not X or diff(snap(Y), snap(X), 1e-7, scale)):
                        ctx.fail("inplace", f"{name}: fit_transform(inplace=True) did not work in place")
                    if not inplace and np.shares_memory(value, X):
                        ctx.fail("inplace", f"{name}: fit_transform(inplace=False) returned the caller's data")
                if s["seed"] % 4 == 0:  # the caller writes into its arrays
                    scribble([X, value])
            else:
                valid = False
        elif op == "reject" and not (has(c, "tmulti") and not fitted):  # sizes would be taken from the bad data
            bad = [arr(s["seed"], 3), arr(s["seed"], c["n"] + 1, 4) if not zoo._flexible(c) else arr(s["seed"], 2, 2, 2), "states", None][s["how"] % 4]
            if c["t"] in ("shift", "scale", "null") and s["how"] % 4 != 1:
                bad = None
            value, ex, fired = attempt(lambda: obj.fit(bad))
            if ex is None and bad is None:
                ctx.fail("accepted", f"{name}: fit accepted {bad!r}")
            if ex is None or "members" in c or (c["t"] in ("scale", "null") and s["how"] % 4 == 1):
                valid = False if zoo._flexible(c) or "members" in c else valid
        elif op == "badquery" and valid:
            X = arr(s["seed"], ref_n(ref, c) + 1, 3)
            f = [obj.transform, obj.inverse_transform][s["how"] % 2]
            value, ex, fired = attempt(lambda: f(X))
            if ex is None:
                ctx.fail("accepted", f"{name}: {f.__name__} accepted states of another dimension")
        elif op == "setstat" and c["t"] == "shiftscale" and valid:
            setstat(obj, ref, c, s, ctx)
        elif op == "function":
            value, ex, fired = attempt(lambda: functions(s, ctx), fault, ctx)
            if ex is not None and not fired:
                raise ex
        elif op == "name":
            if c["t"] != "tmulti":
                obj.name = f"name-{s['how']}"
        elif op == "reload" and zoo.savable(c) and valid:
            path = os.path.join(ctx.scratch, f"tf{j}.h5")
            obj.save(path) if s["how"] % 2 else zoo.save(obj, c, path)
            obj = zoo.load(c, path)
            os.unlink(path)
        elif op == "query" and valid:
            value, ex, fired = attempt(lambda: use(obj, ref, c, s["seed"], s["how"]), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{name}: query raised {type(ex).__name__}: {ex}")
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(name, op, s.get("data", ""), type(ex).__name__ if ex else "", s.get("via", ""))
        if valid and (d := compare(obj, ref, c, qseed)):
            ctx.fail("wrong", f"{name} after step {j} ({op}): {d}")


def functions(s, ctx):
    """shift() and scale() learn from the data they are given."""
    seed = s["seed"]
    X, Y = 2 * arr((seed, 1), 1 + seed % 5, 3 + s["how"]) + 1, 5 * arr((seed, 2), 1 + seed % 5, 4)
    Xc, Yc = X.copy(), Y.copy()
    lo, hi = [(0, 1), (-1, 1), (2.5, -1), (-3, 7)][seed % 4]
    out, by = opinf.pre.shift(X)
    a, b = X.min(), X.max()
    scaled, to, of = opinf.pre.scale(X, (lo, hi))

    def there(A):
        return lo + (A - a) * (hi - lo) / (b - a)

    want = [X - X.mean(axis=1)[:, None], X.mean(axis=1), Y - X.mean(axis=1)[:, None], Y - X.mean(axis=1)[:, None], there(X), [lo, hi], [a, b], there(Y), Y]
    got = [out, by, opinf.pre.shift(Y, by), opinf.pre.shift(Y, by.reshape(-1, 1)), scaled, list(to), list(of), opinf.pre.scale(Y, to, of),
           opinf.pre.scale(opinf.pre.scale(Y, to, of), of, to)]
    for i, (w, g) in enumerate(zip(want, got)):
        if (d := diff(snap(w), snap(g), 1e-9, 1e-9)):
            ctx.fail("function", f"{'shift()' if i < 4 else 'scale()'} ({i}): {d}")
    if not (np.array_equal(X, Xc) and np.array_equal(Y, Yc)):
        ctx.fail("arguments", "shift() or scale() changed the caller's data")


def ref_n(ref, c):
    return ref.n or c["n"]


def setstat(obj, ref, c, s, ctx):
    """Assigned statistics replace learned ones; wrong ones are rejected."""
    n = ref.n
    what = ["mean_", "scale_", "shift_"][s["seed"] % 3]
    byrow = what == "mean_" or c["byrow"]
    allowed = c["centering"] if what == "mean_" else c["scaling"] is not None
    v = 0.5 + np.abs(arr(s["seed"], n)) if byrow else 0.5 + s["how"]
    if allowed and byrow and s["how"] % 3 == 0:
        v = arr(s["seed"], n + 1)
        allowed = False
    ex = attempt(lambda: setattr(obj, what, v))[1]
    if allowed == (ex is not None):
        ctx.fail("setter", f"shiftscale.{what} = {np.shape(v)} with n={n}, centering={c['centering']}, scaling={c['scaling']}, "
                 f"byrow={c['byrow']}: {'accepted' if ex is None else repr(ex)}")
    if allowed:
        setattr(ref, {"mean_": "mean", "scale_": "a", "shift_": "b"}[what], v)


def use(obj, ref, c, seed, how):
    n = ref_n(ref, c)
    X = arr((seed, 1), n, 3)
    Y = obj.transform(X)
    obj.inverse_transform(Y)
    obj.transform_ddts(X, inplace=False)
    str(obj)


def locations(ref, c, seed):
    """Locations that every nested transformer has, or None."""
    if c["t"] == "tmulti":
        if len(set(c["sizes"])) > 1 or any(has(m, "tmulti") for m in c["members"]):
            return None
        n, nv = c["sizes"][0], len(c["members"])
    elif has(c, "tmulti"):
        return None
    else:
        n, nv = ref_n(ref, c), 1
    g = np.random.default_rng((seed, 5))
    how = seed % 5
    if how == 0:
        a = int(g.integers(0, n))
        some = [slice(0, n, 2), slice(a, n), slice(None, a + 1), slice(None, None, -1), slice(-1 - a, None)][seed // 5 % 5]
        return some, np.arange(n)[some].size * nv
    if how == 4:
        return g.integers(-n, n, size=int(g.integers(1, n + 2))), None
    if how == 1:
        return np.arange(n), n * nv
    k = int(g.integers(1, n + 1))
    locs = g.choice(n, size=k, replace=False)
    return (np.sort(locs) if how == 2 else locs), k * nv


def compare(obj, ref, c, seed):
    n = ref_n(ref, c)
    if obj.state_dimension != n:
        return f"state dimension {obj.state_dimension} instead of {n}"
    X, x = 3 * arr((seed, 1), n, 4) + 1, arr((seed, 2), n)
    both = [("transform", ref.forward), ("inverse_transform", ref.backward), ("transform_ddts", ref.derivative)]
    for method, want in both:
        f = getattr(obj, method)
        for A in (X, x):
            W = want(A)
            if W is NotImplemented:  # derivatives cannot be mapped, as the members say
                if (d := diff(snap(W), outcome(lambda: f(A.copy(), inplace=bool(seed % 2))))):
                    return f"{method}: {d}"
                continue
            tol = (1e-7, 1e-9 * max(1.0, np.abs(W).max()))
            given = A.copy()
            got = outcome(lambda: f(given, inplace=False))
            if (d := diff(snap(W), got, *tol)):
                return f"{method}: {d}"
            if not np.array_equal(A, given):
                return f"{method} changed its argument"
            got = outcome(lambda: f(given, inplace=True))
            if (d := diff(snap(W), got, *tol)) or (d := diff(snap(W), snap(given), *tol)):
                return f"{method} in place: {d}"
    for A in (X, x):
        back = obj.inverse_transform(obj.transform(A.copy()))
        W = ref.forward(A)
        if (d := diff(snap(A), snap(back), 1e-6, 1e-7 * max(1.0, np.abs(W).max(), span(ref)))):
            return f"round trip: {d}"
    loc = locations(ref, c, seed)
    if loc is not None:
        locs, k = loc
        if k is None:  # with negative and repeated ones
            k = locs.size * (len(c["members"]) if c["t"] == "tmulti" else 1)
        for A in (arr((seed, 3), k, 3), arr((seed, 3), k)):
            W = ref.backward(A, locs)
            if (d := diff(snap(W), outcome(lambda: obj.inverse_transform(A.copy(), locs=locs)), 1e-7, 1e-9 * max(1.0, np.abs(W).max()))):
                return f"inverse_transform at {locs}: {d}"
    if c["t"] == "shiftscale":
        for a, v in (("mean_", ref.mean if c["centering"] else None), ("scale_", ref.a if c["scaling"] else None), ("shift_", ref.b if c["scaling"] else None)):
            got = snap(getattr(obj, a))
            if (d := diff(snap(v), got, 1e-7, 1e-9 * (1 + np.max(np.abs(v)) if v is not None else 1))):
                return f"{a}: {d}"
    if c["t"] == "tmulti":
        parts = np.split(X, ref.cuts)
        if (d := diff(snap(parts), outcome(lambda: list(obj.split(X))), 0, 0)):
            return f"split: {d}"
        i = seed % len(parts)
        for key in (i, obj.variable_names[i]) if len(set(obj.variable_names)) == len(parts) else (i,):
            if (d := diff(snap(parts[i]), outcome(lambda: obj.get_var(key, X)), 0, 0)):
                return f"get_var({key!r}): {d}"
        if list(obj.variable_sizes) != list(c["sizes"]):
            return f"variable sizes {obj.variable_sizes} instead of {c['sizes']}"
    for tf, m, mr in zip(getattr(obj, "transformers", ()), c.get("members", ()), ref.members):
        if (d := compare(tf, mr, m, seed)):
            return f"member {m['t']}: {d}"
    return None


def span(ref):
    """Largest offset the transformer moves data by."""
    out = [np.max(np.abs(ref.mean)), np.max(np.abs(np.asarray(ref.b) / np.asarray(ref.a)))]
    return max([float(v) for v in out] + [span(m) for m in ref.members])
