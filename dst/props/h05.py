"""H05: a reduced-order model is its parts put together."""

import copy

import numpy as np

from .. import zoo, zoo_rom
from ..inject import attempt, gen_fault
from ..values import diff, outcome, recycle, scribble, snap
from ..zoo import arr

ID = "H05"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 50000}
RULE = (
    "One evaluation is one simulated run: a reduced-order model of drawn parts (lifter, transformer, basis, derivative "
    "estimator, nonparametric, parametric or Bayesian model) is fitted 2 to 6 times with other data, keeping or renewing its "
    "parts, given incomplete data, made to fail at a drawn numerical call or interrupted at a drawn line of the fit; after every "
    "successful fit its encoding, decoding, projection, operators, posterior and predictions are compared with the documented "
    "composition of separately built parts. Non-trivial: a step failed or a fault fired, distinct by event log."
)
STATES = "kind x parts present x step x outcome"
REAL = ["opinf.roms, and everything they are made of", "numpy and scipy"]
STUBS = ["numerical calls and lines of the package that are made to fail"]
ASSUMPTIONS = ["the parts are right by themselves (H02, H03, H04, H06)"]


def gen(r, tier, index):
    c = zoo_rom.gen_rom(r)
    line = _no_bmulti(c)
    steps = []
    for j in range(r.int(2, 6)):
        op = r.weighted([("fit", 6), ("badfit", 1.5), ("user", 1), ("encfit", 1), ("query", 1.5)])
        s = {"op": op, "seed": r.seed32(), "k": r.pick([12, 14, 18]), "s": r.pick([1, 1, 2, 3]) if c["t"] != "prom" else r.pick([4, 5, 6]),
             "lhs": r.flag(0.4), "single": r.flag(0.5), "keep_t": r.flag(0.2), "keep_b": r.flag(0.2), "how": r.int(0, 4),
             "longer": r.flag(0.3), "recycle": r.flag(0.3)}
        if op in ("fit", "badfit", "query", "encfit") and r.flag(0.35):
            s["fault"] = gen_fault(r, (("call", 3), ("line", 3)) if line else (("call", 1),))
        steps.append(s)
    if steps[-1]["op"] == "fit":
        steps[-1].pop("fault", None)
    return {"knobs": {"rom": c, "qseed": r.seed32()}, "steps": steps}


def _no_bmulti(c):
    return not (c["basis"] and c["basis"]["t"] == "bmulti")


def run(case, ctx):
    c, qseed = case["knobs"]["rom"], case["knobs"]["qseed"]
    rom = zoo_rom.build_rom(c)
    ref = zoo_rom.Composition(c)
    cont = c["model"]["t"].endswith("cont")
    parts_ok = False  # transformer and basis are those of the reference
    model_ok = False
    last = None  # arrays of the caller
    label = f"{c['t']} of " + "+".join(x and x["t"] for x in (c["lifter"], c["transformer"], c["basis"], c["ddt"]) if x) + f"+{c['model']['t']}"
    for j, s in enumerate(case["steps"]):
        op, fault = s["op"], s.get("fault")
        ex = fired = None
        if op in ("fit", "badfit"):
            data = zoo_rom.rom_data(c, s["seed"], s["k"], s["s"], s["lhs"])
            keep_t, keep_b = s["keep_t"] and parts_ok, s["keep_b"] and parts_ok
            if op == "badfit":
                call = spoil(c, data, s["how"])
                if call is None:
                    ctx.event(j, op, "skipped")
                    continue
            else:
                call = longer(data, s["seed"]) if s.get("longer") and not cont and data["lhs"] is None else data
            call = copy.deepcopy(call)
            if s.get("recycle") and last is not None:  # the caller uses its arrays again
                call = recycle(last, call)
            last = call
            held = copy.deepcopy(call)
            value, ex, fired = attempt(
                lambda: zoo_rom.fit_rom(rom, c, call, s["single"], fit_transformer=not keep_t, fit_basis=not keep_b), fault, ctx
            )
            if (d := diff(snap(held), snap(call), 0, 0)):
                ctx.fail("arguments", f"fit of {label} changed its arguments: {d}")
            if op == "fit":
                if ex is not None and not fired:
                    ctx.fail("refused", f"fit of {label} raised {type(ex).__name__}: {ex}")
                if ex is None:
                    if value is not rom:
                        ctx.fail("return", f"fit of {label} does not return the model")
                    ref.fit(data, not keep_t, not keep_b)
                parts_ok = model_ok = ex is None
                if ex is None and s["seed"] % 4 == 0:  # the caller writes into its arrays
                    scribble(call)
                if fired and c["t"] == "brom" and rom.posterior is None:
                    model_ok = False  # a failing factorization leaves no posterior
            else:
                if ex is None and s["how"] < 2:
                    ctx.fail("accepted", f"fit of {label} accepted incomplete data ({s['how']})")
                parts_ok = model_ok = False
        elif op == "user":  # the caller trains a part
            data = zoo_rom.rom_data(c, s["seed"], s["k"], 1)
            Q = ref.lift(data["states"][0])
            if not (rom.transformer is not None and parts_ok):
                ctx.event(j, op, "skipped")
                continue
            rom.transformer.fit(Q.copy())
            ref.transformer = zoo.build_transformer(c["transformer"])
            ref.transformer.fit(Q.copy())
            model_ok = False
        elif op == "encfit":
            data = zoo_rom.rom_data(c, s["seed"], s["k"], 1, s["lhs"])
            X, L = data["states"][0], (data["lhs"][0] if data["lhs"] else None)
            keep_t, keep_b = s["keep_t"] and parts_ok, s["keep_b"] and parts_ok
            x, l = X.copy(), None if L is None else L.copy()
            args = [x] if l is None else [x, l]
            kw = {"inplace": True} if s["single"] else {}
            value, ex, fired = attempt(lambda: rom.encode(*args, **kw, fit_transformer=not keep_t, fit_basis=not keep_b), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"encode of {label} raised {type(ex).__name__}: {ex}")
            parts_ok, model_ok = ex is None, False
            if ex is None:
                ref.train_parts([X], not keep_t, not keep_b)
                want = ref.encode(X) if L is None else [ref.encode(X), ref.encode_lhs(X, L)]
                if (d := diff(snap(want), snap(value), 1e-6, 1e-8)):
                    ctx.fail("encode", f"encode of {label} with fitting: {d}")
                if not kw and (d := diff(snap([X, L]), snap([x, l]), 0, 0)):
                    ctx.fail("arguments", f"encode of {label} changed its arguments: {d}")
        else:
            if model_ok and c["t"] != "brom":
                value, ex, fired = attempt(lambda: ask(rom, c, s["seed"]), fault, ctx)
                if ex is not None and not fired:
                    ctx.fail("refused", f"query of {label} raised {type(ex).__name__}: {ex}")
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(label, op, type(ex).__name__ if ex else "", fired and fired[0])
        where = f"{label} after step {j} ({op})"
        if parts_ok and (d := compare_parts(rom, ref, c, cont, qseed)):
            ctx.fail("parts", f"{where}: {d}")
        if model_ok and (d := compare_model(rom, ref, c, qseed)):
            ctx.fail("model", f"{where}: {d}")
    ctx.event("model", rom.model.state_dimension)


def longer(data, seed):
    """The same data with inputs at later times, too, which a discrete model does not use."""
    if data["inputs"] is None:
        return data
    more = [np.hstack([U, arr((seed, 61, i), U.shape[0], 2)]) for i, U in enumerate(data["inputs"])]
    return dict(data, inputs=more)


def spoil(c, data, how):
    d = dict(data)
    if how == 0:
        if not c["model"]["m"]:
            return None
        d["inputs"] = None
    elif how == 1:
        if c["ddt"] or not c["model"]["t"].endswith("cont"):
            return None
        d["lhs"] = None
    elif how == 2 and not _multi(c["transformer"]) and not _multi(c["basis"]):
        d["states"] = [Q[:-1] for Q in d["states"]]
    elif how == 3 and d["lhs"] is not None:
        d["lhs"] = [L[:, :-2] for L in d["lhs"]]
    else:
        d["states"] = d["states"][:-1] + [np.full_like(d["states"][-1], np.nan)]
    return d


def points(c, seed, k=3):
    return 1.5 + 1.0 / (1.0 + np.exp(-arr((seed, 43), c["n0"], k)))


def ask(rom, c, seed):
    X = points(c, seed)
    lead, x0, more = zoo_rom.probe_args(c, seed)
    rom.encode(X, arr((seed, 44), c["n0"], 3))
    rom.project(X)
    rom.decode(arr((seed, 45), rom.model.state_dimension, 2))
    rom.predict(*lead, x0, *more)
    str(rom)


def compare_parts(rom, ref, c, cont, seed):
    X, L = points(c, seed), arr((seed, 44), c["n0"], 3) + (0 if cont else 3)
    Z = ref.encode(X)
    rr = Z.shape[0]
    Y, y = arr((seed, 45), rr, 3), arr((seed, 46), rr)
    args = [X.copy(), L.copy(), Y.copy(), y.copy()]
    held = snap(args)
    tests = {
        "encode()": (lambda: Z, lambda: rom.encode(args[0])),
        "encode() of one state": (lambda: Z[:, 1], lambda: rom.encode(args[0][:, 1])),
        "encode() in place": (lambda: Z, lambda: rom.encode(X.copy(), inplace=True)),
        "encode() with left-hand side": (lambda: [Z, ref.encode_lhs(X, L)], lambda: list(rom.encode(args[0], args[1]))),
        "decode()": (lambda: ref.decode(Y), lambda: rom.decode(args[2])),
        "decode() of one state": (lambda: ref.decode(y), lambda: rom.decode(args[3])),
        "project()": (lambda: ref.decode(Z), lambda: rom.project(args[0])),
    }
    if (locs := locations(c)) is not None:
        rows, picked = locs
        given = Y if c["basis"] else Y[picked]
        tests["decode() at locations"] = (lambda: ref.decode(Y)[rows], lambda: rom.decode(given.copy(), locs=np.array(locs_arg(c))))
    for name, (want, got) in tests.items():
        if (d := diff(outcome(want), outcome(got), 1e-6, 1e-8)):
            return f"{name}: {d}"
    if (d := diff(held, snap(args), 0, 0)):
        return f"queries changed their arguments: {d}"
    return None


def _multi(c):
    if c is None:
        return False
    return c["t"] in ("tmulti", "bmulti") or any(_multi(m) for m in c.get("members", ()))


def locs_arg(c):
    n0, n1 = c["n0"], c["n"]
    return [i + j * n0 for j in range(n1 // n0) for i in sorted({0, n0 - 1})]


def locations(c):
    """Rows of the decoded state and of the full state for decode(locs=...)."""
    if _multi(c["transformer"]) or _multi(c["basis"]):
        return None
    return sorted({0, c["n0"] - 1}), locs_arg(c)


def compare_model(rom, ref, c, seed):
    lead, x0, more = zoo_rom.probe_args(c, seed)
    keep = snap([x0, [a for a in more if isinstance(a, np.ndarray)]])
    if c["t"] == "brom":
        means, precisions = ref.model.solver.posterior()
        got = rom.posterior
        if max(np.linalg.cond(P) for P in precisions) > 1e11:
            return None  # may or may not be found singular
        if got is None:
            return "no posterior"
        if (d := diff(snap(list(means)), snap(list(got.means)), 1e-6, 1e-8)):
            return f"posterior means: {d}"
        covs = [np.linalg.inv(P) for P in precisions]
        if max(np.linalg.cond(P) for P in precisions) < 1e8 and (d := diff(snap(covs), snap(list(got.covs)), 1e-4, 1e-8)):
            return f"posterior covariances: {d}"
        state = np.random.get_state()
        np.random.seed(seed % 2**31)
        draw = got.rvs()
        np.random.set_state(state)
        if not isinstance(draw, np.ndarray) or draw.shape != (len(means), len(means[0])):
            return f"the posterior draws a {type(draw).__name__} of shape {np.shape(draw)}"
        far = max((x - m) @ P @ (x - m) for x, m, P in zip(draw, means, precisions))
        if max(np.linalg.cond(P) for P in precisions) < 1e8 and not far < 300 + 10 * draw.shape[1]:
            return f"the posterior draws operators {np.sqrt(far)} standard deviations from the mean"
    else:
        a = [o.entries for o in ref.model.operators]
        b = [o.entries for o in rom.model.operators]
        if (d := diff(snap(a), snap(b), 1e-6, 1e-8)):
            return f"operators: {d}"
    for x in (x0, 0.5 + x0):
        got = outcome(lambda: rom.predict(*lead, x, *more))
        model = rom.model if c["t"] == "brom" else ref.model  # a draw, as shown by the model
        want = outcome(lambda: ref.decode(model.predict(*lead, ref.encode(x), *more)))
        if (d := diff(want, got, 1e-5, 1e-8)):
            return f"prediction: {d}"
    if c["t"] != "brom":
        for o, e in zip(rom.model.operators, b):
            if o.entries is not e and (d := diff(snap(e), snap(o.entries), 0, 0)):
                return f"prediction changed the operators: {d}"
    if (d := diff(keep, snap([x0, [a for a in more if isinstance(a, np.ndarray)]]), 0, 0)):
        return f"prediction changed its arguments: {d}"
    return None
