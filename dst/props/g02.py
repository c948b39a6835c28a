"""G02: regularization selection ends at the best stable candidate."""

import contextlib
import copy
import warnings

import numpy as np

from .. import limits  # before the package is imported

import opinf  # noqa: E402

from .. import draws, zoo, zoo_rom  # noqa: E402
from ..inject import attempt, gen_fault
from ..values import diff, snap
from ..zoo import arr

ID = "G02"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 20000}
RULE = (
    "One evaluation is one simulated run: a reduced-order model of drawn parts goes through 2 to 5 selections and direct fits "
    "with other data, candidates, regularizer factories (some of which refuse a candidate), stability margins, test cases and "
    "testing horizons, some of them made to fail at a drawn numerical call or interrupted at a drawn line; after every "
    "successful selection the model is compared with a direct fit of separately built parts with the selected regularization, "
    "and the selected candidate with the errors and stability of all candidates computed from such fits. Non-trivial: a "
    "candidate was rejected, a step failed or a fault fired, distinct by event log."
)
STATES = "kind of model x solver x candidates x rejected candidates x fault x outcome"
REAL = ["opinf.roms, opinf.utils.gridsearch and everything they are made of", "numpy and scipy"]
STUBS = ["an ODE solver that gives up after 1000 evaluations", "numerical calls and lines of the package that are made to fail", "regularizer factory, input functions", "random draws of the posterior, which can be made its mean"]
ASSUMPTIONS = [
    "the parts are right by themselves (H02 to H06)",
    "candidates within 1e-6 of a stability limit or of the best error are not told apart",
    "Bayesian models whose draws are not their means are judged by their posterior only",
]

SOLVERS = ("l2", "l2dec", "tik", "tikdec")


def gen(r, tier, index):
    c = zoo_rom.gen_rom(r, kind=r.weighted([("rom", 5), ("prom", 3), ("brom", 2)]), infer=True)
    t = r.weighted([("l2", 4), ("tik", 3), ("l2dec", 2), ("tikdec", 1)])
    c["model"]["solver"] = {"t": t, "d": 1, "r": 1, "reg": None, "driver": None if t[0] == "t" else "gesdd", "method": r.pick(["lstsq", "normal"]), "cond": None}
    steps = []
    for j in range(r.int(2, 5)):
        op = r.weighted([("select", 6), ("fit", 1), ("allbad", 0.7), ("bad", 0.7)])
        p = 1 if t == "l2" or r.flag(0.6) else 2
        n = r.weighted([(1, 1), (2, 2), (3, 3), (5, 2)])
        only = r.flag(0.88 if p == 1 else 0.97)
        s = {
            "op": op, "seed": r.seed32(), "p": p,
            "cands": [[round(r.random() * 10 - 7, 3) for _ in range(p)] for _ in range(n)],
            "only": only, "trip": round(r.random() * 8 - 6, 3) if r.flag(0.25) else None, "how": r.int(0, 3),
            "margin": r.pick([0.9, 1.2, 1.5, 3.0, 10.0]), "tests": r.weighted([(0, 3), (1, 2), (2, 1)]), "bound": r.pick([None, 0.2, 1.0, 5.0]),
            "ahead": r.pick([0, 0, 0.3, 1.0]), "s": r.pick([1, 1, 2, 3]), "single": r.flag(0.4), "ddts": r.flag(0.4), "verbose": r.flag(0.2),
            "one_input": r.flag(0.5), "keep_t": r.flag(0.15), "keep_b": r.flag(0.15), "noise": r.pick([0, 0.01, 0.1, 0.4]), "k": r.pick([14, 18, 24]),
            "uneven": r.flag(0.4), "clock": r.pick(["same", "same", "nonuniform", "different"]),
            "rest": r.flag(0.15), "bare": r.flag(0.15), "one_test": r.flag(0.5),
            "options": r.pick([{}, {}, {"method": "BDF"}, {"rtol": 1e-5}]) if r.flag(0.3) else {},
        }
        if op in ("select", "fit") and r.flag(0.3):
            line = c["basis"] is None or c["basis"]["t"] != "bmulti"
            s["fault"] = gen_fault(r, (("call", 3), ("line", 3)) if line else (("call", 1),))
        steps.append(s)
    if steps[-1]["op"] == "select":
        steps[-1].pop("fault", None)
    return {"knobs": {"rom": c, "qseed": r.seed32(), "mean": r.flag(0.75)}, "steps": steps}


def make_data(c, s):
    m, g = c["model"], np.random.default_rng(s["seed"])
    cont, par = m["t"].endswith("cont"), c["t"] == "prom"
    k = c["ddt"]["k"] if c["ddt"] else s["k"]
    t = zoo.ddt_times(c["ddt"]) if c["ddt"] else np.linspace(0, 1.0, k)
    ns = (4 if m["p"] == 1 else 5) if par else s["s"]
    n0 = c["n0"]
    A, L, W = 0.3 * g.standard_normal((n0, 3)), 0.3 + 2 * g.random(3), 4 * g.random(3)
    out = {"parameters": None, "lhs": None, "inputs": None, "times": [], "states": [], "functions": None}
    if par:
        out["parameters"] = zoo.make_params({"seed": s["seed"] % 2**31, "p": m["p"], "s": ns, "sort": True})
    ddts = []
    ahead = int(round(10 * s["ahead"])) if not cont else 0
    for i in range(ns):
        if not c["ddt"] and s["clock"] != "same":  # every trajectory has its own times
            if s["clock"] == "different":
                k = s["k"] - i
            t = np.linspace(0, 1.0, k) if not cont else 0.1 * i + np.cumsum(np.full(k, 1.0 / k) * (1 + 0.4 * np.sin(np.arange(k) + i)))
        mu = float(np.mean(out["parameters"][i])) if par else 1.0 + 0.2 * i
        modes = np.exp(-np.outer(L * mu, t)) * np.cos(np.outer(W, t) + 0.3 * i)
        dmodes = -(L * mu)[:, None] * modes - np.exp(-np.outer(L * mu, t)) * W[:, None] * np.sin(np.outer(W, t) + 0.3 * i)
        out["states"].append(2.0 + A @ modes + 0.1 * s["noise"] * arr((s["seed"], 1, i), n0, k))
        ddts.append(A @ dmodes + s["noise"] * arr((s["seed"], 2, i), n0, k))
        if s["uneven"] and not c["lifter"]:  # trajectories of different size
            out["states"][i] *= (1.0, 4.0, 0.3, 2.0, 0.7)[i]
            ddts[i] *= (1.0, 4.0, 0.3, 2.0, 0.7)[i]
        if s["rest"] and ns > 1 and i == ns - 1:  # a trajectory at rest
            out["states"][i][:] = (2.0 + arr((s["seed"], 6), n0))[:, None]
            ddts[i][:] = 0
        out["times"].append(t.copy())
    if cont and (s["ddts"] or not c["ddt"]):
        out["lhs"] = ddts
    if m["m"]:
        if cont:
            out["functions"] = [zoo.ufunc(m["m"], s["seed"] + (0 if s["one_input"] else i)) for i in range(ns)]
            out["inputs"] = [np.column_stack([u(x) for x in v]) for u, v in zip(out["functions"], out["times"])]
        else:
            out["inputs"] = [arr((s["seed"], 3, i), m["m"], len(v) + ahead) for i, v in enumerate(out["times"])]
    out["ahead"] = ahead
    out["tests"] = []
    for i in range(s["tests"]):
        x0 = 2.0 + 0.3 * arr((s["seed"], 4, i), n0)
        par_i = zoo.query_param(m["p"], s["seed"] + i) if par else None
        if cont:
            u = zoo.ufunc(m["m"], s["seed"] + 7 + i) if m["m"] else None
            out["tests"].append(opinf.utils.ContinuousRegTest(x0, np.linspace(0, 1.0 + 0.5 * i, 9), par_i, u, s["bound"]))
        else:
            u = arr((s["seed"], 5, i), m["m"], 8) if m["m"] else None
            out["tests"].append(opinf.utils.DiscreteRegTest(x0, 8, par_i, u, s["bound"]))
    return out


class Factory:
    """Candidate -> regularizer; refuses candidates above a threshold."""

    def __init__(self, kind, trip, rom):
        self.kind, self.trip, self.rom = kind, trip, rom

    def __call__(self, x):
        if self.trip is not None and np.log10(np.atleast_1d(x)[0]) > self.trip:
            raise ValueError("simulated: no regularizer for this candidate")
        m = self.rom.model
        solver = m.solvers[0] if hasattr(m, "solvers") else m.solver
        return self.make(x, solver.d, solver.r)

    def make(self, x, d, r):
        v = np.atleast_1d(np.asarray(x, dtype=float))
        if self.kind == "l2":
            return float(v[0])
        if self.kind == "l2dec":
            return np.resize(v, r)
        if self.kind == "tik":
            return np.resize(v, d)
        return [np.resize(v, d) * (1 + i) for i in range(r)]


def candidates(s):
    vals = [[10.0**v for v in x] for x in s["cands"]]
    return [v[0] for v in vals] if s["p"] == 1 else [np.array(v) for v in vals]


def select(rom, c, s, data, cands, factory, keep_t, keep_b, margin):
    cont = c["model"]["t"].endswith("cont")
    states, lhs, inputs, fns, times = (copy.deepcopy(data[x]) if x != "functions" else data[x] for x in ("states", "lhs", "inputs", "functions", "times"))
    if s["single"] and len(states) == 1 and c["t"] != "prom":
        states, lhs, inputs, fns = (None if x is None else x[0] for x in (states, lhs, inputs, fns))
    if (s["single"] or s["one_input"]) and all(np.array_equal(t, times[0]) for t in times):
        times = times[0]
    if fns and not callable(fns) and s["one_input"]:
        fns = fns[0]
    kw = dict(
        candidates=cands, states=states, fit_transformer=not keep_t, fit_basis=not keep_b, regularizer_factory=factory,
        gridsearch_only=s["only"], stability_margin=margin, test_cases=data["tests"] or None, verbose=s["verbose"],
    )
    if len(data["tests"]) == 1 and s["one_test"] and not isinstance(data["tests"][0], str):
        kw["test_cases"] = data["tests"][0]
    if s["bare"] and factory.kind == "l2" and s["p"] == 1 and factory.trip is None:  # candidates are regularizers
        kw["regularizer_factory"] = None
    if c["t"] == "prom":
        kw["parameters"] = data["parameters"]
    if c["t"] == "brom":
        kw["num_posterior_draws"] = 3
    if cont:
        kw.update(train_time_domains=times, ddts=lhs, input_functions=fns, test_time_length=s["ahead"], **s["options"])
        return rom.fit_regselect_continuous(**kw)
    kw.update(inputs=inputs, num_test_iters=data["ahead"])
    return rom.fit_regselect_discrete(**kw)


class Judge:
    """Errors and stability of regularizations, from separately built parts."""

    def __init__(self, ref, c, s, data, margin):
        self.ref, self.c, self.s, self.data = ref, c, s, data
        self.cont = c["model"]["t"].endswith("cont")
        Q = [ref.encode(X) for X in data["states"]]
        self.Q = Q if self.cont else [q[:, :-1] for q in Q]
        self.shift = [q.mean(axis=1)[:, None] for q in self.Q]
        self.limit = [margin * np.abs(q - m).max() for q, m in zip(self.Q, self.shift)]
        self.rest = [np.ptp(X, axis=1).max() == 0 for X in data["states"]]
        for i, (q, m) in enumerate(zip(self.Q, self.shift)):
            if self.rest[i] and np.abs(q - m).max() <= 1e-14 * np.abs(q).max():
                self.limit[i] = np.inf  # there is no limit

    def model(self, reg):
        """Direct fit with one regularizer."""
        m = zoo.build_model(self.c["model"])
        m.solver.regularizer = reg
        d, c = self.ref.data, self.c
        if c["t"] == "prom":
            m.fit(self.data["parameters"], d["states"], d["lhs"], inputs=d["inputs"])
        else:
            m.fit(np.hstack(d["states"]), np.hstack(d["lhs"]), inputs=None if d["inputs"] is None else np.hstack(d["inputs"]))
        return m

    def _leaves(self, Q, size, shift, limit):
        """True, False, or None if too close to call."""
        if Q.shape[-1] != size or not np.isfinite(Q).all():
            return True
        if limit is None or limit == np.inf:
            return False
        d = np.abs(Q - shift).max()
        return None if abs(d - limit) <= 1e-5 * max(limit, 1e-9) else bool(d > limit)

    def judge(self, m):
        """(error or inf, undecided?) of a fitted model; raises what the model raises."""
        undecided, s, data = False, self.s, self.data
        opts = s["options"] if self.cont else {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for t in data["tests"]:
                q0 = self.ref.encode(t.initial_conditions)
                lead = [] if t.parameters is None else [t.parameters]
                if self.cont:
                    Q, size = m.predict(*lead, q0, t.time_domain, t.input_function, **opts), t.time_domain.size
                else:
                    Q, size = m.predict(*lead, q0, t.niters, t.inputs), t.niters
                bad = self._leaves(Q, size, q0[:, None], t.bound)
                if bad:
                    return np.inf, undecided
                undecided |= bad is None
            errs = []
            for i, q in enumerate(self.Q):
                lead = [] if data["parameters"] is None else [data["parameters"][i]]
                if self.cont:
                    t = data["times"][i]
                    if s["ahead"] > 0:
                        dt = np.mean(np.diff(t))
                        t = np.concatenate((t, t[-1] + np.linspace(dt, dt + s["ahead"], int(s["ahead"] / dt))))
                    u = data["functions"][i] if data["functions"] else None
                    Q, size = m.predict(*lead, q[:, 0], t, u, **opts), t.size
                else:
                    size = q.shape[1] + data["ahead"]
                    Q = m.predict(*lead, q[:, 0], size, data["inputs"][i] if data["inputs"] else None)
                bad = self._leaves(Q, size, self.shift[i], self.limit[i])
                if bad and self.rest[i] and self._leaves(Q, size, self.shift[i], np.inf) is False:
                    bad = None  # at rest up to rounding
                if bad:
                    return np.inf, undecided
                undecided |= bad is None
                E = Q[:, : q.shape[1]] - q
                if self.cont:
                    w = data["times"][i]
                    errs.append(np.sqrt(np.trapezoid((E**2).sum(0), w) / np.trapezoid((q**2).sum(0), w)))
                else:
                    errs.append(np.linalg.norm(E) / np.linalg.norm(q))
        return float(np.mean(errs)), undecided


def chosen(rom, c):
    if c["model"]["t"][0] == "i":
        regs = [s.regularizer for s in rom.model.solvers]
        for x in regs[1:]:
            if diff(snap(regs[0]), snap(x), 0, 0):
                return None
        return regs[0]
    return rom.model.solver.regularizer


def same(a, b):
    a, b = snap(_plain(a)), snap(_plain(b))
    return diff(a, b, 1e-9, 0) is None


def _plain(x):
    """Diagonal regularizers may be kept as matrices."""
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    x = np.asarray(x.toarray() if hasattr(x, "toarray") else x, dtype=float)
    return np.diag(x).copy() if x.ndim == 2 and np.count_nonzero(x - np.diag(np.diag(x))) == 0 else x


def run(case, ctx):
    with draws.means() if case["knobs"]["mean"] else contextlib.nullcontext():
        _run(case, ctx)


def _run(case, ctx):
    c, qseed = case["knobs"]["rom"], case["knobs"]["qseed"]
    limits.LIMIT["evaluations"] = 1000  # time integration is abandoned then
    rom, ref = zoo_rom.build_rom(c), zoo_rom.Composition(c)
    kind = c["model"]["solver"]["t"]
    parts_ok = False
    label = f"{c['t']} of " + "+".join(x["t"] for x in (c["lifter"], c["transformer"], c["basis"], c["ddt"]) if x) + f"+{c['model']['t']} with {kind}"
    for j, s in enumerate(case["steps"]):
        op = s["op"]
        data = make_data(c, s)
        keep_t, keep_b = s["keep_t"] and parts_ok, s["keep_b"] and parts_ok
        cands = candidates(s)
        factory = Factory(kind, s["trip"] if op != "fit" else None, rom)
        margin = s["margin"] if op != "allbad" else 1e-9
        held = snap([cands, data["states"], data["lhs"], data["inputs"], data["times"], [t.initial_conditions for t in data["tests"]]])
        if op == "fit":
            if not parts_ok:  # (no regularizer selected yet)
                ctx.event(j, "skipped")
                continue
            reg = rom.model.solver.regularizer
            func = lambda: zoo_rom.fit_rom(rom, c, {k: copy.deepcopy(data[k]) for k in ("states", "lhs", "inputs", "parameters")}, fit_transformer=not keep_t, fit_basis=not keep_b)  # noqa: E731
            if data["inputs"]:
                data["inputs"] = [U[:, : Q.shape[1]] for U, Q in zip(data["inputs"], data["states"])]
                held[3] = snap(data["inputs"])
        elif op == "bad":
            if s["how"] == 0:
                data["states"] = [Q[:, :-1] if i == 0 else Q for i, Q in enumerate(data["states"])] if c["model"]["t"].endswith("cont") else data["states"][0][0, 0]
            elif s["how"] == 1:
                data["tests"] = ["not a test case"]
            elif s["how"] == 2:
                s = dict(s, ahead=-1.0)
                data["ahead"] = -1
            else:
                cands = []
            func = lambda: select(rom, c, s, data, cands, factory, keep_t, keep_b, margin)  # noqa: E731
        else:
            func = lambda: select(rom, c, s, data, cands, factory, keep_t, keep_b, margin)  # noqa: E731
        value, ex, fired = attempt(func, s.get("fault"), ctx)
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(c["t"], c["model"]["t"], kind, op, type(ex).__name__ if ex else "", fired and fired[0], s["only"], s["p"])
        if op != "bad" and (d := diff(held, snap([cands, data["states"], data["lhs"], data["inputs"], data["times"], [t.initial_conditions for t in data["tests"]]]), 0, 0)):
            ctx.fail("arguments", f"{op} of {label} changed its arguments: {d}")
        if fired or op == "bad":
            if op == "bad" and ex is None:
                ctx.fail("accepted", f"selection of {label} accepted bad arguments ({s['how']})")
            parts_ok = False
            continue
        # Reference.
        refdata = {k: data[k] for k in ("states", "lhs", "inputs", "parameters")}
        prepare(ref, c, refdata, keep_t, keep_b)
        J = Judge(ref, c, s, data, margin)
        if op == "fit":
            try:
                J.model(reg)
            except Exception:  # the regularizer of the last selection does not fit this data
                parts_ok = False
                continue
            if ex is not None:
                ctx.fail("refused", f"fit of {label} after a selection raised {type(ex).__name__}: {ex}")
            compare(ctx, rom, J, reg, c, qseed, f"{label} fitted directly after a selection (step {j})")
            continue
        verdicts, raising = [], False
        sd, sr = solver_shape(J, c)
        for x in cands:
            if s["trip"] is not None and np.log10(np.atleast_1d(x)[0]) > s["trip"]:
                verdicts.append((np.inf, False))
                continue
            try:
                m = J.model(factory.make(x, sd, sr))
            except Exception:
                verdicts.append((np.inf, False))
                continue
            if c["t"] == "brom" and not (case["knobs"]["mean"] and definite(m)):
                verdicts.append((0.0, True))
                raising |= definite(m) is None
                continue
            try:
                verdicts.append(J.judge(m))
            except Exception:
                raising = True
                verdicts.append((np.inf, True))
        usable = [e for e, u in verdicts if np.isfinite(e)]
        certain = [e for e, u in verdicts if np.isfinite(e) and not u]
        ctx.nontrivial |= len(usable) < len(cands)
        ctx.state(c["t"], c["model"]["t"], kind, len(cands) - len(usable), s["tests"], bool(s["ahead"]), ex is None)
        if ex is not None:
            ok = raising or not certain or (s["trip"] is not None and (c["t"] == "brom" or not s["only"]))
            if not ok:
                ctx.fail("refused", f"selection of {label} raised {type(ex).__name__}: {ex}, but candidates {cands} have errors {verdicts}")
            parts_ok = False
            continue
        if value is not rom:
            ctx.fail("return", f"selection of {label} does not return the model")
        if not usable or (op == "allbad" and c["t"] == "brom"):
            ctx.fail("no-error", f"selection of {label} succeeded although no candidate of {cands} is usable: {verdicts}")
        parts_ok = True
        reg = chosen(rom, c)
        if reg is None:
            ctx.fail("mixed", f"selection of {label}: the regularization is not the same at all parameters")
        where = f"{label} after step {j}: candidates {cands} with {verdicts}"
        if s["only"]:
            picked = [v for x, v in zip(cands, verdicts) if same(factory.make(x, sd, sr), reg)]
            if not picked:
                ctx.fail("stranger", f"{where}: selected {reg}, which is no candidate")
            err, und = min(picked)
        else:
            try:
                m = J.model(reg)
                err, und = (0.0, True) if c["t"] == "brom" and not (case["knobs"]["mean"] and definite(m)) else J.judge(m)
            except Exception:
                err, und = 0.0, True
        if c["t"] == "brom" and (rom.posterior is None or diff(snap(list(rom.posterior.means)), snap(list(rom.posterior.rvs())), 1e-12, 1e-12)):
            und = True  # draws are not means after all
        if not und and not raising and certain:
            if err == np.inf:
                ctx.fail("unstable", f"{where}: the selected regularization {reg} is not stable")
            if err > min(certain) * (1 + 1e-5) + 1e-9:
                ctx.fail("worse", f"{where}: the selected regularization {reg} has error {err}")
        compare(ctx, rom, J, reg, c, qseed, where)
    if limits.LIMIT["given up"]:
        ctx.fault("solve_ivp gives up", limits.LIMIT["given up"])
    ctx.event("end")


def solver_shape(J, c):
    m = zoo.build_model(dict(c["model"], solver={"t": "l2", "d": 1, "r": 1, "reg": 1.0, "driver": "gesdd"}))
    d = J.ref.data
    if c["t"] == "prom":
        m.fit(J.data["parameters"], d["states"], d["lhs"], inputs=d["inputs"])
    else:
        m.fit(np.hstack(d["states"]), np.hstack(d["lhs"]), inputs=None if d["inputs"] is None else np.hstack(d["inputs"]))
    s = m.solvers[0] if c["model"]["t"][0] == "i" else m.solver
    return s.d, s.r


def prepare(ref, c, data, keep_t, keep_b):
    """Train the parts of the reference and its data, but no model."""

    class NoModel:
        def fit(self, *args, **kw):
            pass

    build = zoo_rom.zoo.build_model
    try:
        zoo_rom.zoo.build_model = lambda recipe: NoModel()
        if data["inputs"] is not None:
            data["inputs"] = [U[:, : Q.shape[1]] for U, Q in zip(data["inputs"], data["states"])]
        ref.fit(data, not keep_t, not keep_b)
    finally:
        zoo_rom.zoo.build_model = build


def compare(ctx, rom, J, reg, c, qseed, where):
    m = J.model(reg)
    if c["t"] == "brom":
        means, precisions = m.solver.posterior()
        got = rom.posterior
        if max(np.linalg.cond(P) for P in precisions) > 1e11:
            return
        if got is None:
            ctx.fail("posterior", f"{where}: no posterior")
        if (d := diff(snap(list(means)), snap(list(got.means)), 1e-5, 1e-8)):
            ctx.fail("posterior", f"{where}: posterior means are not those of a direct fit: {d}")
        covs = [np.linalg.inv(P) for P in precisions]
        if max(np.linalg.cond(P) for P in precisions) < 1e8 and (d := diff(snap(covs), snap(list(got.covs)), 1e-4, 1e-8)):
            ctx.fail("posterior", f"{where}: posterior covariances are not those of a direct fit: {d}")
        return
    tol = 1e-5
    a, b = [o.entries for o in m.operators], [o.entries for o in rom.model.operators]
    if conditioned(m, c) and (d := diff(snap(a), snap(b), tol, 1e-7)):
        ctx.fail("operators", f"{where}: operators are not those of a direct fit with {reg}: {d}")
    X = 2.0 + 0.3 * arr((qseed, 1), c["n0"], 3)
    if (d := diff(snap(J.ref.encode(X)), snap(rom.encode(X)), 1e-6, 1e-8)):
        ctx.fail("encode", f"{where}: encode(): {d}")


def definite(m):
    """Does every row have a posterior, without doubt?"""
    try:
        return bool(max(np.linalg.cond(P) for P in m.solver.posterior()[1]) < 1e9)
    except Exception:
        return None


def conditioned(m, c):
    """Is the regularized problem well enough conditioned to compare entries?"""
    for s in m.solvers if c["model"]["t"][0] == "i" else [m.solver]:
        if np.max(s.regcond()) > 1e5:
            return False
    return True
