"""H02: a model's operators come from its latest training data only."""

import copy

import numpy as np
import opinf
import scipy.interpolate

from .. import ref, zoo
from ..inject import attempt, gen_fault
from ..values import brief, diff, outcome, recycle, scribble, snap
from ..zoo import arr

ID = "H02"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = (
    "One evaluation is one simulated run: a model is fitted 2 to 7 times with data of changing amount, state and input "
    "dimension and training parameters, with other regularization or another solver, refitted, copied, given invalid data, made "
    "to fail at a drawn numerical call or interrupted at a drawn line; after every successful fit or refit the operators, the "
    "right-hand side, Jacobian and prediction are compared with an independent regression and with a new model fitted once. "
    "Non-trivial: a step failed or a fault fired, distinct by event log."
)
STATES = "model kind x terms x solver x step x outcome"
REAL = ["opinf.models, opinf.operators, opinf.lstsq", "numpy and scipy"]
STUBS = ["numerical calls and lines of the package that are made to fail"]
ASSUMPTIONS = ["regressions of the runs are well conditioned, otherwise only the comparison with a new model is made"]


def gen(r, tier, index):
    c = zoo.gen_model(r)
    steps = []
    for j in range(r.int(2, 7)):
        op = r.weighted([("fit", 6), ("badfit", 2), ("setreg", 2.5), ("setsolver", 1), ("copy", 0.8), ("modes", 0.5), ("query", 0.7), ("adopt", 0.7), ("project", 0.8)])
        if j == 0:
            op = r.weighted([("fit", 2), ("badfit", 1), ("adopt", 0.6), ("project", 0.4)])
        s = {"op": op, "seed": r.seed32()}
        if op in ("fit", "badfit"):
            s["more"] = r.pick([0, 0, 3, 11])
            s["dr"] = r.weighted([(0, 5), (1, 1), (-1, 1)])
            s["dm"] = r.weighted([(0, 5), (1, 1)])
            s["s"] = r.pick([4, 5, 6])
            s["next"] = r.flag(0.3)
            s["longer"] = r.flag(0.3)
            s["lists"] = r.flag(0.2)
            s["recycle"] = r.flag(0.3)
            s["how"] = r.int(0, 5)
            s["near"] = r.flag(0.15)
            s["ragged"] = r.flag(0.3)
            s["stack"] = r.flag(0.3)
            s["flat"] = r.flag(0.3)
            s["layout"] = r.weighted([(None, 6), ("strided", 1), ("readonly", 1), ("fortran", 1), ("reversed", 1)])
        if op == "setreg":
            s["reg"] = r.seed32()
        if op == "modes":
            s["modes"] = r.pick([None, 1, 2, -1])
        if op == "setsolver":
            s["kind"] = r.pick(["plain", "l2", "l2", "tsvd", None, "scalar"])
        if op in ("fit", "badfit", "setreg", "query") and r.flag(0.3):
            s["fault"] = gen_fault(r)
        steps.append(s)
    if steps[-1]["op"] in ("fit",):
        steps[-1].pop("fault", None)
    if c["t"][0] != "i" or c["interp"] is None:
        for s in steps[1:]:
            if r.flag(0.06):
                new = zoo.gen_model(r, c["t"])
                if new["p"] == c["p"] and new.get("interp") is None:
                    s.clear()
                    s.update(op="setops", seed=r.seed32(), model=new, strings=r.flag(0.2))
    return {"knobs": {"model": c, "qseed": r.seed32(), "strings": r.flag(0.2)}, "steps": steps}


def ops_of(c, strings):
    """Operators of a recipe, as objects or by their abbreviations."""
    if strings and not any(o["filled"] or o.get("interp") for o in c["ops"]) and c["t"][0] != "p" and all(o["k"] in "cAHGBN" for o in c["ops"]):
        return "".join(o["k"] for o in c["ops"])
    ops = [zoo.build_operator(o) for o in c["ops"]]
    return ops[0] if len(ops) == 1 else tuple(ops) if c["r"] == 2 else ops


def resized(c, r, m):
    c = copy.deepcopy(c)
    c["r"], c["m"] = r, m if c["m"] else 0
    for o in c["ops"]:
        o["r"], o["m"] = r, m
    return c


def nearly(data, seed):
    """The same data, but for one entry."""
    new = copy.deepcopy(data)
    names = [x for x in ("states", "lhs", "inputs") if new.get(x) is not None]
    x = new[names[seed % len(names)]]
    if not isinstance(x, np.ndarray):
        x = x[seed % len(x)]
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        x[tuple(seed // 7 % n for n in x.shape)] += 0.25
    return new


def reg_for(kind, seed):
    if kind == "l2":
        return [1e-2, 0.3, 2.0][seed % 3]
    if kind == "l2dec":
        return {"seed": seed, "scale": [1e-2, 1.0][seed % 2]}
    return {"seed": seed, "form": ["diag", "full", "sparse"][seed % 3], "scale": [1e-1, 1.0][seed % 2]}


def run(case, ctx):
    k = case["knobs"]
    base = k["model"]
    c = base
    obj = zoo.build_model(c)
    obj.operators = ops_of(c, k.get("strings"))
    if c["t"][0] == "i":
        obj.set_interpolator(zoo.INTERPOLATORS[c["interp"]])

    def kept():
        known = {j: snap(zoo_entries(op)) for j, op in enumerate(obj.operators) if base["ops"][j]["filled"]}
        return known, {j: entries_copy(obj.operators[j]) for j in known}

    known, known_raw = kept()
    solver = copy.deepcopy(c["solver"])  # recipe of the present solver
    before = None  # recipe and data of the latest fit
    data = last = None  # of the latest successful fit; the caller's arrays
    fitted_d = None
    valid = False  # whether the operators are those of a completed fit or refit
    for j, s in enumerate(case["steps"]):
        op, fault = s["op"], s.get("fault")
        ex = fired = None
        if op in ("fit", "badfit"):
            r2 = base["r"] if known else max(1, base["r"] + s["dr"])
            m2 = base["m"] + s["dm"] if base["m"] and not known else base["m"]
            near = s["near"] and op == "fit" and before is not None  # the latest data, but for one entry
            new = before[0] if near else resized(base, r2, m2)
            r2 = new["r"]
            d = zoo.model_d(new, before[2] if near else s["s"])
            if solver and solver["t"] in ("l2dec", "tik", "tikdec") and (solver["d"], solver["r"]) != (d, r2):
                solver = dict(solver, d=d, r=r2, reg=reg_for(solver["t"], s["seed"]))
                obj.solver = zoo.build_solver(solver)
            c = new
            dat = zoo.model_data(c, s["seed"], k=d + r2 + 8 + s["more"], **({"s": s["s"]} if base["p"] else {}))
            dat = nearly(before[1], s["seed"]) if near else variants(c, dat, s, ctx)
            if op == "fit":
                before = (c, copy.deepcopy(dat), before[2] if near else s["s"])
            if op == "badfit":
                call = copy.deepcopy(spoil(dat, s["how"], c))
            else:
                call = laid(copy.deepcopy(dat), s["layout"])
            if s.get("recycle") and last is not None:  # the caller uses its arrays again
                call = recycle(last, call)
            last = call
            held = copy.deepcopy(call)
            value, ex, fired = attempt(lambda: fit(obj, c, call), fault, ctx)
            if diff(snap(held), snap(call), 0, 0):
                ctx.fail("arguments", f"{c['t']}.fit changed its arguments: {diff(snap(held), snap(call), 0, 0)}")
            if ex is None and op == "badfit":
                ctx.fail("accepted", f"{c['t']}.fit accepted invalid data ({s['how']})")
            if ex is not None and op == "fit" and not fired:
                ctx.fail("refused", f"{c['t']}.fit raised {type(ex).__name__}: {ex}")
            data = effective(dat) if ex is None else None
            valid = ex is None
            if valid and s["seed"] % 4 == 0:  # the caller writes into its arrays, but for those kept for refit()
                scribble([call["states"], call["inputs"]])
        elif op == "setsolver":
            kind = s["kind"]
            if kind == "scalar":
                solver = {"t": "l2", "d": 1, "r": 1, "reg": 0.5, "driver": "gesdd"}
                obj.solver = 0.5
            elif kind is None:
                solver = None
                obj.solver = None
            else:
                solver = {"t": kind, "d": 1, "r": 1, "reg": 0.1, "driver": {"plain": None}.get(kind, "gesdd"), "cond": None, "modes": None}
                obj.solver = zoo.build_solver(solver)
            data, valid = None, False
            ctx.event(j, op, kind)
            continue
        elif op in ("setreg", "modes"):
            sk = solver["t"] if solver else None
            if data is None or (op == "setreg") != (sk in ("l2", "l2dec", "tik", "tikdec")) or (op == "modes" and sk != "tsvd"):
                ctx.event(j, op, "skipped")
                continue
            svs = obj.solvers if c["t"][0] == "i" else [obj.solver]
            if op == "setreg":
                rec = reg_for(sk, s["reg"])
                solver = dict(solver, reg=rec, d=svs[0].d, r=svs[0].r)
                for sv in list(svs) + [obj.solver]:
                    sv.regularizer = zoo.make_reg(sk, rec, svs[0].d, svs[0].r)
            else:
                mm = s["modes"]
                mm = mm if mm is None or svs[0].d >= 3 else None
                solver = dict(solver, modes=mm)
                for sv in list(svs) + [obj.solver]:
                    sv.num_svdmodes = mm
            value, ex, fired = attempt(lambda: obj.refit(), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{c['t']}.refit raised {type(ex).__name__}: {ex}")
            valid = ex is None
            if ex is not None:
                ctx.event(j, op, type(ex).__name__, "/".join(fired))
                continue
        elif op == "setops":  # other terms in the same model
            base, before = s["model"], None
            c = base
            obj.operators = ops_of(c, s["strings"])
            known, known_raw = kept()
            data, valid = None, False
            ctx.event(j, op)
            continue
        elif op == "adopt":  # a copy of a model that is not trained takes its place
            infer = [i for i in range(len(obj.operators)) if i not in known]
            if any(obj.operators[i].entries is not None for i in infer):
                ctx.event(j, op, "skipped")
                continue
            obj = obj.copy()
            valid = False
            ctx.event(j, op)
            continue
        elif op == "project":
            if (d := project(ctx, obj, c, s, solver, known_raw, data if valid else None)):
                ctx.fail("galerkin", f"galerkin() of {c['t']} with {[o['t'] + o['k'] + '*' * o['filled'] for o in c['ops']]}: {d}")
            ctx.event(j, op, valid)
        elif op == "copy":
            if not valid:
                ctx.event(j, op, "skipped")
                continue
            other = obj.copy()
            if (d := compare(ctx, other, c, data, solver, known_raw, k["qseed"])):
                ctx.fail("copy", f"copy of {c['t']}: {d}")
            ctx.event(j, op)
            continue
        else:
            if valid:
                value, ex, fired = attempt(lambda: zoo.probe_model(obj, c, s["seed"]), fault, ctx)
            ctx.event(j, op, type(ex).__name__ if ex else "ok")
            ex = None
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, c["t"], type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(c["t"], "".join(o["k"] for o in c["ops"]), solver and solver["t"], op, type(ex).__name__ if ex else "", bool(fired))
        now = {i: snap(zoo_entries(obj.operators[i])) for i in known}
        for i in known:
            if (d := diff(known[i], now[i], 0, 0)):
                ctx.fail("known", f"{op} of {c['t']} changed known operator {i}: {d}")
        if not valid:
            continue
        where = f"{c['t']} with {[o['t'] + o['k'] + '*' * o['filled'] for o in c['ops']]} and solver {solver and solver['t']} after step {j} ({op})"
        if (d := compare(ctx, obj, c, data, solver, known_raw, k["qseed"])):
            ctx.fail("wrong", f"{where}: {d}")
        fresh = zoo.build_model(fresh_recipe(c, solver))
        fit(fresh, c, data)
        a = zoo.probe_model(fresh, c, k["qseed"])
        b = zoo.probe_model(obj, c, k["qseed"])
        if (d := diff(a, b, 1e-6, 1e-9)):
            ctx.fail("fresh", f"{where} differs from a new model fitted to the same data: {d}")
        ctx.event(j, ref_digest(b))


def flat(E):
    return list(E) if isinstance(E, (list, tuple)) else [E]


def project(ctx, obj, c, s, solver, known, data):
    """Message if the (Petrov-)Galerkin projection of a model is wrong."""
    r, m = (c["r"], c["m"]) if data is None else (obj.state_dimension, obj.input_dimension)
    if any(o["k"] == "P" for o in c["ops"]):  # not supported by the package
        return None
    if any(o["k"] in "HGQN" and any(hasattr(e, "toarray") for e in flat(op.entries)) for o, op in zip(c["ops"], obj.operators)):
        return None  # nor are sparse quadratic, cubic, ... operators
    r2 = 1 + s["seed"] % r
    V = np.linalg.qr(arr((s["seed"], 1), r, r2))[0] * (1.0 if s["seed"] % 3 else 1.4)
    W = None if s["seed"] % 2 else V + 0.2 * arr((s["seed"], 2), r, r2)
    T = V if W is None else W
    q, u = 0.3 * arr((s["seed"], 3), r2), arr((s["seed"], 4), m) if m else None
    mu = zoo.query_param(c["p"], s["seed"]) if c["p"] else None
    lead = [] if mu is None else [mu]
    call = [0.1, *lead, q, (lambda t: u) if m else None] if c["t"].endswith("cont") else [*lead, q, u]
    infer = [i for i in range(len(obj.operators)) if i not in known]
    if data is not None:
        known = {i: entries_copy(o) for i, o in enumerate(obj.operators)}
    elif any(obj.operators[i].entries is not None for i in infer):
        return None
    names = [x for x in ("d", "r", "k", "regularizer", "num_svdmodes", "data_matrix") if hasattr(obj.solver, x)]
    settings = {x: snap(getattr(obj.solver, x)) for x in names}
    red = obj.galerkin(V, W)
    known2 = {}
    for i, o in enumerate(c["ops"]):
        if i not in known:
            if red.operators[i].entries is not None:
                return f"operator {i} has entries"
            continue
        known2[i] = entries_copy(red.operators[i])
        a, b = (known[i], known2[i]) if o["t"] != "op" else ([known[i]], [known2[i]])
        for E, F in zip(a, b):
            w = np.linalg.solve(T.T @ V, T.T @ ref.apply(o["k"], E, V @ q, u, o.get("order")))
            if (d := diff(snap(w), snap(ref.apply(o["k"], F, q, u, o.get("order"))), 1e-7, 1e-9)):
                return f"operator {i}: {d}"
    if data is not None:
        w = ref.model_rhs(c, [known2[i] for i in range(len(known2))], q, u, mu, data.get("parameters"))
        return diff(snap(w), outcome(lambda: red.rhs(*call)), 1e-7, 1e-9)
    c = resized(c, r2, m)
    s2 = 4 if c["p"] == 1 else 5
    d = zoo.model_d(c, s2)
    if solver and solver["t"] in ("l2dec", "tik", "tikdec") and (solver["d"], solver["r"]) != (d, r2):
        solver = dict(solver, d=d, r=r2, reg=reg_for(solver["t"], s["seed"]))
        red.solver = zoo.build_solver(solver)
    dat = zoo.model_data(c, s["seed"], k=d + r2 + 9, **({"s": s2} if c["p"] else {}))
    fit(red, c, dat)
    if (d := diff(settings, {x: snap(getattr(obj.solver, x)) for x in names}, 0, 0)):
        return f"fit of the projected model changed the solver of the model: {d}"
    return compare(ctx, red, c, dat, solver, known2, s["seed"])


def ref_digest(b):
    v = b["operators"]
    return "trained" if isinstance(v, list) else repr(v)[:60]


def fresh_recipe(c, solver):
    return dict(c, solver=solver)


def zoo_entries(op):
    return op.entries


def entries_copy(op):
    E = op.entries
    return [e.copy() for e in E] if isinstance(E, list) else E.copy()


def variants(c, data, s, ctx):
    """Other documented ways of passing the same training data."""
    data = dict(data)
    if s["ragged"] and "parameters" in data:
        ks = [Q.shape[1] - [0, 2, 1, 4][(s["seed"] + i) % 4] for i, Q in enumerate(data["states"])]
        for key in ("states", "lhs", "inputs"):
            if data[key] is not None:
                data[key] = [x[:, :k] for x, k in zip(data[key], ks)]
    if c["t"] == "disc" and s["stack"]:
        k = data["states"].shape[1]
        at = [0, 3 + s["seed"] % (k - 6), k]
        Qs = [data["states"][:, a:b] for a, b in zip(at, at[1:])]
        Us = data["inputs"] if data["inputs"] is None else [data["inputs"][:, a : b - (s["seed"] % 2)] for a, b in zip(at, at[1:])]
        out = list(opinf.models.DiscreteModel.stack_trajectories(Qs, Us) if Us else opinf.models.DiscreteModel.stack_trajectories(Qs))
        want = [np.hstack([Q[:, :-1] for Q in Qs]), np.hstack([Q[:, 1:] for Q in Qs])]
        want += [np.hstack([U[:, : Q.shape[1] - 1] for Q, U in zip(Qs, Us)])] if Us else []
        if (d := diff(snap(want), snap(out), 0, 0)):
            ctx.fail("stack", f"stack_trajectories(): {d}")
        data.update(states=want[0], lhs=want[1], inputs=want[2] if Us else None)
    elif c["t"].endswith("disc") and s["next"]:
        if "parameters" in data:
            data["states"] = [np.hstack([Q, L[:, -1:]]) for Q, L in zip(data["states"], data["lhs"])]
        else:
            data["states"] = np.hstack([data["states"], data["lhs"][:, -1:]])
        data["lhs"] = None
    if c["t"].endswith("disc") and s["longer"] and data["inputs"] is not None:
        add = arr((s["seed"], 60), c["m"], 2)
        data["inputs"] = [np.hstack([U, add]) for U in data["inputs"]] if "parameters" in data else np.hstack([data["inputs"], add])
    if s["flat"] and c["m"] == 1:
        data["inputs"] = [U[0] for U in data["inputs"]] if "parameters" in data else data["inputs"][0]
        if "parameters" in data and len({len(U) for U in data["inputs"]}) == 1:
            data["inputs"] = np.array(data["inputs"])
    if s["lists"] and "parameters" in data and c["p"] == 1:
        data["parameters"] = np.array(data["parameters"]).reshape(-1)
    return data


def laid(x, layout):
    """The same numbers in arrays of another memory layout."""
    if isinstance(x, dict):
        return {k: laid(v, layout) for k, v in x.items()}
    if isinstance(x, list):
        return [laid(v, layout) for v in x]
    if not isinstance(x, np.ndarray) or layout is None or x.dtype.kind != "f":
        return x
    if layout == "fortran":
        return np.asfortranarray(x)
    if layout == "strided":
        big = np.full(tuple(2 * n for n in x.shape), np.nan)
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if layout == "reversed":
        return x[..., ::-1].copy()[..., ::-1]
    x.flags.writeable = False
    return x


def effective(data):
    """The regression that the data stand for."""
    data = dict(data)
    if data["lhs"] is None:
        if "parameters" in data:
            data["lhs"] = [Q[:, 1:] for Q in data["states"]]
            data["states"] = [Q[:, :-1] for Q in data["states"]]
        else:
            data["lhs"], data["states"] = data["states"][:, 1:], data["states"][:, :-1]
    if data["inputs"] is not None:
        if "parameters" in data:
            data["inputs"] = [U[..., : Q.shape[1]] for U, Q in zip(data["inputs"], data["states"])]
        else:
            data["inputs"] = data["inputs"][..., : data["states"].shape[1]]
    return data


def spoil(data, how, c):
    """Data that cannot be fitted."""
    d = dict(effective(data))
    multi = "parameters" in d
    if how == 0:
        d["lhs"] = [L[:, :-1] for L in d["lhs"]] if multi else d["lhs"][:, :-1]
    elif how == 1:
        d["lhs"] = d["lhs"][:-1] if multi else np.vstack([d["lhs"], d["lhs"]])
    elif how == 2 and c["m"]:
        d["inputs"] = None
    elif how == 3 and c["m"]:
        d["inputs"] = [U[..., :-1] for U in d["inputs"]] if multi else d["inputs"][..., :-1]
        if c["t"].endswith("disc"):
            d["states"] = d["states"]
    elif how == 4:
        if multi:
            d["states"] = d["states"][:-1] + [np.full_like(d["states"][-1], np.nan)]
        else:
            d["states"] = np.full_like(d["states"], np.nan)
    elif how == 5 and multi:
        d["parameters"] = d["parameters"][:-1]
    else:
        d["states"] = "states"
    return d


def fit(obj, c, data):
    args = [data["states"]]
    if data["lhs"] is not None:
        args.append(data["lhs"])
    if "parameters" in data:
        args.insert(0, data["parameters"])
    return obj.fit(*args, inputs=data["inputs"])


def compare(ctx, obj, c, data, solver, known, qseed):
    """Message if obj is not what the data and settings imply."""
    pairs = ref.model_matrices(c, data, known)
    r, m = np.atleast_2d(pairs[0][1]).shape[0], c["m"]
    sv = solver or {"t": "plain"}
    sols = []
    for D, Z in pairs:
        reg = sv.get("reg")
        reg = zoo.make_reg(sv["t"], reg, D.shape[1], Z.shape[0]) if reg is not None and sv["t"] in ("l2", "l2dec", "tik", "tikdec") else None
        sols.append(ref.solve(sv["t"], D, Z, reg, sv.get("modes"), sv.get("cond")))
    entries = None
    if all(x is not None for x in sols):
        ctx.count("regressions compared")
        if c["t"][0] == "i":
            parts = [ref.split_solution(c, x, known, r, m) for x in sols]
            inferred = {j: [p[j] for p in parts] for j in parts[0]}
        else:
            inferred = ref.split_solution(c, sols[0], known, r, m, len(data["parameters"]) if "parameters" in data else 1)
        entries = [known[j] if j in known else inferred[j] for j in range(len(c["ops"]))]
        for j, o in enumerate(c["ops"]):
            got = obj.operators[j].entries
            if got is None:
                return f"operator {j} has no entries"
            got = [ref.matrix(o["k"], e) for e in got] if o["t"] != "op" else ref.matrix(o["k"], got)
            w = [ref.matrix(o["k"], e) for e in entries[j]] if o["t"] != "op" else ref.matrix(o["k"], entries[j])
            if (d := diff(snap(w), snap(got), 1e-5, 1e-8)):
                return f"entries of operator {j} ({o['t']}{o['k']}): {d}"
    for kk in "cAHGBN":
        at = [j for j, o in enumerate(c["ops"]) if o["k"] == kk]
        shown = getattr(obj, kk + "_")
        if shown is not (obj.operators[at[0]] if at else None):
            return f"{kk}_ is not the operator of that kind"
    got_dims = [obj.state_dimension, obj.input_dimension]
    if got_dims != [r, m]:
        return f"dimensions {got_dims} instead of {[r, m]}"
    # The right-hand side is the sum of the operators it shows.
    q, u = 0.3 * arr((qseed, 31), r), arr((qseed, 32), m) if m else None
    shown = [entries_copy(o) for o in obj.operators]
    params = data.get("parameters")
    mu = None if params is None else zoo.query_param(c["p"], qseed)
    cont = c["t"].endswith("cont")
    lead = [] if mu is None else [mu]
    rhs_args = [0.1, *lead, q, (lambda t: u) if m else None] if cont else [*lead, q, u]
    lists = [E if isinstance(E, list) else [E] for E in shown]
    sparse = any(o["k"] in "HGQN" and any(hasattr(e, "toarray") for e in E) for o, E in zip(c["ops"], lists))
    for name, jac in (("rhs", False), ("jacobian", True)):
        if jac and sparse:  # not supported by the package
            continue
        w = ref.model_rhs(c, shown, q, u, mu, params, jac)
        g = outcome(lambda: getattr(obj, name)(*rhs_args))
        if (d := diff(snap(w), g, 1e-7, 1e-9)):
            return f"{name} is not the sum of the operators: {d}"
        x = np.round(10 * q).astype(int)  # a state of integers
        args = [*rhs_args]
        args[1 + len(lead) if cont else len(lead)] = x
        w = ref.model_rhs(c, shown, x.astype(float), u, mu, params, jac)
        g = outcome(lambda: getattr(obj, name)(*args))
        if (d := diff(snap(w), g, 1e-7, 1e-9)):
            return f"{name} at a state of integers is not the sum of the operators: {d}"

    def rhs(x, v):
        return ref.model_rhs(c, shown, x, v, mu, params)

    if cont:
        t = np.linspace(0, 0.03, 4)
        uf = zoo.ufunc(m, qseed) if m else None
        w = ref.predict_continuous(rhs, q, t, uf)
        g = outcome(lambda: obj.predict(*lead, q, t, uf))
        if m and qseed % 2:  # inputs known at the times only
            U = arr((qseed, 34), m, 4)
            spline = scipy.interpolate.CubicSpline(t, U, axis=1)
            w = [w, ref.predict_continuous(rhs, q, t, spline)]
            g = [g, outcome(lambda: obj.predict(*lead, q, t, U[0] if m == 1 and qseed % 4 == 1 else U))]
        elif m == 1:  # scalar input
            g = outcome(lambda: obj.predict(*lead, q, t, lambda s: float(uf(s)[0])))
    else:
        U = arr((qseed, 33), m, 4) if m else None
        w = ref.predict_discrete(rhs, q, 4, U)
        if m and qseed % 3 == 1:  # more inputs than needed
            U = np.hstack([U, np.full((m, 2), np.nan)])
        if m and qseed % 3 == 2:  # as many as needed
            U = U[:, :3]
        g = outcome(lambda: obj.predict(*lead, q, 4, U[0] if m == 1 and qseed % 2 else U))
    if (d := diff(snap(w), g, 1e-6, 1e-9)):
        return f"prediction: {d}"
    return None
