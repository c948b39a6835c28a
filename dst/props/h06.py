"""H06: an operator answers from the entries it holds."""

import copy

import numpy as np
import scipy.linalg
import scipy.sparse as sparse

from .. import ref, zoo
from ..inject import attempt, gen_fault
from ..values import brief, diff, outcome, recycle, snap
from ..zoo import arr

ID = "H06"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 80000}
RULE = (
    "One evaluation is one simulated run: an operator is given entries of changing size and format 3 to 12 times, is cleared, "
    "copied, evaluated, differentiated, projected, given invalid entries, and made to fail at a drawn numerical call or "
    "interrupted at a drawn line; after every step its answers are compared with the polynomial that its present entries define. "
    "Non-trivial: a step was rejected or a fault fired, distinct by event log."
)
STATES = "operator kind x format x step x outcome x dimension"
REAL = ["opinf.operators", "numpy and scipy"]
STUBS = ["numerical calls and lines of the package that are made to fail"]
ASSUMPTIONS = [
    "derivatives with sparse entries of quadratic, cubic, quartic and state-input operators are not supported by the package",
    "an operator whose entries were interrupted while being set answers again after the next successful set",
]


def gen(r, tier, index):
    rd, md = r.int(1, 4), r.int(1, 3)
    c = zoo.gen_operator(r, rd, md)
    if c["k"] == "Q" and rd > 3:
        c["r"] = rd = 3
    steps = []
    for j in range(r.int(3, 12)):
        op = r.weighted([("set", 5), ("bad", 2), ("clear", 0.7), ("query", 3), ("copy", 1), ("project", 1.5), ("params", 1), ("interp", 0.8), ("sum", 1 if c["t"] == "op" else 0)])
        s = {"op": op, "seed": r.seed32(), "r": r.pick([rd, rd, 1, 2, 3]), "m": r.pick([md, md, 1, 2]), "k": r.int(2, 4), "how": r.int(0, 7),
             "fmt": r.pick(["dense", "dense", "expanded", "tensor", "sparse", "int", "fortran", "block", "scalar"]), "via": r.pick(["call", "attr"]), "recycle": r.flag(0.3),
             "s": r.int(4, 6), "name": r.pick([None, "cubic", "pchip", "akima"]) if c.get("p") == 1 else r.pick([None, "linear", "nearest"])}
        if op in ("set", "query", "project", "bad") and r.flag(0.3):
            s["fault"] = gen_fault(r)
        steps.append(s)
    return {"knobs": {"op": c, "qseed": r.seed32()}, "steps": steps}


def expand(k, E, r, tensor):
    """A full Kronecker form of compressed entries (coefficients spread unevenly)."""
    p = ref.ORDER[k]
    out = np.zeros((E.shape[0],) + (r,) * p)
    g = np.random.default_rng(int(abs(E).sum() * 1e6) % 2**32)
    import itertools

    for col, idx in enumerate(ref.monomials(r, p)):
        perms = sorted(set(itertools.permutations(idx)))
        w = g.random(len(perms)) + 0.1
        w /= w.sum()
        for pi, wi in zip(perms, w):
            out[(slice(None),) + pi] += wi * E[:, col]
    return out if tensor else out.reshape(E.shape[0], -1)


def make_entries(c, s):
    """(what is passed to set_entries, keyword arguments, list of expected entries)."""
    k, rr, m, fmt = c["k"], s["r"], s["m"], s["fmt"]
    if k == "Q":
        rr = min(rr, 3)
    n = 1 if c["t"] == "op" else (c["nterms"] if c["t"] == "aff" else s["s"])
    want = [zoo.op_entries(k, rr, m, (s["seed"], i), "dense", c.get("order")) for i in range(n)]
    given = [w.copy() for w in want]
    kw = {}
    if fmt in ("expanded", "tensor") and k in "HGQ":
        given = [expand(k, w, rr, fmt == "tensor" and rr > 1) for w in want]
        if s["how"] % 2:
            given = [np.asfortranarray(x) for x in given]
    elif fmt == "sparse" and k not in "cP" and c["t"] != "int" and rr > 1:
        given = [sparse.coo_array(w) if s["how"] % 2 else sparse.csr_array(w) for w in want]
    elif fmt == "int":
        given = [np.round(5 * w).astype(int) for w in want]
        want = [x.astype(float) for x in given]
    elif fmt == "fortran":
        given = [np.asfortranarray(w) for w in want]
    elif fmt == "block" and c["t"] != "op" and k != "c":
        given = np.hstack(given)
        kw = {"fromblock": True}
    elif fmt == "block" and c["t"] != "op":
        given = np.column_stack(given)
        kw = {"fromblock": True}
    elif fmt == "scalar" and rr == 1 and want[0].size == 1 and c["t"] == "op" and k != "P":
        given = [float(want[0].ravel()[0])]
    return (given[0] if c["t"] == "op" else given), kw, want, rr


def bad_entries(c, s, params):
    k, rr, m = c["k"], s["r"], s["m"]
    rr = min(rr, 3) if k == "Q" else rr
    E = zoo.op_entries(k, rr, m, s["seed"], "dense", c.get("order"))
    how = s["how"]
    if how == 0:
        x = np.full_like(E, np.nan)
    elif how == 1:
        x = E.copy()
        x.ravel()[-1] = np.inf
    elif how == 2:
        x = "entries"
    elif how == 3:
        x = [[1.0, 2.0], [3.0]]
    elif how == 4 and k in "AHGQ":
        x = np.ones((rr, E.shape[1] + 2)) if k == "A" or rr > 1 else np.ones((2, 7))
    elif how == 5 and k == "N":
        x = np.ones((3, 4))
    elif how == 6 and k == "c":
        x = np.ones((2, 2))
    elif how == 7:
        x = np.ones((2, 2, 3))
    else:
        x = np.full_like(E, np.nan)
    if c["t"] == "op":
        return x
    n = c["nterms"] if c["t"] == "aff" else len(params or [0] * s["s"])
    good = [E.copy() for _ in range(n)]
    if s["seed"] % 3 == 0:
        return good + [E]
    good[-1] = x
    return good


def shown(obj, c):
    E = obj.entries
    if E is None:
        return None
    return [E.copy()] if c["t"] == "op" else [e.copy() for e in E]


def run(case, ctx):
    c0 = case["knobs"]["op"]
    qseed = case["knobs"]["qseed"]
    c = copy.deepcopy(c0)
    obj = zoo.build_operator(c)
    interp = c.get("interp")
    params = zoo.make_params(c["params"]) if c["t"] == "int" and obj.training_parameters is not None else None
    valid = True  # not after an interrupted change
    mine = None  # arrays of the caller
    for j, s in enumerate(case["steps"]):
        op, fault = s["op"], s.get("fault")
        ex = fired = None
        before = battery(obj, c, qseed) if valid else None
        if op == "set":
            given, kw, want, rr = make_entries(c, s)
            if c["t"] == "int":
                if params is None or len(params) != s["s"]:
                    if obj.entries is not None:  # other training parameters need another operator
                        obj = zoo.build_operator(dict(c, filled=False, setparams=False))
                        interp = c.get("interp")
                    params = zoo.make_params({"seed": s["seed"], "p": c["p"], "s": s["s"], "sort": True})
                    set_params(obj, c, s, params, ctx)
            if s.get("recycle") and mine is not None:  # the caller uses its arrays again
                given = recycle(mine, given)
            mine = given
            held = copy.deepcopy(given)
            if s["via"] == "attr" and not kw and c["t"] == "op":
                value, ex, fired = attempt(lambda: setattr(obj, "entries", given), fault, ctx)
            else:
                value, ex, fired = attempt(lambda: obj.set_entries(given, **kw), fault, ctx)
            if (d := diff(snap(held), snap(given), 0, 0)):
                ctx.fail("arguments", f"set_entries of {c['t']}{c['k']} changed its argument: {d}")
            if ex is not None and not fired:
                ctx.fail("refused", f"{c['t']}{c['k']}.set_entries({s['fmt']}, r={rr}) raised {type(ex).__name__}: {ex}")
            valid = ex is None
            if valid:
                got = [ref.matrix(c["k"], e) for e in shown(obj, c)]
                if (d := diff(snap([ref.matrix(c["k"], w) for w in want]), snap(got), 1e-9, 1e-12)):
                    ctx.fail("entries", f"entries of {c['t']}{c['k']} are not those that were set ({s['fmt']}): {d}")
        elif op == "bad":
            if c["t"] != "op" and valid and obj.entries is not None and s["seed"] % 4 == 1:  # a parameter of another dimension
                mu = np.ones(c["p"] + (1 if c["p"] == 1 or s["how"] % 2 else -1))
                given = mu if len(mu) > 1 else [mu, float(mu[0])][s["how"] // 2 % 2]
                value, ex, fired = attempt(lambda: obj.evaluate(given), fault, ctx)
                if ex is None:
                    ctx.fail("accepted", f"{c['t']}{c['k']} of {c['p']} parameters is evaluated for {brief(given)}")
                if (e := outcome(lambda: setattr(obj, "parameter_dimension", c["p"] + 1))) is None:
                    ctx.fail("accepted", f"{c['t']}{c['k']}: the number of parameters is set twice")
            x = bad_entries(c, s, params)
            if c["k"] == "P":
                ctx.event(j, op, "skipped")
                continue
            value, ex, fired = attempt(lambda: obj.set_entries(x), fault, ctx)
            if ex is None:
                ctx.fail("accepted", f"{c['t']}{c['k']}.set_entries accepted {brief(x)}")
            if valid and not fired and (d := diff(before, battery(obj, c, qseed), 0, 0)):
                ctx.fail("rejected", f"rejected entries changed {c['t']}{c['k']}: {d}")
            valid = valid and not fired
        elif op == "clear" and c["t"] == "op":
            del obj.entries
            if obj.entries is not None or obj.state_dimension is not None:
                ctx.fail("clear", f"{c['t']}{c['k']} has entries after they were deleted")
            valid = True
        elif op == "copy":
            if valid:
                other = obj.copy()
                if c["t"] != "op" and obj.parameter_dimension != other.parameter_dimension:
                    ctx.fail("copy", f"copy of {c['t']}{c['k']} has {other.parameter_dimension} parameters, not {obj.parameter_dimension}")
                if c["t"] == "aff" and obj.entries is not None:
                    other.evaluate(zoo.query_param(c["p"], qseed))
                    obj.evaluate(zoo.query_param(c["p"], qseed))
                    before = battery(obj, c, qseed)
                if (d := diff(before, battery(other, c, qseed), 1e-11, 1e-11)):
                    ctx.fail("copy", f"copy of {c['t']}{c['k']} differs: {d}")
                if s["how"] % 2:
                    obj = other
        elif op == "params" and c["t"] == "int":
            if obj.entries is None:
                params = zoo.make_params({"seed": s["seed"], "p": c["p"], "s": s["s"], "sort": True})
                set_params(obj, c, s, params, ctx)
            else:
                ex = outcome(lambda: obj.set_training_parameters(params))
                if valid and (d := diff(before, battery(obj, c, qseed), 0, 0)):
                    ctx.fail("rejected", f"rejected training parameters changed {c['t']}{c['k']}: {d}")
                ex = None
        elif op == "interp" and c["t"] == "int":
            if valid and sorted_params(params):
                interp = s["name"]
                obj.set_interpolator(zoo.INTERPOLATORS[interp])
        elif op == "query" and valid:
            value, ex, fired = attempt(lambda: battery(obj, c, s["seed"], raw=True), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"query of {c['t']}{c['k']} raised {type(ex).__name__}: {ex}")
        elif op == "project" and valid and obj.entries is not None and not is_sparse(shown(obj, c)) and c["k"] != "P":
            rr = obj.state_dimension
            if rr > 1:
                q = min(s["how"] % 3 + 1, rr)
                V = np.linalg.qr(arr((s["seed"], 1), rr, q))[0]
                if s["seed"] % 3 == 0:  # any basis: columns of unit norm, or of any
                    V = arr((s["seed"], 1), rr, q) + np.eye(rr, q)
                    V = V / np.linalg.norm(V, axis=0) if s["seed"] % 2 else V
                W = arr((s["seed"], 2), rr, q) + V if s["how"] % 2 else None
                value, ex, fired = attempt(lambda: obj.galerkin(V, W), fault, ctx)
                if ex is not None and not fired:
                    ctx.fail("refused", f"{c['t']}{c['k']}.galerkin raised {type(ex).__name__}: {ex}")
                if ex is None and (d := projected(c, obj, value, V, W, s["seed"], params, interp)):
                    ctx.fail("projection", f"projected {c['t']}{c['k']}: {d}")
        elif op == "sum" and valid and obj.entries is not None:
            if (d := summed(obj, c, s)):
                ctx.fail("sum", f"sum of two {c['t']}{c['k']}: {d}")
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, s["fmt"] if op == "set" else "", type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(c["t"], c["k"], s["fmt"] if op == "set" else "", op, type(ex).__name__ if ex else "", obj.state_dimension)
        if valid:
            where = f"{c['t']}{c['k']} after step {j} ({op})"
            if before is not None and op in ("query", "project", "copy", "sum") and c["t"] == "op":
                tol = 1e-11 if op == "copy" else 0  # a copy may be stored in another layout
                if (d := diff(before, battery(obj, c, qseed), tol, tol)):
                    ctx.fail("changed", f"{where} answers differently: {d}")
            if (d := compare(obj, c, qseed, params, interp)):
                ctx.fail("wrong", f"{where}: {d}")


def summed(obj, c, s):
    """Message if the sum of two operators does not apply like the sum of what they apply."""
    E = obj.entries
    scale = 0.5 + s["seed"] % 3
    other = obj.copy()
    other.set_entries(E * scale if s["how"] % 2 else np.asarray(E.toarray() if hasattr(E, "toarray") else E) * scale)
    total = obj + other if s["seed"] % 2 else other + obj
    if type(total) is not type(obj):
        return f"it is a {type(total).__name__}"
    rr, m = obj.state_dimension, getattr(obj, "input_dimension", None) or c["m"]
    q, u = arr((s["seed"], 3), rr), arr((s["seed"], 4), m)
    want, got = outcome(lambda: (1 + scale) * obj.apply(q, u)), outcome(lambda: total.apply(q, u))
    return diff(want, got, 1e-5, 1e-6)  # entries may be of single precision


def set_params(obj, c, s, params, ctx):
    """The training parameters are those given, whatever becomes of the arrays they came in."""
    given = np.array(params) if s["how"] % 2 else copy.deepcopy(params)
    obj.set_training_parameters(given)
    for g in [given] if isinstance(given, np.ndarray) else given:
        if isinstance(g, np.ndarray):
            g *= 0.5
    if (d := diff(snap(np.array(params)), snap(np.array(obj.training_parameters)), 0, 0)):
        ctx.fail("parameters", f"training parameters of int{c['k']} are not those that were set: {d}")


def sorted_params(params):
    return params is None or np.ndim(params[0]) or list(params) == sorted(params)


def is_sparse(E):
    return any(sparse.issparse(e) for e in E)


def tolerance(E):
    return (1e-3, 1e-4) if any(e.dtype == np.float32 for e in E) else (1e-8, 1e-10)


def dims(obj, c):
    E = shown(obj, c)
    rr = ref.matrix(c["k"], E[0]).shape[0]
    cols = ref.matrix(c["k"], E[0]).shape[1]
    m = cols if c["k"] == "B" else (cols // rr if c["k"] == "N" else 1)
    return rr, m


def battery(obj, c, seed, raw=False):
    """Answers of an operator at drawn points."""
    call = (lambda f: f()) if raw else outcome
    if obj.entries is None:
        return {"entries": None, "dim": obj.state_dimension}
    rr, m = dims(obj, c)
    q, Q = arr((seed, 1), rr), arr((seed, 2), rr, 3)
    u, U = (arr((seed, 3), m), arr((seed, 4), m, 3)) if c["k"] in "BN" else (None, None)
    lead = [] if c["t"] == "op" else [zoo.query_param(c["p"], seed)]
    out = {
        "entries": snap(shown(obj, c)),
        "dim": obj.state_dimension,
        "one": call(lambda: obj.apply(*lead, q, u)),
        "many": call(lambda: obj.apply(*lead, Q, U)),
    }
    if rr == 1 and c["k"] != "P":  # several states of dimension one
        out["flat"] = call(lambda: np.ravel(obj.apply(*lead, Q[0], U[0] if U is not None and m == 1 else U)))
    plain = not (is_sparse(shown(obj, c)) and c["k"] in "BHGQN")
    if plain:  # states and inputs of other types
        (qi, ui), (Qi, Ui) = whole(q, u), whole(Q, U)
        out["integer"] = call(lambda: np.asarray(obj.apply(*lead, qi, ui), float))
        out["integers"] = call(lambda: np.asarray(obj.apply(*lead, Qi, Ui), float))
        if rr == 1 and c["k"] != "P":
            out["scalar"] = call(lambda: np.ravel(obj.apply(*lead, float(q[0]), u)))
        if m == 1 and u is not None:
            out["scalar input"] = call(lambda: np.ravel(obj.apply(*lead, q, float(u[0]))))
        (Qs, Us), (Qc, Uc) = others(seed, rr, m, u is not None)
        out["square"] = call(lambda: obj.apply(*lead, Qs, Us))
        out["column"] = call(lambda: obj.apply(*lead, Qc, Uc))
        if u is not None and m == 1 and rr > 1:  # inputs in a row
            out["row"] = call(lambda: obj.apply(*lead, Q, U[0]))
            out["square row"] = call(lambda: obj.apply(*lead, Qs, Us[0]))
    if not (is_sparse(shown(obj, c)) and c["k"] in "HGQN"):
        out["jacobian"] = call(lambda: obj.jacobian(*lead, q, u))
    if plain and c["k"] != "c":
        out["integer jacobian"] = call(lambda: np.broadcast_to(ref.dense(obj.jacobian(*lead, qi, ui)), (rr, rr)).astype(float))
    if lead:
        out["evaluate"] = call(lambda: obj.evaluate(*lead).entries)
        pars = block_params(c, seed)
        Qs = [arr((seed, 7, i), rr, 3) for i in range(len(pars))]
        Us = [arr((seed, 8, i), m, 3) for i in range(len(pars))] if c["k"] in "BN" else None
        out["block"] = call(lambda: obj.datablock(pars, Qs, Us))
        out["columns"] = call(lambda: obj.operator_dimension(len(pars), rr, m))
        out["parameters"] = snap(obj.parameter_dimension)
    else:
        out["block"] = call(lambda: obj.datablock(Q, U))
    return out


def whole(q, u):
    """Integers near a state and an input."""
    return np.round(4 * q).astype(int), None if u is None else np.round(4 * u).astype(int)


def others(seed, rr, m, inputs):
    """As many states as dimensions, and a single one."""
    return [(arr((seed, 9, k), rr, k), arr((seed, 10, k), m, k) if inputs else None) for k in (max(rr, 2), 1)]


def block_params(c, seed):
    return zoo.make_params({"seed": seed, "p": c["p"], "s": 4, "sort": False})


def blocks(c, seed, rr, m, o):
    """The columns of the regression that belong to a parametric operator."""
    out = []
    for i, mu in enumerate(block_params(c, seed)):
        B = ref.block(c["k"], arr((seed, 7, i), rr, 3), arr((seed, 8, i), m, 3) if c["k"] in "BN" else None, o)
        out.append(np.vstack([t * B for t in ref.thetas(c, mu)]) if c["t"] == "aff" else B)
    return np.hstack(out) if c["t"] == "aff" else scipy.linalg.block_diag(*out)


def compare(obj, c, seed, params, interp):
    if obj.entries is None:
        return None
    E = shown(obj, c)
    rr, m = dims(obj, c)
    if obj.state_dimension != rr:
        return f"state dimension {obj.state_dimension} instead of {rr}"
    if c["k"] in "BN" and obj.input_dimension != m:
        return f"input dimension {obj.input_dimension} instead of {m}"
    mu = None if c["t"] == "op" else zoo.query_param(c["p"], seed)
    at = E[0] if c["t"] == "op" else ref.entries_at(c, E, mu, params, interp)
    q, Q = arr((seed, 1), rr), arr((seed, 2), rr, 3)
    u, U = (arr((seed, 3), m), arr((seed, 4), m, 3)) if c["k"] in "BN" else (None, None)
    o = c.get("order")
    got = battery(obj, c, seed)
    checks = {
        "one": ref.apply(c["k"], at, q, u, o),
        "many": ref.apply(c["k"], at, Q, U, o),
        "flat": np.ravel(ref.apply(c["k"], at, Q, U, o)),
        "integer": ref.apply(c["k"], at, *(x if x is None else x.astype(float) for x in whole(q, u)), o),
        "integers": ref.apply(c["k"], at, *(x if x is None else x.astype(float) for x in whole(Q, U)), o),
        **{x: ref.apply(c["k"], at, *others(seed, rr, m, u is not None)[x == "column"], o) for x in ("square", "column", "square row")},
        "row": ref.apply(c["k"], at, Q, U, o),
        "scalar": np.ravel(ref.apply(c["k"], at, q, u, o)),
        "scalar input": np.ravel(ref.apply(c["k"], at, q, u, o)),
        "integer jacobian": np.zeros((rr, rr)) if c["k"] == "c" else ref.jacobian(c["k"], at, *(x if x is None else x.astype(float) for x in whole(q, u)), o),
        "jacobian": ref.jacobian(c["k"], at, q, u, o) if c["k"] != "c" else np.zeros((rr, rr)),
        "evaluate": np.asarray(ref.dense(at)),
        "block": ref.block(c["k"], Q, U, o) if mu is None else blocks(c, seed, rr, m, o),
    }
    if mu is not None:
        checks["columns"] = (c["nterms"] if c["t"] == "aff" else 4) * zoo.opdim(c["k"], rr, m, o)
        checks["parameters"] = c["p"]
    for name, want in checks.items():
        if name not in got:
            continue
        g = got[name]
        if name == "jacobian" and g == 0:
            g = snap(np.zeros((rr, rr)))
        if name == "jacobian":  # sparse operators have sparse derivatives
            J = obj.jacobian(*([] if mu is None else [mu]), q, u)
            g = snap(np.broadcast_to(ref.dense(J), (rr, rr)).copy())
        if name == "evaluate" and sparse.issparse(e := obj.evaluate(mu).entries):
            g = snap(e.toarray())
        rtol, atol = tolerance(E)
        if (d := diff(snap(want), g, rtol, atol)):
            return f"{name}: {d}"
    return None


def projected(c, obj, new, V, W, seed, params, interp):
    """A projected operator is the projection of the operator."""
    Wr = V if W is None else W
    rr, m = dims(obj, c)
    q = arr((seed, 5), V.shape[1])
    u = arr((seed, 6), m) if c["k"] in "BN" else None
    o = c.get("order")
    for E, F in zip(shown(obj, c), shown(new, c), strict=True):
        want = np.linalg.solve(Wr.T @ V, Wr.T @ np.asarray(ref.apply(c["k"], E, V @ q, u, o)))
        if (d := diff(snap(want), snap(np.asarray(ref.apply(c["k"], F, q, u, o))), *tolerance(shown(obj, c)))):
            return d
    return compare(new, c, seed, params, interp)
