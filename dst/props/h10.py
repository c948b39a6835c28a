"""H10: lifting follows the orders shown and can be undone."""

import contextlib
import io
import warnings

import numpy as np

import opinf

from ..inject import attempt, gen_fault
from ..values import diff, outcome, snap
from ..zoo import arr

ID = "H10"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 100000}
RULE = (
    "One evaluation is one simulated run: one or two lifting maps go through 2 to 7 drawn operations (new orders, accepted and "
    "refused, lifting states and derivatives of drawn layout, unlifting, verification), some made to fail at a drawn call or "
    "interrupted at a drawn line; every answer and, after every operation, every map's settings and answers to fixed questions "
    "are compared with independent powers and derivatives. Non-trivial: a step failed or a fault fired, distinct by event log."
)
STATES = "operation x orders x outcome"
REAL = ["opinf.lift", "numpy"]
STUBS = ["numerical calls and lines of the package that are made to fail"]
ASSUMPTIONS = ["fractional and even powers are undone for positive states only"]

ORDERS = [(1,), (1, 2), (2, 1), (1, 2, 3), (2, 3), (1, -1), (-1,), (0.5,), (2, 0.5), (0, 1, 2), (0, 2), (3,), (4, 0), (1, 2, 4), (-2, 3), (1, 0), (2, 2), (1, 1, 3)]
BAD = [("a",), (1, None), (2, [1]), "12"]


def gen(r, tier, index):
    maps = [r.pick(["quadratic", "poly", "poly", "poly"]) for _ in range(r.int(1, 2))]
    steps = []
    for _ in range(r.int(2, 7)):
        op = r.weighted([("lift", 3), ("ddts", 3), ("set", 2), ("verify", 1)])
        s = {"op": op, "o": r.int(0, len(maps) - 1), "seed": r.seed32(), "n": r.int(1, 5), "k": r.int(1, 7)}
        if op == "set":
            s["orders"] = list(r.pick(ORDERS)) if r.flag(0.75) else None
            s["how"] = r.int(0, 5)
        if op in ("lift", "ddts"):
            s["layout"] = r.pick(["C", "C", "F", "strided", "readonly", "float32"])
            s["zeros"] = r.flag(0.2)
        if r.flag(0.25):
            s["fault"] = gen_fault(r, (("call", 1),) if op == "verify" else (("call", 3), ("line", 3)))
        steps.append(s)
    return {"knobs": {"maps": maps, "orders": [list(r.pick(ORDERS)) for _ in maps], "qseed": r.seed32()}, "steps": steps}


def power(Q, p):
    return np.ones_like(Q) if p == 0 else np.exp(p * np.log(Q)) if p != int(p) else int_power(Q, int(p))


def int_power(Q, p):
    out = np.ones_like(Q)
    for _ in range(abs(p)):
        out = out * Q
    return out if p > 0 else 1 / out


def lifted(orders, Q):
    return np.vstack([power(Q, p) for p in orders])


def lifted_ddts(orders, Q, dQ):
    return np.vstack([np.zeros_like(Q) if p == 0 else p * power(Q, p - 1) * dQ for p in orders])


def states(s, tag, orders):
    n, k = s["n"], s["k"]
    Q = 0.7 + np.abs(arr((s["seed"], tag), n, k))
    if 1 in orders and all(p == int(p) for p in orders):
        Q = Q * np.where(arr((s["seed"], tag, 1), n, k) > 0, 1, -1)
    if s.get("zeros") and all(p >= 0 and p == int(p) for p in orders):
        Q[:, 0] = 0.0
    return Q


def layout(Q, how):
    if how == "F":
        return np.asfortranarray(Q)
    if how == "strided":
        big = np.full((2 * Q.shape[0], 3 * Q.shape[1]), np.nan)
        big[::2, ::3] = Q
        return big[::2, ::3]
    if how == "float32":
        return Q.astype(np.float32)
    if how == "readonly":
        Q = Q.copy()
        Q.flags.writeable = False
    return Q


def check_map(x, orders, seed):
    n, k = 2, 3
    Q = 0.7 + np.abs(arr((seed, 1), n, k))
    dQ = arr((seed, 2), n, k)
    tests = {
        "lift": (lifted(orders, Q), lambda: x.lift(Q)),
        "lift_ddts": (lifted_ddts(orders, Q, dQ), lambda: x.lift_ddts(Q, dQ)),
    }
    if any(p != 0 for p in orders):
        tests["unlift"] = (Q, lambda: x.unlift(lifted(orders, Q)))
    for name, (want, got) in tests.items():
        if (d := diff(snap(want), outcome(got), 1e-10, 1e-12)):
            return f"{name}: {d}"
    if isinstance(x, opinf.lift.PolynomialLifter):
        if x.orders != tuple(orders) or x.num_variables != len(orders):
            return f"orders: {x.orders}, {x.num_variables} variables"
        terms = ", ".join("q" if p == 1 else f"q^{p}" for p in orders)
        if str(x) != "Lifting map q -> " + (f"({terms})" if len(orders) > 1 else terms):
            return f"text: {x}"
    return None


def quiet(func):
    def inner():
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return func()

    return inner


def run(case, ctx):
    kn = case["knobs"]
    orders = [(1, 2) if m == "quadratic" else tuple(o) for m, o in zip(kn["maps"], kn["orders"])]
    objs = [quiet(lambda: opinf.lift.QuadraticLifter() if m == "quadratic" else opinf.lift.PolynomialLifter(o))() for m, o in zip(kn["maps"], orders)]
    for j, s in enumerate(case["steps"]):
        o = s["o"] % len(objs)
        x, op, fault, seed = objs[o], s["op"], s.get("fault"), s["seed"]
        ps = orders[o]
        ex = fired = None
        if op == "set":
            if kn["maps"][o] == "quadratic":
                ctx.event(j, op, "skipped")
                continue
            new = s["orders"]
            given = BAD[s["how"] % len(BAD)] if new is None else new[0] if len(new) == 1 and s["how"] % 2 else [tuple, list][s["how"] // 2 % 2](new)
            value, ex, fired = attempt(quiet(lambda: setattr(x, "orders", given)), fault if fault and fault["mode"] == "call" else None, ctx)
            if new is None and ex is None:
                ctx.fail("accepted", f"orders {given!r} are accepted")
            if new is not None and ex is not None and not fired:
                ctx.fail("refused", f"orders {given!r} raised {type(ex).__name__}: {ex}")
            if ex is None:
                orders[o] = tuple(new)
        elif op in ("lift", "ddts"):
            Q0, dQ0 = states(s, 1, ps), arr((seed, 2), s["n"], s["k"])
            Q, dQ = layout(Q0, s["layout"]), layout(dQ0, s["layout"])
            held = snap([Q, dQ])
            value, ex, fired = attempt(quiet(lambda: x.lift(Q) if op == "lift" else x.lift_ddts(Q, dQ)), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{op} with orders {ps} raised {type(ex).__name__}: {ex}")
            if ex is None:
                want = lifted(ps, Q0) if op == "lift" else lifted_ddts(ps, Q0, dQ0)
                rtol = 1e-3 if s["layout"] == "float32" else 1e-10
                if (d := diff(snap(want), snap(np.asarray(value, float)), rtol, rtol)):
                    ctx.fail(op, f"{op} with orders {ps} of {s['layout']} data: {d}")
                if (d := diff(held, snap([Q, dQ]), 0, 0)):
                    ctx.fail("arguments", f"{op} changed its arguments: {d}")
                if op == "lift" and (1 in ps or np.all(Q0 > 0)) and any(p != 0 for p in ps):
                    back = outcome(lambda: np.asarray(x.unlift(value), float))
                    if (d := diff(snap(Q0), back, rtol * 10, rtol)):
                        ctx.fail("unlift", f"unlift after lift with orders {ps}: {d}")
        elif op == "verify":
            t = np.linspace(1, 2, 400)
            Q = np.array([2 + 0.3 * np.sin(t * (i + 1)) for i in range(s["n"])])
            held = Q.copy()
            value, ex, fired = attempt(quiet(lambda: x.verify(Q, t)), fault, ctx)
            if ex is not None and not fired and any(ps):
                ctx.fail("refused", f"verify with orders {ps} raised {type(ex).__name__}: {ex}")
            if not np.array_equal(held, Q):
                ctx.fail("arguments", "verify changed the states")
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, type(ex).__name__ if ex else "ok", "/".join(map(str, fired)) if fired else "")
        ctx.state(op, str(ps), type(ex).__name__ if ex else "")
        for y, p in zip(objs, orders):
            if any(p) and (d := check_map(y, p, kn["qseed"])):
                ctx.fail("later", f"map with orders {p} after {op}: {d}")
