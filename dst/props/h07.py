"""H07: queries change nothing."""

import copy
import os

import numpy as np

from .. import functions, queries, zoo
from ..inject import attempt, gen_fault
from ..values import Err, diff, snap

ID = "H07"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 60000}
RULE = (
    "One evaluation is one simulated run: a trained object of a drawn kind (or the functions of the package) is asked 4 to 12 "
    "drawn questions, with valid arguments, invalid ones, a user function that raises, or a numerical call that fails; after "
    "every question its complete observable state is compared with the state before, the caller's arrays bit for bit, and "
    "at the end every answer given is compared with what it was and with the answer to the same question asked again. "
    "Non-trivial: a question was refused or failed, distinct by event log."
)
STATES = "object kind x question x kind of argument x outcome"
REAL = ["opinf (all subpackages)", "numpy, scipy and h5py"]
STUBS = ["numerical, file and user calls that are made to fail"]
ASSUMPTIONS = [
    "faults inside the package itself (interrupts between two lines) are not injected here",
    "BayesianROM.predict() draws operators and is documented to change the model; the last solver report may change",
]

TOL = 1e-10  # the arithmetic may depend on how arrays lie in memory


def gen(r, tier, index):
    fam = r.weighted([("T", 4), ("B", 4), ("S", 2.5), ("O", 4), ("M", 4), ("R", 3), ("D", 1), ("L", 0.7), ("Y", 0.5), ("F", 2)])
    steps = []
    if fam == "F":
        c = {"t": "functions"}
    else:
        c = zoo.gen(r, fam)
    for j in range(r.int(4, 12)):
        s = functions.gen_call(r) if fam == "F" else queries.gen_query(r, c)
        if r.flag(0.25):
            s["fault"] = gen_fault(r, (("call", 1),))
        steps.append(s)
    return {"knobs": {"c": c, "train": r.flag(0.88), "tseed": r.seed32(), "qseed": r.seed32()}, "steps": steps}


def run(case, ctx):
    k = case["knobs"]
    c = k["c"]
    fun = c["t"] == "functions"
    obj = None
    if not fun:
        obj = zoo.build(c)
        if k["train"]:
            zoo.train(obj, c, k["tseed"])
        elif zoo.family(c) == "R":
            return

    def battery():
        return None if fun else zoo.probe(obj, c, k["qseed"])

    before = battery()
    if (d := diff(before, battery(), TOL, 0)):  # includes draws: compare with repeatable ones only
        ctx.fail("repeat", f"{c['t']} answers differently when asked again: {d}")
    given = []
    for j, s in enumerate(case["steps"]):
        func, args = functions.make(s) if fun else queries.make(obj, c, s, ctx.scratch)
        held = snap(args)
        zoo.TRIP["left"] = s.get("trip")
        value, ex, fired = attempt(lambda: func(obj, *args), s.get("fault"), ctx)
        zoo.TRIP["left"] = None
        if (s.get("callback") is not None or s.get("trip") is not None) and ex is not None:
            ctx.fault("user function raises")
        name = f"{c['t']}.{s['q']}" + (f" ({s['bad']} argument {s['arg']})" if s.get("bad") else "")
        if (d := diff(held, snap(args), 0, 0)):
            ctx.fail("arguments", f"{name} changed its arguments: {d}" + (f" when failing with {type(ex).__name__}" if ex else ""))
        if not fun and (d := diff(before, battery(), TOL, 0)):
            ctx.fail("object", f"{name} changed the object: {d}" + (f" (it raised {type(ex).__name__}: {ex})" if ex else ""))
        ctx.nontrivial |= ex is not None
        ctx.event(j, name, type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(c["t"], s["q"], s.get("bad"), s.get("arg") if s.get("bad") else "", type(ex).__name__ if ex else "", bool(fired))
        if not fired:
            given.append((name, func, args, value if ex is None else Err(ex), snap(value) if ex is None else Err(ex), s))
    for name, func, args, value, answer, s in given:
        if (d := diff(answer, snap(value), 0, 0)):
            ctx.fail("answer", f"an answer of {name} changed afterwards: {d}")
        if s.get("callback") is not None or s.get("trip") is not None or s["q"] == "save":
            continue
        again, ex, _ = attempt(lambda: func(obj, *args))
        again = snap(again) if ex is None else Err(ex)
        if (d := diff(answer, again, TOL, 0)):
            ctx.fail("repeat", f"{name} answers differently when asked again: {d}")
    for name, func, args, value, answer, s in given:  # the caller fills its arrays with something else
        if s.get("callback") is not None or s.get("trip") is not None or s["q"] == "save":
            continue
        mine = [a for a in args if isinstance(a, np.ndarray) and a.dtype == float and a.flags.writeable]
        if not mine:
            continue
        if attempt(lambda: func(obj, *args))[1] is not None:
            continue
        for a in mine:
            a *= 0.75
        copies = [a.copy() if any(a is b for b in mine) else a for a in args]
        here, ex, _ = attempt(lambda: func(obj, *args))
        here = snap(here) if ex is None else Err(ex)
        there, ex, _ = attempt(lambda: func(obj, *copies))
        there = snap(there) if ex is None else Err(ex)
        if (d := diff(there, here, TOL, 0)):
            ctx.fail("arrays", f"{name} does not notice that its arguments have other values: {d}")
    for name in os.listdir(ctx.scratch):
        os.unlink(os.path.join(ctx.scratch, name))
