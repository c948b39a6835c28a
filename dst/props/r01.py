"""R01: results are reproducible."""

import contextlib
import gc
import io
import os
import pickle
import random
import subprocess
import sys

from .. import clock  # before the package is imported
from .. import limits

import numpy as np

import opinf  # noqa: E402

from .. import env, functions, hist, queries, zoo, zoo_rom  # noqa: E402
from ..inject import attempt, gen_fault  # noqa: E402
from ..procs import isolated  # noqa: E402
from ..rng import Rng  # noqa: E402
from ..values import brief, diff, outcome, snap  # noqa: E402
from . import g02, h08  # noqa: E402

ID = "R01"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 50000}
RULE = (
    "One evaluation is one simulated run: the same drawn work (training, reconfiguring, selections, questions, predictions, "
    "posterior draws, verifications and calls of functions on one to three objects) takes place in a pristine process, in a "
    "process where drawn other work (on similar objects, some of it failing or drawing random numbers) happened before and "
    "in between, with other clocks and other memory contents, in a process with another state of the global random number "
    "generators, and for some runs in a fresh interpreter with another hash seed. Results must agree, and the global "
    "generators are compared before and after every operation. Non-trivial: other work took place, distinct by event log."
)
STATES = "object kind x operation x documented as random x kind of process"
REAL = ["opinf (all subpackages)", "numpy, scipy, scikit-learn and h5py", "interpreters with other hash seeds"]
STUBS = ["clocks", "state of the global random number generators", "an ODE solver that gives up after 1000 evaluations", "numerical, file and user calls that are made to fail"]
ASSUMPTIONS = ["BLAS runs with one thread", "verify() may draw test data from the global generator"]

TOL = 1e-9


def _subject(r):
    fam = r.weighted([("T", 2), ("B", 4), ("S", 2), ("O", 2), ("M", 2.5), ("R", 3), ("Y", 1), ("D", 0.5), ("L", 0.3), ("F", 1)])
    if fam == "F":
        return {"f": "F", "c": None, "steps": [{"m": "call", **functions.gen_call(r)} for _ in range(r.int(1, 4))], "qseed": 0}
    if fam == "R" and r.flag(0.35):
        case = g02.gen(r, "quick", 0)
        steps = [dict(s, m="select") for s in case["steps"] if s["op"] == "select"][-1:]
        for s in steps:
            s.update(noise=min(s["noise"], 0.1), cands=s["cands"][:3], only=True, trip=None)
            s.pop("fault", None)
        return {"f": "R", "c": case["knobs"]["rom"], "steps": steps, "qseed": r.seed32()}
    c = zoo_rom.gen_rom(r, kind="brom") if fam == "R" and r.flag(0.45) else zoo.gen(r, fam)
    if fam == "B" and c["t"] == "pod" and r.flag(0.35):
        c["svdsolver"] = "randomized"
    if fam == "R" and c["basis"] and c["basis"]["t"] == "pod" and r.flag(0.25):
        c["basis"]["svdsolver"] = "randomized"
    steps = [{"m": "train", "seed": r.seed32()}] if r.flag(0.85) or fam in "R" else []
    for _ in range(r.int(1, 4)):
        kind = r.weighted([("ask", 4), ("mutate", 3), ("draw", 3 if fam == "Y" or c["t"] == "brom" else 0), ("verify", 0.7 if fam in "TBOD" else 0)])
        if kind == "ask":
            steps.append({"m": "ask", **queries.gen_query(r, c, bad=0.1)})
        elif kind == "mutate" and fam not in "RDLY":
            steps.append(hist.gen_mutation(r, c))
        elif kind == "draw":
            steps.append({"m": "draw", "seed": r.seed32(), "how": r.pick(["rvs", "operators", "predict", "predict"])})
        elif kind == "verify":
            steps.append({"m": "verify", "seed": r.seed32()})
    if steps and steps[0]["m"] == "train" and fam in "TBSMR" and r.flag(0.35):
        steps.append({"m": "again", "seed": r.seed32()})
    return {"f": fam, "c": c, "steps": steps, "qseed": r.seed32(), "rs": "global" if fam == "B" and r.flag(0.3) else "seed"}


def gen(r, tier, index):
    subjects = [_subject(r) for _ in range(r.weighted([(1, 4), (2, 3), (3, 1)]))]
    fresh = r.int(1, 5000) if index % 60 == 3 else None
    if fresh:
        subjects += [_subject(r) for _ in range(6)]
    others = []
    for _ in range(r.int(0, 4)):
        o = dict(r.pick(subjects)) if r.flag(0.6) else _subject(r)
        o["steps"] = [dict(s, seed=r.seed32()) if s["m"] in ("train", "draw", "verify") else s for s in o["steps"] if s["m"] != "again"]
        if o["steps"] and r.flag(0.3):
            o["steps"][-1] = dict(o["steps"][-1], fault=gen_fault(r))
        others.append(o)
    work = [{"i": i, "m": "step"} for i in range(len(subjects))]
    return {
        "knobs": {"subjects": subjects, "others": others, "fresh": fresh, "g": r.seed32(), "g2": r.seed32(), "garbage": r.int(0, 40), "order": r.seed32(), "verify": r.flag()},
        "steps": work,
    }


def simplify(case):
    k = case["knobs"]
    for i in range(len(k["others"])):
        yield dict(case, knobs=dict(k, others=k["others"][:i] + k["others"][i + 1:]))
    for key, val in (("fresh", None), ("garbage", 0)):
        if k[key]:
            yield dict(case, knobs=dict(k, **{key: val}))
    used = {s["i"] for s in case["steps"]}
    for i, sub in enumerate(k["subjects"]):
        for j in range(len(sub["steps"]) if i in used else 0):
            subs = list(k["subjects"])
            subs[i] = dict(sub, steps=sub["steps"][:j] + sub["steps"][j + 1:])
            yield dict(case, knobs=dict(k, subjects=subs))


# Executing work ==============================================================
def _state():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4], random.getstate())  # [0]: numpy, [4]: Python


def _seed(g):
    np.random.seed(g % 2**32)
    random.seed(g)


def _global_pod(c):
    return c is not None and (c.get("svdsolver") == "randomized" or any(_global_pod(m) for m in c.get("members", ())))


def build(sub):
    c = sub["c"]
    if c is None:
        return None
    if sub.get("rs") == "global" and _global_pod(c):
        return build_global(c)
    return zoo.settle(zoo.build(c), c)


def build_global(c):
    """A randomized POD basis without a seed of its own."""
    real = opinf.basis.PODBasis

    def pod(*args, random_state=None, **kw):
        return real(*args, **kw)

    opinf.basis.PODBasis = pod
    try:
        return zoo.build(c)
    finally:
        opinf.basis.PODBasis = real


def is_random(sub, s):
    """Is this operation documented to draw from the global generator?"""
    if s["m"] in ("verify", "draw"):
        return True
    if s["m"] == "select":
        return sub["c"]["t"] == "brom"
    if sub["f"] == "B" and sub.get("rs") == "global" and _global_pod(sub["c"]):
        return s["m"] in ("train", "reject")
    return False


def depends(sub):
    """Do the results of the subject depend on the global generator?"""
    return any(is_random(sub, s) and s["m"] != "verify" for s in sub["steps"])


def perform(obj, sub, s, tmp):
    """(what stands for the object now, outcome of the step)."""
    c, m = sub["c"], s["m"]
    if m == "call":
        func, args = functions.make(s)
        return obj, outcome(func, None, *args)
    if m == "ask":
        func, args = queries.make(obj, c, s, tmp)
        return obj, outcome(lambda: func(obj, *args))
    if m == "verify":
        return obj, outcome(lambda: type(h08.verify(obj, c, sub["f"], s)).__name__)
    if m == "select":
        def go():
            data = g02.make_data(c, s)
            fac = g02.Factory(c["model"]["solver"]["t"], s["trip"], obj)
            got = g02.select(obj, c, s, data, g02.candidates(s), fac, False, False, s["margin"])
            return [snap(getattr(got, "model", None) and 1), [snap(o.entries) for o in obj.model.operators] if c["t"] != "brom" else 0]

        return obj, outcome(go)
    if m == "again":  # the same training twice in a row
        def go():
            keep = np.random.get_state()
            out = []
            for _ in range(2):
                np.random.set_state(keep)
                zoo.train(obj, c, s["seed"])
                out.append(zoo.probe(obj, c, s["seed"] // 3))
            np.random.set_state(keep)
            return diff(out[0], out[1], TOL, 1e-12)

        return obj, outcome(go)
    if m == "draw":
        def go():
            post = obj if sub["f"] == "Y" else obj.posterior
            if s["how"] == "rvs" or sub["f"] == "Y":
                return list(post.rvs())
            if s["how"] == "operators":
                obj.draw_operators()
                return [o.entries for o in obj.model.operators]
            lead, x0, more = zoo_rom.probe_args(c, s["seed"])
            return obj.predict(*lead, x0, *more)

        return obj, outcome(go)
    box = [obj]

    def go():
        box[0] = zoo.settle(hist.apply(obj, c, s, tmp), c)

    res = outcome(go)
    return box[0], res


def work(k, order, g, tmp, between=None):
    """Everything the subjects do: {subject: [(step, outcome, generators touched)], final answers}."""
    _seed(g)
    limits.LIMIT["evaluations"] = 1000
    out = {}
    for i in order:
        sub = k["subjects"][i]
        recs = []
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            before = _state()
            obj = build(sub)
            recs.append(("build", None, _state() != before, None))
            for n, s in enumerate(sub["steps"]):
                if between is not None:
                    between(i, n)
                before = _state()
                obj, res = perform(obj, sub, s, tmp)
                after = _state()
                recs.append((s["m"] + (f" {s.get('q', s.get('how', ''))}"), res, after != before, after))
            last = None
            if sub["c"] is not None:
                keep = np.random.get_state()  # (probing a Bayesian ROM sets the global seed)
                last = outcome(lambda: zoo.probe(obj, sub["c"], sub["qseed"]))
                np.random.set_state(keep)
        out[i] = (recs, last)
    return out


def distract(others, g, tmp, ctx, faults):
    """Other work, whose results do not matter."""
    _seed(g)
    limits.LIMIT["evaluations"] = 1000
    held = []
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        for sub in others:
            obj = build(sub)
            for s in sub["steps"]:
                if s.get("fault"):
                    if faults:
                        before = _state()
                        value, ex, fired = attempt(lambda: perform(obj, sub, s, tmp), s["fault"], ctx)
                        if fired and not is_random(sub, s) and _state() != before:
                            return f"{s['m']} of {sub['c'] and sub['c']['t']} failed and left other random number generators"
                else:
                    obj, _ = perform(obj, sub, s, tmp)
            held.append(obj)
    return None


def remote():
    """In a fresh interpreter: the work of a case, to a file."""
    import json

    with open(sys.argv[1]) as f:
        k, order, g, tmp, target = json.load(f)
    res = work(k, order, g, tmp)
    with open(target, "wb") as f:
        pickle.dump(res, f)


# The property ================================================================
def compare(ctx, k, a, b, what, randoms=True):
    for i in sorted(a):
        sub = k["subjects"][i]
        if not randoms and depends(sub):
            continue
        name = "functions" if sub["c"] is None else sub["c"]["t"]
        if len(a[i][0]) != len(b[i][0]):
            ctx.fail("steps", f"{name}: other steps {what}")
        for j, (x, y) in enumerate(zip(a[i][0], b[i][0])):
            if x[1] is not None and (d := diff(x[1], y[1], TOL, 1e-12)):
                ctx.fail("result", f"{name}: {x[0]} gives another result {what}: {d}; history {[s['m'] for s in sub['steps'][:j]]}")
            if randoms and x[3] != y[3] and j > 0:
                ctx.fail("generator", f"{name}: after {x[0]} the global random number generator is in another state {what}; history {[s['m'] for s in sub['steps'][:j]]}")
        if (d := diff(a[i][1], b[i][1], TOL, 1e-12)) and a[i][1] is not None:
            ctx.fail("answers", f"{name}: gives other answers {what}: {d}; history {[s['m'] for s in sub['steps']]}")


def run(case, ctx):
    k = case["knobs"]
    order = [s["i"] for s in case["steps"]]
    if not order:
        return
    tmp = os.path.join(ctx.scratch, "files")
    os.makedirs(tmp, exist_ok=True)

    def alone(g, start):
        def go():
            with clock.running(clock.Clock(start)):
                return work(k, order, g, tmp)

        status, value = isolated(go)
        if status != "ok":
            ctx.fail("died", f"the process of the work died: {status} {value}")
        return value

    a = alone(k["g"], 1000.0)
    for i in sorted(a):
        sub = k["subjects"][i]
        name = "functions" if sub["c"] is None else sub["c"]["t"]
        for (what, res, touched, _), s in zip(a[i][0], [{"m": "build"}] + sub["steps"]):
            rnd = is_random(sub, s)
            ctx.state(name, what, rnd)
            if touched and not rnd:
                ctx.fail("consumed", f"{name}: {what} changed the global random number generators; history {[x['m'] for x in sub['steps']]}")
            if s["m"] == "again" and isinstance(res, str):
                ctx.fail("again", f"{name}: the same training once more gives something else: {res}; history {[x['m'] for x in sub['steps']]}")
            ctx.event(i, what, "random" if touched else "", brief(res, 60) if not rnd else "")
    # The same after and between other work.
    r = Rng(k["order"], 1)
    garbage = [bytearray(r.int(1, 3000)) for _ in range(k["garbage"])]
    with clock.running(clock.Clock(9.9e6, 2.1e9)):
        said = distract(k["others"], k["g2"], tmp, ctx, True)
        if said:
            ctx.fail("consumed", said)
        if k["garbage"] % 3 == 0:
            gc.collect()
        elif k["garbage"] % 3 == 1:
            gc.disable()
        calm = [dict(o, steps=[s for s in o["steps"] if not s.get("fault")]) for o in k["others"] if not depends(o) and not any(is_random(o, s) for s in o["steps"])]

        def between(i, n):
            if calm and r.flag(0.3):
                pick = r.pick(calm)
                obj = build(pick)
                for s in pick["steps"][: 1 + n]:
                    obj, _ = perform(obj, pick, s, tmp)
            if garbage and r.flag(0.5):
                garbage.pop()

        order2 = list(order)
        if not any(is_random(k["subjects"][i], s) for i in order for s in k["subjects"][i]["steps"]):
            order2 = sorted(order, key=lambda i: Rng(k["order"], 2, i).random())
        b = work(k, order2, k["g"], tmp, between)
        gc.enable()
    if k["others"]:
        ctx.nontrivial = True
        ctx.fault("other work before and between", len(k["others"]))
    compare(ctx, k, a, b, "when other work happens before and in between")
    # Another state of the global generators.
    c = alone(k["g2"], 5.0)
    ctx.fault("other generator state and clock")
    compare(ctx, k, a, c, "with other states of the global random number generators", randoms=False)
    for i in sorted(a):
        sub = k["subjects"][i]
        for (what, x, t1, s1), (_, y, t2, s2), s in zip(a[i][0][1:], c[i][0][1:], sub["steps"]):
            if t1 and (s1[0] == s2[0] or s1[4] == s2[4]):
                ctx.fail("reseeded", f"{sub['c']['t']}: {what} leaves the global random number generator in the same state whatever it was before")
            if s["m"] == "draw" and s["how"] != "predict" and not isinstance(x, type(outcome(lambda: 1 / 0))):
                ctx.probe("draws compared")
                if not diff(x, y, 1e-14, 0):
                    ctx.fail("constant", f"{sub['c']['t']}: {what} draws the same whatever the state of the global random number generator: {brief(x)}")
    if k["fresh"]:
        import json

        src, target = os.path.join(ctx.scratch, "case.json"), os.path.join(ctx.scratch, "result.pkl")
        with open(src, "w") as f:
            json.dump([k, order, k["g"], tmp, target], f)
        e = dict(os.environ, PYTHONHASHSEED=str(k["fresh"]))
        p = subprocess.run(
            [sys.executable, "-W", "ignore", "-c", "import sys; sys.path.insert(0, %r); import dst.env; from dst.props import r01; r01.remote()" % env.VERIF, src],
            env=e, cwd=ctx.scratch, capture_output=True, text=True, timeout=80,
        )
        if p.returncode:
            raise RuntimeError("fresh interpreter failed: " + p.stderr[-1500:])
        with open(target, "rb") as f:
            d = pickle.load(f)
        ctx.fault("fresh interpreter with another hash seed")
        compare(ctx, k, a, d, f"in an interpreter with hash seed {k['fresh']}")
