"""H11: two objects that compare equal answer the same."""

import copy

import numpy as np

import opinf

from .. import hist, zoo
from ..inject import attempt, gen_fault
from ..values import Err, diff, outcome, snap
from ..zoo import arr

ID = "H11"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 80000}
RULE = (
    "One evaluation is one simulated run: two replicas (of one recipe, of two recipes that differ in one place, or of different "
    "kinds) live through a generated history of fits, interrupted fits, changes of a single entry, reconfigurations, copies and "
    "reloads that reaches both, or only one of them; they are compared with each other and with other objects after every step. "
    "Non-trivial: both outcomes of the comparison were seen, or a fault fired; distinct by event log."
)
STATES = "kind x difference of the recipes x result of the comparison x do the histories agree"
REAL = ["opinf.pre, basis, operators, models, roms.OperatorPosterior", "h5py, numpy, scipy.sparse"]
STUBS = ["numerical operations and lines of the package that are made to fail"]
ASSUMPTIONS = [
    "classes without an equality of their own compare by identity: nothing is claimed for copies of objects that contain them",
    "answers of equal objects agree to a relative tolerance of 1e-4, as comparisons of weights and interpolated entries are approximate",
    "what the comparison is documented not to consider (names, solvers, singular values of the training data) may differ",
]
OWN = {"shiftscale", "tmulti", "linear", "pod", "bmulti", "op", "int", "cont", "disc", "icont", "idisc", "posterior"}


def gen_recipe(r):
    while True:
        fam = r.weighted([("T", 3), ("B", 4), ("O", 4), ("M", 3), ("Y", 1)])
        c = zoo.gen_transformer(r, r.int(2, 6), 1, kind=r.pick([None, "shiftscale"])) if fam == "T" else zoo.gen(r, fam)
        if c["t"] in OWN and not any(s["t"] == "pipeline" for s in c.get("members", ())):
            return c


def parts(c):
    return c.get("members") or c.get("ops") or [c]


def truthful(c):
    """Do all parts define an equality?"""
    return all(s["t"] in OWN for s in [c, *parts(c)])


def vary(r, c):
    """A pair of recipes that differ in one place."""
    c = copy.deepcopy(c)
    if zoo.family(c) == "M" and r.flag(0.5):
        return vary_terms(r, c)
    if len(c.get("members", ())) > 2 and r.flag(0.3):
        d = copy.deepcopy(c)
        d["members"].pop()
        d["n"] -= d["sizes"].pop()
        return c, d, "member"
    a, c = c, copy.deepcopy(c)
    s = r.pick(parts(c))
    t = s["t"]
    opts = ["seed"] if "seed" in s else []
    if t == "shiftscale":
        opts = ["centering", "scaling", "byrow"]
    elif t in ("linear", "pod"):
        opts += ["weights", "weights", "nudged"]
    elif t == "op":
        opts += (["order"] if c is s else []) if s["k"] == "P" else ["fmt", "kind"]
    elif t == "int":
        opts += ["params", "interp"] if s["params"] and s["params"]["sort"] else ["params"]
    elif t == "posterior":
        opts += ["row", "inverted"]
    what = r.pick(opts or ["none"])
    if what == "seed":
        s["seed"] += 1
    elif what == "centering":
        s["centering"] = not s["centering"]
    elif what == "scaling":
        s["scaling"] = r.pick([x for x in (None, "standard", "minmax", "maxabs") if x != s["scaling"]])
        s["byrow"] = s["byrow"] and s["scaling"] in ("standard", "minmax", "maxabs")
    elif what == "byrow":
        s["byrow"] = s["scaling"] in ("standard", "minmax", "maxabs") and not s["byrow"]
    elif what == "weights":
        s["weights"] = r.pick([x for x in (None, "vec", "mat", "sparse", "tridiag") if x != s["weights"]])
    elif what == "nudged":
        s["weights"] = (s["weights"] or "vec") + f"+{r.int(0, s['n'] - 1)}"
    elif what == "fmt":
        s["fmt"] = r.pick(["dense", "sparse", "csc"]) if s["k"] in "AB" and s["r"] > 1 else s["fmt"]
    elif what == "order":
        s["order"] = r.int(0, 3)
    elif what == "kind":
        s["k"] = r.pick([k for k in "AHGB" if k != s["k"]]) if c is s else s["k"]
        s["fmt"] = "dense" if s["k"] in "HG" else s["fmt"]
    elif what == "params":
        s["params"] = dict(s["params"], **r.pick([{"seed": s["params"]["seed"] + 1}, {"bump": True}])) if s["params"] else None
    elif what == "interp":
        s["interp"] = r.pick([None, "pchip"] if s["p"] == 1 else [None, "nearest"])
    elif what == "row":
        s["dims"] = s["dims"][:-1] or [2]
    elif what == "inverted":
        s["inverted"] = not s["inverted"]
    return a, c, what


def vary_terms(r, c):
    """Models that differ in one term: missing, repeated, or in another place."""
    for o in c["ops"]:
        if r.flag(0.9):
            o["filled"] = True
            if o["t"] == "int" and not o["params"]:
                o.update(params=zoo.gen_params(r, o["p"], 5), setparams=True)
    for o in (x for x in c["ops"] if x["t"] == "int"):  # evaluated also where other parameters are
        o["interp"] = "nearest" if o["p"] == 2 else "pchip" if o["interp"] else None
        if c.get("interp"):
            c["interp"] = "nearest" if o["p"] == 2 else "pchip"
    c["solver"] = None
    d = copy.deepcopy(c)
    what = r.pick(["missing", "repeated", "order", "entries"])
    i = r.int(0, len(c["ops"]) - 1)
    if what == "missing" and len(c["ops"]) > 1:
        d["ops"].pop(i)
        d["m"] = d["m"] if any(o["k"] in "BN" for o in d["ops"]) else 0
    elif what == "repeated":
        i = next((j for j, o in enumerate(c["ops"]) if o["filled"]), None)
        if i is None:
            return c, d, what
        more = copy.deepcopy(c["ops"][i])
        c["ops"].append(dict(more, seed=more["seed"] + 1))
        d["ops"].append(more)
    elif what == "order":
        d["ops"].reverse()
    else:
        d["ops"][i]["seed"] += 1
    if r.flag():
        c, d = d, c
    return c, d, what


def gen(r, tier, index):
    a = gen_recipe(r)
    how = r.weighted([("same", 4), ("varied", 5), ("other", 0.7)])
    a, b, what = (a, a, "same") if how == "same" else vary(r, a) if how == "varied" else (a, gen_recipe(r), "other")
    steps = []
    for _ in range(r.int(1, 7)):
        op = r.weighted([("mutate", 6), ("nudge", 2.5), ("copy", 1), ("compare", 1)])
        s = {"op": op, "seed": r.seed32(), "side": r.weighted([("both", 4), ("a", 1), ("b", 1)]) if op != "nudge" else r.pick("ab")}
        if op == "mutate":
            s["s"] = hist.gen_mutation(r, a, failing="members" not in a and zoo.family(a) != "M")
            if r.flag(0.15):
                s["fault"] = gen_fault(r)
                s["side"] = r.pick("ab")
        elif op == "compare" and r.flag(0.6):
            s["fault"] = gen_fault(r)
        steps.append(s)
    return {"knobs": {"a": a, "b": b, "what": what, "qseed": r.seed32(), "train": r.flag(0.6), "foreign": r.int(0, 20)}, "steps": steps}


def answers(obj, c, seed):
    """What the object computes."""
    f = zoo.family(c)
    P = zoo.probe(obj, c, seed)
    keys = {
        "T": ["state_dimension", "transform", "transform1", "inverse", "inverse1", "ddts"],
        "B": ["full", "reduced", "shape", "compress", "decompress", "project", "perr", "perr_abs"],
        "O": ["repr_cls", "shape", "state_dimension", "apply", "apply1", "jacobian", "evaluate"],
        "M": ["repr_cls", "state_dimension", "input_dimension", "rhs", "jacobian"],
        "Y": ["nrows", "means", "covs"],
    }[f]
    return {k: P[k] for k in keys if k in P}


def nudge(obj, c, seed):
    """An object that differs from obj in one number, if it has any."""
    f, t = zoo.family(c), c["t"]

    def changed(E, how=seed):
        if hasattr(E, "toarray"):
            if how // 2 % 3 == 0:  # the same numbers at other places
                return E.tocsc()[:, np.roll(np.arange(E.shape[1]), 1)].tocsr()
            E = E.tolil(copy=True)
            E[-1 if how % 2 else 0, -1] = E[-1 if how % 2 else 0, -1] + 0.5
            return E.tocsr()
        E = np.array(E, dtype=float)
        at = [0, -1, how % max(1, E.size)][how % 3]
        if how // 3 % 4 == 0:
            E.flat[at] *= -1
        elif how // 3 % 4 == 1:
            E = np.roll(E, 1, axis=-1)
        else:
            E.flat[at] += 0.5
        return E

    if t in ("bmulti", "tmulti"):
        attr = "bases" if t == "bmulti" else "transformers"
        members = list(getattr(obj, attr))
        i = [0, -1][seed % 2]
        members[i] = nudge(members[i], c["members"][i], seed // 2)
        if t == "tmulti" or members[i] is obj.bases[i]:
            return obj
        return opinf.basis.BasisMulti(members, full_variable_sizes=obj.full_variable_sizes)
    if t == "linear":
        W = obj.weights
        if W is not None and seed % 2:
            return opinf.basis.LinearBasis(obj.entries, weights=_weights(W, seed), check_orthogonality=False, name=c["name"])
        return opinf.basis.LinearBasis(changed(obj.entries), weights=W, check_orthogonality=False, name=c["name"])
    if t == "shiftscale":
        names = [a for a in ("mean_", "scale_", "shift_") if getattr(obj, a, None) is not None]
        if names:
            a = names[seed % len(names)]
            x = getattr(obj, a)
            setattr(obj, a, x + 0.5 if np.ndim(x) == 0 else changed(x))
        return obj
    if f == "M":
        ops = [(o, oc) for o, oc in zip(obj.operators, c["ops"]) if o.entries is not None]
        if ops:
            nudge(*ops[seed % len(ops)], seed // 2)
        return obj
    if f == "O":
        if obj.entries is not None and c["k"] != "P":
            E = obj.entries
            if t == "int":
                obj.set_entries([changed(e) if i == seed % len(E) else e for i, e in enumerate(E)])
            else:
                obj.set_entries(changed(E))
        return obj
    if t == "posterior":
        means, covs = [np.array(x) for x in obj.means], [np.array(x) for x in obj.covs]
        i = seed % len(means)
        if seed % 2:
            means[i] = changed(means[i], seed // 2)
        else:
            d = len(means[i])
            covs[i] = covs[i] + (0.3 * np.eye(d) if seed % 4 else 0.05 * np.min(np.linalg.eigvalsh(covs[i])) * (np.ones((d, d)) - np.eye(d)))
        if seed // 4 % 2:  # (the other entries stay the same to the last bit)
            return opinf.roms.OperatorPosterior(means, covs, alreadyinverted=True)
        return opinf.roms.OperatorPosterior(means, [np.linalg.inv(x) for x in covs])
    return obj


def _weights(W, seed):
    n = W.shape[0]
    d = np.ones(n)
    d[seed % n] = 1.7
    if hasattr(W, "toarray"):
        return type(W)(np.diag(d) @ W.toarray() @ np.diag(d))
    return W * d if W.ndim == 1 else W * d * d[:, None]


def foreign(i):
    others = [
        lambda: None, lambda: 3, lambda: "basis", lambda: object(), lambda: [1.0], lambda: (),
        lambda: opinf.operators.LinearOperator(np.eye(2)), lambda: opinf.operators.QuadraticOperator(),
        lambda: opinf.basis.LinearBasis(np.eye(3)[:, :2]), lambda: opinf.pre.ShiftScaleTransformer(centering=True),
        lambda: opinf.models.ContinuousModel("A"), lambda: opinf.basis.PODBasis(num_vectors=2),
        lambda: opinf.pre.TransformerMulti([opinf.pre.NullTransformer(), opinf.pre.NullTransformer()]),
        lambda: opinf.roms.OperatorPosterior([np.zeros(2)], [np.eye(2)]), lambda: opinf.operators.InputOperator(np.eye(2)),
        lambda: opinf.lstsq.L2Solver(1.0), lambda: opinf.models.InterpContinuousModel([opinf.operators.InterpLinearOperator()]),
        lambda: opinf.operators.PolynomialOperator(1), lambda: opinf.operators.InterpLinearOperator(), lambda: LinearCousin(np.eye(3)[:, :2]),
        lambda: {},
    ]
    return others[i % len(others)]()


class LinearCousin(opinf.basis.BasisTemplate):
    """A basis of the user."""

    def __init__(self, V):
        super().__init__(None)
        self.V = V
        self.full_state_dimension, self.reduced_state_dimension = V.shape

    def fit(self, states):
        return self

    def compress(self, states):
        return self.V.T @ states

    def decompress(self, states_compressed, locs=None):
        return self.V[slice(None) if locs is None else locs] @ states_compressed


def compare(a, b):
    """(a == b as a truth value or an error)."""
    return outcome(lambda: bool(a == b))


def run(case, ctx):
    k = case["knobs"]
    ca, cb = k["a"], k["b"]
    a, b = zoo.build(ca), zoo.build(cb)
    comparable = zoo.family(ca) == zoo.family(cb)
    agree = ca == cb
    own = truthful(ca) and truthful(cb)
    partial = False  # what an interrupted step leaves is not specified
    seen = set()

    def check(j, why):
        if partial:
            return ctx.event(j, why, "interrupted")
        left, right = compare(a, b), compare(b, a)
        for x, y, g in (("a", "b", left), ("b", "a", right), ("a", "a", compare(a, a)), ("b", "b", compare(b, b))):
            if isinstance(g, Err) or not isinstance(g, bool):
                ctx.fail("raises", f"comparing {name(ca)} with {name(cb)} ({x} == {y}, {k['what']}): {g!r}")
            if x == y and not g:
                ctx.fail("self", f"{name(ca if x == 'a' else cb)} is not equal to itself")
        if left != right:
            ctx.fail("asymmetric", f"{name(ca)} and {name(cb)} ({k['what']}): a == b is {left}, b == a is {right}")
        if outcome(lambda: bool(a != b)) is not (not left):
            ctx.fail("negation", f"{name(ca)}: a == b is {left}, and so is a != b")
        ctx.event(j, why, left, agree)
        ctx.state(name(ca), k["what"], left, agree)
        seen.add(left)
        if agree and own and not left:
            ctx.fail("unequal", f"two {name(ca)} with the same history ({why}) compare different")
        if left:
            if not comparable:
                ctx.fail("kinds", f"{name(ca)} equals {name(cb)}")
            if (d := diff(answers(a, ca, k["qseed"]), answers(b, cb, k["qseed"]), 1e-4, 1e-6)):
                ctx.fail("untrue", f"two {name(ca)} ({k['what']}, after {why}) compare equal, but answer differently: {d}")
            if zoo.family(ca) == "T" and ca["n"] == cb["n"] and j % 3 == 0:  # what is equal also learns the same
                twins = [copy.deepcopy(a), copy.deepcopy(b)]
                got = [outcome(lambda: zoo.train(o, ca, k["qseed"]) is None) for o in twins]
                if (d := diff(got[:1] + [answers(twins[0], ca, k["qseed"])], got[1:] + [answers(twins[1], ca, k["qseed"])], 1e-7, 1e-9)):
                    ctx.fail("untrue", f"two {name(ca)} ({k['what']}, after {why}) compare equal, but learn differently: {d}")

    check(-1, "construction")
    if k["train"]:
        for o, c in ((a, ca), (b, cb)):
            zoo.train(o, c, k["qseed"])
        agree = agree and zoo.family(ca) in "OY"
        check(-1, "training")
    for j, s in enumerate(case["steps"]):
        op, side = s["op"], s["side"]
        why = op
        if op == "mutate":
            why = s["s"]["m"]
            fault = s.get("fault")
            if why == "train" and side == "both" and fault is None:
                partial = False
            if side in ("a", "both"):
                a, hit = change(a, ca, s["s"], fault, ctx)
                partial |= hit
            if side in ("b", "both") and comparable and (ca["t"] == cb["t"]):
                b, hit = change(b, cb, s["s"], fault, ctx)
                partial |= hit
            if side != "both" or zoo.family(ca) not in "OY":  # two fits agree up to rounding
                agree = False
        elif partial:
            continue
        elif op == "nudge":
            if side == "a":
                a = nudge(a, ca, s["seed"])
            else:
                b = nudge(b, cb, s["seed"])
            agree = False
        elif op == "copy" and comparable and ca == cb:
            b, agree = duplicate(a, ca, ctx, s["seed"]), True
        elif op == "compare":
            before = [answers(a, ca, k["qseed"]), answers(b, cb, k["qseed"])]
            value, ex, fired = attempt(lambda: (a == b, b == a), s.get("fault"), ctx)
            ctx.nontrivial |= bool(fired)
            if (d := diff(before, [answers(a, ca, k["qseed"]), answers(b, cb, k["qseed"])], 0, 0)):
                ctx.fail("changed", f"comparing {name(ca)} and {name(cb)} changed them: {d}")
            z = foreign(k["foreign"] + j)
            for o, c in ((a, ca), (b, cb)):
                got = [compare(o, z), compare(z, o)]
                if any(isinstance(g, Err) or g is not False for g in got) and not same_kind(o, z):
                    ctx.fail("foreign", f"{name(c)} == {type(z).__name__} is {got[0]!r}, reversed {got[1]!r}")
        check(j, why)
    ctx.nontrivial |= len(seen) == 2


def same_kind(o, z):
    return isinstance(z, type(o)) or isinstance(o, type(z)) and type(z) is not object


def name(c):
    return c["t"] + (c["k"] if zoo.family(c) == "O" else "")


def change(obj, c, s, fault, ctx):
    _, ex, fired = attempt(lambda: hist.apply(obj, c, s, ctx.scratch), fault, ctx)
    if fired:
        ctx.nontrivial = True
        return obj, True
    if ex is not None:
        if isinstance(ex, Exception):
            return obj, True
        raise ex
    return _, False


def duplicate(obj, c, ctx, seed):
    if seed % 2 and zoo.savable(c):
        try:
            return hist.apply(obj, c, {"m": "reload", "seed": seed}, ctx.scratch)
        except Exception:
            pass
    return obj.copy() if hasattr(obj, "copy") and (seed % 5 or zoo.family(c) == "M") else copy.deepcopy(obj)
