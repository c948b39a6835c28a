"""H04: a basis reflects its latest fit."""

import os

import numpy as np

import opinf

from .. import zoo
from ..inject import attempt, gen_fault
from ..ref_basis import RefB
from ..values import diff, outcome, recycle, scribble, snap
from ..zoo import arr

ID = "H04"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 80000}
RULE = (
    "One evaluation is one simulated run: a basis or collection of bases is fitted 1 to 6 times on data of changing shape, between "
    "which its dimension, criterion or SVD solver is changed, it is used, given invalid data or settings, copied, saved and loaded, "
    "and fits, settings and queries fail at a drawn numerical call or are interrupted at a drawn line. After every step its vectors, "
    "singular values, dimension and answers are compared with an independent reference for the latest data. Non-trivial: a step was "
    "rejected or a fault fired."
)
STATES = "basis kind x weights x SVD solver x criterion x step x outcome"
REAL = ["opinf.basis", "opinf.utils (hdf5)", "numpy, scipy and scikit-learn decompositions"]
STUBS = ["numerical calls and lines of the package that are made to fail"]
ASSUMPTIONS = [
    "training data of full rank with distinct singular values",
    "a dimension assigned after a fit is confirmed with set_dimension() before the next fit",
    "between a failed fit or setting and the next successful one nothing is claimed",
]


def gen(r, tier, index):
    n = r.weighted([(3, 1), (5, 2), (8, 3), (11, 2)])
    c = zoo.gen_basis(r, n)
    steps = []
    for j in range(r.int(2, 9)):
        op = r.weighted([("fit", 5), ("dim", 0.6), ("set", 0.4)]) if j == 0 else r.weighted([
            ("fit", 4), ("set", 3), ("dim", 1.2), ("solver", 0.8), ("reject", 1), ("badset", 0.6), ("query", 2.5), ("copy", 0.6),
            ("reload", 0.6), ("badquery", 0.7), ("svd", 0.4), ("name", 0.3), ("energies", 0.4)])
        s = {"op": op, "seed": r.seed32(), "how": r.int(0, 7)}
        if op == "fit":
            s |= {"k": r.pick([2, 3, 6, 12, 20]), "data": r.pick(["plain", "plain", "decay", "big", "small", "f", "list"]), "via": r.pick(["fit", "fit", "fit_compress", "function"]), "recycle": r.flag(0.4), "near": r.flag(0.15)}
            if c["t"] == "pod" and c["weights"] is None and r.flag(0.3):
                s["n"] = n + r.int(-1, 3)
        if op in ("set", "svd"):
            s["crit"] = zoo.gen_criterion(r, n)
            if r.flag(0.2):  # none, or one more
                s["also"] = r.pick([None, zoo.gen_criterion(r, n)])
        if op == "dim":
            s["r"] = r.int(1, 6)
        if op == "solver":
            s["solver"] = r.pick(["dense", "method-of-snapshots", "randomized", "eigh", "custom"])
        if op in ("fit", "set", "dim", "query") and r.flag(0.3):
            # an interrupt between two lines of a member's initialiser can leave a collection without sizes
            s["fault"] = gen_fault(r, (("call", 1),) if c["t"] == "bmulti" else (("call", 3), ("line", 3)))
        steps.append(s)
    return {"knobs": {"basis": c, "qseed": r.seed32()}, "steps": steps}


def custom_svd(X, **options):
    return np.linalg.svd(X, full_matrices=False)


def make_data(s, n):
    k = s["k"]
    if s["data"] == "list":
        return [arr((s["seed"], i), n, max(1, k // 2)) for i in range(2)]
    X = arr((s["seed"], 1), n, k)
    if s["data"] == "decay":
        X = X * 2.0 ** -np.arange(k) if k < 8 else (X.T * 2.0 ** -np.arange(n)).T
    elif s["data"] == "big":
        X = 1e3 * X
    elif s["data"] == "small":
        X = 1e-3 * X
    elif s["data"] == "f":
        X = np.asfortranarray(X)
    return X


def kinds(c):
    if "members" in c:
        return c["t"] + "[" + ",".join(sorted({kinds(m) for m in c["members"]})) + "]"
    return f"{c['t']}({c['weights']})"


def run(case, ctx):
    c, qseed = case["knobs"]["basis"], case["knobs"]["qseed"]
    obj = zoo.build_basis(c)
    ref = RefB(c)
    known = ref.trained  # the basis is in a state that the reference knows
    dirty = False  # a setting failed: the criterion is unknown
    renew = set()  # members with a dimension that is not their criterion's
    name = kinds(c)
    data = last = None
    for j, s in enumerate(case["steps"]):
        op, fault = s["op"], s.get("fault")
        ex = fired = None
        pod, refpod, index = member(obj, ref, s)
        if op == "fit":
            if dirty:
                set_all(obj, ref)
                dirty = False
                renew = set()
            for i in sorted(renew):
                p, rp = (obj, ref) if i is None else (obj.bases[i], ref.members[i])
                p.set_dimension(**{rp.crit[0]: rp.crit[1]})
                rp.choose()
            renew = set()
            X = make_data(s, s.get("n", c["n"]))
            if s["near"] and last is not None and held.shape[0] == s.get("n", c["n"]):  # the latest data, but for one entry
                X = held.copy()
                X[s["seed"] % X.shape[0], s["seed"] // 7 % X.shape[1]] += 0.5 * np.abs(X).max()
            if c["t"] != "pod" and isinstance(X, list):
                X = np.hstack(X)
            if s.get("recycle"):  # the caller uses its array again
                X = recycle(last, X)
            last = X
            held = np.hstack(X) if isinstance(X, list) else X.copy()
            via = s["via"]
            if via == "fit_compress" and (c["t"] == "bmulti" or isinstance(X, list)):
                via = "fit"
            if via == "function" and not (c["t"] == "pod" and not isinstance(X, list)):
                via = "fit"
            if via == "function":
                value, ex, fired = attempt(lambda: function(obj, ref, X, s["how"] < 2), fault, ctx)
                if ex is not None and not fired:
                    ctx.fail("refused", f"pod_basis raised {type(ex).__name__}: {ex}")
                if ex is None and known and not dirty and (d := check_function(value, ref, held, s["how"] < 2)):
                    ctx.fail("function", f"pod_basis for {name}: {d}")
            else:
                value, ex, fired = attempt(lambda: getattr(obj, via)(X), fault, ctx)
                if ex is not None and not fired:
                    ctx.fail("refused", f"{name}: {via} raised {type(ex).__name__}: {ex}")
                known = ex is None
                if ex is None:
                    ref.fit(held)
                    data = held
                    if via == "fit" and value is not obj:
                        ctx.fail("fit-self", f"{name}: fit() returned something else than the basis")
            if not np.array_equal(np.hstack(X) if isinstance(X, list) else X, held):
                ctx.fail("arguments", f"{name}: fit changed the caller's data")
            if ex is None and via == "fit_compress":
                if (d := ref.adopt(obj)) or (d := diff(snap(ref.compress(held)), snap(value), 1e-6, 1e-7 * np.abs(held).max())):
                    ctx.fail("wrong", f"{name}: fit_compress: {d}")
            if ex is None and s["seed"] % 4 == 0:  # the caller writes into its arrays
                scribble([X, value])
        elif op == "set" and pod is not None and not dirty:
            crits = criteria(s)
            value, ex, fired = attempt(lambda: pod.set_dimension(**crits), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{name}: set_dimension raised {type(ex).__name__}: {ex}")
            refpod.crit = first(crits)
            if ex is not None:
                known, dirty = False, True
            elif refpod.trained and known:
                refpod.choose()
            renew.discard(index)
        elif op == "dim" and pod is not None and not refpod.trained and not dirty and last is None:
            value, ex, fired = attempt(lambda: setattr(pod, "reduced_state_dimension", s["r"]), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{name}: reduced_state_dimension = {s['r']} raised {type(ex).__name__}: {ex}")
            dirty |= ex is not None
            refpod.crit = ["num_vectors", s["r"]]
        elif op == "dim" and pod is not None and known and refpod.trained:
            value, ex, fired = attempt(lambda: setattr(pod, "reduced_state_dimension", s["r"]), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{name}: reduced_state_dimension = {s['r']} raised {type(ex).__name__}: {ex}")
            if ex is not None:
                known, dirty = False, True
            else:
                refpod.dimension(s["r"])
                renew.add(index)
        elif op == "solver" and pod is not None and refpod.c["svdsolver"] != "randomized":
            # takes effect with the next fit
            label, previous = s["solver"], pod.svdsolver
            pod.svdsolver = custom_svd if label == "custom" else label
            if label == "randomized":
                pod.svdsolver_options = {"random_state": 3}
            elif s["how"] % 2 or previous == "randomized":
                pod.svdsolver_options = [{}, None][s["how"] // 2 % 2]
            refpod.next_solver = {"eigh": "method-of-snapshots"}.get(label, label)
        elif op == "reject":
            bad = [arr(s["seed"], 3), "states", None, arr(s["seed"], c["n"] + 1, 9) if c.get("weights") else None][s["how"] % 4]
            if c["t"] == "pod":
                value, ex, fired = attempt(lambda: obj.fit(bad))
                if ex is None:
                    ctx.fail("accepted", f"{name}: fit accepted {bad!r}")
        elif op == "badset" and pod is not None:
            value, ex, fired = attempt(lambda: [pod.set_dimension, lambda: setattr(pod, "svdsolver", "nonsense"), lambda: setattr(pod, "svdsolver_options", 3)][s["how"] % 3]())
            if ex is None:
                ctx.fail("accepted", f"{name}: an invalid setting was accepted ({s['how'] % 3})")
        elif op == "query" and known and ref.trained:
            value, ex, fired = attempt(lambda: use(obj, ref, s["seed"]), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"{name}: query raised {type(ex).__name__}: {ex}")
        elif op == "badquery" and known and ref.trained:
            ref.adopt(obj)
            f, rows = [(obj.compress, ref.n), (obj.decompress, ref.dim())][s["how"] % 2]
            value, ex, fired = attempt(lambda: f(arr(s["seed"], rows + 1, 3)))
            if ex is None:
                ctx.fail("accepted", f"{name}: {f.__name__} accepted an argument of another dimension")
        elif op == "energies":
            if (d := energies(s["seed"], s["how"])):
                ctx.fail("function", d)
        elif op == "copy" and hasattr(obj, "copy"):
            obj = obj.copy()
        elif op == "name" and c["t"] != "bmulti":
            obj.name = f"name-{s['how']}"
        elif op == "reload" and known and ref.trained and not renew:
            path = os.path.join(ctx.scratch, f"b{j}.h5")
            obj.save(path)
            if c["t"] == "pod" and (d := load_part(obj, path, 1 + s["how"])):
                ctx.fail("part", f"{name}: load(max_vectors={1 + s['how']}): {d}")
            obj = zoo.load(c, path)
            os.unlink(path)
            for m in [ref] + ref.members:
                if m.c["t"] == "pod":  # the SVD solver is not part of a file
                    m.next_solver = "dense"
        elif op == "svd" and c["t"] == "pod" and known and ref.trained and not renew and not dirty:
            value = opinf.basis.PODBasis.from_svd(
                ref.full.copy(), ref.sigma * 3, ref.right.copy(), weights=zoo.make_weights(c["weights"], c["seed"], ref.n),
                max_vectors=c["max_vectors"], **({} if s.get("also", 0) is None else criteria(s)))
            obj = value
            ref.crit = ["num_vectors", ref.full.shape[1]] if s.get("also", 0) is None else first(criteria(s))
            ref.choose()
            ref.next_solver = "dense"
        ctx.nontrivial |= ex is not None
        ctx.event(j, op, type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(name, c.get("svdsolver", ""), ref.crit[0] if c["t"] == "pod" else "", op, type(ex).__name__ if ex else "", s.get("data", ""))
        if known and ref.trained and (d := compare(obj, ref, c, qseed)):
            ctx.fail("wrong", f"{name} after step {j} ({op}): {d}")


ORDER = ("num_vectors", "svdval_threshold", "cumulative_energy", "residual_energy", "projection_error")


def criteria(s):
    both = dict([s["crit"], *([s["also"]] if s.get("also") else [])])
    return {k: both[k] for k in sorted(both, key=lambda k: (s["seed"] + ORDER.index(k)) % 7)}


def first(crits):
    """The criterion that is announced to be used if there are several."""
    return [[k, crits[k]] for k in ORDER if k in crits][0]


def load_part(obj, path, k):
    """Load the first k vectors."""
    part = opinf.basis.PODBasis.load(path, max_vectors=k)
    k = min(k, obj.max_vectors)
    r = min(k, obj.reduced_state_dimension)
    want = [obj.entries[:, :r], obj.leftvecs[:, :k], None if obj.rightvecs is None else obj.rightvecs[:, :k], obj.svdvals, k, r, obj.full_state_dimension]
    got = [part.entries, part.leftvecs, part.rightvecs, part.svdvals, part.max_vectors, part.reduced_state_dimension, part.full_state_dimension]
    return diff(snap(want), snap(got), 1e-12, 1e-12)


def energies(seed, how):
    """Dimensions chosen by the functions for singular values in any order."""
    g = np.random.default_rng(seed)
    s = np.abs(arr((seed, 1), int(g.integers(2, 9)))) + 0.01
    if how % 2:
        s = s * 2.0 ** -np.arange(s.size)
    if how % 4 == 0:  # whole numbers are numbers, too
        s = np.ceil(40 * s).astype([int, np.int32][seed % 2])
    held = s.copy()
    e2 = np.sort(s)[::-1] ** 2
    total = e2.sum()
    for name, kw in (("cumulative_energy", {}), ("residual_energy", {}), ("residual_energy", {"sqrt": True}), ("svdval_decay", {})):
        for several in (False, True):
            levels, answers = [], []
            for k in g.permutation(s.size - 1)[:3] if several else [int(g.integers(0, s.size - 1))]:
                if name == "svdval_decay":  # a level between two values
                    d = np.sqrt(e2 / e2[0])
                    if d[k] - d[k + 1] < 1e-3:
                        continue
                    levels.append((d[k] + d[k + 1]) / 2)
                    answers.append(int(k) + 1)
                    continue
                a, b = e2[: k + 1].sum() / total, e2[: k + 2].sum() / total
                if b - a < 1e-6:
                    continue
                mid = (a + b) / 2  # more than k + 1 vectors are needed
                levels.append(mid if name == "cumulative_energy" else np.sqrt(1 - mid) if kw else 1 - mid)
                answers.append(int(k) + 2)
            if not levels:
                continue
            f = getattr(opinf.basis, name)
            value = f(s, levels if several else levels[0], plot=False, **kw)
            if not np.array_equal(s, held):
                return f"{name} changed its argument"
            if list(np.atleast_1d(value)) != answers or (not several and np.ndim(value)):
                return f"{name}({s.tolist()}, {levels}, {kw}) = {value} instead of {answers}"
    return None


def member(obj, ref, s):
    """The POD basis that a setting is for."""
    if ref.c["t"] == "pod":
        return obj, ref, None
    if ref.c["t"] == "bmulti":
        i = s["seed"] % len(ref.members)
        if ref.members[i].c["t"] == "pod":
            return obj.bases[i], ref.members[i], i
    return None, None, None


def set_all(obj, ref):
    for b, m in zip(obj.bases, ref.members) if ref.members else [(obj, ref)]:
        if m.c["t"] == "pod":
            b.set_dimension(**{m.crit[0]: m.crit[1]})


def function(obj, ref, X, default):
    opts = {"random_state": 3} if ref.c["svdsolver"] == "randomized" else {}
    crit = {} if default else {ref.crit[0]: ref.crit[1]}
    return opinf.basis.pod_basis(
        X, svdsolver=ref.c["svdsolver"], weights=zoo.make_weights(ref.c["weights"], ref.c["seed"], X.shape[0]) if ref.c["weights"] else None,
        return_rightvecs=True, **crit, **opts)


def check_function(value, ref, X, default):
    other = RefB(dict(ref.c, crit=["num_vectors", min(X.shape)] if default else ref.crit, max_vectors=None))
    other.fit(X)
    V, s, R = value

    class B:
        entries, rightvecs = V, None

    if (d := other.adopt(B)):
        return d
    if not np.allclose(s, other.sigma[: len(s)], rtol=1e-5, atol=1e-6):
        return "singular values"
    # X R = sigma V, where sigma is not normalised
    P = X @ R
    big = np.linalg.norm(root_apply(other, X), 2)
    if not np.allclose(P, V * (s[: V.shape[1]] * big), rtol=1e-4, atol=1e-5 * big):
        return "right singular vectors"
    return None


def root_apply(ref, X):
    from ..ref_basis import root

    return X if ref.W is None else root(ref.W) @ X


def use(obj, ref, seed):
    X = arr((seed, 1), ref.n, 3)
    obj.decompress(obj.compress(X))
    obj.projection_error(X)
    str(obj)
    obj == obj


def compare(obj, ref, c, seed):
    if (d := ref.adopt(obj)):
        return d
    n, r = ref.n, ref.dim()
    if tuple(obj.shape) != (n, r) or obj.full_state_dimension != n or obj.reduced_state_dimension != r:
        return f"shape {obj.shape} instead of {(n, r)}"
    X, x, Y, y = arr((seed, 1), n, 4), arr((seed, 2), n), arr((seed, 3), r, 4), arr((seed, 4), r)
    for A in (X, x):
        P = ref.decompress(ref.compress(A))
        for f, W in ((obj.compress, ref.compress(A)), (obj.project, P)):
            B = A.copy()
            if (d := diff(snap(W), outcome(lambda: f(B)), 1e-6, 1e-7)):
                return f"{f.__name__}: {d}"
            if not np.array_equal(A, B):
                return f"{f.__name__} changed its argument"
        e = np.linalg.norm(A - P)
        if (d := diff(snap(e / np.linalg.norm(A)), outcome(lambda: float(obj.projection_error(A))), 1e-5, 1e-6)):
            return f"projection_error: {d}"
        if (d := diff(snap(e), outcome(lambda: float(obj.projection_error(A, relative=False))), 1e-5, 1e-6)):
            return f"projection_error: {d}"
    for A in (Y, y):
        if (d := diff(snap(ref.decompress(A)), outcome(lambda: obj.decompress(A)), 1e-6, 1e-7)):
            return f"decompress: {d}"
        if not c["t"] == "linear" or c["orth"]:
            if not any(m.c["t"] == "linear" and not m.c["orth"] for m in ref.members):
                if (d := diff(snap(A), outcome(lambda: obj.compress(obj.decompress(A))), 1e-5, 1e-6)):
                    return f"compress(decompress()) is not the identity: {d}"
    sizes = [m.n for m in ref.members] or [n]
    if len(set(sizes)) == 1:
        g = np.random.default_rng((seed, 5))
        locs = [slice(0, sizes[0], 2), slice(1, None), slice(None, None, -1), g.integers(-sizes[0], sizes[0], size=sizes[0] + 1)][seed // 3 % 4] if seed % 3 == 0 else g.choice(sizes[0], size=int(g.integers(1, sizes[0] + 1)), replace=False)
        if (d := diff(snap(ref.decompress(Y, locs)), outcome(lambda: obj.decompress(Y, locs=locs)), 1e-6, 1e-7)):
            return f"decompress at {locs}: {d}"
    if c["t"] == "pod":
        s = np.asarray(obj.svdvals)
        if s.shape != ref.sigma.shape or not np.allclose(s, ref.sigma, rtol=1e-5, atol=1e-6):
            return f"singular values {s} instead of {ref.sigma}"
        e = (ref.sigma[: ref.r] ** 2).sum() / (ref.sigma**2).sum()
        if not np.allclose([obj.cumulative_energy, obj.residual_energy], [e, 1 - e], rtol=1e-6, atol=1e-7):
            return f"energies {obj.cumulative_energy}, {obj.residual_energy} instead of {e}, {1 - e}"
        if obj.max_vectors != ref.full.shape[1]:
            return f"{obj.max_vectors} vectors available instead of {ref.full.shape[1]}"
    if c["t"] == "bmulti":
        if (d := diff(snap(np.split(X, np.cumsum(sizes)[:-1])), outcome(lambda: list(obj.split(X))), 0, 0)):
            return f"split: {d}"
        if list(obj.reduced_variable_sizes) != ref.rs() or list(obj.full_variable_sizes) != sizes:
            return f"sizes {obj.full_variable_sizes}, {obj.reduced_variable_sizes} instead of {sizes}, {ref.rs()}"
        for b, m in zip(obj.bases, ref.members):
            if (d := compare(b, m, m.c, seed)):
                return f"member {m.c['t']}: {d}"
    return None
