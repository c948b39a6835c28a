"""H01: solver answers belong to the data and regularization shown."""

import numpy as np
import scipy.sparse as sparse

from .. import hist, zoo
from ..inject import attempt, gen_fault
from ..values import brief, diff, outcome, snap
from ..zoo import arr

ID = "H01"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 60000}
RULE = (
    "One evaluation is one simulated run: a history of 3 to 14 steps (fits with data of changing size, shape and rank, changes "
    "of regularization, options, method and truncation, resets, copies, file round trips, solves; valid, invalid, failing at a "
    "drawn numerical call or interrupted at a drawn line) on one to three solvers; after every step every solver is compared "
    "with an independent computation from the data and settings it shows, and a freshly fitted one with a new solver. "
    "Non-trivial: a step failed or a fault fired, distinct by event log."
)
STATES = "solver kind x step x outcome x shape of the problem x what is set"
REAL = ["opinf.lstsq", "numpy and scipy linear algebra"]
STUBS = ["numerical calls and lines of the package that are made to fail"]
ASSUMPTIONS = ["the caller does not change a data matrix in place after fitting", "problems are not numerically rank deficient by accident"]

REG = ("l2", "l2dec", "tik", "tikdec")


def gen(r, tier, index):
    c = zoo.gen_solver(r)
    t = c["t"]
    if t == "tsvd":
        c["modes"] = r.pick([None, 1, 2, -1, 0, 5])
    steps = []
    ops = [("fit", 5), ("badfit", 1.5), ("solve", 1), ("copy", 1), ("reload", 0.8), ("reset", 0.7)]
    if t in REG:
        ops += [("setreg", 4), ("badreg", 1.5), ("noreg", 0.4)]
    if t in ("tik", "tikdec"):
        ops += [("method", 1.2), ("badmethod", 0.3), ("opreg", 0.6)]
    if t in ("plain", "tik", "tikdec"):
        ops += [("options", 1)]
    if t == "tsvd":
        ops += [("modes", 4), ("badmodes", 1)]
    for j in range(r.int(3, 14)):
        op = r.weighted(ops) if j else "fit"
        s = {"op": op, "seed": r.seed32(), "on": r.int(0, 2)}
        if op in ("fit", "badfit"):
            s["shape"] = r.weighted([("tall", 6), ("wide", 1.5), ("square", 0.7), ("deficient", 1), ("unused", 1)])
            s["d"] = r.pick([c["d"], c["d"], r.int(1, 7)])
            s["nr"] = r.pick([c["r"], c["r"], r.int(1, 4)])
            s["order"] = r.pick(["C", "F"])
            s["flat"] = r.flag(0.3)
            s["again"] = r.flag(0.15)
            s["near"] = r.flag(0.15)
            s["with_reg"] = r.flag(0.5)
            s["how"] = r.int(0, 4)
        elif op in ("setreg", "badreg"):
            s["reg"] = zoo.gen_reg(r, t)
            s["how"] = r.int(0, 4)
        elif op == "opreg":
            s["rm"] = [r.int(1, 3), r.int(1, 2)]
            s["of"] = [[r.pick("cAHGQBN"), r.int(0, 3)] for _ in range(r.int(1, 5))]
        elif op == "method":
            s["method"] = r.pick(["lstsq", "normal"])
        elif op == "options":
            s["options"] = {"lapack_driver": r.pick([None, "gelsd", "gelsy"]), "cond": r.pick([None, 1e-12])}
        elif op in ("modes", "badmodes"):
            s["modes"] = r.pick([None, 1, 2, 3, -1, 0]) if op == "modes" else r.pick([99, 1.5, "2"])
        if op not in ("badmethod", "options") and r.flag(0.28):
            s["fault"] = gen_fault(r)
        steps.append(s)
    return {"knobs": {"solver": c, "qseed": r.seed32()}, "steps": steps}


def problem(c, s):
    d, nr = s["d"], s["nr"]
    k = {"tall": d + nr + 6, "wide": max(1, d - 2), "square": d, "deficient": d + nr + 6, "unused": d + nr + 6}[s["shape"]]
    D, Z = zoo.solver_data(c, s["seed"], k=k, d=d, nr=nr, rank=max(1, d - 1) if s["shape"] == "deficient" else None)
    if s["shape"] == "unused":  # an input that is never switched on
        D[:, s["seed"] % d] = 0
    if s["order"] == "F":
        D, Z = np.asfortranarray(D), np.asfortranarray(Z)
    if s["flat"] and nr == 1:
        Z = Z[0]
    return D, Z


# Independent computation =====================================================
def dense_reg(c, reg, d, nr):
    """List of nr regularization matrices."""
    t = c["t"]
    if t == "l2":
        return [reg * np.eye(d)] * nr
    if t == "l2dec":
        return [x * np.eye(d) for x in reg]
    if t == "tik":
        return [np.asarray(reg)] * nr
    return [np.asarray(G) for G in reg]


def reference(c, D, Z, reg, opts, modes, O):
    """Dictionary of answers, only those that are well determined."""
    t, (k, d), nr = c["t"], D.shape, Z.shape[0]
    out = {}
    U, s, Vt = np.linalg.svd(D, full_matrices=False)
    full = s[-1] > 1e-9 * s[0]
    rank = int(np.sum(s > 1e-9 * s[0]))
    clear = rank and np.all(s[rank:] < 0.2 * np.finfo(float).eps * max(k, d) * s[0])
    out["residual"] = np.array([np.sum((D @ O[i] - Z[i]) ** 2) for i in range(nr)])
    if full:
        out["cond"] = s[0] / s[-1]
    if t == "plain":
        cut = opts.get("cond")
        if cut and cut > 1e-3:
            if opts.get("lapack_driver") == "gelsy":
                return out
            keep = s > cut * s[0]
            out["solve"] = Z @ (U[:, keep] / s[keep]) @ Vt[keep]
        elif full:
            out["solve"] = Z @ (U / s) @ Vt
    elif t in REG:
        if reg is None:
            return out
        Gs = dense_reg(c, reg, d, nr)
        sol, conds, okay = [], [], True
        for i, G in enumerate(Gs):
            P = np.vstack((D, G))
            sv = np.linalg.svd(P, compute_uv=False)
            conds.append(sv[0] / sv[-1] if sv[-1] > 0 else np.inf)
            if conds[-1] > 1e7:
                okay = False
                continue
            q, rr = np.linalg.qr(P)
            sol.append(np.linalg.solve(rr, q.T @ np.concatenate([Z[i], np.zeros(d)])))
        if max(conds) < 1e7:
            out["regcond"] = conds[0] if t in ("l2", "tik") else np.array(conds)
        out["regresidual"] = np.array([out["residual"][i] + np.sum((Gs[i] @ O[i]) ** 2) for i in range(nr)])
        if t == "l2" and reg == 0 and not full and clear:  # the minimiser of least norm
            out["solve"] = Z @ (U[:, :rank] / s[:rank]) @ Vt[:rank]
        if okay and max(conds) < 2e3:
            S = np.array(sol)
            out["solve"] = S
            res = [np.sum((D @ S[i] - Z[i]) ** 2) + np.sum((Gs[i] @ S[i]) ** 2) for i in range(nr)]
            if min(res) > 1e-8 and full:
                out["posterior"] = [S, [k / e * (D.T @ D + G.T @ G) for e, G in zip(res, Gs)]]
    elif t == "tls":
        if k >= d + nr:
            A = np.hstack((D, Z.T))
            u, sv, v = np.linalg.svd(A, full_matrices=False)
            if sv[-1] > 1e-9 * sv[0]:
                out["augcond"] = sv[0] / sv[-1]
                out["error"] = np.sqrt(np.sum(sv[d:] ** 2))
            v = v.T
            if np.linalg.svd(v[d:, d:], compute_uv=False)[-1] > 1e-3 and sv[d - 1] > sv[d] * 1.0001:
                out["solve"] = (-v[:d, d:] @ np.linalg.inv(v[d:, d:])).T
    elif t == "tsvd":
        m = min(k, d)
        n = m if modes is None else (min(modes, m) if modes > 0 else m + modes)
        if n < 1:
            return out
        out["modes"] = n
        out["max_modes"] = m
        if s[n - 1] > 1e-9 * s[0] and (n == m or s[n - 1] > 1.0001 * s[n]):
            out["tcond"] = s[0] / s[n - 1]
            out["solve"] = Z @ (U[:, :n] / s[:n]) @ Vt[:n]
        elif rank < n and clear:
            out["solve"] = Z @ (U[:, :rank] / s[:rank]) @ Vt[:rank]
    return out


QUERIES = {
    "solve": lambda o, O: o.solve(),
    "residual": lambda o, O: o.residual(O),
    "cond": lambda o, O: o.cond(),
    "regcond": lambda o, O: o.regcond(),
    "regresidual": lambda o, O: o.regresidual(O),
    "posterior": lambda o, O: list(o.posterior()),
    "augcond": lambda o, O: o.augcond,
    "error": lambda o, O: o.error,
    "tcond": lambda o, O: o.tcond(),
    "modes": lambda o, O: o.num_svdmodes,
    "max_modes": lambda o, O: o.max_modes,
}


def exposed(obj, c):
    return {
        "reg": getattr(obj, "regularizer", None),
        "opts": dict(obj.options),
        "method": getattr(obj, "method", None),
    }


def build_like(c, view, modes):
    """A new solver with the settings that obj shows."""
    cls, o = zoo.CLASSES[c["t"]], view["opts"]
    if c["t"] in ("l2", "l2dec"):
        return cls(view["reg"], lapack_driver=o["lapack_driver"])
    if c["t"] in ("tik", "tikdec"):
        return cls(view["reg"], method=view["method"], cond=o["cond"], lapack_driver=o["lapack_driver"])
    if c["t"] == "plain":
        return cls(**o)
    if c["t"] == "tls":
        return cls(lapack_driver=o["lapack_driver"])
    return cls(modes, lapack_driver=o["lapack_driver"])


def same_reg(c, got, want, d, nr):
    if want is None or got is None:
        return want is None and got is None
    try:
        a, b = dense_reg(c, got, d, nr), dense_reg(c, want, d, nr)
        return diff(snap(a), snap(b), 0, 0) is None
    except Exception:
        return False


def canonical(c, reg):
    """The regularizer as the solver shows it."""
    if reg is None or c["t"] in ("l2", "l2dec"):
        return reg

    def one(G):
        G = G.toarray() if sparse.issparse(G) else np.asarray(G)
        return np.diag(G) if G.ndim == 1 else G

    return one(reg) if c["t"] == "tik" else [one(G) for G in reg]


def bad_reg(c, s, d, nr):
    t, how = c["t"], s["how"]
    if t == "l2":
        return [-1.0, "x", [1.0, 2.0], -1e-3, np.ones(2)][how]
    if t == "l2dec":
        return [-np.ones(nr), np.ones(nr + 1) if True else None, np.ones((nr, 2)), np.append(np.ones(max(0, nr - 1)), -1.0), 3.0][how]
    if t == "tik":
        return [-np.ones(d), np.ones(d + 1), np.eye(d + 1), np.append(np.ones(max(0, d - 1)), -1.0), np.ones((d, d + 1))][how]
    g = np.ones(d)
    return [[-g] * nr, [g] * (nr + 1), [g] * (nr - 1) + [np.ones(d + 1)], [g] * (nr - 1) + [np.append(g[1:], -1.0)], [np.ones((d, d + 2))] * nr][how]


def run(case, ctx):
    k = case["knobs"]
    c = k["solver"]
    t = c["t"]
    pool = [{"obj": zoo.build_solver(c), "modes": c.get("modes"), "fit": None, "reg": canonical(c, zoo.make_reg(t, c.get("reg"), c["d"], c["r"]) if t in REG else None), "sure": True}]

    for j, s in enumerate(case["steps"]):
        me = pool[s["on"] % len(pool)]
        obj, op = me["obj"], s["op"]
        d, nr = obj.d or c["d"], obj.r or c["r"]
        fault = s.get("fault")
        value = ex = fired = None
        known_reg = me["reg"]
        if op in ("fit", "badfit"):
            D, Z = problem(c, s)
            if s["again"] and obj.data_matrix is not None:
                D, Z = obj.data_matrix, Z if Z.shape[-1] == obj.k else arr(s["seed"], s["nr"], obj.k)
            elif s["near"] and me["fit"] is not None:  # the last data, but for one entry
                D, Z = (np.array(x) for x in me["fit"])
                x = D if s["seed"] % 2 else Z
                x[s["seed"] % x.shape[0], s["seed"] % x.shape[1]] += 0.5
                s = dict(s, again=True)
            if t in REG and s["with_reg"] and op == "fit":  # make the regularizer fit the data
                obj.reset()
                me["reg"] = zoo.make_reg(t, zoo_reg(c, s), s["d"] if not s["again"] else D.shape[1], Z.shape[0] if Z.ndim == 2 else 1)
                obj.regularizer = me["reg"]
                me["reg"] = canonical(c, me["reg"])
                me["fit"], me["sure"] = None, True
            if op == "badfit":
                D, Z = [(D[:-1], Z), (D, "z"), (D[0], Z), (D, np.zeros((2, 2, D.shape[0]))), (D * np.nan, Z)][s["how"]]
            Dc, Zc = snap(D), snap(Z)
            value, ex, fired = attempt(lambda: obj.fit(D, Z), fault, ctx)
            if diff(Dc, snap(D), 0, 0) or diff(Zc, snap(Z), 0, 0):
                ctx.fail("arguments", f"{t}.fit changed its arguments")
            if ex is None:
                if op == "badfit" and not (s["how"] == 4):
                    ctx.fail("accepted", f"{t}.fit accepted invalid data {D!r:.80} {Z!r:.80}")
                if value is not obj:
                    ctx.fail("return", f"{t}.fit returned {value!r:.60}")
                Z2 = Z if Z.ndim == 2 else Z.reshape(1, -1)
                if diff(snap([D, Z2]), snap([obj.data_matrix, obj.lhs_matrix]), 0, 0):
                    ctx.fail("data", f"{t} shows other data than it was fitted to")
                me["fit"], me["sure"] = (D, Z2), True
            else:
                me["sure"] = False
                if not fired and op == "fit":
                    fresh = build_like(c, exposed(obj, c), me["modes"])
                    e2 = attempt(lambda: fresh.fit(D, Z))[1]
                    if e2 is None:
                        ctx.fail("refused", f"{t}.fit raised {type(ex).__name__}: {ex}, but not for a new solver")
        elif op in ("setreg", "badreg", "noreg"):
            new = None if op == "noreg" else zoo.make_reg(t, s["reg"], d, nr) if op == "setreg" else bad_reg(c, s, d, nr)
            before = snap(obj.regularizer)
            value, ex, fired = attempt(lambda: setattr(obj, "regularizer", new), fault, ctx)
            if ex is None:
                if op == "badreg" and obj.d is not None:
                    ctx.fail("accepted", f"{t}.regularizer accepted {new!r:.100} for d={obj.d} r={obj.r}")
                me["reg"] = obj.regularizer if op == "badreg" else canonical(c, new)
            else:
                if not fired and op != "badreg":
                    ctx.fail("refused", f"{t}.regularizer = {new!r:.80} raised {type(ex).__name__}: {ex}")
                after = snap(obj.regularizer)
                if diff(before, after, 0, 0) and not (op != "badreg" and same_reg(c, obj.regularizer, canonical(c, new), d, nr)):
                    ctx.fail("rejected", f"failed setting of {t}.regularizer left {brief(after)} instead of {brief(before)}")
                me["reg"] = obj.regularizer
        elif op in ("modes", "badmodes"):
            new = s["modes"]
            ok = op == "modes" and (new is None or obj.data_matrix is None or new <= obj.max_modes)
            before = outcome(lambda: obj.num_svdmodes)
            value, ex, fired = attempt(lambda: setattr(obj, "num_svdmodes", new), fault, ctx)
            if ex is None:
                if not ok and not isinstance(new, int):
                    ctx.fail("accepted", f"num_svdmodes accepted {new!r}")
                if not ok and obj.data_matrix is not None:
                    ctx.fail("accepted", f"num_svdmodes accepted {new!r} with {obj.max_modes} modes")
                me["modes"] = new
            else:
                if ok and not fired:
                    ctx.fail("refused", f"num_svdmodes = {new!r} raised {type(ex).__name__}: {ex}")
                after = outcome(lambda: obj.num_svdmodes)
                if diff(before, after):
                    if not fired:
                        ctx.fail("rejected", f"rejected num_svdmodes = {new!r} changed it from {before} to {after}")
                    me["modes"] = new
        elif op == "method":
            before = obj.method
            value, ex, fired = attempt(lambda: setattr(obj, "method", s["method"]), fault, ctx)
            if obj.method not in (before, s["method"]) or (ex is None and obj.method != s["method"]):
                ctx.fail("setting", f"method = {s['method']} left {obj.method}")
        elif op == "badmethod":
            before = obj.method
            value, ex, fired = attempt(lambda: setattr(obj, "method", "no such method"))
            if ex is None or obj.method != before:
                ctx.fail("accepted", f"method accepted or changed to {obj.method!r}")
        elif op == "options":
            obj.options.update(s["options"])
        elif op == "opreg":
            value, ex, fired = attempt(lambda: operator_regularizer(t, s), fault, ctx)
            if ex is not None and not fired:
                ctx.fail("refused", f"get_operator_regularizer raised {type(ex).__name__}: {ex}")
            if ex is None:
                want = np.concatenate([np.full(n, w) for n, w in operator_blocks(s)])
                if (d := diff(snap(want), snap(value), 0, 0)):
                    ctx.fail("operators", f"get_operator_regularizer for {s['of']} with r, m = {s['rm']}: {d}")
                if want.size == obj.d and t == "tik":
                    obj.regularizer = value
                    me["reg"] = canonical(c, value)
        elif op == "reset":
            value, ex, fired = attempt(lambda: obj.reset(), fault, ctx)
            if ex is None:
                me["fit"], me["sure"] = None, True
                me["reg"] = obj.regularizer if t in REG else None
                if obj.data_matrix is not None or obj.lhs_matrix is not None:
                    ctx.fail("reset", f"{t}.reset kept data")
            else:
                me["sure"], me["reg"] = False, getattr(obj, "regularizer", None)
        elif op == "solve":
            value, ex, fired = attempt(lambda: obj.solve(), fault, ctx)
        elif op in ("copy", "reload"):
            if op == "copy":
                value, ex, fired = attempt(lambda: obj.copy(), fault, ctx)
            else:
                path = f"s{j}.h5"
                value, ex, fired = attempt(lambda: obj.save(path))
                if ex is None:
                    value, ex, fired = attempt(lambda: type(obj).load(path), fault, ctx)
            if ex is None:
                new = dict(me, obj=value)
                if type(value) is not type(obj):
                    ctx.fail("copy", f"{op} of {t} gave a {type(value).__name__}")
                if s["seed"] % 2:
                    pool[pool.index(me)] = new
                if len(pool) < 3:
                    pool.append(me if s["seed"] % 2 else new)
            elif not fired and me["sure"]:
                ctx.fail("refused", f"{op} of {t} raised {type(ex).__name__}: {ex}")
        ctx.event(j, op, t, type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.nontrivial |= ex is not None
        for i, other in enumerate(pool):
            sig = check(ctx, c, other, k["qseed"], f"solver {i} of {t} after step {j} ({op}{' failing at ' + '/'.join(fired) if fired else ''})")
            ctx.state(t, op, type(ex).__name__ if ex else "", sig)
            ctx.event(i, sig)


def operator_blocks(s):
    """Number of columns and weight of every operator of the step."""
    r, m = s["rm"]
    return [(zoo.opdim(k, r, m) * (n if n and k != "Q" else 1), 0.5 + i) for i, (k, n) in enumerate(s["of"])]


def operator_regularizer(t, s):
    r, m = s["rm"]
    of = [zoo.AFFINE[k](zoo.coeff_functions("list", n, 1), nterms=n) if n and k != "Q" else zoo.OPS[k]() for k, n in s["of"]]
    inputs = m if any(k in "BN" for k, _ in s["of"]) else 0
    return zoo.CLASSES[t].get_operator_regularizer(of, [0.5 + i for i in range(len(of))], r, inputs)


def zoo_reg(c, s):
    t, seed = c["t"], s["seed"]
    if t == "l2":
        return [0, 1e-2, 0.3][seed % 3]
    if t == "l2dec":
        return {"seed": seed, "scale": [1e-2, 1.0][seed % 2]}
    return {"seed": seed, "form": ["diag", "full", "sparse"][seed % 3], "scale": [1e-1, 1.0][seed % 2]}


def check(ctx, c, me, qseed, where):
    """Compare a solver with what its data and settings imply."""
    obj, t = me["obj"], c["t"]
    D, Z = obj.data_matrix, obj.lhs_matrix
    view = exposed(obj, c)
    if t in REG and obj.d and obj.r and not same_reg(c, view["reg"], me["reg"], obj.d, obj.r):
        ctx.fail("setting", f"{where}: regularizer is {brief(snap(view['reg']))}, was set to {brief(snap(me['reg']))}")
    if t == "tsvd" and D is None and outcome(lambda: obj.num_svdmodes) is not None:
        if diff(snap(me["modes"]), outcome(lambda: obj.num_svdmodes)):
            ctx.fail("setting", f"{where}: num_svdmodes is {obj.num_svdmodes}, was set to {me['modes']}")
    if me["sure"]:
        if (me["fit"] is None) != (D is None):
            ctx.fail("data", f"{where}: {'no data' if D is None else 'data'} after {'a fit' if me['fit'] else 'no fit'}")
        if me["fit"] is not None and diff(snap(me["fit"]), snap([D, Z]), 0, 0):
            ctx.fail("data", f"{where}: shows other data than it was fitted to")
    names = ["solve", "residual", "cond"]
    if t in REG:
        names += ["regcond", "regresidual", "posterior"]
    names += {"tls": ["augcond", "error"], "tsvd": ["modes", "max_modes", "tcond"]}.get(t, [])
    if D is None:
        for name in names:
            if name not in ("modes", "max_modes"):
                got = outcome(QUERIES[name], obj, arr(qseed, c["r"], c["d"]))
                if type(got).__name__ != "Err":
                    ctx.fail("untrained", f"{where}: {name} answered {brief(got)} without data")
        return "untrained"
    if Z is None or D.ndim != 2 or Z.ndim != 2 or D.shape[0] != Z.shape[1] or not (np.isfinite(D).all() and np.isfinite(Z).all()):
        return "inconsistent"
    O = arr((qseed, 1), Z.shape[0], D.shape[1])
    if t in REG and view["reg"] is not None:
        try:
            ok = all(G.shape == (D.shape[1],) * 2 for G in dense_reg(c, view["reg"], D.shape[1], Z.shape[0]))
            ok = ok and len(dense_reg(c, view["reg"], D.shape[1], Z.shape[0])) == Z.shape[0]
        except Exception:
            ok = False
        if not ok:
            return "mismatch"
    want = reference(c, D, Z, view["reg"], view["opts"], me["modes"], O)
    fresh = None
    if me["sure"]:
        fresh = build_like(c, view, me["modes"])
        fresh.fit(D, Z)
    for name in names:
        got = outcome(QUERIES[name], obj, O)
        raised = type(got).__name__ == "Err"
        if fresh is not None:
            if (d := diff(outcome(QUERIES[name], fresh, O), got, 1e-6, 1e-10)) and name in want:
                ctx.fail("fresh", f"{where}: {name} differs from a new solver: {d}")
            if raised and not isinstance(outcome(QUERIES[name], fresh, O), type(got)):
                ctx.fail("fresh", f"{where}: {name} raised {got!r}, but not for a new solver")
        if name in want and not raised:
            tol = 1e-6 if name != "posterior" else 1e-5
            if view["method"] == "normal":
                tol = 1e-4
            if (d := diff(snap(want[name]), got, tol, 1e-9)):
                ctx.fail("wrong", f"{where}: {name} does not belong to the data and settings shown: {d}")
        if raised and name in want and me["sure"] and not (name == "regcond"):
            ctx.fail("raised", f"{where}: {name} raised {got!r}")
    return f"{'tall' if D.shape[0] > D.shape[1] else 'wide'} {'reg' if view['reg'] is not None else ''} {len(want)}"
