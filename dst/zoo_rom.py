"""Recipes for reduced-order models, and their composition from fresh parts."""

import numpy as np

import opinf

from . import zoo
from .zoo import arr

ROMS = {"rom": opinf.roms.ROM, "prom": opinf.roms.ParametricROM, "brom": opinf.roms.BayesianROM}


def gen_rom(r, kind=None, family=None, parts=True, infer=False):
    t = kind or r.weighted([("rom", 5), ("prom", 3), ("brom", 1.5)])
    f = family or (r.pick(["pcont", "pdisc", "icont", "idisc"]) if t == "prom" else r.pick(["cont", "disc"]))
    n0 = r.int(2, 6)
    c = {"t": t, "n0": n0, "lifter": None, "transformer": None, "basis": None, "ddt": None}
    n1 = n0
    if parts and r.flag(0.4):
        c["lifter"] = {"t": "lifter", "kind": r.pick(["quadratic", "poly"]), "orders": r.pick([[1, 2], [1, 2, 3], [1, -1], [2, 1]]), "n": n0}
        n1 = n0 * (2 if c["lifter"]["kind"] == "quadratic" else len(c["lifter"]["orders"]))
    c["n"] = n1
    if parts and r.flag(0.75):
        c["transformer"] = zoo.gen_transformer(r, n1, 1)
        while _scales_zero(c["transformer"]):
            c["transformer"] = zoo.gen_transformer(r, n1, 1)
        for m in c["transformer"].get("members", ()):
            for x in [m, *m.get("members", ())]:
                if x["t"] == "own":
                    x["ddts"] = True
    if n1 >= 3 and (n1 > 4 or (parts and r.flag(0.75))):
        c["basis"] = zoo.gen_basis(r, n1)
        for b in c["basis"].get("members", [c["basis"]]):
            if b["t"] == "pod":
                b["max_vectors"] = 2 if "members" in c["basis"] else 4
                if b["svdsolver"] == "randomized":
                    b["svdsolver"] = "dense"
    rr = _reduced(c) if r.flag(0.5) else None
    m = zoo.gen_model(r, f, rdim=rr or 2)
    if not rr:  # known operators need to know the dimension
        for o in m["ops"]:
            o["filled"] = False
    m["ops"] = [o for o in m["ops"] if o["k"] != "G" or n1 <= 4] or [zoo.gen_operator(r, 2, 1, m["ops"][0]["t"], "A", filled=False, plain=True)]
    if m["t"][0] == "p" and not any(o["t"] == "aff" for o in m["ops"]):
        o = zoo.gen_operator(r, 2, 1, "aff", "A", filled=False, plain=True)
        o["p"], o["coeffs"], o["nterms"] = m["p"], "list", 2
        m["ops"] = [o] + [x for x in m["ops"] if x["k"] != "A"]
    if m["t"][0] == "i" and m["ops"][0]["p"] != m["p"]:
        m["ops"][0].update(p=m["p"], interp=None, setparams=False, params=None)
    if (infer or t == "brom") and all(o["filled"] for o in m["ops"]):
        m["ops"][-1]["filled"] = False
    m["m"] = m["m"] if any(o["k"] in "BN" for o in m["ops"]) else 0
    m["solver"] = {"t": "l2", "d": 1, "r": 1, "reg": r.pick([0.05, 0.3, 1.0]), "driver": r.pick(["gesdd", "gesvd"])}
    c["model"] = m
    if f.endswith("cont") and r.flag(0.5):
        c["ddt"] = zoo.gen_ddt(r)
    return c


def _reduced(c):
    """Reduced dimension of a recipe, if it is certain."""
    b = c["basis"]
    if b is None:
        return c["n"]
    if b["t"] == "linear":
        return b["r"]
    if b["t"] == "pod" and b["crit"][0] == "num_vectors" and b["svdsolver"] == "dense":  # others drop vectors of rank-deficient data
        return min(b["crit"][1], b["max_vectors"] or b["n"])
    return None


def _scales_zero(c):
    """Nested scalings can divide by zero after another transformation."""
    return c["t"] == "pipeline" and len(c["members"]) > 4


def build_parts(c):
    return [
        zoo.build_lifter(c["lifter"]) if c["lifter"] else None,
        zoo.build_transformer(c["transformer"]) if c["transformer"] else None,
        zoo.build_basis(c["basis"]) if c["basis"] else None,
        zoo.build_ddt(c["ddt"]) if c["ddt"] else None,
        zoo.build_model(c["model"]),
    ]


def build_rom(c):
    lifter, transformer, basis, ddt, model = build_parts(c)
    return ROMS[c["t"]](model, lifter=lifter, transformer=transformer, basis=basis, ddt_estimator=ddt)


def rom_data(c, seed, k=None, s=None, lhs=None):
    """Training data: always lists of trajectories."""
    m = c["model"]
    par = m["t"] not in ("cont", "disc")
    cont = m["t"].endswith("cont")
    if c["ddt"] and not lhs:
        k = c["ddt"]["k"]
    k = k or 14
    out = {"parameters": None, "lhs": None, "inputs": None}
    if par:
        s = s if s and s > 3 else (4 if m["p"] == 1 else 5)
        out["parameters"] = zoo.make_params({"seed": seed % 2**31, "p": m["p"], "s": s, "sort": True})
    else:
        s = s or 1
    base = [zoo.train_states({"n": c["n0"]}, seed + i, k + (i if not c["ddt"] or lhs else 0)) for i in range(s)]
    out["states"] = [1.5 + 1.0 / (1.0 + np.exp(-Q)) for Q in base]  # positive and bounded
    if lhs or (cont and not c["ddt"]):
        out["lhs"] = [0.3 * arr((seed, 5, i), *Q.shape) + (1.8 if not cont else 0.0) for i, Q in enumerate(out["states"])]
    if m["m"]:
        out["inputs"] = [arr((seed, 6, i), m["m"], Q.shape[1]) for i, Q in enumerate(out["states"])]
    return out


def fit_rom(obj, c, data, single=False, **kw):
    args = [data["states"], data["lhs"]]
    inputs = data["inputs"]
    if single and len(data["states"]) == 1 and c["t"] != "prom":
        args = [data["states"][0], None if data["lhs"] is None else data["lhs"][0]]
        inputs = None if inputs is None else inputs[0]
    if c["t"] == "prom":
        args.insert(0, data["parameters"])
    return obj.fit(*args, inputs=inputs, **kw)


class Composition:
    """The documented composition, from parts built for the purpose."""

    def __init__(self, c):
        self.c = c
        self.cont = c["model"]["t"].endswith("cont")
        self.lifter, self.transformer, self.basis, self.ddt, self.model = build_parts(c)

    def renew(self, transformer, basis):
        lifter, t, b, d, self.model = build_parts(self.c)
        if transformer:
            self.transformer = t
        if basis:
            self.basis = b

    def lift(self, Q):
        return self.lifter.lift(Q) if self.lifter is not None else Q

    def lift_lhs(self, Q, L):
        if self.lifter is None:
            return L
        return self.lifter.lift_ddts(Q, L) if self.cont else self.lifter.lift(L)

    def scale(self, Q):
        return self.transformer.transform(Q.copy()) if self.transformer is not None else Q

    def scale_lhs(self, L):
        if self.transformer is None:
            return L
        return self.transformer.transform_ddts(L.copy()) if self.cont else self.transformer.transform(L.copy())

    def compress(self, Q):
        return self.basis.compress(Q) if self.basis is not None else Q

    def encode(self, Q):
        return self.compress(self.scale(self.lift(Q)))

    def encode_lhs(self, Q, L):
        return self.compress(self.scale_lhs(self.lift_lhs(Q, L)))

    def decode(self, Q, inner=lambda x: x):
        if self.basis is not None:
            Q = self.basis.decompress(Q)
        if self.transformer is not None:
            Q = self.transformer.inverse_transform(Q.copy())
        return self.lifter.unlift(Q) if self.lifter is not None else Q

    def train_parts(self, states, transformer=True, basis=True):
        self.renew(transformer, basis)
        lifted = [self.lift(Q) for Q in states]
        if transformer and self.transformer is not None:
            self.transformer.fit(np.hstack(lifted))
        scaled = [self.scale(Q) for Q in lifted]
        if basis and self.basis is not None:
            self.basis.fit(np.hstack(scaled))

    def fit(self, data, transformer=True, basis=True):
        states, lhs, inputs = data["states"], data["lhs"], data["inputs"]
        self.train_parts(states, transformer, basis)
        Q_ = [self.encode(Q) for Q in states]
        if lhs is not None:
            L_ = [self.encode_lhs(Q, L) for Q, L in zip(states, lhs)]
        elif self.cont:
            got = [self.ddt.estimate(Q) for Q in Q_] if inputs is None else [self.ddt.estimate(Q, U) for Q, U in zip(Q_, inputs)]
            Q_, L_ = [g[0] for g in got], [g[1] for g in got]
            inputs = None if inputs is None else [g[2] for g in got]
        else:
            L_, Q_ = [Q[:, 1:] for Q in Q_], [Q[:, :-1] for Q in Q_]
            inputs = None if inputs is None else [U[:, : Q.shape[1]] for Q, U in zip(Q_, inputs)]
        self.data = {"states": Q_, "lhs": L_, "inputs": inputs}
        if self.c["t"] == "prom":
            self.model.fit(data["parameters"], Q_, L_, inputs=inputs)
        else:
            self.model.fit(np.hstack(Q_), np.hstack(L_), inputs=None if inputs is None else np.hstack(inputs))


def probe_args(c, seed):
    """(leading parameter, initial state, further arguments of predict)."""
    m = c["model"]
    x0 = 1.5 + 1.0 / (1.0 + np.exp(-arr((seed, 41), c["n0"])))
    lead = [] if c["t"] != "prom" else [zoo.query_param(m["p"], seed)]
    if m["t"].endswith("cont"):
        return lead, x0, [np.linspace(0.0, 0.02, 4), zoo.ufunc(m["m"], seed) if m["m"] else None]
    return lead, x0, [4, arr((seed, 42), m["m"], 4) if m["m"] else None]


def probe_rom(obj, c, seed):
    """Answers of a trained ROM (BayesianROM: prediction with a fixed global seed)."""
    from .values import outcome

    X = 1.5 + 1.0 / (1.0 + np.exp(-arr((seed, 43), c["n0"], 3)))
    L = arr((seed, 44), c["n0"], 3)
    lead, x0, more = probe_args(c, seed)
    rr = obj.model.state_dimension or c["n"]
    Y, y = arr((seed, 45), rr, 3), arr((seed, 46), rr)

    def predict():
        if c["t"] != "brom":
            return obj.predict(*lead, x0, *more)
        np.random.seed(seed % 2**31)
        return obj.predict(*lead, x0, *more)

    out = {
        "str": outcome(lambda: zoo.text(obj)),
        "encode": outcome(lambda: obj.encode(X)),
        "encode1": outcome(lambda: obj.encode(X[:, 0])),
        "encode2": outcome(lambda: list(obj.encode(X, L))),
        "decode": outcome(lambda: obj.decode(Y)),
        "decode1": outcome(lambda: obj.decode(y)),
        "project": outcome(lambda: obj.project(X)),
        "predict": outcome(predict),
    }
    if c["t"] != "brom":
        out["operators"] = outcome(lambda: [o.entries for o in obj.model.operators])
    else:
        out["posterior"] = outcome(lambda: [list(obj.posterior.means), list(obj.posterior.covs)])
    return out
