"""Numbers for scenarios: what ScenKalman leaves open."""
import random

import numpy as np

from common import nums

ORDER = ["transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets",
         "transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"]
MATRICES = {"transition_matrices", "transition_covariance", "observation_matrices",
            "observation_covariance", "initial_state_covariance"}


class Numbers:
    """Small dyadic rationals (exact in binary floating point) from a seed."""

    def __init__(self, seed, style):
        self.r = random.Random(str(seed))
        self.style = style
        self.int = style in ("integer", "large")

    def entry(self, mag=1.0):
        if self.int:
            return self.r.randint(-2, 2)
        return self.r.randint(-16, 16) / 16.0 * mag

    def matrix(self, r, c, mag=1.0):
        return np.array([[self.entry(mag) for _ in range(c)] for _ in range(r)])

    def vector(self, n, mag=1.0):
        if self.int:
            return np.array([self.r.randint(-5, 5) for _ in range(n)])
        return np.array([self.r.randint(-64, 64) / 16.0 * mag for _ in range(n)])

    def cov(self, n, mag=1.0):
        if self.int:
            L = np.array([[self.r.randint(-1, 1) if j < i else (self.r.randint(1, 2) if i == j else 0)
                           for j in range(n)] for i in range(n)])
            return L @ L.T
        L = np.array([[self.r.randint(-8, 8) / 16.0 if j < i else (self.r.randint(8, 24) / 16.0 if i == j else 0.0)
                       for j in range(n)] for i in range(n)])
        return (L @ L.T) * mag

    def transition(self, n):
        if self.int:
            A = np.array([[self.r.randint(-1, 1) for _ in range(n)] for _ in range(n)])
            return A
        return self.matrix(n, n, 1.0 if n == 1 else 1.5 / n) + (np.eye(n) * 0.5 if self.r.random() < 0.5 else 0)


class Case:
    pass


def build(sc, ident, seed, markers=False):
    """Scenario (structure) + seed -> parameters, observations and their record."""
    n, m, T, style = sc["n"], sc["m"], sc["T"], sc["style"]
    rnd = Numbers("%s/%s" % (seed, ident), style)
    forms = dict(zip(ORDER, sc["form"]))
    fixed = max(1, n // 2) if style == "degenerate" else 0  # components without uncertainty

    # "scaled" and "extreme": the units of state and observation are far apart; "units": those of their components are
    us, uo, units = np.ones(n), np.ones(m), style in ("scaled", "units", "extreme")
    if style == "scaled":
        us, uo = us * 2.0 ** rnd.r.choice([-40, -20, -8, 8, 20]), uo * 2.0 ** rnd.r.choice([-40, -20, -10, 0, 10, 20])
    elif style == "extreme":  # determinants of several readings' covariances leave the range of floating point numbers
        uo = uo * 2.0 ** rnd.r.choice([-90, 90])
    elif style == "units":
        which = rnd.r.choice(["state", "observation", "both"])
        us, uo = [np.array([2.0 ** rnd.r.choice([0, 0, -10, -18]) for _ in range(k)]) if which in ("both", w) else np.ones(k)
                  for w, k in (("state", n), ("observation", m))]

    # "large": whole numbers that small integer types do not hold
    big = 2 ** rnd.r.choice([7, 10, 16, 20, 30]) if style == "large" else 1

    def one(p):
        if big > 1 and not p.endswith("matrices"):
            return plain(p) * big
        return plain(p)

    def plain(p):
        if p == "transition_matrices":
            A = rnd.transition(n)
            if style == "units":
                A = A * (us[:, None] / us)
            if fixed:
                A = A.astype(float)
                A[:fixed, fixed:] = 0
            return A
        if p == "transition_offsets":
            return rnd.vector(n) * us if units else rnd.vector(n)
        if p == "observation_matrices":
            C = rnd.matrix(m, n)
            return C * (uo[:, None] / us) if units else C
        if p == "observation_offsets":
            return rnd.vector(m) * uo if units else rnd.vector(m)
        if p in ("transition_covariance", "initial_state_covariance"):
            Q = rnd.cov(n)
            if fixed:
                Q = Q.astype(float)
                Q[:fixed, :] = 0
                Q[:, :fixed] = 0
            return Q * (us[:, None] * us) if units else Q
        if p == "observation_covariance":
            return rnd.cov(m) * (uo[:, None] * uo) if units else rnd.cov(m)
        if p == "initial_state_mean":
            return rnd.vector(n) * us if units else rnd.vector(n)

    c = Case()
    c.sc, c.id, c.n, c.m, c.T, c.style, c.forms = sc, ident, n, m, T, style, forms
    c.params, c.given = {}, {}
    for p in ORDER:
        f = forms[p]
        if fixed and f == "none" and p in ("transition_matrices", "transition_covariance", "initial_state_covariance"):
            f = "const"
        if units and f == "none" and p not in ("transition_matrices",):
            f = "const"
        if big > 1 and p.endswith("covariance"):
            f = "const" if f == "none" else f
        if f == "none":
            c.given[p] = {"form": "none", "v": []}
        elif f == "const":
            c.params[p] = one(p)
            c.given[p] = {"form": "const", "v": [nums(c.params[p])]}
        else:
            k = max(1, T - 1) if p.startswith("transition") else T
            c.params[p] = np.array([one(p) for _ in range(k)])
            c.given[p] = {"form": "tv", "v": nums(c.params[p])}
    infer_n = any(p in c.params for p in ORDER if p not in ("observation_offsets", "observation_covariance"))
    infer_m = any(p in c.params for p in ("observation_matrices", "observation_offsets", "observation_covariance"))
    c.dims = {}
    if sc["dims"] or (not infer_n and n != 1):
        c.dims["n_dim_state"] = n
    if sc["dims"] or (not infer_m and m != 1):
        c.dims["n_dim_obs"] = m

    y = np.array([rnd.vector(m) for _ in range(T)])
    if units:
        y = y * uo
    if big > 1:
        y = y * big
    odd = random.Random("odd/%s/%s" % (seed, ident))
    if markers and style in ("generic", "integer") and odd.random() < 0.2:
        # readings some would take for markers of missing values
        for _ in range(odd.choice([1, 1, 2])):
            y[odd.randrange(T), odd.randrange(m)] = odd.choice([-9999, -999, -99, -1, 0, 99, 999, 9999, 999999])
    elif markers and style in ("generic", "integer", "degenerate") and odd.random() < 0.1:
        # every reading just what was expected
        y[:] = 0
        for p in ("initial_state_mean", "transition_offsets", "observation_offsets"):
            if p in c.params:
                c.params[p] = np.zeros_like(c.params[p])
                c.given[p] = dict(c.given[p], v=nums(c.params[p]) if c.given[p]["form"] == "tv" else [nums(c.params[p])])
    mask = np.zeros((T, m), dtype=bool)
    for t, s in enumerate(sc["seen"]):
        if s == "missing":
            mask[t, :] = True
        elif s == "partial":
            k = rnd.r.randint(1, m - 1)
            mask[t, rnd.r.sample(range(m), k)] = True
    c.mask = mask
    c.y = y
    # what is hidden under the mask must not matter
    hidden = y.copy()
    if mask.any():
        if hidden.dtype.kind == "i":
            hidden[mask] = 777
        else:
            hidden[mask] = rnd.r.choice([np.nan, 1e30, -777.0, 0.0])
    c.X = np.ma.array(hidden, mask=mask)
    c.obs = [{"miss": bool(mask[t].any()), "y": [] if mask[t].any() else nums(y[t])} for t in range(T)]
    c.rnd = rnd
    return c


def kwargs(c):
    kw = dict(c.params)
    kw.update(c.dims)
    return kw


def record(c, readings):
    return {"id": c.id, "given": c.given, "n_dim_state": c.dims.get("n_dim_state", 0),
            "n_dim_obs": c.dims.get("n_dim_obs", 0), "obs": c.obs, "readings": readings, "scenario": c.sc}
