"""The unscented filters on affine models, against module Kalman (C16; parts of C05, C06, C10)."""
import numpy as np

from common import attempt
import models
import readings as rd
import scen
from scen import size
from systems import SIGMA, Affine, affine_functions, entry, make

TOL = {"UKF": "1e-8", "AUKF": "1e-8", "SUKF": "1e-8"}
STOL = {"UKF": "1e-8", "AUKF": "1e-8", "SUKF": "1e-8"}


def affine_cases(ck, tag, num, **over):
    d = dict(CovForms='{"none", "const"}', Styles='{"generic", "integer", "scaled"}', Lengths="{1, 2, 3, 4, 5, 8}")
    d.update(over)
    return scen.cases(ck, tag, num, **d)


def online(name, c, from_prior, tol, base=None):
    """chained filter_update of an unscented filter; functions that vary are passed each time"""
    kf, err = make(name, base or c)
    f, g = affine_functions(c)
    beliefs = []
    if not err:
        if from_prior and c.mask[0].any():
            mean = np.array(c.params.get("initial_state_mean", np.zeros(c.n)))
            cov = np.array(c.params.get("initial_state_covariance", np.eye(c.n)))
        else:
            res, err = attempt(kf.filter, c.X[:1].copy())
            if not err:
                mean, cov = res[0][0], res[1][0]
    for t in range(1, c.T):
        if err:
            break
        kw = {}
        if isinstance(f, list):
            kw["transition_function"] = f[t - 1]
        if isinstance(g, list):
            kw["observation_function"] = g[t]
        for p in ("transition_covariance", "observation_covariance"):
            if c.forms[p] == "tv" and t in c.overridden[p]:
                kw[p] = c.params[p][t - 1 if p.startswith("transition") else t].copy()
        if c.mask[t].any():
            k = t % 3
            if k == 1:
                kw["observation"] = np.ma.array(np.ma.getdata(c.X)[t].copy(), mask=True)
            elif k == 2:
                kw["observation"] = c.X[t].copy()
            # else none
        else:
            kw["observation"] = c.y[t].copy() if t % 2 else np.ma.array(c.y[t].copy())
        res, err = attempt(kf.filter_update, mean, cov, **kw)
        if not err:
            try:
                mean, cov = res
                beliefs.append((mean, cov))
            except Exception as e:
                err = "result is not a (mean, covariance) pair: %s" % e
        if err:
            err = "step to t=%d: %s" % (t + 1, err)
    res = None
    if not err:
        res, err = rd.stack(beliefs)
    return rd.belief_reading(name + ".filter_update", "filtered", res, err, c.T - 1, tol, first=2)


def online_cases(ck, L):
    import random
    from linear import override
    out = []
    for i, c in enumerate(affine_cases(ck, "online-sigma", size(80, 700), Lengths=L)):
        out.append(models.record(c, [online(n, c, bool(i % 2), TOL[n]) for n in SIGMA]))
    for i, c in enumerate(affine_cases(ck, "override-sigma", size(80, 700), Lengths=L, Styles='{"generic", "integer"}',
                                       OffsetForms='{"none", "const"}')):
        v = override(c, random.Random(c.id), ("transition_covariance", "observation_covariance",
                                              "transition_matrices", "observation_matrices"))
        # functions that differ in some step are passed in every step
        out.append(models.record(v, [online(n, v, bool(i % 2), TOL[n], base=c) for n in SIGMA]))
    return out


def noisy(c):
    """the augmented filter's noises enter through matrices: x' = A x + b + G w, y = C x + d + H v"""
    if c.style in ("integer", "units") or c.rnd.r.random() < 0.4:
        return None
    G, H = c.rnd.cov(c.n) + c.rnd.matrix(c.n, c.n, 0.25), c.rnd.cov(c.m) + c.rnd.matrix(c.m, c.m, 0.25)
    return G, H


def c16(ck):
    from linear import TRUSTED, replay
    ck.design("MCKalman", MC2)
    ck.assumptions = TRUSTED
    out = []
    cs = (affine_cases(ck, "affine", size(150, 1500))
          + affine_cases(ck, "affine-long", size(3, 15), MaxN=3, MaxM=2, Lengths="{40}")
          + affine_cases(ck, "affine-longer", size(1, 3), MaxN=1, MaxM=1, Lengths="{130}")
          + affine_cases(ck, "affine-big", size(15, 80), MinN=4, MaxN=7, MaxM=6, Lengths="{1, 2, 4}"))
    cs += affine_cases(ck, "affine-units", size(24, 200), MinN=2, MaxN=3, MinM=2, Lengths="{1, 2, 4}", Styles='{"units"}')
    for i, c in enumerate(cs):
        rs = []
        X = c.X if c.mask.any() or i % 2 else c.y
        for name in SIGMA:
            kf, err = make(name, c)
            tol = "1e-7" if c.style == "units" else TOL[name]
            rs.append(rd.filtered(kf, X.copy(), c.T, tol, name + ".filter", err))
            rs.append(rd.smoothed(kf, X.copy(), c.T, tol, name + ".smooth", err))
            if c.T > 1:
                rs.append(online(name, c, bool(i % 2), tol))
        out.append(models.record(c, rs))
        GH = noisy(c)
        if GH is not None:
            kf, err = make("UKF", c, GH)
            rs = [rd.filtered(kf, X.copy(), c.T, TOL["UKF"], "UKF(noise through matrices).filter", err),
                  rd.smoothed(kf, X.copy(), c.T, TOL["UKF"], "UKF(noise through matrices).smooth", err)]
            Q = entry(c, "transition_covariance", 0, np.eye(c.n))
            R = entry(c, "observation_covariance", 0, np.eye(c.m))
            given = dict(c.given)
            given["transition_covariance"] = {"form": "const", "v": [models.nums(GH[0] @ Q @ GH[0].T)]}
            given["observation_covariance"] = {"form": "const", "v": [models.nums(GH[1] @ R @ GH[1].T)]}
            rec = models.record(c, rs)
            rec["given"] = given
            rec["id"] += "-noise"
            out.append(rec)
    ck.judge("TraceKalman", "TraceKalman.cfg", out, replay)


MC2 = """SPECIFICATION Spec
CONSTANTS MaxT = 2 Bits = 0 Dims <- Dims22
INVARIANTS FilterIsConditional PredictIsConditional SmootherIsConditional CovarianceValid
CHECK_DEADLOCK FALSE
"""
