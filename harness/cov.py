"""C14: reported covariances (module TraceCov; CovarianceValid of module Kalman)."""
import numpy as np

from common import NOARR, arr, attempt
import linear
import models
import scen
from scen import size
from systems import make

INIT = {"transition_matrices": lambda c: np.eye(c.n), "observation_matrices": lambda c: np.eye(c.m, c.n)}


def reading(who, c, covs, above, err, of, tol, count):
    r = {"who": who, "err": err, "of": of, "tol": tol, "n": c.n, "count": count, "covs": NOARR, "above": NOARR}
    if not err:
        try:
            r["covs"] = arr(covs)
            if above is not None:
                a = arr(above)
                if a["shape"] == r["covs"]["shape"]:
                    r["above"] = a
        except Exception as e:
            r["err"] = "covariances unreadable: %s" % e
    return r


def condition(c, e):
    """axes and noises of very different size: 10^-e .. 10^e"""
    r = c.rnd.r
    for p in ("transition_covariance", "observation_covariance", "initial_state_covariance"):
        k = c.m if p == "observation_covariance" else c.n
        D = np.diag([10.0 ** r.uniform(-e, e) for _ in range(k)]) * 10.0 ** r.uniform(-e / 2, e / 2)

        def worse(M):
            M = D @ np.asarray(M, dtype=float) @ D
            return (M + M.T) / 2
        if p not in c.params:
            c.params[p] = np.eye(k)
            c.forms[p] = "const"
        c.params[p] = np.array([worse(M) for M in c.params[p]]) if c.forms[p] == "tv" else worse(c.params[p])
    c.dims = {"n_dim_state": c.n, "n_dim_obs": c.m}


def overrides(c, t):
    kw = {}
    for p, a in linear.ARGS.items():
        if c.forms[p] == "tv":
            kw[a] = c.params[p][t - 1 if p.startswith("transition") else t].copy()
    return kw


def case(c, name, of, tol, sof, stol):
    """of, tol: of filtered covariances; sof, stol: of smoothed ones"""
    kf, err = make(name, c)
    X = c.X.copy()
    res, ferr = attempt(kf.filter, X) if not err else (None, err)
    sres, serr = attempt(kf.smooth, X) if not err else (None, err)
    P = S = None
    if not ferr:
        try:
            P = np.asarray(res[1])
        except Exception as e:
            ferr = "not a (means, covariances) pair: %s" % e
    if not serr:
        try:
            S = np.asarray(sres[1])
        except Exception as e:
            serr = "not a (means, covariances) pair: %s" % e
    rs = [reading(name + ".filter", c, P, None, ferr, of, tol, c.T), reading(name + ".smooth", c, S, P, serr, sof, stol, c.T)]
    if not ferr and not serr and c.T > 1:
        # from each filtered belief: one step with the observation, and without
        have, lack, err = [], [], ""
        for t in range(1, c.T):
            if c.mask[t].any() or c.T > 50 and t % 7:
                continue
            a, e1 = attempt(kf.filter_update, res[0][t - 1], P[t - 1], c.y[t].copy(), **overrides(c, t))
            b, e2 = attempt(kf.filter_update, res[0][t - 1], P[t - 1], None, **overrides(c, t))
            err = err or e1 or e2
            if err:
                break
            have.append(a[1])
            lack.append(b[1])
        if have or err:
            rs.append(reading(name + ".filter_update(observation) <= filter_update(None)", c, np.array(have), np.array(lack), err, of, tol, len(have)))
            rs.append(reading(name + ".filter_update(None)", c, np.array(lack), None, err, of, tol, len(lack)))
    big = max([np.abs(c.params[p]).max() for p in c.params if p.endswith("covariance")] + [1e-300])
    return {"id": "%s-%s" % (c.id, name), "scale": repr(float(big)), "readings": rs, "scenario": c.sc}


def replay(c):
    return {"id": c["id"], "scenario": c["scenario"], "readings": [{k: r[k] for k in ("who", "err", "covs")} for r in c["readings"]][:2]}


def c14(ck):
    for d in size([("11", 3), ("21", 2)], [("11", 4), ("12", 3), ("21", 3), ("22", 2)]):
        ck.design("MCKalman", MC % (d[1], d[0]))
    ck.assumptions = ["TLC 1.8 and the Java implementation of the rational operators of Rat.tla",
                      "square root filters: relative to the matrix itself; plain filter and smoothers on badly scaled models: to the largest covariance of the case"]
    L = "{1, 2, 3, 5, 8}"
    out = []
    for c in (scen.cases(ck, "cov", size(150, 1200), Lengths=L)
              + scen.cases(ck, "cov-long", size(3, 20), MaxN=3, MaxM=3, Lengths=size("{150}", "{300, 600}"))
              + scen.cases(ck, "cov-big", size(10, 60), MinN=5, MaxN=7, MaxM=6, Lengths="{2, 5}")):
        out.append(case(c, "KF", "case", "1e-10", "case", "1e-10"))
    G = dict(linear.PD)
    for i, c in enumerate(scen.cases(ck, "cov-sqrt", size(60, 600), Lengths=L, **G)
                          + scen.cases(ck, "cov-sqrt-big", size(6, 40), MinN=5, MaxN=7, MaxM=6, Lengths="{2, 5}", **G)):
        for name in ("CKF", "BKF"):
            out.append(case(c, name, "own", "1e-11", "case", "1e-10"))
    # badly conditioned
    for tag, count, over in (("ill", size(80, 800), dict(Lengths=L)), ("ill-long", size(4, 30), dict(MaxN=3, MaxM=2, Lengths=size("{150}", "{300, 600}")))):
        for i, c in enumerate(scen.cases(ck, tag, count, Styles='{"generic"}', **over)):
            e = (0.5, 1, 2, 2)[i % 4]
            condition(c, e)
            out.append(case(c, "KF", "case", "1e-9", "case", "1e-9"))
        for i, c in enumerate(scen.cases(ck, tag + "-sqrt", count, **dict(G, Styles='{"generic"}', **over))):
            condition(c, (1, 2, 3, 4)[i % 4])
            for name in ("CKF", "BKF"):
                out.append(case(c, name, "own", "1e-11", "case", "1e-9"))
    ck.judge("TraceCov", "TraceCov.cfg", out, replay)


MC = """SPECIFICATION Spec
CONSTANTS MaxT = %d Bits = 0 Dims <- Dims%s
INVARIANTS CovarianceValid
CHECK_DEADLOCK FALSE
"""
