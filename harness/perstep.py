"""C10: parameters and functions given per time step."""
import random

import numpy as np

from common import arr
import fit
import linear
import models
import nonlinear
import readings as rd
import scen
import sigma
from scen import size
from systems import LINEAR, SIGMA, make

VARYING = dict(OffsetForms='{"const", "tv"}', CovForms='{"const", "tv"}')
MATRICES_VARY = dict(OffsetForms='{"const", "tv"}', CovForms='{"none", "const"}')


def emphasised(cs, pick):
    """drop most cases in which hardly anything varies"""
    return [c for c in cs if sum(f == "tv" for f in c.forms.values()) >= pick.randint(1, 3)]


def replicated(c, pick):
    """constants handed over once per step; what they denote stays as recorded"""
    extra = {}
    for p in ("transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets",
              "transition_covariance", "observation_covariance"):
        if c.forms[p] == "const" and pick.random() < 0.6:
            k = max(1, c.T - 1) if p.startswith("transition") else c.T
            extra[p] = np.array([c.params[p]] * k)
    return extra


def longer(c, pick):
    """more entries than there are steps: these are used for nothing"""
    extra = {}
    for p, f in c.forms.items():
        if f == "tv" and pick.random() < 0.7:
            v = np.asarray(c.params[p])
            extra[p] = np.concatenate([v, [v[pick.randrange(len(v))] * 3 + 1 for _ in range(pick.choice([1, 1, 2, c.T + 1]))]])
    return extra


def all_readings(kf, c, i, tol, err, who, online=None):
    X = linear.data(c, i)
    rs = [rd.filtered(kf, X, c.T, tol, who + ".filter", err), rd.smoothed(kf, X, c.T, tol, who + ".smooth", err)]
    if who.split("(")[0] in LINEAR:
        rs.append(rd.loglik(kf, X, tol, who + ".loglikelihood", err))
    if online is not None and c.T > 1:
        rs.append(online)
    return rs


def c10(ck):
    import sampling
    ck.design("MCKalman", linear.MC % (2, "11"))
    ck.assumptions = linear.TRUSTED
    pick = random.Random("c10")
    out = []
    L = "{2, 3, 4, 5, 7}"
    cs = (scen.cases(ck, "tv", size(200, 2000), Lengths=L, **VARYING)
          + scen.cases(ck, "tv-one", size(100, 1000), Lengths=L, OffsetForms='{"none", "const", "tv"}', CovForms='{"none", "const", "tv"}')
          + scen.cases(ck, "tv-long", size(4, 20), MaxN=2, MaxM=2, Lengths="{40}", **VARYING)
          + scen.cases(ck, "tv-big", size(10, 80), MinN=4, MaxN=5, MaxM=5, Lengths="{2, 3, 4}", **VARYING))
    for i, c in enumerate(emphasised(cs, pick)):
        kf, err = make("KF", c)
        out.append(models.record(c, all_readings(kf, c, i, "1e-10", err, "KF", linear.online("KF", c, bool(i % 2), "1e-10"))))
    # the square root filters take constant noise covariances
    cs = scen.cases(ck, "tv-sqrt", size(120, 1000), Lengths=L, Styles='{"generic", "integer", "scaled"}', **MATRICES_VARY)
    for i, c in enumerate(emphasised(cs, pick)):
        rs = []
        for name in ("CKF", "BKF"):
            kf, err = make(name, c)
            rs += all_readings(kf, c, i, "1e-9", err, name, linear.online(name, c, bool(i % 2), "1e-9"))
        out.append(models.record(c, rs))
    cs = sigma.affine_cases(ck, "tv-sigma", size(80, 700), Lengths=L, OffsetForms='{"const", "tv"}')
    for i, c in enumerate(emphasised(cs, pick)):
        rs = []
        for name in SIGMA:
            kf, err = make(name, c)
            rs += all_readings(kf, c, i, "1e-8", err, name, sigma.online(name, c, bool(i % 2), "1e-8"))
        out.append(models.record(c, rs))
    # more values than steps
    for i, c in enumerate(emphasised(scen.cases(ck, "longer", size(60, 600), Lengths="{1, 2, 3, 4}", **VARYING), pick)):
        kf, err = make("KF", c, **longer(c, pick))
        out.append(models.record(c, all_readings(kf, c, i, "1e-10", err, "KF(longer)")))
    for i, c in enumerate(emphasised(scen.cases(ck, "longer-sqrt", size(50, 500), Lengths="{1, 2, 3, 4}", Styles='{"generic", "integer"}',
                                                **MATRICES_VARY), pick)):
        rs = []
        for name in ("CKF", "BKF"):
            kf, err = make(name, c, **longer(c, pick))
            rs += all_readings(kf, c, i, "1e-9", err, name + "(longer)")
        out.append(models.record(c, rs))
    # the same value in every step
    cs = scen.cases(ck, "replicated", size(80, 800), Lengths="{1, 2, 3, 5}", OffsetForms='{"none", "const"}', CovForms='{"const"}',
                    Styles='{"generic", "integer", "degenerate"}')
    for i, c in enumerate(cs):
        extra = replicated(c, pick)
        if not extra:
            continue
        kf, err = make("KF", c, **extra)
        rs = all_readings(kf, c, i, "1e-10", err, "KF(replicated)")
        if c.style != "degenerate":
            for name in ("CKF", "BKF"):
                few = {p: v for p, v in extra.items() if not p.endswith("covariance")}
                kf, err = make(name, c, **few)
                rs += all_readings(kf, c, i, "1e-9", err, name + "(replicated)")
        out.append(models.record(c, rs))
    linear.judge(ck, out)

    # functions per step
    out = []
    for kinds, names, cnt in (('{"additive"}', ("AUKF", "SUKF"), size(80, 800)), ('{"augmented"}', ("UKF",), size(60, 600))):
        cs = nonlinear.cases(ck, "tv-fun-" + names[0], cnt, Kinds=kinds, MaxN=2, MaxM=2, Lengths="{2, 3, 4}", FunForms='{"const", "tv"}')
        for i, c in enumerate(cs):
            if i % 3 == 0:  # more functions than steps
                c.more = True
            out.append(nonlinear.record(c, [r for name in names for r in nonlinear.run(name, c, i, nonlinear.TOL)]))
    nonlinear.judge(ck, out)

    # fitting the rest around matrices and offsets that vary
    out = []
    for i, c in enumerate(emphasised(scen.cases(ck, "tv-em", size(80, 800), MaxN=3, Lengths="{2, 3, 5}",
                                                OffsetForms='{"const", "tv"}', **fit.COMMON), pick)):
        if not fit.enough(c):
            continue
        name = LINEAR[i % 3] if i % 2 else "KF"
        more = longer(c, pick) if i % 3 == 0 else {}
        kf, err = make(name, c, **more)
        v = pick.sample([p for p in fit.PARAMS if c.forms[p] != "tv"], pick.randint(1, 4)) if i % 2 else ["none"]
        calls = [fit.failed(err)] if err else [fit.call(kf, c.X.copy(), 1, v)]
        for p in more:  # (what is compared is the part in use)
            a = getattr(kf, p, None) if not err else None
            if calls[-1]["after"][p]["set"] and np.array_equal(a, more[p]):
                calls[-1]["after"][p]["arr"] = arr(np.asarray(a)[:len(c.params[p])])
        out.append(fit.case(c, calls, ["update"], who=name))
    fit.judge(ck, out)

    sampling.varying(ck)
