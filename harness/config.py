"""C11: dimensions and defaults (module Config)."""
import random

import numpy as np

from common import attempt
import common
import fit
import linear
import models
import nonlinear
import readings as rd
import scen
import sigma
from scen import size
from systems import LINEAR, SIGMA, classes, make

ORDER = ["observation_matrices", "transition_matrices", "transition_offsets", "transition_covariance", "initial_state_mean",
         "initial_state_covariance", "observation_offsets", "observation_covariance"]
VARIES = {"observation_matrices", "transition_matrices", "transition_offsets", "transition_covariance", "observation_offsets", "observation_covariance"}

MC = """SPECIFICATION Spec
CONSTANTS Kind = "%s" Sizes = %s
INVARIANTS DimensionsFit LeavingOut Redundant
CHECK_DEADLOCK FALSE
"""


def value(p, s, pick, wild):
    """something of the size wanted"""
    a = np.ones(s) if len(s) == 1 or p == "observation_matrices" or p == "transition_matrices" else np.eye(s[0])
    if not wild:
        return a
    if p in VARIES and pick.random() < 0.3:
        k = pick.choice([1, 2, 3, 4])
        a = np.array([a] * k)
    k = pick.random()
    if np.size(a) == 1 and np.ndim(a) <= 2 and k < 0.3:
        return pick.choice([1.0, 1, np.float64(1.0), np.array(1.0)])
    if k < 0.5:
        return a.tolist()
    if k < 0.6:
        return a.astype(int)
    return a


def row(sc, name, pick, wild):
    kw = {}
    for p, s in zip(ORDER, sc["size"]):
        if s:
            kw[p] = value(p, tuple(s), pick, wild)
    if sc["ns"]:
        kw["n_dim_state"] = sc["ns"]
    if sc["no"]:
        kw["n_dim_obs"] = sc["no"]
    if name in SIGMA and pick.random() < 0.2:
        kw["transition_functions"] = [lambda x, w=0: x]
    kf, err = attempt(classes()[name], **kw)
    n = m = 0
    if not err:
        try:
            n, m = int(kf.n_dim_state), int(kf.n_dim_obs)
        except Exception as e:
            err = "dimensions unreadable: %s" % e
    return dict(sc, err=err.split(":")[0], n=n, m=m)


def chunks(rows, name, out, k=400):
    for i in range(0, len(rows), k):
        out.append({"id": "%s-%d" % (name, len(out)), "rows": rows[i:i + k], "scenario": {"class": name}})


def c11(ck):
    ck.assumptions = linear.TRUSTED + ["parameters are square where they should be"]
    pick = random.Random("config")
    out = []
    for kind, sizes, names in (("linear", "{1, 2}", LINEAR), ("sigma", "{1, 2, 3}", SIGMA)):
        r = common.enumerate_all("ScenConfig", MC % (kind, sizes))
        ck.add("model checking of ScenConfig, all constructions (%s, sizes %s)" % (kind, sizes), r, constructions=len(r.lines))
        for name in names:
            # the square root filters share the constructor of the plain one: fewer
            some = r.lines if name in ("KF",) + tuple(SIGMA) or common.TIER == "thorough" else pick.sample(r.lines, len(r.lines) // 10)
            if name == "KF" and common.TIER != "thorough":
                # every construction that is accepted, a third of those that are not
                ok = [x for x in some if consistent_hint(x)]
                some = ok + pick.sample([x for x in some if not consistent_hint(x)], len(some) // 4)
            chunks([row(x, name, pick, False) for x in some], name, out)
            if kind == "linear":
                ok = [x for x in r.lines if consistent_hint(x)]
                sub = pick.sample(ok, size(1500, len(ok))) + pick.sample(r.lines, size(1500, 20000))
            else:
                sub = pick.sample(r.lines, size(1000, len(r.lines)))
            chunks([row(x, name, pick, True) for x in sub], name, out)
    ck.judge("TraceConfig", "TraceConfig.cfg", out, lambda c: {"id": c["id"], "class": c["scenario"]})
    defaults(ck)


def contradictions(ck, count):
    """constructions most of which contradict themselves (C21)"""
    pick = random.Random("contradictions")
    out = []
    for kind, sizes, names in (("linear", "{1, 2}", LINEAR), ("sigma", "{1, 2, 3}", SIGMA)):
        r = common.enumerate_all("ScenConfig", MC % (kind, sizes))
        ck.add("model checking of ScenConfig, all constructions (%s, sizes %s)" % (kind, sizes), r, constructions=len(r.lines))
        for name in names:
            for wild in (False, True):
                chunks([row(x, name, pick, wild) for x in pick.sample(r.lines, min(count, len(r.lines)))], name, out)
    ck.judge("TraceConfig", "TraceConfig.cfg", out, lambda c: {"id": c["id"], "class": c["scenario"]})


def consistent_hint(x):
    """(only to choose which constructions to try)"""
    s = dict(zip(ORDER, x["size"]))
    ns = {s[p][0] for p in ORDER[1:6] if s[p]} | ({s[ORDER[0]][1]} if s[ORDER[0]] else set()) | ({x["ns"]} if x["ns"] else set())
    no = {s[p][0] for p in ORDER[6:] if s[p]} | ({s[ORDER[0]][0]} if s[ORDER[0]] else set()) | ({x["no"]} if x["no"] else set())
    return len(ns) <= 1 and len(no) <= 1


def zeros(c, i):
    """a value given is a value given, even if there is nothing but zeros in it"""
    where = ["transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets", "initial_state_mean"]
    covs = ["transition_covariance", "initial_state_covariance"] if i % 3 == 0 else []
    given = [p for p in where + covs if p in c.params]
    pick = random.Random("zeros/" + c.id)
    for p in pick.sample(given, min(len(given), pick.choice([1, 1, 2, 3]))):
        c.params[p] = np.zeros_like(c.params[p])
        v = c.params[p] if c.forms[p] == "tv" else c.params[p][None]
        c.given[p] = {"form": c.given[p]["form"], "v": models.nums(v)}
    return (["KF"] if covs else LINEAR), ([] if covs else SIGMA)


def defaults(ck):
    """omitted parameters act as their defaults, in everything that is computed"""
    out, em, uns = [], [], []
    N, K = '{"none"}', '{"none", "const"}'
    for tag, forms in (("all", (N, N, N)), ("init", (N, N, K)), ("model", (K, N, N)), ("cov", (N, K, N)), ("some", (K, K, K)), ("zeros", (K, K, K))):
        over = dict(OffsetForms=forms[0], CovForms=forms[1], InitForms=forms[2], Lengths="{1, 2, 3, 5}", Styles='{"generic", "integer"}')
        for i, c in enumerate(scen.cases(ck, "default-" + tag, size(30, 300), **over)):
            rs, lin, sig = [], LINEAR, SIGMA
            if tag == "zeros":
                lin, sig = zeros(c, i)
            for name in lin:
                kf, err = make(name, c)
                tol = "1e-10" if name == "KF" else "1e-9"
                rs += [rd.filtered(kf, c.X.copy(), c.T, tol, name + ".filter", err), rd.smoothed(kf, c.X.copy(), c.T, tol, name + ".smooth", err),
                       rd.loglik(kf, c.X.copy(), tol, name + ".loglikelihood", err)]
                if c.T > 1:
                    rs.append(linear.online(name, c, bool(i % 2), tol))
            for name in sig:
                kf, err = make(name, c)
                rs += [rd.filtered(kf, c.X.copy(), c.T, sigma.TOL[name], name + ".filter", err),
                       rd.smoothed(kf, c.X.copy(), c.T, sigma.TOL[name], name + ".smooth", err)]
                if c.T > 1:
                    rs.append(sigma.online(name, c, bool(i % 2), sigma.TOL[name]))
            out.append(models.record(c, rs))
            if c.T > 1 and fit.enough(c) and tag != "zeros":
                name = LINEAR[i % 3]
                kf, err = make(name, c)
                em.append(fit.case(c, [fit.failed(err)] if err else [fit.call(kf, c.X.copy(), 1, fit.choose_vars(c.rnd.r))], ["update"], who=name))
    for kind, names in (("additive", ("AUKF", "SUKF")), ("augmented", ("UKF",))):
        for i, c in enumerate(nonlinear.cases(ck, "default-" + kind, size(30, 300), Kinds='{"%s"}' % kind, MaxN=2, MaxM=2, FunForms='{"none", "const"}',
                                              Sorts='{"affine", "quadratic"}', CovForms='{"none"}')):
            rs = []
            for name in names:
                rs += nonlinear.run(name, c, i, nonlinear.TOL)
            uns.append(nonlinear.record(c, rs))
    linear.judge(ck, out)
    fit.judge(ck, em)
    nonlinear.judge(ck, uns)
