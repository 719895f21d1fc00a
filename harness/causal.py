"""C19: filtering is causal (module Causal)."""
import json
import random

import numpy as np

from common import NOARR, arr, attempt, nums
import linear
import nonlinear
import scen
import sigma
from scen import size
from systems import LINEAR, SIGMA, make


def tokens(X):
    X = np.ma.atleast_2d(X)
    miss = np.ma.getmaskarray(X).any(axis=1)
    return ["missing" if miss[t] else json.dumps(nums(np.ma.getdata(X)[t])) for t in range(len(X))]


def event(who, X, op, cut, may, err):
    """one call on X; cut(result) -> what of it is recorded"""
    e = {"who": who, "obs": tokens(X), "err": err, "may": may, "first": 1, "count": 0, "mean": NOARR, "cov": NOARR}
    if not e["err"]:
        res, e["err"] = attempt(op, X)
    if not e["err"]:
        try:
            mean, cov = res
            T = len(e["obs"])
            if cut == "last":
                if len(mean) != T or len(cov) != T:
                    e["err"] = "results of length %d, %d for %d observations" % (len(mean), len(cov), T)
                    e["may"] = False
                e["first"], e["count"] = T, 1
                e["mean"], e["cov"] = arr(mean[-1:]), arr(cov[-1:])
            else:
                e["count"] = T
                e["mean"], e["cov"] = arr(mean), arr(cov)
        except Exception as x:
            e["err"], e["may"] = "result is not a (means, covariances) pair: %s" % x, False
    return e


def continuations(c, pick, more, wild):
    """sequences that start like the observations of the case; more: they may go on longer"""
    X = c.X.copy() if c.mask.any() else np.ma.array(c.y.copy(), mask=np.zeros(c.mask.shape, bool))
    T, m = X.shape
    out = []
    for k in sorted(pick.sample(range(1, T + 1), min(T, 3))):
        L = pick.randint(k, T + (3 if more else 0))
        tail = np.array([c.rnd.vector(m) for _ in range(L - k)]).reshape(L - k, m)
        how = pick.choice(["other", "large", "missing", "equal"] if wild else ["other", "missing"])
        if how == "large":
            tail = tail * 10.0 ** pick.choice([2, 4, 6, 9, 13])
        if how == "equal" and len(tail):
            tail[:] = np.ma.getdata(X)[k - 1] if not X[k - 1].mask.any() else 1
        Y = np.ma.concatenate([X[:k], np.ma.array(tail, mask=np.full(tail.shape, how == "missing"))])
        if how == "other" and len(tail) and pick.random() < 0.5:
            Y[pick.randrange(k, L)] = np.ma.masked
        out.append(("%d observations, then %s" % (k, how), Y))
    return out


def spread(c, pick):
    """sequences that start alike, with observations of very different size in what they share and after it"""
    X = c.X.copy() if c.mask.any() else np.ma.array(c.y.copy(), mask=np.zeros(c.mask.shape, bool))
    X = np.ma.array(X, dtype=float)
    T, m = X.shape
    k = pick.randint(1, max(T - 1, 1))
    X[pick.randrange(k)] *= 10.0 ** pick.choice([-6, 3, 6, 8])
    out = [("%d observations, one of them of another size" % k, X[:k].copy())]
    for how in ("huge", "tiny", "zero"):
        tail = np.array([c.rnd.vector(m) for _ in range(T - k)]).reshape(T - k, m)
        tail = tail * (10.0 ** pick.choice([5, 8, 14]) if how == "huge" else 1e-5 if how == "tiny" else 0)
        out.append(("%d observations, one of them of another size, then %s" % (k, how),
                    np.ma.concatenate([X[:k], np.ma.array(tail, mask=np.zeros(tail.shape, bool))])))
    return out


def runs(build, who, c, pick, more, wild, may):
    ev = []
    X = c.X if c.mask.any() else c.y
    kf, err = build()
    todo = [("whole", X.copy())]
    for k in sorted(pick.sample(range(1, c.T + 1), min(c.T, 3))):
        todo.append(("first %d" % k, X[:k].copy()))
    todo += continuations(c, pick, more, wild)
    if wild and pick.random() < 0.4:
        todo += spread(c, pick)
    pick.shuffle(todo)
    for what, Y in todo:
        if pick.random() < 0.3:
            kf, err = build()
        ev.append(event("%s.filter(%s)" % (who, what), Y, getattr(kf, "filter", None), "all", may, err))
        if pick.random() < 0.6:
            ev.append(event("%s.smooth(%s)" % (who, what), Y, getattr(kf, "smooth", None), "last", may, err))
    return ev


def case(c, who, events, tol="1e-9"):
    return {"id": "%s-%s" % (c.id, who), "n": c.n, "tol": tol, "events": events, "scenario": c.sc}


MC = """SPECIFICATION CSpec
CONSTANTS MaxT = %d Bits = 0 Dims <- Dims%s
INVARIANTS IsFunction NotRefused
CHECK_DEADLOCK FALSE
"""


def c19(ck):
    ck.design("MCCausal", MC % size((2, "11"), (2, "21")))
    ck.assumptions = linear.TRUSTED[:1] + ["continuations tried: other, large, equal, missing and absent values; agreement relative 1e-9",
                                           "non-linear functions: calls may fail where the unscented recursion is not defined"]
    pick = random.Random("c19")
    out = []

    def constant(c):
        return not any(f == "tv" for f in c.forms.values())

    L = "{1, 2, 3, 4, 6, 9}"
    for c in (scen.cases(ck, "causal", size(150, 1500), Lengths=L)
              + scen.cases(ck, "causal-const", size(60, 600), Lengths=L, OffsetForms='{"none", "const"}', CovForms='{"none", "const"}')
              + scen.cases(ck, "causal-big", size(15, 100), MinN=4, MaxN=6, MaxM=6, Lengths="{2, 4}")
              + scen.cases(ck, "causal-long", size(6, 30), MaxN=2, MaxM=2, Lengths="{40, 80}")):
        out.append(case(c, "KF", runs(lambda: make("KF", c), "KF", c, pick, constant(c), True, False)))
    for c in (scen.cases(ck, "causal-sqrt", size(100, 1000), Lengths=L, **linear.PD)
              + scen.cases(ck, "causal-sqrt-long", size(3, 20), MaxN=2, MaxM=2, Lengths="{40}", **linear.PD)):
        for name in ("CKF", "BKF"):
            out.append(case(c, name, runs(lambda: make(name, c), name, c, pick, constant(c), True, False)))
    for c in (sigma.affine_cases(ck, "causal-sigma", size(80, 800), Lengths=L)
              + sigma.affine_cases(ck, "causal-sigma-long", size(2, 15), MaxN=2, MaxM=2, Lengths="{30}")):
        for name in SIGMA:
            out.append(case(c, name, runs(lambda: make(name, c), name, c, pick, constant(c), c.style != "scaled", False)))
    for kind, names in (("additive", ("AUKF", "SUKF")), ("augmented", ("UKF",))):
        for i, c in enumerate(nonlinear.cases(ck, "causal-" + kind, size(60, 600), Kinds='{"%s"}' % kind, MaxN=3, MaxM=2, Lengths="{2, 3, 5}")):
            const = c.sc["f"] != "tv" and c.sc["g"] != "tv"
            for name in names:
                out.append(case(c, name, runs(lambda: nonlinear.make(name, c, i), name, c, pick, const, False, True)))
    ck.judge("TraceCausal", "TraceCausal.cfg", out, lambda c: c)
