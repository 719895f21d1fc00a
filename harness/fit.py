"""C07 .. C09: fitting with em, against module EM."""
import warnings

import numpy as np

from common import NOARR, arr, attempt
import models
import scen
from scen import size
from systems import LINEAR, make

PARAMS = models.ORDER
TRUSTED = ["TLC 1.8 and the Java implementation of the rational operators of Rat.tla (checked against their TLA+ definitions by RatTest)",
           "fitted parameters are compared up to rounding (relative 1e-9), parameters not fitted exactly",
           "noise covariances constant in time (for varying ones held fixed the documented update formulas are not the maximisers)"]


def attributes(kf):
    out = {}
    for p in PARAMS:
        v = getattr(kf, p, None)
        out[p] = {"set": v is not None, "arr": NOARR if v is None else arr(v)}
    return out


def iterable(names, how):
    """the same names in another iterable"""
    return (list, tuple, set, frozenset, dict.fromkeys, iter, lambda v: (x for x in v), lambda v: dict.fromkeys(v).keys())[how % 8](names)


def call(kf, X, n_iter, em_vars, tol="1e-9", lltol="1e-8", omit=False, how=0):
    """one recorded call of em"""
    kw = {} if omit else {"n_iter": n_iter}
    if em_vars != ["none"]:
        kw["em_vars"] = "all" if em_vars == ["all"] else iterable(em_vars, how)
    said = []

    def run():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                return kf.em(X, **kw)
            finally:
                said.extend(str(w.message) for w in ws)

    res, err = attempt(run)
    return {"n_iter": n_iter, "em_vars": em_vars, "err": err, "self": res is kf, "tol": tol, "lltol": lltol,
            "warned": [p for p in PARAMS if any(p in w for w in said)],
            "after": attributes(kf)}


def case(c, calls, judge, attr=("none",), who=""):
    r = models.record(c, [])
    r.update(id=c.id + ("-" + who if who else ""), calls=calls, judge=list(judge), attr=list(attr))
    r["who"] = who
    del r["readings"]
    return r


def failed(err):
    return {"n_iter": 1, "em_vars": ["none"], "err": err, "self": True, "tol": "0", "lltol": "0", "warned": [],
            "after": {p: {"set": False, "arr": NOARR} for p in PARAMS}}


def replay(c):
    return c


MC = """SPECIFICATION Spec
CONSTANTS Bits = 200 MaxIter = %d Dims <- D%s Lengths = %s
INVARIANTS MomentsAreJoint LikelihoodNeverFalls
PROPERTIES EachUpdateMaximises OnlyFittedChange
CHECK_DEADLOCK FALSE
"""


def design(ck, *args):
    for a in size(args, (("11", 3, "{2, 3}"), ("12", 2, "{2, 3}"), ("21", 2, "{2, 3}"), ("22", 2, "{2, 3}"))):
        ck.design("MCEM", MC % (a[1], a[0], a[2]))


# initial forms: noise covariances constant, positive definite
COMMON = dict(CovForms='{"none", "const"}', Styles='{"generic", "integer"}')


def choose_vars(pick):
    k = pick.random()
    if k < 0.05:
        return []
    if k < 0.25:
        return ["none"]
    if k < 0.5:
        return ["all"]
    if k < 0.65:
        return [pick.choice(PARAMS)]
    return pick.sample(PARAMS, pick.randint(2, 7))


def enough(c):
    """something is seen"""
    return not c.mask.any(axis=1).all()


def c07(ck):
    import random
    design(ck, ("11", 1, "{2, 3}"), ("21", 1, "{2}"))
    ck.assumptions = TRUSTED
    out = []
    cs = (scen.cases(ck, "em", size(150, 1500), Lengths="{2, 3, 4, 6, 9}", **COMMON)
          + scen.cases(ck, "em-const", size(100, 800), Lengths="{2, 3, 4, 6, 9}", OffsetForms='{"none", "const"}', **COMMON)
          + scen.cases(ck, "em-scaled", size(40, 300), MaxN=3, MaxM=2, Lengths="{3, 5}", OffsetForms='{"none", "const"}', **dict(COMMON, Styles='{"scaled"}'))
          + [c for c in scen.cases(ck, "em-few", size(200, 1500), MaxN=2, MaxM=2, Lengths="{1, 2, 3}", OffsetForms='{"none", "const"}', **COMMON)
             if sum(not o["miss"] for o in c.obs) == 1]
          + scen.cases(ck, "em-long", size(4, 20), MaxN=2, MaxM=2, Lengths="{45}", **COMMON)
          + scen.cases(ck, "em-big", size(6, 40), MinN=4, MaxN=5, MaxM=6, Lengths="{4, 7}", **COMMON))
    for i, c in enumerate(cs):
        pick = random.Random("em/" + c.id)
        v = choose_vars(pick)
        names = LINEAR if i % 3 == 0 else ["KF"]
        if not enough(c) and i % 2:
            continue
        for name in names:
            kf, err = make(name, c)
            calls = [failed(err)] if err else []
            n = 2 if c.T < 20 else 1
            for j in range(n if not err else 0):
                calls.append(call(kf, c.X.copy(), 1, v, tol="1e-9"))
                if calls[-1]["err"]:
                    break
                if j and pick.random() < 0.5:
                    v = choose_vars(pick)
            out.append(case(c, calls, ["update"], who=name))
    judge(ck, out)


def judge(ck, out):
    ck.judge("TraceEM", "TraceEM.cfg", out, replay)


def c08(ck):
    import random
    design(ck, ("11", 3, "{3}"))
    ck.assumptions = TRUSTED + ["likelihoods are those of the parameters recorded, computed exactly by the specification; "
                                "a run is followed until a covariance becomes singular to 1e-6"]
    out = []
    cs = (scen.cases(ck, "mono", size(60, 500), MaxN=3, MaxM=2, Lengths="{6, 8, 12}", OffsetForms='{"none", "const"}', **COMMON)
          + scen.cases(ck, "mono-long", size(3, 20), MaxN=2, MaxM=2, Lengths="{40}", OffsetForms='{"none", "const"}', **COMMON))
    for i, c in enumerate(cs):
        pick = random.Random("mono/" + c.id)
        if not enough(c):
            continue
        v = choose_vars(pick)
        name = LINEAR[i % 3]
        kf, err = make(name, c)
        calls = [failed(err)] if err else []
        for _ in range(0 if err else (size(6, 15) if c.T < 20 else 3)):
            calls.append(call(kf, c.X.copy(), 1, v))
            if calls[-1]["err"]:
                break
        out.append(case(c, calls, ["monotone"], who=name))
    judge(ck, out)


def c09(ck):
    import random
    design(ck, ("11", 2, "{2}"))
    ck.assumptions = TRUSTED
    out = []
    cs = scen.cases(ck, "which", size(200, 1500), MaxN=3, Lengths="{1, 2, 3, 5}", **COMMON)
    for i, c in enumerate(cs):
        pick = random.Random("which/" + c.id)
        name = LINEAR[i % 3] if i % 2 else "KF"
        # em_vars: at construction, or assigned later, or not; argument given or not
        attr = choose_vars(pick)
        extra = {}
        how = pick.choice(["constructed", "assigned", "neither"])
        if how == "neither":
            attr = ["none"]
        value = None if attr == ["none"] else "all" if attr == ["all"] else iterable(attr, pick.randrange(5))
        if how == "constructed":
            extra["em_vars"] = value
        kf, err = make(name, c, **extra)
        calls = [failed(err)] if err else []
        if not err and how == "assigned":
            kf.em_vars = value
        plan = pick.choice([[1], [0], [0, 1], [2], [1, 0, 1], [1, 1], [3]])
        if i % 25 == 24 and c.n < 3:
            plan = ["default"]
        for n_iter in plan if not err else []:
            v = ["none"] if pick.random() < 0.6 else choose_vars(pick)
            if i % 7 == 0:
                attempt(kf.filter, c.X.copy())
            # ten iterations unless told otherwise; rounding errors add up
            tol = "1e-6" if n_iter == "default" else "1e-9"
            calls.append(call(kf, c.X.copy(), 10 if n_iter == "default" else n_iter, v, tol=tol, omit=n_iter == "default", how=pick.randrange(8)))
            if calls[-1]["err"]:
                break
        out.append(case(c, calls, ["update", "warnings"], attr, who="%s-%s" % (name, how)))
    judge(ck, out)
