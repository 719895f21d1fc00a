"""C01 .. C06: the linear filters against module Kalman."""
import numpy as np

from common import attempt
import models
import readings as rd
import scen
from scen import ALL_CONST, size
from systems import LINEAR, make

TRUSTED = ["TLC 1.8 and the Java implementation of the rational operators of Rat.tla (checked against their TLA+ definitions by RatTest)",
           "agreement up to rounding: entries within the stated tolerance times the largest magnitude in the case"]


def data(c, i=0):
    """observations as handed over: plain if nothing is missing (every other time), else masked"""
    return c.y.copy() if not c.mask.any() and i % 2 else c.X.copy()


def replay(c):
    return {k: c[k] for k in ("id", "given", "n_dim_state", "n_dim_obs", "obs", "readings", "scenario")}


def batches(ck, tag, num, long_=True, big=True, **over):
    """the mixture of scenarios every linear check runs on"""
    out = scen.cases(ck, tag, num, **over)
    small = {k: v for k, v in over.items() if k not in ("MaxN", "MaxM", "Lengths")}
    if long_:
        out += scen.cases(ck, tag + "-long", size(6, 25), **dict(small, MaxN=3, MaxM=2, Lengths=size("{40, 90}", "{60, 150, 300}")))
    out += scen.cases(ck, tag + "-units", size(24, 200), **dict(small, MinN=2, MaxN=3, MinM=2, MaxM=3, Lengths="{1, 2, 4, 6}", Styles='{"units"}'))
    if big:
        out += scen.cases(ck, tag + "-big", size(10, 60), **dict(small, MinN=4, MaxN=size(6, 8), MaxM=size(7, 9), Lengths="{2, 4, 7}"))
        out += scen.cases(ck, tag + "-wide", size(10, 60), **dict(small, MaxN=2, MinM=3, MaxM=size(5, 8), Lengths="{1, 3, 5}"))
    return out


def lim(c, tol="1e-10"):
    """rounding: the components' variances differ by up to 2^36"""
    return "1e-7" if c.style == "units" else tol


def design(ck, quick, thorough):
    for d in size(quick, thorough):
        ck.design("MCKalman", MC % (d[1], d[0]))


MC = """SPECIFICATION Spec
CONSTANTS MaxT = %d Bits = 0 Dims <- Dims%s
INVARIANTS FilterIsConditional PredictIsConditional SmootherIsConditional LikelihoodIsEvidence CovarianceValid SmootherStartsAtFilter
PROPERTY ForwardAppends
CHECK_DEADLOCK FALSE
"""
QUICK_MC = [("11", 3)]
DEEP_MC = [("11", 4), ("12", 3), ("21", 3), ("22", 3)]


def judge(ck, cases):
    ck.judge("TraceKalman", "TraceKalman.cfg", cases, replay)


def c01(ck):
    design(ck, QUICK_MC, DEEP_MC)
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(batches(ck, "filter", size(300, 3000))):
        kf, err = make("KF", c)
        out.append(models.record(c, [rd.filtered(kf, data(c, i), c.T, lim(c), err=err)]))
    judge(ck, out)


def c02(ck):
    design(ck, [("21", 2)], DEEP_MC)
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(batches(ck, "smooth", size(300, 3000))):
        kf, err = make("KF", c)
        out.append(models.record(c, [rd.smoothed(kf, data(c, i), c.T, lim(c), err=err)]))
    judge(ck, out)


def c03(ck):
    design(ck, [("12", 2)], DEEP_MC)
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(batches(ck, "loglik", size(300, 3000))):
        kf, err = make("KF", c)
        out.append(models.record(c, [rd.loglik(kf, data(c, i), lim(c), err=err)]))
    for i, c in enumerate(batches(ck, "loglik-sqrt", size(120, 1200), CovForms='{"none", "const"}',
                                  Styles='{"generic", "integer", "scaled"}')
                          + scen.cases(ck, "loglik-extreme", size(20, 150), MinM=6, MaxM=9, Lengths="{1, 2, 4}", CovForms='{"const"}', Styles='{"extreme"}')):
        rs = []
        for name in LINEAR:
            kf, err = make(name, c)
            rs.append(rd.loglik(kf, data(c, i), err=err, tol=lim(c, "1e-9")))
        out.append(models.record(c, rs))
    judge(ck, out)

PD = dict(CovForms='{"none", "const"}', Styles='{"generic", "integer", "scaled"}')


def c04(ck):
    design(ck, [("11", 2)], DEEP_MC)
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(batches(ck, "sqrt", size(200, 2000), **PD)):
        rs = []
        for name in ("CKF", "BKF", "KF"):
            kf, err = make(name, c)
            X = data(c, i)
            tol = lim(c, "1e-9")
            rs += [rd.filtered(kf, X, c.T, tol, err=err), rd.smoothed(kf, X, c.T, tol, err=err), rd.loglik(kf, X, tol, err=err)]
            if c.T > 1:
                rs.append(online(name, c, from_prior=bool(i % 2), tol=tol))
        out.append(models.record(c, rs))
    judge(ck, out)
    # parameter fitting
    import random
    import fit
    out = []
    for i, c in enumerate(scen.cases(ck, "sqrt-em", size(50, 400), Lengths="{2, 3, 4, 6, 9}", **fit.COMMON)
                          + scen.cases(ck, "sqrt-em-big", size(4, 20), MinN=4, MaxN=5, MaxM=5, Lengths="{4, 7}", **fit.COMMON)):
        pick = random.Random("sqrt-em/" + c.id)
        if not fit.enough(c):
            continue
        v = fit.choose_vars(pick)
        for name in ("CKF", "BKF"):
            kf, err = make(name, c)
            calls = [fit.failed(err)] if err else [fit.call(kf, c.X.copy(), 1, v, tol="1e-9")]
            out.append(fit.case(c, calls, ["update"], who=name))
    fit.judge(ck, out)


# ------------------------------------------------------------------ online updates

ARGS = {"transition_matrices": "transition_matrix", "transition_offsets": "transition_offset",
        "transition_covariance": "transition_covariance", "observation_matrices": "observation_matrix",
        "observation_offsets": "observation_offset", "observation_covariance": "observation_covariance"}


def observation_arg(c, t, form):
    if c.mask[t].any():
        if form % 3 == 0:
            return None
        if form % 3 == 1:  # all of it masked
            return np.ma.array(np.ma.getdata(c.X)[t].copy(), mask=True)
        return c.X[t].copy()
    return c.y[t].copy() if form % 2 else np.ma.array(c.y[t].copy())


def online(name, c, from_prior, tol, base=None, via=None, who=None):
    """filter_update chained over the sequence.

    Starts from the batch result for the first observation (or, from_prior, from the
    initial distribution where the first observation is missing).  Parameters that vary in
    time are passed to each update; `base` is the case the object is constructed from.
    """
    kf, err = make(name, base or c)
    who = who or ("sqrt." if name in ("CKF", "BKF", "SUKF") else "") + (type(kf).__name__ if kf is not None else name) + ".filter_update"
    beliefs = []
    if not err:
        if from_prior and c.mask[0].any():
            n = c.n
            mean = np.array(c.params.get("initial_state_mean", np.zeros(n)))
            cov = np.array(c.params.get("initial_state_covariance", np.eye(n)))
        else:
            res, err = attempt(kf.filter, data(c)[:1] if base is None else data(c)[:1])
            if not err:
                mean, cov = res[0][0], res[1][0]
    for t in range(1, c.T):
        if err:
            break
        kw = {}
        for p, a in ARGS.items():
            if c.forms[p] == "tv" or (base is not None and p in c.overridden):
                v = c.params[p][t - 1 if p.startswith("transition") else t]
                if base is not None and p in c.overridden and t not in c.overridden[p]:
                    continue  # not overridden in this step
                kw[a] = v.copy()
        obs = observation_arg(c, t, t + len(c.id))
        if obs is not None:
            kw["observation"] = obs
        elif t % 2:
            kw["observation"] = None
        res, err = attempt(kf.filter_update, mean, cov, **kw)
        if not err:
            try:
                mean, cov = res
                beliefs.append((mean, cov))
            except Exception as e:
                err = "result is not a (mean, covariance) pair: %s" % e
        if err:
            err = "step to t=%d: %s" % (t + 1, err)
    res = None
    if not err:
        res, err = rd.stack(beliefs)
    return rd.belief_reading(who, "filtered", res, err, c.T - 1, tol, first=2)


def override(c, pick, kinds=tuple(ARGS)):
    """the same scenario with some constructed constants replaced in some updates"""
    import copy
    v = copy.copy(c)
    v.params, v.forms, v.given, v.overridden = dict(c.params), dict(c.forms), dict(c.given), {}
    for p in kinds:
        if c.forms[p] == "tv" or pick.random() < 0.5:
            continue
        steps = [t for t in range(1, c.T) if pick.random() < 0.5]
        k = c.T - 1 if p.startswith("transition") else c.T
        default = {"transition_matrices": np.eye(c.n), "transition_offsets": np.zeros(c.n), "transition_covariance": np.eye(c.n),
                   "observation_matrices": np.eye(c.m, c.n), "observation_offsets": np.zeros(c.m), "observation_covariance": np.eye(c.m)}[p]
        basev = c.params.get(p, default)
        vals = [np.array(basev)] * k
        for t in steps:
            vals[t - 1 if p.startswith("transition") else t] = other(c, p)
        v.params[p] = np.array(vals)
        v.forms[p] = "tv"
        v.given[p] = {"form": "tv", "v": models.nums(v.params[p])}
        v.overridden[p] = set(steps)
    # the sizes no longer follow from what is given if everything was a default
    v.dims = {"n_dim_state": c.n, "n_dim_obs": c.m}
    return v


def other(c, p):
    r, n, m = c.rnd, c.n, c.m
    return {"transition_matrices": lambda: r.transition(n), "transition_offsets": lambda: r.vector(n),
            "transition_covariance": lambda: r.cov(n), "observation_matrices": lambda: r.matrix(m, n),
            "observation_offsets": lambda: r.vector(m), "observation_covariance": lambda: r.cov(m)}[p]()


def c05(ck):
    import random
    ck.assumptions = TRUSTED
    out = []
    L = '{2, 3, 4, 5, 8}'
    for i, c in enumerate(scen.cases(ck, "online", size(150, 1500), Lengths=L)
                          + scen.cases(ck, "online-big", size(10, 60), MinN=4, MaxN=6, MaxM=6, Lengths="{2, 3}")
                          + scen.cases(ck, "online-long", size(4, 20), MaxN=3, MaxM=2, Lengths="{40, 80}")):
        out.append(models.record(c, [online("KF", c, bool(i % 2), "1e-10")]))
    for i, c in enumerate(scen.cases(ck, "online-sqrt", size(120, 1000), Lengths=L, **PD)
                          + scen.cases(ck, "online-sqrt-big", size(10, 60), MinN=4, MaxN=6, MaxM=6, Lengths="{2, 3}", **PD)):
        out.append(models.record(c, [online(n, c, bool(i % 2), "1e-9") for n in ("CKF", "BKF")]))
    for i, c in enumerate(scen.cases(ck, "online-units", size(30, 300), MinN=2, MinM=2, Lengths=L, **dict(PD, Styles='{"units"}'))):
        out.append(models.record(c, [online(n, c, bool(i % 2), lim(c)) for n in LINEAR]))
    # parameters handed to single updates
    styles = '{"generic", "integer"}'
    for i, c in enumerate(scen.cases(ck, "override", size(150, 1500), Lengths=L, Styles=styles,
                                     OffsetForms='{"none", "const"}', CovForms='{"none", "const"}')):
        v = override(c, random.Random("%s" % c.id))
        rs = []
        for name in LINEAR:
            rs.append(online(name, v, bool(i % 2), "1e-9", base=c))
        out.append(models.record(v, rs))
        # what was passed to an update is gone with it
        if i % 5 == 0:
            kf, err = make("KF", c)
            if not err and c.T > 1:
                attempt(kf.filter_update, np.zeros(c.n), np.eye(c.n), c.y[1].copy(),
                        **{ARGS[p]: other(c, p) for p in ARGS})
            c.id += "-after"
            out.append(models.record(c, [rd.filtered(kf, data(c), c.T, err=err), rd.smoothed(kf, data(c), c.T, err=err)]))
    import sigma
    out += sigma.online_cases(ck, L)
    judge(ck, out)


# ------------------------------------------------------------------ missing observations

def hide(c, how, pick):
    """the same sequence with other contents and other masks where nothing is seen"""
    d = np.array(np.ma.getdata(c.X))
    m = np.zeros(c.mask.shape, dtype=bool)
    if d.dtype.kind == "i":
        junk = [0, 123456789, -5]
    else:
        junk = [np.nan, np.inf, -np.inf, 1e300, -1e6, 0.0]
    for t in range(c.T):
        if not c.mask[t].any():
            continue
        if how == "all":
            m[t, :] = True
        elif how == "first":
            m[t, 0] = True
        elif how == "last":
            m[t, -1] = True
        else:
            k = pick.randint(1, c.m)
            m[t, pick.sample(range(c.m), k)] = True
        for j in range(c.m):
            # a value that is not masked itself is hidden as well when another of its row is
            d[t, j] = pick.choice(junk) if m[t, j] else pick.choice(junk[-2:])
    return np.ma.array(d, mask=m)


def c06(ck):
    import random
    import sigma
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(scen.cases(ck, "miss", size(150, 1500), MaxM=4)
                          + scen.cases(ck, "miss-long", size(3, 15), MaxN=3, MaxM=3, Lengths="{40}")):
        missing_forms(c, i, ["KF"], out)
    for i, c in enumerate(scen.cases(ck, "miss-sqrt", size(100, 1000), MaxM=4, **PD)):
        missing_forms(c, i, ["CKF", "BKF"], out)
    for i, c in enumerate(sigma.affine_cases(ck, "miss-sigma", size(80, 600), MaxM=4)):
        missing_forms(c, i, ["UKF", "AUKF", "SUKF"], out)
    judge(ck, out)
    # fitting
    import fit
    out = []
    for i, c in enumerate(scen.cases(ck, "miss-em", size(70, 500), Lengths="{2, 3, 4, 6, 9}", MaxM=4, **fit.COMMON)):
        pick = random.Random("miss-em/" + c.id)
        miss = c.mask.any(axis=1)
        k = i % 6
        if k == 0:
            miss[0] = True
        elif k == 1:
            miss[-1] = True
        elif k == 2:
            miss[c.T // 2:] = True
        elif not miss.any():
            miss[pick.randrange(c.T)] = True
        c.mask = np.repeat(miss[:, None], c.m, axis=1)
        c.obs = [{"miss": bool(miss[t]), "y": [] if miss[t] else models.nums(c.y[t])} for t in range(c.T)]
        c.sc = dict(c.sc, seen=["missing" if x else "seen" for x in miss])
        if not fit.enough(c):
            continue
        name = LINEAR[i % 3]
        v = fit.choose_vars(pick)
        for how in ("all", pick.choice(["first", "last", "random"])):
            kf, err = make(name, c)
            calls = [fit.failed(err)] if err else [fit.call(kf, hide(c, how, pick), 1, v, tol="1e-9")]
            out.append(fit.case(c, calls, ["update"], who="%s-%s" % (name, how)))
    fit.judge(ck, out)


def missing_forms(c, i, names, out):
    import random
    pick = random.Random(c.id)
    # every tenth case: nothing is seen at all; others: first or last or a stretch is not
    kind = i % 10
    miss = c.mask.any(axis=1)
    if kind == 0:
        miss[:] = True
    elif kind == 1:
        miss[0] = True
    elif kind == 2:
        miss[-1] = True
    elif kind == 3:
        miss[c.T // 2:] = True
    elif kind == 4:
        miss[: (c.T + 1) // 2] = True
    elif not miss.any():
        miss[pick.randrange(c.T)] = True
    c.mask = np.repeat(miss[:, None], c.m, axis=1)
    c.obs = [{"miss": bool(miss[t]), "y": [] if miss[t] else models.nums(c.y[t])} for t in range(c.T)]
    c.sc = dict(c.sc, seen=["missing" if x else "seen" for x in miss])
    rs = []
    for name in names:
        tol = "1e-10" if name == "KF" else "1e-8" if name in ("CKF", "BKF") else "1e-7"
        kf, err = make(name, c)
        for how in ("all", pick.choice(["first", "last"]), "random"):
            X = hide(c, how, pick)
            w = "%s(%s masked)" % (name, how)
            if c.m == 1 and c.T > 1 and pick.random() < 0.3:
                X, w = X.ravel(), w + " in one dimension"
            rs.append(rd.filtered(kf, X, c.T, tol, w + ".filter", err))
            rs.append(rd.smoothed(kf, X, c.T, tol, w + ".smooth", err))
            if name in LINEAR:
                rs.append(rd.loglik(kf, X, tol, w + ".loglikelihood", err))
        # a tail of missing observations that is cut off changes nothing
        if kind == 3 and c.T > 1:
            k = c.T - c.T // 2
            short = hide(c, "all", pick)[:-k]
            if len(short) and name in LINEAR and not any(f == "tv" for f in c.forms.values()):
                rs.append(rd.smoothed(kf, short, len(short), tol, name + ".smooth without the missing tail", err))
                rs.append(rd.loglik(kf, short, tol, name + ".loglikelihood without the missing tail", err))
    out.append(models.record(c, rs))
