"""C13: the same numbers in other representations."""
import copy
import random

import numpy as np

from common import attempt
import fit
import linear
import models
import nonlinear
import readings as rd
import scen
import sigma
from scen import size
from systems import LINEAR, SIGMA, make

EXACT = ["list", "tuple", "mixed", "bigendian", "fortran", "strided", "window", "reversed", "readonly", "masked", "float64"]


def integral(a):
    return np.all(np.asarray(a) == np.round(np.asarray(a)))


def kinds_for(a, scalars=False, single=True):
    ks = list(EXACT)
    if integral(a):
        top = np.abs(np.asarray(a, dtype=float)).max(initial=0)
        ks += ["int64", "intlist", "int64be"] + (["int32"] if top < 2 ** 31 else []) + (["int8"] if single and top < 2 ** 7 else []) \
            + (["uint64"] if np.min(a, initial=0) >= 0 else [])
    if single and np.all(np.asarray(a, dtype=np.float32).astype(float) == np.asarray(a)):
        ks += ["float32", "float32be"]
    if scalars and np.size(a) == 1:
        ks += ["scalar", "zerod", "scalar", "zerod"]
    return ks


def deep(a, f):
    return f(deep(x, f) for x in a) if isinstance(a, list) else a


def present(a, kind):
    """the numbers of `a`, represented otherwise"""
    a = np.array(a)
    f = a.astype(float)
    if kind == "list":
        return f.tolist()
    if kind == "tuple":
        return deep(f.tolist(), tuple)
    if kind == "mixed":  # a list of arrays
        return [row for row in f] if f.ndim > 1 else [np.float64(x) for x in f]
    if kind == "intlist":
        return np.round(f).astype(int).tolist()
    if kind == "bigendian":
        return f.astype(">f8")
    if kind == "fortran":
        return np.asfortranarray(f)
    if kind == "strided":
        big = np.full(tuple(2 * s for s in f.shape), np.nan)
        v = big[tuple(slice(None, None, 2) for _ in f.shape)]
        v[...] = f
        return v
    if kind == "window":  # columns first, within a larger array: neither C nor Fortran contiguous
        big = np.asfortranarray(np.full(tuple(s + 2 for s in f.shape), np.nan))
        v = big[tuple(slice(1, -1) for _ in f.shape)]
        v[...] = f
        return v
    if kind == "reversed":
        flip = tuple(slice(None, None, -1) for _ in f.shape)
        return np.ascontiguousarray(f[flip])[flip]
    if kind == "readonly":
        f.flags.writeable = False
        return f
    if kind == "masked":
        return np.ma.array(f)
    if kind in ("int64", "int32", "int8", "uint64"):
        return np.round(f).astype(kind)
    if kind == "int64be":
        return np.round(f).astype(">i8")
    if kind == "float32":
        return f.astype(np.float32)
    if kind == "float32be":
        return f.astype(">f4")
    if kind == "scalar":
        return int(f.ravel()[0]) if integral(f) and f.ravel()[0] % 2 else float(f.ravel()[0])
    if kind == "zerod":
        return np.array(f.ravel()[0])
    return f


def choose(ks, pick, wide=True):
    k = pick.choice(ks)
    return pick.choice(EXACT) if not wide and k.startswith("float32") else k


def observations(c, pick, kinds):
    """(what is handed over, how it is called)"""
    T, m = c.T, c.m
    if c.mask.any():
        form = pick.choice(["plain", "fortran", "readonly", "float32", "be", "int", "nanfill", "flat"])
        X = c.X.copy()
        if form == "fortran":
            return np.ma.array(np.asfortranarray(np.ma.getdata(X)), mask=np.asfortranarray(c.mask)), form
        if form == "readonly":
            X.data.flags.writeable = False
            return X, form
        if form == "float32" and "float32" in kinds:
            with np.errstate(all="ignore"):
                return X.astype(np.float32), form
        if form == "be":
            return X.astype(">f8"), form
        if form == "int" and "int64" in kinds:
            return np.ma.array(np.where(c.mask, 999, c.y).astype(int), mask=c.mask), form
        if form == "flat" and m == 1 and T > 1:
            return X.reshape(T), form
        return X, "plain"
    ks = list(kinds)
    if m == 1 and T > 1:
        ks += ["flat:" + k for k in kinds] + ["row:" + k for k in kinds]
    elif T == 1:
        ks += ["step:" + k for k in kinds if k != "mixed"] * 2
        if m == 1:
            ks += ["scalar", "zerod"] * 4
    k = pick.choice(ks)
    if k.startswith("flat:") or k.startswith("step:"):
        return present(np.asarray(c.y).ravel(), k[5:]), k
    if k.startswith("row:"):
        return present(np.asarray(c.y).reshape(1, T), k[4:]), k
    return present(c.y, k), k


SINGLE = "1e-3"
BELIEFS = ["bigendian", "fortran", "strided", "window", "reversed", "readonly", "float64"]


def represented(c, pick, names, tol, single):
    """(the case as the object gets it, description, tolerance)"""
    v = copy.copy(c)
    v.params, words, loose = {}, [], False
    for p, a in c.params.items():
        scalars = c.forms[p] == "const"
        k = choose(kinds_for(a, scalars, single), pick)
        if c.forms[p] == "tv" and k in ("scalar", "zerod"):
            k = "list"
        v.params[p] = present(a, k)
        words.append("%s:%s" % (p, k))
        loose = loose or k.startswith("float32") or k == "int8"
    X, k = observations(c, pick, kinds_for(c.y, False, single))
    words.append("X:" + k)
    loose = loose or "float32" in k or "int8" in k
    return v, X, ", ".join(words), SINGLE if loose else tol


def linear_case(c, pick, names, tol, single=True):
    rs, notes = [], []
    for name in names:
        v, X, words, tl = represented(c, pick, [name], tol, single)
        notes.append(words)
        if name in SIGMA:
            # functions are given; noise covariances, initial moments and observations are represented
            v2 = copy.copy(c)
            kf, err = make(name, v2, **{k: x for k, x in v.params.items() if k in nonlinear.ORDER})
        else:
            kf, err = attempt_make(name, c, v)
        w = "%s(%s)" % (name, words)
        rs += [rd.filtered(kf, X, c.T, tl, w + ".filter", err), rd.smoothed(kf, X, c.T, tl, w + ".smooth", err)]
        if name in LINEAR:
            rs.append(rd.loglik(kf, X, tl, w + ".loglikelihood", err))
        if c.T > 1:
            rs.append(updates(name, kf, c, pick, tl, w, err, single))
    return models.record(c, rs)


def attempt_make(name, c, v):
    from systems import classes
    kw = dict(v.params)
    kw.update(c.dims)
    return attempt(classes()[name], **kw)


def updates(name, kf, c, pick, tol, who, err, single):
    """chained online updates, everything passed in another representation"""
    beliefs = []
    f, g = sigma.affine_functions(c)
    if not err:
        res, err = attempt(kf.filter, c.X[:1].copy())
        if not err:
            mean, cov = res[0][0], res[1][0]
    for t in range(1, c.T):
        if err:
            break
        kw = {}
        if name in LINEAR:
            for p, a in linear.ARGS.items():
                if c.forms[p] == "tv":
                    x = c.params[p][t - 1 if p.startswith("transition") else t]
                    k = choose([k for k in kinds_for(x, False, False) if k not in ("list", "tuple", "mixed", "intlist", "masked")], pick)
                    kw[a] = present(x, k)
        else:
            if isinstance(f, list):
                kw["transition_function"] = f[t - 1]
            if isinstance(g, list):
                kw["observation_function"] = g[t]
        if not c.mask[t].any():
            k = choose(kinds_for(c.y[t], False, single), pick)
            if k.startswith("float32") or k == "int8":
                tol = SINGLE
            kw["observation"] = present(c.y[t], k)
        mean, cov = present(mean, pick.choice(BELIEFS)), present(cov, pick.choice(BELIEFS))
        res, err = attempt(kf.filter_update, mean, cov, **kw)
        if not err:
            try:
                mean, cov = res
                beliefs.append((mean, cov))
            except Exception as e:
                err = "result is not a (mean, covariance) pair: %s" % e
        if err:
            err = "step to t=%d: %s" % (t + 1, err)
    res = None
    if not err:
        res, err = rd.stack(beliefs)
    return rd.belief_reading(who + ".filter_update", "filtered", res, err, c.T - 1, tol, first=2)


def c13(ck):
    ck.design("MCKalman", linear.MC % (2, "11"))
    ck.assumptions = linear.TRUSTED + ["single precision (and 8 bit) input: agreement to 1e-3"]
    pick = random.Random("c13")
    out = []
    S = dict(Styles='{"generic", "integer", "integer"}', Lengths="{1, 2, 3, 5}")
    small = dict(S, MaxN=2, MaxM=2)
    for c in (scen.cases(ck, "rep", size(150, 1500), **S) + scen.cases(ck, "rep-one", size(80, 800), MaxN=1, MaxM=1, **S)
              + scen.cases(ck, "rep-short", size(60, 600), **dict(S, Lengths="{1}"))):
        out.append(linear_case(c, pick, ["KF"], "1e-10"))
    B = dict(S, Styles='{"large"}', MaxN=3)
    for c in scen.cases(ck, "rep-large", size(40, 400), **B):
        out.append(linear_case(c, pick, ["KF"], "1e-10", False))
    for c in scen.cases(ck, "rep-large-sqrt", size(30, 300), **dict(B, CovForms='{"none", "const"}')):
        out.append(linear_case(c, pick, ["CKF", "BKF"], "1e-9", False))
    for c in sigma.affine_cases(ck, "rep-large-sigma", size(20, 200), **B):
        out.append(linear_case(c, pick, list(SIGMA), "1e-8", False))
    P = dict(CovForms='{"none", "const"}')
    for c in (scen.cases(ck, "rep-sqrt", size(100, 1000), **dict(S, **P)) + scen.cases(ck, "rep-sqrt-one", size(50, 500), MaxN=1, MaxM=1, **dict(S, **P))
              + scen.cases(ck, "rep-sqrt-short", size(30, 300), **dict(S, Lengths="{1}", **P))):
        out.append(linear_case(c, pick, ["CKF", "BKF"], "1e-9"))
    for c in (sigma.affine_cases(ck, "rep-sigma", size(60, 600), **S) + sigma.affine_cases(ck, "rep-sigma-one", size(30, 300), MaxN=1, MaxM=1, **S)
              + sigma.affine_cases(ck, "rep-sigma-short", size(20, 200), **dict(S, Lengths="{1}"))):
        out.append(linear_case(c, pick, list(SIGMA), "1e-8"))
    linear.judge(ck, out)

    # fitting
    out = []
    for i, c in enumerate(scen.cases(ck, "rep-em", size(80, 800), MaxN=3, **dict(fit.COMMON, Lengths="{2, 3, 5}"))):
        if not fit.enough(c):
            continue
        for name in LINEAR if i % 2 else ("KF",):
            v, X, words, _ = represented(c, pick, [name], "1e-9", False)
            kf, err = attempt_make(name, c, v)
            calls = [fit.failed(err)] if err else [fit.call(kf, X, 1, fit.choose_vars(pick))]
            r = fit.case(c, calls, ["update"], who=name)
            r["scenario"] = dict(c.sc, represented=words)
            out.append(r)
    fit.judge(ck, out)
