"""Readings: what the real code returned, and what it claims to be (TraceKalman.tla)."""
import numpy as np

from common import NOARR, arr, attempt, num


def belief_reading(who, kind, res, err, count, tol, first=1, single=False):
    r = {"who": who, "kind": kind, "err": err, "count": count, "first": first, "single": single, "tol": tol,
         "mean": NOARR, "cov": NOARR, "val": ""}
    if not err:
        try:
            mean, cov = res
            r["mean"], r["cov"] = arr(mean), arr(cov)
        except Exception as e:
            r["err"] = "result is not a (means, covariances) pair: %s" % e
    return r


def named(obj, op, who):
    if who:
        return who
    mod = type(obj).__module__
    return ("sqrt." if ".sqrt" in mod else "") + type(obj).__name__ + "." + op


def filtered(kf, X, T, tol="1e-10", who=None, err="", first=1):
    res = None
    if not err:
        res, err = attempt(kf.filter, X)
    return belief_reading(named(kf, "filter", who), "filtered", res, err, T, tol, first)


def smoothed(kf, X, T, tol="1e-10", who=None, err="", first=1):
    res = None
    if not err:
        res, err = attempt(kf.smooth, X)
    return belief_reading(named(kf, "smooth", who), "smoothed", res, err, T, tol, first)


def loglik(kf, X, tol="1e-10", who=None, err=""):
    res = None
    if not err:
        res, err = attempt(kf.loglikelihood, X)
    r = belief_reading(named(kf, "loglikelihood", who), "loglik", None, err or "-", 0, tol)
    r["err"] = err
    if not err:
        if np.ndim(res) != 0:
            r["err"] = "loglikelihood has shape %s" % (np.shape(res),)
        else:
            r["val"] = num(res)
    return r


def stack(beliefs):
    """single (mean, cov) results, in order -> one result, or (None, why not)"""
    try:
        ms = [m for m, _ in beliefs]
        cs = [c for _, c in beliefs]
        if len({np.shape(m) for m in ms}) != 1 or len({np.shape(c) for c in cs}) != 1:
            return None, "results have different shapes: %s %s" % ([np.shape(m) for m in ms], [np.shape(c) for c in cs])
        st = np.ma.stack if any(isinstance(x, np.ma.MaskedArray) for x in ms + cs) else np.stack
        return (st(ms), st(cs)), ""
    except Exception as e:
        return None, "results cannot be read: %s" % e
