"""C15 (and C10): samples against module Sampling."""
import hashlib
import random

import numpy as np

from common import NOARR, arr, attempt
import models
import nonlinear
import scen
from scen import size
from systems import make

TRUSTED = ["TLC 1.8 and the Java implementation of the rational operators of Rat.tla (checked against their TLA+ definitions by RatTest)",
           "moments of the recovered noises are judged within 7 standard errors; which pseudo-random numbers are drawn is left open",
           "functions through which noise enters the augmented filter's samples are affine in the noise"]
MC = """SPECIFICATION Spec
CONSTANTS Bits = 0 MaxT = 2
INVARIANTS Recovered RangeKnown
CHECK_DEADLOCK FALSE
"""


def draw(kf, T, err="", **kw):
    res = None
    if not err:
        res, err = attempt(kf.sample, T, **kw)
    d = {"err": err, "x": NOARR, "y": NOARR}
    if not err:
        try:
            x, y = res
            d["x"], d["y"] = arr(x), arr(y)
        except Exception as e:
            d["err"] = "result is not a pair of arrays: %s" % e
    return d


def digest():
    s = np.random.get_state()
    h = hashlib.sha256()
    h.update(repr(s[0]).encode())
    h.update(np.ascontiguousarray(s[1]).tobytes())
    h.update(repr(s[2:]).encode())
    return h.hexdigest()


def new(name, c, i, **extra):
    return nonlinear.make(name, c, i, **extra) if hasattr(c, "kind") else make(name, c, **extra)


def sampled(name, c, i, D, T=None, start=False):
    pick = random.Random("sample/" + c.id)
    T = T or c.T
    kf, err = new(name, c, i)
    base = pick.choice([0, 0, 1, pick.randrange(1 << 20), pick.randrange(1 << 20), (1 << 32) - 1 - D])
    kw = {}
    x1 = None
    if start:
        x1 = c.rnd.vector(c.n) * (i % 4 > 0)
        kw["initial_state"] = x1.tolist() if i % 2 else x1.copy()
    mode = i % 3
    g0 = digest()
    if mode == 0:
        seeds = [base + k for k in range(D)]
        draws = [draw(kf, T, err, random_state=s if k % 2 else np.int64(s), **kw) for k, s in enumerate(seeds)]
    elif mode == 1:
        rng = np.random.RandomState(base)
        draws = [draw(kf, T, err, random_state=rng, **kw) for _ in range(D)]
    else:
        draws = []
        for k in range(D):
            o, e = new(name, c, i, random_state=base + k)
            draws.append(draw(o, T, e, **kw))
    who = {0: "with an integer seed", 1: "with a generator", 2: "with the object's seed"}[mode]
    rng = [{"who": name + ".sample " + who, "before": g0, "after": digest()}]
    a = draw(kf, T, err, random_state=base, **kw)
    pairs = [{"who": name + " repeated", "same": True, "a": a, "b": draw(kf, T, err, random_state=base, **kw)},
             {"who": name + " generator of that seed", "same": True, "a": a,
              "b": draw(kf, T, err, random_state=np.random.RandomState(base), **kw)}]
    o, e = new(name, c, i, random_state=base)
    pairs.append({"who": name + " object's seed", "same": True, "a": a, "b": draw(o, T, e, **kw)})
    pairs.append({"who": name + " object's seed again", "same": True, "a": a, "b": draw(o, T, e, **kw)})
    pairs.append({"who": name, "same": False, "a": a, "b": draw(kf, T, err, random_state=base + 1, **kw)})
    if D > 1:
        pairs.append({"who": name + " successive", "same": False, "a": draws[0], "b": draws[1]})
    # the global generator, seeded: reproducible as well
    st = np.random.get_state()
    np.random.seed(base % 1000)
    p = draw(kf, T, err, random_state=np.random, **kw)
    np.random.seed(base % 1000)
    q = draw(kf, T, err, random_state=np.random, **kw)
    np.random.set_state(st)
    pairs.append({"who": name + " global generator, seeded", "same": True, "a": p, "b": q})
    r = nonlinear.record(c, []) if hasattr(c, "kind") else models.record(c, [])
    r.setdefault("kind", "linear")
    r.update(id=c.id + "-" + name, T=T, start=[] if x1 is None else [repr(float(v)) for v in x1], draws=draws, pairs=pairs, rng=rng)
    r["who"] = name
    return r


def stretch(c):
    """covariances that vary in time, of very different sizes"""
    for p in ("transition_covariance", "observation_covariance"):
        if c.forms[p] == "tv":
            v = np.array([s * 4.0 ** c.rnd.r.randint(-2, 2) for s in c.params[p]])
            c.params[p] = v
            c.given[p] = {"form": "tv", "v": models.nums(v)}
    return c


COVARIANCES = ("transition_covariance", "observation_covariance", "initial_state_covariance")


def tiny(c):
    """hardly any noise: each draw shows the functions and offsets in use"""
    for p in COVARIANCES:
        k = c.m if p.startswith("observation") else c.n
        v = np.asarray(c.params.get(p, np.eye(k)), dtype=float) * 2.0 ** -40
        c.params[p] = v
        if hasattr(c, "given"):
            tv = c.forms[p] == "tv"
            c.given[p] = {"form": "tv" if tv else "const", "v": models.nums(v) if tv else [models.nums(v)]}
    return c


def linear_noise(c):
    """redraw the functions of an augmented model with noise entering through a matrix"""
    def fix(fn, k):
        outs = []
        for i, (num, den) in enumerate(fn.outputs):
            keep = [(a, e) for a, e in num if not any(e[c.n:])]
            for j in range(k):
                e = [0] * len(num[0][1])
                e[c.n + j] = 1
                keep.append((1.0 if i == j else c.rnd.r.randint(-8, 8) / 16.0, e))
            outs.append((keep, []))
        return nonlinear.Fn(outs)
    if c.f:
        c.f = [fix(f, c.n) for f in c.f]
    if c.g:
        c.g = [fix(g, c.m) for g in c.g]
    return c


def judge(ck, out):
    ck.judge("TraceSample", "TraceSample.cfg", out, lambda r: {k: v for k, v in r.items() if k not in ("draws",)})


GENERIC = '{"generic", "integer"}'
ANY = '{"generic", "integer", "degenerate"}'
FUNS = dict(MaxN=2, MaxM=2, Sorts='{"affine", "quadratic", "rational"}')


def c15(ck):
    ck.design("MCSampling", MC)
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(scen.cases(ck, "sample-many", size(24, 150), MaxN=3, MaxM=2, Lengths="{1, 2, 3, 4}", Styles=GENERIC)):
        out.append(sampled("KF", stretch(c), i, size(120, 400), start=i % 4 == 3))
    for i, c in enumerate(scen.cases(ck, "sample-long", size(8, 40), MaxN=3, MaxM=2, Lengths="{2, 3}", Styles=GENERIC,
                                     OffsetForms='{"none", "const"}', CovForms='{"none", "const"}')):
        if "transition_matrices" in c.params:  # a stable one
            A = c.params["transition_matrices"] / (1.0 + np.abs(c.params["transition_matrices"]).sum(axis=1).max())
            c.params["transition_matrices"] = np.round(A * 64) / 64
            c.given["transition_matrices"] = {"form": "const", "v": [models.nums(c.params["transition_matrices"])]}
        elif c.n > 1 or True:
            c.params["transition_matrices"] = np.eye(c.n) * 0.5
            c.given["transition_matrices"] = {"form": "const", "v": [models.nums(c.params["transition_matrices"])]}
        out.append(sampled("KF", c, i, 2, T=size(400, 1500)))
    for i, c in enumerate(scen.cases(ck, "sample", size(60, 600), MaxN=4, MaxM=3, Lengths="{1, 2, 3, 5, 8}", Styles=ANY)):
        c = tiny(c) if i % 2 else c
        out.append(sampled(("KF", "KF", "CKF", "BKF")[i // 2 % 4], stretch(c), i, 4, start=i % 5 == 4))
    for i, c in enumerate(nonlinear.cases(ck, "sample-additive", size(24, 240), Lengths="{1, 2, 3, 4}", **FUNS)):
        out.append(sampled(("AUKF", "SUKF")[i % 2], tiny(c) if i % 4 > 1 else c, i, size(60, 200) if i % 3 == 0 else 4, start=i % 5 == 4))
    for i, c in enumerate(nonlinear.cases(ck, "sample-augmented", size(24, 240), Kinds='{"augmented"}', Lengths="{1, 2, 3, 4}", **FUNS)):
        out.append(sampled("UKF", linear_noise(tiny(c) if i % 2 else c), i, size(60, 200) if i % 3 == 0 else 4, start=i % 5 == 4))
    # more states and observations than two
    big = dict(MinN=3, MaxN=4, MaxM=3, Lengths="{2, 3, 4}")
    for i, c in enumerate(scen.cases(ck, "sample-big", size(6, 60), Styles=GENERIC, **big)):
        out.append(sampled("KF", stretch(c), i, size(120, 400)))
    for i, c in enumerate(nonlinear.cases(ck, "sample-big-additive", size(6, 60), Sorts='{"affine"}', **big)):
        out.append(sampled(("AUKF", "SUKF")[i % 2], c, i, size(120, 400)))
    for i, c in enumerate(nonlinear.cases(ck, "sample-big-augmented", size(6, 60), Kinds='{"augmented"}', Sorts='{"affine"}', **big)):
        out.append(sampled("UKF", linear_noise(c), i, size(120, 400)))
    judge(ck, out)


def varying(ck):
    """C10: per-step parameters and functions in sample"""
    out = []
    for i, c in enumerate(scen.cases(ck, "tv-sample", size(50, 500), MaxN=3, MaxM=3, Lengths="{2, 3, 5}", Styles=ANY,
                                     OffsetForms='{"const", "tv"}', CovForms='{"const", "tv"}')):
        out.append(sampled("KF", stretch(tiny(c) if i % 2 else c), i, size(60, 200) if i % 4 == 0 and c.n < 3 else 4))
    for i, c in enumerate(nonlinear.cases(ck, "tv-sample-additive", size(16, 160), Lengths="{2, 3, 4}", FunForms='{"const", "tv"}', **FUNS)):
        out.append(sampled(("AUKF", "SUKF")[i % 2], tiny(c), i, 4))
    for i, c in enumerate(nonlinear.cases(ck, "tv-sample-augmented", size(16, 160), Kinds='{"augmented"}', Lengths="{2, 3, 4}",
                                          FunForms='{"const", "tv"}', **FUNS)):
        out.append(sampled("UKF", linear_noise(tiny(c)), i, 4))
    judge(ck, out)
