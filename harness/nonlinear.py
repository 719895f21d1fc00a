"""The unscented filters on functions of all sorts, against module Unscented (C17, C18; parts of C10, C19)."""
import functools
import zlib

import numpy as np

from common import SEED, attempt, generate, num, nums
import models
import readings as rd
from scen import size
from systems import classes

ORDER = ["transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"]


def shaped(r, style):
    """a function's result, represented otherwise"""
    if style == "list":
        return r
    if style == "tuple":
        return tuple(r)
    if style == "scalar" and len(r) == 1:
        return r[0]
    if style == "zerod" and len(r) == 1:
        return np.array(r[0])
    if style == "reversed":
        return np.array(r[::-1])[::-1]
    if style == "strided":
        return np.array([[x, np.nan] for x in r])[:, 0]
    if style == "bigendian":
        return np.array(r, dtype=">f8")
    a = np.array(r)
    a.flags.writeable = style != "readonly"
    return a


STYLES = ["array", "array", "list", "tuple", "scalar", "zerod", "reversed", "strided", "bigendian", "readonly"]


class Fn:
    """A function given by data: per output a quotient of two sums of terms (c, exponents), cut off at limits."""

    style = "array"   # how it returns its result

    def __init__(self, outputs, limits=None):
        self.outputs = outputs
        self.limits = limits or [() for _ in outputs]   # per output (lowest, highest) or ()

    @staticmethod
    def poly(terms, v):
        s = 0.0
        for c, e in terms:
            p = c
            for x, k in zip(v, e):
                for _ in range(k):
                    p = p * x
            s = s + p
        return s

    def scaled(self, units, to):
        """the same function of quantities measured in other units: one per argument, one per output"""
        def one(ts, u):
            return [(c * u / np.prod([v ** k for v, k in zip(units, e)]), e) for c, e in ts]
        return Fn([(one(a, u), one(b, 1.0)) for (a, b), u in zip(self.outputs, to)],
                  [tuple(x * u for x in l) for l, u in zip(self.limits, to)])

    def __call__(self, x, w=None):
        v = np.asarray(x) if w is None else np.concatenate([np.asarray(x), np.asarray(w)])
        r = [float(self.poly(a, v) / self.poly(b, v) if b else self.poly(a, v)) for a, b in self.outputs]
        return shaped([max(l[0], min(l[1], x)) if l else x for x, l in zip(r, self.limits)], self.style)

    def data(self):
        one = lambda ts: [{"c": num(c), "e": list(e)} for c, e in ts]
        return [{"num": one(a), "den": one(b), "lim": [num(x) for x in l]} for (a, b), l in zip(self.outputs, self.limits)]


def function(r, k, n, sort, noise):
    """k outputs of n arguments (and k noises); r a random.Random"""
    args = n + (k if noise else 0)

    def exps(*idx):
        e = [0] * args
        for i in idx:
            e[i] += 1
        return e

    def c(a, b, d=16.0):
        return r.randint(a, b) / d or 1 / d
    outs, limits = [], []
    for i in range(k):
        limits.append(())
        num_, den = [(c(-32, 32), exps())], []
        for j in range(n):
            if j == i % n or r.random() < 0.6:
                num_.append((c(-16, 16) if j != i % n else c(8, 20), exps(j)))
        if sort == "quadratic":
            for _ in range(2):
                num_.append((c(-4, 4, 32.0), exps(r.randrange(n), r.randrange(n))))
        elif sort == "cubic":
            num_.append((c(-3, 3, 64.0), exps(*[r.randrange(n) for _ in range(3)])))
            num_.append((c(-4, 4, 32.0), exps(r.randrange(n), r.randrange(n))))
        elif sort == "rational":
            num_.append((c(-8, 8), exps(r.randrange(n), r.randrange(n))))
            j = r.randrange(n)
            den = [(1.0, exps()), (c(2, 8, 32.0), exps(j, j))]
        elif sort == "clipped":   # saturates on one side or both
            lo = c(-24, 8)
            limits[i] = r.choice([(lo, 2.0 ** 40), (-2.0 ** 40, -lo), (lo, lo + c(2, 24)), ()])
        if noise:
            t = r.random()
            w = n + i
            num_.append((1.0, exps(w)))
            if t < 0.3:
                num_.append((c(-4, 4), exps(w, r.randrange(n))))
            elif t < 0.5:
                num_.append((c(-4, 4), exps(w, n + r.randrange(k))))
            elif t < 0.7 and k > 1:
                num_.append((c(-8, 8), exps(n + r.randrange(k))))
        outs.append((num_, den))
    return Fn(outs, limits)


def plain(k, noise, n=None):
    """the default function"""
    n = n or k
    e = lambda *idx: [int(j in idx) for j in range(n + (k if noise else 0))]
    return Fn([([(1.0, e(i))] + ([(1.0, e(n + i))] if noise else []), []) for i in range(k)])


class Case:
    pass


def build(sc, ident):
    c = Case()
    c.sc, c.id, c.kind, c.n, c.m, c.T = sc, ident, sc["kind"], sc["n"], sc["m"], sc["T"]
    n, m, T = c.n, c.m, c.T
    rnd = models.Numbers("%s/%s" % (SEED, ident), "generic")
    r = rnd.r
    noise = c.kind == "augmented"
    c.rnd = rnd
    c.f = c.g = None
    if sc["f"] != "none":
        c.f = [function(r, n, n, sc["fsort"], noise) for _ in range(1 if sc["f"] == "const" else max(1, T - 1))]
    if sc["g"] != "none":
        c.g = [function(r, m, n, sc["gsort"], noise) for _ in range(1 if sc["g"] == "const" else T)]
    if sc["unit"] == "mixed":  # one per component
        us, uo = [np.array([2.0 ** r.choice([0, 0, -10, -18]) for _ in range(k)]) for k in (n, m)]
    else:
        us, uo = [np.full(k, 2.0 ** int(sc["unit"][2:])) for k in (n, m)]
    c.unit = max(us.max(), uo.max())
    if sc["unit"] != "2^0":
        c.f = c.f or [plain(n, noise)]
        c.g = c.g or [plain(m, noise, n)]
        c.f = [h.scaled(np.concatenate([us, us]), us) for h in c.f]
        c.g = [h.scaled(np.concatenate([us, uo]), uo) for h in c.g]
        sc["f"], sc["g"] = sc["f"].replace("none", "const"), sc["g"].replace("none", "const")
        # what is left out is not in the unit
        sc["form"] = [x if p == "initial_state_mean" else "const" for p, x in zip(ORDER, sc["form"])]
    for h in (c.f or []) + (c.g or []):
        h.style = r.choice(STYLES)
    c.params = {}
    for p, form in zip(ORDER, sc["form"]):
        if form == "const":
            c.params[p] = {"transition_covariance": lambda: rnd.cov(n, 0.5), "observation_covariance": lambda: rnd.cov(m, 0.5),
                           "initial_state_mean": lambda: rnd.vector(n, 0.5), "initial_state_covariance": lambda: rnd.cov(n)}[p]()
            u = uo if p == "observation_covariance" else us
            c.params[p] = c.params[p] * (u if p == "initial_state_mean" else u[:, None] * u)
    c.dims = {}
    if sc["dims"] or (n != 1 and not any(p in c.params for p in ORDER if p != "observation_covariance")):
        c.dims["n_dim_state"] = n
    if sc["dims"] or (m != 1 and "observation_covariance" not in c.params):
        c.dims["n_dim_obs"] = m
    c.y = np.array([rnd.vector(m) for _ in range(T)]) * uo
    c.mask = np.zeros((T, m), dtype=bool)
    for t, s in enumerate(sc["seen"]):
        if s == "missing":
            c.mask[t, :] = True
        elif s == "partial":
            c.mask[t, r.sample(range(m), r.randint(1, m - 1))] = True
    hidden = c.y.copy()
    hidden[c.mask] = r.choice([np.nan, 1e30, -777.0, 0.0])
    c.X = np.ma.array(hidden, mask=c.mask)
    c.obs = [{"miss": bool(c.mask[t].any()), "y": [] if c.mask[t].any() else nums(c.y[t])} for t in range(T)]
    return c


def handed(fs, form, i=0, more=False):
    if form == "tv":
        if more:
            fs = fs + [Fn([([(99.0, a[0][0][1])], []) for a in fs[0].outputs])]
        if i % 3 == 1:
            a = np.empty(len(fs), dtype=object)
            a[:] = fs
            return a
        return list(fs) if i % 3 == 0 else tuple(fs)
    # any callable will do
    return (fs[0], fs[0].__call__, functools.partial(fs[0]), lambda *args: fs[0](*args))[i % 4]


def make(name, c, i=0, **over):
    kw = {k: v.copy() for k, v in c.params.items()}
    kw.update(c.dims)
    if c.f:
        kw["transition_functions"] = handed(c.f, c.sc["f"], i, getattr(c, "more", False))
    if c.g:
        kw["observation_functions"] = handed(c.g, c.sc["g"], i + 1, getattr(c, "more", False))
    kw.update(over)
    return attempt(classes()[name], **kw)


def record(c, readings):
    d = {"id": c.id, "kind": c.kind, "n": c.n, "m": c.m, "obs": c.obs, "readings": readings, "scenario": c.sc, "unit": num(c.unit)}
    d["f"] = {"form": c.sc["f"], "v": [f.data() for f in c.f or []]}
    d["g"] = {"form": c.sc["g"], "v": [f.data() for f in c.g or []]}
    for p in ORDER:
        d[p] = {"form": "const" if p in c.params else "none", "v": nums(c.params[p]) if p in c.params else []}
    return d


def replay(c):
    return c


def online(name, c, from_prior, tol, i=0):
    """chained filter_update; functions that vary are passed each time"""
    kf, err = make(name, c, i)
    beliefs = []
    if not err:
        if from_prior and c.mask[0].any():
            mean = c.params.get("initial_state_mean", np.zeros(c.n)).copy()
            cov = c.params.get("initial_state_covariance", np.eye(c.n)).copy()
        else:
            res, err = attempt(kf.filter, c.X[:1].copy())
            if not err:
                mean, cov = res[0][0], res[1][0]
    for t in range(1, c.T):
        if err:
            break
        kw = {}
        if c.sc["f"] == "tv" and (c.T > 2 or t % 2):
            kw["transition_function"] = c.f[t - 1]
        if c.sc["g"] == "tv":
            kw["observation_function"] = c.g[t]
        if c.mask[t].any():
            k = (t + i) % 3
            if k == 1:
                kw["observation"] = np.ma.array(np.ma.getdata(c.X)[t].copy(), mask=True)
            elif k == 2:
                kw["observation"] = c.X[t].copy()
        else:
            kw["observation"] = c.y[t].copy() if t % 2 else np.ma.array(c.y[t].copy())
        res, err = attempt(kf.filter_update, mean, cov, **kw)
        if not err:
            try:
                mean, cov = res
                beliefs.append((mean, cov))
            except Exception as e:
                err = "result is not a (mean, covariance) pair: %s" % e
        if err:
            err = "step to t=%d: %s" % (t + 1, err)
    res = None
    if not err:
        res, err = rd.stack(beliefs)
    return rd.belief_reading(name + ".filter_update", "filtered", res, err, c.T - 1, tol, first=2)


DEFAULTS = dict(Kinds='{"additive"}', MinN=1, MaxN=3, MaxM=3, Lengths="{1, 2, 3, 4}", FunForms='{"none", "const", "tv"}',
                CovForms='{"none", "const"}', InitForms='{"none", "const"}', Units='{"2^0"}', Sorts='{"affine", "quadratic", "cubic", "rational", "clipped"}')


def cases(ck, tag, count, **over):
    d = dict(DEFAULTS)
    d.update(over)
    text = "SPECIFICATION Spec\nCONSTANTS\n" + "\n".join(" %s = %s" % kv for kv in d.items()) + "\nCHECK_DEADLOCK FALSE\n"
    longest = max(int(x) for x in d["Lengths"].strip("{} ").split(","))
    r = generate("ScenUnscented", text, count, depth=longest + 30, seed=SEED * 100003 + zlib.crc32(tag.encode()) % 100000)
    ck.add("scenario generation (%s)" % tag, r, scenarios=len(r.lines))
    return [build(sc, "%s-%d" % (tag, i)) for i, sc in enumerate(r.lines)]


def run(name, c, i, tol):
    X = c.X if c.mask.any() or i % 2 else c.y
    if c.sc["unit"] == "mixed":  # pseudo-inverses are not invariant to scale
        tol = "1e-7"
    kf, err = make(name, c, i)
    rs = [rd.filtered(kf, X.copy(), c.T, tol, name + ".filter", err), rd.smoothed(kf, X.copy(), c.T, tol, name + ".smooth", err)]
    if c.T > 1:
        rs.append(online(name, c, bool(i % 2), tol, i))
    return rs


TRUSTED = ["TLC 1.8 and the Java implementation of the rational operators of Rat.tla (checked against their TLA+ definitions by RatTest)",
           "agreement up to rounding, entries within the tolerance times the largest magnitude in the case",
           "cases are followed as long as the covariances met are positive definite by a margin of 1e-5 and numbers stay below 1e5",
           "square roots in the specification are rational approximations within 2^-140; functions are polynomial or rational, and cut off at limits"]


def judge(ck, out):
    ck.judge("TraceUnscented", "TraceUnscented.cfg", out, replay)


MCU = """SPECIFICATION Spec
CONSTANTS Bits = 200 MaxT = 2 Ns = %s Ms = {1, 2} Kinds = %s
CONSTANT Regular <- Definite
INVARIANTS ExactOnAffine PointsReproduce NeverLost
CHECK_DEADLOCK FALSE
"""


def c17(ck):
    ck.design("MCUnscented", MCU % ("{1, 2, 4}", '{"additive", "augmented"}'))
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(cases(ck, "additive", size(250, 2500))
                          + cases(ck, "additive-big", size(40, 300), MinN=4, MaxN=6, MaxM=4, Lengths="{1, 2, 3}")
                          + cases(ck, "additive-long", size(10, 60), MaxN=2, MaxM=2, Lengths="{12, 20}", Sorts='{"affine", "rational"}')):
        out.append(record(c, run("AUKF", c, i, TOL)))
    for i, c in enumerate(cases(ck, "additive-units", size(60, 300), Units='{"2^-18", "2^-10", "2^12", "mixed"}', Sorts='{"affine", "quadratic", "rational", "clipped"}')):
        out.append(record(c, run("AUKF", c, i, TOL)))
    for i, c in enumerate(cases(ck, "augmented-units", size(60, 300), Units='{"2^-18", "2^-10", "2^12", "mixed"}', Kinds='{"augmented"}', MaxN=2, MaxM=2, Sorts='{"affine", "quadratic", "rational", "clipped"}')):
        out.append(record(c, run("UKF", c, i, TOL)))
    for i, c in enumerate(cases(ck, "augmented", size(200, 2000), Kinds='{"augmented"}', MaxN=2, MaxM=2)
                          + cases(ck, "augmented-big", size(20, 200), Kinds='{"augmented"}', MinN=3, MaxN=4, MaxM=3, Lengths="{1, 2, 3}")
                          + cases(ck, "augmented-long", size(8, 40), Kinds='{"augmented"}', MaxN=1, MaxM=1, Lengths="{8, 12}",
                                  Sorts='{"affine", "rational"}')):
        out.append(record(c, run("UKF", c, i, TOL)))
    judge(ck, out)


def c18(ck):
    ck.design("MCUnscented", MCU % ("{1, 2, 4}", '{"additive"}'))
    ck.assumptions = TRUSTED
    out = []
    for i, c in enumerate(cases(ck, "sqrt", size(250, 2500))
                          + cases(ck, "sqrt-big", size(60, 500), MinN=4, MaxN=6, MaxM=4, Lengths="{1, 2, 3}")
                          + cases(ck, "sqrt-long", size(10, 60), MaxN=2, MaxM=2, Lengths="{12, 20}", Sorts='{"affine", "rational"}')):
        out.append(record(c, run("SUKF", c, i, TOL) + run("AUKF", c, i, TOL)))
    for i, c in enumerate(cases(ck, "sqrt-units", size(60, 400), Units='{"2^-18", "2^-10", "2^12", "mixed"}', Sorts='{"affine", "quadratic", "rational", "clipped"}')):
        out.append(record(c, run("SUKF", c, i, TOL) + run("AUKF", c, i, TOL)))
    judge(ck, out)


TOL = "1e-8"
