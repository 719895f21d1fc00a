"""C23: factorisations, sigma points, density (modules Primitives and TracePrimitives)."""
import inspect
import math

import numpy as np

import common
from common import SEED, arr, attempt, nums
import linear
from models import Numbers
from scen import size

MC = """SPECIFICATION %s
CONSTANTS N = %d Top = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
SCEN = """SPECIFICATION Spec
CONSTANTS MaxN = %d Routines = {%s}
CHECK_DEADLOCK FALSE
"""
WHERE = {"udu": ("pykalman.sqrt.bierman", "udu"), "update": ("pykalman.sqrt.unscented", "cholupdate"),
         "qr": ("pykalman.sqrt.unscented", "qr"),
         "points": ("pykalman.unscented", "moments2points"), "root points": ("pykalman.sqrt.unscented", "moments2points"),
         "moments": ("pykalman.unscented", "points2moments"), "root moments": ("pykalman.sqrt.unscented", "points2moments"),
         "transform": ("pykalman.unscented", "unscented_transform"), "joint": ("pykalman.unscented", "augmented_points"),
         "density": ("pykalman.utils", "log_multivariate_normal_density")}
EMPTY = {"shape": [], "data": []}


def routine(name, *shape):
    """the routine, if it is there and can be called so (it is not part of the public interface)"""
    mod, f = WHERE[name]
    try:
        f = getattr(__import__(mod, fromlist=["x"]), f)
        inspect.signature(f).bind(*shape)
        return f
    except Exception:
        return None


def kinds():
    try:
        from pykalman.unscented import Moments, SigmaPoints
        Moments(1, 2), SigmaPoints(1, 2, 3)
        return Moments, SigmaPoints
    except Exception:
        return None, None


def shown(a, rep):
    """the array in another guise"""
    a = np.array(a)
    if rep == "fortran":
        return np.asfortranarray(a)
    if rep == "strided":
        b = np.zeros(tuple(2 * k for k in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if rep == "frozen":
        a.setflags(write=False)
    return a


def call(sc, who, op, f, args, arg, read, tol):
    """args: as handed over (arrays anywhere within); arg: the same for the judge"""
    def arrays(x):
        if isinstance(x, np.ndarray):
            return [x]
        return [a for y in x for a in arrays(y)] if isinstance(x, (tuple, list)) else []
    before = [[a.copy() for a in arrays(x)] for x in args]
    res, err = attempt(f, *args)
    touched = [i for i, (x, b) in enumerate(zip(args, before)) if any(not np.array_equal(p, q) for p, q in zip(arrays(x), b))]
    got = {}
    if not err:
        got, e = attempt(read, res)
        err = ("result unreadable: " + e) if e else ""
    return {"who": who, "op": op, "err": err, "touched": touched, "tol": tol, "arg": arg, "res": got if not err else {}}


def semi(rnd, n, rank):
    L = rnd.matrix(n, max(rank, 1)) if rank else np.zeros((n, 1), dtype=int if rnd.int else float)
    return L @ L.T


def root(rnd, n):
    """upper triangular, regular"""
    L = np.linalg.cholesky(np.asarray(rnd.cov(n), dtype=float)).T
    return L if not rnd.int else np.round(L).astype(int) + np.diag([1 if x < 0.6 else 0 for x in np.diag(L)])


def reading(sc, k):
    rnd = Numbers("primitives/%s/%s" % (SEED, k), sc["style"])
    r, n, rep, name = rnd.r, sc["n"], sc["rep"], sc["routine"]
    unit = 2.0 ** r.choice([-40, -12, -4, 4, 12, 40] if name in ("udu", "update", "qr") else [-100, -40, -12, 12, 40, 100] if name == "density" else [-12, -4, 4, 12]) if sc["style"] == "scaled" else 1

    def as_points(at, wm, wc):
        return {"at": nums(at), "wm": nums(wm), "wc": nums(wc)}
    Moments, SigmaPoints = kinds()

    def points_read(p):
        return {"at": arr(p[0]), "wm": arr(p[1]), "wc": arr(p[2])}
    if name == "udu":
        M = semi(rnd, n, sc["rank"]) * unit
        f = routine(name, M)
        return f and call(sc, "udu", "udu", f, (shown(M, rep),), {"M": nums(M)}, lambda x: {"U": arr(x.U), "D": arr(x.D)}, "1e-11")
    if name == "update":
        R = root(rnd, n) * unit
        if sc["negative"] and not rnd.int:
            R = np.diag([r.choice([-1, 1]) for _ in range(n)]) @ R
        X = rnd.matrix(max(sc["vectors"], 1), n) * unit
        w = (1, 1 / 6.0, 0.5, 4)[sc["weight"] - 1]
        tol = "1e-10"
        if sc["sign"] == "down":
            # what is taken away is at most 9/10 of what is there
            S = np.linalg.inv(np.asarray(R, dtype=float).T)
            h = float(np.linalg.norm(S @ (X.T.astype(float)), 2)) ** 2
            w = -w * min(1.0, 0.9 / max(h * w, 1e-30))
        if sc["sign"] == "singular":
            # all there is along one direction, exactly
            rnd.int = True
            R = np.triu(rnd.matrix(n, n))
            R = R - np.diag(np.diag(R)) + np.eye(n, dtype=int) * r.choice([1, 2])
            X, w, tol = R[r.randrange(n)][None, :].copy(), -1, "1e-7"
        if sc["vectors"] == 0:
            X = X[:1]
        given = X[0] if sc["vectors"] == 0 else X
        f = routine(name, R, X, w)
        return f and call(sc, "cholupdate", "update", f, (shown(R, rep), shown(given, rep), w), {"R": nums(R), "X": nums(X), "w": common.num(w)},
                          lambda x: {"R": arr(x)}, tol)
    if name == "qr":
        A = rnd.matrix(n + sc["extra"], n) * unit
        if sc["deficient"]:
            A[:, 0] = A[:, -1]
        f = routine(name, A)
        return f and call(sc, "qr", "qr", f, (shown(A, rep),), {"A": nums(A)}, lambda x: {"R": arr(x)}, "1e-11")
    if Moments is None and name != "density":
        return None
    if name in ("points", "root points"):
        rooted = name == "root points"
        mu, S = rnd.vector(n) * unit, (root(rnd, n) if rooted else rnd.cov(n)) * unit
        extra = {}
        if sc["alpha"]:
            extra["alpha"] = (0, 1.0, 0.5, 1.5)[sc["alpha"]]
        if sc["beta"]:
            extra["beta"] = (0, 2.0, 0.0)[sc["beta"]]
        if sc["kappa"]:
            extra["kappa"] = (0, 1.0, 0.5)[sc["kappa"]]
        f = routine(name, 1, 2, 3, 4)
        if f and extra:
            try:
                inspect.signature(f).bind(1, **extra)
            except TypeError:
                extra = {}
        return f and call(sc, ("sqrt." if rooted else "") + "moments2points %s" % extra, "points", lambda m: f(m, **extra),
                          (Moments(shown(mu, rep), shown(S, rep)),), {"mean": nums(mu), "cov": nums(S), "root": rooted}, points_read, "1e-11")
    if name in ("moments", "root moments", "transform"):
        rooted = name == "root moments"
        m = n
        k = 2 * n + 1
        how = sc.get("weights", "default")
        if how == "default":
            wm = np.array([1 - n / 3.0] + [1 / 6.0] * (2 * n))
            wc = wm.copy()
        elif how == "equal":
            wm = wc = np.ones(k) / 8
        else:
            wm = np.array([r.randint(1, 8) / 8.0 for _ in range(k)])
            wc = np.array([r.randint(1, 8) / 8.0 for _ in range(k)])
        at = rnd.matrix(k, n, 2.0) * unit
        if how == "default":
            # negative weights: around the mean, so that the covariance is positive
            mu, L = rnd.vector(n) * unit, np.asarray(rnd.cov(n), dtype=float) * unit
            at = np.array([mu] + [mu + L[j] for j in range(n)] + [mu - L[j] for j in range(n)])
            if sc.get("curved") and n < 3:
                at = at + at * at / 8 / unit
        noise = (root(rnd, m) if rooted else rnd.cov(m)) * unit if sc["noise"] and name != "transform" else None
        if name == "transform":
            m = sc["m"]
            A, b, B = rnd.matrix(m, n), rnd.vector(m) * unit, rnd.matrix(m, 2)
            N = rnd.cov(m) * unit if sc["noise"] else None
            q = rnd.matrix(k, 2, 1.0) * unit if sc["function"] == "affine noise" else None
            if sc["function"] == "none":
                m, A, b = n, np.eye(n), np.zeros(n)
                N = rnd.cov(m) * unit if sc["noise"] else None
            fn = None if sc["function"] == "none" else (lambda x: A.dot(x) + b) if q is None else (lambda x, w: A.dot(x) + b + B.dot(w))
            f = routine(name, 1, 2, 3, 4)
            ps = SigmaPoints(shown(at, rep), shown(wm, rep), shown(wc, rep))
            qs = None if q is None else SigmaPoints(shown(q, rep), wm.copy(), wc.copy())
            return f and call(sc, "unscented_transform", "transform", f, (ps, fn, qs, None if N is None else shown(N, rep)),
                              dict(as_points(at, wm, wc), A=nums(A), b=nums(b), B=nums(B) if q is not None else [], extra=nums(q) if q is not None else [],
                                   noise=nums(N) if N is not None else [], root=False),
                              lambda x: dict(points_read(x[0]), mean=arr(x[1][0]), cov=arr(x[1][1])), "1e-11")
        f = routine(name, 1, 2)
        return f and call(sc, ("sqrt." if rooted else "") + "points2moments", "moments", f,
                          (SigmaPoints(shown(at, rep), shown(wm, rep), shown(wc, rep)), None if noise is None else shown(noise, rep)),
                          dict(as_points(at, wm, wc), noise=nums(noise) if noise is not None else [], root=rooted),
                          lambda x: {"mean": arr(x[0]), "cov": arr(x[1])}, "1e-9" if rooted else "1e-11")
    if name == "joint":
        parts = [(rnd.vector(d) * unit, rnd.cov(d) * unit) for d in sc["parts"]]
        f = routine(name, 1)
        return f and call(sc, "augmented_points", "joint", f, ([Moments(shown(a, rep), shown(S, rep)) for a, S in parts],),
                          {"parts": [{"mean": nums(a), "cov": nums(S)} for a, S in parts], "total": sum(sc["parts"])},
                          lambda x: {"parts": [points_read(p) for p in x]}, "1e-11")
    if name == "density":
        X = np.array([rnd.vector(n) for _ in range(sc["samples"])]) * unit
        mus = np.array([rnd.vector(n) for _ in range(sc["mixtures"])]) * unit
        covs = np.array([rnd.cov(n) for _ in range(sc["mixtures"])]) * unit * unit
        f = routine(name, 1, 2, 3)
        return f and call(sc, "log_multivariate_normal_density", "density", f, (shown(X, rep), shown(mus, rep), shown(covs, rep)),
                          {"X": nums(X), "means": nums(mus), "covs": nums(covs)}, lambda x: {"value": arr(x)}, "1e-10")


def c23(ck):
    for n, top in size([(2, 2), (3, 1)], [(2, 3), (3, 2)]):
        ck.design("MCPrimitives", MC % ("Spec", n, top, "FactorsRebuild FactoredAll"))
    for n, top in size([(2, 1)], [(2, 2), (3, 1)]):
        ck.design("MCPrimitives", MC % ("Spec2", n, top, "UpdateMaintained UpdateTriangular UpdatedAll"))
    ck.assumptions = linear.TRUSTED + ["routines are found by the names and parameters they have; one that is not there is not judged"]
    out = []
    for i, name in enumerate(sorted(WHERE)):
        r = common.generate("ScenPrimitives", SCEN % (size(5, 7), '"%s"' % name), size(220, 2500), depth=20, seed=SEED * 1009 + i)
        rs = [x for x in (reading(sc, "%s-%d" % (name, k)) for k, sc in enumerate(r.lines)) if x]
        ck.add("scenario generation (%s)" % name, r, scenarios=len(r.lines), routine_present=bool(rs))
        for j in range(0, len(rs), 20):
            out.append({"id": "%s-%d" % (name, j), "readings": rs[j:j + 20], "scenario": {"routine": name, "from": j}})
    if out:
        ck.judge("TracePrimitives", "TracePrimitives.cfg", out, lambda c: {"id": c["id"], "readings": c["readings"][:3]})
