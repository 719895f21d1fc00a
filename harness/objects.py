"""C12, C20, C21: histories of operations on filter objects, against module Objects."""
import copy
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile
import warnings
import zlib

import numpy as np

import common
from common import SEED, MachineryError, arr, generate, num
import models
import nonlinear
from scen import size
from systems import LINEAR, SIGMA, classes

COVS = ["transition_covariance", "observation_covariance", "initial_state_covariance"]
LPARAMS = models.ORDER
SPARAMS = ["transition_functions", "observation_functions", "transition_covariance", "observation_covariance",
           "initial_state_mean", "initial_state_covariance"]
TWO = {"transition_matrices", "observation_matrices"} | set(COVS)
UPDATE = {"transition_matrices": "transition_matrix", "transition_offsets": "transition_offset",
          "transition_covariance": "transition_covariance", "observation_matrices": "observation_matrix",
          "observation_offsets": "observation_offset", "observation_covariance": "observation_covariance",
          "transition_functions": "transition_function", "observation_functions": "observation_function"}
T = 4
NONE = {"__none__": True}


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
    return h.hexdigest()[:16]


def tok(x):
    """the value of an array, as a token"""
    if isinstance(x, np.ma.MaskedArray):
        # what lies under the mask is part of the array's value
        return sha(x.shape, np.ma.getmaskarray(x).tobytes(), np.ma.getdata(x).astype(float).tobytes())
    x = np.asarray(x)
    if x.dtype == object:
        return sha("object", repr(x))
    x = x.astype(float) + 0.0
    return sha(x.shape, x.tobytes())


def gentok(g):
    s = g.get_state()
    return sha(s[1].tobytes(), s[2])


# settings of the process, which belong to the caller like the arrays
SETTINGS = "process settings"


def unheard(*args):
    pass


def settings():
    return {"floating point errors": (np.geterr(), np.geterrcall()), "printing": {k: str(v) for k, v in np.get_printoptions().items()},
            "warnings": list(warnings.filters)}


class Recorder:
    """one history on real objects"""

    def __init__(self, sc, ident, cls):
        self.sc, self.id, self.cls = sc, ident, cls
        self.n, self.m = sc["n"], sc["m"]
        self.sigma = cls in SIGMA
        self.params = SPARAMS if self.sigma else LPARAMS
        self.rnd = models.Numbers("%s/%s" % (SEED, ident), "generic")
        self.r = self.rnd.r
        self.forms, self.gens = {"none": "none"}, {}
        self.emsets = {"none": sorted(COVS + ["initial_state_mean"])}
        self.pool = {p: {i: self.value(p, i) for i in (0, 1, 2)} for p in self.params}
        for p in COVS:
            k = self.n if p != "observation_covariance" else self.m
            M = self.rnd.cov(k)
            i = self.r.randrange(k)
            M[i, i] = -1.0
            self.pool[p][4] = M
        self.settings = "as before"
        self.objs, self.events, self.results = {}, [], []
        self.args = {}
        self.versions = {}
        for x, L in ((1, T), (2, T), (3, 3)):
            self.versions["x%d" % x] = [self.observations(x, L) for _ in range(2)]
            self.args["x%d" % x] = self.versions["x%d" % x][0].copy()
        for i in range(3):
            self.args["m%d" % i] = self.rnd.vector(self.n)
            self.args["c%d" % i] = self.rnd.cov(self.n)
            y = self.rnd.vector(self.m)
            if i == 1:
                y = np.ma.array(y, mask=[j == 0 for j in range(self.m)])
            self.args["y%d" % i] = y
        for p in self.params:
            if p in UPDATE and not p.endswith("functions"):
                for i in range(3):
                    self.args["%s.%d" % (p, i)] = np.array(self.pool[p][2][i])
        self.live = {}
        self.last = self.snapshot()
        self.start = dict(self.last)

    # ------------------------------------------------------------ values
    def value(self, p, i):
        n, m, rnd = self.n, self.m, self.rnd
        if p.endswith("functions"):
            k = n if p[0] == "t" else m
            f = lambda: nonlinear.function(self.r, k, n, "quadratic" if self.r.random() < 0.5 else "affine", self.cls == "UKF")
            if i == 2:
                return [f() for _ in range(T - (p[0] == "t"))]
            return f()

        def one():
            return {"transition_matrices": lambda: rnd.transition(n), "transition_offsets": lambda: rnd.vector(n),
                    "observation_matrices": lambda: rnd.matrix(m, n), "observation_offsets": lambda: rnd.vector(m),
                    "transition_covariance": lambda: rnd.cov(n), "observation_covariance": lambda: rnd.cov(m),
                    "initial_state_mean": lambda: rnd.vector(n), "initial_state_covariance": lambda: rnd.cov(n)}[p]()
        if i == 2:
            return np.array([one() for _ in range(T - (p[0] == "t"))])
        return one()

    def observations(self, x, L):
        X = np.array([self.rnd.vector(self.m) for _ in range(L)])
        if x == 1:
            return X
        mask = np.zeros(X.shape, bool)
        if x == 2:
            mask[self.r.randrange(L)] = True
            if self.m > 1 and self.r.random() < 0.5:
                mask[self.r.randrange(L), 0] = True
        return np.ma.array(X, mask=mask)

    def get(self, p, i):
        if i == 3 and p == "observation_functions" and self.n != self.m:
            i = 0
        if i == 3:
            return None
        v = self.pool[p][i]
        return copy.deepcopy(v)

    def seed(self, s):
        if s == 0:
            return None
        if s == 1:
            return self.r.choice([0, self.r.randrange(10 ** 6), np.int64(self.r.randrange(10 ** 6))])
        if s == 2:
            return np.random.RandomState(self.r.randrange(10 ** 6))
        return self.r.choice(["abc", 1.5, 3.0, np.float64(self.r.randrange(10)), [1, 2], object, np.random.default_rng(3), -1, 2 ** 40, (), {}])

    # ------------------------------------------------------------ tokens
    def attrtok(self, p, v, form=None):
        if p == "random_state":
            if v is None:
                return "none"
            if isinstance(v, np.random.RandomState):
                g = gentok(v)
                t, f = "gen:" + g, "gen"
                self.gens[t] = g
            elif (type(v) is int or isinstance(v, np.integer)) and 0 <= v < 2 ** 32:
                t, f = "int:%d" % v, "int"
                self.gens[t] = gentok(np.random.RandomState(v))
            else:
                t, f = "bad:" + repr(v)[:40].split(" at ")[0], "bad"
            self.forms[t] = f
            return t
        if v is None:
            return "none"
        try:
            if p.endswith("functions"):
                fs = list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v]
                t = sha(json.dumps([f.data() for f in fs]))
                f = "tv" if len(fs) > 1 else "const"
            elif p in ("n_dim_state", "n_dim_obs"):
                t, f = "%d" % v, "const"
            elif p == "em_vars":
                t, f = "all" if isinstance(v, str) and v == "all" else "%s %s" % (type(v).__name__, " ".join(sorted(v))), "const"
            else:
                a = np.atleast_2d(v) if p in TWO else np.atleast_1d(v)
                t = tok(a)
                f = "tv" if a.ndim > (2 if p in TWO else 1) else "const"
                if f == "const" and p in COVS and a.dtype.kind in "fi" and np.diagonal(a).min() < 0:
                    f = "indefinite"
        except Exception as e:
            t, f = "unreadable: %s %s" % (type(e).__name__, str(type(v))), "const"
        t = p + ":" + t
        if form:
            f = form
        self.forms.setdefault(t, f)
        return t

    def attributes(self):
        return list(self.params) + ["random_state", "n_dim_state", "n_dim_obs"] + ([] if self.sigma else ["em_vars"])

    def snapshot(self):
        s = {}
        for o, obj in self.objs.items():
            for p in self.attributes():
                s["attr", o, p] = self.attrtok(p, getattr(obj, p, None))
        for x, a in self.args.items():
            s["arg", 0, x] = tok(a)
        for k, a in self.live.items():
            s["live", 0, k] = tok(a)
        s["arg", 0, SETTINGS] = self.settings
        s["global", 0, ""] = gentok(np.random.mtrand._rand)
        return s

    def event(self, what, op, o, new_live=(), **kw):
        now = self.snapshot()
        delta = [{"w": k[0], "o": k[1], "a": k[2], "v": v} for k, v in now.items()
                 if k not in new_live and self.last.get(k) != v]
        self.last = now
        e = dict(what=what, op=op, o=o, q="", args=[], extra=[], given=True, seed="", wrong="", unseen=False, err="", message="",
                 arrays=[], returned=[], a="", v="", how="", delta=delta, fitted=[], rounds=0)
        e["from"] = 0
        e.update(kw)
        self.events.append(e)
        return e

    # -------------------------------------------------------- operations
    def emvars(self, em):
        """a value of the attribute em_vars"""
        v = None if em["as"] == "none" else "all" if em["as"] == "all" else {"tuple": tuple, "list": list, "set": set}[em["as"]](sorted(em["vars"]))
        self.emsets[self.attrtok("em_vars", v)] = sorted(em["vars"])
        return v

    def construct(self, o, val, rs, em=None):
        kw = {p: self.get(p, val[p]) for p in self.params}
        kw = {p: v for p, v in kw.items() if v is not None}
        kw["n_dim_state"], kw["n_dim_obs"] = self.n, self.m
        if em and em["as"] != "none":
            kw["em_vars"] = self.emvars(em)
        g = self.seed(rs)
        if g is not None:
            kw["random_state"] = g
        given = [{"k": p, "v": self.attrtok(p, kw.get(p))} for p in self.attributes()]
        obj = classes()[self.cls](**kw)
        self.objs[o] = obj
        self.event("%s(%s)" % (self.cls, ", ".join("%s=%d" % (p, val[p]) for p in self.params)), "construct", o, given=given)

    def perstep(self, obj, p):
        v = getattr(obj, p, None)
        if v is None:
            return False
        if p.endswith("functions"):
            return isinstance(v, (list, tuple, np.ndarray)) and len(v) > 1
        return np.ndim(v) > (2 if p in TWO else 1)

    def call(self, obj, op, wrong=""):
        """(function to call, recorded key) of a query"""
        q = op["q"]
        key = dict(q=q, args=[], extra=[], given=True, seed="", unseen=False)
        if q in ("filter", "smooth", "loglikelihood"):
            x = "x%d" % op["x"]
            X = self.args[x]
            key["args"] = [x]
            if wrong in ("wide", "narrow"):
                X = self.misfit(X, wrong)
                key["args"], key["extra"] = [], [wrong, tok(X)]
                key["unseen"] = bool(np.ma.getmaskarray(X).any(axis=1).all())
            return (lambda: getattr(obj, q)(X)), key
        if q == "filter_update":
            b, s = op["b"], op["s"]
            mean, cov = self.args["m%d" % b], self.args["c%d" % b]
            key["args"] = ["m%d" % b, "c%d" % b]
            kw = {}
            if op["x"] == 3 and s == 0 and not wrong:
                key["extra"].append("missing")
            else:
                y = "y%d" % (op["x"] - 1)
                kw["observation"] = self.args[y]
                if wrong in ("wide", "narrow"):
                    kw["observation"] = self.misfit(self.args[y], wrong)
                    key["extra"] += [wrong, tok(kw["observation"])]
                    key["unseen"] = bool(np.ma.getmaskarray(kw["observation"]).any())
                else:
                    key["args"].append(y)
            if wrong == "indefinite belief":
                cov = self.pool["initial_state_covariance"][4].copy()
                key["args"], key["extra"] = key["args"][:1] + key["args"][2:], key["extra"] + [tok(cov)]
            varying = [p for p in self.params if p in UPDATE and self.perstep(obj, p)]
            key["given"] = bool(op["given"])
            if op["given"]:
                for p in varying:
                    if p.endswith("functions"):
                        kw[UPDATE[p]] = getattr(obj, p)[s]
                        key["extra"].append("%s.%d" % (p, s))
                    else:
                        kw[UPDATE[p]] = self.args["%s.%d" % (p, s)]
                        key["args"].append("%s.%d" % (p, s))
            else:
                key["extra"].append("not given")
            return (lambda: obj.filter_update(mean, cov, **kw)), key
        # sample
        kw = {"n_timesteps": 1 + (op["x"] + op["b"]) % 3}
        key["extra"].append(str(kw["n_timesteps"]))
        if op["x"] == 2:
            kw["initial_state"] = self.args["m%d" % op["b"]]
            key["args"].append("m%d" % op["b"])
        if wrong == "badseed":
            kw["random_state"] = self.seed(3)
            key["seed"] = "bad"
        elif op["s"] == 1:
            kw["random_state"] = 11 * (op["b"] % 2)
            key["seed"] = gentok(np.random.RandomState(kw["random_state"]))
        elif op["s"] == 2:
            kw["random_state"] = np.random.RandomState(11 + op["b"])
            key["seed"] = gentok(kw["random_state"])
        return (lambda: obj.sample(**kw)), key

    def misfit(self, X, wrong):
        if wrong == "wide":
            return np.ma.concatenate([X, X[..., :1]], axis=-1) if isinstance(X, np.ma.MaskedArray) else np.concatenate([X, X[..., :1]], axis=-1)
        return X[..., :-1].copy()

    def run(self, f):
        """(arrays returned, what they are as data, error class, message)"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                # neither of the settings that someone would want to have
                with np.errstate(all="call", call=unheard):
                    was = settings()
                    try:
                        res = f()
                    finally:
                        if settings() != was:
                            self.settings = "changed: " + " ".join(sorted(k for k, v in settings().items() if v != was[k]))
        except Exception as e:
            return [], [], type(e).__name__, str(e).replace("\n", " ")[:200]
        parts = list(res) if isinstance(res, tuple) else [res]
        data = []
        for p in parts:
            try:
                data.append(arr(p))
            except Exception as e:
                data.append({"shape": [], "data": ["unreadable: " + type(p).__name__]})
        return parts, data, "", ""

    def query(self, op, wrong=""):
        o = op["o"]
        f, key = self.call(self.objs[o], op, wrong)
        parts, data, err, msg = self.run(f)
        k = len(self.results)
        names = []
        if not wrong:
            for i, p in enumerate(parts):
                if isinstance(p, np.ndarray):
                    self.live["%d.%d" % (k, i)] = p
                    names.append("%d.%d" % (k, i))
            self.results.append(names)
        what = "%d.%s(%s)%s" % (o, key["q"], ", ".join(key["args"] + key["extra"] + ([key["seed"]] if key["seed"] else [])), " " + wrong if wrong else "")
        new = {("live", 0, x) for x in names}
        self.event(what, "query", o, new, err=err, message=msg, arrays=data, wrong=wrong,
                   returned=[{"k": x, "v": tok(self.live[x])} for x in names], **key)

    def do(self, op):
        k, o = op["op"], op.get("o")
        obj = self.objs.get(o)
        if k == "construct":
            self.construct(o, op["val"], op["rs"], op["em"])
        elif k == "em_vars":
            v = self.emvars(op["em"])
            obj.em_vars = v
            self.event("%d.em_vars = %r" % (o, v), "assign", o, a="em_vars", v=self.attrtok("em_vars", v))
        elif k == "query":
            self.query(op)
        elif k == "wrong":
            w, q = op["w"], op["q"]
            if w == "badseed":
                q = "sample"
            if w == "indefinite belief":
                q = "filter_update"
            if q == "sample" and w != "badseed" or w == "narrow" and self.m == 1:
                return
            s = op["s"]
            self.query({"o": o, "q": q, "x": 1 + s % 3, "b": (s + 1) % 3, "s": s % 3, "given": True}, w)
        elif k == "assign":
            v = self.get(op["a"], op["v"])
            setattr(obj, op["a"], v)
            self.event("%d.%s = #%d" % (o, op["a"], op["v"]), "assign", o, a=op["a"], v=self.attrtok(op["a"], v))
        elif k == "poke":
            v = getattr(obj, op["a"])
            w = self.get(op["a"], op["v"])
            if not isinstance(v, np.ndarray) or v.shape != w.shape or not v.flags.writeable:
                return
            v[...] = w
            self.event("%d.%s[...] = #%d" % (o, op["a"], op["v"]), "poke", o, a=op["a"], v=self.attrtok(op["a"], w))
        elif k == "reseed":
            v = self.seed(op["s"])
            obj.random_state = v
            self.event("%d.random_state = %r" % (o, v), "assign", o, a="random_state", v=self.attrtok("random_state", v))
        elif k == "fit":
            self.fit(op)
        elif k == "scribble":
            for x in self.results[op["r"] - 1] if op["r"] <= len(self.results) else []:
                a = self.live[x]
                if a.flags.writeable and a.size:
                    a[...] = 3.25 + len(self.events)
                    self.event("result %s[...] = junk" % x, "scribble", 0, a=x, v=self.last_token(x, a))
        elif k == "rewrite":
            x = "x%d" % op["x"]
            new = self.versions[x][op["v"]]
            if isinstance(new, np.ma.MaskedArray):
                self.args[x].mask = False
                self.args[x][...] = np.ma.getdata(new)
                self.args[x].mask = np.ma.getmaskarray(new)
            else:
                self.args[x][...] = new
            self.event("%s[...] = #%d" % (x, op["v"]), "rewrite", 0, a=x, v=tok(new))
        elif k == "copy":
            self.copy(o, op["how"])
        else:
            raise MachineryError("unknown operation %s" % k)

    def poke_all(self, o):
        """other values into every parameter array that is this object's alone"""
        n = 0
        for a in self.params:
            v = getattr(self.objs[o], a, None)
            if not isinstance(v, np.ndarray) or v.dtype == object:
                continue
            if any(isinstance(getattr(q, a, None), np.ndarray) and np.shares_memory(getattr(q, a), v) for p, q in self.objs.items() if p != o):
                continue
            i = next((i for i in (0, 1) if self.pool[a][i].shape == v.shape and tok(self.pool[a][i]) != tok(v)), None)
            if i is not None:
                self.do({"op": "poke", "o": o, "a": a, "v": i})
                n += 1
        return n

    def last_token(self, x, a):
        """token of an array that holds the junk just written everywhere"""
        junk = np.ma.array(np.full(a.shape, 3.25 + len(self.events)), mask=False) if isinstance(a, np.ma.MaskedArray) \
            else np.full(a.shape, 3.25 + len(self.events))
        return tok(junk)

    def fit(self, op):
        o, obj = op["o"], self.objs[op["o"]]
        x, vs = "x%d" % op["x"], sorted(op["vars"])
        known = set(self.forms)
        kw = {"em_vars": list(vs)} if vs else {}
        _, _, err, msg = self.run(lambda: obj.em(self.args[x], n_iter=op["k"], **kw))
        if err:
            raise Abandon("em: %s %s" % (err, msg))
        data = []
        for p in self.params:
            v = getattr(obj, p, None)
            data.append(arr(v) if v is not None else {"shape": [], "data": ["none"]})
            if p in COVS and op["k"] and v is not None and not np.array_equal(v, np.eye(len(v))):
                t = self.attrtok(p, v)
                if t not in known:
                    self.forms[t] = "fitted"
        self.event("%d.em(%s, n_iter=%d, em_vars=%s)" % (o, x, op["k"], ",".join(vs)), "fit", o, q="em", args=[x],
                   extra=[str(op["k"])], arrays=data, fitted=vs, given=bool(vs), rounds=op["k"])

    def fresh(self, obj):
        """an object constructed with the values of another"""
        kw = {}
        for p in self.attributes():
            v = copy.deepcopy(getattr(obj, p, None))
            if v is not None:
                kw[p] = v
        return classes()[self.cls](**kw)

    def copy(self, o, how):
        obj, p = self.objs[o], max(self.objs) + 1
        f = {"shallow": lambda: copy.copy(obj), "deep": lambda: copy.deepcopy(obj),
             "pickle": lambda: pickle.loads(pickle.dumps(obj, protocol=self.r.choice([0, 2, pickle.HIGHEST_PROTOCOL]))),
             "rebuild": lambda: self.fresh(obj)}[how]
        try:
            self.objs[p] = f()
        except Exception as e:
            bad = getattr(obj, "random_state", None)
            self.objs[p] = Broken("%s copy: %s: %s" % (how, type(e).__name__, e))
            if isinstance(bad, type) or type(bad).__name__ == "Generator":
                # (cannot be pickled)
                try:
                    self.objs[p] = self.fresh(obj)
                except Exception:
                    pass
        self.event("%d = %s copy of %d" % (p, how, o), "copy", p, how=how, **{"from": o})
        return p

    # ------------------------------------------------------------ closing
    def short(self, o):
        """a parameter given for each of one single step is one given per time step, too"""
        p = self.copy(o, "deep")
        for a in self.r.sample([a for a in self.params if a in UPDATE], 2):
            v = np.array(self.pool[a][2][:1])
            w = getattr(self.objs[p], a, None)
            setattr(self.objs[p], a, v)
            self.event("%d.%s = for one step" % (p, a), "assign", p, a=a, v=self.attrtok(a, v))
            for s in (0, 1):
                self.query({"o": p, "q": "filter_update", "x": 1 + s, "b": s, "s": s, "given": False})
            setattr(self.objs[p], a, w)
            self.event("%d.%s = as before" % (p, a), "assign", p, a=a, v=self.attrtok(a, w))

    def closing(self, child, short=False):
        """rebuilt objects, and the objects in another process, answer as the objects do"""
        ops = [{"q": "filter", "x": 1}, {"q": "smooth", "x": 2}, {"q": "filter_update", "x": 1, "b": 0, "s": 1, "given": True},
               {"q": "filter_update", "x": 3, "b": 1, "s": 0, "given": True}, {"q": "sample", "x": 2, "b": 1, "s": 1}]
        if not self.sigma:
            ops += [{"q": "loglikelihood", "x": 3}, {"q": "loglikelihood", "x": 2}]
        ops = [dict({"b": 0, "s": 0, "given": True}, **op) for op in ops]
        for o in sorted(self.objs)[-2:]:
            for op in ops:
                self.query(dict(op, o=o))
            # the same once more after its arrays have been written to
            if self.poke_all(o):
                for op in ops:
                    self.query(dict(op, o=o))
            p = self.copy(o, "rebuild")
            for op in ops:
                self.query(dict(op, o=p))
        if short and not self.sigma:
            self.short(min(self.objs))
        if child:
            o = sorted(self.objs)[0] if self.r.random() < 0.5 else sorted(self.objs)[-1]
            return o, ops

    def case(self, tol="1e-8"):
        start = self.start
        d = []
        eye = {"transition_matrices": np.eye(self.n), "observation_matrices": np.eye(self.m, self.n), "transition_covariance": np.eye(self.n),
               "observation_covariance": np.eye(self.m), "initial_state_covariance": np.eye(self.n), "initial_state_mean": np.zeros(self.n),
               "transition_offsets": np.zeros(self.n), "observation_offsets": np.zeros(self.m)}
        for p in self.params:
            if p in eye:
                d.append({"k": p, "v": self.attrtok(p, eye[p])})
        return {"id": self.id, "tol": tol, "class": self.cls, "events": self.events, "forms": self.forms, "gens": dict(self.gens, none="none"),
                "emvars": self.emsets,
                "defaults": d, "args": [{"k": k[2], "v": v} for k, v in start.items() if k[0] == "arg"],
                "global": start["global", 0, ""], "scenario": self.sc}


class Broken:
    def __init__(self, why):
        self.why = why

    def __getattr__(self, name):
        raise AttributeError(self.__dict__.get("why", ""))


class Abandon(Exception):
    pass


def child_main(path_in, path_out):
    """in another process: unpickle the object of each job and answer the queries"""
    with open(path_in, "rb") as f:
        jobs = pickle.load(f)
    out = []
    for blob, state in jobs:
        rec = Recorder.__new__(Recorder)
        rec.__dict__.update(state["rec"])
        res = {"events": []}
        try:
            rec.objs = {state["new"]: pickle.loads(blob)}
        except Exception as e:
            rec.objs = {state["new"]: Broken("unpickling: %s: %s" % (type(e).__name__, e))}
        rec.events, rec.live, rec.results = [], {}, []
        rec.last = {k: v for k, v in rec.snapshot().items() if k[0] != "attr"}
        rec.event("%d = %d pickled, and unpickled in another process" % (state["new"], state["o"]), "copy", state["new"], how="pickle", **{"from": state["o"]})
        for op in state["ops"]:
            rec.query(dict(op, o=state["new"]))
        # what was returned there is of no interest here
        for e in rec.events:
            e["returned"] = []
            e["delta"] = [d for d in e["delta"] if d["w"] in ("attr", "arg")]
        out.append((rec.events, rec.forms, rec.gens))
    with open(path_out, "wb") as f:
        pickle.dump(out, f)


def elsewhere(recs):
    """recs: [(recorder, (object, queries))]; appends what another process makes of the pickled objects"""
    jobs, whose = [], []
    for rec, job in recs:
        o, ops = job
        try:
            blob = pickle.dumps(rec.objs[o])
        except Exception:
            if isinstance(getattr(rec.objs[o], "random_state", None), type):
                continue
            blob = b""
        st = {k: rec.__dict__[k] for k in ("sc", "id", "cls", "n", "m", "sigma", "params", "rnd", "r", "forms", "gens", "emsets", "pool", "args", "versions", "settings")}
        jobs.append((blob, {"rec": st, "new": max(rec.objs) + 1, "o": o, "ops": ops}))
        whose.append(rec)
    d = tempfile.mkdtemp(prefix="child")
    a, b = os.path.join(d, "in"), os.path.join(d, "out")
    try:
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or not os.path.exists(b):
            raise MachineryError("child process: " + p.stdout[-2000:])
        with open(b, "rb") as f:
            for rec, (events, forms, gens) in zip(whose, pickle.load(f)):
                rec.events += events
                rec.forms.update(forms)
                rec.gens.update(gens)
    finally:
        for x in (a, b):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)


CFG = """SPECIFICATION Spec
CONSTANTS Families = {%s} Length = %d MaxObjects = %d Mix = "%s"
CONSTANT Dims <- DimsAll
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION Spec
CONSTANTS Steps = %d
CONSTANT Agrees <- Same
INVARIANTS MemoIsFunction QueriesPossible EqualObjectsEqualResults
PROPERTIES IsolationAlways PureAlways DrawPureAlways DeepSharesAlways ReturnedStaysAlways
CHECK_DEADLOCK FALSE
"""
NAMES = {"linear": ["KF"], "square": ["CKF", "BKF"], "sigma": list(SIGMA)}


def histories(ck, mix, plan):
    recs, jobs = [], []
    for fam, length, count, objects in plan:
        salt = zlib.crc32(("%s/%s/%d" % (mix, fam, length)).encode()) % 100000
        r = generate("ScenObjects", CFG % ('"%s"' % fam, length, objects, mix), count, depth=3 * length + 60, seed=SEED * 100003 + salt)
        ck.add("scenario generation (%s, %s)" % (mix, fam), r, scenarios=len(r.lines))
        for i, sc in enumerate(r.lines):
            cls = NAMES[fam][i % len(NAMES[fam])]
            np.random.seed(i)
            rec = Recorder(sc, "%s-%s-%d-%d" % (mix, cls, length, i), cls)
            try:
                for op in sc["ops"]:
                    rec.do(op)
                job = rec.closing(i % 2 == 0, mix == "misuse")
                if job:
                    jobs.append((rec, job))
            except Abandon as e:
                rec.abandoned = str(e)
            recs.append(rec)
    elsewhere(jobs)
    ab = [r for r in recs if hasattr(r, "abandoned")]
    ck.parts.append({"part": "recording", "histories": len(recs), "events": sum(len(r.events) for r in recs), "ended_early": len(ab),
                     "continued_in_another_process": len(jobs)})
    return recs


def check(ck, mix, plan):
    ck.design("MCObjects", MC % size(4, 5))
    ck.assumptions = ["TLC 1.8", "values of arrays and generators are identified by digests",
                      "attributes looked at: the documented ones"]
    ck.judge("TraceObjects", "TraceObjects.cfg", [r.case() for r in histories(ck, mix, plan)], lambda c: c)


def c12(ck):
    check(ck, "purity", [("linear", 24, size(60, 600), 3), ("square", 24, size(60, 600), 3), ("sigma", 24, size(60, 600), 3),
                         ("linear", 80, size(4, 40), 3)])


def c20(ck):
    check(ck, "copying", [("linear", 20, size(50, 500), 5), ("square", 20, size(60, 600), 5), ("sigma", 20, size(60, 600), 5)])


def c21(ck):
    import config
    config.contradictions(ck, size(500, 5000))
    check(ck, "misuse", [("linear", 24, size(60, 600), 3), ("square", 24, size(80, 800), 3), ("sigma", 24, size(90, 900), 3)])


if __name__ == "__main__":
    child_main(sys.argv[1], sys.argv[2])
