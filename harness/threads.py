"""C24: queries that run at the same time (modules Threads, Objects).

Threads take turns at line granularity: each installs a trace function for itself
(sys.settrace) that stops it at the lines of the library until it is its turn, in
the order a behaviour of ScenThreads says.  Each query is recorded as one event when it
ends; the history recorded so has to be a history of module Objects.
"""
import os
import sys
import threading
import warnings
import zlib

import numpy as np

import common
import objects
from common import SEED, arr, generate
from objects import NAMES, Recorder, tok
from scen import size
from systems import classes

LIB = os.path.join(os.path.realpath(common.REPO), "pykalman") + os.sep


class Baton:
    """lets threads on, one at a time, in the turns given"""

    def __init__(self, turns, n):
        self.cond = threading.Condition()
        self.turns = [(t["th"] - 1, t["lines"]) for t in turns]
        self.alive = set(range(n))
        self.ready = set()
        self.now, self.left = None, 0
        self.switches = 0
        self.stuck = False

    def next(self):
        """whose turn it is now; cond is held"""
        while self.turns:
            th, k = self.turns.pop(0)
            if th in self.alive:
                self.switches += self.now is not None and th != self.now
                self.now, self.left = th, k
                break
        else:
            rest = sorted(self.alive)
            if self.now in rest:
                rest = rest[rest.index(self.now) + 1:] + rest[:rest.index(self.now) + 1]
            self.switches += bool(rest) and rest[0] != self.now
            self.now, self.left = (rest[0] if rest else None), 40
        self.cond.notify_all()

    def line(self, me):
        """called by thread me at each line"""
        if self.stuck:
            return
        with self.cond:
            if self.now == me:
                self.left -= 1
                if self.left > 0:
                    return
                self.next()
            while self.now != me and not self.stuck:
                if not self.cond.wait(20):  # whoever is on waits for someone else: let them all go
                    self.stuck = True
                    self.cond.notify_all()

    def enter(self, me):
        with self.cond:
            self.ready.add(me)
            if self.ready == self.alive:
                self.next()
            while self.now != me and not self.stuck:
                if not self.cond.wait(20):
                    self.stuck = True
                    self.cond.notify_all()

    def leave(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.now == me:
                self.next()


class Hooked:
    """a function (given by data) that may make a query of its own"""

    def __init__(self, fn, rec):
        self.fn, self.rec = fn, rec

    def data(self):
        return self.fn.data()

    def __call__(self, *args):
        self.rec.called()
        return self.fn(*args)

    def __deepcopy__(self, memo):
        return self


class Recording:
    """held while something is written down; the thread that holds it is not stopped"""
    here = threading.local()

    def __init__(self):
        self.lock = threading.RLock()

    def __enter__(self):
        self.lock.acquire()
        self.here.n = getattr(self.here, "n", 0) + 1

    def __exit__(self, *exc):
        self.here.n -= 1
        self.lock.release()


class Together(Recorder):
    """a recorder of queries in several threads"""

    def __init__(self, sc, ident, cls):
        self.busy = set()
        self.todo = []
        self.calls = 0
        self.inside = 0
        self.depths = 0
        self.lock = Recording()
        super().__init__(sc, ident, cls)

    def value(self, p, i):
        v = super().value(p, i)
        if p.endswith("functions"):
            return [Hooked(f, self) for f in v] if isinstance(v, list) else Hooked(v, self)
        return v

    def snapshot(self):
        s = super().snapshot()
        for k in list(s):
            if k[0] == "attr" and k[1] in self.busy:
                s[k] = self.last.get(k, s[k])
        return s

    def called(self):
        """a function of the model is being called (by a query)"""
        if self.inside or not self.todo or threading.current_thread() is threading.main_thread() and not self.nesting:
            return
        self.calls += 1
        job = next((j for j in self.todo if j["at"] <= self.calls), None)
        if job is None:
            return
        self.todo.remove(job)
        self.inside += 1
        try:
            self.depths += 1
            self.one(job["query"])
        finally:
            self.inside -= 1

    def one(self, op):
        """a query (or a fit), recorded when it ends"""
        if op["q"] == "fit":
            return self.one_fit(op)
        with self.lock:
            f, key = self.call(self.objs[op["o"]], op)
        parts, data, err, msg = quiet(f)
        with self.lock:
            k = len(self.results)
            names = []
            for i, p in enumerate(parts):
                if isinstance(p, np.ndarray):
                    self.live["%d.%d" % (k, i)] = p
                    names.append("%d.%d" % (k, i))
            self.results.append(names)
            what = "%d.%s(%s) %s" % (op["o"], key["q"], ", ".join(key["args"] + key["extra"]), threading.current_thread().name)
            self.event(what, "query", op["o"], {("live", 0, x) for x in names}, err=err, message=msg, arrays=data,
                       returned=[{"k": x, "v": tok(self.live[x])} for x in names], **key)

    def one_fit(self, op):
        """em on an object no one else uses"""
        o, obj = op["own"], self.objs[op["own"]]
        x, vs = "x%d" % op["x"], sorted(op["vars"])
        with self.lock:
            self.busy.add(o)
        try:
            _, _, err, msg = quiet(lambda: obj.em(self.args[x], n_iter=1, em_vars=list(vs)))
        finally:
            with self.lock:
                self.busy.discard(o)
                data = []
                for p in self.params:
                    v = getattr(obj, p, None)
                    data.append(arr(v) if v is not None else {"shape": [], "data": ["none"]})
                    if p in vs and v is not None and p in objects.COVS:
                        self.attrtok(p, v, "fitted")
                if err:
                    self.failed = "em: %s %s" % (err, msg)
                else:
                    self.event("%d.em(%s) %s" % (o, x, threading.current_thread().name), "fit", o, q="em", args=[x], extra=["1"],
                               arrays=data, fitted=vs, rounds=1)


def quiet(f):
    """as Recorder.run, without touching the (global) warning filters"""
    try:
        with np.errstate(all="ignore"):
            res = f()
    except Exception as e:
        return [], [], type(e).__name__, str(e).replace("\n", " ")[:200]
    parts = list(res) if isinstance(res, tuple) else [res]
    data = []
    for p in parts:
        try:
            data.append(arr(p))
        except Exception:
            data.append({"shape": [], "data": ["unreadable: " + type(p).__name__]})
    return parts, data, "", ""


def tracer(baton, me, rec):
    def local(frame, event, arg):
        if event == "line" and not getattr(Recording.here, "n", 0):
            baton.line(me)
        return local

    def start(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIB) else None
    return start


def worker(baton, me, rec, ops):
    try:
        baton.enter(me)
        for op in ops:
            # recording itself is not to be interrupted: only lines of the library are
            sys.settrace(tracer(baton, me, rec))
            try:
                rec.one(op)
            finally:
                sys.settrace(None)
    except Exception as e:
        rec.failed = "%s: %s" % (type(e).__name__, e)
    finally:
        baton.leave(me)


VARS = [["transition_matrices"], ["observation_covariance", "transition_covariance"], ["initial_state_mean", "initial_state_covariance"],
        ["observation_offsets", "observation_matrices"]]


def history(sc, ident, cls):
    rec = Together(sc, ident, cls)
    rec.failed, rec.nesting = "", False
    fits = not rec.sigma and all(sc["val"][p] != 2 for p in ("transition_covariance", "observation_covariance"))
    rec.construct(1, sc["val"], 1)
    if sc["second"] == "other":
        other = {p: (3 if v == 3 else v if v == 2 else 1 - v) for p, v in sc["val"].items()}
        rec.construct(2, other, 1)
    else:
        rec.copy(1, "shallow" if sc["second"] == "unused" else sc["second"])
    plan = []
    for th in sc["threads"]:
        ops = []
        for op in th:
            op = dict(op)
            if op["q"] == "fit":
                if not fits:
                    op["q"] = "smooth"
                else:
                    op["own"], op["vars"] = rec.copy(op["o"], "deep"), VARS[op["x"]]
            ops.append(op)
        plan.append(ops)
    # all at the same time
    rec.todo = [dict(j) for j in sc["nested"]] if rec.r.random() < 0.5 else []
    baton = Baton(sc["turns"], len(plan))
    ts = [threading.Thread(target=worker, args=(baton, i, rec, ops), name="in thread %d" % (i + 1), daemon=True) for i, ops in enumerate(plan)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
        if t.is_alive():
            rec.failed = "a thread does not end"
    rec.todo, rec.inside = [], 0
    # one within another
    if rec.sigma and not rec.failed:
        rec.calls, rec.nesting = 0, True
        rec.todo = [dict(j) for j in sc["nested"]]
        for ops in plan:
            for op in ops:
                rec.one(op)
        rec.todo, rec.nesting = [], False
    # and each by itself, on another object of the same values
    alone = {o: rec.copy(o, "rebuild") for o in (1, 2)}
    for ops in plan + [[j["query"] for j in sc["nested"]]]:
        for op in ops:
            if op["q"] == "fit":
                rec.one(dict(op, own=rec.copy(alone[op["o"]], "deep")))
            else:
                rec.one(dict(op, o=alone[op["o"]]))
    rec.switches = baton.switches
    rec.stuck = baton.stuck
    return rec


CFG = """SPECIFICATION Spec
CONSTANTS Families = {"%s"} Turns = %d Lines = {%s}
CONSTANT Dims <- DimsAll
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION Spec
CONSTANTS Workers = {%s} PerThread = %d Where = "%s"
CONSTANT Agrees <- Same
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""


def c24(ck):
    for w, k in size([("1, 2", 2), ("1, 2, 3", 1)], [("1, 2", 3), ("1, 2, 3", 1)]):
        ck.design("MCThreads", MC % (w, k, "call", "ReturnsAlone EndPossible MemoIsFunction", "PROPERTY IsObjects"))
    for where in ("object", "module"):  # not vacuous: shared registers are found out
        r = common.tlc("MCThreads", MC % ("1, 2", 1, where, "ReturnsAlone", ""))
        if "ReturnsAlone" not in r.violated:
            raise common.MachineryError("MCThreads accepts registers shared in the %s:\n%s" % (where, r.out[-1000:]))
        ck.add("MCThreads with registers kept in the %s: refuted, as it has to be" % where, r)
    ck.assumptions = ["TLC 1.8", "values of arrays and generators are identified by digests",
                      "threads are switched between lines of the library (not within a line)"]
    recs = []
    far, near = "1, 2, 3, 4, 6, 10, 25, 60, 150", "1, 2, 3, 5, 9"
    for fam, count, turns, lines in [(f, size(50, 500), t, l) for f in NAMES for t, l in ((16, far), (48, near))]:
        salt = zlib.crc32(("threads/%s/%d" % (fam, turns)).encode()) % 100000
        r = generate("ScenThreads", CFG % (fam, turns, lines), count, depth=40 + turns, seed=SEED * 100003 + salt)
        ck.add("scenario generation (%s, %d turns)" % (fam, turns), r, scenarios=len(r.lines))
        for i, sc in enumerate(r.lines):
            cls = NAMES[fam][i % len(NAMES[fam])]
            np.random.seed(i)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                recs.append(history(sc, "threads-%s-%d-%d" % (cls, turns, i), cls))
    cut = [r.id + ": " + r.failed for r in recs if r.failed]
    ck.parts.append({"part": "recording", "histories": len(recs), "events": sum(len(r.events) for r in recs), "ended_early": cut[:5],
                     "switches": sum(r.switches for r in recs), "queries_within_queries": sum(r.depths for r in recs),
                     "scheduled_freely": sum(r.stuck for r in recs)})
    ck.judge("TraceObjects", "TraceObjects.cfg", [r.case() for r in recs], lambda c: c)
