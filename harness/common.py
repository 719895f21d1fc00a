"""Shared parts of the drivers: running TLC, recording results, verdicts, evidence.

Nothing in here (or in any driver) computes an expected value: drivers run the real
code and write down what it returned; the TLA+ modules in ../spec judge it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
REPO = os.environ.get("VERIF_REPO", "/repo")  # set during development only, to try planted bugs on a copy
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")


class MachineryError(Exception):
    pass


def ensure_java():
    cls = os.path.join(BUILD, "classes", "kf", "RatOps.class")
    src = [os.path.join(VERIF, "java", "kf", f) for f in sorted(os.listdir(os.path.join(VERIF, "java", "kf")))]
    if os.path.exists(cls) and all(os.path.getmtime(cls) >= os.path.getmtime(s) for s in src):
        return
    out = os.path.join(BUILD, "classes")
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="classes", dir=BUILD)
    subprocess.run(["javac", "-cp", JAR, "-d", tmp] + src, check=True)
    os.makedirs(os.path.join(out, "kf"), exist_ok=True)
    for f in os.listdir(os.path.join(tmp, "kf")):
        os.replace(os.path.join(tmp, "kf", f), os.path.join(out, "kf", f))
    shutil.rmtree(tmp)


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated, self.distinct = (
            tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        )
        if not m:
            m = re.findall(r"The number of states generated: (\d[\d,]*)", out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(",", ""))
        self.lines = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.lines.append(json.loads(json.loads(line)[2:]))
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal properties?) ?(\S*) (?:is|was|were) violated", out)


def tlc(module, cfg, args=(), env=None, workers=8, heap="6g", timeout=840):
    """Run TLC on spec/<module>.tla; cfg is a file in spec/ or the text of a configuration."""
    ensure_java()
    work = tempfile.mkdtemp(prefix="tlc")
    try:
        if "\n" in cfg:
            path = os.path.join(work, "run.cfg")
            with open(path, "w") as f:
                f.write(cfg)
        else:
            path = os.path.join(SPEC, cfg)
        cmd = ["timeout", str(timeout), "java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:kf.Overrides",
               "-cp", ":".join([JAR, CM, os.path.join(BUILD, "classes")]), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE",
               "-config", path] + list(args) + [module + ".tla"]
        t0 = time.time()
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return TlcResult(p.stdout, p.returncode, time.time() - t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def generate(module, cfg, num, depth=200, seed=None):
    """Behaviours of a scenario module, as printed by it (deterministic in the seed)."""
    r = tlc(module, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED if seed is None else seed)],
            workers=1, heap="2g")
    if not r.lines:
        raise MachineryError("no scenarios from %s:\n%s" % (module, r.out[-3000:]))
    return r


def enumerate_all(module, cfg):
    """All behaviours of a (finite) scenario module."""
    r = tlc(module, cfg, heap="4g")
    if r.rc != 0 or not r.lines:
        raise MachineryError("no scenarios from %s:\n%s" % (module, r.out[-3000:]))
    r.lines.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return r


def model_check(module, cfg, args=(), **kw):
    """Exhaustive check of a design-level configuration: must pass."""
    r = tlc(module, cfg, args, **kw)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise MachineryError("model check of %s failed:\n%s" % (module, r.out[-1800:]))
    return r


def validate(module, cfg, cases, timeout=840):
    """Trace validation: returns (verdicts by case id, TlcResult)."""
    fd, path = tempfile.mkstemp(prefix="trace", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        r = tlc(module, cfg, env={"VTRACE": path}, timeout=timeout, heap="10g")
        if r.rc != 0 and r.wall < 300:  # TLC itself failed: not an answer
            r = tlc(module, cfg, env={"VTRACE": path}, timeout=timeout, heap="10g")
    finally:
        os.unlink(path)
    verdicts = {v["case"]: v["bad"] for v in r.lines}
    r.gaveup = sum(1 for v in r.lines if v.get("gaveup"))
    if r.rc != 0 or len(verdicts) != len(cases) or set(verdicts) != {c["id"] for c in cases}:
        keep = os.path.join(BUILD, "failed-" + module + ".ndjson")
        os.makedirs(BUILD, exist_ok=True)
        with open(keep, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        raise MachineryError("trace validation %s: rc %d, %d verdicts for %d cases (%s)\n%s"
                             % (module, r.rc, len(verdicts), len(cases), keep, r.out[:2500] + "\n...\n" + r.out[-1000:]))
    return verdicts, r


# ---------------------------------------------------------------- recording

def num(x):
    if x is np.ma.masked:
        return "masked"
    try:
        x = float(x)
    except Exception as e:  # complex numbers, objects: not a number
        return "not a number: " + type(e).__name__
    return repr(x)


def arr(x):
    """A returned array, as data for module Compare."""
    if isinstance(x, np.ma.MaskedArray) and np.ma.getmaskarray(x).any():
        mask = np.ma.getmaskarray(x)
        flat = ["masked" if m else num(v) for v, m in zip(np.ma.getdata(x).ravel(), mask.ravel())]
        return {"shape": list(x.shape), "data": flat}
    a = np.asarray(x)
    return {"shape": list(a.shape), "data": [num(v) for v in a.ravel()]}


NOARR = {"shape": [], "data": []}


def nums(a):
    """A parameter as handed to the real code -> nested numerals."""
    a = np.asarray(a)
    if a.ndim == 0:
        return num(a)
    return [nums(v) for v in a]


def attempt(f, *args, **kw):
    """(result, "") or (None, what was raised)."""
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return f(*args, **kw), ""
    except Exception as e:
        return None, ("%s: %s" % (type(e).__name__, e)).replace("\n", " ")[:300] or "error"


# ------------------------------------------------------------------ verdicts

class Check:
    """One run of the check of one property."""

    def __init__(self, prop, technique):
        self.prop, self.technique = prop, technique
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.readings = 0
        self.samples, self.parts, self.failures = [], [], []
        self.assumptions = []
        self.exhaustive = False

    def add(self, name, r, **kw):
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append(dict(part=name, states=r.distinct, transitions=r.generated, wall_s=round(r.wall, 1), **kw))

    def design(self, module, cfg, **kw):
        r = model_check(module, cfg, **kw)
        self.add("model checking of %s" % module, r, cfg=cfg if "\n" not in cfg else "inline")
        return r

    def judge(self, module, cfg, cases, replay, describe=None, timeout=840):
        """Validate recorded cases; replay(case) is what has to be kept to run the case again."""
        verdicts, r = validate(module, cfg, cases, timeout)
        self.add("trace validation by %s" % module, r, cases=len(cases), not_followed_to_the_end=r.gaveup)
        self.traces += len(cases)
        self.readings += sum(len(c.get("readings", c.get("events", [0]))) for c in cases)
        for c in cases:
            if len(self.samples) < 2 and not verdicts[c["id"]]:
                self.samples.append({"case": c["id"], "scenario": c.get("scenario"), "verdict": "conforms"})
            for b in verdicts[c["id"]]:
                who = ""
                rs = c.get("readings")
                if rs and "reading" in b and 0 < b["reading"] <= len(rs):
                    who = rs[b["reading"] - 1].get("who", "")
                self.failures.append({"case": c["id"], "who": who, "broken": b, "scenario": c.get("scenario"), "replay": replay(c)})
        return verdicts

    def finish(self):
        known = load_known()
        hits, new = [], []
        for f in self.failures:
            k = next((k for k in known if k["property"] == self.prop and matches(k, f)), None)
            (hits if k else new).append((k, f))
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "readings_judged": self.readings,
            "parts": self.parts, "samples": self.samples or [{"note": "no conforming case"}],
        }
        if self.exhaustive:
            cov["exhaustive"] = True
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k, f in hits:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not new:
            print("OK property=%s traces=%d readings=%d states=%d wall=%.1fs"
                  % (self.prop, self.traces, self.readings, self.states, time.time() - self.t0))
            return 0
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d.json" % (self.prop, SEED))
        with open(path, "w") as f:
            json.dump([x for _, x in new[:40]], f, indent=1)
        for _, x in new[:8]:
            b = x["broken"]
            print("  broken: case %s %s: %s: %s" % (x["case"], x["who"], json.dumps({k: v for k, v in b.items() if k not in ("detail", "clause")}),
                                                    b.get("clause", "") + " " + str(b.get("detail", ""))))
        if len(new) > 8:
            print("  ... and %d more" % (len(new) - 8))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def matches(k, f):
    """A listed finding identifies the failing call and input by these fields."""
    return all(re.search(v, json.dumps(f.get(key)) if not isinstance(f.get(key), str) else f.get(key)) for key, v in k["match"].items())
