"""dev: rerun a check with all tolerances replaced, to see the safety margin. usage: margins.py C01 1e-12"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common, registry
tol = sys.argv[2]
orig = common.validate
def validate(module, cfg, cases, timeout=840):
    for c in cases:
        for r in c.get("readings", []) + c.get("calls", []):
            if "tol" in r: r["tol"] = tol
    return orig(module, cfg, cases, timeout)
common.validate = validate
common.BUILD = "/tmp/margins"; os.makedirs("/tmp/margins/classes", exist_ok=True)
class C(common.Check):
    def finish(self):
        from collections import Counter
        print(sys.argv[1], tol, "broken:", len(self.failures), "of", self.readings)
        for k, v in Counter((f["who"], f["broken"].get("clause"), (f["scenario"] or {}).get("style")) for f in self.failures).most_common(12): print("   ", v, k)
        for f in self.failures[:2]: print("  e.g.", f["case"], f["broken"])
ck = C(sys.argv[1], "")
registry.CHECKS[sys.argv[1]][0](ck); ck.finish()
