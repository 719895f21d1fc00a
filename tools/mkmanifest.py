"""Writes MANIFEST.json from properties.jsonl and harness/registry.py."""
import ast, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = registry.NOTES
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "TLA+ / TLC. ./check.py <id> runs the check of one property; VERIF_TIER=thorough for the deep tier."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": registry.CHECKS[i][1], "level": "model_checking",
                            "level_note": NOTE.get(i, NOTE[""])})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NOT_YET.get(i, "no check yet")})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
