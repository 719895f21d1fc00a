#!/bin/bash
# Builds the Java operators TLC evaluates Rat.tla with, and checks them against the TLA+ definitions.
set -e
cd "$(dirname "$0")"
sed '1s/MODULE Rat /MODULE RatPure /' spec/Rat.tla > spec/RatPure.tla
/opt/venv/bin/python -B - <<'P'
import sys
sys.path.insert(0, "harness")
import common
common.ensure_java()
r = common.model_check("RatTest", "RatTest.cfg")
print("RatTest: %d states, %.1f s" % (r.distinct, r.wall))
P
