#!/usr/bin/env python3
"""check.py Cxx: run the check of one property (see DESIGN.md)."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv":
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import common  # noqa: E402
import registry  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    ck = common.Check(prop, registry.CHECKS[prop][1])
    try:
        registry.CHECKS[prop][0](ck)
    except Exception:
        # what has been found by then stands
        if not ck.failures:
            raise
        import traceback
        traceback.print_exc()
        ck.assumptions = ck.assumptions or ["TLC 1.8"]
    sys.exit(ck.finish())
