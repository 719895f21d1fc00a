"""Scenarios from module ScenKalman, with numbers filled in."""
import zlib

from common import SEED, TIER, generate
import models

DEFAULTS = dict(MaxN=4, MaxM=3, MinN=1, MinM=1, Lengths="{1, 2, 3, 4, 5, 6, 8, 12}",
                OffsetForms='{"none", "const", "tv"}', CovForms='{"none", "const", "tv"}',
                InitForms='{"none", "const"}', Styles='{"generic", "integer", "degenerate", "scaled"}')

ALL_CONST = dict(OffsetForms='{"const"}', CovForms='{"const"}', InitForms='{"const"}')


def cfg(**over):
    d = dict(DEFAULTS)
    d.update(over)
    return "SPECIFICATION Spec\nCONSTANTS\n" + "\n".join(" %s = %s" % kv for kv in d.items()) + "\nCHECK_DEADLOCK FALSE\n"


def cases(check, tag, num, **over):
    """num cases; the scenarios are drawn by TLC, the numbers by models.build."""
    text = cfg(**over)
    salt = zlib.crc32(tag.encode()) % 100000
    longest = max(int(x) for x in str(over.get("Lengths", DEFAULTS["Lengths"])).strip("{} ").split(","))
    r = generate("ScenKalman", text, num, depth=longest + 30, seed=SEED * 100003 + salt)
    if check is not None:
        check.add("scenario generation (%s)" % tag, r, scenarios=len(r.lines))
    # readings that look like markers of missing values: not where parameters are fitted (they would dominate them)
    markers = not {"em", "mono", "which", "default", "rep"} & set(tag.split("-"))
    return [models.build(sc, "%s-%d" % (tag, i), SEED, markers) for i, sc in enumerate(r.lines)]


def size(quick, thorough):
    return thorough if TIER == "thorough" else quick
