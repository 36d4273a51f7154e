"""Builds every harness once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import miriprops, runner
ALL = ["vecmc", "likemc", "derivemc", "limmc", "setmc"]
for ws, ps, t, pr in (("mc", ALL, "mc", "chk"), ("mc", ALL, "mc", "fast"), ("e2e", ["e2emc"], "e2e", "chk"), ("e2e", ["e2emc"], "e2e", "fast")):
    try:
        runner.cargo(ws, ps, pr, target=t)
    except (runner.Rejected, runner.CheckError) as e:
        # the checks say what it means
        print("not built: %s" % str(e)[:300])
print("Miri: %s" % (miriprops.build() or "runs"))
print("built")
