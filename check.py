#!/usr/bin/env python3
"""check.py <property id> : runs the check of one property.

Environment: VERIF_TIER (quick|thorough), VERIF_SEED (integer).
Exit code 0: the property held on everything explored; 1: VIOLATION line
printed; 2: the check could not be run.
"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import jobs  # noqa: E402
import plan  # noqa: E402
import runner as R  # noqa: E402


def known_findings(prop):
    res = []
    p = os.path.join(R.VERIF, "known_findings.jsonl")
    for l in open(p):
        l = l.strip()
        if l:
            d = json.loads(l)
            if d.get("property") == prop and d.get("status") == "known":
                res.append(d)
    return res


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    res = R.Result(prop, tier, seed)
    scr = R.Scratch()
    rc = 2
    R.DEADLINE = time.time() + (720 if tier == "quick" else 6 * 3600)
    try:
        p = plan.PLAN[prop](tier)
        jobs.run_all(p, res, scr, seed)
        R.DEADLINE = time.time() + 60
        for k in known_findings(prop):
            if R.STOP.is_set():
                break
            if jobs.finding_present(k, res, scr):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        rc = 1 if res.violations else 0
    except R.Infra as e:
        print("CHECK ERROR: %s" % e, flush=True)
    except Exception:
        traceback.print_exc()
    finally:
        scr.close()
    if rc != 2 or res.violations:
        for v in res.violations[:5]:
            print("  %s: %s" % (v["kind"], v["msg"][:1500]), flush=True)
        for v in res.violations[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
        if res.violations:
            rc = 1
        res.write(plan.LEVEL.get(prop, "model_checking"), plan.ASSUMPTIONS + plan.EXTRA_ASSUMPTIONS.get(prop, []))
    print("%s %s: %s in %.1f s (%d behaviours replayed, %d states)"
          % (prop, tier, {0: "holds", 1: "VIOLATED", 2: "could not be decided"}[rc], time.time() - res.t0,
             res.traces, res.states), flush=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
