#!/usr/bin/env python3
"""check.py ID: decides one property. See DESIGN.md."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import ROOT, CheckError, Violation, Work
import behaviours
import tables
import traces

LEVEL = "model_checking"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or "0")
    thorough = tier == "thorough"
    start = time.time()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    work = Work()
    violation = None
    try:
        try:
            traces.run(work, prop, seed, 400 if prop not in ("C19", "C22") else 200, 8 if thorough else 1, cov)
            tables.run(work, prop, seed, 40, 200000 if thorough else 30000, 3 if thorough else 1, cov)
            behaviours.run(work, prop, seed, 40, 4 if thorough else 1, cov)
        except Violation as v:
            violation = v
    except CheckError as e:
        print("check error: %s" % e)
        return 2
    finally:
        work.close()
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "wall_s": round(time.time() - start, 2), "violations": 1 if violation else 0}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        path = os.path.join(ROOT, "evidence", "replay", "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(violation.data, property=prop), f)
        print("%s: %s" % (prop, violation.what[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s holds on everything explored (%.0f s)" % (prop, time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception as e:  # anything unexpected is an error of the check
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
