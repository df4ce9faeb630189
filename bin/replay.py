#!/usr/bin/env python3
"""replay.py FILE: shows a violation that check.py has found and runs the same
calls on /repo as it is now. Ends with 1 if the violation is still there."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import CheckError, Violation, Work
import behaviours
import tables
import traces


def show(d):
    print("property %s, found by %s: %s" % (d["property"], d["kind"], d["what"]))
    if "keys" in d:
        block = d.get("block") or 1
        print("keys%s:" % ("" if block == 1 else ", each byte stands for %d bytes with it at place %d" % (block, d["place"])))
        for i, k in enumerate(d["keys"]):
            print("  %3d  %s" % (i + 1, bytes(k)))
    for name in ("build", "path"):
        for line in d.get(name) or []:
            print("  %s: %s" % (name, line))
    if d["kind"] == "trace":
        for e in d["events"][-30:]:
            print("  " + json.dumps(e))
    if "want" in d:
        print("  specification: %s\n  library:       %s" % (d["want"], d["got"]))
    if "report" in d:
        print(d["report"])


def main():
    d = json.load(open(sys.argv[1]))
    show(d)
    prop = d["property"]
    cov = {"states": 0, "transitions": 0}
    work = Work()
    try:
        if d["kind"] == "trace":
            race = prop == "C19" or d.get("clones", False)
            heads, events, _ = traces.record(work, work.build(race=race), prop, d["trace_seed"], 1, single=True, race=race,
                                             clones=d.get("clones", False))
            traces.validate(work, heads, events)
        elif d["kind"] == "walk":
            tables.run(work, prop, 0, d["scenes"], d["budget"], 1, cov, only=d["seed"])
        elif d["kind"] == "behaviour":
            behaviours.run(work, prop, 0, d["scenes"], 1, cov, only=d["seed"])
        else:
            print("a race or crash can only be looked for with check.py again")
            return 0
    except Violation as v:
        print("still there: " + v.what)
        return 1
    finally:
        work.close()
    print("not there any more")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("error: %s" % e)
        sys.exit(2)
