"""Code to specification: record histories of the real library and let TLC
decide whether Radix.tla allows them."""
import json
import os
import re

from common import CheckError, Violation, run_driver


def read_lines(path):
    with open(path) as f:
        return f.read().split("\n")


def validate(work, heads, events):
    """Runs TLC over recorded traces. Raises Violation for the first one that
    the specification does not allow."""
    hs = [json.loads(l) for l in read_lines(heads) if l]
    res = work.tlc("TraceRadix", env={"RV_HEADS": heads, "RV_EVENTS": events})
    want = sum(h["hi"] - h["lo"] + 1 for h in hs) + len(hs)
    if res.violated == "Conforms":
        t = int(re.findall(r"/\\ trace = (\d+)", res.out)[-1])
        i = int(re.findall(r"/\\ at = (\d+)", res.out)[-1])
        bad = re.findall(r"/\\ bad = (<<.*?)\n\n", res.out + "\n\n", re.S)[-1]
        bad = re.sub(r"\s+", " ", bad).split(" /\\ ")[0]
        h = hs[t - 1]
        evs = [json.loads(l) for l in read_lines(events)[h["lo"] - 1:i]]
        raise Violation(bad, {"kind": "trace", "what": bad, "trace_seed": h["seed"], "family": h["family"],
                              "keys": h["keys"], "block": h["block"], "place": h["place"], "clones": h["clones"],
                              "watch": h["watch"], "events": evs})
    res.require_ok()
    if res.distinct != want:
        raise CheckError("TLC looked at %d states, the traces have %d" % (res.distinct, want))
    return hs, res


def race_report(prop, r):
    """Raises Violation for a report of the race detector about the library."""
    if "WARNING: DATA RACE" not in r.stderr:
        return
    if "go-immutable-adaptive-radix" not in r.stderr:
        raise CheckError("data race outside of the library:\n" + r.stderr[:4000])
    raise Violation("data race", {"kind": "race", "what": "data race", "report": r.stderr[:20000]})


def record(work, exe, prop, seed, count, single=False, race=False, clones=False):
    heads, events = work.path("heads.ndjson"), work.path("events.ndjson")
    args = ["record", "-focus", prop, "-seed", seed, "-n", count, "-heads", heads, "-events", events]
    if single:
        args.append("-single")
    if clones:
        args.append("-clones")
    r = run_driver(exe, args, env={"GORACE": "exitcode=66 halt_on_error=1"} if race else None)
    if race:
        race_report(prop, r)
    if r.returncode != 0:
        raise CheckError("the driver ended with %d:\n%s" % (r.returncode, r.stderr[-4000:]))
    return heads, events, json.loads(r.stdout)


def run(work, prop, seed, count, batches, cov):
    race = prop == "C19"
    exe = work.build(race=race)
    runs = [(exe, seed * 1009 + b, count, race, False) for b in range(batches)]
    if prop == "C05":
        # clones that are written to at the same time, with the race detector
        runs += [(work.build(race=True), seed * 1009 + b, 150, True, True) for b in range(batches)]
    for b, (exe, first, n, race, clones) in enumerate(runs):
        heads, events, st = record(work, exe, prop, first, n, race=race, clones=clones)
        hs, res = validate(work, heads, events)
        cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + len(hs)
        cov["trace_events"] = cov.get("trace_events", 0) + st["events"]
        for name in ("by_event", "by_family"):
            d = cov.setdefault("trace_" + name, {})
            for k, v in st[name].items():
                d[k] = d.get(k, 0) + v
        if b == 0:
            h = hs[0]
            evs = [json.loads(l) for l in read_lines(events)[h["lo"] - 1:h["lo"] + 11]]
            cov.setdefault("samples", []).append(
                {"trace_seed": h["seed"], "family": h["family"], "keys": [bytes(k).hex() for k in h["keys"][:12]], "first_events": evs})
