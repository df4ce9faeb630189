#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl. Run in /verif."""
import json

PARTS = {
    "H": "recorded histories validated against it",
    "T": "graphs of contents computed by TLC and walked by the library",
    "B": "all behaviours of given programs computed by TLC and repeated by the library",
}
USES = {"C%02d" % i: "HT" for i in range(1, 23)}
for i in ("C01", "C02", "C03", "C04", "C05", "C13", "C21"):
    USES[i] = "HTB"
for i in ("C14", "C15", "C16", "C17", "C18"):
    USES[i] = "HB"
USES["C19"] = "H"

props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/check.py " + i,
        "thorough_cmd": "python3 bin/check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification with TLC, bound to the real library: " + "; ".join(
            PARTS[k] for k in "HTB" if k in USES[i]),
        "level": "model_checking",
        "level_note": "Bounded: the histories are drawn at random, the tables and behaviours are exhaustive "
                      "for the scenes that are drawn." if len(USES[i]) > 1 else
                      "Bounded: randomly drawn histories, each validated by TLC against the specification.",
    })
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the public interface of the library only."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
