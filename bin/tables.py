"""Specification to code: TLC prints the graph of all contents of some scenes
with the answer to every query, and the driver walks through it with the real
library along every sequence of writes up to some length."""
import json

from common import CheckError, Violation, run_driver

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
         "C20", "C21", "C22"]


def run(work, prop, seed, scenes, budget, batches, cov, only=None):
    """only: the seed of a single batch, for replaying it."""
    if prop not in PROPS:
        return
    exe = work.build()
    sfile, kfile, rows = work.path("scenes.ndjson"), work.path("kinds.ndjson"), work.path("rows.txt")
    tab = cov.setdefault("tables", {})
    for b in range(batches):
        s = seed * 1013 + b if only is None else only
        r = run_driver(exe, ["scenes", "-focus", prop, "-seed", s, "-n", scenes, "-out", sfile, "-kinds", kfile])
        if r.returncode != 0:
            raise CheckError("the driver made no scenes:\n" + r.stderr[-4000:])
        res = work.tlc("TableRadix", env={"RV_SCENES": sfile, "RV_KINDS": kfile}, out=rows).require_ok()
        r = run_driver(exe, ["walk", "-focus", prop, "-seed", s, "-scenes", sfile, "-rows", rows, "-budget", budget])
        if r.returncode != 0:
            raise CheckError("the walk ended with %d:\n%s" % (r.returncode, r.stderr[-4000:]))
        st = json.loads(r.stdout)
        if st["bad"]:
            bad = st["bad"]
            raise Violation("%s: specification says %s, the library %s" % (bad["what"], bad["want"][:200], bad["got"][:200]),
                            dict(bad, kind="walk", seed=s, scenes=scenes, budget=budget))
        if st["contents"] != res.distinct:
            raise CheckError("TLC found %d contents, the driver reached %d" % (res.distinct, st["contents"]))
        cov["states"] += res.distinct
        cov["transitions"] += res.generated
        for k in ("scenes", "sequences", "steps", "asked"):
            tab[k] = tab.get(k, 0) + st[k]
        tab["depths"] = st["depths"]
