"""Specification to code: TLC runs the abstract machine through every behaviour
of some programs, and the driver repeats each behaviour with the real library."""
import json

from common import CheckError, Violation, run_driver

# A program is a sequence of slots, separated by ";", a slot has one or more
# calls, separated by "|". Calls: txn TREE TXN, on TXN, off TXN, w TXN, tw TREE
# NEWTREE, commit TXN NEWTREE, only TXN NEWTREE (CommitOnly), notify TXN, clone
# TXN NEWTXN, drop TXN, watch TXN SET, ctree TREE NEWTREE, open TREE ITERATOR KIND, step
# ITERATOR, no.
ONE = "txn 0 1; on 1; w 1; w 1; w 1; commit 1 1"
CONTINUED = "txn 0 1; on 1; w 1; commit 1 1; w 1; commit 1 2; w 1; commit 1 3"
CHAIN = "txn 0 1; on 1; w 1; commit 1 1; txn 1 2; on 2; w 2; w 2; commit 2 2"
CHAIN3 = "txn 0 1; on 1; w 1; commit 1 1; txn 1 2; on 2; w 2; commit 2 2; txn 2 3; on 3; w 3; commit 3 3"
ONLY = "txn 0 1; on 1; w 1; only 1 1; w 1; only 1 2 | no; notify 1; w 1; commit 1 3"
INSIDE = "txn 0 1; on 1; w 1; watch 1 50; w 1; watch 1 51; w 1; commit 1 1"
LATE = "txn 0 1; on 1; txn 0 2; on 2; w 1; commit 1 1; w 2; commit 2 2; w 1; notify 1"
CLONED = "txn 0 1; on 1; w 1; clone 1 2; on 2 | no; w 2; commit 2 1 | only 2 1; w 1; commit 1 2 | notify 1"
PLAIN = "tw 0 1; txn 1 2; on 2; w 2; w 2; commit 2 2"
DROPPED = "txn 0 1; on 1 | no; w 1; drop 1 | commit 1 1; txn 0 2; on 2; w 2; w 2; commit 2 2 | only 2 2"
SWITCHED = "txn 0 1; w 1; on 1; w 1; off 1 | no; notify 1 | commit 1 1 | only 1 1; on 1; w 1; notify 1 | commit 1 2"
EARLY = "txn 0 1; on 1; w 1; notify 1 | no; w 1; notify 1 | only 1 1; w 1 ; commit 1 2"
CTREE = "ctree 0 1; txn 0 1 | txn 1 1; on 1; w 1; commit 1 2; ctree 2 3; txn 3 2; on 2; w 2; commit 2 4"

TREES = "tw 0 1; tw 0 2 | tw 1 2; tw 0 3 | tw 1 3 | tw 2 3"
MIXED = "txn 0 1; w 1; tw 0 1 | ctree 0 1 | only 1 1; w 1; commit 1 2; txn 2 2 | txn 0 2; w 2 | w 1; commit 2 3"
PAIR = "txn 0 1; txn 0 2; w 1; w 2; only 1 1 | commit 1 1; w 1 | w 2; commit 2 2; w 1; commit 1 3"
TRACKED = "txn 0 1; on 1; w 1; only 1 1 | commit 1 1; w 1; only 1 2 | no; w 1; notify 1 | commit 1 3"
CLONES = "txn 0 1; w 1; clone 1 2; w 1 | w 2; w 1 | w 2; clone 2 3; w 3 | no; commit 1 1; commit 2 2"
CLONES2 = "txn 0 1; on 1 | no; w 1; commit 1 1 | no; clone 1 2; w 2; clone 2 3; w 1; w 3 | w 2 | commit 2 2"
CLONES3 = "txn 0 1; clone 1 2; w 1; w 2; commit 1 1; commit 2 2; w 1 | w 2; clone 2 3 | clone 1 3; commit 3 3"
DONE = "txn 0 1; w 1; commit 1 1; txn 1 2; w 2; w 1; only 1 2; commit 2 3; w 1"
CURS = "open 0 1 %s; step 1; tw 0 1 | no; step 1; txn 0 1; w 1; step 1; w 1; commit 1 2; step 1; step 1"
CURS2 = "txn 0 1; on 1; w 1; commit 1 1; open 1 1 %s; open 0 2 %s; w 1; step 1; step 2; w 1; step 2; step 1; step 1; step 2"

KINDS = ["all", "pre", "lb", "rev", "rlb", "rpre", "path"]
WATCH = [ONE, CONTINUED, CHAIN, CHAIN3, ONLY]
PROGRAMS = {
    "C01": [ONE, CONTINUED, PAIR],
    "C02": [ONE, CONTINUED, PAIR],
    "C13": [ONE, CONTINUED, PAIR],
    "C03": [TREES, MIXED, TRACKED, CHAIN],
    "C04": [PAIR, MIXED, TRACKED, DROPPED, DONE],
    "C05": [CLONES, CLONES2, CLONES3, CLONED],
    "C14": WATCH + [INSIDE, LATE, CLONED, EARLY, CTREE],
    "C15": WATCH + [INSIDE, LATE, CLONED, EARLY, CTREE],
    "C16": WATCH + [EARLY, CTREE],
    "C17": [PLAIN, DROPPED, SWITCHED, CLONED, EARLY, ONLY],
    "C18": WATCH + [PLAIN, DROPPED, SWITCHED, CLONED],
    "C21": [CURS % k for k in KINDS] + [CURS2 % (a, b) for a, b in zip(KINDS, KINDS[3:] + KINDS[:3])],
}

# Per property: writes per scene, programs per scene, probes per scene (0: all).
SIZES = {"C01": (8, 2, 8), "C02": (8, 2, 3), "C13": (8, 2, 6), "C03": (8, 2, 6), "C04": (8, 2, 6), "C05": (7, 2, 6),
         "C21": (6, 1, 5)}
WATCH_SIZE = (10, 3, 0)


def parse(text):
    prog = []
    for slot in text.split(";"):
        calls = []
        for call in slot.split("|"):
            w = call.split()
            a = [int(x) if x.isdigit() else x for x in w[1:]]
            calls.append({
                "txn": lambda: {"e": "bg", "v": a[0], "t": a[1]},
                "on": lambda: {"e": "trk", "t": a[0], "on": True},
                "off": lambda: {"e": "trk", "t": a[0], "on": False},
                "w": lambda: {"e": "xw", "t": a[0]},
                "tw": lambda: {"e": "tw", "v": a[0], "n": a[1]},
                "commit": lambda: {"e": "cm", "t": a[0], "n": a[1]},
                "only": lambda: {"e": "co", "t": a[0], "n": a[1]},
                "notify": lambda: {"e": "nt", "t": a[0]},
                "clone": lambda: {"e": "cl", "t": a[0], "n": a[1]},
                "drop": lambda: {"e": "ab", "t": a[0]},
                "watch": lambda: {"e": "wt", "t": a[0], "w": a[1]},
                "ctree": lambda: {"e": "tc", "v": a[0], "n": a[1]},
                "open": lambda: {"e": "op", "v": a[0], "c": a[1], "kind": a[2]},
                "step": lambda: {"e": "st", "c": a[0]},
                "no": lambda: {"e": "no"},
            }[w[0]]())
        prog.append(calls)
    return prog


def run(work, prop, seed, scenes, batches, cov, only=None):
    """only: the seed of a single batch, for replaying it."""
    if prop not in PROGRAMS:
        return
    ops, per, probes = SIZES.get(prop, WATCH_SIZE)
    exe = work.build()
    sfile, pfile, rows = work.path("beh-scenes.ndjson"), work.path("progs.ndjson"), work.path("beh.txt")
    progs = PROGRAMS[prop]
    with open(pfile, "w") as f:
        for p in progs:
            f.write(json.dumps(parse(p)) + "\n")
    beh = cov.setdefault("behaviours", {"programs": len(progs)})
    for b in range(batches):
        s = seed * 1019 + b if only is None else only
        r = run_driver(exe, ["scenes", "-focus", prop, "-seed", s, "-n", scenes, "-out", sfile, "-ops", ops,
                             "-progs", len(progs), "-per", per, "-probes", probes])
        if r.returncode != 0:
            raise CheckError("the driver made no scenes:\n" + r.stderr[-4000:])
        res = work.tlc("BehRadix", env={"RV_SCENES": sfile, "RV_PROGS": pfile}, out=rows).require_ok()
        r = run_driver(exe, ["behave", "-focus", prop, "-seed", s, "-scenes", sfile, "-progs", pfile, "-rows", rows])
        if r.returncode != 0:
            raise CheckError("the driver ended with %d:\n%s" % (r.returncode, r.stderr[-4000:]))
        st = json.loads(r.stdout)
        if st["bad"]:
            bad = st["bad"]
            raise Violation("%s: specification says %s, the library %s" % (bad["what"], bad["want"][:200], bad["got"][:200]),
                            dict(bad, kind="behaviour", seed=s, scenes=scenes, program=progs[int(bad["mode"].split()[1]) - 1]))
        if st["lines"] != res.distinct:
            raise CheckError("TLC found %d states, the driver read %d" % (res.distinct, st["lines"]))
        cov["states"] += res.distinct
        cov["transitions"] += res.generated
        for k in ("behaviours", "calls", "compared"):
            beh[k] = beh.get(k, 0) + st[k]
        beh["tlc_s"] = round(beh.get("tlc_s", 0) + res.wall, 1)
