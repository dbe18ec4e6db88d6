"""Tolerant and strict parsing.

Sequences that mix good lines, bad commands and bad headers are interpreted in
both modes: strict reading must end with the error of the first bad line and
have processed exactly the lines before it; tolerant reading must process
every other line, and count and print one error per bad line."""
from ._reader import *

ASPECTS = ("count", "outcome", "order", "script", "packages", "options")
ALPHA = ["part", "lang", "unk", "badopt", "badval", "noarg", "text", "pre", "badhdr", "badhdr2", "end", "comm"]
TOL = {"fatal": False}


def check(rep):
    thorough = rep.tier == "thorough"
    ts = []
    for ver, n, k in ([("F33", 3, 1), ("F7", 3, 2)] if not thorough else [("F33", 4, 1), ("F7", 4, 1), ("FC3", 3, 1), ("RHEL7", 3, 1), ("RHEL9", 3, 1)]):
        seqs = [s for i, s in enumerate(short(n, ALPHA)) if i % k == 0]
        for b in batches(seqs, 100):
            ts.append((ver, b, ASPECTS, TOL, True, None))
        for b in batches([s for i, s in enumerate(seqs) if i % 2 == 0], 100):
            ts.append((ver, b, ASPECTS, {}, True, None))
    step = 1 if thorough else 61
    for ver in ("F33", "F7"):
        for b in batches(pairs(lambda n, i, j: n % step == 5), 30):
            ts.append((ver, b, ASPECTS, dict(TOL, unknown_fatal=False), True, None))
        for b in batches(pairs(lambda n, i, j: n % step == 31), 30):
            ts.append((ver, b, ASPECTS, TOL, False, None))
        for b in batches(pairs(lambda n, i, j: n % step == 17), 30):
            ts.append((ver, b, ASPECTS, {}, True, None))
    # errors inside included files, with and without missing includes allowed
    inc = {"incx": (["part", "unk", "part", "badopt", "lang"], True), "incs": (["badhdr", "text", "end", "part", "unk"], True),
           "incz": (["inc:incx", "badval", "part"], True), "ok": (["part", "lang"], True)}
    seqs = []
    for a in ["inc:incx", "inc:incs", "inc:incz", "inc:ok", "inc:nothere"]:
        seqs += [["part", a, "unk", "lang", "part"], [a, a, "badopt"], ["badhdr2", "text", "end", a, "part"], ["lang", a, "pre", "text", "end", "noarg"]]
    for ver in ("F33", "F7"):
        for fl in ({}, TOL, {"missing_fatal": False}, dict(TOL, missing_fatal=False), {"follow": False}, dict(TOL, follow=False)):
            for b in batches(seqs, 10):
                ts.append((ver, b, ASPECTS, fl, True, inc))
    rep.run(run_batch, ts)
