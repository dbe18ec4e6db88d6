"""Line numbers.

The reader's source is interpreted on sequences of line kinds (all sequences
up to a length over a core alphabet, and documents of lead lines and pairs of
sections of every kind, body shape and way of ending), each line a template
labelled with its number. The line numbers found on command objects, data
objects, scripts and errors must be those of the documented reader model."""
from ._reader import *

ASPECTS = ("lineno", "errline")
TOL = {"fatal": False, "unknown_fatal": False}


def check(rep):
    thorough = rep.tier == "thorough"
    ts = []
    for ver, n, k in ([("F33", 3, 1), ("F7", 3, 1), ("RHEL8", 3, 7)] if not thorough else [("F33", 4, 1), ("F7", 4, 1), ("FC3", 3, 1), ("RHEL6", 3, 1), ("F34", 3, 1), ("RHEL9", 3, 1)]):
        if ver not in versions():
            continue
        seqs = [s for i, s in enumerate(short(n)) if i % k == 0]
        for b in batches(seqs, 120):
            ts.append((ver, b, ASPECTS, {}, True, None))
        for b in batches([s for i, s in enumerate(seqs) if thorough or i % 3 == 0], 120):
            ts.append((ver, b, ASPECTS, TOL, True, None))
    step = 1 if thorough else 53
    for ver in ("F33", "F7", "F12"):
        for b in batches(pairs(lambda n, i, j: n % step == 0), 30):
            ts.append((ver, b, ASPECTS, {"unknown_fatal": False}, True, None))
        for b in batches(pairs(lambda n, i, j: n % step == step // 2), 30):
            ts.append((ver, b, ASPECTS, TOL, False, None))
    inc = {"incx": (["comm", "part", "blank", "part"], True), "incy": (["unk"], False), "incs": (["blank", "pre", "text", "end", "part", "badopt"], True),
           "incp": (["pkg", "comm", "pkgc"], True), "inct": (["text", "blank", "text"], True), "incu": (["part", "post", "text"], True), "incz": (["inc:incx", "part", "inc:incs", "part"], True)}
    seqs = []
    for a in ["inc:incx", "inc:incy", "inc:incs", "inc:incu", "inc:incz", "incnone"]:
        for lead in LEADS:
            seqs.append(lead + [a, "part", "lang", "pre", "text", "end", "part"])
            seqs.append(lead + ["post", "text", "end", a, "badopt"])
    for a in ["inc:incp", "incnone"]:
        seqs.append(["comm", "pkgs", "pkg", a, "pkg", "end", "part", "unk"])
    for a in ["inc:inct", "incnone"]:
        for h in ("pre", "posto", "addon", "traceback"):
            seqs.append(["blank", h, "text", a, "text", "end", "part", "badopt"])
            seqs.append(["blank", h, "text", a, "text"])
    for ver in ("F33", "F7"):
        for b in batches(seqs, 12):
            for fl in ({}, TOL):
                ts.append((ver, b, ASPECTS, fl, True, inc))
    rep.run(run_batch, ts)
