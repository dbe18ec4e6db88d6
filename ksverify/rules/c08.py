"""Sections and script bodies.

The reader's source is interpreted on documents of every section kind, body
shape and way of ending (and all short sequences of line kinds), with body
lines that are holes; the bodies, kinds and options stored must be exactly
those of the documented reader model: each body line once, unchanged, in its
own section only, unterminated sections refused from F8 on, and foreign
sections written back where they must be."""
from ._reader import *

ASPECTS = ("script", "options", "order", "packages", "null", "outcome", "platform")


def check(rep):
    thorough = rep.tier == "thorough"
    ts = []
    for ver, n, k in ([("F33", 3, 1), ("F7", 3, 2), ("FC3", 2, 1), ("DEVEL", 2, 1)] if not thorough else [("F33", 4, 1), ("F7", 4, 1), ("FC3", 3, 1), ("F8", 3, 1), ("RHEL5", 3, 1), ("F34", 3, 1), ("RHEL9", 3, 1)]):
        if ver not in versions():
            continue
        for b in batches([s for i, s in enumerate(short(n, CORE + ["quote"]))if i % k == 0], 120):
            ts.append((ver, b, ASPECTS, {}, True, None))
    step = 1 if thorough else 43
    for q, ver in enumerate(("F33", "F7", "F8", "RHEL4")):
        for b in batches(pairs(lambda n, i, j: n % step == q), 30):
            ts.append((ver, b, ASPECTS, {"unknown_fatal": False}, bool(q % 2), None))
        for b in batches(pairs(lambda n, i, j: n % step == step // 2 + q), 30):
            ts.append((ver, b, ASPECTS, {"fatal": False, "unknown_fatal": False}, True, None))
    # header options
    for i, ver in enumerate(sorted(versions())):
        for b in batches([[h, "text", "comm", "end", "lang"] for j, h in enumerate(sorted(HSETS)) if thorough or ver in ("F33", "F7") or (i + j) % 12 == 0], 80):
            ts.append((ver, b, ASPECTS, {}, True, None))
    # lines that only resemble keywords
    for ver in ("F33", "F7"):
        for b in batches([[h] + x + ["end", "part"] for h in HEADS if OPENS[h] != "pkgs" for x in [[k] for k in KWORDS] + [[k, "text"] for k in KWORDS[::3]]], 80):
            ts.append((ver, b, ASPECTS, {"unknown_fatal": False}, True, None))
    # every single block at every released version
    bl = list(blocks())
    for i, ver in enumerate(sorted(versions())):
        for b in batches([["part"] + x + ["lang"] for j, x in enumerate(bl) if thorough or (i + j) % 3 == 0], 80):
            ts.append((ver, b, ASPECTS, {"unknown_fatal": False}, True, None))
    rep.run(run_batch, ts)
