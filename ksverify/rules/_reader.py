"""Shared obligations of the reader rules (C06, C08, C17, C19)."""
from ..check import bad, ok, undecided, world
from ..script import *
from ..world import versions

_runs = {}


def get_run(ver, flags):
    k = (ver, tuple(sorted(flags.items())))
    r = _runs.get(k)
    if r is None:
        if len(_runs) > 6:
            _runs.clear()
        r = _runs[k] = Run(world(ver), **flags)
    return r


def judge(ver, kinds, aspects, flags=None, nl=True, files=None):
    flags = flags or {}
    run = get_run(ver, flags)
    nums = versions()
    m = Model(ver, nums[ver], nums, files or {}, **flags).read(kinds, nl)
    if m.odd:
        return None
    fs = {n: render(k, x, n) for n, (k, x) in (files or {}).items()}
    t = render(kinds, nl)
    out = run.go(t, fs)
    r = compare_run(run, m, out)
    case = {"version": ver, "input": t, "parser": {k: v for k, v in flags.items()}}
    if fs:
        case["files"] = fs
    if r is None:
        return undecided(out.why or out.status, str(case))
    mine = [(a, x) for a, x in r if a in aspects]
    if not mine:
        return ok()
    a, msg = mine[0]
    site = out.exc.site if out.exc is not None else None
    wh = str(site) if a in ("outcome", "errline") and site is not None else "pykickstart/parser.py KickstartParser"
    return bad((a, msg.split(",")[0][:40] if a == "outcome" else a), msg, wh, case, [{"aspect": a, "kinds": kinds, "error": m.error.kind if m.error else None, "ver": ver, "leadblank": m.leadblank}])


def run_batch(t):
    ver, batch, aspects, flags, nl, files = t
    n = 0
    for kinds in batch:
        r = judge(ver, kinds, aspects, flags, nl, files)
        if r is None:
            continue
        if r[0] == "ok":
            n += 1
        else:
            yield r
    yield ok(n)
    if batch:
        yield ("sample", "%s: %r" % (ver, render(batch[len(batch) // 2], nl)))


def batches(seqs, size=60):
    cur = []
    for s in seqs:
        cur.append(s)
        if len(cur) >= size:
            yield cur
            cur = []
    if cur:
        yield cur
