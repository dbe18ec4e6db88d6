"""Conformance of every version's acceptance and effect.

The committed reference gives, for each command generation, the published
outcome (rejected with a parse error, or accepted with these attribute values)
of every input partition: base lines, single options with good and bad values,
option pairs, maximal lines and lines with one option left out, repeated and
alias uses, histories of two and three lines and sequences of two different
commands that exclude each other; and the same lines with options in another
order, between the arguments, or with separate or quoted values. The current
parse methods must definitely agree; only definite differences are reported."""
import zlib

from .. import spec
from ..check import bad, ok, undecided, world
from ..compare import compare, init
from .c01 import where


def task(t):
    ver, lines = t
    w = world(ver)
    n = 0
    for name, l, exp in lines:
        r, why, out = compare(w, l + "\n", exp)
        if r == "same":
            n += 1
        elif r == "undecided":
            yield undecided("%s: %s" % (name, str(why)[:80]), "%s: %s" % (ver, l))
        else:
            cls = w.cls_name(name)
            yield bad((name, cls, why.split(" ")[0] + why.split(" ")[1]), "%r %s" % (l, why), where(w, name), {"version": ver, "line": l},
                      [{"cmd": name, "class": cls, "line": l, "why": why}])
    yield ok(n)
    if lines:
        yield ("sample", "%s: %s -> %s" % (ver, lines[len(lines) // 2][1], str(lines[len(lines) // 2][2])[:120]))


def cross_tasks(tier):
    out = []
    for i, (ver, pairs) in enumerate(sorted(spec.load("cross").items())):
        ls = [(t.split("\n")[1].split()[0], t, exp) for t, exp in sorted(pairs.items())
              if tier == "thorough" or zlib.crc32(t.encode()) % 3 == i % 3 or len(t.split()) < 7]
        out.append((ver, ls))
    return out


def form_tasks(tier):
    """The same lines with other option order, separate or quoted values."""
    by = {}
    cmds = spec.commands()
    for n, gs in spec.load("forms").items():
        for gi, d in gs.items():
            vs = cmds[n][int(gi)]["versions"]
            for l, e in sorted(d.items()):
                if tier != "thorough" and (zlib.crc32(l.encode()) + int(gi)) % 2 and gi != "0" and int(gi) != len(gs) - 1:
                    continue
                by.setdefault(vs[-1], []).append((n, l, e))
    return [(v, ls[i:i + 700]) for v, ls in by.items() for i in range(0, len(ls), 700)]


def check(rep):
    init("", "")
    rep.run(task, spec.tasks(rep.tier) + form_tasks(rep.tier) + cross_tasks(rep.tier))
