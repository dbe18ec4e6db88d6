"""Histories of repeatable commands.

For every command with a data list, sequences of accepted, repeated and
refused lines are interpreted in tolerant and strict mode; after each sequence
the list must hold one object per accepted line, in order, equal to what that
line gives alone and carrying its line number, and nothing for refused lines.
Parse warnings about repeated definitions are compared with the published
ones, and the comparison methods of the data objects are interpreted on pairs
of parsed objects and compared with the published equality, its negation, its
symmetry and None."""
import zlib

from .. import spec
from ..check import bad, ok, undecided, world
from ..compare import warn_names
from ..datalist import *
from ..values import *
from ..world import unsure
from .c01 import where

_sc = {}


def groups():
    if not _sc:
        for n, gs in spec.commands().items():
            for i, g in enumerate(gs):
                for v in g["versions"]:
                    _sc.setdefault(v, {})[n] = (i, len(gs), g)
    return _sc


def obj(w, st, ref):
    d = st.get(ref).d.get("lineno")
    return w.canon_obj(st, ref), d.v if isinstance(d, Const) else None


def alone(w, name, line, n=1):
    """What a line gives alone: (status, [data])."""
    out = w.read(line + "\n")
    if out.status == "ok" and not out.why:
        l = datalist(w, out.state, name)
        if l is None:
            return "?", None
        return "ok", [obj(w, out.state, x)[0] for x in l]
    return out.status, None


def sequences(oks, errs):
    """Lists of lines (line, accepted?)."""
    a = oks
    e = errs
    for i, l in enumerate(a):
        m = rename(l, None, "y")
        yield [(l, 1), (m, 1)]
        o = a[(i + 1) % len(a)]
        yield [(l, 1), (rename(o, None, "q"), 1), (rename(l, None, "y"), 1)]
        if e:
            x = e[(i * 3) % len(e)]
            yield [(x, 0), (l, 1), (e[(i * 3 + 1) % len(e)], 0), (rename(o, None, "q"), 1), (rename(x), 0), ("# {w:c}", 2), (m, 1)]
            # a refused line right behind the same accepted one
            yield [(l, 1), (e[(i * 3 + 2) % len(e)], 0)]
    if len(a) > 3:
        yield [(rename(l, None, "s%d" % i), 1) for i, l in enumerate(a[:8])]


def split_read(w, st, seq):
    """The lines in two inputs read one after the other; the second one's line numbers start again."""
    h = max(1, len(seq) // 2)
    a = "\n" * 9 + "\n".join(l for l, g in seq[:h]) + "\n"
    b = "\n".join(l for l, g in seq[h:]) + "\n"
    out = w.read(a, st)
    if out.status != "ok" or out.why:
        return out, a, None
    return w.read(b, st), a + "--- then ---\n" + b, [9 + i + 1 for i in range(h)] + [i + 1 for i in range(len(seq) - h)]


def warned(out):
    ws = warn_names(out) if out.status == "ok" and not out.why else None
    return None if ws is None else ws.count("KickstartParseWarning")


def distant(w, name, oks, cls):
    """A definition repeated with others in between warns as one repeated at once."""
    n = 0
    for i, l in enumerate(oks):
        if not l.startswith(name + " "):
            continue
        oth = [rename(oks[(i + k) % len(oks)], None, "d%d" % k) for k in range(1, 4) if oks[(i + k) % len(oks)] != l or k == 1]
        oth = [o for o in oth if "{" in o and o != l][:2]
        base = warned(w.read("%s\n%s\n" % (l, l)))
        if base is None or not oth:
            continue
        for q in range(len(oth)):
            mid = "".join(o + "\n" for o in oth[:q + 1])
            none = warned(w.read("%s\n%s" % (l, mid)))
            tail = warned(w.read("%s%s\n" % (mid, l)))
            if none != 0 or tail != 0:
                continue
            t = "%s\n%s%s\n" % (l, mid, l)
            got = warned(w.read(t))
            if got is None:
                yield undecided("repeated definition", t)
            elif got != base:
                yield bad(("distant", name, got > base), "%r gives %d parse warnings about repeated definitions, %r gives %d" % (t, got, l + "\n" + l, base), where(w, name), {"version": w.ver, "input": t}, [{"cmd": name, "aspect": "warn", "class": cls}])
                return
            else:
                n += 1
    yield ok(n)


def history(w, name, seq, cls, split=False):
    want = []
    for i, (l, g) in enumerate(seq):
        if g != 1:
            continue
        s, d = alone(w, name, l)
        if s != "ok":
            return undecided("line alone", l)
        if len(d) != 1:
            return undecided("line alone gives %d objects" % len(d), l)
        want.append((d[0], i + 1))
    st = w.fresh()
    st.w(w.kp).d["errorsAreFatal"] = FALSE
    if split:
        out, text, nums = split_read(w, st, seq)
        if nums is None:
            return undecided(out.why or out.status, text)
        want = [(d, nums[i - 1]) for d, i in want]
    else:
        text = "\n".join(l for l, g in seq) + "\n"
        out = w.read(text, st)
    if out.status != "ok" or out.why:
        return undecided(out.why or out.status, text)
    ec = st.get(w.kp).d["errorsCount"]
    if not isinstance(ec, Const) or ec.v != sum(1 for l, g in seq if g == 0):
        # the lines depend on each other; C04 judges what is accepted
        return undecided("lines that depend on each other: %s" % name, text)
    have = datalist(w, st, name)
    if have is None:
        return undecided("list", text)
    got = [obj(w, st, x) for x in have]
    case = {"version": w.ver, "input": text}
    wh = where(w, name)
    if len(got) != len(want):
        return bad(("count", name), "%d data objects after %d accepted lines of %r" % (len(got), len(want), text), wh, case, [{"cmd": name, "aspect": "count", "class": cls}])
    for k, ((d, ln), (e, eln)) in enumerate(zip(got, want)):
        if unsure(d) or unsure(e):
            continue
        if d != e:
            diff = sorted(x for x in set(d) | set(e) if d.get(x) != e.get(x))
            return bad(("value", name), "object %d of %r differs from what its line gives alone in %s: %r, must be %r" % (k + 1, text, diff, d.get(diff[0]), e.get(diff[0])), wh, case, [{"cmd": name, "aspect": "value", "attrs": diff, "class": cls}])
        if ln is not None and ln != eln:
            return bad(("lineno", name), "object %d of %r carries line %r, must be %d" % (k + 1, text, ln, eln), wh, case, [{"cmd": name, "aspect": "lineno", "class": cls}])
    return ok(1)


def both(seqs, thorough):
    for i, s in enumerate(seqs):
        yield s, False
        if all(g == 1 for l, g in s) and (thorough or i < 3 or len(s) > 3):
            yield s, True


def task(t):
    kind, ver, name, thorough = t
    w = world(ver)
    gi, ng, g = groups()[ver][name]
    cls = w.cls_name(name)
    if datalist(w, w.base, name) is None:
        return
    ends = ver in (g["versions"][0], g["versions"][-1])
    singles = {l: e for l, e in g["lines"].items() if "\n" not in l}
    good = [l for l, e in singles.items() if isinstance(e, list) and len(l.split(" ")) > 0]
    errs = sorted((l for l, e in singles.items() if e == "E"), key=lambda l: (len(l), l))
    oks = pick(good, 24 if thorough else 8)
    es = errs if thorough else errs[:: max(1, len(errs) // 14)]
    n = 0
    for q, (seq, split) in enumerate(both(sequences(oks, es), thorough)):
        r = history(w, name, seq, cls, split)
        if r[0] == "ok":
            n += 1
        else:
            yield r
    yield ok(n)
    yield from distant(w, name, oks, cls)
    # warnings about repeated definitions
    k = 0
    for l, e in sorted(g["lines"].items()):
        if not isinstance(e, list) or "\n" not in l and not thorough and zlib.crc32(l.encode()) % 4:
            continue
        out = w.read(l + "\n")
        wn = warn_names(out) if out.status == "ok" and not out.why else None
        if wn is None:
            continue
        exp = (g["newest"][l] if ver != g["versions"][0] and l in g["newest"] else e)
        if not isinstance(exp, list):
            continue
        a, b = exp[2].count("KickstartParseWarning"), wn.count("KickstartParseWarning")
        if (a > 0) != (b > 0) or a > 0 and a != b:
            yield bad(("warn", name, a > b), "%r gives %d parse warnings about repeated definitions, must give %d" % (l, b, a), where(w, name), {"version": ver, "input": l}, [{"cmd": name, "aspect": "warn", "class": cls}])
        else:
            k += 1
    yield ok(k)
    # comparison of data objects
    k = 0
    for a, b, v in spec_eq().get(name, {}).get(str(gi), ()):
        if v is None or None in v:
            continue
        c = eq(w, name, a, b)
        if c is None or None in c:
            yield undecided("comparison", "%s: %s | %s" % (ver, a, b))
            continue
        if c != v:
            what = ["==", "!=", "reversed ==", "== None", "!= None"]
            i = [x != y for x, y in zip(c, v)].index(True)
            yield bad(("eq", name, what[i]), "the data of %r and %r: %s is %s, must be %s" % (a, b, what[i], c[i], v[i]), where(w, name), {"version": ver, "lines": [a, b]}, [{"cmd": name, "aspect": "eq", "class": cls}])
        else:
            k += 1
    yield ok(k)
    yield ("sample", "%s %s: %d accepted lines, %d refused lines, %d comparisons" % (ver, name, len(oks), len(es), k))


_eq = {}


def spec_eq():
    if not _eq:
        _eq.update(spec.load("eq"))
    return _eq


COST = {"part": 5, "logvol": 6, "raid": 4, "network": 4, "repo": 3, "user": 2}


def check(rep):
    spec_eq()
    ts = []
    thorough = rep.tier == "thorough"
    for v, d in groups().items():
        for n, (gi, ng, g) in d.items():
            vs = g["versions"]
            if not thorough and v not in (vs[0], vs[-1]):
                continue
            if n not in spec_eq():
                continue
            ts.append((COST.get(n, 1), ("h", v, n, thorough)))
    ts.sort(key=lambda t: -t[0])
    rep.run(task, [t for c, t in ts])
