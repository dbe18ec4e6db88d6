"""A whole kickstart written and read again is the same kickstart.

For every version complete inputs (as many commands together as the version
accepts, scripts with every combination of header options and many body shapes,
foreign sections, packages, a platform line) are interpreted; the handler is
written and the text template is read in a new handler of the same version. It
must be accepted, the scripts must be the same in kind, options, body and
order, and writing once more must give the same text. Script objects as a
program makes them (every kind, each option and all of them) are written
and read the same way."""
import itertools
import zlib

from ..check import bad, ok, undecided, world
from ..script import BODIES, HSETS, OPENS, render
from ..values import *
from ..world import mod_attr, tpl, unsure, untpl, versions
from .c16 import SECTIONS, documents

# Commands that only go together in one order are read in the order they are written in.
WS = "pykickstart/parser.py Script.__str__"
WH = "pykickstart/base.py KickstartHandler.__str__"
FIELDS = ("type", "script", "interp", "logfile", "errorOnFail", "inChroot")


def scripts(w, st):
    it = st.get(st.get(w.h).d["scripts"])
    if it.rest is not None or not all(isinstance(x, Ref) for x in it.items):
        return None
    res = []
    for x in it.items:
        d = st.get(x).d
        r = {k: w.canon(st, d[k]) if k in d else "<no attribute>" for k in FIELDS}
        if unsure(r):
            return None
        res.append(r)
    return res


def text(w, st):
    v, out = w.str_of(st.copy(), w.h)
    if out.status in ("exc", "err"):
        return None, out
    if out.status != "ok" or out.why or sparts(v) is None:
        return None, None
    return untpl(v), out


def strip(b):
    """Body without what ends it before %end existed."""
    return b[1:-1].rstrip("\n") if b[:1] == "<" and b[-1:] == ">" else b.rstrip("\n")


def again(w, st, case, f8, prog=False):
    """Obligations of one state: written, read again, written again."""
    t, out = text(w, st)
    if t is None:
        if out is not None:
            return [bad(("raises", out.exc.cls.name), "writing raises %s at %s" % (out.exc, out.exc.site), str(out.exc.site), case)]
        return [undecided("text", str(case)[:300])]
    out = w.read(t)
    if out.status in ("exc", "err"):
        return [bad(("refused", str(out.exc.site)), "the written text is refused: %s at %s: %r" % (out.exc, out.exc.site, t[-400:]), str(out.exc.site), case)]
    if out.status != "ok" or out.why:
        return [undecided("re-reading: %s" % (out.why or out.status), str(case)[:300])]
    a, b = scripts(w, st), scripts(w, out.state)
    if a is None or b is None:
        return [undecided("scripts", str(case)[:300])]
    if len(a) != len(b):
        return [bad(("scripts",), "%d scripts are written, %d read back: %r" % (len(a), len(b), t[-400:]), WS, case)]
    n = 1
    for i, (x, y) in enumerate(zip(a, b)):
        for k in FIELDS:
            p, q = x[k], y[k]
            if k == "script" and isinstance(p, str) and isinstance(q, str) and (prog or not f8):
                p, q = strip(p), strip(q)
            if p != q:
                return [bad(("script", k), "script %d had %s %r, it reads back as %r (written text %r)" % (i + 1, k, x[k], y[k], t[-400:]), WS, case, [{"field": k}])]
            n += 1
    t2, o2 = text(w, out.state)
    if t2 is None:
        return [undecided("second text", str(case)[:300])]
    # comments of the writers may say where a line came from; those of scripts are compared above
    t, t2 = ("".join(l for l in x.splitlines(True) if not l.startswith("# ")) for x in (t, t2))
    if t2 != t and (f8 or not a):
        i = next((i for i in range(min(len(t), len(t2))) if t[i] != t2[i]), min(len(t), len(t2)))
        return [bad(("text",), "written again after reading it is %r where it was %r" % (t2[max(0, i - 40):i + 60], t[max(0, i - 40):i + 60]), WH, case, [{"old": t[max(0, i - 40):i + 60]}])]
    return [ok(n + 1)]


def in_order(w, used):
    """State after the lines in the order their commands are written; lines that are refused there are left out."""
    p = {}
    for n, l in used:
        v = w.base.get(w.cmds[n]).d.get("writePriority")
        if not isinstance(v, Const):
            return None, ()
        p[n] = (-1 if v.v is None else v.v, w.cls_name(n))
    st = w.fresh()
    res = []
    names = {n for n, l in used}
    for n, l in sorted(used, key=lambda x: p[x[0]]):
        if n == "lilo" and "bootloader" in names:
            continue        # two names of one thing
        s2 = st.copy()
        out = w.read(l + "\n", s2)
        if out.status == "ok" and not out.why:
            st = s2
            res.append((n, l))
    return st, res


def whole(t):
    ver, thorough = t
    w = world(ver)
    f8 = versions()[ver] >= versions()["F8"]
    for k, (st, used) in enumerate(documents(w, 4 if thorough else 3)):
        st, used = in_order(w, used)
        if not used:
            yield undecided("write priorities", ver)
            continue
        case = {"version": ver, "lines": [l for n, l in used]}
        yield from again(w, st, case, f8)
        for i, ls in enumerate(SECTIONS):
            if not thorough and (i + k) % 2:
                continue
            s2 = st.copy()
            out = w.read("\n".join(ls) + "\n", s2)
            if out.status == "ok" and not out.why:
                yield from again(w, s2, dict(case, sections=ls), f8)
        if k == 0:
            yield ("sample", "%s: %d commands written and read together" % (ver, len(used)))


def sections(t):
    ver, batch = t
    w = world(ver)
    f8 = versions()[ver] >= versions()["F8"]
    for kinds in batch:
        x = render(kinds)
        st = w.fresh()
        out = w.read(x, st)
        if out.status != "ok" or out.why:
            if out.status == "ok":
                yield undecided(out.why, x)
            continue
        yield from again(w, st, {"version": ver, "input": x}, f8)


VALS = {"interp": ["/usr/bin/{w:i}", "/usr/bin/{w:i} -{w:u}"], "logfile": ["/{w:l}", "/{w:l} {w:m}"], "errorOnFail": [True], "inChroot": [True, False],
        "lineno": [7]}
PBODY = ["{w:a} {w:b}\n", "{w:a}", "\n# {t:c}\n  {w:a}\n\n", "{w:a}\n\n"]


def made(t):
    """Scripts that a program makes and appends to the handler."""
    ver = t[0]
    w = world(ver)
    P, I = w.P, w.I
    st0 = w.fresh()
    S = mod_attr(st0, "pykickstart.parser", "Script")
    n = 0
    for ty in ("KS_SCRIPT_PRE", "KS_SCRIPT_POST", "KS_SCRIPT_TRACEBACK", "KS_SCRIPT_PREINSTALL", "KS_SCRIPT_ONERROR"):
        tv = mod_attr(st0, "pykickstart.constants", ty)
        kws = [{}] + [{k: v} for k, vs in sorted(VALS.items()) for v in vs] + [{k: vs[0] for k, vs in VALS.items()}]
        kws += [dict(a, **b) for a, b in itertools.combinations(kws[1:-1], 2)]
        for kw in kws:
            n += 1
            if "inChroot" in kw and kw["inChroot"] and ty != "KS_SCRIPT_POST":
                continue
            st = w.fresh()
            body = PBODY[n % len(PBODY)]
            args = {k: tpl(v) if isinstance(v, str) else Const(v) for k, v in kw.items()}
            args["type"] = tv

            def build(s):
                o = I.call(s, S, [tpl(body)], args)
                lst = s.get(w.h).d["scripts"]
                I.call(s, I.getattr_(s, lst, "append"), [o], {})
            _v, out = w.guard(st, build)
            case = {"version": ver, "script": body, "type": ty, "keywords": kw}
            if out.status in ("exc", "err"):
                yield bad(("made", "raises"), "Script(%r, %s) raises %s" % (body, kw, out.exc), "pykickstart/parser.py Script.__init__", case)
                continue
            if out.status != "ok" or out.why:
                yield undecided("made", str(case))
                continue
            yield from again(w, st, case, True, True)


def dispatch(t):
    return {"w": whole, "s": sections, "m": made}[t[0]](t[1:])


def check(rep):
    thorough = rep.tier == "thorough"
    vs = sorted(versions(), key=lambda v: -versions()[v])
    ts = [("w", v, thorough) for v in vs]
    f8 = versions()["F8"]
    ts += [("m", v) for v in vs if versions()[v] >= f8 and (thorough or v in (vs[0], vs[len(vs) // 2], "F8"))]
    bodies = [b for b in BODIES if b and "part" not in b]
    hs = sorted(HSETS) + ["pre", "post", "onerror", "traceback", "preinst"]
    for i, v in enumerate(vs):
        docs = []
        for j, h in enumerate(hs):
            if not thorough and (i + j) % 6:
                continue
            g = hs[(j * 7 + i) % len(hs)]
            docs.append([h] + bodies[(i + j) % len(bodies)] + ["end", "lang"])
            docs.append(["part", h] + bodies[(i + j) % len(bodies)] + ["end", "addon", "text", "end", g] + bodies[(i * 3 + j) % len(bodies)] + ["end", "pkgso", "pkg", "npkg", "grp", "end"])
        ts.append(("s", v, docs))
    rep.run(dispatch, ts)
