"""Versions, handlers and class maps.

The conversion functions are interpreted for every version name, number and
long spelling (and for words that are no version), the handler factory for
every version; every entry of every command and data map is compared with the
versions of all implementations found in the module it comes from. For Fedora
versions the entry must be the newest Fedora implementation not newer than the
version; for RHEL versions the newest RHEL implementation not newer than it,
or the implementation it was published with when there is none."""
import re

from .. import spec
from ..check import bad, ok, undecided, world
from ..interp import AnalysisBroken
from ..script import Run
from ..values import *
from ..world import mod_attr, program, tpl, unsure, versions

VER = "pykickstart.version"


def call(w, name, args, kw=None, st=None):
    """(value, outcome) of calling a function of the version module."""
    st = st or w.fresh()
    f = mod_attr(st, VER, name)
    return w.guard(st, lambda s: w.I.call(s, f, args, {k: v for k, v in (kw or {}).items()}))


def spell(v):
    """Published spellings of a version."""
    m = re.match(r"^(FC|F|RHEL)(\d+)$", v)
    k, n = m.groups()
    out = [v, v.lower()]
    if k in ("FC", "F"):
        out += ["Fedora %s" % n, "fedora Core %s" % n, "FEDORA release %s" % n]
    else:
        out += ["Red Hat Enterprise Linux %s" % n, "red hat enterprise linux %s.1" % n, "Red Hat Enterprise Linux Server %s" % n, "Red Hat Enterprise Linux AS %s.10.2" % n]
    return out


NOVER = ["", "F", "FC", "RHEL", "FC7", "FC34", "F3", "F6", "F0", "F99", "F 20", "F20 ", "RHEL2", "RHEL99", "Fedora", "Fedora 2", "Fedora 99", "Fedora20", "Fedora 20 beta", "Red Hat Enterprise Linux",
         "Red Hat Enterprise Linux 2", "Red Hat Enterprise Linux 99", "Red Hat 7", "Ubuntu 20", "20", "-1", "F-20", "DEVEL2", "xFedora 20", "rawhide"]


def conversions(_t):
    w = world("F33")
    pub = {v: d["number"] for v, d in spec.load("maps").items()}
    cur = versions()
    vm = w.fresh()
    items = vm.get(mod_attr(vm, VER, "versionMap")).items
    nums = {}
    KVE = mod_attr(w.base, "pykickstart.errors", "KickstartVersionError")
    whereV = "pykickstart/version.py versionMap"
    for k, v in sorted(items.items(), key=repr):
        if not isinstance(k, Const) or not isinstance(v, Const):
            yield undecided("version map", repr(k))
            continue
        if k.v == "DEVEL":
            continue
        if v.v in nums:
            yield bad(("num", v.v), "versions %s and %s have the same number %r" % (nums[v.v], k.v, v.v), whereV, {"version": k.v})
        else:
            yield ok()
        nums[v.v] = k.v
    for k in pub:
        if k not in cur:
            yield bad(("gone", k), "version %s is gone" % k, whereV, {"version": k})
    # order of releases within a product line and between them
    order = sorted(pub, key=pub.get)
    now = [k for k in sorted(cur, key=cur.get) if k in pub]
    if now != [k for k in order if k in cur]:
        yield bad(("order",), "the order of versions changed", whereV, {"order": now})
    else:
        yield ok(len(now))
    devel = items.get(Const("DEVEL"))
    newest = max((n for n in nums if nums[n].startswith("F")), default=None)
    if isinstance(devel, Const) and devel.v != newest:
        yield bad(("devel",), "DEVEL is %r, but the newest version is %s (%r)" % (devel.v, nums.get(newest), newest), whereV, {"version": "DEVEL"})
    else:
        yield ok()

    def expect(fn, args, kw, want, case, where):
        v, out = call(w, fn, args, kw)
        if out.status == "ok" and not out.why:
            c = w.canon(out.state, v)
            if unsure(c):
                return undecided(fn, repr(case))
            if want == "E" or c != want:
                return bad((fn, str(want == "E")), "%s%r gives %r, must %s" % (fn, case, c, "raise KickstartVersionError" if want == "E" else "be %r" % (want,)), where, {"call": fn, "args": case})
            return ok()
        if out.status in ("err", "exc"):
            if want == "E" and out.exc.cls.issub(KVE):
                return ok()
            return bad((fn, "raises"), "%s%r raises %s, must %s" % (fn, case, out.exc, "raise KickstartVersionError" if want == "E" else "be %r" % (want,)), where, {"call": fn, "args": case})
        if out.status == "mixed" and want == "E":
            return ok() if all(e.cls.issub(KVE) for e, s in out.excs) else undecided(fn, repr(case))
        return undecided("%s: %s" % (fn, out.why or out.status), repr(case))
    sv, vs_, vl = "pykickstart/version.py stringToVersion", "pykickstart/version.py versionToString", "pykickstart/version.py versionToLongString"
    for v, n in sorted(cur.items()):
        if v not in pub:
            continue
        for s in spell(v):
            yield expect("stringToVersion", [Const(s)], {}, n, (s,), sv)
        isdev = isinstance(devel, Const) and devel.v == n
        yield expect("versionToString", [Const(n)], {}, "DEVEL" if isdev else v, (n,), vs_)
        yield expect("versionToString", [Const(n)], {"skipDevel": TRUE}, v, (n, "skipDevel"), vs_)
        long = re.sub("^FC?", "Fedora", v).replace("RHEL", "RedHatEnterpriseLinux")
        yield expect("versionToLongString", [Const(n)], {}, long, (n,), vl)
        for d in (-1, 1, 50):
            if n + d not in nums:
                yield expect("versionToString", [Const(n + d)], {}, "E", (n + d,), vs_)
                yield expect("versionToString", [Const(n + d)], {"skipDevel": TRUE}, "E", (n + d,), vs_)
    if isinstance(devel, Const):
        for s in ("DEVEL", "devel", "Devel"):
            yield expect("stringToVersion", [Const(s)], {}, devel.v, (s,), sv)
    for s in NOVER:
        yield expect("stringToVersion", [Const(s)], {}, "E", (s,), sv)
    for c in ("stringToVersion", "versionToString"):
        yield expect(c, [Const("nope")], {}, "E", ("nope",), sv)
    # version comment in a file
    yield from from_file(w, cur, devel)


def from_file(w, cur, devel):
    wh = "pykickstart/version.py versionFromFile"
    lead = ["", "\n", "# {t:c}\n", "\n  \n# {t:c}\n#platform={w:p}\n", "lang {w:l}\n", " #version=FC3\n", "# #version=FC3\n", "%pre\n{w:x}\n%end\n"]
    tail = ["", "\n", "\nlang {w:m}\n", "\n#version=FC4\n", "   \n"]
    for i, v in enumerate(sorted(cur)):
        for j, a in enumerate(lead):
            for k, b in enumerate(tail):
                if (i + j + k) % 3 and i > 3:
                    continue
                for name in ((v, spell(v)[2]) if (j + k) % 2 else (v.lower(),)):
                    yield one_file(w, a + "#version=" + name + b, cur[v], wh)
    for a in lead:
        if isinstance(devel, Const):
            yield one_file(w, a + "#version\nlang {w:x}\n", devel.v, wh)
            yield one_file(w, a, devel.v, wh)
        yield one_file(w, a + "#version=F99\n", "E", wh)
        yield one_file(w, a + "#version=\n", "E", wh)


def one_file(w, text, want, wh):
    st = w.fresh()
    st.new("dict", items={Const("ks"): tpl(text)}, addr="$fs", rest=NONE)
    v, out = call(w, "versionFromFile", [Const("ks")], st=st)
    KVE = mod_attr(w.base, "pykickstart.errors", "KickstartVersionError")
    case = {"file": text}
    if out.status == "ok" and not out.why:
        c = w.canon(out.state, v)
        if unsure(c):
            return undecided("versionFromFile", text)
        return ok() if c == want else bad(("file",), "versionFromFile gives %r, must be %r" % (c, want), wh, case)
    if out.status in ("err", "exc"):
        return ok() if want == "E" and out.exc.cls.issub(KVE) else bad(("file",), "versionFromFile raises %s, must give %r" % (out.exc, want), wh, case)
    return undecided("versionFromFile: %s" % (out.why or out.status), text)


def prefix(name, cur):
    m = re.match(r"^(FC\d+|F\d+|RHEL\d+)_(\w+)$", name)
    return (m.group(1), m.group(2)) if m and m.group(1) in cur else (None, None)


def rank(v, cur):
    return cur[v]


def handler(ver):
    cur = versions()
    P, I, st0 = program()
    w = world(ver)
    whh = "pykickstart/handlers/%s.py" % ver.lower()
    num = cur[ver]
    st = w.base
    # the factory, by name and by number
    seen = None
    for arg in (Const(ver), Const(num), Const(ver.lower()), Const(str(num))):
        for fn in ("returnClassForVersion", "makeVersion"):
            v, out = call(w, fn, [arg])
            if out.status != "ok" or out.why:
                if out.status in ("err", "exc"):
                    if arg.v == str(num):
                        continue
                    yield bad((fn,), "%s(%r) raises %s" % (fn, arg.v, out.exc), "pykickstart/version.py %s" % fn, {"version": ver, "arg": arg.v})
                else:
                    yield undecided("%s: %s" % (fn, out.why or out.status), ver)
                continue
            c = v if isinstance(v, Cls) else out.state.get(v).cls if isinstance(v, Ref) else None
            if c is None:
                yield undecided(fn, ver)
                continue
            hv = I.getattr_(out.state, v, "version")
            if isinstance(hv, Const) and hv.v != num:
                yield bad((fn, "ver"), "%s(%r) gives a handler of version %r" % (fn, arg.v, hv.v), whh, {"version": ver})
            elif seen is not None and c is not seen:
                yield bad((fn, "cls"), "%s(%r) gives %s, but another spelling gives %s" % (fn, arg.v, c.name, seen.name), whh, {"version": ver})
            else:
                yield ok()
            seen = c
    hc = st.get(w.h).cls
    pub = spec.load("maps").get(ver)
    fed = ver.startswith("F")
    for mname, kind in (("commandMap", "commands"), ("dataMap", "data")):
        m = st.get(I.getattr_(st.copy(), hc, mname))
        if m.rest is not None:
            yield undecided(mname, ver)
            continue
        for k, c in sorted(m.items.items(), key=repr):
            if not isinstance(c, Cls):
                yield undecided("map entry", "%s %s" % (ver, k.v))
                continue
            v, suf = prefix(c.name, cur)
            if v is None:
                yield undecided("unversioned class name", "%s %s %s" % (ver, k.v, c.name))
                continue
            mod = st.heap.get("mod:" + c.module)
            cands = []
            for n, x in mod.d.items():
                if isinstance(x, Cls) and x.module == c.module:
                    pv, ps = prefix(x.name, cur)
                    if ps == suf:
                        cands.append((cur[pv], pv, x))
            mine = [x for x in cands if x[0] <= num and x[1].startswith("F") == fed]
            if mine:
                want = max(mine, key=lambda x: x[0])[2].name
                why = "is the newest %s implementation not newer than %s" % ("Fedora" if fed else "RHEL", ver)
            else:
                want, why = None, None
            if not fed and pub is not None:
                p = pub[kind].get(k.v)
                if p is not None and any(x[2].name == p for x in cands):
                    # published back-ports and older choices of a RHEL version
                    want, why = p, "is what %s was published with" % ver
            if not fed and c.name == want or fed and c.name == want:
                yield ok()
            elif want is None:
                if fed:
                    yield bad((ver, kind, k.v, "newer"), "%s maps %s to %s, which is newer than the version" % (whh, k.v, c.name), "%s %s" % (whh, mname), {"version": ver, "entry": k.v})
                else:
                    yield ok()
            else:
                yield bad((ver, kind, k.v), "%s maps %s to %s, but %s %s" % (whh, k.v, c.name, want, why), "%s %s" % (whh, mname), {"version": ver, "entry": k.v})
        # what the handler really holds
        if kind == "commands":
            for k, c in m.items.items():
                r = w.cmds.get(k.v)
                if isinstance(c, Cls) and isinstance(r, Ref):
                    if st.get(r).cls is not c:
                        yield bad(("inst", k.v), "the handler of %s holds %s for %s instead of %s" % (ver, st.get(r).cls.name, k.v, c.name), whh, {"version": ver, "entry": k.v})
                    else:
                        yield ok()
                elif isinstance(c, Cls):
                    yield bad(("inst", k.v), "the handler of %s has no object for %s" % (ver, k.v), whh, {"version": ver, "entry": k.v})
        else:
            for k, c in m.items.items():
                v, out = w.guard(w.fresh(), lambda s: I.getattr_(s, w.h, k.v))
                if out.status == "ok" and isinstance(v, Cls):
                    yield ok() if v is c else bad(("dinst", k.v), "handler.%s of %s is %s instead of %s" % (k.v, ver, v.name, c.name), whh, {"version": ver, "entry": k.v})
                elif out.status in ("exc", "err"):
                    yield bad(("dinst", k.v), "the handler of %s has no %s" % (ver, k.v), whh, {"version": ver, "entry": k.v})
    # data class and command class of one module fit each other
    dm = {c.module: c for c in w.data_cls("").values()}
    cm = {}
    for k, r in w.cmds.items():
        if isinstance(r, Ref):
            cm.setdefault(st.get(r).cls.module, (k, st.get(r).cls))
    for mod, d in dm.items():
        if mod not in cm:
            continue
        k, c = cm[mod]
        cv, dv = prefix(c.name, cur)[0], prefix(d.name, cur)[0]
        if cv is None or dv is None:
            continue
        alld = [prefix(x.name, cur) for x in st.heap["mod:" + mod].d.values() if isinstance(x, Cls) and x.module == mod]
        suf = prefix(d.name, cur)[1]
        if dv != cv and (cv, suf) in alld:
            yield bad((ver, "fit", k), "%s uses %s with data class %s although %s_%s exists" % (ver, c.name, d.name, cv, suf), whh, {"version": ver, "entry": k})
        else:
            yield ok()
    yield ("sample", "%s: %d commands, %d data classes" % (ver, len(w.cmds), len(dm)))


def dispatch(t):
    return conversions(t) if t is None else handler(t)


def check(rep):
    rep.run(dispatch, [None] + sorted(versions()))
