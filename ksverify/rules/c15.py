"""Keyword arguments of constructors and of calling an object.

For every command and data class of every version the constructor and
__call__ are interpreted with each published attribute given alone (a word
hole, True, False, zero, a number, the empty text, None and a list), with all
of them together (different holes), with unknown names and with the names
removed in that version. The resulting object must have exactly the given
values and its published defaults otherwise; removed names must not exist.
The same is done for the proxy command 'method' and for Script."""
from .. import ctor, spec
from ..check import bad, ok, undecided, world
from ..values import *
from ..world import mod_attr, tpl, unsure

_pub = {}


def pub():
    if not _pub:
        _pub.update(spec.load("ctor"))
    return _pub


def place(c, what):
    return "%s.py %s.%s" % (c.module.replace(".", "/"), c.name, what)


def strict(a, b):
    return type(a) is type(b) and a == b


def delta(have, want):
    """Definite differences of the attributes from the wanted ones."""
    out = []
    for k in sorted(want):
        if k not in have:
            out.append((k, want[k], "<no attribute>"))
        elif unsure(have[k]) or unsure(want[k]):
            continue
        elif not strict(have[k], want[k]):
            out.append((k, want[k], have[k]))
    return out


class Case(object):
    def __init__(self, w, kind, name, c, e):
        self.w, self.kind, self.name, self.c, self.e = w, kind, name, c, e

    def bad(self, what, kw, msg):
        return bad((self.c.name, what, msg.split(" ")[0]), "%s(%s): %s" % (self.c.name if what == "__init__" else self.c.name + " object", ", ".join(kw), msg),
                   place(self.c, what), {"version": self.w.ver, "class": self.c.name, "kwargs": kw},
                   [{"class": self.c.name, "what": what, "attr": msg.split(" ")[0], "kwargs": kw}])

    def judge(self, what, st, ref, out, want, kw):
        if out.status in ("exc", "err"):
            return self.bad(what, kw, "%s raised" % (out.exc,))
        if out.status != "ok" or out.why:
            return undecided("%s %s: %s" % (self.c.name, what, out.why or out.status), str(kw))
        have = ctor.attrs(self.w, st, ref)
        ds = delta(have, want)
        for r in self.e["removed"]:
            if r in have:
                ds.append((r, "<no attribute>", have[r]))
        if "zzunknown" in have:
            ds.append(("zzunknown", "<no attribute>", have["zzunknown"]))
        if ds:
            return self.bad(what, kw, "; ".join("%s must be %r but is %r" % d for d in ds[:4]))
        return ok()

    def both(self, st0, ref0, dflt, named):
        """named(state) -> [(name, value)] given; through the constructor and a call."""
        w = self.w
        fixed = set(self.e["fixed"])
        if self.e["kw"]:
            st = w.fresh()
            kw = [(k, v) for k, v in named(st) if k not in fixed]
            if kw:
                want = dict(dflt)
                want.update({k: w.canon(st, v) for k, v in kw if k in dflt})
                want.update(self.implied(want, kw, st))
                r, st, out = ctor.make(w, self.c, kw, st)
                yield self.judge("__init__", st, r, out, want, sorted("%s=%s" % (k, w.canon(st, v)) for k, v in kw))
        st = st0.copy()
        kw = named(st)
        want = dict(dflt)
        want.update({k: w.canon(st, v) for k, v in kw if k in dflt})
        out = ctor.call(w, ref0, st, kw)
        yield self.judge("__call__", st, ref0, out, want, sorted("%s=%s" % (k, w.canon(st, v)) for k, v in kw))

    def implied(self, want, kw, st):
        # published: an ostree remote is named after the OS unless it is given
        names = [k for k, v in kw]
        if self.name == "ostreesetup" and "osname" in names and "remote" not in names:
            return {"remote": want["osname"]}
        # published: an empty list or level stays the default
        if self.name == "logging" and want.get("level") in ("", 0, False, None):
            return {"level": "info"}
        if self.name == "mount" and not want.get("mount_points"):
            return {"mount_points": []}
        return {}

    def run(self, tags):
        w, e = self.w, self.e
        r, st, out = ctor.make(w, self.c, {})
        dflt = dict(e["attrs"])
        for k in e["fixed"]:
            dflt.pop(k, None)
        yield self.judge("__init__", st, r, out, dflt, [])
        if out.status != "ok":
            return
        have = ctor.attrs(w, st, r)
        dflt = {k: v for k, v in dflt.items() if k in have}
        for a in sorted(dflt):
            for tag in tags:
                def one(s, a=a, tag=tag):
                    return [(a, dict(ctor.probes(s, w.I, "q"))[tag])]
                for x in self.both(st, r, dflt, one):
                    yield x
        if len(dflt) > 1:
            for sh in (0, 1):
                for x in self.both(st, r, dflt, lambda s: [(a, tpl("{w:%s%d}" % (a, sh))) for a in sorted(dflt, reverse=bool(sh))]):
                    yield x
            for x in self.both(st, r, dflt, lambda s: [(a, FALSE if dflt[a] is True else TRUE) for a in sorted(dflt)]):
                yield x
        for x in self.both(st, r, dflt, lambda s: [("zzunknown", tpl("{w:z}"))]):
            yield x
        for a in e["removed"]:
            for v in (tpl("{w:z}"), FALSE):
                for x in self.both(st, r, dflt, lambda s: [(a, v)]):
                    yield x
        if e["removed"] and dflt:
            a0 = sorted(dflt)[0]
            for x in self.both(st, r, dflt, lambda s: [(a, tpl("{w:z}")) for a in e["removed"]] + [("zzunknown", TRUE), (a0, tpl("{w:q}"))]):
                yield x


def find(w, kind, name):
    if kind == "command":
        r = w.cmds.get(name)
        return w.base.get(r).cls if isinstance(r, Ref) else None
    return w.data_cls(name).get(name)


def method_cases(w):
    """The proxy forwards to the selected installation method only."""
    p = pub()[w.ver]
    m = p.get("command method")
    if m is None or "method" not in w.cmds:
        return
    c = w.base.get(w.cmds["method"]).cls
    for name in ("cdrom", "harddrive", "nfs", "url", "liveimg", "hmc"):
        e = p.get("command " + name)
        if e is None or name not in w.cmds:
            continue
        for a in sorted(e["attrs"]) or [None]:
            if a in e["fixed"]:
                continue
            for prev in (None, "nfs", "cdrom"):
                st = w.fresh()
                if prev is not None:
                    ctor.call(w, w.cmds["method"], st, [("method", Const(prev))])
                out = ctor.call(w, w.cmds["method"], st, [("method", Const(name))] + ([(a, tpl("{w:q}"))] if a else []))
                case = {"version": w.ver, "class": c.name, "kwargs": {"method": name, a or "-": "{w:q}"}, "previous": prev}
                if out.status == "unknown" or out.status == "ok" and out.why or out.status in ("maybe", "mixed"):
                    yield undecided("method: %s" % (out.why or out.status), str(case))
                    continue
                if out.status != "ok":
                    if name in ("liveimg", "hmc"):
                        continue
                    yield bad((c.name, "method"), "method(method=%r, %s=..) raises %s" % (name, a, out.exc), place(c, "__setattr__"), case)
                    continue
                msg = None
                for other in ("cdrom", "harddrive", "nfs", "url"):
                    if other not in w.cmds:
                        continue
                    have = ctor.attrs(w, st, w.cmds[other])
                    want = dict(p["command " + other]["attrs"])
                    if other == name and a:
                        want[a] = "<{w:q}>"
                    ds = delta(have, want)
                    seen = st.get(w.cmds[other]).d.get("seen")
                    if ds:
                        msg = "%s.%s must be %r but is %r" % ((other,) + ds[0])
                    elif isinstance(seen, Const) and seen.v is not (other == name):
                        msg = "%s.seen is %r" % (other, seen.v)
                if msg:
                    yield bad((c.name, "method"), "method(method=%r, %s={w:q}) after %r: %s" % (name, a, prev, msg), place(c, "__setattr__"), case)
                else:
                    yield ok()


SCRIPT = {"interp": "/bin/sh", "inChroot": False, "lineno": None, "logfile": None, "errorOnFail": False, "type": 0}


def script_cases(w):
    cls = mod_attr(w.base, "pykickstart.parser", "Script")
    body = tpl("{w:body}")

    def attrs_of(kw):
        st = w.fresh()
        v, out = w.guard(st, lambda s: w.I.call(s, cls, [body], dict(kw)))
        if out.status != "ok" or out.why:
            return None, out
        o = st.get(v)
        return {k: w.canon(st, x) for k, x in o.d.items() if not k.startswith("_")}, out
    for names in [()] + [(n,) for n in SCRIPT] + [tuple(SCRIPT)]:
        for val in ("word", "true", "false"):
            kw = {n: tpl("{w:%s}" % n) if val == "word" else TRUE if val == "true" else FALSE for n in names}
            have, out = attrs_of(kw)
            case = {"version": w.ver, "class": "Script", "kwargs": sorted(names)}
            if have is None:
                if out.status in ("exc", "err"):
                    yield bad(("Script", "__init__"), "Script(.., %s) raises %s" % (", ".join(names), out.exc), "pykickstart/parser.py Script.__init__", case)
                else:
                    yield undecided("Script: " + (out.why or out.status), str(case))
                continue
            want = dict(SCRIPT, script="<{w:body}>")
            want.update({n: "<{w:%s}>" % n if val == "word" else val == "true" for n in names})
            ds = delta(have, want)
            if ds:
                yield bad(("Script", ds[0][0]), "Script(.., %s): %s must be %r but is %r" % ((", ".join(names),) + ds[0]), "pykickstart/parser.py Script.__init__", case)
            else:
                yield ok()


TAGS = ["word", "True", "False", "0", "empty", "None", "list", "7"]


def task(t):
    ver, items = t
    w = world(ver)
    for kind, name in items:
        if kind == "method":
            for x in method_cases(w):
                yield x
            continue
        if kind == "script":
            for x in script_cases(w):
                yield x
            continue
        e = pub()[ver][kind + " " + name]
        c = find(w, kind, name)
        if c is None:
            yield bad((kind, name), "%s %s of %s is gone" % (kind, name, ver), name, {"version": ver})
            continue
        for x in Case(w, kind, name, c, e).run(TAGS):
            yield x


def check(rep):
    ts, seen = [], set()
    from ..world import versions
    for ver in sorted(versions(), key=lambda v: -versions()[v]):
        cur, n = [("method", ""), ("script", "")], 0
        for k, e in sorted(pub()[ver].items()):
            kind, name = k.split(" ", 1)
            if rep.tier == "quick":
                # one version for each published class
                key = (k, str(e))
                if key in seen:
                    continue
                seen.add(key)
            cur.append((kind, name))
            n += len(e["attrs"]) + 1
            if n > 60:
                ts.append((ver, cur))
                cur, n = [], 0
        if cur:
            ts.append((ver, cur))
    rep.run(task, ts)
