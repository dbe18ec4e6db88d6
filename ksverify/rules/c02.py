"""Writers only use the syntax of their own version.

For every command of every version objects are built abstractly: read from
published lines (shortest, longest and those that together show every option)
and made by a program (new command object, new data object in its list). In
each, every public attribute alone, all of them, and all but one are set to
probe values (word hole, number, True, False, zero, empty, list), and the
writer is interpreted. Every command name in the text must be a command of the
version, and every word starting with '--' must be in the option table that
the interpreted _getParser of the same version builds, with a value exactly
when the option takes one."""
import re
import shlex
import zlib

from .. import ctor, spec
from ..check import bad, ok, undecided, world
from ..datalist import pick, pick2
from ..values import *
from ..world import tpl, untpl, versions
from .c01 import where

INTERNAL = frozenset(["removedKeywords", "removedAttrs", "op", "levelMap", "typeMap", "whenMap", "bootprotoList", "bind_to_choices", "validActions", "validModes", "exclusive_required_options"])


# the source of an installation is always given: it is only probed with true values
NEEDED = {"url": ("url", "mirrorlist", "metalink")}
FALSY = ("False", "0", "empty")


def tokens(text):
    """Words of the text with quotes removed; [] lines for comments."""
    res = []
    for line in text.split("\n"):
        s = line.strip()
        if not s or s.startswith("#"):
            continue
        try:
            ws = shlex.split(re.sub(r"[{}]", "", s))
        except ValueError:
            continue
        if ws:
            res.append(ws)
    return res


def table(w, name, cache):
    k = (w.ver, name)
    if k not in cache:
        t = {}
        tab = w.table(name) if isinstance(w.cmds.get(name), Ref) else None
        if tab is None:
            t = None
        else:
            for s, a in tab.items():
                n = w.base.get(a).d.get("nargs")
                t[s] = n.v if isinstance(n, Const) else "?"
        cache[k] = t
    return cache[k]


RAW = {"auth", "authconfig", "authselect", "realm", "deviceprobe"}
_tab = {}


def wrong(w, name, text):
    """First thing in the text that the version does not read, or None."""
    for ws in tokens(text):
        c = ws[0]
        if c not in w.cmds or not isinstance(w.cmds[c], Ref):
            return "command %s" % c
        if c in RAW:
            continue
        t = table(w, c, _tab)
        if t is None:
            continue
        for i, x in enumerate(ws[1:], 1):
            if not x.startswith("--") or x == "--":
                continue
            o, eq, v = x.partition("=")
            if o not in t:
                return "%s %s" % (c, o)
            n = t[o]
            if n == 0 and eq:
                return "%s %s with a value" % (c, o)
            if n not in (0, "?", "*", REMAINDER) and not eq and (i + 1 >= len(ws) or ws[i + 1].startswith("--")):
                return "%s %s without a value" % (c, o)
    return None


REMAINDER = "..."


def probes(w, st):
    return [("word", tpl("{w:q}")), ("7", Const(7)), ("True", TRUE), ("False", FALSE), ("list", w.I.list_(st, [tpl("{w:q}")])), ("0", Const(0)), ("empty", Const("")), ("1", Const(1)), ("-1", Const(-1)),
            ("list2", w.I.list_(st, [tpl("{w:q}"), tpl("{w:r}")]))]


def list_addr(w, st, name):
    """Address of the command's data list."""
    s = st.copy()
    v, out = w.guard(s, lambda s: w.I.call(s, w.I.getattr_(s, w.commands(st)[name], "dataList"), [], {}))
    return v.addr if isinstance(v, Ref) else None


def settable(w, st, ref, skip=None):
    o = st.get(ref)
    res = []
    d = {}
    for c in reversed(o.cls.mro):
        for k, v in st.heap[c.addr].d.items() if c.addr in st.heap else ():
            if isinstance(v, Const) or isinstance(v, Ref) and st.get(v).kind in ("list", "tuple", "dict", "set"):
                d[k] = v
    d.update(o.d)
    for k, v in sorted(d.items()):
        if k.startswith("_") or k in ctor.SKIP or k in INTERNAL:
            continue
        if isinstance(v, Ref) and v.addr == skip:
            continue
        if isinstance(v, Ref) and st.get(v).kind == "list" and any(isinstance(x, Ref) and st.get(x).kind == "inst" for x in st.get(v).items):
            continue
        res.append(k)
    return res


def put(w, st, ref, k, v):
    o = st.w(ref) if not isinstance(ref, str) else ref
    o.d[k] = v


class Judge(object):
    def __init__(self, w, name):
        self.w, self.name = w, name
        self.n = 0

    def write(self, st, ref, how):
        w = self.w
        v, out = w.str_of(st, ref)
        if out.status in ("exc", "err"):
            return None       # nothing is written
        if out.status != "ok" or out.why or sparts(v) is None:
            return undecided("%s: %s" % (self.name, out.why or out.status), "%s: %s" % (w.ver, how))
        t = untpl(v)
        b = wrong(w, self.name, t)
        if b is None:
            self.n += 1
            return None
        return bad((self.name, w.cls_name(self.name), b), "%s writes %s, which %s does not read: %r (%s)" % (w.cls_name(self.name), b, w.ver, t, how), where(w, self.name),
                   {"version": w.ver, "text": t, "made": how}, [{"cmd": self.name, "class": w.cls_name(self.name), "token": b, "made": str(how)}])

    def skip(self, st):
        return list_addr(self.w, st, self.name)

    def vary(self, st0, ref, obj, how, tags=None):
        """obj: the object whose attributes are set; ref: what is written."""
        w = self.w
        x = self.write(st0.copy(), ref, how)
        if x:
            yield x
        names = settable(w, st0, obj, self.skip(st0))
        for k in names:
            for tag, _v in probes(w, st0.copy()):
                if tags and tag not in tags or tag in FALSY and k in NEEDED.get(self.name, ()):
                    continue
                st = st0.copy()
                put(w, st, obj, k, dict(probes(w, st))[tag])
                x = self.write(st, ref, "%s, then %s = %s" % (how, k, tag))
                if x:
                    yield x

    def mix(self, st0, ref, obj, how):
        w = self.w
        names = settable(w, st0, obj, self.skip(st0))
        for tag in ("word", "7", "True", "list", "typed"):
            for leave in [None] + (names if tag == "typed" else []):
                st = st0.copy()
                for k in names:
                    if k == leave:
                        continue
                    p = dict(probes(w, st))
                    t = tag
                    if tag == "typed":
                        cur = st0.get(obj).d.get(k, FALSE)
                        t = "True" if isinstance(cur, Const) and isinstance(cur.v, bool) else "7" if isinstance(cur, Const) and isinstance(cur.v, int) else "list" if isinstance(cur, Ref) else "word"
                    put(w, st, obj, k, p[t])
                x = self.write(st, ref, "%s, then every attribute%s = %s" % (how, " but " + leave if leave else "", tag))
                if x:
                    yield x


def task(t):
    ver, names, tier = t
    w = world(ver)
    for n, ls in names:
        if n not in w.cmds or not isinstance(w.cmds[n], Ref):
            continue
        j = Judge(w, n)
        ref = w.cmds[n]
        for x in j.vary(w.base, ref, ref, "new object"):
            yield x
        for x in j.mix(w.base, ref, ref, "new object"):
            yield x
        # new data objects
        mod = w.base.get(ref).cls.module
        for dn, c in sorted(w.data_cls(None).items()):
            if c.module != mod:
                continue
            d, st, out = ctor.make(w, c, {})
            if out.status != "ok":
                continue
            for x in j.vary(st, d, d, "new %s" % c.name):
                yield x
            for x in j.mix(st, d, d, "new %s" % c.name):
                yield x
        for i, l in enumerate(ls):
            st = w.fresh()
            out = w.read(l + "\n", st)
            if out.status != "ok" or out.why:
                continue
            ref = w.commands(st)[n]
            objs = [ref]
            for v in st.get(ref).d.values():
                if isinstance(v, Ref) and st.get(v).kind == "list":
                    objs += [x for x in st.get(v).items if isinstance(x, Ref) and st.get(x).kind == "inst"]
            for o in objs:
                if o is ref and len(objs) > 1 and i > 1:
                    continue
                for x in j.vary(st, ref, o, repr(l), None if tier == "thorough" or i < 2 else ("word", "7", "True", "list")):
                    yield x
        yield ok(j.n)


def check(rep):
    by = {}
    for n, gs in spec.commands().items():
        for g in gs:
            al = [l for l, e in g["lines"].items() if isinstance(e, list) and "\n" not in l and l.split(" ")[0] == n]
            if rep.tier == "thorough":
                ls = list(dict.fromkeys(pick(al, 12) + pick2(al, 8)))
            else:
                long_ = sorted(al, key=lambda l: (-l.count("--"), len(l), l))[:2]
                ls = list(dict.fromkeys(long_ + pick(al, 2)))
            vs = g["versions"] if rep.tier == "thorough" else list(dict.fromkeys([g["versions"][0], g["versions"][-1]]))
            for v in vs:
                by.setdefault(v, []).append((n, ls))
    ts = []
    for v, d in by.items():
        for i in range(0, len(d), 6):
            ts.append((v, d[i:i + 6], rep.tier))
    rep.run(task, ts)
