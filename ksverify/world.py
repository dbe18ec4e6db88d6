"""Abstract worlds: a handler and a parser of one syntax version in a frozen
abstract state, and the evaluation of abstract kickstart text in it."""
import re
import sys

from . import argmodel
from .interp import AnalysisBroken, Dead
from .program import Program
from .values import *

sys.setrecursionlimit(30000)

FACTS = {
    "w": {"word", "fresh", "T"},                       # any blank-free word
    "n": {"digits", "word", "fresh", "T", "pos"},      # any positive decimal numeral
    "b": {"blank", "fresh", "T"},                      # any text with a blank in it
    "t": {"line", "fresh", "T", "word"},               # any line content without special characters
}
HOLE = re.compile(r"\{([wnbt]):([A-Za-z0-9_.-]+)\}")
BOOKKEEPING = frozenset(["handler", "op", "currentCmd", "currentLine", "writePriority", "lineno"])


def tpl(text):
    """'part {w:mp} --size={n:s}' -> abstract string."""
    parts = []
    pos = 0
    for m in HOLE.finditer(text):
        parts.append(text[pos:m.start()])
        parts.append(Sym(m.group(2), "str", FACTS[m.group(1)]))
        pos = m.end()
    parts.append(text[pos:])
    return mk_str(parts)


def untpl(v):
    """Readable / re-readable form of an abstract string."""
    p = sparts(v)
    if p is None:
        return None
    out = []
    for x in p:
        if isinstance(x, str):
            out.append(x)
        elif x.has("digits"):
            out.append("{n:%s}" % x.label)
        elif x.has("blank"):
            out.append("{b:%s}" % x.label)
        else:
            out.append("{w:%s}" % x.label)
    return "".join(out)


_prog = {}


def program(faults=False, tools=False):
    """Program with all modules interpreted, built once per process."""
    k = (faults, tools)
    if k not in _prog:
        P = Program()
        I, st = P.load(tools=tools)
        P.faults = faults
        st.w("$ev").items = ()
        _prog[k] = (P, I, st.freeze())
    return _prog[k]


def mod_attr(st, mod, name):
    o = st.heap.get("mod:" + mod)
    if o is None or name not in o.d:
        raise AnalysisBroken("anchor %s.%s is gone" % (mod, name))
    return o.d[name]


def versions():
    """Version name -> number for every released version (no DEVEL alias)."""
    P, I, st = program()
    vm = st.get(mod_attr(st, "pykickstart.version", "versionMap"))
    res = {}
    for k, v in vm.items.items():
        if k.v != "DEVEL" and isinstance(v, Const):
            res[k.v] = v.v
    return res


class Outcome(object):
    """Result of reading abstract text."""
    __slots__ = ("alive", "state", "excs", "status", "exc", "why", "warns")

    def __init__(self):
        self.alive = False
        self.state = None
        self.excs = []
        self.status = "unknown"
        self.exc = None
        self.why = ""
        self.warns = ()


class World(object):
    def __init__(self, ver):
        self.P, self.I, st0 = program()
        self.ver = ver
        st = st0.copy()
        I = self.I
        mk = mod_attr(st, "pykickstart.version", "makeVersion")
        KP = mod_attr(st, "pykickstart.parser", "KickstartParser")
        I.sink = []
        I.steps = 0
        try:
            self.h = I.call(st, mk, [Const(ver)], {})
            self.kp = I.call(st, KP, [self.h], {})
        except Dead:
            raise AnalysisBroken("handler of %s cannot be built: %r" % (ver, I.sink[-1:]))
        st.w("$ev").items = ()
        self.base = st.freeze()
        self.PE = mod_attr(st, "pykickstart.errors", "KickstartParseError")
        self.KE = mod_attr(st, "pykickstart.errors", "KickstartError")
        self.DW = mod_attr(st, "pykickstart.errors", "KickstartDeprecationWarning")
        self.PW = mod_attr(st, "pykickstart.errors", "KickstartParseWarning")
        self.cmds = self.commands(st)
        self._reach = {}
        self._snap0 = {}

    # -- objects
    def commands(self, st):
        o = st.get(st.get(self.h).d["commands"])
        return {k.v: v for k, v in o.items.items()}

    def cls_name(self, name, st=None):
        v = self.cmds.get(name)
        return self.base.get(v).cls.name if isinstance(v, Ref) else None

    def data_cls(self, name):
        hc = self.base.get(self.h).cls
        dm = self.base.get(self.I.getattr_(self.base.copy(), hc, "dataMap")).items
        d = []
        for k, v in dm.items():
            if isinstance(v, Cls):
                d.append((k.v, v))
        return dict(d)

    def fresh(self):
        return self.base.copy()

    def table(self, name):
        """Option string -> action ref of the command's option parser."""
        o = self.base.get(self.cmds[name])
        op = o.d.get("op")
        if not isinstance(op, Ref):
            return None
        return argmodel.table(self.I, self.base, op)

    # -- evaluation
    def guard(self, st, fn):
        """Run fn abstractly; engine limits give status unknown."""
        r = Outcome()
        I = self.I
        I.sink = []
        I.depth = 0
        I.steps = 0
        I.site_stack = []
        I.stack = []
        try:
            v, alive, excs = I.guarded(st, fn)
        except AnalysisBroken as e:
            r.why = "engine: %s" % e
            return None, r
        except (argmodel.Unknown, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
            r.why = "engine: %r" % (e,)
            return None, r
        r.alive = alive
        r.state = st
        r.excs = excs
        if alive and not excs:
            r.status = "ok"
        elif not alive and excs:
            bad = [e for e, s in excs if not (e.cls is not None and e.cls.issub(self.PE))]
            r.exc = (bad or [excs[0][0]])[0]
            if not bad:
                r.status = "err"
            elif len(excs) == 1:
                r.status = "exc"
            else:
                r.status = "mixed"
        elif alive:
            r.status = "maybe"
            r.exc = excs[0][0]
        else:
            r.status = "unknown"
            r.why = "no outcome"
        if alive:
            if st.notes():
                r.why = "; ".join(str(x) for x in st.notes())
            r.warns = tuple(e for e in st.events() if e[1] == "warn")
        return v, r

    def read(self, text, st=None):
        """KickstartParser.readKickstartFromString on an abstract string."""
        st = self.fresh() if st is None else st
        v = tpl(text) if isinstance(text, str) else text
        I = self.I
        _r, out = self.guard(st, lambda s: I.call(s, I.getattr_(s, self.kp, "readKickstartFromString"), [v], {}))
        return out

    def str_of(self, st, ref):
        """str(object): abstract value or None (with the outcome)."""
        v, out = self.guard(st, lambda s: self.P.str_(self.I, s, ref))
        return v, out

    # -- snapshots
    def canon(self, st, v, seen=None, skip=BOOKKEEPING):
        seen = seen or ()
        if isinstance(v, Const):
            return v.v if isinstance(v.v, (str, int, bool, float, type(None))) else repr(v.v)
        if isinstance(v, (Sym, Tmpl)):
            if isinstance(v, Sym) and v.ty != "str":
                return "<%s:%s>" % (v.ty, v.label)
            return "<" + (untpl(v) or repr(v)) + ">"
        if isinstance(v, Union):
            return {"?": sorted((repr(self.canon(st, a, seen, skip)) for a in v.alts))}
        if isinstance(v, Top):
            return {"?": ["TOP"]}
        if isinstance(v, Undef):
            return {"?": ["UNDEF"]}
        if isinstance(v, Ref):
            if v.addr in seen:
                return "<cycle>"
            o = st.get(v)
            s2 = seen + (v.addr,)
            if o.kind in ("list", "tuple"):
                r = [self.canon(st, x, s2, skip) for x in o.items]
                return {"list": r, "?": ["rest"]} if o.rest is not None else r
            if o.kind == "set":
                r = sorted((self.canon(st, x, s2, skip) for x in o.items), key=repr)
                return {"set": r, "?": ["rest"]} if o.rest is not None else r
            if o.kind == "dict":
                r = {repr(self.canon(st, k, s2, skip)): self.canon(st, x, s2, skip) for k, x in o.items.items()}
                if o.rest is not None:
                    r["?"] = ["rest"]
                return r
            if o.kind == "inst":
                return self.canon_obj(st, v, s2, skip)
            return "<%s>" % o.kind
        if isinstance(v, Cls):
            return "<class %s>" % v.name
        return "<%s>" % type(v).__name__

    def canon_obj(self, st, ref, seen=(), skip=BOOKKEEPING):
        o = st.get(ref)
        if o.cls is self.base.get(self.h).cls or o.cls.name in ("KSOptionParser", "ArgumentParser", "Namespace"):
            return "<%s>" % o.cls.name
        r = {}
        for k in sorted(o.d):
            if k.startswith("_") or k in skip:
                continue
            r[k] = self.canon(st, o.d[k], seen, skip)
        return r

    def reach(self, st, ref):
        """Addresses reachable from an object (not through the handler)."""
        todo, seen = [ref], set()
        while todo:
            v = todo.pop()
            if isinstance(v, Union):
                todo.extend(v.alts)
                continue
            if isinstance(v, Bound):
                todo.append(v.self_)
                continue
            if not isinstance(v, Ref) or v.addr in seen or v.addr == self.h.addr:
                continue
            seen.add(v.addr)
            o = st.get(v)
            todo.extend(o.d.values())
            if isinstance(o.items, dict):
                todo.extend(o.items.values())
            elif isinstance(o.items, tuple):
                todo.extend(x for x in o.items if isinstance(x, Val))
            if o.rest is not None:
                todo.append(o.rest)
        return seen

    def base_reach(self, name):
        r = self._reach.get(name)
        if r is None:
            r = self._reach[name] = self.reach(self.base, self.cmds[name])
        return r

    def snap0(self, name):
        r = self._snap0.get(name)
        if r is None:
            r = self._snap0[name] = self.canon_obj(self.base, self.cmds[name])
        return r

    def changed(self, st):
        """Data of the distinct command objects that differ from a new handler's."""
        over = set(dict.keys(st.heap))
        cur = self.commands(st)
        res = {}
        done = set()
        for name, ref in cur.items():
            if not isinstance(ref, Ref) or ref.addr in done:
                continue
            done.add(ref.addr)
            if name in self.cmds and ref == self.cmds[name] and not (self.base_reach(name) & over):
                continue
            s = self.canon_obj(st, ref)
            if name not in self.cmds or s != self.snap0(name):
                res[name] = s
        return res

    def diff(self, name, snap):
        """Attributes that differ from the new handler's object."""
        base = self.snap0(name) if name in self.cmds else {}
        return {k: v for k, v in snap.items() if k not in base or base[k] != v}


def unsure(x):
    """Does a canonical structure contain undecided parts?"""
    if isinstance(x, dict):
        return "?" in x or any(unsure(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(unsure(v) for v in x)
    return False
