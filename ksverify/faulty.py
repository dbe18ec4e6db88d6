"""Evaluation of loader, preprocessor and tool code with environment failures.

Every fallible library call (open, read, decode, write, copy, network access,
temporary file creation) is numbered along the abstract run; a run is repeated
with each of them failing, so every exit of the code is reached on its own
path, without joins between a failing and a working environment."""
from .interp import AnalysisBroken, Dead
from .values import *
from .world import mod_attr, program, tpl, unsure
from . import argmodel

_cache = {}


def prog():
    """Program with tools and numbered faults."""
    if "p" not in _cache:
        P, I, st = program(False, True)
        P.faults = "enum"
        _cache["p"] = (P, I, st)
    return _cache["p"]


class Res(object):
    """One way out.  status: 'ok' (value), 'exc' (cls, val, site) or 'unknown' (why)."""
    def __init__(self, status="unknown", why="", value=None, state=None, cls=None, val=None, site=None):
        self.status = status
        self.why = why
        self.value = value
        self.state = state
        self.cls = cls
        self.val = val
        self.site = site
        self.fault = []

    def attr(self, name):
        o = self.state.get(self.val) if isinstance(self.val, Ref) else None
        return o.d.get(name) if o is not None else None

    def events(self, kind):
        return [e for e in self.state.events() if e[1] == kind]

    def temps(self):
        """Temporary names that (may) still exist."""
        t = self.state.heap.get("$tmp")
        return {} if t is None else {str(k): v for k, v in t.items.items() if v != FALSE}

    def file(self, name):
        fs = self.state.heap.get("$fs")
        return fs.items.get(name) if fs is not None else None

    def what(self):
        return "returns %s" % (self.value,) if self.status == "ok" else "raises %s at %s" % (self.cls.name if self.cls else "?", self.site)


def run(fn, args=None, kw=None, files=None, http=None, status=200, inputs=None, fault_at=()):
    """fn: (module, name) or callable(I, st).  Returns (ways out, fallible calls)."""
    P, I, st0 = prog()
    st = st0.copy()
    items = {tpl(n): (tpl(c) if isinstance(c, str) else c) for n, c in (files or {}).items()}
    st.new("dict", items=items, addr="$fs", rest=NONE)
    st.new("dict", items={tpl(n): tpl(c) for n, c in (http or {}).items()}, addr="$http")
    if inputs is not None:
        st.new("list", items=tuple(tpl(x) if isinstance(x, str) else x for x in inputs), addr="$in")
    P.http_status = Const(status) if isinstance(status, int) else status
    P.fault_at = frozenset(fault_at)
    P.fault_log = []
    I.sink = []
    I.depth = I.steps = 0
    I.site_stack = []
    I.stack = []

    def go(s):
        if callable(fn):
            return fn(I, s)
        return I.call(s, mod_attr(s, *fn), list(args or []), dict(kw or {}))
    why = None
    try:
        v, alive, excs = I.guarded(st, go)
    except AnalysisBroken as e:
        why = "engine: %s" % e
    except (argmodel.Unknown, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
        why = "engine: %r" % (e,)
    log = list(P.fault_log)
    P.fault_at = frozenset()
    P.http_status = None
    if why is not None:
        out = [Res(why=why)]
    elif alive and excs:
        out = [Res(why="not decided whether it fails: %s" % ", ".join(sorted(set(str(e) for e, _s in excs))[:3]))]
    elif alive:
        out = [Res("ok", "; ".join(str(x) for x in st.notes()) if st.notes() else "", v, st)]
    else:
        out = [Res("exc", "", None, s, e.cls, e.val, e.site) for e, s in excs]
    for r in out:
        r.fault = [log[i] for i in sorted(fault_at) if i < len(log)]
    return out, log


def series(fn, **kw):
    """The ways out with nothing failing, then with each fallible call failing."""
    out, log = run(fn, **kw)
    for r in out:
        yield r
    for i in range(len(log)):
        for r in run(fn, fault_at=(i,), **kw)[0]:
            yield r


def cls_of(mod, name):
    _P, _I, st = prog()
    return mod_attr(st, mod, name)


def text_of(v):
    """Abstract string, from text or bytes; None when it is neither."""
    if isinstance(v, Const) and isinstance(v.v, bytes):
        return Const(v.v.decode("utf-8", "replace"))
    return v if sparts(v) is not None else None


_unused = (Dead, unsure)
