"""Published shape of a command: option table, value behaviour, defaults."""
from . import argmodel
from .values import *
from .world import tpl, unsure

PROBE = ["{w:x}", "{n:x}", "7", "-7", "0", "1.5", "a,b", ",a", "a:b", "a=b", "yes", "no", "true", "on", "/x", "0x10", "", "{b:x}", "A", "RAID1", "1:2"]


def signature(w, op, ref, values):
    """Behaviour of one option's value conversion and choices on probe values."""
    res = {}
    for v in values:
        st = w.fresh()

        def go(s):
            x = argmodel._get_value(w.I, s, op, ref, tpl(v))
            argmodel._check_value(w.I, s, op, ref, x)
            return x
        x, out = w.guard(st, go)
        if out.status in ("exc", "err"):
            res[v] = "E"
        elif out.status == "ok" and not out.why:
            c = w.canon(out.state, x)
            res[v] = ["ok", c] if not unsure(c) else None
        else:
            res[v] = None
    return res


def const(w, v):
    if isinstance(v, Ref):
        o = w.base.get(v)
        if o.kind in ("list", "tuple", "set", "dict"):
            return w.canon(w.base, v)
        return "?"
    return w.canon(w.base, v)


def describe(w, op, probes=PROBE):
    """{option string or '<positional i>': description} of an option parser."""
    I = w.I
    st = w.base
    acts, rest = I.iterate(st.copy(), st.get(op).d["_actions"])
    if rest is not None:
        return None
    tab = argmodel.table(I, st, op)
    res = {}
    pos = 0
    cache = {}
    groups = {}
    for i, a in enumerate(acts):
        d = st.get(a).d
        names = [x.v for x in argmodel.items_of(I, st, d["option_strings"]) if isinstance(x, Const)]
        live = [n for n in names if tab.get(n) == a]
        if names and not live:
            continue
        e = {
            "aliases": sorted(live),
            "dest": const(w, d["dest"]),
            "nargs": const(w, d["nargs"]),
            "const": const(w, d["const"]),
            "default": const(w, d["default"]),
            "required": I.truth(st, d["required"]),
            "deprecated": I.truth(st, d.get("deprecated", FALSE)),
            "takes": "flag" if d["nargs"] == Const(0) else "value",
            "multi": _multi(st.get(a).cls),
        }
        if d["nargs"] != Const(0) and probes:
            vals = list(probes)
            ch = d["choices"]
            if ch != NONE:
                it, r = I.iterate(st.copy(), ch)
                vals += [str(x.v) for x in it if isinstance(x, Const)]
            e["values"] = signature(w, op, a, vals)
        if live:
            for n in live:
                res[n] = e
        else:
            res["<positional %d>" % pos] = e
            pos += 1
    return res


def _multi(cls):
    names = [c.name for c in cls.mro]
    for n in ("_AppendAction", "_AppendConstAction", "_CountAction", "_ExtendAction"):
        if n in names:
            return n
    return "store"
