"""Keyword arguments of command and data objects, evaluated abstractly."""
from .values import *
from .world import tpl, unsure

SKIP = frozenset(["handler", "op", "currentCmd", "currentLine", "lineno", "seen", "writePriority"])


def classes(w):
    """[(kind, name, class)]: distinct command and data classes of the version."""
    res, done = [], set()
    for n, r in sorted(w.cmds.items()):
        if isinstance(r, Ref):
            c = w.base.get(r).cls
            if c.name not in done:
                done.add(c.name)
                res.append(("command", n, c))
    for n, c in sorted(w.data_cls(None).items()):
        if c.name not in done:
            done.add(c.name)
            res.append(("data", n, c))
    return res


def probes(st, I, lab):
    """Values a program may give: (tag, abstract value, canonical form)."""
    lst = I.list_(st, [tpl("{w:%s}" % lab)])
    res = [("word", tpl("{w:%s}" % lab)), ("True", TRUE), ("False", FALSE), ("0", Const(0)), ("7", Const(7)), ("empty", Const("")), ("None", NONE)]
    res.append(("list", lst))
    return res


def attrs(w, st, ref):
    """Public attributes of an object: {name: canonical value}."""
    o = st.get(ref)
    return {k: w.canon(st, v) for k, v in o.d.items() if not k.startswith("_") and k not in SKIP}


def make(w, cls, kw, st=None):
    """cls(**kw) -> (ref, state, outcome)."""
    st = w.fresh() if st is None else st
    v, out = w.guard(st, lambda s: w.I.call(s, cls, [], dict(kw)))
    return v, st, out


def call(w, ref, st, kw):
    return w.guard(st, lambda s: w.I.call(s, ref, [], dict(kw)))[1]


def published(w):
    """{kind name: {attrs, fixed, removed}} of the version, for the reference."""
    res = {}
    for kind, n, c in classes(w):
        r, st, out = make(w, c, {})
        if out.status != "ok" or out.why:
            continue
        a0 = attrs(w, st, r)
        kw = make(w, c, {"zzunknown": tpl("{w:z}")})[2].status == "ok"
        fixed = []
        if kw:
            for a in a0:
                v = tpl("{w:q}")
                r2, s2, o2 = make(w, c, {a: v})
                b = attrs(w, s2, r2) if o2.status == "ok" else {}
                if b.get(a) != w.canon(s2, v):
                    fixed.append(a)
        rem = w.canon(st, w.I.getattr_(st, r, "removedAttrs"))
        res[kind + " " + n] = {"class": c.name, "attrs": a0, "fixed": fixed, "kw": kw, "removed": sorted(rem) if isinstance(rem, list) else []}
    return res
