"""Repeatable commands: their data lists in an abstract state."""
import ast
import re

from . import spec
from .values import *
from .world import unsure, untpl


def rename(line, labels=None, suf="z"):
    """The line with all (or the given) holes renamed."""
    return re.sub(r"\{([wnb]):([A-Za-z0-9_]+)\}", lambda m: "{%s:%s%s}" % (m.group(1), m.group(2), suf) if labels is None or m.group(2) in labels else m.group(0), line)


def holes(line):
    return list(dict.fromkeys(re.findall(r"\{[wnb]:([A-Za-z0-9_]+)\}", line)))


def datalist(w, st, name):
    """Tuple of data object refs, None when the command has no list or it is unknown."""
    ref = w.commands(st).get(name)
    if not isinstance(ref, Ref):
        return None
    s = st.copy()
    v, out = w.guard(s, lambda s: w.I.call(s, w.I.getattr_(s, ref, "dataList"), [], {}))
    if out.status != "ok" or out.why or not isinstance(v, Ref):
        return None
    o = s.get(v)
    if o.kind != "list" or o.rest is not None or not all(isinstance(x, Ref) for x in o.items):
        return None
    return o.items


def repeatable(w):
    """Distinct commands with a data list: [(name, all names)]."""
    res = {}
    for n, r in sorted(w.cmds.items()):
        if isinstance(r, Ref) and datalist(w, w.base, n) is not None:
            res.setdefault(r.addr, []).append(n)
    return [(ns[0], ns) for ns in res.values()]


def pick2(lines, n):
    ls = sorted(lines, key=lambda l: (-len(holes(l)), l.count("--"), len(l), l))
    out, seen = ls[:1], set()
    for l in ls:
        o = set(re.findall(r"--[a-zA-Z0-9_-]+", l))
        if not o <= seen:
            seen |= o
            if l not in out:
                out.append(l)
    return out[:n]


def pick(lines, n):
    """Lines that together show every option, shortest first."""
    ls = sorted(lines, key=lambda l: (l.count("=7") + l.count(" 7") + l.count("=0"), len(l), l))
    out, seen = ls[:2], set()
    for l in ls:
        o = set(re.findall(r"--[a-zA-Z0-9_-]+", l))
        if not o <= seen:
            seen |= o
            if l not in out:
                out.append(l)
    if ls and ls[-1] not in out:
        out.append(ls[-1])
    return out[:n]


def eq_cases(lines):
    """Pairs of lines whose data objects are compared."""
    res = []
    for l in list(dict.fromkeys(pick(lines, 10) + pick2(lines, 8))):
        res.append((l, l))
        hs = holes(l)
        if hs:
            res.append((l, rename(l)))
            if len(hs) > 1:
                for h in hs[:6]:
                    res.append((l, rename(l, {h})))
    ls = pick(lines, 6)
    for a in ls:
        for b in ls:
            if a != b:
                res.append((a, b))
    return list(dict.fromkeys(res))


def eq(w, name, a, b):
    """(a == b, a != b, b == a, a == None) of the data objects of two lines; None parts are unknown."""
    st = w.fresh()
    out = w.read(a + "\n", st)
    if out.status != "ok" or out.why:
        return None
    x = datalist(w, st, name)
    if not x:
        return None
    # the second one alone, so that it cannot depend on the first
    cmd = w.commands(st)[name]
    out = w.read(b + "\n", st)
    if out.status != "ok" or out.why:
        return None
    y = datalist(w, st, name)
    if not y or len(y) != len(x) + 1:
        return None
    p, q = x[-1], y[-1]
    res = []
    for op, u, v in (("==", p, q), ("!=", p, q), ("==", q, p), ("==", p, NONE), ("!=", p, NONE)):
        s = st.copy()
        r, o = w.guard(s, lambda s: w.I.compare(s, ast.Eq() if op == "==" else ast.NotEq(), u, v))
        if o.status in ("exc", "err"):
            res.append("raises %s" % (o.exc.cls.name if o.exc.cls is not None else "?"))
        elif o.status != "ok" or o.why:
            res.append(None)
        else:
            res.append(w.I.truth(s, r))
    return res


def forms(line):
    """The same line written differently: option order, separate and quoted values."""
    ws = line.split(" ")
    if '"' in line or "\n" in line:
        return []
    o = [w for w in ws[1:] if w.startswith("--")]
    p = [w for w in ws[1:] if not w.startswith("--")]
    res = []
    if o and p:
        res += [o + p, p + o]
        for i in range(1, len(p)):
            res.append(p[:i] + o + p[i:])
        if len(o) > 1 and len(p) > 1:
            res += [o[:1] + p[:1] + o[1:] + p[1:], p[:1] + o[:1] + p[1:] + o[1:]]
    if len(o) > 1:
        res.append(o[::-1] + p)
    for i, x in enumerate(ws[1:], 1):
        if x.startswith("--") and "=" in x:
            a, b = x.split("=", 1)
            if b:
                res.append(ws[1:i] + [a, b] + ws[i + 1:])
                res.append(ws[1:i] + [a + '="' + b + '"'] + ws[i + 1:])
    res.append(['"%s"' % x for x in ws[1:]])
    return [x for x in dict.fromkeys(" ".join(ws[:1] + r) for r in res) if x != line]
