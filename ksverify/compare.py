"""Comparison of the abstract outcome of a line with the published one."""
from . import spec
from .values import *
from .world import unsure

_init = {}


def init(ver, name):
    """Published initial attributes of a command object."""
    if not _init:
        for n, groups in spec.commands().items():
            for g in groups:
                for v in g["versions"]:
                    for a in g["names"]:
                        _init[v, a] = g["init"]
    return _init.get((ver, name), {})


def leaves(a, b, path=""):
    """Definite differences between expected a and current b: every attribute
    of a must be in b with the same value; b may have more attributes."""
    if unsure(b) and (not isinstance(b, (dict, list)) or "?" in b):
        return []
    if type(a) is dict and type(b) is dict:
        out = []
        for k in sorted(a):
            if k not in b:
                out.append((path + "." + k if path else k, a[k], "<missing>"))
            else:
                out += leaves(a[k], b[k], path + "." + k if path else k)
        return out
    if type(a) is list and type(b) is list and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            out += leaves(x, y, path)
        return out
    if a == b and (type(a) is type(b)):
        return []
    return [(path, a, b)]


def data_diff(w, st, exp):
    """Differences of the command data in st from the published outcome."""
    out = []
    cur = w.changed(st)
    for n in sorted(set(exp) | set(cur)):
        ini = init(w.ver, n)
        if not ini and n not in exp:
            continue
        want = dict(ini)
        want.update(exp.get(n, {}))
        ref = w.commands(st).get(n)
        if ref is None:
            out.append((n, want, "<no such command>"))
            continue
        have = cur.get(n)
        if have is None:
            have = w.snap0(n) if n in w.cmds else {}
        out += [("%s.%s" % (n, p), a, b) for p, a, b in leaves(want, have)]
    return out


def compare(w, text, exp, warn=None):
    """-> ('same'|'undecided'|'differs', detail, outcome)."""
    out = w.read(text)
    if exp is None:
        return "undecided", "no published outcome", out
    if out.status in ("maybe", "mixed", "unknown") or (out.status == "ok" and out.why):
        return "undecided", out.why or out.status, out
    if exp == "E":
        if out.status == "err":
            return "same", None, out
        if out.status == "ok":
            return "differs", "is accepted but must be rejected with a parse error", out
        return "differs", "raises %s instead of a parse error" % (out.exc,), out
    if isinstance(exp, str):
        return "undecided", "published outcome is %s" % exp, out
    if out.status == "err":
        return "differs", "is rejected (%s) but must be accepted" % (out.exc,), out
    if out.status == "exc":
        return "differs", "raises %s but must be accepted" % (out.exc,), out
    ds = data_diff(w, out.state, exp[1])
    if ds:
        return "differs", "; ".join("%s must be %r but is %r" % d for d in ds[:4]), out
    return "same", None, out


def warn_names(out):
    """Sorted warning class names, or None when not determined."""
    if any(not e[0] for e in out.warns):
        return None
    return sorted(e[2].name if isinstance(e[2], Cls) else "?" for e in out.warns)
