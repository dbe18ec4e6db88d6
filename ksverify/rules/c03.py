"""Conformance of every version's commands and option tables.

For each of the versions the command set and, per command, the option table
that the interpreted _getParser chain builds (spellings, arity, requiredness,
multiplicity, deprecation state and the abstract behaviour of the value
conversion on probe values) is compared with the published table. Where the
tables differ, the option is compared end to end (given once, twice, without
value, not at all, with each probe value) so that only an observable change is
a violation; options added to or missing from a table always are. Lines with
at most one option are compared end to end in any case."""
from .. import spec, tables
from ..check import bad, ok, undecided, world
from ..compare import compare, init, warn_names
from ..values import *
from .c01 import where

_groups = {}


def groups():
    if not _groups:
        for n, gs in spec.commands().items():
            for g in gs:
                for v in g["versions"]:
                    _groups[v, n] = g
    return _groups


def task(ver):
    w = world(ver)
    pub = spec.load("versions")[ver]
    for n in sorted(set(pub) | set(w.cmds)):
        if n not in w.cmds:
            yield bad(("cmd", n), "%s no longer knows the command %s" % (ver, n), "pykickstart/handlers", {"version": ver, "line": n}, None)
        elif n not in pub:
            yield bad(("cmd", n), "%s knows the command %s, which was never part of it" % (ver, n), "pykickstart/handlers", {"version": ver, "line": n}, None)
        else:
            yield ok()
    for (v, n), g in sorted(groups().items()):
        if v != ver or n not in w.cmds or g["table"] is None:
            continue
        o = w.base.get(w.cmds[n])
        op = o.d.get("op")
        if not isinstance(op, Ref):
            yield undecided("no option parser", "%s %s" % (ver, n))
            continue
        cur = tables.describe(w, op)
        if cur is None:
            yield undecided("option table", "%s %s" % (ver, n))
            continue
        yield from one(w, n, g, cur)
    yield ("sample", "%s: %d commands" % (ver, len(w.cmds)))


SHAPE = ("aliases", "nargs", "required", "deprecated", "takes", "multi", "values", "const")


def one(w, n, g, cur):
    ver = w.ver
    pub = g["table"]
    for s in sorted(set(pub) | set(cur)):
        if s not in cur and not s.startswith("<"):
            yield bad(("gone", n, s), "option %s of %s is gone from %s" % (s, n, ver), where(w, n), {"version": ver, "line": "%s %s" % (n, s)}, None)
            continue
        if s not in pub and not s.startswith("<"):
            yield bad(("new", n, s), "option %s of %s is new in the released version %s" % (s, n, ver), where(w, n), {"version": ver, "line": "%s %s" % (n, s)}, None)
            continue
        if s in cur and s in pub and all(cur[s].get(k) == pub[s].get(k) for k in SHAPE):
            yield ok()
            continue
        # the tables differ: look at the behaviour
        e = g["e2e"].get(s)
        if e is None:
            yield undecided("table differs, no end to end reference", "%s %s %s" % (ver, n, s))
            continue
        good = True
        for k, (line, exp) in sorted(e.items()):
            r, why, out = compare(w, line + "\n", exp)
            if r == "same" and isinstance(exp, list):
                wn = warn_names(out)
                if wn is not None and wn != exp[2]:
                    r, why = "differs", "gives warnings %s instead of %s" % (wn, exp[2])
            if r == "differs":
                good = False
                yield bad(("opt", n, s, k[:1]), "option %s of %s in %s changed: %r %s" % (s, n, ver, line, why), where(w, n), {"version": ver, "line": line}, None)
        if good:
            yield ok()


def line_task(t):
    ver, lines = t
    w = world(ver)
    k = 0
    for name, l, exp in lines:
        r, why, out = compare(w, l + "\n", exp)
        if r == "same":
            k += 1
        elif r == "undecided":
            yield undecided("%s: %s" % (name, str(why)[:80]), "%s: %s" % (ver, l))
        else:
            yield bad(("line", name, w.cls_name(name)), "%r %s" % (l, why), where(w, name), {"version": ver, "line": l}, None)
    yield ok(k)


def dispatch(t):
    return task(t[1]) if t[0] == "v" else line_task(t[1])


def check(rep):
    init("", "")
    groups()
    nopt = {}
    for (v, n), g in _groups.items():
        nopt[n] = 0
    ls = spec.tasks(rep.tier, want=lambda l, e: "\n" not in l and l.count("--") <= few(l), limit=2500)
    rep.extra["versions"] = len(spec.load("versions"))
    rep.run(dispatch, [("v", v) for v in spec.load("versions")] + [("l", t) for t in ls])


_few = {}


def few(line):
    """One option more than the shortest accepted line of the command."""
    n = line.split(" ")[0]
    if n not in _few:
        m = 0
        for g in spec_cache().get(n, ()):
            c = [l.count("--") for l, e in g["lines"].items() if isinstance(e, list) and "\n" not in l]
            m = max(m, min(c) if c else 0)
        _few[n] = m + 1
    return _few[n]


_sc = {}


def spec_cache():
    if not _sc:
        _sc.update(spec.commands())
    return _sc
