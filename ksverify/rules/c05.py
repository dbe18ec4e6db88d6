"""Failures of command processing are parse errors with the right line.

Every input partition (and, for each option and positional, a set of odd
values) is interpreted on line 3 of an input; a definite exception that is not
a kickstart parse error, or a parse error whose line number is definitely not
3, is a violation. Section headers are treated the same way."""
import re

from .. import spec
from ..check import bad, ok, undecided, world
from ..compare import init
from ..values import *
from .c01 import where

ODD = [":", "=", ",", "/", "-", "--", "[", "]", "::", "{w:a}:{w:b}:{w:c}", "@", "%", "{w:a},", "{w:a}=", "={w:a}", "-1", "+1", "0x1f", "1e3", "10%", ".", "a.b.c", "{n:a}.{n:b}", "(", "*", "{b:a}", "'' ''", "{n:a}:", ":{n:a}"]
HEADERS = ["%packages", "%pre", "%post", "%pre-install", "%traceback", "%onerror", "%addon", "%anaconda"]
HARGS = ["", "--zzunknown", "{w:x}", "--interpreter", "--interpreter={w:x}", "--log", "--log={w:x}", "--erroronfail", "--nochroot", "--nochroot={w:x}",
         "--timeout={w:x}", "--timeout={n:x}", "--timeout", "--retries={w:x}", "--retries={n:x}", "--retries=-1", "--instLangs={w:x}", "--instLangs", "--inst-langs={w:x}", "--multilib",
         "--ignoredeps", "--resolvedeps", "--default", "--nobase", "--nocore", "--nobase --nocore", "--default --nobase", "--excludedocs", "--exclude-docs", "--ignoremissing", "--ignore-missing", "--ignorebroken",
         "--exclude-weakdeps", "--excludeWeakdeps", "--=", "-x", "--", "--retries=", "--timeout=", "--nobase {w:x}", "--interpreter={w:x} {w:y} --log={w:z}"]


def judge(w, text, line):
    """Outcome of reading text whose last line is number `line`."""
    out = w.read(text)
    if out.status == "ok":
        return "ok", None, out
    if out.status == "err":
        e = out.exc
        o = out.excs[0][1].get(e.val) if isinstance(e.val, Ref) else None
        ln = o.d.get("lineno") if o is not None else None
        if isinstance(ln, Const):
            if ln.v == line:
                return "ok", None, out
            return "bad", "the parse error raised at %s carries line %r, not %d" % (e.site, ln.v, line), out
        return "undecided", "line number of the error", out
    if out.status == "exc":
        return "bad", "raises %s instead of a parse error" % (out.exc,), out
    return "undecided", out.why or out.status, out


def one(w, name, l, lead):
    n = lead.count("\n") + l.count("\n") + 1
    r, why, out = judge(w, lead + l + "\n", n)
    if r == "ok":
        return ok()
    if r == "undecided":
        return undecided("%s: %s" % (name, str(why)[:80]), "%s: %s" % (w.ver, l))
    exc = out.exc.cls.name if out.exc is not None and out.exc.cls is not None else "?"
    return bad((name, exc, str(out.exc.site)), "%r %s" % (l, why), where(w, name) if name in w.cmds else name, {"version": w.ver, "line": l},
               [{"cmd": name, "class": w.cls_name(name) if name in w.cmds else None, "exc": exc, "site": str(out.exc.site).rsplit(":", 1)[0], "line": l}])


LEAD = "# comment\n\n"


def task(t):
    kind = t[0]
    if kind == "h":
        w = world(t[1])
        for h in HEADERS:
            for a in HARGS:
                yield one(w, h, (h + " " + a).strip(), LEAD)
        for l in ['""', '"" {w:x}', "{w:x}", "{w:x} {w:y}", "%{w:x}", "{n:x}", "-", "--{w:x}", "\u00e9"]:
            yield one(w, l, l, LEAD)
        for l in ['lang "{w:x}', "lang '{w:x}", "lang {w:x}\\"]:
            yield one(w, "quotes", l, LEAD)
        return
    ver, lines = t[1]
    w = world(ver)
    for name, l, exp in lines:
        yield one(w, name, l, LEAD)


def odd_tasks(tier):
    """Odd values for every option of every generation of every command."""
    by = {}
    for n, gs in spec.commands().items():
        for gi, g in enumerate(gs):
            ver = g["versions"][-1]
            done = set()
            for s, e in sorted(g["e2e"].items()):
                line = e.get("once", [None])[0]
                if line is None or line in done:
                    continue
                done.add(line)
                for k, (l, x) in e.items():
                    if k.startswith("v:") or k in ("bare", "value"):
                        by.setdefault(ver, {})[l] = n
                m = re.search(r"(^| )(%s)=(\S+)" % re.escape(s), line)
                if m:
                    for i, v in enumerate(ODD):
                        if tier == "quick" and (i + gi) % 2 and gi not in (0, len(gs) - 1):
                            continue
                        q = v if " " not in v and "{b:" not in v else '"%s"' % v
                        by.setdefault(ver, {})[line[:m.start(3)] + q + line[m.end(3):]] = n
            # odd positionals
            base = [l for l, o in g["lines"].items() if isinstance(o, list) and "\n" not in l and "--zz" not in l][:3]
            for b in base:
                ws = b.split(" ")
                for i, x in enumerate(ws):
                    if i and not x.startswith("--"):
                        for v in ODD:
                            by.setdefault(ver, {})[" ".join(ws[:i] + ['"%s"' % v if " " in v or "{b:" in v else v] + ws[i + 1:])] = n
                for v in ODD:
                    by.setdefault(ver, {})[b + " " + ('"%s"' % v if " " in v or "{b:" in v else v)] = n
            for v in ODD:
                by.setdefault(ver, {})[n + " " + v] = n
    out = []
    for ver, d in by.items():
        items = [(n, l, None) for l, n in sorted(d.items())]
        for i in range(0, len(items), 1200):
            out.append((ver, items[i:i + 1200]))
    return out


def check(rep):
    vs = sorted(spec.load("versions"))
    ts = [("h", v) for v in vs]
    ts += [("l", t) for t in odd_tasks(rep.tier)]
    ts += [("l", t) for t in spec.tasks(rep.tier, hist=False, want=None if rep.tier == "thorough" else (lambda l, e: not isinstance(e, list)))]
    rep.run(task, ts)
