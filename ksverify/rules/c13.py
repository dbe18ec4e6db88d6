"""Deprecated and removed syntax.

Deprecated commands of every version are interpreted with many argument lists
(also after other commands): always accepted, always a deprecation warning
that names the command, no change to any command's data or to the handler's
text. Removed commands with the same arguments are always rejected. Every
deprecated option of the published tables (each spelling, '=' and separate
value, twice, next to each other option) always gives a deprecation warning
that names it; every option another version of the command knows and this one
does not is rejected (also next to other options). All other published single
lines and section headers must give a deprecation warning exactly when the
published version does."""
import re
import zlib

from .. import spec
from ..check import bad, ok, undecided, world
from ..values import *
from ..world import untpl, versions
from .c01 import where

ARGS = ["", "{w:a}", "--{w:a}", "--zz=1", "{w:a} {w:b}", "-", "--", '"{b:a}"', "{n:a}", "--a --b=c d", '""', "--help", "-h"]
SPREAD = ["{w:a}", "--opt={w:a} {w:b}"]


def dws(w, out):
    """Deprecation warnings: None if not determined, else texts (None: unknown text)."""
    res = []
    for e in out.warns:
        if not isinstance(e[2], Cls):
            return None
        if e[2].issub(w.DW):
            if not e[0]:
                return None
            res.append(untpl(e[3]) if not isinstance(e[3], Ref) and sparts(e[3]) is not None else None)
    return res


def clear(out):
    return out.status in ("ok", "err", "exc") and not (out.status == "ok" and out.why)


def known_options(name):
    """All options any version of the command has."""
    res = {}
    for g in spec_cmds().get(name, ()):
        if g["table"]:
            for s, e in g["table"].items():
                if not s.startswith("<"):
                    res.setdefault(s, e)
    return res


_c = {}


def spec_cmds():
    if not _c:
        _c.update(spec.commands())
    return _c


# what stands before the command: nothing, comments, sections, other commands
BEFORE = ["", "# c\n\n", "%packages\n{w:p}\n-{w:q}\n%end\n", "%pre\n{w:a}\n%end\n%post --nochroot\n{w:b}\n%end\n%addon {w:c}\n%end\n",
          "lang {w:l}\nkeyboard {w:k}\nrootpw {w:r}\nskipx\npart /{w:m} --size={n:s}\nnetwork --hostname={w:h}\nzerombr\n"]


def deprecated(w, name):
    pub = args_of(w, name)
    bases = {}
    for i, a in enumerate(pub):
        line = (name + " " + a).strip()
        for pre in BEFORE[:2] if i > 1 else BEFORE + [line + "\n"]:
            if pre not in bases:
                st = w.fresh()
                o = w.read(pre, st) if pre else None
                if o is not None and (o.status != "ok" or o.why):
                    continue
                v, o2 = w.str_of(st.copy(), w.h)
                bases[pre] = (st.freeze(), untpl(v) if o2.status == "ok" and not o2.why and sparts(v) is not None else None,
                              {n: w.diff(n, s) for n, s in w.changed(st).items()}, len(dws(w, o) or ()) if o is not None else 0)
            st0, base, ch0, d0 = bases[pre]
            st = st0.copy()
            out = w.read(line + "\n", st)
            case = {"version": w.ver, "line": pre + line}
            if not clear(out):
                yield undecided("%s: %s" % (name, out.why or out.status), "%s: %s" % (w.ver, line))
                continue
            if out.status != "ok":
                yield bad((name, "deprecated", out.status), "the deprecated command %r raises %s instead of warning" % (line, out.exc), where(w, name), case)
                continue
            d = dws(w, out)
            if d is None:
                yield undecided("%s: warning not determined" % name, line)
                continue
            d = d[d0:]
            if not d:
                yield bad((name, "silent"), "the deprecated command %r gives no deprecation warning" % line, where(w, name), case)
                continue
            if all(x is not None and name not in x for x in d):
                yield bad((name, "unnamed"), "the deprecation warning of %r does not name the command: %r" % (line, d[0]), where(w, name), case)
                continue
            ch = {n: w.diff(n, s) for n, s in w.changed(st).items()}
            ch = {n: {k: v for k, v in x.items() if k != "seen"} for n, x in ch.items()}
            ch = {n: x for n, x in ch.items() if x and x != {k: v for k, v in ch0.get(n, {}).items() if k != "seen"}}
            if ch:
                yield bad((name, "data"), "the deprecated command %r changes %s" % (line, ch), where(w, name), case)
                continue
            v, o = w.str_of(st, w.h)
            t = untpl(v) if o.status == "ok" and not o.why and sparts(v) is not None else None
            if t is None or base is None:
                yield undecided("%s: text" % name, line)
            elif t != base:
                yield bad((name, "text"), "the deprecated command %r changes the output to %r" % (line, t), where(w, name), case)
            else:
                yield ok()


def args_of(w, name):
    """General argument lists and those this command once took."""
    res = list(ARGS)
    for g in spec_cmds().get(name, ()):
        ls = sorted((l for l, e in g["lines"].items() if "\n" not in l and l.split(" ")[0] == name and "--" in l), key=lambda l: (len(l), l))
        res += [l[len(name) + 1:] for l in ls[:6] + ls[-3:]]
    return list(dict.fromkeys(res))


def removed(w, name):
    for i, a in enumerate(args_of(w, name)):
      line = (name + " " + a).strip()
      for pre in BEFORE if i < 2 else BEFORE[:1]:
        if pre and w.read(pre).status != "ok":
            continue
        st = w.fresh()
        out = w.read(pre + line + "\n", st)
        case = {"version": w.ver, "line": pre + line}
        if not clear(out):
            yield undecided("%s: %s" % (name, out.why or out.status), "%s: %s" % (w.ver, line))
        elif out.status == "err":
            yield ok()
        else:
            yield bad((name, "removed", out.status), "the removed command %r %s" % (line, "is accepted" if out.status == "ok" else "raises %s" % out.exc), where(w, name), case)


def option_lines(w, name, g):
    """Deprecated options: (option string spelled, line)."""
    for s, e in sorted(g["table"].items()):
        if s.startswith("<") or not e["deprecated"]:
            continue
        e2e = g["e2e"].get(s)
        if not e2e or not e2e.get("once"):
            continue
        line, o = e2e["once"]
        if not isinstance(o, list):
            continue
        ls = []
        for a in e["aliases"]:
            m = re.search(r"(^| )(%s)(=\S+)?(?= |$)" % "|".join(re.escape(x) for x in e["aliases"]), line)
            if not m:
                continue
            val = m.group(3) or ""
            for form in ([a + val, a + " " + val[1:]] if val else [a]):
                l = line[:m.start()] + m.group(1) + form + line[m.end():]
                ls.append(l)
                # next to every other option
                for s2, e2 in sorted(g["table"].items()):
                    if s2.startswith("<") or s2 in e["aliases"]:
                        continue
                    x = g["e2e"].get(s2)
                    if not x or not isinstance(x.get("once", [0, 0])[1], list):
                        continue
                    m2 = re.search(r"(^| )(%s(=\S+)?)(?= |$)" % re.escape(s2), x["once"][0])
                    if m2 and s2 not in l and a == e["aliases"][0]:
                        ls.append(l + " " + m2.group(2))
        for l in dict.fromkeys(ls):
            yield e["aliases"], l


def options(w, name, g):
    for al, line in option_lines(w, name, g):
        for rep in (1, 2):
            text = "\n".join([line] * rep) + "\n"
            out = w.read(text)
            case = {"version": w.ver, "line": text}
            if not clear(out):
                yield undecided("%s: %s" % (name, out.why or out.status), "%s: %s" % (w.ver, text))
                continue
            if out.status != "ok":
                continue
            d = dws(w, out)
            if d is None or any(x is None for x in d):
                yield undecided("%s: warning not determined" % name, text)
                continue
            k = sum(1 for x in d if any(re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(a), x) for a in al))
            if k < rep:
                yield bad((name, al[0], "silent"), "%r uses the deprecated option %s %s, but %d warnings name it" % (text, al[0], "twice" if rep == 2 else "once", k),
                          where(w, name), case, [{"cmd": name, "class": w.cls_name(name), "option": al[0]}])
            else:
                yield ok()


def gone(w, name, g):
    """Options that only other versions of the command know."""
    here = set(g["table"])
    al = known_options(name)
    lines = {}
    for g2 in spec_cmds()[name]:
        for s, x in g2["e2e"].items():
            if s in here or any(h.startswith(s) for h in here) or s not in al:
                continue
            for k in ("once",):
                line, o = x[k]
                line = re.sub(r"(^| )(%s)(?==|$| )" % "|".join(re.escape(a) for a in al[s]["aliases"]), lambda m: m.group(1) + s, line)
                if isinstance(o, list):
                    lines.setdefault(s, set()).add(line)
    # an accepted base of this version with the option added
    oks = sorted((l for l, e in g["lines"].items() if isinstance(e, list) and "\n" not in l and l.split(" ")[0] == name), key=lambda l: (len(l), l))
    for s, ls in sorted(lines.items()):
        ls = sorted(ls)[:2]
        e = al[s]
        for b in oks[:1] + oks[len(oks) // 2:len(oks) // 2 + 1]:
            if e["nargs"] == 0:
                ls.append(b + " " + s)
            else:
                ls += [b + " " + s + "={n:zz}", b + " " + s + " {w:zz}"]
        for l in dict.fromkeys(ls):
            out = w.read(l + "\n")
            if not clear(out):
                yield undecided("%s: %s" % (name, out.why or out.status), "%s: %s" % (w.ver, l))
            elif out.status == "ok":
                yield bad((name, s, "gone"), "%r is accepted although %s does not have the option %s" % (l, w.ver, s), where(w, name), {"version": w.ver, "line": l},
                          [{"cmd": name, "class": w.cls_name(name), "option": s}])
            else:
                yield ok()


def published(w, name, l, exp):
    out = w.read(l + "\n")
    if not clear(out):
        return undecided("%s: %s" % (name, out.why or out.status), "%s: %s" % (w.ver, l))
    if out.status != "ok":
        return ok()
    d = dws(w, out)
    if d is None:
        return undecided("%s: warning not determined" % name, l)
    want = "KickstartDeprecationWarning" in exp[2]
    if bool(d) != want:
        return bad((name, w.cls_name(name), "dep", want), "%r gives %s, the published version %s" % (l, "a deprecation warning (%s)" % d[0] if d else "no deprecation warning",
                   "does" if want else "does not"), where(w, name), {"version": w.ver, "line": l}, [{"cmd": name, "class": w.cls_name(name), "line": l}])
    return ok()


# ---------------------------------------------------------------- sections

PK = ["--excludedocs", "--exclude-docs", "--nobase", "--nocore", "--default", "--ignoremissing", "--ignore-missing", "--ignoredeps", "--resolvedeps", "--instLangs=a", "--instLangs a",
      "--inst-langs=a", "--inst-langs a", "--multilib", "--timeout=5", "--timeout 5", "--retries=5", "--excludeWeakdeps", "--exclude-weakdeps", "--ignorebroken"]
SC = ["--erroronfail", "--interpreter=/x", "--interpreter /x", "--log=/x", "--logfile=/x", "--nochroot"]


def headers():
    res = ["%packages"] + ["%packages " + a for a in PK]
    for i, a in enumerate(PK):
        for b in PK[i + 1:]:
            res.append("%%packages %s %s" % (a, b))
    for k in ("%pre", "%post", "%pre-install", "%traceback", "%onerror"):
        res.append(k)
        for i, a in enumerate(SC):
            res.append(k + " " + a)
            for b in SC[i + 1:]:
                res.append("%s %s %s" % (k, a, b))
    return res


def header_outcome(w, h):
    out = w.read(h + "\n" + ("%end\n" if versions()[w.ver] >= versions()["F8"] else ""))
    if not clear(out):
        return None, out
    if out.status != "ok":
        return "E", out
    d = dws(w, out)
    if d is None or any(x is None for x in d):
        return None, out
    return sorted(set(re.findall(r"%[a-z-]+|--[A-Za-z-]+", " ".join(x.replace("preferred alias", "\0").split("\0")[0].split("use the")[0] for x in d)))), out


def header_task(w, tier):
    pub = spec.load("dep")["headers"][w.ver]
    for i, (h, exp) in enumerate(sorted(pub.items())):
        if tier == "quick" and h.count("--") > 1 and (zlib.crc32(h.encode()) + sum(map(ord, w.ver))) % 3:
            continue
        got, out = header_outcome(w, h)
        if got is None:
            yield undecided("header: %s" % (out.why or out.status), "%s: %s" % (w.ver, h))
        elif got == exp:
            yield ok()
        elif exp != "E" and got != "E" and set(exp) <= set(got) and bool(exp) == bool(got):
            yield ok()
        else:
            def say(x):
                return "is rejected" if x == "E" else "gives deprecation warnings about %s" % ", ".join(x) if x else "gives no deprecation warning"
            yield bad(("header", h.split(" ")[0], say(exp)[:22], say(got)[:22]), "%r %s, published: %s" % (h, say(got), say(exp)), "pykickstart/sections.py", {"version": w.ver, "line": h})


def task(t):
    kind, ver, arg = t
    w = world(ver)
    if kind == "h":
        for x in header_task(w, arg):
            yield x
        return
    if kind == "l":
        for name, l, exp in arg:
            yield published(w, name, l, exp)
        return
    names, full = arg
    dep = spec.load("dep")["classes"][ver]
    for n in names:
        if n not in w.cmds:
            continue
        if n in dep["dep"]:
            for x in deprecated(w, n):
                yield x
            continue
        if n in dep["rem"]:
            for x in removed(w, n):
                yield x
            continue
        g = next((g for g in spec_cmds().get(n, ()) if ver in g["versions"]), None)
        if g is None or not g["table"]:
            continue
        if full:
            for x in options(w, n, g):
                yield x
            for x in gone(w, n, g):
                yield x


def check(rep):
    dep = spec.load("dep")["classes"]
    ts = [("h", v, rep.tier) for v in sorted(versions())]
    for v in sorted(versions()):
        names = set(dep[v]["dep"]) | set(dep[v]["rem"])
        full = set()
        for n, gs in spec_cmds().items():
            for g in gs:
                if v in g["versions"] and (rep.tier == "thorough" or v in (g["versions"][0], g["versions"][-1])):
                    full.add(n)
        names |= full
        names = sorted(names)
        for i in range(0, len(names), 12):
            ts.append(("o", v, (names[i:i + 12], True)))

    def want(l, e):
        return isinstance(e, list) and "\n" not in l and (rep.tier == "thorough" or e[2] or l.count("--") < 2 or zlib.crc32(l.encode()) % 4 == 0)
    ts += [("l", v, ls) for v, ls in spec.tasks(rep.tier, want=want)]
    rep.run(task, ts)
