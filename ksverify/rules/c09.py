"""%packages selections.

The reader and Packages.add are interpreted on every history of selection
lines up to length three over two names and every kind of line (package,
excluded package, group with and without options, excluded group,
environment, excluded environment, comments and blanks), in one section, over
two sections and through an include, and on single lines with several shapes
of name including holes. The lists must be those of the documented last-mention
model. Header options (alone, in pairs, all, in two sections) must be stored
as published. Whatever was read is written by Packages.__str__ and that text
is interpreted again in a new handler of the same version: selections and
options must be the same."""
import itertools
import zlib

from .. import spec
from ..check import bad, ok, undecided, world
from ..script import Run, final_state
from ..values import *
from ..world import mod_attr, tpl, unsure, untpl, versions

# line kinds: text of name N, effect
KINDS = {
    "p": "%s", "n": "-%s", "g": "@%s", "gn": "@%s --nodefaults", "go": "@%s --optional", "x": "-@%s", "e": "@^%s", "ne": "-@^%s",
    "pc": "   %s\t # about %s", "gc": "@%s   # c", "nc": " -%s #", "xc": "  -@%s#x",
    "c": "# %s", "b": "", "w": "  \t", "both": "@%s --optional --nodefaults",
}
INC = {"gn": "GROUP_REQUIRED", "go": "GROUP_ALL", "g": "GROUP_DEFAULT", "gc": "GROUP_DEFAULT"}


class Sel(object):
    def __init__(self):
        self.pkgs, self.excl, self.groups, self.xgroups, self.env = set(), set(), {}, set(), None
        self.odd = False
        self.error = False

    def line(self, kind, name):
        name = " ".join(name.split()) if kind in INC else name
        if kind in ("p", "pc"):
            self.pkgs.add(name)
            self.excl.discard(name)
        elif kind in ("n", "nc"):
            self.excl.add(name)
            self.pkgs.discard(name)
        elif kind in INC:
            self.xgroups.discard(name)
            if name in self.groups:
                if self.groups[name] != INC[kind]:
                    self.groups[name] = None
            else:
                self.groups[name] = INC[kind]
        elif kind in ("x", "xc"):
            self.xgroups.add(name)
            self.groups.pop(name, None)
        elif kind == "e":
            if "^" + name in self.xgroups:
                self.odd = True
            self.env = name
        elif kind == "ne":
            if self.env == name:
                self.env = None
            else:
                self.xgroups.add("^" + name)
        elif kind == "both":
            self.error = True
        return self


def consts(w):
    st = w.base
    r = {}
    for n in ("GROUP_REQUIRED", "GROUP_ALL", "GROUP_DEFAULT"):
        v = mod_attr(st, "pykickstart.constants", n)
        r[n] = v.v if isinstance(v, Const) else None
    return r


def canon_names(xs):
    return sorted(x.replace("<", "").replace(">", "") if isinstance(x, str) else x for x in xs)


def packages(w, st):
    """Selections and options of the state as data; None when not determined."""
    pk = st.get(w.h).d.get("packages")
    if not isinstance(pk, Ref):
        return None
    c = w.canon(st, pk)
    return None if unsure(c) else c


def selections(c):
    s = {"packageList": canon_names(c["packageList"]), "excludedList": canon_names(c["excludedList"]),
         "groups": sorted((g["name"].replace("<", "").replace(">", ""), g["include"]) for g in c["groupList"]),
         "excludedGroups": sorted(set(g["name"].replace("<", "").replace(">", "") for g in c["excludedGroupList"])),
         "environment": c["environment"].replace("<", "").replace(">", "") if isinstance(c["environment"], str) else c["environment"]}
    return s


def expected(m, cs):
    return {"packageList": sorted(m.pkgs), "excludedList": sorted(m.excl), "groups": sorted((k, cs[v] if v else None) for k, v in m.groups.items()),
            "excludedGroups": sorted(m.xgroups), "environment": m.env}


def document(lines, shape):
    """(main text, files) holding the lines in one of the layouts."""
    h = max(1, len(lines) // 2)
    if shape == "one":
        return "%packages\n" + "".join(l + "\n" for l in lines) + "%end\n", {}
    if shape == "two":
        return "%packages\n" + "".join(l + "\n" for l in lines[:h]) + "%end\nlang {w:l}\n%packages\n" + "".join(l + "\n" for l in lines[h:]) + "%end\n", {}
    if shape == "inc":
        return "%packages\n" + "".join(l + "\n" for l in lines[:h]) + "%include inc\n%end\n", {"inc": "\n".join(lines[h:])}
    if shape == "mid":
        return "%packages\n%include inc\n" + "".join(l + "\n" for l in lines[h:]) + "%end\n", {"inc": "".join(l + "\n" for l in lines[:h])}
    raise AssertionError(shape)


_runs = {}


def run_of(ver):
    if ver not in _runs:
        if len(_runs) > 3:
            _runs.clear()
        _runs[ver] = Run(world(ver))
    return _runs[ver]


def reread(run, st):
    """(text, packages read back) or a reason."""
    w = run.w
    v, so = w.str_of(st.copy(), st.get(w.h).d["packages"])
    if so.status in ("exc", "err"):
        return None, ("bad", "writing the section raises %s" % so.exc)
    if so.status != "ok" or so.why or sparts(v) is None:
        return None, ("und", "text: %s" % (so.why or so.status))
    t = untpl(v)
    out = run.go(t)
    if out.status in ("err", "exc"):
        return t, ("bad", "the written section is refused: %s: %r" % (out.exc, t))
    if out.status != "ok" or out.why:
        return t, ("und", "re-reading: %s" % (out.why or out.status))
    c = packages(w, out.state)
    if c is None:
        return t, ("und", "re-read data")
    return t, c


def compare_again(c, c2):
    """Differences a round trip must not show."""
    a, b = selections(c), selections(c2)
    if c["default"] is True:
        a.pop("environment")
        b.pop("environment")
    opt = {k: v for k, v in c.items() if k not in ("packageList", "excludedList", "groupList", "excludedGroupList", "environment")}
    opt2 = {k: v for k, v in c2.items() if k not in ("packageList", "excludedList", "groupList", "excludedGroupList", "environment")}
    a.update(opt)
    b.update(opt2)
    return ["%s was %r, reads back %r" % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


WH = "pykickstart/parser.py Packages"


def history(t):
    ver, batch = t
    run = run_of(ver)
    w = run.w
    cs = consts(w)
    n = 0
    for hist, shape in batch:
        m = Sel()
        lines = []
        for k, nm in hist:
            lines.append(KINDS[k].replace("%s", nm))
            m.line(k, nm)
        if m.odd:
            continue
        main, files = document(lines, shape)
        case = {"version": ver, "input": main}
        if files:
            case["files"] = files
        out = run.go(main, files)
        if out.status in ("maybe", "mixed", "unknown") or (out.status == "ok" and out.why):
            yield undecided("history: %s" % (out.why or out.status), str(case)[:300])
            continue
        if m.error:
            if out.status == "ok":
                yield bad(("both",), "a group with --nodefaults and --optional is accepted", WH + "._processGroup", case)
            elif not out.exc.cls.issub(w.PE):
                yield bad(("bothexc",), "a group with --nodefaults and --optional raises %s" % out.exc.cls.name, WH + "._processGroup", case)
            else:
                n += 1
            continue
        if out.status != "ok":
            yield bad(("refused", str(out.exc.cls.name)), "the lines %r are refused: %s at %s" % (lines, out.exc, out.exc.site), str(out.exc.site), case)
            continue
        c = packages(w, out.state)
        if c is None:
            yield undecided("history: lists not determined", str(case)[:300])
            continue
        have, want = selections(c), expected(m, cs)
        amb = {g for g, i in want["groups"] if i is None}
        have["groups"] = sorted((g, None if g in amb else i) for g, i in have["groups"])
        d = [k for k in want if have[k] != want[k]]
        if d:
            yield bad(("lists", d[0]), "after %r %s is %r, must be %r" % (lines, d[0], have[d[0]], want[d[0]]), WH + ".add", case, [{"what": d[0], "lines": lines}])
            continue
        if not c["seen"]:
            yield bad(("seen",), "the section is read but not marked as seen", "pykickstart/sections.py PackageSection.handleHeader", case)
            continue
        t2, c2 = reread(run, out.state)
        if isinstance(c2, tuple):
            yield undecided(c2[1], str(case)[:300]) if c2[0] == "und" else bad(("rt", "refused"), c2[1], WH + ".__str__", case)
            continue
        b = compare_again(c, c2)
        if b:
            yield bad(("rt", b[0].split(" ")[0]), "%s (written text %r)" % (b[0], t2), WH + ".__str__", case, [{"what": "roundtrip " + b[0].split(" ")[0], "lines": lines}])
            continue
        n += 1
    yield ok(n)
    if batch:
        yield ("sample", "%s: %r" % (ver, batch[len(batch) // 2]))


# ---------------------------------------------------------------- headers

VALUE = {"--instLangs": "{w:il}", "--inst-langs": "{w:il}", "--timeout": "{n:to}", "--retries": "{n:re}"}


def optwords(w):
    """Spellings of the options the version's section header knows."""
    from .. import argmodel
    st = w.fresh()
    sec = st.get(st.get(w.kp).d["_sections"]).items.get(Const("%packages"))
    op, out = w.guard(st, lambda s: w.I.call(s, w.I.getattr_(s, sec, "_getParser"), [], {}))
    t = argmodel.table(w.I, st, op)
    res = []
    for s in t:
        if s in ("-h", "--help") or s.startswith("<"):
            continue
        res.append((s, st.get(t[s]).d["nargs"] != Const(0)))
    return res


def headers(w):
    """Header texts of the published reference of a version."""
    ws = [s + ("=" + VALUE.get(s, "{w:zz}") if v else "") for s, v in sorted(optwords(w))]
    res = [""] + list(ws)
    for a, b in itertools.combinations(ws, 2):
        res += [a + " " + b, b + " " + a]
    res.append(" ".join(ws))
    for a in ws:
        res.append(" ".join(x for x in ws if x != a))
    for s, v in sorted(optwords(w)):
        if v:
            res += [s + " " + VALUE.get(s, "{w:zz}"), s + "=0", s + "=5"]
    two = []
    for a in [""] + ws:
        for b in [""] + ws:
            two.append((a, b))
    return res, two


def read_header(run, hs):
    """Options after reading sections with these headers: dict, 'E' or None."""
    w = run.w
    text = "".join("%%packages %s\nvim\n%%end\n" % h for h in hs)
    out = run.go(text)
    if out.status == "err":
        return "E", out, text
    if out.status != "ok" or out.why:
        return None, out, text
    c = packages(w, out.state)
    if c is None:
        return None, out, text
    d = {k: v for k, v in c.items() if k not in ("packageList", "excludedList", "groupList", "excludedGroupList", "environment")}
    return d, out, text


def published(ver):
    run = run_of(ver)
    hs, two = headers(run.w)
    res = {"one": {}, "two": []}
    base = read_header(run, [""])[0]
    for h in hs:
        d = read_header(run, [h])[0]
        if d is None:
            continue
        res["one"][h] = d if d == "E" else {k: v for k, v in d.items() if base.get(k) != v or k not in base}
    for a, b in two:
        d = read_header(run, [a, b])[0]
        if d is not None and d != "E":
            res["two"].append([a, b, {k: v for k, v in d.items() if base.get(k) != v}])
    res["base"] = base
    return res


def header_task(t):
    ver, pub, part, thorough = t
    run = run_of(ver)
    w = run.w
    base = pub["base"]
    n = 0
    H = "pykickstart/sections.py PackageSection.handleHeader"
    cases = [([h], e) for h, e in sorted(pub["one"].items())] + [([a, b], e) for a, b, e in pub["two"]]
    for i, (hs, e) in enumerate(cases):
        if i % 4 != part:
            continue
        if not thorough and zlib.crc32((ver + "|".join(hs)).encode()) % (5 if len(hs) == 2 else 2):
            continue
        d, out, text = read_header(run, hs)
        case = {"version": ver, "input": text}
        if d is None:
            if out.status == "exc":
                yield bad(("hdr", "exc"), "the header %r raises %s at %s" % (hs, out.exc, out.exc.site), H, case)
            else:
                yield undecided("header: %s" % (out.why or out.status), text[:200])
            continue
        want = e if e == "E" else dict(base, **e)
        if d == "E" or want == "E":
            if d != want:
                yield bad(("hdr", hs[0].split("=")[0]), "the header %r is %s, published: %s" % (hs, "refused (%s)" % out.exc if d == "E" else "accepted", "refused" if want == "E" else "accepted"), H, case)
            else:
                n += 1
            continue
        df = [k for k in sorted(want) if d.get(k, "<missing>") != want[k]]
        if df:
            yield bad(("hdrval", df[0]), "after the header %r %s is %r, published %r" % (hs, df[0], d.get(df[0], "<missing>"), want[df[0]]), H, case)
            continue
        if len(hs) == 2 and d["default"] is True and (d["nocore"] is True or d["addBase"] is False):
            n += 1      # sections that contradict each other
            continue
        t2, c2 = reread(run, out.state)
        if isinstance(c2, tuple):
            yield undecided(c2[1], text[:200]) if c2[0] == "und" else bad(("rt", "refused"), c2[1], WH + ".__str__", case)
            continue
        b = compare_again(packages(w, out.state), c2)
        if b:
            yield bad(("rt", b[0].split(" ")[0]), "%s (written text %r)" % (b[0], t2), WH + ".__str__", case, [{"what": "roundtrip " + b[0].split(" ")[0], "header": hs}])
            continue
        n += 1
    yield ok(n)


# ---------------------------------------------------------------- direct use

def direct(t):
    """Packages.add called by a program: one line each and several distinct ones at once."""
    ver, batch = t
    run = run_of(ver)
    w = run.w
    cs = consts(w)
    n = 0
    for calls in batch:
        m = Sel()
        st = run.base.copy()
        pk = st.get(w.h).d["packages"]
        dead = False
        txt = []
        for call in calls:
            items = []
            for k, nm in call:
                items.append(KINDS[k].replace("%s", nm))
                m.line(k, nm)
            txt.append(items)
            _v, out = w.guard(st, lambda s: w.I.call(s, w.I.getattr_(s, pk, "add"), [w.I.list_(s, [tpl(x) for x in items])], {}))
            if out.status != "ok" or out.why:
                dead = True
                break
        if m.odd:
            continue
        case = {"version": ver, "calls of Packages.add": txt}
        if dead:
            if out.status in ("err", "exc"):
                yield bad(("add", "raises"), "Packages.add(%r) raises %s at %s" % (txt[-1], out.exc, out.exc.site), WH + ".add", case)
            else:
                yield undecided("add: %s" % (out.why or out.status), str(case)[:200])
            continue
        c = packages(w, st)
        if c is None:
            yield undecided("add: lists", str(case)[:200])
            continue
        have, want = selections(c), expected(m, cs)
        amb = {g for g, i in want["groups"] if i is None}
        have["groups"] = sorted((g, None if g in amb else i) for g, i in have["groups"])
        d = [k for k in want if have[k] != want[k]]
        if d:
            yield bad(("add", d[0]), "after Packages.add calls with %r %s is %r, must be %r" % (txt, d[0], have[d[0]], want[d[0]]), WH + ".add", case)
        else:
            n += 1
    yield ok(n)


ALPHA = [(k, n) for n in ("vim", "a-b*") for k in ("p", "n", "g", "go", "x")] + [("e", "vim"), ("ne", "vim"), ("e", "a-b*"), ("gn", "vim")]
LIKE = ["vim", "vim-enhanced", "im", "Vim", "vim*"]
NAMES = ["vim", "*", "kde-i18n-*", "glibc.i686", "nodejs:10/server", "@vim"[1:] + "-@x", "X Window System", "p{w:x}", "p{w:x} q{w:y}", "0ad", "a--b", "x^y", "g++", "a=b", "perl(Foo::Bar)", "/usr/bin/vim"]


def dispatch(t):
    return {"h": history, "hdr": header_task, "d": direct}[t[0]](t[1:])


def chunk(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def check(rep):
    thorough = rep.tier == "thorough"
    ts = []
    vs = sorted(versions())
    # single lines of every kind and name, every version
    for i, v in enumerate(vs):
        hs = [([(k, nm)], "one") for j, (k, nm) in enumerate(itertools.product(KINDS, NAMES)) if (k != "ne" or True) and (thorough or (i + j) % 5 == 0)]
        for b in chunk(hs, 90):
            ts.append(("h", v, b))
    # histories of two and three lines
    two = list(itertools.product(ALPHA, repeat=2))
    three = list(itertools.product(ALPHA, repeat=3))
    use = vs if thorough else [v for v in ("FC3", "F8", "F34") if v in versions()]
    for q, v in enumerate(use):
        hs = [(list(h), s) for i, h in enumerate(two) for j, s in enumerate(("one", "two", "inc", "mid")) if thorough or (i + i // 14 + j) % 3 == q]
        hs += [(list(h), ("one", "two", "inc", "mid")[(i // 3 + q) % 4]) for i, h in enumerate(three) if thorough or (i + i // 14 + i // 196) % 3 == q]
        if thorough and v in ("F34", "F7"):
            hs += [(list(h), "one") for i, h in enumerate(itertools.product(ALPHA[:5] + ALPHA[10:13], repeat=4))]
        for b in chunk(hs, 120):
            ts.append(("h", v, b))
    for v in vs:
        if v not in use:
            hs = [(list(h), ("one", "two", "inc", "mid")[(i + vs.index(v)) % 4]) for i, h in enumerate(two) if (i + vs.index(v)) % 11 == 0]
            ts.append(("h", v, hs))
    # names that resemble each other (prefix, suffix, case, version)
    ks = ("p", "n", "g", "go", "x", "e", "ne")
    for q, v in enumerate(use):
        hs = []
        for i, (a, b) in enumerate(itertools.permutations(LIKE, 2)):
            for j, (x, y) in enumerate(itertools.product(ks, repeat=2)):
                if thorough or (i + j + j // 7) % 3 == q:
                    hs.append(([(x, a), (y, b)], ("one", "two", "inc", "mid")[(i + j) % 4]))
                if (i + j) % 9 == q:
                    hs.append(([(x, a), (x, b), (y, a)], "one"))
        for b in chunk(hs, 120):
            ts.append(("h", v, b))
    # comments and blanks between
    filler = [("c", "vim"), ("b", ""), ("w", "")]
    for v in use:
        hs = []
        for i, h in enumerate(two):
            if not thorough and (i + i // 14) % 3 != use.index(v):
                continue
            f = filler[i % 3]
            hs.append(([f, h[0], filler[(i + 1) % 3], h[1], f], ("one", "two", "inc", "mid")[i % 4]))
        for a in ("pc", "gc", "nc", "xc"):
            for b in ALPHA:
                hs += [([(a, "vim"), b], "one"), ([b, (a, "vim")], "two")]
        for b in chunk(hs, 120):
            ts.append(("h", v, b))
    # header options
    pub = spec.load("pkghdr")
    for v in vs:
        if v in pub:
            for part in range(4):
                ts.append(("hdr", v, pub[v], part, thorough))
    # direct calls
    ds = [[[h[0]], [h[1]]] for h in two] + [[[h[0], h[1]]] for h in two if h[0][1] != h[1][1] and not (h[0][0] == "e" and h[1][0] == "e")]
    ds += [[[("p", "vim"), ("n", "emacs"), ("g", "core"), ("x", "kde"), ("e", "srv")], [h[0]], [h[1]]] for h in two[::3]]
    for v in use:
        for b in chunk(ds, 150):
            ts.append(("d", v, b))
    rep.run(dispatch, ts)
