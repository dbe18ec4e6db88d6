"""Whole-input analysis of the reader: abstract line sequences.

A script is a sequence of line kinds; each line is a text template whose holes
are labelled with the line's number, so what ends up where can be told for
every content.  `model` is the documented behaviour of the reader on such a
sequence; `observe` extracts the same observables from the abstract state that
the current source reaches."""
import itertools
import posixpath

from .interp import Dead
from .values import *
from .world import tpl, mod_attr, unsure, World

# kind -> text of line number i (holes are labelled with i)
TEXT = {
    "part": "part /{w:m%s}",
    "partc": "  part   /{w:m%s} # {w:c%s}",
    "lang": "lang {w:l%s}",
    "comm": "# {t:c%s}",
    "comm2": "   #{w:c%s}",
    "blank": "",
    "ws": "  \t",
    "unk": "zz{w:u%s} {w:v%s}",
    "badopt": "part /{w:m%s} --zz{w:u%s}",
    "badval": "part /{w:m%s} --size={w:u%s}",
    "noarg": "lang",
    "ksapp": "%ksappend {w:k%s}",
    "end": "%end",
    "endc": "  %end # {w:c%s}",
    "pre": "%pre",
    "preo": "%pre --interpreter=/{w:i%s} --log=/{w:o%s} --erroronfail",
    "post": "%post",
    "posto": "%post --nochroot --logfile=/{w:o%s}",
    "onerror": "%onerror",
    "traceback": "%traceback --erroronfail",
    "preinst": "%pre-install",
    "pkgs": "%packages",
    "pkgso": "%packages --ignoremissing",
    "addon": "%addon {w:a%s} --{w:b%s}",
    "anaconda": "  %anaconda",
    "badhdr": "%pre --zz{w:u%s}",
    "badhdr2": "%post --interpreter",
    "badpkgs": "%packages --zz{w:u%s}",
    "foreign": "%zzforeign {w:a%s}",
    "text": "{w:t%s} {w:s%s}",
    "itext": "    {w:t%s} | {w:s%s} \\",
    "pct": "%{w:t%s} {w:s%s}",
    "pctq": "  %{w:t%s} \"{w:s%s}",
    "kw1": "%end#{w:t%s}",
    "kw2": "  %ending {w:t%s}",
    "kw3": "%END {w:t%s}",
    "kw4": "%includes {w:t%s}",
    "kw5": "%postx",
    "kw6": "%%end",
    "kw7": "% end {w:t%s}",
    "kw8": "%packages2 {w:t%s}  \t ",
    "kw9": "%Pre",
    "kw10": "echo %end",
    "kw11": "-%end \"%include\"",
    "kw12": "%ksappends {w:t%s}",
    "kw13": "%end;",
    "kw14": "#%end",
    "kw15": "  # %include {w:t%s}",
    "kw16": "%addons",
    "quote": "echo \"{w:t%s} '{w:s%s}",
    "pkg": "pkg%s",
    "pkgc": "  pkg%s   # {w:c%s}",
    "npkg": "-pkg%s",
    "grp": "@grp%s",
    "platform": "#platform=plat%s",
}
# headers with options: name -> (section, options given, text)
HOPT = {"i0": ("interp", "/{w:i%s}", "--interpreter=/{w:i%s}"), "i1": ("interp", "/{w:i%s}", "--interpreter /{w:i%s}"),
        "i2": ("interp", "/{w:i%s} -{w:I%s}", "--interpreter=\"/{w:i%s} -{w:I%s}\""),
        "l0": ("log", "/{w:o%s}", "--log=/{w:o%s}"), "l1": ("log", "/{w:o%s}", "--logfile=/{w:o%s}"),
        "l2": ("log", "/{w:o%s} {w:O%s}", "--logfile \"/{w:o%s} {w:O%s}\""), "l3": ("log", "/{w:o%s}", "--log   /{w:o%s}"),
        "e0": ("err", True, "--erroronfail"), "n0": ("nochroot", True, "--nochroot")}
HSETS = {}


def _hsets():
    n = 0
    for sec in ("pre", "post", "onerror", "traceback", "pre-install"):
        ks = ["i", "l", "e"] + (["n"] if sec == "post" else [])
        for r in range(1, len(ks) + 1):
            for c in itertools.permutations(ks, r):
                if r > 2 and n % 3:
                    n += 1
                    continue
                for q in range(3 if r == 1 else 1):
                    n += 1
                    os_ = [k + str((n + q) % {"i": 3, "l": 4}.get(k, 1)) for k in c]
                    name = "h:%s:%s" % (sec, ",".join(os_))
                    HSETS[name] = (sec.replace("pre-install", "preinst"), os_)
                    TEXT[name] = "%" + sec + " " + " ".join(HOPT[o][2] for o in os_)


_hsets()
OPENS = {"pre": "pre", "preo": "pre", "post": "post", "posto": "post", "onerror": "onerror", "traceback": "traceback", "preinst": "preinst",
         "pkgs": "pkgs", "pkgso": "pkgs", "addon": "null", "anaconda": "null", "badhdr": "pre", "badhdr2": "post", "badpkgs": "pkgs", "foreign": "null"}
TYPES = {"pre": 0, "post": 1, "traceback": 2, "preinst": 3, "onerror": 4}
OPENS.update({n: h[0] for n, h in HSETS.items()})
BLANK = ("comm", "comm2", "blank", "ws", "platform")
ENDS = ("end", "endc")


def text(kind, i):
    if kind.startswith("inc:"):
        return "%include " + kind[4:]
    if kind == "incnone":
        return "%include"
    t = TEXT[kind]
    return t.replace("%s", str(i)) if "%s" in t else t


def render(kinds, final_newline=True, tag=""):
    ls = [text(k, "%s%d" % (tag, i + 1)) for i, k in enumerate(kinds)]
    t = "\n".join(ls)
    return t + "\n" if final_newline else t


def TAG(path):
    return path.replace("/", "_").replace("{", "").replace("}", "")


class Stop(Exception):
    def __init__(self, kind, lineno):
        self.kind = kind
        self.lineno = lineno


class Model(object):
    """What reading must do.  Attributes become None when not specified."""
    def __init__(self, ver, num, nums, files=(), fatal=True, follow=True, missing_fatal=True, unknown_fatal=True):
        self.num = num
        self.f8 = num >= nums["F8"]
        self.f34 = num >= nums["F34"]
        self.files = dict(files)      # name -> (kinds, final newline)
        self.fatal = fatal
        self.follow = follow
        self.missing_fatal = missing_fatal
        self.unknown_fatal = unknown_fatal
        self.parts, self.lang, self.scripts, self.nulls = [], None, [], []
        self.pkgs, self.npkgs, self.grps = set(), set(), []
        self.platform = ""
        self.errors = 0
        self.dep = 0
        self.warned = 0
        self.error = None
        self.sec = None               # open section: [kind, header lineno or None, options, body]
        self.foreign_known = False
        self.odd = False              # outside what is specified
        self.dirs = None              # directories of the files being read
        self.opens = []
        self.leadblank = False        # an included script body starts with a blank line

    def read_file(self, path):
        """Reading of a file whose includes are resolved against directories."""
        self.dirs = []
        self.opens = [path]
        kinds, nl = self.files[path]
        d = posixpath.dirname(path)
        self.dirs = [d if d.startswith("/") else ("{cwd}/" + d if d else "{cwd}")]
        try:
            self.file(kinds, nl, TAG(path), 0)
        except Stop as e:
            self.error = e
        return self

    def read(self, kinds, nl=True):
        try:
            self.file(kinds, nl, "", 0)
        except Stop as e:
            self.error = e
        return self

    def tryit(self, ln, kind):
        """A command or header error: ends the parse or is counted."""
        self.errors += 1
        if self.fatal:
            raise Stop(kind, ln)

    def close(self):
        k, ln, opts, body = self.sec
        self.sec = None
        if k == "pkgs":
            return
        if k == "null":
            self.nulls.append((opts, list(body)))
            return
        if all(b.strip() == "" for b in body):
            return
        o = dict(opts)
        self.scripts.append({"type": TYPES[k], "lineno": ln, "body": "".join(body), "interp": o.get("interp", "/bin/sh"), "logfile": o.get("log"),
                             "errorOnFail": o.get("err", False), "inChroot": (not o.get("nochroot", False)) if k == "post" else False})

    def file(self, kinds, nl, tag, depth):
        opened_here = None
        for i, k in enumerate(kinds):
            ln = i + 1
            lab = "%s%d" % (tag, ln)
            tx = text(k, lab)
            raw = tx + ("\n" if nl or i < len(kinds) - 1 else "")
            if raw == "":
                # an empty last line without a newline is no line
                continue
            again = True
            while again:
                again = False
                if self.sec is None:
                    opened_here = None
                    r = self.command(k, ln, lab, tx, depth)
                    if r == "open":
                        opened_here = ln
                else:
                    again = self.body(k, ln, lab, raw, depth)
        if self.sec is not None and (depth == 0 or opened_here is not None):
            if self.f8:
                raise Stop("unterminated", len(kinds) if (kinds and (nl or text(kinds[-1], "1") != "")) else len(kinds) - 1)
            self.close()

    def include(self, k, ln, depth):
        name = k[4:]
        if not self.follow:
            return
        tag = name
        if self.dirs is not None:
            if name not in self.files and self.dirs[-1] is not None:
                name = posixpath.join(self.dirs[-1], name)
            self.opens.append(name)
            tag = TAG(name)
        if name not in self.files:
            if self.missing_fatal:
                raise Stop("missing", None)
            return
        kinds, nl = self.files[name]
        before = self.sec
        if self.dirs is not None:
            d = posixpath.dirname(name)
            self.dirs.append(d if d.startswith(("/", "{cwd}")) else ("{cwd}/" + d if d else "{cwd}"))
        if before is not None and kinds and kinds[0] in ("blank", "ws"):
            self.leadblank = True
        self.file(kinds, nl, tag, depth + 1)
        if self.dirs is not None:
            self.dirs.pop()
        if self.sec is not before:
            self.odd = True

    def header_opts(self, k, lab):
        if k in HSETS:
            res = {}
            for o in HSETS[k][1]:
                n, v, _t = HOPT[o]
                res[n] = "<" + v.replace("%s", lab) + ">" if isinstance(v, str) else v
            return res
        if k == "preo":
            return {"interp": "</{w:i%s}>" % lab, "log": "</{w:o%s}>" % lab, "err": True}
        if k == "posto":
            return {"nochroot": True, "log": "</{w:o%s}>" % lab}
        if k == "traceback":
            return {"err": True}
        return {}

    def command(self, k, ln, lab, tx, depth):
        if k == "platform":
            self.platform = "plat" + lab
            return
        if k in BLANK:
            return
        if k == "incnone":
            raise Stop("include", ln)
        if k.startswith("inc:"):
            return self.include(k, ln, depth)
        if k == "ksapp":
            return
        if k in ("part", "partc"):
            self.parts.append(("</{w:m%s}>" % lab, ln))
        elif k == "lang":
            self.lang = ("<{w:l%s}>" % lab, ln)
        elif k in ("unk", "badopt", "badval", "noarg", "text", "itext", "pkg", "pkgc", "npkg", "grp"):
            if k in ("itext",):
                self.odd = True
            self.tryit(ln, "command")
        elif k in ("quote",):
            self.odd = True
            raise Stop("quote", ln)
        elif k == "foreign" and (not self.unknown_fatal or self.foreign_known):
            if not self.foreign_known:
                self.warned += 1
            self.foreign_known = True
            self.sec = ["null", ln, tx.split(), []]
            return "open"
        elif k in ("pct", "foreign", "end", "endc", "pctq"):
            if k == "pctq":
                self.odd = True
            if not self.unknown_fatal:
                self.odd = True
            raise Stop("section", ln)
        elif k in OPENS:
            o = OPENS[k]
            if o == "null":
                self.sec = ["null", ln, tx.split(), []]
            else:
                self.sec = [o, ln, self.header_opts(k, lab), []]
                if o == "traceback" and self.f34:
                    self.dep += 1
                if k.startswith("bad"):
                    self.sec[1] = "?"
                    self.tryit(ln, "header")
                if k == "pkgso":
                    pass
            return "open"
        else:
            raise AssertionError(k)

    def body(self, k, ln, lab, raw, depth):
        """Line k inside the open section; True when it is to be read again."""
        sk = self.sec[0]
        if k == "incnone":
            raise Stop("include", ln)
        if k.startswith("inc:"):
            self.include(k, ln, depth)
            return
        if k in ENDS:
            self.close()
            return
        if k in OPENS and (k != "foreign" or self.foreign_known):
            if self.f8:
                raise Stop("unterminated", ln)
            if depth:
                self.odd = True
            self.close()
            return True
        if sk == "pkgs":
            if k in BLANK:
                return
            t = raw.split("#")[0].strip()
            if k == "grp":
                g = t[1:]
                if g not in self.grps:
                    self.grps.append(g)
            elif k == "npkg":
                self.npkgs.add(t[1:])
                self.pkgs.discard(t[1:])
            elif k in ("pkg", "pkgc"):
                self.pkgs.add(t)
                self.npkgs.discard(t)
            elif k in ("quote", "text", "part", "lang", "unk", "badopt", "badval", "ksapp", "noarg", "pct", "pctq", "itext", "foreign", "partc"):
                self.pkgs.add("?" + t)
            return
        if self.sec[3] and not self.sec[3][-1].endswith("\n"):
            self.sec[3][-1] += "\n"      # last line of an included file
        self.sec[3].append(raw)


def untag(t):
    return "<" + t + ">" if "{" in t else t


class Run(object):
    """Reading of abstract text by the current source, with parser flags."""
    def __init__(self, w, fatal=True, follow=True, missing_fatal=True, unknown_fatal=True):
        self.w = w
        self.flags = {"errorsAreFatal": fatal, "followIncludes": follow, "missingIncludeIsFatal": missing_fatal, "unknownSectionIsFatal": unknown_fatal}
        st = w.fresh()
        KP = mod_attr(st, "pykickstart.parser", "KickstartParser")
        w.I.sink = []
        w.I.steps = 0
        self.kp = w.I.call(st, KP, [w.h], {k: Const(v) for k, v in self.flags.items()})
        st.w("$ev").items = ()
        self.base = st.freeze()

    def go(self, content, files=None, path=None):
        """Outcome of reading a string, or the file `path` when given."""
        w = self.w
        st = self.base.copy()
        items = {}
        for n, c in (files or {}).items():
            items[tpl(n)] = tpl(c)
        if path is not None:
            items[tpl(path)] = tpl(content)
        st.new("dict", items=items, addr="$fs", rest=NONE)
        meth = "readKickstart" if path is not None else "readKickstartFromString"
        _r, out = w.guard(st, lambda s: w.I.call(s, w.I.getattr_(s, self.kp, meth), [tpl(content if path is None else path)], {}))
        return out


def final_state(out):
    if out.status == "ok":
        return out.state
    if out.status in ("err", "exc") and len(out.excs) == 1:
        return out.excs[0][1]
    return None


def observe(run, out):
    """Observables of the final state as plain data; undecided parts are None."""
    w = run.w
    st = final_state(out)
    if st is None:
        return None
    o = {}
    cmds = w.commands(st)

    def attr(ref, name):
        return w.I.getattr_(st.copy(), ref, name)

    def canon(v):
        c = w.canon(st, v)
        return None if unsure(c) else c

    def lineno(v):
        return v.v if isinstance(v, Const) else None
    it = st.get(st.get(cmds["part"]).d["partitions"])
    if it.rest is None and all(isinstance(x, Ref) for x in it.items):
        o["parts"] = [(canon(st.get(x).d["mountpoint"]), lineno(st.get(x).d["lineno"])) for x in it.items]
    la = st.get(cmds["lang"]).d
    o["lang"] = (canon(la["lang"]), lineno(la["lineno"])) if la["lang"] != w.base.get(w.cmds["lang"]).d["lang"] else None
    it = st.get(st.get(w.h).d["scripts"])
    if it.rest is None and all(isinstance(x, Ref) for x in it.items):
        o["scripts"] = []
        for x in it.items:
            d = st.get(x).d
            b = canon(d["script"])
            o["scripts"].append({"type": canon(d["type"]), "lineno": lineno(d["lineno"]), "body": b[1:-1] if isinstance(b, str) and b[:1] == "<" and b[-1:] == ">" else b,
                                 "interp": canon(d["interp"]), "logfile": canon(d["logfile"]), "errorOnFail": canon(d["errorOnFail"]), "inChroot": canon(d["inChroot"])})
    pk = st.get(w.h).d.get("packages")
    if isinstance(pk, Ref):
        d = st.get(pk).d
        for n, a in (("pkgs", "packageList"), ("npkgs", "excludedList")):
            c = canon(d[a])
            o[n] = sorted(x for x in c if isinstance(x, str)) if isinstance(c, list) else None
        g = canon(d["groupList"])
        o["grps"] = sorted(x["name"] for x in g) if isinstance(g, list) else None
        o["pseen"] = canon(d["seen"])
    o["platform"] = canon(st.get(w.h).d["platform"])
    ec = st.get(run.kp).d["errorsCount"]
    o["errors"] = ec.v if isinstance(ec, Const) else None
    ev = st.events()
    if all(e[0] for e in ev):
        o["prints"] = sum(1 for e in ev if e[1] == "print")
        o["dep"] = sum(1 for e in ev if e[1] == "warn" and isinstance(e[2], Cls) and e[2].issub(w.DW))
        o["warned"] = sum(1 for e in ev if e[1] == "warn" and isinstance(e[2], Cls) and e[2].issub(w.PW))
        o["opens"] = [canon(e[2]) for e in ev if e[1] == "open"]
    return o


def err_info(run, out):
    """(class name, lineno or '?' when absent/undecided, site)."""
    e = out.exc
    st = out.excs[0][1]
    o = st.get(e.val) if isinstance(e.val, Ref) else None
    ln = o.d.get("lineno") if o is not None else None
    return e.cls.name, (ln.v if isinstance(ln, Const) else "?"), str(e.site)


# ------------------------------------------------------------- comparison

PARSE = ("command", "header", "section", "include", "unterminated")


def same_body(model, seen):
    """Script bodies; the holes of comment text print as words."""
    return seen is not None and model.replace("{t:", "{w:") == seen.replace("{t:", "{w:")


def compare_run(run, m, out):
    """[(aspect, message)] definite differences, or None when undecided.

    aspects: outcome, errline, lineno, order, script, options, packages, count, print, null, warn, platform"""
    if out.status in ("maybe", "mixed", "unknown") or (out.status == "ok" and out.why):
        return None
    bads = []
    o = observe(run, out)
    if o is None:
        return None
    if m.error is None:
        if out.status != "ok":
            return [("outcome", "reading stops with %s, but nothing is wrong with the input" % (out.exc,))]
    else:
        if out.status == "ok":
            return [("outcome", "reading succeeds, but line %s must be refused (%s)" % (m.error.lineno, m.error.kind))]
        name, ln, site = err_info(run, out)
        if m.error.kind == "missing":
            if not out.exc.cls.issub(run.w.KE):
                bads.append(("outcome", "an unreadable include raises %s at %s" % (name, site)))
        elif m.error.kind in PARSE:
            if not out.exc.cls.issub(run.w.PE):
                bads.append(("outcome", "line %s raises %s at %s instead of a parse error" % (m.error.lineno, name, site)))
            elif ln != m.error.lineno:
                if ln == "?":
                    return None
                bads.append(("errline", "the error raised at %s names line %r, but the line is %d" % (site, ln, m.error.lineno)))
    p = o.get("parts")
    if p is not None and all(x[0] is not None for x in p):
        if [x[0] for x in p] != [x[0] for x in m.parts]:
            bads.append(("order", "the commands run are %r, must be %r" % ([x[0] for x in p], [x[0] for x in m.parts])))
        elif [x[1] for x in p] != [x[1] for x in m.parts] and None not in [x[1] for x in p]:
            bads.append(("lineno", "command data carry lines %r, must be %r" % ([x[1] for x in p], [x[1] for x in m.parts])))
    if o["lang"] is not None and m.lang is not None and None not in o["lang"]:
        if o["lang"][0] != m.lang[0]:
            bads.append(("order", "the last lang line seen is %r, must be %r" % (o["lang"][0], m.lang[0])))
        elif o["lang"][1] != m.lang[1]:
            bads.append(("lineno", "lang carries line %r, must be %r" % (o["lang"][1], m.lang[1])))
    elif (o["lang"] is None) != (m.lang is None):
        bads.append(("order", "lang line %r, must be %r" % (o["lang"], m.lang)))
    s = o.get("scripts")
    if s is not None:
        if len(s) != len(m.scripts):
            bads.append(("script", "there are %d scripts, must be %d" % (len(s), len(m.scripts))))
        else:
            for i, (a, b) in enumerate(zip(m.scripts, s)):
                if b["body"] is not None and not same_body(a["body"], b["body"]):
                    bads.append(("script", "script %d has body %r, must be %r" % (i + 1, b["body"], a["body"])))
                if b["type"] is not None and a["type"] != b["type"]:
                    bads.append(("script", "script %d has type %r, must be %r" % (i + 1, b["type"], a["type"])))
                if a["lineno"] == "?":
                    continue
                if b["lineno"] is not None and a["lineno"] != b["lineno"]:
                    bads.append(("lineno", "script %d carries line %r, must be %r" % (i + 1, b["lineno"], a["lineno"])))
                if b["lineno"] is None and isinstance(a["lineno"], int):
                    bads.append(("lineno", "script %d carries no line, must be %r" % (i + 1, a["lineno"])))
                for k in ("interp", "logfile", "errorOnFail", "inChroot"):
                    if b[k] is None and a[k] is not None and k != "logfile":
                        continue
                    if a[k] != b[k]:
                        bads.append(("options", "script %d has %s %r, must be %r" % (i + 1, k, b[k], a[k])))
    if m.pkgs is not None and all(not x.startswith("?") for x in m.pkgs):
        for n, want in (("pkgs", m.pkgs), ("npkgs", m.npkgs), ("grps", m.grps)):
            have = o.get(n)
            if have is not None and have != sorted(want):
                bads.append(("packages", "%s are %r, must be %r" % ({"pkgs": "requested packages", "npkgs": "excluded packages", "grps": "groups"}[n], have, sorted(want))))
    if o.get("errors") is not None and o["errors"] != m.errors:
        bads.append(("count", "%d errors are counted, must be %d" % (o["errors"], m.errors)))
    if "prints" in o and not m.fatal and o["prints"] != m.errors:
        bads.append(("count", "%d errors are printed, must be %d" % (o["prints"], m.errors)))
    if "dep" in o and o["dep"] != m.dep:
        bads.append(("warn", "%d deprecation warnings, must be %d" % (o["dep"], m.dep)))
    if o["platform"] is not None and o["platform"] != m.platform:
        bads.append(("platform", "platform is %r, must be %r" % (o["platform"], m.platform)))
    if out.status == "ok" and m.nulls:
        b = nulls(run, m, out)
        if b:
            bads.append(("null", b))
    return bads


def nulls(run, m, out):
    """Foreign sections are written back with header words and body kept."""
    v, so = run.w.str_of(out.state.copy(), run.w.h)
    if so.status != "ok" or sparts(v) is None:
        return None
    from .world import untpl
    t = untpl(v)
    pos = 0
    for words, body in m.nulls:
        want = " ".join(words) + "\n" + "".join(body).replace("{t:", "{w:")
        want = want.rstrip("\n") + "\n"
        i = t.find("\n" + want, pos)
        if i < 0:
            return "the foreign section %r is not written back in its place" % want
        pos = i + len(want)
        if not t[pos + 1:].lstrip("\n").startswith("%end\n"):
            return "the foreign section %r is not closed where its body ends" % want
    return None


CORE = ["part", "unk", "comm", "blank", "pre", "posto", "pkgs", "addon", "end", "text", "pct", "badhdr", "foreign", "ksapp"]


def short(n, alpha=CORE):
    for k in range(1, n + 1):
        for s in itertools.product(alpha, repeat=k):
            yield list(s)


LEADS = [[], ["comm"], ["blank", "part", "ws"], ["partc", "lang", "comm2"], ["unk", "part"], ["ksapp", "platform"]]
HEADS = ["pre", "preo", "post", "posto", "onerror", "traceback", "preinst", "pkgs", "pkgso", "addon", "anaconda", "badhdr", "badhdr2", "badpkgs", "foreign"]
KWORDS = ["kw%d" % i for i in range(1, 17)]
BODIES = [[], ["blank"], ["text"], ["comm", "itext", "blank", "pct", "pctq", "text", "ws", "comm2"], ["quote", "ksapp", "text"], ["part", "lang", "unk"], KWORDS]
PBODIES = [[], ["pkg"], ["blank", "pkg", "comm", "pkgc", "npkg", "grp"], ["pkg", "pkgc"]]
TAILS = [["end"], ["endc"], ["end", "part"], []]


def blocks():
    for h in HEADS:
        for b in (PBODIES if OPENS[h] == "pkgs" else BODIES):
            for t in TAILS:
                yield [h] + b + t


def pairs(pick):
    """Lead lines, one block, further lead lines, another block, a last command."""
    bl = list(blocks())
    n = 0
    for i, a in enumerate(bl):
        for j, b in enumerate(bl):
            n += 1
            if pick(n, i, j):
                yield LEADS[(i + j) % len(LEADS)] + a + LEADS[(i * 3 + j) % len(LEADS)] + b + (["lang", "part"] if (i + j) % 2 else [])
