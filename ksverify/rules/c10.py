"""Command line tools.

Each tool is interpreted as a script (module body with its exit call), for
every argument form, every kind of input (good, each kind of error, warnings,
deprecated syntax, missing, unreadable, empty, 255/256/257 errors) and with
each fallible library call on the way failing. On every way out: the exit
status, that something is said when it is not zero, the temporary names that
still exist, the files written, and the output compared with what the library
gives for the whole input (ksverdiff: with the command and option tables)."""
import itertools

from ..check import bad, ok, undecided
from ..faulty import *
from ..interp import AnalysisBroken
from ..values import *
from ..world import mod_attr, tpl, versions

F = "/d/{w:p}"
URL = "http://{w:u}"
OUT = "/o/{w:out}"
GOOD = {
    "plain": "lang {w:l}\nkeyboard {w:k}\n",
    "parts": "# {t:c}\n\npart /{w:m1} --size={n:s}\npart /{w:m2}\ntimezone {w:z}",
    "sections": "lang {w:l}\n\n%pre --erroronfail\n{t:b1}\n%end\n%packages\npkg1\n-pkg2\n@grp\n%end\n%post\n  {t:b2}\n%end\n",
    "addon": "lang {w:l}\n%addon {w:a}\n{w:t1} {w:t2}\n%end\n",
    "append": "lang {w:l}\n%ksappend /f/app\npart /{w:m3}\n",
    "comment": "# {t:c}\n",
}
ERR = {
    "unknown": "lang {w:l}\nzz{w:u} {w:v}\n", "option": "part /{w:m} --zz{w:u}\nlang {w:l}\n", "value": "part /{w:m} --size={w:s}\n", "noarg": "lang\n",
    "header": "%pre --zz{w:u}\n{w:b1}\n%end\n", "pkghdr": "%packages --zz{w:u}\n%end\n", "open": "lang {w:l}\n%pre\n{t:b}\n", "section": "%zzz {w:u}\n{w:b1}\n%end\n",
    "last": "part /{w:m1}\npart /{w:m2}\nlang {w:l}\nzz{w:u}", "excl": "ignoredisk --only-use={w:d} --drives={w:e}\n", "two": "zz{w:u}\nlang {w:l}\nzz{w:v}\n",
    "after": "%packages\npkg1\n%end\n%post\n{t:b2}\n%end\nzz{w:u}\n",
}
PRE = {"ksmissing": "lang {w:l}\n%ksappend /nothere\n", "ksnone": "%ksappend\nlang {w:l}\n"}
MANY = {n: "zz{w:u}\n" * n for n in (255, 256, 257, 512)}
WARN = {"dup": "repo --name={w:r} --baseurl={w:b}\nrepo --name={w:r} --baseurl={w:b}\n"}
DEP = {"F12": {"depcmd": "monitor {w:x}\n"}, "F33": {"depcmd": "lang {w:l}\ninstall\n", "depopt": "bootloader --upgrade\n", "lastdep": "part /{w:m}\ninstall\n"}, "RHEL7": {"depcmd": "upgrade\n"}}
INC = {"incmissing": "lang {w:l}\n%include /nothere\n"}
APP = {"/f/app": "keyboard {w:k}\n"}


def script(tool, argv):
    """The tool run as a script."""
    def fn(I, st):
        P = prog()[0]
        name = "tools." + tool
        if name not in P.files:
            raise AnalysisBroken("anchor %s is gone" % name)
        l = st.w("$argv")
        l.items = tuple([Const(tool)] + [tpl(a) for a in argv])
        l.rest = None
        st.new("mod", d={"__name__": Const("__main__"), "__file__": Const(P.files[name])}, addr="mod:__main__")
        I.exec_module("__main__", P.module_ast(name), st)
        return NONE
    return fn


def exit_status(r):
    """0..255, or None when not determined."""
    if r.status == "ok":
        return 0
    if r.cls is None or r.cls.name != "SystemExit":
        return 1
    c = r.attr("code")
    if c is None or c == NONE:
        return 0
    if isinstance(c, Const) and isinstance(c.v, (bool, int)):
        return int(c.v) & 255
    if isinstance(c, Const) and isinstance(c.v, str) or isinstance(c, Tmpl):
        return 1
    return None


def said(r):
    return bool(r.events("print"))


def printed(r):
    """Abstract texts written to the standard output."""
    res = []
    for e in r.events("print"):
        if e[3] == Ref("$stderr"):
            continue
        res.append(e[2])
    return res


def written(r):
    """Names of files created or overwritten outside the tool's temporaries."""
    tmp = r.state.heap.get("$tmp")
    own = set(tmp.items) if tmp is not None else set()
    res = []
    for e in r.events("open") + r.events("copy"):
        if e[1] == "open" and not any(c in e[3].v for c in "wax+"):
            continue
        n = e[2] if e[1] == "open" else e[3]
        p = sparts(n)
        if p and p[0] in own:
            continue
        res.append(n)
    return res


def base_faults(r, out):
    """Obligations of every way out."""
    t = r.temps()
    if t:
        return "leak", "the temporary %s is left behind (it %s)" % (", ".join(sorted(t)), r.what())
    for n in written(r):
        if out is None or n != tpl(out):
            return "writes", "it writes the file %s" % (n,)
    return None


def judge(tool, argv, expect, text=None, out=None, faults=False, **kw):
    """expect: 'zero', 'fail' or None; text: abstract output text required on success."""
    n = 0
    for r in (series if faults else lambda f, **k: run(f, **k)[0])(script(tool, argv), **kw):
        case = {"command": [tool] + argv, "files": {k: v if len(v) < 200 else v[:100] + "... (%d lines)" % v.count("\n") for k, v in kw.get("files", {}).items()},
                "http": kw.get("http"), "typed": kw.get("inputs") and [str(x) for x in kw["inputs"]], "failing call": r.fault}
        if r.status == "unknown" or r.why:
            yield undecided(r.why, str(case)[:300])
            continue
        b = base_faults(r, out)
        s = exit_status(r)
        where = "tools/%s.py (%s)" % (tool, r.site or "main")
        if b is None and s is None:
            yield undecided("exit status not determined", str(case)[:300])
            continue
        ex = "fail" if r.fault and expect is not None else expect
        if b is None and ex == "zero" and s != 0:
            b = ("status", "the exit status is %d although nothing is wrong (%s)" % (s, r.what()))
        if b is None and ex == "fail":
            if s == 0:
                b = ("status", "the exit status is 0 although %s" % ("%s at %s fails" % r.fault[0] if r.fault else "the input is not accepted"))
            elif r.cls.name == "SystemExit" and not said(r):
                b = ("silent", "it fails without saying anything")
        if b is None and r.fault and expect is None and tool == "ksshell" and out is not None and s == 0 and r.file(tpl(out)) is None:
            b = ("output", "the exit status is 0 but the output file is not written")
        if b is None and not r.fault and text is not None and s == 0:
            if out is not None:
                got = text_of(r.file(tpl(out))) if r.file(tpl(out)) is not None else Const("(nothing)")
                if got is None:
                    yield undecided("output file not determined", str(case)[:300])
                    continue
                if got != text:
                    b = ("output", "the output file holds %s, must hold %s" % (got, text))
            else:
                ps = [p[0] for p in printed(r) if len(p) == 1]
                if text not in ps and mk_str(["\n", text]) not in ps and cat("\n", text) not in ps:
                    b = ("output", "the output is %s, must contain %s" % (ps[-1:], text))
        if b is None and not r.fault and s != 0 and out is not None and tool == "ksflatten" and r.file(tpl(out)) is not None:
            b = ("output", "the output file is written although the input is not accepted")
        if b:
            yield bad((tool, b[0]), "%s: %s" % (tool, b[1]), where, case)
        else:
            n += 1
    yield ok(n)


def cat(a, v):
    p = sparts(v)
    return mk_str((a,) + tuple(p)) if p is not None else None


def lib_text(ver, steps, files, fatal=True, follow=True):
    """str(handler) after reading: steps are ('file', name), ('text', t) or ('clear',)."""
    def fn(I, st):
        mk = mod_attr(st, "pykickstart.version", "makeVersion")
        h = I.call(st, mk, [Const(ver)], {})
        p = I.call(st, mod_attr(st, "pykickstart.parser", "KickstartParser"), [h], {"errorsAreFatal": Const(fatal), "followIncludes": Const(follow)})
        KE = mod_attr(st, "pykickstart.errors", "KickstartError")
        for s in steps:
            if s[0] == "clear":
                h = I.call(st, mk, [Const(ver)], {})
                I.setattr_(st, p, "handler", h)
                continue
            meth = "readKickstart" if s[0] == "file" else "readKickstartFromString"
            _v, alive, excs = I.guarded(st, lambda s2: I.call(s2, I.getattr_(s2, p, meth), [tpl(s[1])], {}))
            if not alive:
                if len(excs) != 1 or not excs[0][0].cls.issub(KE):
                    raise AnalysisBroken("reading %r is not decided" % (s,))
                st.assign(excs[0][1])
            elif excs:
                raise AnalysisBroken("reading %r is not decided" % (s,))
        return I.call(st, I.prog.builtin("str"), [h], {})
    out, _log = run(fn, files=files)
    if len(out) != 1 or out[0].status != "ok" or text_of(out[0].value) is None:
        raise AnalysisBroken("text for %r is not decided: %s" % (steps, [o.why or o.what() for o in out]))
    return out[0].value


def devel():
    return "DEVEL"


# ------------------------------------------------------------- the tools

def validator_task(t):
    what, ver, flags, faults = t
    opts = list(flags) + (["-v", ver] if ver != "DEVEL" else [])
    follow = "-i" in flags
    files = dict(APP)
    kind, name = what
    expect = "fail"
    http = {}
    loc = F
    if kind == "good":
        files[F], expect = GOOD[name], "zero"
    elif kind == "url":
        http, expect, loc = {URL: GOOD[name]}, "zero", URL
    elif kind == "err":
        files[F] = ERR[name]
    elif kind == "pre":
        files[F] = PRE[name]
    elif kind == "many":
        files[F] = MANY[name]
    elif kind == "warn":
        files[F] = WARN[name]
    elif kind == "dep":
        files[F] = DEP["F33" if ver == "DEVEL" else ver][name]
    elif kind == "inc":
        files[F], expect = INC[name], "fail" if follow else "zero"
    elif kind == "empty":
        files[F], expect = "", "zero"
    elif kind == "quote":
        files[F] = "lang \"{w:x}\n"
    elif kind == "missing":
        pass
    if kind == "dep" and name == "depopt" and ver == "DEVEL":
        files[F] = "part /{w:m} --active\n"
    for r in judge("ksvalidator", opts + [loc], expect, faults=faults, files=files, http=http):
        yield r
    if kind == "url":
        for code in (404, 500, 301, 204):
            for r in judge("ksvalidator", opts + [loc], "fail", files=files, http=http, status=code):
                yield r
    yield ("sample", "ksvalidator %s with %s: %s" % (" ".join(opts), what, expect))


def validator_args(t):
    for argv, expect in ((["-h"], "zero"), (["--help"], "zero"), (["-l"], "zero"), ([], "fail"), (["-v", "F33"], "fail"), (["-v", "ZZ", F], "fail"), (["--version=F1", F], "fail"), (["--zz", F], "fail"),
                         (["-v", "FC3", "-e", "-i", F], "zero"), (["-v", "DEVEL", F], "zero")):
        for r in judge("ksvalidator", argv, expect, faults="-v" in argv and argv[1] in ("FC3", "ZZ"), files={F: GOOD["plain"]}):
            yield r


def flatten_task(t):
    kind, name, ver, out, faults = t
    files = dict(APP)
    expect, text = "fail", None
    if kind == "good":
        files[F], expect = GOOD[name], "zero"
        if name == "append":
            expect = None
    elif kind == "err":
        files[F] = ERR[name]
    elif kind == "warn":
        files[F], expect = WARN[name], "zero"
    elif kind == "dep":
        files[F], expect = DEP["F33" if ver == "DEVEL" else ver][name], "zero"
        if ver == "DEVEL":
            return              # removed in the newest version
    elif kind == "include":
        files[F], expect = "lang {w:l}\n%include /f/app\npart /{w:m3}\n", "zero"
    elif kind == "inc":
        files[F] = INC[name]
    elif kind == "empty":
        files[F], expect = "", "zero"
    if expect == "zero":
        text = lib_text(ver, [("file", F)], files)
    argv = ["-c", F] + (["-v", ver] if ver != "DEVEL" else []) + (["-o", OUT] if out else [])
    if expect is not None:
        for r in judge("ksflatten", argv, expect, text, OUT if out else None, faults, files=files):
            yield r
    yield ("sample", "ksflatten %s with %s %s: %s" % (" ".join(argv), kind, name, expect))


def flatten_args(t):
    for argv, expect in (([], "fail"), (["-c"], "fail"), (["-c", F, "-v", "ZZ"], "fail"), (["-c", "/nothere"], "fail"), (["-c", F, "--zz"], "fail"), (["--help"], "zero"), (["-o", OUT], "fail"), (["--config", F, "--version", "FC3"], "zero"), (["-c", URL], "zero")):
        for r in judge("ksflatten", argv, expect, None, OUT, "FC3" in argv, files={F: GOOD["plain"]}, http={URL: GOOD["plain"]}):
            yield r
    for code in (404, 500, 301, 204):
        for r in judge("ksflatten", ["-c", URL], "fail", None, None, False, http={URL: GOOD["plain"]}, status=code):
            yield r


SHELL = [[], ["lang {w:t1}"], ["part /{w:t1}", "zz{w:t2}", "part /{w:t3}"], ["lang {w:t1}", ".show", "keyboard {w:t2}"], ["lang {w:t1}", ".zz{w:t2}", "part /{w:t3} --zz"], ["part /{w:t1}", ".quit", "part /{w:t2}"],
         ["part /{w:t1}", ".clear", "lang {w:t2}"], ["", "# {w:t1}", "lang {w:t2}"], ["%include /f/app", "part /{w:t1}"], ["%include /nothere", "lang {w:t2}"], ["."]]


def shell_task(t):
    inp, ver, out, typed, intr, faults = t
    files = dict(APP)
    steps = []
    if inp is not None:
        if inp != "missing":
            files[F] = dict(GOOD, empty="", **dict(ERR, **PRE))[inp]
        pre = {"append": "lang {w:l}\nkeyboard {w:k}\npart /{w:m3}\n"}.get(inp, files.get(F))
        if inp not in PRE and inp not in ("missing", "empty"):
            steps.append(("text", pre))
    for l in typed:
        if l == ".clear":
            steps.append(("clear",))
        elif l == ".quit":
            break
        elif not l.startswith("."):
            steps.append(("text", l))
    text = lib_text(ver, steps, files, fatal=False)
    argv = (["-i", F] if inp is not None else []) + (["-v", ver] if ver != "DEVEL" else []) + (["-o", OUT] if out else [])
    P, I, _st = prog()
    ins = list(typed) + ([P.exc("KeyboardInterrupt")] if intr else [])
    for r in judge("ksshell", argv, "zero", text, OUT if out else None, False, files=files, inputs=ins):
        yield r
    if faults:
        for r in judge("ksshell", argv, None, None, OUT if out else None, True, files=files, inputs=ins):
            yield r
    yield ("sample", "ksshell %s with %s, typing %r" % (" ".join(argv), inp, typed))


def shell_args(t):
    for argv, expect in ((["-v", "ZZ"], "fail"), (["--version=F1", "-i", F], "fail"), (["--zz"], "fail"), (["-h"], "zero")):
        for r in judge("ksshell", argv, expect, None, None, False, files={F: GOOD["plain"]}, inputs=[]):
            yield r


_tables = {}


def tables(ver):
    if ver not in _tables:
        _tables[ver] = tables_(ver)
    return _tables[ver]


def tables_(ver):
    """Command -> (class kinds, first option names, deprecated ones) of the handler."""
    P, I, st0 = prog()
    st = st0.copy()
    I.sink = []
    I.steps = 0
    h = I.call(st, mod_attr(st, "pykickstart.version", "makeVersion"), [Const(ver)], {})
    D = mod_attr(st, "pykickstart.base", "DeprecatedCommand")
    R = mod_attr(st, "pykickstart.base", "RemovedCommand")
    res = {}
    for k, v in st.get(st.get(h).d["commands"]).items.items():
        o = st.get(v)
        opts = None
        if isinstance(o.d.get("op"), Ref):
            opts, dep = set(), set()
            for a in st.get(st.get(o.d["op"]).d["_actions"]).items:
                d = st.get(a).d
                s = st.get(d["option_strings"]).items
                n = s[0].v if s else ""
                opts.add(n)
                x = d.get("deprecated")
                if x is not None and I.truth(st, x):
                    dep.add(n)
            opts = (opts, dep)
        res[k.v] = (o.cls.issub(D), o.cls.issub(R), opts)
    return res


def report(f, t):
    """What ksverdiff must say: list of (kind, command, names)."""
    a, b = tables(f), tables(t)
    both = set(a) & set(b)
    res = [("removed", None, sorted([c for c in both if b[c][1] and not a[c][1]] + list(set(a) - set(b)))),
           ("deprecated", None, sorted(c for c in both if b[c][0] and not b[c][1])),
           ("added", None, sorted(set(b) - set(a)))]
    for c in sorted(both):
        if c == "method":           # a proxy of other commands
            continue
        if a[c][2] is None or b[c][2] is None:
            continue
        fo, to = a[c][2][0], b[c][2][0]
        for kind, s in (("added", to - fo), ("deprecated", b[c][2][1]), ("removed", fo - to)):
            if s:
                res.append((kind, c, sorted(s)))
    return res


def parse_report(r):
    """The printed report as a list of (kind, command, names)."""
    res = []
    names = None
    for e in printed(r):
        if not e:
            continue
        if len(e) != 1 or not isinstance(e[0], Const):
            return None
        s = e[0].v
        if s.startswith("The following"):
            kind = [k for k in ("added", "deprecated", "removed") if " were %s " % k in s]
            cmd = s.split(" the ")[1].split(" command ")[0] if " command in" in s else None
            if len(kind) != 1:
                return None
            names = []
            res.append((kind[0], cmd, names))
        elif names is not None:
            names.extend(s.split())
    return [(k, c, list(n)) for k, c, n in res if c != "method"]


def verdiff_task(t):
    for f, to in t[0]:
        for r in run(script("ksverdiff", ["-f", f, "-t", to]))[0]:
            case = {"command": ["ksverdiff", "-f", f, "-t", to]}
            if r.status == "unknown" or r.why:
                yield undecided(r.why, str(case))
                continue
            if exit_status(r) != 0:
                yield bad(("ksverdiff", "status"), "ksverdiff: the exit status is %s although both versions exist (%s)" % (exit_status(r), r.what()), "tools/ksverdiff.py (%s)" % r.site, case)
                continue
            got = parse_report(r)
            if got is None:
                yield undecided("report not determined", str(case))
                continue
            want = report(f, to)
            if got != want:
                d = [x for x in got if x not in want][:2], [x for x in want if x not in got][:2]
                yield bad(("ksverdiff", "report"), "ksverdiff: it reports %s where the syntax differs by %s" % d, "tools/ksverdiff.py main", case)
            else:
                yield ok()
    yield ("sample", "ksverdiff -f %s -t %s" % t[0][0])


def verdiff_args(t):
    for argv, expect in (([], "fail"), (["-f", "F33"], "fail"), (["-t", "F33"], "fail"), (["-f", "ZZ", "-t", "F33"], "fail"), (["-f", "F33", "-t", "ZZ"], "fail"), (["-l"], "zero"), (["--listversions"], "zero"), (["--zz"], "fail"),
                         (["--from", "FC3", "--to", "FC4"], "zero")):
        for r in judge("ksverdiff", argv, expect, None, None, False):
            yield r
    for r in run(script("ksverdiff", ["-l"]))[0]:
        want = sorted(list(versions()) + ["DEVEL"])
        got = [str(p[0].v) for p in printed(r) if len(p) == 1 and isinstance(p[0], Const)]
        if r.status == "unknown" or r.why:
            yield undecided(r.why, "ksverdiff -l")
        elif got != want:
            yield bad(("ksverdiff", "list"), "ksverdiff -l lists %s, must list %s" % (got, want), "tools/ksverdiff.py main", {"command": ["ksverdiff", "-l"]})
        else:
            yield ok()


TASKS = {"validator": validator_task, "validator_args": validator_args, "flatten": flatten_task, "flatten_args": flatten_args, "shell": shell_task, "shell_args": shell_args,
         "verdiff": verdiff_task, "verdiff_args": verdiff_args}


def task(t):
    return TASKS[t[0]](t[1:])


def check(rep):
    prog()
    thorough = rep.tier == "thorough"
    ts = [("validator_args",), ("flatten_args",), ("shell_args",), ("verdiff_args",)]
    def validator(ver, fl, faults, step=1, start=0):
        whats = [("good", k) for k in GOOD] + [("err", k) for k in ERR] + [("pre", k) for k in PRE] + [("dep", k) for k in DEP.get("F33" if ver == "DEVEL" else ver, ())]
        whats += [("inc", k) for k in INC] + [("empty", ""), ("quote", ""), ("missing", ""), ("url", "plain"), ("url", "sections")]
        if ver != "F12":
            whats += [("warn", k) for k in WARN]
        if "-e" not in fl and (thorough or ver == "F12"):
            whats += [("many", n) for n in MANY]
        for q, w in enumerate(whats):
            if (q + start) % step == 0:
                ts.append(("validator", w, ver, fl, faults and w[0] != "many"))

    def flatten(ver, out, faults, step=1, start=0):
        whats = [("good", k) for k in GOOD] + [("err", k) for k in ERR] + [("dep", k) for k in DEP.get("F33" if ver == "DEVEL" else ver, ())] + [("inc", k) for k in INC] + [("include", ""), ("empty", ""), ("missing", "")]
        if ver != "F12":
            whats += [("warn", k) for k in WARN]
        for q, (k, n) in enumerate(whats):
            if (q + start) % step == 0:
                ts.append(("flatten", k, n, ver, out, faults))
    flagsets = [[], ["-i"], ["-e"], ["-e", "-i"]]
    for q, fl in enumerate(flagsets):
        for ver in ("F12", "DEVEL", "F33", "RHEL7"):
            if thorough:
                validator(ver, fl, True)
            elif ver == "F12":
                validator(ver, fl, q == 0)
                if q == 3:
                    validator(ver, fl, True, 4)
            elif ver == "DEVEL":
                validator(ver, fl, False, 1 if q == 0 else 5, q)
            else:
                validator(ver, fl, False, 6, q + len(ver))
    for out in (False, True):
        for ver in ("F12", "DEVEL", "F33", "RHEL7"):
            flatten(ver, out, thorough or ver == "F12", 1 if thorough or ver == "F12" else 4, out + len(ver))
    i = 0
    for inp in [None, "plain", "sections", "append", "empty", "missing", "unknown", "two", "open", "ksmissing", "ksnone"]:
        for typed in SHELL:
            for out in (False, True):
                i += 1
                ver = ("DEVEL", "F33", "RHEL7")[i // 17 % 3] if i % 17 == 0 else "F12"
                if thorough or inp in (None, "plain") and out or i % 5 == 0 or (typed == SHELL[2] and out):
                    ts.append(("shell", inp, ver, out, typed, i % 4 == 0, thorough or inp == "plain" and i % 4 == 0 or typed == SHELL[2] and ver == "F12"))
    vs = sorted(versions(), key=lambda v: versions()[v])
    pairs = list(itertools.product(vs, repeat=2)) if thorough else list(zip(vs, vs[1:])) + list(zip(vs[1:], vs))[::7] + [(vs[j], vs[(j * 7 + 11) % len(vs)]) for j in range(0, len(vs), 8)] + [("F12", "F12"), ("FC3", "F33")]
    ts += [("verdiff", pairs[j:j + 2]) for j in range(0, len(pairs), 2)]
    rep.run(task, ts)
