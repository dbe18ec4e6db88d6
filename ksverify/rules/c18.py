"""Preprocessing.

The four preprocess functions are interpreted on sequences of line kinds
(commands, sections, comments, blank lines, lines that only mention %ksappend,
and %ksappend lines in every spelling naming files and URLs with every kind of
content, missing ones and none), with and without a final newline, each content
being an abstract text. The text produced must be the lines in order with each
%ksappend line replaced by the content named; failures must be kickstart errors
carrying the number of the line; what is written to the new file is that text."""
import itertools

from ..check import bad, ok, undecided
from ..faulty import *
from ..values import *
from ..world import tpl

LINE = {
    "cmd": "part /{w:m%s}", "cmd2": "  lang {w:l%s} # {w:c%s}  ", "blank": "", "ws": "  \t", "comm": "# {t:c%s}", "sec": "%pre --log=/{w:o%s}", "end": "%end",
    "body": "echo {t:b%s} \\", "inc": "%include {w:i%s}", "pct": "%{w:p%s} {w:q%s}", "mention": "echo %ksappend /f/nl", "cmention": "# %ksappend /f/nl",
    "text": "{t:t%s}", "other": "%ksother /f/nl",
    "ctl": "\x1a", "nul": "\x00", "esc": "{t:e%s} \\", "uni": "# \u00e9{t:u%s}\u20ac", "hashes": "####", "ff": "  \u00a0", "pk": "  %Ksappend /f/nl",
    "k": "%ksappend /f/nl", "kn": "%ksappend /f/nonl", "ke": "%ksappend /f/empty", "kk": "  %ksappend   /f/nest  ", "kt": "\t%ksappend\t/f/crlf", "ku": "%ksappend http://{w:u}",
    "kl": "%ksappend f/rel # {w:c%s}", "kb": "%ksappend /f/blank",
    "miss": "%ksappend /f/nothere", "none": "%ksappend", "noneb": "  %ksappend   ",
}
ORD = ["cmd", "cmd2", "blank", "ws", "comm", "sec", "end", "body", "inc", "pct", "mention", "cmention", "text", "other", "ctl", "esc", "uni", "hashes", "nul", "pk"]
APP = {"k": "/f/nl", "kn": "/f/nonl", "ke": "/f/empty", "kk": "/f/nest", "kt": "/f/crlf", "ku": "http://{w:u}", "kl": "f/rel", "kb": "/f/blank"}
FILES = {"/f/nl": "{t:x1}\npart /{w:x2}\n", "/f/nonl": "{t:y1}\n%end {t:y2}", "/f/empty": "", "/f/nest": "lang {w:z1}\n%ksappend /f/nl\n%include /f/nl\n",
         "/f/crlf": "{t:r1}\r\n  {t:r2}\r\n", "f/rel": "\n\n{t:e1}\n", "/f/blank": "  \n\n"}
HTTP = {"http://{w:u}": "{t:h1}\n\n# {t:h2}\n"}
FUNCS = ("preprocessFromStringToString", "preprocessKickstartToString", "preprocessFromString", "preprocessKickstart")
MAIN = "/m/{w:main}"


def lines(kinds, nl):
    out = []
    for i, k in enumerate(kinds):
        out.append(LINE[k].replace("%s", str(i + 1)) + ("\n" if nl or i + 1 < len(kinds) else ""))
    return out


def model(kinds, nl):
    """(text, None) or (None, number of the line that is in error)."""
    out = ""
    for i, (k, l) in enumerate(zip(kinds, lines(kinds, nl))):
        if k in ("miss", "none", "noneb"):
            return None, i + 1
        if k in APP:
            c = FILES.get(APP[k], HTTP.get(APP[k]))
            out += c
            if c and not c.endswith("\n") and l.endswith("\n"):
                out += "\n"
        else:
            out += l
    return out, None


def judge(func, kinds, nl, faults):
    text = "".join(lines(kinds, nl))
    want, errline = model(kinds, nl)
    tofile = not func.endswith("ToString")
    isfile = "Kickstart" in func
    files = dict(FILES)
    if isfile:
        files[MAIN] = text
    kw = dict(args=[tpl(MAIN if isfile else text)], files=files, http=HTTP)
    fn = ("pykickstart.parser", func)
    KE = cls_of("pykickstart.errors", "KickstartError")
    apps = [i + 1 for i, k in enumerate(kinds) if k in APP]
    n = 0
    for r in (series if faults else lambda f, **k: run(f, **k)[0])(fn, **kw):
        case = {"function": func, "input": text, "files": FILES, "http": HTTP, "failing call": r.fault}
        if r.status == "unknown" or r.why:
            yield undecided(r.why, str(case)[:300])
            continue
        b = None
        if r.fault:
            # a failing temporary file is not specified here
            load = any(x in r.fault[0][1] for x in ("pykickstart.load",)) or r.fault[0][0] in ("SSLError", "ConnectionError", "Timeout", "RequestException", "UnicodeDecodeError")
            if r.status == "ok":
                b = "a failing %s at %s is not reported" % r.fault[0]
            elif load and not r.cls.issub(KE):
                b = "a failing %s at %s comes out as %s" % (r.fault[0] + (r.cls.name,))
            elif load and not isfile and len(apps) == 1 and r.attr("lineno") is not None and isinstance(r.attr("lineno"), Const) and r.attr("lineno").v != apps[0]:
                b = "the error raised at %s names line %s, but the location stands in line %d" % (r.site, r.attr("lineno").v, apps[0])
        elif errline is not None:
            if r.status == "ok":
                b = "line %d is accepted, though its location is missing" % errline
            elif not r.cls.issub(KE):
                b = "line %d raises %s at %s, not a kickstart error" % (errline, r.cls.name, r.site)
            else:
                ln = r.attr("lineno")
                if ln is None or isinstance(ln, Const) and ln.v != errline:
                    b = "the error raised at %s names line %s, but it is line %d" % (r.site, ln, errline)
        elif r.status != "ok":
            b = "raises %s at %s although nothing is wrong" % (r.cls.name, r.site)
        elif not tofile:
            v = text_of(r.value)
            if v is None:
                yield undecided("text not determined", str(case)[:300])
                continue
            if v != tpl(want):
                b = "the result is %s, must be %s" % (r.value, tpl(want))
        elif want:
            names = list(r.temps())
            got = text_of(r.file(r.value)) if sparts(r.value) is not None and r.file(r.value) is not None else None
            if len(names) != 1 or str(r.value) not in (names[0], "<%s>" % names[0]) and repr(r.value) != names[0]:
                b = "the result %s is not the name of a new file (new: %s)" % (r.value, names)
            elif got is None:
                yield undecided("file content not determined", str(case)[:300])
                continue
            elif got != tpl(want):
                b = "the file written holds %s, must hold %s" % (got, tpl(want))
        if b is None and isfile and r.state is not None and r.file(tpl(MAIN)) != tpl(text):
            b = "the input file is changed"
        if b:
            yield bad((func, b.split(" at ")[0][:30]), "%s: %s" % (func, b), "pykickstart/parser.py (%s)" % (r.site or func), case)
        else:
            n += 1
    yield ok(n)


def task(t):
    func, batch = t
    for kinds, nl, faults in batch:
        for r in judge(func, kinds, nl, faults):
            yield r
    k, nl, _f = batch[len(batch) // 2]
    yield ("sample", "%s(%r)" % (func, "".join(lines(k, nl))))


def seqs(thorough):
    al = list(LINE)
    app = list(APP)
    yield [], True, False
    for a in al:
        yield [a], True, True
        yield [a], False, True
    for a, b in itertools.product(al, repeat=2):
        yield [a, b], True, a in APP or b in APP
        yield [a, b], False, False
    i = 0
    for a in al:
        for b in al:
            for c in al:
                i += 1
                if thorough or i % 2 == 0:
                    yield [a, b, c], bool(i % 2), i % 3 == 0
    for i, a in enumerate(app):
        for j, b in enumerate(app):
            o = [ORD[(i + j + q) % len(ORD)] for q in range(6)]
            yield [o[0], a, o[1], o[2], b, o[3]], True, thorough
            yield [a, b, o[4], app[(i * j) % len(app)], o[5], "miss"], True, False
            yield o[:4] + [("none", "noneb", "miss")[(i + j) % 3]] + [a, b], False, False
    yield ORD * 2 + ["k"] + ORD, True, False
    yield ORD + ["none"], True, False


def check(rep):
    prog()
    ts = []
    for f in FUNCS:
        s = list(seqs(rep.tier == "thorough"))
        if rep.tier == "quick" and f != FUNCS[0]:
            s = [x for i, x in enumerate(s) if len(x[0]) == 1 or i % 4 == 0]
        for i in range(0, len(s), 25):
            ts.append((f, s[i:i + 25]))
    rep.run(task, ts)
