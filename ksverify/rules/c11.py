"""The loader.

The source of load_to_str and load_to_file is interpreted for every form of
location (URLs of any scheme, relative and absolute file names, names that only
resemble URLs) and content, once with nothing failing and once with each
fallible library call on the way failing (network, TLS, open, read, decode,
write, copy), and for every HTTP status. The result must be the complete
content, certificates must be verified, and every other way out must be a
kickstart error. The same holds through the reader, the preprocessor, the
version sniffer and the tools; no other module may fetch over the network."""
import ast

from ..check import bad, ok, undecided
from ..faulty import *
from ..interp import AnalysisBroken
from ..values import *
from ..world import tpl

URLS = ["http://{w:u}", "https://{w:h}/{w:p}", "ftp://{w:u}", "HTTPS://{w:u}", "{w:s}://{w:u}", "http://{w:h}/{b:p}", "file:///{w:u}", "https://{w:h}/{w:p}?{w:q}={w:v}"]
FILES = ["/{w:p}", "{w:p}", "./{w:p}", "../{w:a}/{w:b}", "{w:a}/{w:b}.cfg", "/{w:a}/{b:p}", "http:/{w:p}", "https:{w:p}", "/http/{w:p}", "c:{w:p}", "//{w:p}"]
TEXTS = ["{t:body}", "", "{t:a}\n{t:b}\n", "  {t:a}\n\n{t:b}  \n\n", "{t:a}\r\n{t:b}\r\n", "\t\n", "#{t:a}\n%include {w:x}\n%end"]
DST = "/{w:dst}"
OTHER2XX = (201, 202, 203, 205, 207, 208, 226)
UTF8 = {"utf8", "utf_8", "utf_8_sig", "utf8_sig"}


def kickstart_error(r):
    return r.cls is not None and r.cls.issub(cls_of("pykickstart.errors", "KickstartError"))


def transport(r):
    """What is wrong with how this run reached the network or decoded, or None."""
    for e in r.events("http_get"):
        if e[3] != TRUE:
            return "TLS certificates are not verified at %s (verify=%s)" % (e[4], e[3])
    for e in r.events("lossy_decode"):
        return "undecodable content is not refused at %s (errors=%s)" % (e[3], e[2])
    for e in r.events("decode"):
        if isinstance(e[2], Const) and isinstance(e[2].v, str) and e[2].v.lower().replace("-", "_") not in UTF8:
            return "files are decoded as %s at %s" % (e[2].v, e[3])
    return None


def entry(fn, loc, text, status=200):
    name = fn[1]
    args = [tpl(loc)] + ([tpl(DST)] if name == "load_to_file" else [])
    url = loc in URLS
    return dict(args=args, files={} if url else {loc: text}, http={loc: text} if url else {}, status=status)


def load_task(t):
    """One loader function on one location and content: result and every failure."""
    name, loc, text = t
    fn = ("pykickstart.load", name)
    kw = entry(fn, loc, text)
    want = tpl(text)
    url = loc in URLS
    for r in series(fn, **kw):
        case = {"function": name, "location": loc, "content": text, "failing call": r.fault}
        if r.status == "unknown" or r.why:
            yield undecided(r.why, str(case))
            continue
        b = transport(r)
        if b is None and r.fault:
            if r.status == "ok":
                b = "a failing %s at %s is not reported" % r.fault[0]
            elif not kickstart_error(r):
                b = "a failing %s at %s comes out as %s, not as a kickstart error" % (r.fault[0] + (r.cls.name if r.cls else "?",))
        elif b is None:
            if r.status != "ok":
                b = "loading fails with %s at %s although nothing is wrong" % (r.cls.name if r.cls else "?", r.site)
            else:
                gets = r.events("http_get")
                if url and (len(gets) < 1 or any(e[2] != tpl(loc) for e in gets)):
                    b = "the URL is not what is fetched: %s" % ([str(e[2]) for e in gets],)
                elif not url and gets:
                    b = "a file name is fetched over the network"
                elif name == "load_to_str":
                    if r.value != want:
                        b = "the result is %s, must be the content %s" % (r.value, want)
                else:
                    got = r.file(tpl(DST))
                    if r.value != tpl(DST):
                        b = "the result is %s, must be the name of the file written" % (r.value,)
                    elif got != want:
                        b = "the file written holds %s, must hold %s" % (got, want)
        if b:
            yield bad((name, b.split(" at ")[0][:50]), "%s: %s" % (name, b), "pykickstart/load.py (%s)" % (r.site or name), case)
        else:
            yield ok()
    # a location that is not there
    kw = entry(fn, loc, text)
    if not url:
        kw["files"] = {}
        for r in run(fn, **kw)[0]:
            case = {"function": name, "location": loc, "missing": True}
            if r.status == "unknown":
                yield undecided(r.why, str(case))
            elif r.status == "ok" or not kickstart_error(r):
                yield bad((name, "missing"), "%s: a missing file %s" % (name, r.what()), "pykickstart/load.py (%s)" % (r.site or name), case)
            else:
                yield ok()
    yield ("sample", "%s(%r) with content %r" % (name, loc, text))


def status_task(t):
    name, loc, codes = t
    fn = ("pykickstart.load", name)
    n = 0
    for code in codes:
        for r in run(fn, **entry(fn, loc, "{t:body}", code))[0]:
            case = {"function": name, "location": loc, "status": code}
            if r.status == "unknown" or r.why:
                yield undecided(r.why, str(case))
            elif code == 200 and r.status != "ok":
                yield bad((name, "200"), "%s: an HTTP answer 200 %s" % (name, r.what()), "pykickstart/load.py (%s)" % r.site, case)
            elif code != 200 and r.status == "ok":
                yield bad((name, "status"), "%s: the page of an HTTP answer %d is taken for the file" % (name, code), "pykickstart/load.py " + name, case)
            elif r.status == "exc" and not kickstart_error(r):
                yield bad((name, "statusexc"), "%s: an HTTP answer %d %s" % (name, code, r.what()), "pykickstart/load.py (%s)" % r.site, case)
            elif code != 200 and name == "load_to_file" and (r.events("file_write") or r.file(tpl(DST)) is not None):
                yield bad((name, "partial"), "%s: the destination is written for an HTTP answer %d" % (name, code), "pykickstart/load.py " + name, case)
            else:
                n += 1
    yield ok(n)


def parser(I, st, ver):
    from ..world import mod_attr
    h = I.call(st, mod_attr(st, "pykickstart.version", "makeVersion"), [Const(ver)], {})
    return h, I.call(st, mod_attr(st, "pykickstart.parser", "KickstartParser"), [h], {})


def client(kind, loc):
    """Clients of the loader: (callable, run arguments)."""
    url = loc in URLS
    main = "lang {w:l}\nkeyboard {w:k}\n"
    if kind in ("readKickstart", "readKickstart-2"):
        def fn(I, st):
            h, p = parser(I, st, "F33" if kind == "readKickstart" else "RHEL7")
            return I.call(st, I.getattr_(st, p, "readKickstart"), [tpl(loc)], {})
        return fn, dict(files={} if url else {loc: main}, http={loc: main} if url else {})
    if kind == "include":
        def fn(I, st):
            h, p = parser(I, st, "F33")
            return I.call(st, I.getattr_(st, p, "readKickstartFromString"), [tpl("lang {w:l}\n%include " + loc + "\n")], {})
        return fn, dict(files={} if url else {loc: "keyboard {w:k}\n"}, http={loc: "keyboard {w:k}\n"} if url else {})
    if kind == "ksappend":
        def fn(I, st):
            return I.call(st, mod_attr(st, "pykickstart.parser", "preprocessFromStringToString"), [tpl("lang {w:l}\n%ksappend " + loc + "\n")], {})
        return fn, dict(files={} if url else {loc: main}, http={loc: main} if url else {})
    if kind in ("preprocessKickstartToString",):
        return ("pykickstart.parser", kind), dict(args=[tpl(loc)], files={} if url else {loc: main}, http={loc: main} if url else {})
    if kind == "versionFromFile":
        v = "#version=F33\n" + main
        return ("pykickstart.version", kind), dict(args=[tpl(loc)], files={} if url else {loc: v}, http={loc: v} if url else {})
    raise AnalysisBroken(kind)


def client_task(t):
    kind, loc = t
    fn, kw = client(kind, loc)
    url = loc in URLS
    runs = list(series(fn, **kw))
    if url:
        for code in (204, 206, 301, 304, 400, 401, 403, 404, 500, 503):
            for r in run(fn, **dict(kw, status=code))[0]:
                r.fault = [("HTTP answer %d" % code, "requests.get")]
                runs.append(r)
    else:
        for r in run(fn, **dict(kw, files={}))[0]:
            r.fault = [("missing file", "open")]
            runs.append(r)
    for r in runs:
        case = {"client": kind, "location": loc, "failing call": r.fault}
        if r.status == "unknown" or r.why:
            yield undecided(r.why, str(case))
            continue
        b = transport(r)
        if b is None and r.fault:
            if r.status == "ok":
                b = "a failing %s at %s is not reported" % r.fault[0]
            elif not kickstart_error(r):
                b = "a failing %s at %s comes out as %s, not as a kickstart error" % (r.fault[0] + (r.cls.name if r.cls else "?",))
        elif b is None and r.status != "ok":
            b = "%s, although nothing is wrong" % r.what()
        elif b is None and url != bool(r.events("http_get")):
            b = "the location is %s" % ("not fetched" if url else "fetched over the network")
        if b:
            yield bad((kind, b.split(" at ")[0][:50]), "%s: %s" % (kind, b), "%s (%s)" % (kind, r.site), case)
        else:
            yield ok()


NET = {"requests", "urllib", "urllib2", "urllib3", "http", "httplib", "httplib2", "httpx", "aiohttp", "ftplib", "socket", "pycurl", "subprocess", "ssl", "socketserver", "telnetlib", "smtplib", "paramiko", "asyncio"}
NETOK = {"requests.exceptions", "urllib.parse", "six.moves.urllib.parse", "urllib.error", "http.client.HTTPException"}
SHELL = {("os", "system"), ("os", "popen"), ("os", "execv"), ("os", "spawnv"), ("os", "posix_spawn")}


def module_task(name):
    """No module but the loader reaches for the network."""
    P, _I, _st = prog()
    t = P.module_ast(name)
    seen = []
    for n in ast.walk(t):
        mods = []
        if isinstance(n, ast.Import):
            mods = [a.name for a in n.names]
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            mods = ["%s.%s" % (n.module, a.name) for a in n.names]
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and (n.value.id, n.attr) in SHELL:
            seen.append((n.lineno, "%s.%s" % (n.value.id, n.attr)))
        for m in mods:
            if any(m == k or m.startswith(k + ".") for k in NETOK):
                continue
            if m.split(".")[0] in NET or m.startswith("six.moves.urllib") or m.startswith("six.moves.http"):
                seen.append((n.lineno, m))
    if not seen:
        yield ok()
    for line, m in seen:
        yield bad(("module", name, m), "module %s uses %s: kickstart text must be fetched by pykickstart.load only" % (name, m), "%s:%d" % (P.files[name], line), {"module": name, "line": line})


def task(t):
    return {"load": load_task, "status": status_task, "client": client_task, "module": lambda a: module_task(a[0])}[t[0]](t[1:])


def check(rep):
    prog()
    P = prog()[0]
    ts = [("load", f, l, x) for f in ("load_to_str", "load_to_file") for l in URLS + FILES for x in TEXTS]
    codes = [c for c in list(range(100, 600)) + [0, 600, 700, 999] if c not in OTHER2XX]
    step = 60
    for f in ("load_to_str", "load_to_file"):
        for l in URLS[:2] if rep.tier == "quick" else URLS:
            ts += [("status", f, l, codes[i:i + step]) for i in range(0, len(codes), step)]
    # a location of the file system written after a keyword must not have blanks
    for k in ("readKickstart", "readKickstart-2", "include", "ksappend", "preprocessKickstartToString", "versionFromFile"):
        ts += [("client", k, l) for l in URLS + FILES if "{b:" not in l]
    ts += [("module", m) for m in sorted(P.files) if m != "pykickstart.load"]
    rep.run(task, ts)
