"""Models of the library modules the repository uses.

Every model is an abstract transfer function.  With Program.faults set, calls
that can fail in reality (file system, network, decoding) may also raise.
"""
import os as _os
import posixpath
import re as _re
import shlex as _shlex
import textwrap as _textwrap

from .values import *
from .values import _ids
from .interp import Dead
from .models import N, const_of, fresh_bool, safe_hole, str_, _char_items

SHELL_SAFE = _re.compile(r"[^\w@%+=:,./-]", _re.ASCII)


def uni(fn):
    """Distribute over alternatives of the first argument."""
    def w(I, st, a, kw):
        if a and isinstance(a[0], Union):
            return I.split(st, a[0], lambda s, x: w(I, s, [x] + list(a[1:]), kw))
        return fn(I, st, a, kw)
    return w


# -------------------------------------------------------------------- shlex

def shlex_split(I, st, v, comments):
    """POSIX shlex.split over a template: list of values, None when unknown."""
    items = _char_items(v)
    toks = []
    cur = []
    quoted = False
    state = " "
    esc_back = "a"
    ws = " \t\r\n"
    i = 0
    n = len(items)

    def skip_line(i):
        while i < n:
            if items[i] == "\n":
                return i + 1
            i += 1
        return i

    def emit():
        nonlocal cur, quoted
        if cur or quoted:
            toks.append(mk_str(cur))
        cur = []
        quoted = False

    while i < n:
        c = items[i]
        i += 1
        if isinstance(c, Sym):
            if c.has("blank"):
                if state in (" ", "a"):
                    cur.append(Sym(c.label + "#1", "str", {"word", "fresh", "T"}))
                    emit()
                    cur.append(Sym(c.label + "#2", "str", {"word", "fresh", "T"}))
                    state = "a"
                elif state == "\\":
                    return None
                else:
                    cur.append(c)
                continue
            if not safe_hole(c):
                return None
            if state == " ":
                state = "a"
            if state == "\\":
                state = esc_back
            cur.append(c)
            continue
        if state == " ":
            if c in ws:
                emit()
            elif comments and c == "#":
                i = skip_line(i)
            elif c == "\\":
                esc_back = "a"
                state = "\\"
            elif c in "'\"":
                state = c
                quoted = True
            else:
                cur.append(c)
                state = "a"
        elif state in ("'", '"'):
            if c == state:
                state = "a"
            elif c == "\\" and state == '"':
                esc_back = '"'
                state = "\\"
            else:
                cur.append(c)
        elif state == "\\":
            if esc_back == '"' and c != "\\" and c != '"':
                cur.append("\\")
            cur.append(c)
            state = esc_back
        else:
            if c in ws:
                state = " "
                emit()
            elif comments and c == "#":
                i = skip_line(i)
                state = " "
                emit()
            elif c in "'\"":
                state = c
                quoted = True
            elif c == "\\":
                esc_back = "a"
                state = "\\"
            else:
                cur.append(c)
    if state in ("'", '"'):
        I.throw(st, "ValueError", "No closing quotation")
    if state == "\\":
        I.throw(st, "ValueError", "No escaped character")
    emit()
    return toks


@uni
def _shlex_split(I, st, a, kw):
    v = a[0]
    com = a[1] if len(a) > 1 else kw.get("comments", FALSE)
    com = bool(const_of(com, False))
    posix = a[2] if len(a) > 2 else kw.get("posix", TRUE)
    if isinstance(v, Const) and isinstance(v.v, str) and isinstance(posix, Const):
        try:
            return I.list_(st, [Const(x) for x in _shlex.split(v.v, com, bool(posix.v))])
        except ValueError as e:
            I.throw(st, "ValueError", str(e))
    if sparts(v) is not None and isinstance(posix, Const) and posix.v:
        r = shlex_split(I, st, v, com)
        if r is not None:
            return I.list_(st, r)
    I.may_throw(st, "ValueError", "No closing quotation")
    return I.list_(st, [], Sym("arg(%r)" % (v,), "str"))


@uni
def _quote(I, st, a, kw):
    v = a[0]
    if isinstance(v, Const) and isinstance(v.v, str):
        return Const(_shlex.quote(v.v))
    p = sparts(v)
    if p is None:
        return Top("quote", frags_of(v))
    need = False
    for x in p:
        if isinstance(x, str):
            if "'" in x:
                x2 = x.replace("'", "'\"'\"'")
                p = tuple(x2 if y is x else y for y in p)
                need = True
            elif SHELL_SAFE.search(x):
                need = True
        elif x.has("blank"):
            need = True
        elif not safe_hole(x):
            return Top("quote", frags_of(v))
    return mk_str(("'",) + p + ("'",)) if need else v


# ---------------------------------------------------------------- os and path

def _exists(I, st, a, kw):
    fs = st.heap.get("$fs")
    v = a[0]
    if isinstance(v, Union):
        return mk_union([_exists(I, st, [x], kw) for x in v.alts])
    if fs is not None and v in fs.items:
        x = fs.items[v]
        return FALSE if x == NONE else TRUE
    if fs is not None and fs.rest is not None:
        return FALSE
    return Sym("exists(%r)" % (v,), "bool")


def _dirname_parts(v):
    """(head, tail) split of a path template at its last slash, or None."""
    items = _char_items(v)
    for i in range(len(items) - 1, -1, -1):
        c = items[i]
        if isinstance(c, Sym):
            if not safe_hole(c) and not c.has("blank"):
                return None
        elif c == "/":
            return items[:i + 1], items[i + 1:]
    return [], items


@uni
def _dirname(I, st, a, kw):
    v = a[0]
    if isinstance(v, Const) and isinstance(v.v, str):
        return Const(posixpath.dirname(v.v))
    if sparts(v) is None:
        return Sym("dirname(%r)" % (v,), "str")
    r = _dirname_parts(v)
    if r is None:
        return Sym("dirname(%r)" % (v,), "str")
    head = r[0]
    if any(x != "/" for x in head):
        while head and head[-1] == "/":
            head = head[:-1]
    return mk_str(head)


@uni
def _basename(I, st, a, kw):
    v = a[0]
    if isinstance(v, Const) and isinstance(v.v, str):
        return Const(posixpath.basename(v.v))
    r = _dirname_parts(v) if sparts(v) is not None else None
    if r is None:
        return Sym("basename(%r)" % (v,), "str")
    return mk_str(r[1])


def _pjoin(I, st, a, kw):
    for i, x in enumerate(a):
        if isinstance(x, Union):
            return I.split(st, x, lambda s, y: _pjoin(I, s, a[:i] + [y] + a[i + 1:], kw))
    if all(isinstance(x, Const) and isinstance(x.v, str) for x in a):
        return Const(posixpath.join(*[x.v for x in a]))
    cur = a[0]
    for x in a[1:]:
        p = sparts(x)
        cp = sparts(cur)
        if p is None or cp is None:
            fr = frozenset()
            for y in a:
                fr |= frags_of(y)
                if isinstance(y, Const) and y.v is None:
                    I.throw(st, "TypeError", "expected str, bytes or os.PathLike object, not NoneType")
            return Top("path.join", fr)
        if p and isinstance(p[0], str) and p[0].startswith("/"):
            cur = x
            continue
        if p and isinstance(p[0], Sym) and not safe_hole(p[0]):
            # might be absolute
            cur = Sym("join(%r,%r)" % (cur, x), "str", {"T"})
            continue
        if not cp:
            cur = x
        elif isinstance(cp[-1], str) and cp[-1].endswith("/"):
            cur = mk_str(cp + p)
        else:
            cur = mk_str(cp + ("/",) + p)
    return cur


def _absp(name):
    @uni
    def f(I, st, a, kw):
        v = a[0]
        if isinstance(v, Const) and isinstance(v.v, str):
            if name == "normpath":
                return Const(posixpath.normpath(v.v))
            if v.v.startswith("/"):
                return Const(posixpath.normpath(v.v))
            return mk_str([Sym("cwd", "str", {"word", "T"}), "/" + posixpath.normpath(v.v)]) if v.v not in ("", ".") else Sym("cwd", "str", {"word", "T"})
        p = sparts(v)
        if p is None:
            if isinstance(v, Const):
                I.throw(st, "TypeError", "expected str, bytes or os.PathLike object")
            return Top(name, frags_of(v))
        lit = "".join(x for x in p if isinstance(x, str))
        if all(isinstance(x, str) or safe_hole(x) or x.has("blank") for x in p) and "//" not in lit and "." not in lit and not (isinstance(p[-1], str) and p[-1].endswith("/")):
            if name == "normpath" or isinstance(p[0], str) and p[0].startswith("/"):
                return v
            if isinstance(p[0], Sym) and p[0].label == "cwd":
                return v
            return mk_str([Sym("cwd", "str", {"word", "T"}), "/"] + list(p))
        return Sym("%s(%r)" % (name, v), "str", {"T"})
    return f


def _listdir(I, st, a, kw):
    v = const_of(a[0] if a else Const("."))
    if isinstance(v, str) and _os.path.abspath(v).startswith(_os.path.abspath(I.prog.repo)):
        try:
            return I.list_(st, [Const(x) for x in sorted(_os.listdir(v)) if x != "__pycache__"])
        except OSError:
            pass
    return I.list_(st, [], Sym("entry@%d" % next(_ids), "str", {"T"}))


# -------------------------------------------------------------------- files

def fs_lookup(st, v):
    fs = st.heap.get("$fs")
    if fs is not None:
        if v in fs.items:
            return fs.items[v]
        if fs.rest is not None and sparts(v) is not None:
            return NONE                # a closed world: no such file
    return None


def _file_content(I, st, f):
    o = st.get(f)
    name = o.d["name"]
    c = fs_lookup(st, name)
    if c is not None:
        return c
    return Sym("content(%r)" % (name,), "str")


def _f_read(I, st, a, kw):
    f = a[0]
    I.fault(st, "OSError", "read failed")
    o = st.get(f)
    c = _file_content(I, st, f)
    if "b" in const_of(o.d["mode"], "r"):
        return st.new("inst", I.prog.bytes_cls, d={"text": c})
    if "errors" in o.d:
        st.event("lossy_decode", o.d["errors"], I.site())
    else:
        I.fault(st, "UnicodeDecodeError", "invalid start byte")
    if len(a) > 1 and const_of(a[1], -1) not in (-1, None):
        return Sym("part of %r" % (c,), "str")
    st.event("file_read", o.d["name"])
    return c


def _b_decode(I, st, a, kw):
    err = a[2] if len(a) > 2 else kw.get("errors", Const("strict"))
    st.event("decode", a[1] if len(a) > 1 else kw.get("encoding", Const("utf-8")), I.site())
    if const_of(err, "strict") == "strict":
        I.fault(st, "UnicodeDecodeError", "invalid start byte")
    else:
        st.event("lossy_decode", err, I.site())
    return st.get(a[0]).d["text"]


def _f_readlines(I, st, a, kw):
    c = _f_read(I, st, a[:1], {})
    if isinstance(c, Ref):
        c = st.get(c).d["text"]
    return I.call(st, Bound(c, I.prog.models[("str", "splitlines")]), [TRUE], {})


def _as_text(v):
    if isinstance(v, Const) and isinstance(v.v, bytes):
        return Const(v.v.decode("utf-8", "replace"))
    return v


def _f_write(I, st, a, kw):
    f, v = a[0], _as_text(a[1])
    o = st.get(f)
    I.fault(st, "OSError", "write failed")
    I.fault(st, "UnicodeEncodeError", "surrogates not allowed")
    st.event("file_write", o.d["name"], v)
    nm = o.d["name"]
    fs = st.heap.get("$fs")
    if fs is not None:
        cur = fs.items.get(nm)
        tx = v
        if isinstance(v, Ref) and st.get(v).kind == "inst":
            tx = st.get(v).d.get("text", v)
        if cur is not None and sparts(cur) is not None and sparts(tx) is not None:
            tx = I.concat(st, cur, tx)
        st.w("$fs").items[nm] = tx
    return Sym("nwritten@%d" % next(_ids), "int")


def _f_close(I, st, a, kw):
    return NONE


def _open(I, st, a, kw):
    name = a[0]
    if isinstance(name, Union):
        return I.split(st, name, lambda s, x: _open(I, s, [x] + list(a[1:]), kw))
    mode = a[1] if len(a) > 1 else kw.get("mode", Const("r"))
    m = const_of(mode, "r")
    reading = not any(c in m for c in "wax")
    c = fs_lookup(st, name)
    if c == NONE and reading:
        I.throw(st, "FileNotFoundError", "No such file or directory")
    if isinstance(name, Const) and name.v is None:
        I.throw(st, "TypeError", "expected str, bytes or os.PathLike object, not NoneType")
    if I.prog.faults == "enum" or not (c is not None and reading and c != NONE):
        I.fault(st, "OSError", "open failed")
    st.event("open", name, Const(m), I.site())
    if "w" in m and "$fs" in st.heap:
        st.w("$fs").items[name] = EMPTY
    f = st.new("inst", I.prog.file_cls, d={"name": name, "mode": Const(m)})
    enc = kw.get("encoding", a[3] if len(a) > 3 else NONE)
    if reading and enc != NONE:
        st.event("decode", enc, I.site())
    err = kw.get("errors", a[4] if len(a) > 4 else NONE)
    if reading and const_of(err, "?") not in (None, "strict"):
        st.w(f).d["errors"] = err
    return f


def _fdopen(I, st, a, kw):
    fd = a[0]
    o = I.obj(st, fd)
    name = o.d["name"] if o is not None and "name" in o.d else Sym("file@%d" % next(_ids), "str")
    m = a[1] if len(a) > 1 else kw.get("mode", Const("r"))
    return st.new("inst", I.prog.file_cls, d={"name": name, "mode": m})


def _oswrite(I, st, a, kw):
    fd, v = a[:2]
    o = I.obj(st, fd)
    I.fault(st, "OSError", "write failed")
    if o is not None and "name" in o.d:
        return _f_write_raw(I, st, o.d["name"], v)
    st.event("file_write", Top("fd"), v)
    return Sym("nwritten@%d" % next(_ids), "int")


def _f_write_raw(I, st, nm, v):
    tx = v = _as_text(v)
    if isinstance(v, Ref) and st.get(v).kind == "inst":
        tx = st.get(v).d.get("text", v)
    st.event("file_write", nm, tx)
    if "$fs" in st.heap:
        cur = st.heap["$fs"].items.get(nm)
        if cur is not None and sparts(cur) is not None and sparts(tx) is not None:
            tx = I.concat(st, cur, tx)
        st.w("$fs").items[nm] = tx
    return Sym("nwritten@%d" % next(_ids), "int")


# ------------------------------------------------------------ temporary files

def tmp_new(I, st, kind):
    I.fault(st, "OSError", "no space")
    site = I.site()
    if "$tmp" not in st.heap:
        st.new("tmp", items={}, addr="$tmp")
    n = Sym("%s@%s" % (kind, site), "str", {"word", "fresh", "T", "tmp"})
    st.w("$tmp").items[n] = TRUE
    return n


def tmp_del(I, st, v, sure=True):
    if "$tmp" not in st.heap:
        return
    for a in alts(v):
        p = sparts(a)
        if p and p[0] in st.heap["$tmp"].items and len(p) == 1:
            st.w("$tmp").items[p[0]] = FALSE if len(alts(v)) == 1 else join(TRUE, FALSE)


def _mkstemp(I, st, a, kw):
    n = tmp_new(I, st, "mkstemp")
    if "$fs" in st.heap:
        st.w("$fs").items[n] = EMPTY
    fd = st.new("inst", I.prog.fd_cls, d={"name": n})
    return I.tuple_(st, [fd, n])


def _mkdtemp(I, st, a, kw):
    return tmp_new(I, st, "mkdtemp")


def _ntf(I, st, a, kw):
    delete = kw.get("delete", TRUE)
    mode = kw.get("mode", a[0] if a else Const("w+b"))
    if const_of(delete, True):
        n = Sym("ntf@%s" % I.site(), "str", {"word", "fresh", "T"})
    else:
        n = tmp_new(I, st, "ntf")
    if "$fs" in st.heap:
        st.w("$fs").items[n] = EMPTY
    return st.new("inst", I.prog.file_cls, d={"name": n, "mode": mode, "auto": delete})


def _tmpdir_init(I, st, a, kw):
    st.w(a[0]).d["name"] = tmp_new(I, st, "tmpdir")
    return NONE


def _rmtree(I, st, a, kw):
    ign = a[1] if len(a) > 1 else kw.get("ignore_errors", FALSE)
    tmp_del(I, st, a[0])
    st.event("rm", a[0], I.site())
    return ign and NONE


def _remove(I, st, a, kw):
    if isinstance(a[0], Const) and a[0].v is None:
        I.throw(st, "TypeError", "remove: path should be string, bytes or os.PathLike, not NoneType")
    if isinstance(a[0], Union) and NONE in a[0].alts:
        I.may_throw(st, "TypeError", "remove: path should be string, not NoneType")
    tmp_del(I, st, a[0])
    st.event("rm", a[0], I.site())
    return NONE


def _copyfile(I, st, a, kw):
    src, dst = a[0], a[1]
    c = fs_lookup(st, src)
    if c == NONE:
        I.throw(st, "FileNotFoundError", "No such file or directory")
    I.fault(st, "OSError", "copy failed")
    st.event("copy", src, dst, I.site())
    if "$fs" in st.heap:
        st.w("$fs").items[dst] = c if c is not None else Sym("content(%r)" % (src,), "str")
    return dst


# ------------------------------------------------------------------ warnings

def _warn(I, st, a, kw):
    msg = a[0] if a else kw.get("message", EMPTY)
    cat = a[1] if len(a) > 1 else kw.get("category", NONE)
    if isinstance(msg, Ref) and st.get(msg).kind == "inst" and st.get(msg).cls.issub(I.prog.b.Warning):
        cat = st.get(msg).cls
    if cat == NONE:
        cat = I.prog.b.UserWarning
    if isinstance(cat, Union):
        return I.split(st, cat, lambda s, c: _warn(I, s, [msg, c], {}))
    if not isinstance(cat, Cls):
        I.imprecise(st, "warning category")
        st.event("warn", cat, msg, I.site())
        return NONE
    act = "default"
    for f in st.heap["$warn"].items or ():
        if f[1] is None or cat.issub(f[1]):
            act = f[0]
            break
    if act == "error":
        st.event("warn", cat, msg, I.site())
        if isinstance(msg, Ref):
            I.throw_val(st, msg)
        I.throw(st, cat, msg)
    if act == "ignore":
        st.event("warn_ignored", cat, msg, I.site())
        return NONE
    rec = st.heap["$warn"].d.get("rec", NONE)
    st.event("warn", cat, msg, I.site())
    for r in alts(rec):
        if isinstance(r, Ref):
            m = msg if isinstance(msg, Ref) else I.make_exc(st, cat, msg)
            w = st.new("inst", I.prog.wm_cls, d={"message": m, "category": cat, "filename": Top("f"), "lineno": Top("l")})
            I.list_extend(st, r, [w], None)
    return NONE


def _filter(I, st, a, kw):
    act = const_of(a[0] if a else kw.get("action", Const("default")), "default")
    cat = kw.get("category", None)
    if cat is None and len(a) > 1:
        cat = a[2] if len(a) > 2 else None
    st.event("filter", Const(act), cat, I.site())
    w = st.w("$warn")
    w.items = ((act, cat if isinstance(cat, Cls) else None),) + tuple(w.items or ())
    return NONE


def _simplefilter(I, st, a, kw):
    act = const_of(a[0] if a else kw.get("action", Const("default")), "default")
    cat = a[1] if len(a) > 1 else kw.get("category", None)
    st.event("filter", Const(act), cat, I.site())
    w = st.w("$warn")
    w.items = ((act, cat if isinstance(cat, Cls) else None),) + tuple(w.items or ())
    return NONE


def _resetwarnings(I, st, a, kw):
    st.w("$warn").items = ()
    return NONE


def _cw_init(I, st, a, kw):
    st.w(a[0]).d["record"] = kw.get("record", a[1] if len(a) > 1 else FALSE)
    return NONE


def _cw_enter(I, st, a, kw):
    w = st.heap["$warn"]
    o = st.w(a[0])
    o.d["$old_rec"] = w.d.get("rec", NONE)
    o.items = w.items
    if const_of(o.d["record"], False):
        l = I.list_(st, [])
        st.w("$warn").d["rec"] = l
        return l
    return NONE


def _cw_exit(I, st, a, kw):
    o = st.get(a[0])
    w = st.w("$warn")
    w.d["rec"] = o.d.get("$old_rec", NONE)
    w.items = o.items
    return NONE


# ----------------------------------------------------------------------- sys

def _sysexit(I, st, a, kw):
    e = st.new("inst", I.prog.b.SystemExit, d={"args": I.tuple_(st, a), "code": a[0] if a else NONE})
    I.throw_val(st, e)


# -------------------------------------------------------------------- getopt

def _getopt(I, st, a, kw):
    """getopt.getopt over abstract words."""
    P = I.prog
    args, short = a[0], a[1]
    longopts = a[2] if len(a) > 2 else kw.get("longopts", None)
    ge = P.ext["getopt"]["GetoptError"]
    its, rest = I.iterate(st, args)
    lo, lr = I.iterate(st, longopts) if longopts is not None else ([], None)
    if rest is not None or lr is not None or not all(isinstance(x, Const) for x in lo) or short != EMPTY \
            or any(isinstance(x, (Union, Top)) for x in its):
        I.may_throw(st, ge, "option not recognized")
        pair = I.tuple_(st, [Sym("opt@%d" % next(_ids), "str", {"T"}), Sym("optarg@%d" % next(_ids), "str")])
        return I.tuple_(st, [I.list_(st, [], pair), I.list_(st, [], Sym("rem@%d" % next(_ids), "str"))])
    longs = [x.v for x in lo]
    opts = []
    i = 0
    while i < len(its):
        x = its[i]
        p = sparts(x)
        if p is None:
            I.throw(st, "AttributeError", "startswith")
        lead = p[0] if p and isinstance(p[0], str) else ""
        if x == Const("--"):
            i += 1
            break
        if lead.startswith("--"):
            body = [q for q in _char_items(x)][2:]
            if "=" in body:
                k = body.index("=")
                name, arg = body[:k], mk_str(body[k + 1:])
            else:
                name, arg = body, None
            if not all(isinstance(c, str) for c in name):
                I.throw(st, ge, mk_str(["option --"] + name + [" not recognized"]))
            nm = "".join(name)
            poss = [o for o in longs if o.startswith(nm)]
            if not poss:
                I.throw(st, ge, "option --%s not recognized" % nm)
            if nm in poss:
                full, has = nm, False
            elif nm + "=" in poss:
                full, has = nm, True
            else:
                if len(poss) > 1:
                    I.throw(st, ge, "option --%s not a unique prefix" % nm)
                full = poss[0].rstrip("=")
                has = poss[0].endswith("=")
            if has:
                if arg is None:
                    i += 1
                    if i >= len(its):
                        I.throw(st, ge, "option --%s requires argument" % nm)
                    arg = its[i]
            elif arg is not None:
                I.throw(st, ge, "option --%s must not have an argument" % nm)
            opts.append(I.tuple_(st, [Const("--" + full), arg if arg is not None else EMPTY]))
            i += 1
            continue
        if lead.startswith("-") and x != Const("-"):
            I.throw(st, ge, "option not recognized")
        break
    return I.tuple_(st, [I.list_(st, opts), I.list_(st, its[i:])])


# ------------------------------------------------------------------------ re

def _re_fn(name):
    def f(I, st, a, kw):
        if all(isinstance(x, Const) for x in a) and not kw:
            try:
                m = getattr(_re, name)(*[x.v for x in a])
            except (_re.error, TypeError) as e:
                I.throw(st, "TypeError", str(e))
            return _re_val(I, st, m)
        if name in ("match", "search", "fullmatch"):
            return Union([NONE, st.new("inst", I.prog.opaque_class("re.Match"))])
        if name in ("split", "findall"):
            return I.list_(st, [], Sym("re@%d" % next(_ids), "str"))
        if name == "sub":
            return Top("re.sub", frags_of(a[1]) | frags_of(a[2]))
        return Top("re." + name)
    return f


def _re_val(I, st, m):
    if m is None:
        return NONE
    if isinstance(m, str):
        return Const(m)
    if isinstance(m, list):
        return I.list_(st, [_re_val(I, st, x) for x in m])
    if isinstance(m, tuple):
        return I.tuple_(st, [_re_val(I, st, x) for x in m])
    if isinstance(m, _re.Match):
        d = {"$m": Wrap("pyobj", m)}
        return st.new("inst", I.prog.match_cls, d=d)
    return Top("re")


def _m_group(I, st, a, kw):
    m = st.get(a[0]).d["$m"].a[0]
    if all(isinstance(x, Const) for x in a[1:]):
        try:
            return _re_val(I, st, m.group(*[x.v for x in a[1:]]))
        except IndexError as e:
            I.throw(st, "IndexError", str(e))
    return Sym("group@%d" % next(_ids), "str")


def _m_groups(I, st, a, kw):
    m = st.get(a[0]).d["$m"].a[0]
    return _re_val(I, st, m.groups())


def _m_span(name):
    def f(I, st, a, kw):
        m = st.get(a[0]).d["$m"].a[0]
        r = getattr(m, name)(*[const_of(x, 0) for x in a[1:]])
        return Const(r) if isinstance(r, int) else I.tuple_(st, [Const(x) for x in r])
    return f


def _re_compile(I, st, a, kw):
    pat = a[0]
    fl = a[1] if len(a) > 1 else kw.get("flags", Const(0))
    return st.new("inst", I.prog.pat_cls, d={"pattern": pat, "flags": fl})


def _pat_fn(name):
    def f(I, st, a, kw):
        o = st.get(a[0])
        args = [o.d["pattern"]] + list(a[1:])
        if name == "sub":
            if all(isinstance(x, Const) for x in args) and isinstance(o.d["flags"], Const):
                return Const(_re.sub(args[0].v, args[1].v, args[2].v, flags=o.d["flags"].v))
            return Top("re.sub")
        return _re_fn(name)(I, st, args + [o.d["flags"]], {})
    return f


# ------------------------------------------------------------------ requests

def _requests_get(I, st, a, kw):
    v = kw.get("verify", TRUE)
    st.event("http_get", a[0] if a else kw.get("url", NONE), v, I.site())
    for n in ("SSLError", "ConnectionError", "Timeout", "RequestException"):
        I.fault(st, I.prog.ext["requests.exceptions"][n], n)
    code = I.prog.http_status if I.prog.http_status is not None else Sym("status@%d" % next(_ids), "int")
    text = Sym("body(%r)" % (a[0] if a else NONE,), "str")
    hosts = st.heap.get("$http")
    if hosts is not None and a and a[0] in hosts.items:
        text = hosts.items[a[0]]
    return st.new("inst", I.prog.resp_cls, d={"status_code": code, "text": text, "content": st.new("inst", I.prog.bytes_cls, d={"text": text}),
                                              "url": a[0] if a else NONE})


def _resp_ok(I, st, a, kw):
    c = st.get(a[0]).d["status_code"]
    if isinstance(c, Const):
        return B(c.v < 400)
    return fresh_bool("ok")


def _raise_for_status(I, st, a, kw):
    c = st.get(a[0]).d["status_code"]
    he = I.prog.ext["requests.exceptions"]["HTTPError"]
    if isinstance(c, Const):
        if c.v >= 400:
            I.throw(st, he, "error status")
        return NONE
    I.may_throw(st, he, "error status")
    return NONE


def install(P):
    E = P.ext
    b = P.b

    def nat(mod, **fns):
        d = E.setdefault(mod, {})
        for k, f in fns.items():
            d[k] = f if isinstance(f, Val) else Native("%s.%s" % (mod, k), f)
        return d

    def cls(name, bases, module, **m):
        return Cls(name, bases or [b.object], module,
                   native={k: (f if isinstance(f, Val) else Native(name + "." + k, f)) for k, f in m.items()})

    ident = lambda I, st, a, kw: a[0]
    none = lambda I, st, a, kw: NONE
    P.http_status = None
    P.bytes_cls = cls("bytes_data", [b.bytes], "builtins", decode=_b_decode)
    P.bytes_cls.native["__new__"] = None
    del P.bytes_cls.native["__new__"]
    P.file_cls = cls("TextIOWrapper", None, "io", read=_f_read, write=_f_write, close=_f_close, readlines=_f_readlines,
                     readline=lambda I, st, a, kw: Sym("line@%d" % next(_ids), "str"),
                     flush=none, fileno=lambda I, st, a, kw: a[0], __enter__=ident, __exit__=none,
                     __iter__=lambda I, st, a, kw: I.get_iter(st, _f_readlines(I, st, a, kw)),
                     writelines=lambda I, st, a, kw: [(_f_write(I, st, [a[0], x], {})) for x in sum([[i for i in I.iterate(st, a[1])[0]]], [])] and NONE or NONE)
    P.fd_cls = cls("fd", [b.int], "builtins")
    P.fd_cls.native["__init__"] = Native("fd", none)
    P.wm_cls = cls("WarningMessage", None, "warnings")
    P.match_cls = cls("Match", None, "re", group=_m_group, groups=_m_groups, __getitem__=_m_group,
                      start=_m_span("start"), end=_m_span("end"), span=_m_span("span"))
    P.pat_cls = cls("Pattern", None, "re", **{n: _pat_fn(n) for n in ("match", "search", "fullmatch", "split", "findall", "sub")})
    P.resp_cls = cls("Response", None, "requests", raise_for_status=_raise_for_status,
                     ok=Wrap("property", Native("ok", _resp_ok)), close=none, __enter__=ident, __exit__=none)
    P.builtins["open"] = Native("open", _open)
    nat("io", open=_open)
    E["codecs"] = {"open": Native("codecs.open", _open)}

    nat("shlex", split=_shlex_split, quote=_quote,
        join=lambda I, st, a, kw: I.call(st, Bound(Const(" "), P.models[("str", "join")]),
                                         [I.list_(st, [_quote(I, st, [x], {}) for x in I.iterate(st, a[0])[0]], I.iterate(st, a[0])[1])], {}))
    nat("pipes", quote=_quote)

    path = dict(exists=_exists, isfile=_exists, lexists=_exists, dirname=_dirname, basename=_basename, join=_pjoin,
                abspath=_absp("abspath"), normpath=_absp("normpath"), realpath=_absp("abspath"),
                isdir=lambda I, st, a, kw: fresh_bool("isdir"),
                isabs=lambda I, st, a, kw: _isabs(I, st, a, kw),
                split=lambda I, st, a, kw: I.tuple_(st, [_dirname(I, st, a, kw), _basename(I, st, a, kw)]),
                expanduser=ident, getsize=lambda I, st, a, kw: Sym("size@%d" % next(_ids), "int"))
    nat("os.path", **path)
    E["posixpath"] = E["os.path"]
    E["os.path"]["sep"] = Const("/")
    d = nat("os", listdir=_listdir, remove=_remove, unlink=_remove, write=_oswrite, close=none, fdopen=_fdopen,
            getcwd=lambda I, st, a, kw: Sym("cwd", "str", {"word", "T"}),
            fsync=none, makedirs=none, mkdir=none, rmdir=_rmtree, chmod=none, rename=none, replace=none,
            getenv=lambda I, st, a, kw: Union([NONE, Sym("env@%d" % next(_ids), "str")]),
            access=lambda I, st, a, kw: fresh_bool("access"), chdir=none, read=lambda I, st, a, kw: Sym("osread@%d" % next(_ids), "str"))
    d["path"] = Mod("os.path")
    d["linesep"] = Const("\n")
    d["sep"] = Const("/")
    d["devnull"] = Const("/dev/null")
    d["environ"] = Top("environ")
    d["error"] = b.OSError
    for c in ("R_OK", "W_OK", "X_OK", "F_OK"):
        d[c] = Const(getattr(_os, c))

    d = nat("sys", exit=_sysexit, getdefaultencoding=lambda I, st, a, kw: Const("utf-8"),
            exc_info=lambda I, st, a, kw: I.tuple_(st, [Top("exc"), Top("exc"), Top("tb")]),
            getfilesystemencoding=lambda I, st, a, kw: Const("utf-8"), intern=ident,
            getrecursionlimit=lambda I, st, a, kw: Const(1000), setrecursionlimit=none)
    d["version_info"] = Top("version_info")
    d["maxsize"] = Const(2 ** 63 - 1)
    d["platform"] = Const("linux")
    d["executable"] = Const("/usr/bin/python3")
    stream = cls("Stream", None, "sys", write=lambda I, st, a, kw: (st.event("print", (str_(I, st, a[1]),), a[0]), Const(0))[1],
                 flush=none, fileno=lambda I, st, a, kw: Const(1), isatty=lambda I, st, a, kw: fresh_bool("tty"), close=none)
    P.stream_cls = stream
    P.state_init = []

    def init_state(I, st):
        for n in ("stdout", "stderr", "stdin"):
            st.new("inst", stream, d={"name": Const(n)}, addr="$" + n)
        st.new("list", b.list, items=(), rest=Sym("syspath", "str"), addr="$syspath")
        st.new("list", b.list, items=(Const("prog"),), rest=Sym("argv", "str"), addr="$argv")
        st.new("dict", b.dict, items={}, addr="$modules", rest=Top("modules"))
    P.state_init.append(init_state)
    d["stdout"] = Ref("$stdout")
    d["stderr"] = Ref("$stderr")
    d["stdin"] = Ref("$stdin")
    d["path"] = Ref("$syspath")
    d["argv"] = Ref("$argv")
    d["modules"] = Ref("$modules")

    nat("warnings", warn=_warn, filterwarnings=_filter, simplefilter=_simplefilter, resetwarnings=_resetwarnings,
        showwarning=none, formatwarning=lambda I, st, a, kw: Top("warning"))
    E["warnings"]["catch_warnings"] = cls("catch_warnings", None, "warnings", __init__=_cw_init, __enter__=_cw_enter, __exit__=_cw_exit)

    def _dedent(I, st, a, kw):
        v = a[0]
        if isinstance(v, Const) and isinstance(v.v, str):
            return Const(_textwrap.dedent(v.v))
        return Top("dedent", frags_of(v))
    nat("textwrap", dedent=_dedent, fill=lambda I, st, a, kw: a[0], indent=lambda I, st, a, kw: Top("indent", frags_of(a[0])),
        wrap=lambda I, st, a, kw: I.list_(st, [], Top("wrap", frags_of(a[0]))), shorten=ident)

    d = nat("six", iteritems=lambda I, st, a, kw: I.get_iter(st, I.call(st, I.getattr_(st, a[0], "items"), [], {})),
            itervalues=lambda I, st, a, kw: I.get_iter(st, I.call(st, I.getattr_(st, a[0], "values"), [], {})),
            iterkeys=lambda I, st, a, kw: I.get_iter(st, I.call(st, I.getattr_(st, a[0], "keys"), [], {})),
            ensure_str=ident, ensure_text=ident, b=ident, u=ident,
            add_metaclass=lambda I, st, a, kw: Native("meta", ident))
    d["PY3"] = TRUE
    d["PY2"] = FALSE
    d["text_type"] = b.str
    d["binary_type"] = b.bytes
    d["string_types"] = b.str
    d["integer_types"] = b.int
    d["moves"] = Mod("six.moves")
    d = nat("six.moves", input=lambda I, st, a, kw: I.call(st, E["$input"]["fn"], a, kw))
    for n in ("range", "zip", "map", "filter"):
        d[n] = P.builtins[n]
    E["$input"] = {"fn": Native("input", _input)}

    it = cls("Iterator", None, "collections.abc", __iter__=ident)
    E["collections.abc"] = {"Iterator": it}
    for n in ("Iterable", "Mapping", "Sequence", "MutableSequence", "Callable", "Set", "Sized", "Container"):
        E["collections.abc"][n] = P.opaque_class("collections.abc." + n)
    E["collections.abc"]["Iterable"] = it
    E["collections"] = {"Iterator": it, "abc": Mod("collections.abc"), "OrderedDict": b.dict,
                        "defaultdict": Native("defaultdict", _defaultdict),
                        "namedtuple": Native("namedtuple", lambda I, st, a, kw: P.opaque_class("namedtuple")),
                        "deque": b.list, "Counter": Native("Counter", lambda I, st, a, kw: I.dict_(st, {}, Sym("count@%d" % next(_ids), "int")))}

    def _import(I, st, a, kw):
        n = const_of(a[0])
        if isinstance(n, str):
            if I.prog.import_module(I, st, n):
                return Mod(n)
            I.throw(st, "ModuleNotFoundError", "No module named %r" % n)
        if isinstance(a[0], Union):
            return I.split(st, a[0], lambda s, x: _import(I, s, [x], kw))
        if isinstance(a[0], Const):
            I.throw(st, "AttributeError", "startswith")
        if isinstance(a[0], (Sym, Tmpl)) and any(isinstance(p, Sym) and p.has("fresh") for p in sparts(a[0]) or ()):
            I.throw(st, "ModuleNotFoundError", "No module named that")
        I.may_throw(st, "ModuleNotFoundError", "No module")
        return Top("imported module")
    nat("importlib", import_module=_import)

    nat("gettext", gettext=lambda I, st, a, kw: a[0], lgettext=ident, bindtextdomain=none, textdomain=none,
        ngettext=lambda I, st, a, kw: Union([a[0], a[1]]),
        translation=lambda I, st, a, kw: Top("translation"), install=none)

    ge = cls("GetoptError", [b.Exception], "getopt")
    nat("getopt", getopt=_getopt, gnu_getopt=_getopt)
    E["getopt"]["GetoptError"] = ge
    E["getopt"]["error"] = ge

    d = nat("re", compile=_re_compile, escape=lambda I, st, a, kw: Const(_re.escape(a[0].v)) if isinstance(a[0], Const) else Top("escape"),
            **{n: _re_fn(n) for n in ("match", "search", "fullmatch", "split", "findall", "sub")})
    for n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII", "U", "UNICODE"):
        d[n] = Const(int(getattr(_re, n)))

    def _copy(I, st, a, kw):
        v = a[0]
        if isinstance(v, Union):
            return I.split(st, v, lambda s, x: _copy(I, s, [x], kw))
        o = I.obj(st, v)
        if o is None:
            return v
        it = o.items
        return st.new(o.kind, o.cls, d=dict(o.d), items=dict(it) if isinstance(it, dict) else it, rest=o.rest)

    def _deepcopy(I, st, a, kw):
        memo = {}

        def go(v):
            if isinstance(v, Union):
                return mk_union([go(x) for x in v.alts])
            if not isinstance(v, Ref):
                return v
            if v.addr in memo:
                return memo[v.addr]
            o = st.get(v)
            if o.kind not in ("inst", "list", "tuple", "dict", "set"):
                return v
            r = st.new(o.kind, o.cls, d={}, items=o.items, rest=o.rest)
            memo[v.addr] = r
            w = st.w(r)
            w.d = {k: go(x) for k, x in o.d.items()}
            if isinstance(o.items, dict):
                w.items = {k: go(x) for k, x in o.items.items()}
            elif isinstance(o.items, tuple):
                w.items = tuple(go(x) for x in o.items)
            if o.rest is not None:
                w.rest = go(o.rest)
            return r
        return go(a[0])
    nat("copy", copy=_copy, deepcopy=_deepcopy)

    def _partial(I, st, a, kw):
        f, pre, pk = a[0], list(a[1:]), dict(kw)
        return Native("partial", lambda I2, s, a2, k2: I2.call(s, f, pre + list(a2), dict(pk, **k2)))

    def _reduce(I, st, a, kw):
        items, rest = I.iterate(st, a[1])
        if rest is not None:
            return Top("reduce")
        if len(a) > 2:
            acc = a[2]
        elif items:
            acc, items = items[0], items[1:]
        else:
            I.throw(st, "TypeError", "reduce() of empty sequence")
        for x in items:
            acc = I.call(st, a[0], [acc, x], {})
        return acc

    def _wraps(I, st, a, kw):
        return Native("wraps", ident)
    nat("functools", partial=_partial, reduce=_reduce, wraps=_wraps, lru_cache=lambda I, st, a, kw: a[0] if a and isinstance(a[0], Func) else Native("lru", ident),
        total_ordering=ident, cmp_to_key=lambda I, st, a, kw: Top("cmp_to_key"))

    def _chain(I, st, a, kw):
        out, rest = [], None
        for x in a:
            i, r = I.iterate(st, x)
            if rest is None:
                out += i
            else:
                for y in i:
                    rest = join(rest, y)
            if r is not None:
                rest = r if rest is None else join(rest, r)
        return I.get_iter(st, I.list_(st, out, rest))
    nat("itertools", chain=_chain,
        takewhile=lambda I, st, a, kw: Top("takewhile"), dropwhile=lambda I, st, a, kw: Top("dropwhile"),
        count=lambda I, st, a, kw: I.list_(st, [], Sym("count@%d" % next(_ids), "int")))

    nat("tempfile", mkstemp=_mkstemp, mkdtemp=_mkdtemp, NamedTemporaryFile=_ntf, TemporaryFile=_ntf,
        gettempdir=lambda I, st, a, kw: Const("/tmp"))

    def _td_exit(I, st, a, kw):
        tmp_del(I, st, st.get(a[0]).d["name"])
        return NONE
    E["tempfile"]["TemporaryDirectory"] = cls("TemporaryDirectory", None, "tempfile", __init__=_tmpdir_init,
                                              __enter__=lambda I, st, a, kw: st.get(a[0]).d["name"], __exit__=_td_exit, cleanup=_td_exit)
    nat("shutil", rmtree=_rmtree, copyfile=_copyfile, copy=_copyfile, copy2=_copyfile, move=_copyfile,
        copyfileobj=lambda I, st, a, kw: _f_write(I, st, [a[1], _f_read(I, st, [a[0]], {})], {}) and NONE)
    E["shutil"]["Error"] = cls("Error", [b.OSError], "shutil")
    E["shutil"]["SameFileError"] = cls("SameFileError", [E["shutil"]["Error"]], "shutil")

    re_ = cls("RequestException", [b.OSError], "requests.exceptions")
    re_.family = True
    d = E["requests.exceptions"] = {"RequestException": re_}
    for n, base in (("HTTPError", "RequestException"), ("ConnectionError", "RequestException"), ("SSLError", "ConnectionError"),
                    ("Timeout", "RequestException"), ("InvalidURL", "RequestException"), ("MissingSchema", "RequestException"),
                    ("InvalidSchema", "RequestException"), ("TooManyRedirects", "RequestException"), ("ConnectTimeout", "ConnectionError"),
                    ("ReadTimeout", "Timeout"), ("ChunkedEncodingError", "RequestException"), ("ContentDecodingError", "RequestException")):
        d[n] = cls(n, [d[base]], "requests.exceptions")
    codes = cls("codes", None, "requests")
    P.codes_cls = codes
    codes_d = {"ok": 200, "OK": 200, "created": 201, "accepted": 202, "no_content": 204, "partial_content": 206, "bad_request": 400,
               "unauthorized": 401, "forbidden": 403, "not_found": 404, "internal_server_error": 500, "multiple_choices": 300,
               "moved_permanently": 301, "found": 302, "not_modified": 304}
    codes.native.update({k: Const(v) for k, v in codes_d.items()})
    E["requests"] = dict(get=Native("requests.get", _requests_get), exceptions=Mod("requests.exceptions"), codes=codes,
                         request=Native("requests.request", lambda I, st, a, kw: _requests_get(I, st, a[1:], kw)), **d)
    sess = cls("Session", None, "requests", get=lambda I, st, a, kw: _session_get(I, st, a, kw), __enter__=ident, __exit__=none, close=none,
               __init__=lambda I, st, a, kw: (st.w(a[0]).d.__setitem__("verify", TRUE), NONE)[1])
    E["requests"]["Session"] = sess
    E["requests"]["session"] = sess

    nat("readline", parse_and_bind=none, set_completer=none, set_completer_delims=none, read_history_file=none,
        get_begidx=lambda I, st, a, kw: Sym("begidx@%d" % next(_ids), "int"),
        get_line_buffer=lambda I, st, a, kw: Sym("linebuf@%d" % next(_ids), "str"),
        get_completer_delims=lambda I, st, a, kw: Const(" \t\n"), add_history=none, set_pre_input_hook=none, set_startup_hook=none,
        insert_text=none, redisplay=none, set_completion_display_matches_hook=none)
    E["string"] = {"digits": Const("0123456789"), "whitespace": Const(" \t\n\r\x0b\x0c"), "hexdigits": Const("0123456789abcdefABCDEF"),
                   "ascii_letters": Const("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")}
    nat("operator", attrgetter=lambda I, st, a, kw: Native("attrgetter", lambda I2, s, a2, k2, n=const_of(a[0]): I2.getattr_(s, a2[0], n)),
        itemgetter=lambda I, st, a, kw: Native("itemgetter", lambda I2, s, a2, k2, n=a[0]: I2.getitem(s, a2[0], n)))
    nat("atexit", register=none)
    E["contextlib"] = {}
    nat("contextlib", contextmanager=lambda I, st, a, kw: Top("contextmanager"),
        suppress=cls("suppress", None, "contextlib", __init__=lambda I, st, a, kw: (st.w(a[0]).d.__setitem__("excs", I.tuple_(st, a[1:])), NONE)[1],
                     __enter__=ident, __exit__=_suppress_exit))


def _suppress_exit(I, st, a, kw):
    o = st.get(a[0])
    c = a[1]
    if not isinstance(c, Cls):
        return FALSE
    return B(any(isinstance(e, Cls) and c.issub(e) for e in st.get(o.d["excs"]).items))


def _session_get(I, st, a, kw):
    kw = dict(kw)
    if "verify" not in kw:
        kw["verify"] = st.get(a[0]).d.get("verify", TRUE)
    return _requests_get(I, st, a[1:], kw)


def _isabs(I, st, a, kw):
    p = sparts(a[0])
    if p is None:
        return fresh_bool("isabs")
    if not p:
        return FALSE
    if isinstance(p[0], str):
        return B(p[0].startswith("/"))
    return FALSE if safe_hole(p[0]) else fresh_bool("isabs")


def _input(I, st, a, kw):
    st.event("input", I.site())
    if "$in" in st.heap:
        q = st.heap["$in"].items
        if not q:
            I.throw(st, "EOFError", "end of input")
        st.w("$in").items = q[1:]
        if isinstance(q[0], Cls):
            I.throw(st, q[0], "")
        return q[0]
    I.may_throw(st, "EOFError", "end of input")
    I.may_throw(st, "KeyboardInterrupt", "")
    return Sym("input@%d" % next(_ids), "str")


def _defaultdict(I, st, a, kw):
    return I.dict_(st, {}, Top("defaultdict"))


_unused = (N, Dead)
