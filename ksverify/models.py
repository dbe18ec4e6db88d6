"""Models of Python builtins and string operations on abstract values."""
import builtins as _pyb
import re
import string as _string

from .values import *
from .values import _ids
from .interp import Dead, ExcInfo

_DIGITS = set("0123456789")


def N(name):
    def deco(fn):
        return Native(name, fn)
    return deco


def fresh_bool(tag):
    return Sym("%s@%d" % (tag, next(_ids)), "bool")


def safe_hole(p):
    return isinstance(p, Sym) and (p.has("word") or p.has("digits") or p.ty in ("int", "bool"))


# ------------------------------------------------------------------ strings

def str_(I, st, v):
    if isinstance(v, Union):
        return I.split(st, v, lambda s, a: str_(I, s, a))
    if isinstance(v, Const):
        if isinstance(v.v, bytes):
            return Const(str(v.v))
        return Const(str(v.v))
    if isinstance(v, Tmpl):
        return v
    if isinstance(v, Sym):
        if v.ty == "str":
            return v
        if v.ty == "int":
            return Sym(v.label, "str", v.facts | {"digits", "word", "T"})
        if v.ty == "bool":
            return Union([Const("True"), Const("False")])
        return Top("str of " + v.label, frozenset([v]))
    if isinstance(v, Top):
        return v
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == "inst":
            f = I.find_cls_attr(st, o.cls, "__str__")
            if f is not None:
                return I.call(st, Bound(v, f), [], {})
            f = I.find_cls_attr(st, o.cls, "__repr__")
            if f is not None:
                return I.call(st, Bound(v, f), [], {})
            return mk_str(["<", Const(o.cls.name), " object>"])
        return repr_(I, st, v)
    if isinstance(v, Cls):
        return Const("<class '%s.%s'>" % (v.module, v.name))
    return Top("str")


def repr_(I, st, v):
    if isinstance(v, Union):
        return I.split(st, v, lambda s, a: repr_(I, s, a))
    if isinstance(v, Const):
        return Const(repr(v.v))
    if sparts(v) is not None:
        if all(isinstance(p, str) or safe_hole(p) or p.has("blank") for p in sparts(v)):
            q = '"' if any(isinstance(p, str) and "'" in p for p in sparts(v)) else "'"
            return mk_str((q,) + sparts(v) + (q,))
        return Top("repr", frozenset([v]))
    if isinstance(v, Sym):
        return str_(I, st, v)
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind in ("list", "tuple", "set"):
            if o.rest is not None or any(isinstance(x, (Undef, Union)) for x in o.items):
                fr = frozenset()
                for x in o.items + ((o.rest,) if o.rest is not None else ()):
                    fr |= frags_of(x)
                return Top("repr of unknown list", fr)
            op, cl = {"list": "[]", "tuple": "()", "set": "{}"}[o.kind]
            parts = [op]
            for i, x in enumerate(o.items):
                if i:
                    parts.append(", ")
                r = repr_(I, st, x)
                if sparts(r) is None:
                    return Top("repr", frags_of(r))
                parts.extend(sparts(r))
            if o.kind == "tuple" and len(o.items) == 1:
                parts.append(",")
            parts.append(cl)
            return mk_str(parts)
        if o.kind == "inst":
            f = I.find_cls_attr(st, o.cls, "__repr__")
            if f is not None:
                return I.call(st, Bound(v, f), [], {})
    return Top("repr")


_FMT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\d+|\*)?(?:\.(?P<prec>\d+))?(?P<conv>[a-zA-Z%])")


def percent(I, st, l, r):
    """Abstract 'template % values'."""
    parts = sparts(l)
    ro = I.obj(st, r)
    vals = None
    mapping = None
    if ro is not None and ro.kind == "tuple":
        if ro.rest is not None:
            return Top("% unknown tuple", frags_of(l))
        vals = list(ro.items)
    elif ro is not None and ro.kind == "dict":
        mapping = ro
        vals = [r]
    elif ro is not None and I.prog.is_namespace(ro):
        vals = [r]
    else:
        vals = [r]
    out = EMPTY
    used = 0
    usedmap = False
    for p in parts:
        if not isinstance(p, str):
            if not safe_hole(p) and not p.has("blank"):
                I.imprecise(st, "unknown format string")
            out = I.concat(st, out, p)
            continue
        pos = 0
        for m in re.finditer(r"%", p):
            if m.start() < pos:
                continue
            mm = _FMT.match(p, m.start())
            out = I.concat(st, out, Const(p[pos:m.start()]))
            if mm is None:
                I.throw(st, "ValueError", "incomplete format")
            pos = mm.end()
            conv = mm.group("conv")
            if conv == "%":
                out = I.concat(st, out, Const("%"))
                continue
            if mm.group("key") is not None:
                usedmap = True
                if mapping is None:
                    if isinstance(r, Top):
                        out = I.concat(st, out, Top("% map"))
                        continue
                    I.throw(st, "TypeError", "format requires a mapping")
                v = I.getitem(st, r, Const(mm.group("key")))
            else:
                if used >= len(vals):
                    I.throw(st, "TypeError", "not enough arguments for format string")
                v = vals[used]
                used += 1
            out = I.concat(st, out, _conv(I, st, v, conv, mm))
            if out is None:
                return Top("%")
        out = I.concat(st, out, Const(p[pos:]))
    if not usedmap and used < len(vals) and not (mapping is not None and used == 0):
        if len(vals) == 1 and isinstance(vals[0], Top):
            pass
        elif len(vals) == 1 and I.obj(st, vals[0]) is not None and I.obj(st, vals[0]).kind in ("list", "dict"):
            pass
        else:
            I.throw(st, "TypeError", "not all arguments converted during string formatting")
    return out


def _conv(I, st, v, conv, mm):
    if isinstance(v, Union):
        return I.split(st, v, lambda s, a: _conv(I, s, a, conv, mm))
    plain = not mm.group("flags") and not mm.group("width") and not mm.group("prec")
    if isinstance(v, Undef):
        return Top("undef")
    if conv in "sra":
        s = str_(I, st, v) if conv == "s" else repr_(I, st, v)
        if plain:
            return s
        if isinstance(s, Const):
            return Const(mm.group(0).replace("(%s)" % mm.group("key"), "") % s.v if mm.group("key") else mm.group(0) % s.v)
        return Top("padded", frags_of(s))
    if conv in "diuxXoeEfFgGc":
        if isinstance(v, Const):
            try:
                spec = mm.group(0)
                if mm.group("key") is not None:
                    spec = spec.replace("(%s)" % mm.group("key"), "")
                return Const(spec % (v.v,))
            except (TypeError, ValueError):
                I.throw(st, "TypeError", "%%%s format: a number is required" % conv)
        if isinstance(v, Sym):
            if v.ty in ("int", "bool", "float"):
                if conv in "diu" and plain:
                    return Sym(v.label, "str", v.facts | {"digits", "word", "T"}) if v.ty != "bool" else Sym("%d" + v.label, "str", {"digits", "word", "T"})
                return Top("number format")
            if v.ty == "str":
                I.throw(st, "TypeError", "%%%s format: a number is required, not str" % conv)
            I.may_throw(st, "TypeError", "%%%s format: a number is required" % conv)
            return Sym(v.label, "str", {"digits", "word", "T"})
        if isinstance(v, Top):
            return Top("number")
        I.throw(st, "TypeError", "%%%s format: a number is required" % conv)
    I.throw(st, "ValueError", "unsupported format character")


def str_contains(I, st, c, x):
    parts = sparts(c)
    xp = sparts(x)
    if xp is None:
        if isinstance(x, Const) or isinstance(x, Ref):
            I.throw(st, "TypeError", "'in <string>' requires string as left operand")
        return fresh_bool("in")
    if not xp:
        return TRUE
    if isinstance(c, Const) and isinstance(x, Const):
        return B(x.v in c.v)
    if isinstance(x, Const):
        for p in parts:
            if isinstance(p, str) and x.v in p:
                return TRUE
        res = FALSE
        for p in parts:
            if isinstance(p, Sym):
                I.probes.add((p.label, "contains", x.v))
                if p.has("blank") and x.v in (" ", "\t"):
                    if x.v == " ":
                        return TRUE
                    continue
                if not (safe_hole(p) or p.has("blank")):
                    res = fresh_bool("in")
        return res
    if c == x:
        return TRUE
    return fresh_bool("in") if not (all(safe_hole(p) for p in xp if isinstance(p, Sym)) and isinstance(c, Const)) else FALSE


def _char_items(v):
    """Sequence of chars and holes."""
    out = []
    for p in sparts(v):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def str_getitem(I, st, c, k):
    if isinstance(c, Const):
        if isinstance(k, Const) and isinstance(k.v, int):
            try:
                return Const(c.v[k.v])
            except IndexError:
                I.throw(st, "IndexError", "string index out of range")
        if isinstance(k, Wrap) and k.kind == "slice":
            sl = I.const_slice(k)
            if sl is not None:
                return Const(c.v[sl])
        return Top("str item", frags_of(c))
    items = _char_items(c)
    if isinstance(k, Const) and isinstance(k.v, int):
        n = k.v
        if n >= 0:
            seq = items[:n + 1]
            if len(seq) == n + 1 and all(isinstance(x, str) for x in seq):
                return Const(seq[n])
            if len(seq) == n + 1 and all(isinstance(x, str) for x in seq[:n]) and safe_hole(seq[n]):
                return Sym("first(%s)" % seq[n].label, "str", set(seq[n].facts) | {"T"})
            if isinstance(items[0], Sym) and n == 0 and truth(items[0]):
                return Sym("first(%s)" % items[0].label, "str", {"T"} | ({"fresh", "word"} if items[0].has("fresh") or items[0].has("word") else set()))
        else:
            seq = items[n:]
            if len(seq) == -n and all(isinstance(x, str) for x in seq):
                return Const(seq[0])
            if len(seq) == -n and safe_hole(seq[0]):
                return Sym("last(%s)" % seq[0].label, "str", set(seq[0].facts) | {"T"})
        I.may_throw(st, "IndexError", "string index out of range")
        return Sym("char(%r)" % (c,), "str", {"T"})
    if isinstance(k, Wrap) and k.kind == "slice":
        sl = I.const_slice(k)
        if sl is not None and sl.step is None:
            a, b = sl.start, sl.stop
            if (a is None or a >= 0) and b is None:
                a = a or 0
                if all(isinstance(x, str) for x in items[:a]) and len(items) >= a:
                    return mk_str(items[a:])
            if (a is None or a >= 0) and b is not None and b >= 0:
                a = a or 0
                seq = items[:b]
                if len(seq) == b and all(isinstance(x, str) for x in seq):
                    return Const("".join(seq[a:b]))
                # slice reaching into a word hole
                lead = []
                for x in items:
                    if isinstance(x, str):
                        lead.append(x)
                    else:
                        break
                lead = "".join(lead)
                if len(lead) < len(items) and safe_hole(items[len(lead)]) and a <= len(lead):
                    h = items[len(lead)]
                    I.probes.add((h.label, "prefix", b))
                    return mk_str([lead[a:b], Sym("%s[:%d]" % (h.label, b - len(lead)), "str", h.facts & {"word", "fresh", "T", "digits"})])
                if len(lead) == len(items):
                    return Const(lead[a:b])
            if a is None and b is not None and b < 0:
                if all(isinstance(x, str) for x in items[b:]) and len(items) >= -b:
                    return mk_str(items[:b])
            if a is not None and a < 0 and b is None:
                if all(isinstance(x, str) for x in items[a:]) and len(items) >= -a:
                    return mk_str(items[a:])
        return Sym("slice@%d(%r)" % (next(_ids), c), "str", ())
    return Sym("char(%r)" % (c,), "str", {"T"})


STR = {}


def strm(name):
    def deco(fn):
        def wrap(I, st, args, kw):
            v = args[0]
            if isinstance(v, Union):
                return I.split(st, v, lambda s, a: wrap(I, s, [a] + list(args[1:]), kw))
            if isinstance(v, Top):
                return Top("str." + name, v.frags)
            for i, a in enumerate(args[1:]):
                if isinstance(a, Union) and name not in ("join", "format"):
                    return I.split(st, a, lambda s, x: wrap(I, s, args[:i + 1] + [x] + args[i + 2:], kw))
            if isinstance(v, Const) and all(isinstance(a, Const) for a in args[1:]) and all(isinstance(a, Const) for a in kw.values()) \
                    and name not in ("join", "split", "rsplit", "splitlines", "partition", "rpartition", "format", "encode"):
                if isinstance(v.v, (str, bytes)):
                    try:
                        return Const(getattr(v.v, name)(*[a.v for a in args[1:]], **{k: a.v for k, a in kw.items()}))
                    except (TypeError, ValueError, AttributeError, UnicodeError) as e:
                        I.throw(st, type(e).__name__ if type(e).__name__ in I.prog.builtins else "ValueError", str(e))
            return fn(I, st, args, kw)
        STR[name] = Native("str." + name, wrap)
        return wrap
    return deco


def const_of(v, d=None):
    return v.v if isinstance(v, Const) else d


def _strip(items, chars, left, right, I):
    ws = chars if chars is not None else " \t\n\r\x0b\x0c"
    items = list(items)
    if left:
        while items and isinstance(items[0], str) and items[0] in ws:
            items.pop(0)
    if right:
        while items and isinstance(items[-1], str) and items[-1] in ws:
            items.pop()
    for end, on in ((0, left), (-1, right)):
        if on and items and isinstance(items[end], Sym):
            p = items[end]
            if chars is not None:
                for c in chars:
                    I.probes.add((p.label, "strip", c))
            if not (safe_hole(p) or p.has("blank") or p.has("fresh")):
                return None
    return mk_str(items)


def _mk_strip(name, left, right):
    @strm(name)
    def f(I, st, args, kw):
        chars = None
        if len(args) > 1 and not (isinstance(args[1], Const) and args[1].v is None):
            chars = const_of(args[1])
            if not isinstance(chars, str):
                return Sym("%s(%r)" % (name, args[0]), "str")
        r = _strip(_char_items(args[0]), chars, left, right, I)
        if r is None:
            return Sym("%s(%r)" % (name, args[0]), "str")
        return r


_mk_strip("strip", True, True)
_mk_strip("lstrip", True, False)
_mk_strip("rstrip", False, True)


@strm("startswith")
def _sw(I, st, args, kw):
    return _affix(I, st, args, True)


@strm("endswith")
def _ew(I, st, args, kw):
    return _affix(I, st, args, False)


def _affix(I, st, args, start):
    v, x = args[0], args[1]
    o = I.obj(st, x)
    if o is not None and o.kind in ("tuple", "list"):
        if o.kind == "list":
            I.throw(st, "TypeError", "startswith first arg must be str or a tuple of str")
        rs = [I.truth(st, _affix(I, st, [v, i], start)) for i in o.items]
        if any(r is True for r in rs):
            return TRUE
        if all(r is False for r in rs):
            return FALSE
        return fresh_bool("affix")
    if not (isinstance(x, Const) and isinstance(x.v, str)):
        if x == v:
            return TRUE
        return fresh_bool("affix")
    lit = x.v
    items = _char_items(v)
    seq = items[:len(lit)] if start else items[len(items) - min(len(lit), len(items)):]
    if len(seq) == len(lit) and all(isinstance(c, str) for c in seq):
        return B("".join(seq) == lit)
    # compare up to the first hole
    order = items if start else list(reversed(items))
    lits = lit if start else lit[::-1]
    for i, c in enumerate(lits):
        if i >= len(order):
            return FALSE
        if isinstance(order[i], str):
            if order[i] != c:
                return FALSE
            continue
        p = order[i]
        I.probes.add((p.label, "startswith" if start else "endswith", lit))
        if p.has("fresh"):
            return FALSE
        if p.has("digits") and c not in _DIGITS:
            return FALSE
        if p.has("word") and not c.isalnum():
            return FALSE
        return fresh_bool("affix")
    return TRUE


def _split_items(I, st, v, sep, maxsplit, right=False):
    """Split an item sequence; returns list of values or None if unknown."""
    items = _char_items(v)
    pieces = [[]]
    n = 0
    if right and maxsplit >= 0:
        # split from the right: reverse everything
        items = list(reversed(items))
        rsep = sep[::-1] if sep else sep
    else:
        rsep = sep
    i = 0
    ws = " \t\n\r\x0b\x0c"
    while i < len(items):
        c = items[i]
        if isinstance(c, Sym):
            if c.has("blank") and (sep is None or sep == " ") and (maxsplit < 0 or n < maxsplit):
                pieces[-1].append(Sym(c.label + "#1", "str", {"word", "fresh", "T"}))
                pieces.append([Sym(c.label + "#2", "str", {"word", "fresh", "T"})])
                n += 1
                i += 1
                continue
            if not (safe_hole(c) or c.has("blank") or c.has("fresh")):
                return None
            if sep:
                I.probes.add((c.label, "split", sep))
            pieces[-1].append(c)
            i += 1
            continue
        if sep is None:
            if c in ws and (maxsplit < 0 or n < maxsplit):
                if pieces[-1]:
                    pieces.append([])
                    n += 1
                i += 1
                continue
            if c in ws and not pieces[-1]:
                i += 1
                continue
            pieces[-1].append(c)
            i += 1
            continue
        if (maxsplit < 0 or n < maxsplit) and all(isinstance(x, str) for x in items[i:i + len(sep)]) and "".join(items[i:i + len(sep)]) == rsep:
            pieces.append([])
            n += 1
            i += len(sep)
            continue
        pieces[-1].append(c)
        i += 1
    if right and maxsplit >= 0:
        pieces = [list(reversed(p)) for p in reversed(pieces)]
    if sep is None:
        pieces = [p for p in pieces if p]
        if maxsplit >= 0 and pieces and n >= maxsplit:
            last = mk_str(pieces[-1])
            r = _strip(_char_items(last), None, False, False, I)
            return [mk_str(p) for p in pieces[:-1]] + [r]
    return [mk_str(p) for p in pieces]


def _mk_split(name, right):
    @strm(name)
    def f(I, st, args, kw):
        sep = args[1] if len(args) > 1 else kw.get("sep", NONE)
        mx = args[2] if len(args) > 2 else kw.get("maxsplit", Const(-1))
        v = args[0]
        if not isinstance(sep, Const) or not isinstance(mx, Const):
            return I.list_(st, [], Sym("piece(%r)" % (v,), "str"))
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            try:
                return I.list_(st, [Const(x) for x in getattr(v.v, name)(sep.v, mx.v)])
            except (ValueError, TypeError) as e:
                I.throw(st, type(e).__name__, str(e))
        if sep.v == "":
            I.throw(st, "ValueError", "empty separator")
        r = _split_items(I, st, v, sep.v, mx.v, right)
        if r is None:
            if sep.v is None:
                return I.list_(st, [], Sym("piece(%r)" % (v,), "str", {"T"}))
            return I.list_(st, [Sym("piece0(%r)" % (v,), "str")], Sym("piece(%r)" % (v,), "str"))
        return I.list_(st, r)


_mk_split("split", False)
_mk_split("rsplit", True)


@strm("partition")
def _partition(I, st, args, kw):
    return _part(I, st, args, False)


@strm("rpartition")
def _rpartition(I, st, args, kw):
    return _part(I, st, args, True)


def _part(I, st, args, right):
    v, sep = args
    if not (isinstance(sep, Const) and isinstance(sep.v, str)):
        return I.tuple_(st, [Sym("part@%d" % next(_ids), "str") for _i in range(3)])
    if not sep.v:
        I.throw(st, "ValueError", "empty separator")
    r = _split_items(I, st, v, sep.v, 1, right)
    if r is None:
        return I.tuple_(st, [Sym("part@%d" % next(_ids), "str"), Union([EMPTY, sep]), Sym("part@%d" % next(_ids), "str")])
    if len(r) == 2:
        return I.tuple_(st, [r[0], sep, r[1]])
    return I.tuple_(st, [EMPTY, EMPTY, r[0]] if right else [r[0], EMPTY, EMPTY])


@strm("splitlines")
def _splitlines(I, st, args, kw):
    v = args[0]
    keep = args[1] if len(args) > 1 else kw.get("keepends", FALSE)
    k = bool(const_of(keep, False))
    if isinstance(v, Const):
        return I.list_(st, [Const(x) for x in v.v.splitlines(k)])
    pieces = []
    cur = []
    for c in _char_items(v):
        if isinstance(c, Sym) and not (safe_hole(c) or c.has("blank") or c.has("line") or c.has("fresh")):
            return I.list_(st, [], Sym("line(%r)" % (v,), "str"))
        if c == "\n":
            if k:
                cur.append(c)
            pieces.append(cur)
            cur = []
        else:
            cur.append(c)
    if cur:
        pieces.append(cur)
    return I.list_(st, [mk_str(p) for p in pieces])


@strm("join")
def _join(I, st, args, kw):
    sep, seq = args[0], args[1]
    if isinstance(sep, Top):
        return Top("join")
    if isinstance(seq, Top) or isinstance(seq, Sym) and seq.ty == "any":
        return Top("join", frags_of(seq) | frags_of(sep))
    if isinstance(seq, Union):
        return I.split(st, seq, lambda s, a: _join(I, s, [sep, a], kw))
    if sep == EMPTY and (isinstance(seq, Tmpl) or isinstance(seq, Sym) and seq.ty == "str" or isinstance(seq, Const) and isinstance(seq.v, str)):
        return seq
    items, rest = I.iterate(st, seq)
    fr = frags_of(sep)
    unk = rest is not None
    acc = EMPTY
    for i, x in enumerate(items):
        fr |= frags_of(x)
        if isinstance(x, Undef) or isinstance(x, Union) and UNDEF in x.alts:
            unk = True
            continue
        for a in alts(x):
            if isinstance(a, Const) and not isinstance(a.v, (str, bytes)) or isinstance(a, Ref) or isinstance(a, Sym) and a.ty in ("int", "bool"):
                if isinstance(x, Union):
                    I.may_throw(st, "TypeError", "sequence item: expected str instance")
                else:
                    I.throw(st, "TypeError", "sequence item %d: expected str instance, %s found" % (i, I.type_name(st, a)))
        if unk:
            continue
        if i:
            acc = I.concat(st, acc, sep)
        acc = I.concat(st, acc, x)
        if acc is None:
            return Top("join", fr)
    if unk:
        if rest is not None:
            fr |= frags_of(rest)
        return Top("join of unknown list", fr)
    if isinstance(sep, Const) and isinstance(sep.v, bytes) and isinstance(acc, Const) and acc.v == "":
        return Const(b"")
    return acc


@strm("replace")
def _replace(I, st, args, kw):
    v, a, b = args[:3]
    cnt = const_of(args[3]) if len(args) > 3 else -1
    pb = sparts(b)
    if not (isinstance(a, Const) and isinstance(a.v, str)) or pb is None:
        return Top("replace", frags_of(v))
    out = []
    for p in sparts(v):
        if isinstance(p, str):
            pieces = p.split(a.v) if cnt < 0 else p.split(a.v, cnt)
            for i, x in enumerate(pieces):
                if i:
                    out.extend(pb)
                out.append(x)
        else:
            I.probes.add((p.label, "contains", a.v))
            if p.has("blank") and a.v == " ":
                out.append(Sym("replaced(%s)" % p.label, "str", {"word", "fresh", "T"}))
                continue
            if not (safe_hole(p) or p.has("blank") or p.has("fresh")):
                return Sym("replace(%r)" % (v,), "str")
            out.append(p)
    return mk_str(out)


def _mk_case(name):
    @strm(name)
    def f(I, st, args, kw):
        out = []
        for p in sparts(args[0]):
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif p.has("digits") or p.has("lower") and name == "lower" or p.label.startswith(name + "("):
                out.append(p)
            else:
                I.probes.add((p.label, "case", name))
                out.append(Sym("%s(%s)" % (name, p.label), "str", p.facts))
        return mk_str(out)


for _n in ("lower", "upper", "title", "capitalize", "swapcase", "casefold"):
    _mk_case(_n)


def _mk_is(name):
    @strm(name)
    def f(I, st, args, kw):
        v = args[0]
        ps = sparts(v)
        res = []
        for p in ps:
            if isinstance(p, str):
                res.append(getattr(p, name)() if name not in ("isupper", "islower", "istitle") else None)
            elif name in ("isdigit", "isdecimal", "isnumeric"):
                I.probes.add((p.label, "isdigit", ""))
                res.append(True if p.has("digits") else False if p.has("fresh") or p.has("blank") else None)
            elif name == "isspace":
                res.append(False if truth(p) and (safe_hole(p) or p.has("blank") or p.has("fresh")) else None)
            elif name == "isalnum":
                res.append(True if safe_hole(p) else False if p.has("blank") else None)
            elif name == "isalpha":
                res.append(False if p.has("digits") or p.has("blank") else None)
            else:
                res.append(None)
        if any(r is False for r in res):
            return FALSE
        if res and all(r is True for r in res):
            return TRUE
        return fresh_bool(name)


for _n in ("isdigit", "isdecimal", "isnumeric", "isspace", "isalnum", "isalpha", "isupper", "islower", "isidentifier", "isprintable", "isascii"):
    _mk_is(_n)


def _mk_find(name):
    @strm(name)
    def f(I, st, args, kw):
        v, x = args[0], args[1]
        if isinstance(x, Const) and isinstance(x.v, str) and len(args) == 2:
            items = _char_items(v)
            if all(isinstance(c, str) or safe_hole(c) or c.has("fresh") or c.has("blank") and x.v != " " for c in items):
                n = len(x.v)
                hits = [i for i in range(len(items) - n + 1) if all(isinstance(c, str) for c in items[i:i + n]) and "".join(items[i:i + n]) == x.v]
                for c in items:
                    if isinstance(c, Sym):
                        I.probes.add((c.label, "split", x.v))
                if name == "count":
                    return Const(len(hits))
                if not hits:
                    if name in ("find", "rfind"):
                        return Const(-1)
                    I.throw(st, "ValueError", "substring not found")
                h = hits[0] if name in ("find", "index") else hits[-1]
                if all(isinstance(c, str) for c in items[:h]):
                    return Const(h)
                return Sym("pos(%r,%r)" % (v, x.v), "int", {"pos", "T"})
        if name in ("index", "rindex"):
            I.may_throw(st, "ValueError", "substring not found")
        return Sym("%s@%d" % (name, next(_ids)), "int")


for _n in ("find", "rfind", "index", "rindex", "count"):
    _mk_find(_n)


@strm("encode")
def _encode(I, st, args, kw):
    v = args[0]
    enc = const_of(args[1], "utf-8") if len(args) > 1 else "utf-8"
    if isinstance(v, Const) and isinstance(v.v, str):
        try:
            return Const(v.v.encode(enc))
        except (UnicodeError, LookupError):
            I.throw(st, "UnicodeEncodeError", "codec")
    if I.prog.faults and not all(isinstance(p, str) or safe_hole(p) or p.has("blank") for p in (sparts(v) or ())):
        I.fault(st, "UnicodeEncodeError", "codec can't encode")
    return v


@strm("decode")
def _decode(I, st, args, kw):
    if I.prog.faults and not all(isinstance(p, str) or safe_hole(p) or p.has("blank") for p in (sparts(args[0]) or ())):
        I.fault(st, "UnicodeDecodeError", "codec can't decode")
    return args[0]


@strm("format")
def _format(I, st, args, kw):
    v = args[0]
    if not isinstance(v, Const):
        return Top("format", frags_of(v))
    out = EMPTY
    auto = 0
    try:
        toks = list(_string.Formatter().parse(v.v))
    except ValueError as e:
        I.throw(st, "ValueError", str(e))
    for lit, field, spec, conv in toks:
        out = I.concat(st, out, Const(lit))
        if field is None:
            continue
        base = re.match(r"[^.\[]*", field).group(0)
        tail = field[len(base):]
        if base == "":
            base = str(auto)
            auto += 1
        if base.isdigit():
            if int(base) + 1 >= len(args):
                I.throw(st, "IndexError", "Replacement index out of range")
            x = args[int(base) + 1]
        else:
            if base not in kw:
                I.throw(st, "KeyError", base)
            x = kw[base]
        while tail:
            m = re.match(r"\.(\w+)|\[([^\]]*)\]", tail)
            if m is None:
                return Top("format")
            x = I.getattr_(st, x, m.group(1)) if m.group(1) else I.getitem(st, x, Const(int(m.group(2)) if m.group(2).isdigit() else m.group(2)))
            tail = tail[m.end():]
        if conv == "r":
            x = repr_(I, st, x)
        elif spec:
            x = I.format_spec(st, x, Const(spec))
        else:
            x = str_(I, st, x)
        out = I.concat(st, out, x)
        if out is None:
            return Top("format")
    return out


@strm("format_map")
def _format_map(I, st, args, kw):
    o = I.obj(st, args[1])
    if o is None or o.kind != "dict":
        return Top("format_map")
    return _format(I, st, [args[0]], {k.v: v for k, v in o.items.items() if isinstance(k, Const)})


for _n in ("ljust", "rjust", "center", "zfill", "expandtabs", "translate"):
    def _mk(n):
        @strm(n)
        def f(I, st, args, kw):
            return Top(n, frags_of(args[0]))
    _mk(_n)


@strm("removeprefix")
def _removeprefix(I, st, args, kw):
    t = I.truth(st, _affix(I, st, args, True))
    if t is False:
        return args[0]
    if t is True and isinstance(args[1], Const):
        return str_getitem(I, st, args[0], Wrap("slice", Const(len(args[1].v)), NONE, NONE))
    return Sym("removeprefix@%d" % next(_ids), "str")


@strm("removesuffix")
def _removesuffix(I, st, args, kw):
    t = I.truth(st, _affix(I, st, args, False))
    if t is False or isinstance(args[1], Const) and args[1].v == "":
        return args[0]
    if t is True and isinstance(args[1], Const):
        return str_getitem(I, st, args[0], Wrap("slice", NONE, Const(-len(args[1].v)), NONE))
    return Sym("removesuffix@%d" % next(_ids), "str")


# ---------------------------------------------------------------- containers

LIST = {}
DICT = {}
SET = {}


def meth(table, name):
    def deco(fn):
        table[name] = Native(name, fn)
        return fn
    return deco


def _seq_join(o):
    r = o.rest
    for x in o.items:
        if isinstance(x, Undef):
            continue
        r = x if r is None else join(r, x)
    return r


@meth(LIST, "append")
def _append(I, st, args, kw):
    I.list_extend(st, args[0], [args[1]], None)
    return NONE


@meth(LIST, "extend")
def _extend(I, st, args, kw):
    items, rest = I.iterate(st, args[1])
    I.list_extend(st, args[0], items, rest)
    return NONE


@meth(LIST, "insert")
def _insert(I, st, args, kw):
    o = st.w(args[0])
    i = args[1]
    if isinstance(i, Const) and isinstance(i.v, int) and (o.rest is None or 0 <= i.v <= len(o.items)):
        l = list(o.items)
        l.insert(i.v, args[2])
        o.items = tuple(l)
    else:
        o.rest = args[2] if o.rest is None else join(o.rest, args[2])
        o.rest = join(o.rest, _seq_join(o)) if o.items else o.rest
        o.items = ()
    return NONE


@meth(LIST, "pop")
def _pop(I, st, args, kw):
    o = st.w(args[0])
    i = const_of(args[1]) if len(args) > 1 else -1
    if o.rest is None and isinstance(i, int):
        l = list(o.items)
        if not -len(l) <= i < len(l):
            I.throw(st, "IndexError", "pop from empty list")
        v = l.pop(i)
        o.items = tuple(l)
        return v
    if i == 0 and o.items:
        v = o.items[0]
        o.items = o.items[1:]
        return v
    r = _seq_join(o)
    I.may_throw(st, "IndexError", "pop from empty list")
    o = st.w(args[0])
    o.items, o.rest = (), r
    return r if r is not None else Top("pop")


@meth(LIST, "remove")
def _remove(I, st, args, kw):
    o = st.get(args[0])
    unk = o.rest is not None
    for n, x in enumerate(o.items):
        t = I.truth(st, I.eq(st, x, args[1]))
        if t is True and not unk:
            w = st.w(args[0])
            w.items = w.items[:n] + w.items[n + 1:]
            return NONE
        if t is None:
            unk = True
    if not unk:
        I.throw(st, "ValueError", "list.remove(x): x not in list")
    I.may_throw(st, "ValueError", "list.remove(x): x not in list")
    w = st.w(args[0])
    w.rest = _seq_join(w)
    w.items = ()
    return NONE


@meth(LIST, "index")
def _index(I, st, args, kw):
    o = st.get(args[0])
    for n, x in enumerate(o.items):
        t = I.truth(st, I.eq(st, x, args[1]))
        if t is True:
            return Const(n)
        if t is None:
            I.may_throw(st, "ValueError")
            return Sym("index@%d" % next(_ids), "int")
    if o.rest is None:
        I.throw(st, "ValueError", "not in list")
    I.may_throw(st, "ValueError")
    return Sym("index@%d" % next(_ids), "int")


@meth(LIST, "count")
def _count(I, st, args, kw):
    o = st.get(args[0])
    if o.rest is None:
        ts = [I.truth(st, I.eq(st, x, args[1])) for x in o.items]
        if None not in ts:
            return Const(ts.count(True))
    return Sym("count@%d" % next(_ids), "int")


def _sortable(vals):
    ks = []
    for v in vals:
        if not isinstance(v, Const):
            return None
        ks.append(v.v)
    return ks


def _do_sort(I, st, items, kw):
    key = kw.get("key")
    rev = I.truth(st, kw.get("reverse", FALSE)) is True
    if key is not None and not (isinstance(key, Const) and key.v is None):
        ks = [I.call(st, key, [x], {}) for x in items]
    else:
        ks = list(items)
    kk = []
    for k in ks:
        o = I.obj(st, k)
        if isinstance(k, Const):
            kk.append(k.v)
        elif o is not None and o.kind == "tuple" and all(isinstance(x, Const) for x in o.items):
            kk.append(tuple(x.v for x in o.items))
        else:
            return list(items)        # order unknown: element set is what we keep
    try:
        order = sorted(range(len(items)), key=lambda i: kk[i], reverse=rev)
    except TypeError:
        I.throw(st, "TypeError", "unorderable types")
    return [items[i] for i in order]


@meth(LIST, "sort")
def _sort(I, st, args, kw):
    o = st.get(args[0])
    if o.rest is None:
        r = _do_sort(I, st, list(o.items), kw)
        st.w(args[0]).items = tuple(r)
    return NONE


@meth(LIST, "reverse")
def _reverse(I, st, args, kw):
    o = st.w(args[0])
    if o.rest is None:
        o.items = tuple(reversed(o.items))
    return NONE


@meth(LIST, "copy")
def _lcopy(I, st, args, kw):
    o = st.get(args[0])
    return st.new(o.kind, o.cls, items=o.items, rest=o.rest)


@meth(LIST, "clear")
def _lclear(I, st, args, kw):
    o = st.w(args[0])
    o.items = ()
    o.rest = None
    return NONE


@meth(DICT, "get")
def _dget(I, st, args, kw):
    d = args[2] if len(args) > 2 else kw.get("default", NONE)
    o = st.get(args[0])
    k = args[1]
    if isinstance(k, Union):
        return I.split(st, k, lambda s, a: _dget(I, s, [args[0], a] + args[2:], kw))
    if k in o.items:
        v = o.items[k]
        if isinstance(v, Union) and UNDEF in v.alts:
            return mk_union([a for a in v.alts if a is not UNDEF] + list(alts(d)))
        return v
    cand = []
    for y, v in o.items.items():
        t = I.truth(st, I.eq(st, y, k))
        if t is True:
            return v
        if t is None:
            cand.extend(a for a in alts(v) if a is not UNDEF)
    if o.rest is not None:
        cand.extend(alts(o.rest))
    return mk_union(cand + list(alts(d)))


@meth(DICT, "items")
def _ditems(I, st, args, kw):
    o = st.get(args[0])
    out = []
    rest = None
    for k, v in o.items.items():
        if isinstance(v, Union) and UNDEF in v.alts:
            t = I.tuple_(st, [k, mk_union([a for a in v.alts if a is not UNDEF])])
            rest = t if rest is None else join(rest, t)
        else:
            out.append(I.tuple_(st, [k, v]))
    if o.rest is not None:
        t = I.tuple_(st, [Top("key"), o.rest])
        rest = t if rest is None else join(rest, t)
    return I.list_(st, out, rest)


@meth(DICT, "keys")
def _dkeys(I, st, args, kw):
    o = st.get(args[0])
    sure = [k for k, v in o.items.items() if not (isinstance(v, Union) and UNDEF in v.alts)]
    rest = None
    for k, v in o.items.items():
        if isinstance(v, Union) and UNDEF in v.alts:
            rest = k if rest is None else join(rest, k)
    if o.rest is not None:
        rest = Top("key")
    return I.list_(st, sure, rest)


@meth(DICT, "values")
def _dvalues(I, st, args, kw):
    o = st.get(args[0])
    return I.list_(st, [v for v in o.items.values() if not isinstance(v, Undef)], o.rest)


@meth(DICT, "pop")
def _dpop(I, st, args, kw):
    o = st.get(args[0])
    k = args[1]
    if k in o.items:
        v = o.items[k]
        del st.w(args[0]).items[k]
        if isinstance(v, Union) and UNDEF in v.alts:
            v = mk_union([a for a in v.alts if a is not UNDEF])
            if len(args) > 2:
                return join(v, args[2])
            I.may_throw(st, "KeyError")
        return v
    if o.rest is not None:
        if len(args) > 2:
            return join(o.rest, args[2])
        I.may_throw(st, "KeyError")
        return o.rest
    if len(args) > 2:
        return args[2]
    I.throw(st, "KeyError", k)


@meth(DICT, "update")
def _dupdate(I, st, args, kw):
    if len(args) > 1:
        so = I.obj(st, args[1])
        if so is not None and so.kind == "dict":
            w = st.w(args[0])
            for k, v in so.items.items():
                if isinstance(v, Union) and UNDEF in v.alts:
                    v = join(w.items.get(k, UNDEF), mk_union([a for a in v.alts if a is not UNDEF]))
                w.items[k] = v
            if so.rest is not None:
                w.rest = so.rest if w.rest is None else join(w.rest, so.rest)
        elif so is not None and so.kind in ("list", "tuple"):
            for x in so.items:
                xi, _r = I.iterate(st, x)
                if len(xi) == 2:
                    I.setitem(st, args[0], xi[0], xi[1])
        else:
            st.w(args[0]).rest = Top("update")
    for k, v in kw.items():
        st.w(args[0]).items[Const(k)] = v
    return NONE


@meth(DICT, "setdefault")
def _dsetdefault(I, st, args, kw):
    o = st.get(args[0])
    d = args[2] if len(args) > 2 else NONE
    if args[1] in o.items:
        return o.items[args[1]]
    if o.rest is not None:
        return join(o.rest, d)
    st.w(args[0]).items[args[1]] = d
    return d


@meth(DICT, "copy")
def _dcopy(I, st, args, kw):
    o = st.get(args[0])
    return st.new("dict", o.cls, items=dict(o.items), rest=o.rest)


@meth(DICT, "clear")
def _dclear(I, st, args, kw):
    o = st.w(args[0])
    o.items = {}
    o.rest = None
    return NONE


@meth(SET, "add")
def _sadd(I, st, args, kw):
    o = st.w(args[0])
    if args[1] not in o.items:
        o.items = o.items + (args[1],)
    return NONE


@meth(SET, "discard")
def _sdiscard(I, st, args, kw):
    o = st.get(args[0])
    new = []
    rest = o.rest
    for x in o.items:
        t = I.truth(st, I.eq(st, x, args[1]))
        if t is False:
            new.append(x)
        elif t is None:
            rest = x if rest is None else join(rest, x)
    w = st.w(args[0])
    w.items, w.rest = tuple(new), rest
    return NONE


@meth(SET, "remove")
def _sremove(I, st, args, kw):
    t = I.truth(st, I.contains(st, args[0], args[1]))
    if t is False:
        I.throw(st, "KeyError")
    if t is None:
        I.may_throw(st, "KeyError")
    return _sdiscard(I, st, args, kw)


def _mk_setop(name, op, inplace):
    @meth(SET, name)
    def f(I, st, args, kw):
        cur = args[0]
        if not inplace:
            o = st.get(cur)
            cur = I.set_(st, o.items, o.rest)
        for a in args[1:]:
            items, rest = I.iterate(st, a)
            tmp = I.set_(st, items, rest)
            r = I.set_op(st, op, st.get(cur), st.get(tmp))
            ro = st.get(r)
            w = st.w(cur)
            w.items, w.rest = ro.items, ro.rest
        return NONE if inplace else cur


for _n, _o in (("union", "|"), ("difference", "-"), ("intersection", "&"), ("symmetric_difference", "^")):
    _mk_setop(_n, _o, False)
for _n, _o in (("update", "|"), ("difference_update", "-"), ("intersection_update", "&")):
    _mk_setop(_n, _o, True)
SET["copy"] = LIST["copy"]
SET["clear"] = LIST["clear"]
SET["pop"] = LIST["pop"]


@meth(SET, "issubset")
def _issubset(I, st, args, kw):
    o = st.get(args[0])
    ts = [I.truth(st, I.contains(st, args[1], x)) for x in o.items]
    if any(t is False for t in ts):
        return FALSE
    if None in ts or o.rest is not None:
        return fresh_bool("subset")
    return TRUE


@meth(SET, "issuperset")
def _issuperset(I, st, args, kw):
    items, rest = I.iterate(st, args[1])
    ts = [I.truth(st, I.contains(st, args[0], x)) for x in items]
    if any(t is False for t in ts):
        return FALSE
    if None in ts or rest is not None:
        return fresh_bool("superset")
    return TRUE


@meth(SET, "isdisjoint")
def _isdisjoint(I, st, args, kw):
    items, rest = I.iterate(st, args[1])
    ts = [I.truth(st, I.contains(st, args[0], x)) for x in items]
    if any(t is True for t in ts):
        return FALSE
    if None in ts or rest is not None:
        return fresh_bool("disjoint")
    return TRUE


# ---------------------------------------------------------------- builtins

def isinstance_(I, st, v, c):
    b = I.prog.b
    if isinstance(v, Union):
        rs = set(I.truth(st, isinstance_(I, st, a, c)) for a in v.alts)
        if len(rs) == 1 and None not in rs:
            return B(rs.pop())
        return fresh_bool("isinstance")
    if isinstance(v, Top) or isinstance(v, Sym) and v.ty == "any":
        return fresh_bool("isinstance")
    o = I.obj(st, c)
    if o is not None and o.kind == "tuple":
        rs = [I.truth(st, isinstance_(I, st, v, x)) for x in o.items]
        if any(r is True for r in rs):
            return TRUE
        if all(r is False for r in rs):
            return FALSE
        return fresh_bool("isinstance")
    if not isinstance(c, Cls):
        return fresh_bool("isinstance")
    k = I.class_of(st, v)
    if k is None:
        return fresh_bool("isinstance")
    if k.issub(c):
        return TRUE
    if getattr(k, "opaque", False):
        return fresh_bool("isinstance")
    if k is b.iterator or k is b.function:
        return fresh_bool("isinstance")
    return FALSE


BI = {}


def bi(name):
    def deco(fn):
        BI[name] = Native(name, fn)
        return fn
    return deco


@bi("isinstance")
def _b_isinstance(I, st, a, kw):
    return isinstance_(I, st, a[0], a[1])


@bi("issubclass")
def _b_issubclass(I, st, a, kw):
    o = I.obj(st, a[1])
    cs = list(o.items) if o is not None and o.kind == "tuple" else [a[1]]
    if isinstance(a[0], Cls) and all(isinstance(c, Cls) for c in cs):
        return B(any(a[0].issub(c) for c in cs))
    return fresh_bool("issubclass")


@bi("len")
def _b_len(I, st, a, kw):
    v = a[0]
    if isinstance(v, Union):
        return I.split(st, v, lambda s, x: _b_len(I, s, [x], kw))
    if isinstance(v, Const):
        if isinstance(v.v, (str, bytes)):
            return Const(len(v.v))
        I.throw(st, "TypeError", "object has no len()")
    o = I.obj(st, v)
    if o is not None:
        if o.kind in ("list", "tuple", "set"):
            if o.rest is None and not any(isinstance(x, Undef) or isinstance(x, Union) and UNDEF in x.alts for x in o.items):
                return Const(len(o.items))
            return Sym("len(%r)" % (v,), "int", {"T", "pos"} if o.items and o.rest is None else ())
        if o.kind == "dict":
            if o.rest is None and not any(isinstance(x, Union) and UNDEF in x.alts for x in o.items.values()):
                return Const(len(o.items))
            return Sym("len(%r)" % (v,), "int")
        f = I.find_cls_attr(st, o.cls, "__len__") if o.cls else None
        if f is not None:
            return I.call(st, Bound(v, f), [], {})
        if o.kind == "inst" and getattr(o.cls, "opaque", False):
            return Sym("len@%d" % next(_ids), "int")
        I.throw(st, "TypeError", "object of type %r has no len()" % (o.cls.name if o.cls else "?"))
    if isinstance(v, Sym) and v.ty in ("int", "bool"):
        I.throw(st, "TypeError", "object has no len()")
    t = truth(v) if isinstance(v, (Sym, Tmpl)) else None
    lbl = "len(%r)" % (v,)
    if isinstance(v, Sym):
        I.probes.add((v.label, "len", ""))
    return Sym(lbl, "int", {"T", "pos"} if t else ())


@bi("hasattr")
def _b_hasattr(I, st, a, kw):
    n = const_of(a[1])
    if not isinstance(n, str):
        return fresh_bool("hasattr")
    rs = set()
    for x in alts(a[0]):
        if isinstance(x, Top) or isinstance(x, Sym) and x.ty == "any":
            rs.add(None)
            continue
        s2 = st.copy()
        v, alive, excs = I.guarded(s2, lambda s: I.getattr0(s, x, n) or UNDEF)
        if not alive:
            # a property or __getattr__ that raised
            rs.add(False if excs and all(e.cls is not None and e.cls.issub(I.prog.exc("AttributeError")) for e, _s in excs) else None)
            if excs and not all(e.cls is not None and e.cls.issub(I.prog.exc("AttributeError")) for e, _s in excs):
                I.sink.extend(excs)
        elif v is UNDEF:
            rs.add(False)
        elif isinstance(v, Union) and UNDEF in v.alts:
            rs.add(None)
        elif any(e.cls is not None and e.cls.issub(I.prog.exc("AttributeError")) for e, _s in excs):
            rs.add(None)
        else:
            rs.add(True)
    if len(rs) == 1 and None not in rs:
        return B(rs.pop())
    return fresh_bool("hasattr")


@bi("getattr")
def _b_getattr(I, st, a, kw):
    n = a[1]
    if isinstance(n, Union):
        return I.split(st, n, lambda s, x: _b_getattr(I, s, [a[0], x] + a[2:], kw))
    if not (isinstance(n, Const) and isinstance(n.v, str)):
        I.imprecise(st, "getattr of unknown name")
        return Top("getattr unknown")
    if len(a) > 2:
        s2 = st.copy()
        v, alive, excs = I.guarded(s2, lambda s: I.getattr_(s, a[0], n.v, a[2], True))
        ae = I.prog.exc("AttributeError")
        outs, vals = [], []
        if alive:
            outs.append(s2)
            vals.extend(alts(v))
        for e, es in excs:
            if e.cls is not None and e.cls.issub(ae):
                outs.append(es)
                vals.extend(alts(a[2]))
            else:
                I.sink.append((e, es))
        if not outs:
            raise Dead()
        st.assign(join_states(outs))
        return mk_union(vals)
    return I.getattr_(st, a[0], n.v)


@bi("setattr")
def _b_setattr(I, st, a, kw):
    n = a[1]
    if isinstance(n, Union):
        return I.split(st, n, lambda s, x: _b_setattr(I, s, [a[0], x, a[2]], kw))
    if not (isinstance(n, Const) and isinstance(n.v, str)):
        o = I.obj(st, a[0])
        I.imprecise(st, "setattr of unknown name")
        if o is not None and o.kind == "inst":
            w = st.w(a[0])
            for k in list(w.d):
                w.d[k] = join(w.d[k], a[2])
        return NONE
    I.setattr_(st, a[0], n.v, a[2])
    return NONE


@bi("delattr")
def _b_delattr(I, st, a, kw):
    n = const_of(a[1])
    if isinstance(n, str):
        I.delattr_(st, a[0], n)
    return NONE


@bi("callable")
def _b_callable(I, st, a, kw):
    rs = set()
    for x in alts(a[0]):
        if isinstance(x, (Func, Native, Bound, Cls)):
            rs.add(True)
        elif isinstance(x, Ref):
            rs.add(I.find_cls_attr(st, st.get(x).cls, "__call__") is not None if st.get(x).cls else False)
        elif isinstance(x, (Const, Tmpl)):
            rs.add(False)
        else:
            rs.add(None)
    return B(rs.pop()) if len(rs) == 1 and None not in rs else fresh_bool("callable")


def _to_int(I, st, a, kw):
    if not a:
        return Const(0)
    v = a[0]
    if isinstance(v, Union):
        return I.split(st, v, lambda s, x: _to_int(I, s, [x] + a[1:], kw))
    if isinstance(v, Const):
        try:
            base = const_of(a[1], 10) if len(a) > 1 else const_of(kw.get("base"), None)
            if base is not None and len(a) + len(kw) > 1:
                return Const(int(v.v, base))
            return Const(int(v.v))
        except ValueError as e:
            I.throw(st, "ValueError", str(e))
        except TypeError as e:
            I.throw(st, "TypeError", str(e))
    if isinstance(v, Sym):
        if v.ty in ("int", "bool"):
            return v
        if v.ty == "float":
            return Sym("int(%s)" % v.label, "int")
        if v.ty == "str":
            I.probes.add((v.label, "int", ""))
            if v.has("digits"):
                return Sym(v.label, "int", v.facts & {"digits", "pos", "T", "fresh"} if v.has("pos") else v.facts & {"digits", "fresh"})
            if v.has("word") or v.has("fresh") or v.has("blank"):
                I.throw(st, "ValueError", "invalid literal for int()")
            I.may_throw(st, "ValueError", "invalid literal for int()")
            return Sym("int(%s)" % v.label, "int")
        I.may_throw(st, "ValueError", "invalid literal for int()")
        I.may_throw(st, "TypeError", "int() argument must be a string")
        return Sym("int(%s)" % v.label, "int")
    if isinstance(v, Tmpl):
        if all(isinstance(p, str) and p.isdigit() or isinstance(p, Sym) and p.has("digits") for p in v.parts):
            return Sym("int(%r)" % (v,), "int", {"digits"})
        if len(v.parts) == 2 and isinstance(v.parts[0], str) and v.parts[0] in ("-", "+", "0") and isinstance(v.parts[1], Sym) and v.parts[1].has("digits"):
            return Sym("int(%r)" % (v,), "int")
        if all(isinstance(p, str) or safe_hole(p) or p.has("fresh") for p in v.parts):
            I.throw(st, "ValueError", "invalid literal for int()")
        I.may_throw(st, "ValueError", "invalid literal for int()")
        return Sym("int(%r)" % (v,), "int")
    if isinstance(v, Top):
        I.may_throw(st, "ValueError", "invalid literal for int()")
        return Sym("int@%d" % next(_ids), "int")
    I.throw(st, "TypeError", "int() argument must be a string, a bytes-like object or a real number")


def _to_float(I, st, a, kw):
    if a and isinstance(a[0], Const):
        try:
            return Const(float(a[0].v))
        except (ValueError, TypeError) as e:
            I.throw(st, type(e).__name__, str(e))
    if a and isinstance(a[0], Sym) and a[0].has("digits"):
        return Sym("float(%s)" % a[0].label, "float")
    if a and isinstance(a[0], Sym) and a[0].ty == "str" and (a[0].has("word") or a[0].has("fresh")):
        I.throw(st, "ValueError", "could not convert string to float")
    I.may_throw(st, "ValueError", "could not convert string to float")
    return Sym("float@%d" % next(_ids), "float")


def _to_str(I, st, a, kw):
    return str_(I, st, a[0]) if a else EMPTY


def _to_bool(I, st, a, kw):
    if not a:
        return FALSE
    t = I.truth(st, a[0])
    return B(t) if t is not None else fresh_bool("bool")


def _to_list(kind):
    def f(I, st, a, kw):
        cls = getattr(I.prog.b, kind)
        if not a:
            return st.new(kind, cls, items=())
        v = a[0]
        if isinstance(v, Sym) and v.ty == "any":
            return st.new(kind, cls, items=(), rest=Top("list of any"))
        items, rest = I.iterate(st, v)
        if kind == "set":
            return I.set_(st, items, rest)
        return st.new(kind, cls, items=tuple(items), rest=rest)
    return f


def _to_dict(I, st, a, kw):
    r = I.dict_(st)
    if a:
        _dupdate(I, st, [r, a[0]], {})
    for k, v in kw.items():
        st.w(r).items[Const(k)] = v
    return r


@bi("range")
def _b_range(I, st, a, kw):
    if all(isinstance(x, Const) for x in a):
        r = range(*[x.v for x in a])
        if len(r) <= 300:
            return I.list_(st, [Const(i) for i in r])
    return I.list_(st, [], Sym("i@%d" % next(_ids), "int"))


@bi("enumerate")
def _b_enumerate(I, st, a, kw):
    start = const_of(a[1] if len(a) > 1 else kw.get("start", Const(0)), 0)
    items, rest = I.iterate(st, a[0])
    out = [I.tuple_(st, [Const(i + start), x]) for i, x in enumerate(items)]
    r = I.tuple_(st, [Sym("i@%d" % next(_ids), "int"), rest]) if rest is not None else None
    return _mk_iter(I, st, out, r)


def _mk_iter(I, st, items, rest):
    l = I.list_(st, items, rest)
    return st.new("iter", I.prog.b.iterator, d={"src": l}, items=0)


@bi("zip")
def _b_zip(I, st, a, kw):
    if len(a) > 1 and isinstance(a[0], Ref) and all(x == a[0] for x in a) and st.get(a[0]).kind == "iter":
        items, rest = I.iterate(st, a[0])
        k = len(a)
        out = [I.tuple_(st, items[i:i + k]) for i in range(0, len(items) - k + 1, k)]
        r = None
        if rest is not None:
            for x in items[len(out) * k:]:
                rest = join(rest, x)
            r = I.tuple_(st, [rest] * k)
        return _mk_iter(I, st, out, r)
    seqs = [I.iterate(st, x) for x in a]
    n = min([len(i) for i, r in seqs] or [0])
    out = [I.tuple_(st, [s[0][k] for s in seqs]) for k in range(n)]
    rest = None
    if seqs and all(len(i) > n or r is not None for i, r in seqs):
        cols = []
        for i, r in seqs:
            v = r
            for x in i[n:]:
                v = x if v is None else join(v, x)
            cols.append(v)
        rest = I.tuple_(st, cols)
    return _mk_iter(I, st, out, rest)


@bi("map")
def _b_map(I, st, a, kw):
    seqs = [I.iterate(st, x) for x in a[1:]]
    n = min([len(i) for i, r in seqs] or [0])
    out = [I.call(st, a[0], [s[0][k] for s in seqs], {}) for k in range(n)]
    rest = None
    if seqs and all(len(i) > n or r is not None for i, r in seqs):
        cols = []
        for i, r in seqs:
            v = r
            for x in i[n:]:
                v = x if v is None else join(v, x)
            cols.append(v)
        rest = I.call(st, a[0], cols, {})
    return _mk_iter(I, st, out, rest)


@bi("filter")
def _b_filter(I, st, a, kw):
    items, rest = I.iterate(st, a[1])
    out, r = [], rest
    for x in items:
        v = x if isinstance(a[0], Const) and a[0].v is None else I.call(st, a[0], [x], {})
        t = I.truth(st, v)
        if t is True and r is None:
            out.append(x)
        elif t is not False:
            r = x if r is None else join(r, x)
    return _mk_iter(I, st, out, r)


@bi("sorted")
def _b_sorted(I, st, a, kw):
    if isinstance(a[0], Sym) and a[0].ty == "any":
        return I.list_(st, [], Top("sorted any"))
    items, rest = I.iterate(st, a[0])
    if rest is None:
        items = _do_sort(I, st, items, kw)
    else:
        r = rest
        for x in items:
            r = join(r, x)
        items, rest = [], r
    return I.list_(st, items, rest)


@bi("reversed")
def _b_reversed(I, st, a, kw):
    items, rest = I.iterate(st, a[0])
    return _mk_iter(I, st, list(reversed(items)) if rest is None else [], rest if rest is None else _seq_join(HObj("list", items=tuple(items), rest=rest)))


def _anyall(isany):
    def f(I, st, a, kw):
        items, rest = I.iterate(st, a[0])
        unk = rest is not None
        for x in items:
            t = I.truth(st, x)
            if t is isany:
                return B(isany) if not unk or True else None
            if t is None:
                unk = True
        return fresh_bool("any") if unk else B(not isany)
    return f


BI["any"] = Native("any", _anyall(True))
BI["all"] = Native("all", _anyall(False))


def _minmax(name):
    def f(I, st, a, kw):
        if len(a) == 1:
            items, rest = I.iterate(st, a[0])
        else:
            items, rest = a, None
        if rest is None and all(isinstance(x, Const) for x in items) and "key" not in kw:
            if not items:
                if "default" in kw:
                    return kw["default"]
                I.throw(st, "ValueError", "%s() arg is an empty sequence" % name)
            try:
                return Const(getattr(_pyb, name)([x.v for x in items]))
            except TypeError:
                I.throw(st, "TypeError", "unorderable")
        r = rest
        for x in items:
            r = x if r is None else join(r, x)
        return r if r is not None else Top(name)
    return f


BI["min"] = Native("min", _minmax("min"))
BI["max"] = Native("max", _minmax("max"))


@bi("sum")
def _b_sum(I, st, a, kw):
    items, rest = I.iterate(st, a[0])
    if rest is None and all(isinstance(x, Const) for x in items):
        return Const(sum(x.v for x in items))
    return Sym("sum@%d" % next(_ids), "int")


@bi("abs")
def _b_abs(I, st, a, kw):
    return Const(abs(a[0].v)) if isinstance(a[0], Const) else Sym("abs@%d" % next(_ids), "int")


@bi("print")
def _b_print(I, st, a, kw):
    f = kw.get("file", NONE)
    st.event("print", tuple(str_(I, st, x) for x in a), f)
    return NONE


@bi("repr")
def _b_repr(I, st, a, kw):
    return repr_(I, st, a[0])


@bi("iter")
def _b_iter(I, st, a, kw):
    return I.get_iter(st, a[0])


@bi("next")
def _b_next(I, st, a, kw):
    v, stop = I.next_(st, a[0])
    if len(a) > 1:
        if v is None:
            return a[1]
        return join(v, a[1]) if stop is not None else v
    si = I.prog.exc("StopIteration")
    if stop is not None and v is not None:
        e = I.make_exc(stop, si)
        I.sink.append((ExcInfo(e, si, I.site(), True), stop))
    if v is None:
        I.throw(st, si)
    return v


@bi("id")
def _b_id(I, st, a, kw):
    return Sym("id@%d" % next(_ids), "int")


@bi("hash")
def _b_hash(I, st, a, kw):
    o = I.obj(st, a[0])
    if o is not None and o.kind == "inst":
        f = I.find_cls_attr(st, o.cls, "__hash__")
        if f is not None and not (isinstance(f, Const) and f.v is None):
            return I.call(st, Bound(a[0], f), [], {})
    if o is not None and o.kind in ("list", "dict", "set"):
        I.throw(st, "TypeError", "unhashable type")
    return Sym("hash@%d" % next(_ids), "int")


@bi("vars")
def _b_vars(I, st, a, kw):
    if not a:
        return Top("vars")
    v = a[0]
    if isinstance(v, Union):
        return I.split(st, v, lambda s, x: _b_vars(I, s, [x], kw))
    o = I.obj(st, v)
    if o is not None:
        return I.dict_(st, {Const(k): x for k, x in o.d.items()})
    if isinstance(v, Mod):
        return I.dict_(st, {Const(k): x for k, x in st.heap["mod:" + v.name].d.items()}) if "mod:" + v.name in st.heap else Top("vars")
    return Top("vars")


@bi("dir")
def _b_dir(I, st, a, kw):
    o = I.obj(st, a[0]) if a else None
    if o is None:
        return Top("dir")
    names = set(o.d)
    for c in o.cls.mro if o.cls else ():
        co = st.heap.get(c.addr)
        if co is not None:
            names |= set(co.d)
    return I.list_(st, [Const(n) for n in sorted(names)])


@bi("locals")
def _b_locals(I, st, a, kw):
    return Top("locals")


@bi("globals")
def _b_globals(I, st, a, kw):
    return Top("globals")


@bi("chr")
def _b_chr(I, st, a, kw):
    return Const(chr(a[0].v)) if isinstance(a[0], Const) else Top("chr")


@bi("ord")
def _b_ord(I, st, a, kw):
    return Const(ord(a[0].v)) if isinstance(a[0], Const) else Sym("ord@%d" % next(_ids), "int")


@bi("round")
def _b_round(I, st, a, kw):
    return Const(round(*[x.v for x in a])) if all(isinstance(x, Const) for x in a) else Sym("round@%d" % next(_ids), "int")


@bi("divmod")
def _b_divmod(I, st, a, kw):
    return I.tuple_(st, [I.binop(st, "//", a[0], a[1]), I.binop(st, "%", a[0], a[1])])


@bi("format")
def _b_format(I, st, a, kw):
    return I.format_spec(st, a[0], a[1] if len(a) > 1 else EMPTY)


@bi("property")
def _b_property(I, st, a, kw):
    a = list(a) + [None] * (3 - len(a))
    for i, k in enumerate(("fget", "fset", "fdel")):
        if k in kw:
            a[i] = kw[k]
    return Wrap("property", *a)


@bi("staticmethod")
def _b_static(I, st, a, kw):
    return Wrap("staticmethod", a[0])


@bi("classmethod")
def _b_classm(I, st, a, kw):
    return Wrap("classmethod", a[0])


@bi("input")
def _b_input(I, st, a, kw):
    return I.call(st, I.prog.ext["$input"]["fn"], a, kw)


@bi("slice")
def _b_slice(I, st, a, kw):
    a = list(a)
    if len(a) == 1:
        return Wrap("slice", NONE, a[0], NONE)
    return Wrap("slice", a[0], a[1], a[2] if len(a) > 2 else NONE)


@bi("__import__")
def _b_import(I, st, a, kw):
    n = const_of(a[0])
    if isinstance(n, str):
        I.prog.import_module(I, st, n)
        return Mod(n.split(".")[0])
    return Top("__import__")


# object / exception natives ------------------------------------------------

def _exc_init(I, st, a, kw):
    st.w(a[0]).d["args"] = I.tuple_(st, a[1:])
    return NONE


def _exc_str(I, st, a, kw):
    o = st.get(a[0])
    ar = I.obj(st, o.d.get("args"))
    if ar is None:
        return EMPTY
    if ar.rest is not None:
        return Top("exception text")
    if not ar.items:
        return EMPTY
    if len(ar.items) == 1:
        return str_(I, st, ar.items[0])
    return repr_(I, st, o.d["args"])


def _obj_setattr(I, st, a, kw):
    n = const_of(a[1])
    if not isinstance(n, str):
        I.imprecise(st, "__setattr__ of unknown name")
        return NONE
    v = a[0]
    o = I.obj(st, v)
    if o is not None and o.kind == "inst":
        raw = I.find_cls_attr(st, o.cls, n)
        if isinstance(raw, Wrap) and raw.kind == "property":
            if len(raw.a) > 1 and raw.a[1] is not None:
                I.call(st, raw.a[1], [v, a[2]], {})
                return NONE
            I.throw(st, "AttributeError", "can't set attribute")
        I.raw_setattr(st, v, n, a[2])
    return NONE


def _obj_getattribute(I, st, a, kw):
    n = const_of(a[1])
    v = a[0]
    o = I.obj(st, v)
    if o is None or not isinstance(n, str):
        return Top("getattribute")
    raw = I.find_cls_attr(st, o.cls, n)
    if isinstance(raw, Wrap) and raw.kind == "property":
        return I.bind(st, raw, v, o.cls)
    if n in o.d:
        r = o.d[n]
        if isinstance(r, Union) and UNDEF in r.alts:
            I.may_throw(st, "AttributeError", n)
            return mk_union([x for x in r.alts if x is not UNDEF])
        return r
    if n == "__class__":
        return o.cls
    if raw is not None:
        return I.bind(st, raw, v, o.cls)
    I.throw(st, "AttributeError", n)


OBJ = {
    "__init__": Native("object.__init__", lambda I, st, a, kw: NONE),
    "__setattr__": Native("object.__setattr__", _obj_setattr),
    "__getattribute__": Native("object.__getattribute__", _obj_getattribute),
    "__delattr__": Native("object.__delattr__", lambda I, st, a, kw: _b_delattr(I, st, a, kw)),
    "__str__": Native("object.__str__", lambda I, st, a, kw: Top("object str")),
    "__repr__": Native("object.__repr__", lambda I, st, a, kw: Top("object repr")),
    "__hash__": Native("object.__hash__", lambda I, st, a, kw: Sym("hash(%r)" % (a[0],), "int")),
    "__eq__": Native("object.__eq__", lambda I, st, a, kw: B(a[0] == a[1]) if isinstance(a[0], Ref) else fresh_bool("eq")),
    "__ne__": Native("object.__ne__", lambda I, st, a, kw: B(a[0] != a[1]) if isinstance(a[0], Ref) else fresh_bool("ne")),
    "__new__": Native("object.__new__", lambda I, st, a, kw: st.new("inst", a[0])),
    "__init_subclass__": Native("object.__init_subclass__", lambda I, st, a, kw: NONE),
}


def install(P):
    b = P.b
    b.object = Cls("object", [], "builtins")
    for n in ("type", "NoneType", "function", "iterator", "super", "module", "ellipsis"):
        setattr(b, n, Cls(n, [b.object], "builtins"))

    def nt(name, fn, base=None):
        c = Cls(name, [base or b.object], "builtins", native={"__new__": Native(name, lambda I, st, a, kw: fn(I, st, a[1:], kw))})
        setattr(b, name, c)
        return c
    nt("int", _to_int)
    nt("bool", _to_bool, b.int)
    b.bool.native = {"__new__": Native("bool", lambda I, st, a, kw: _to_bool(I, st, a[1:], kw))}
    nt("float", _to_float)
    nt("str", _to_str)
    nt("bytes", lambda I, st, a, kw: a[0] if a and isinstance(a[0], (Const, Tmpl)) else Top("bytes"))
    nt("bytearray", lambda I, st, a, kw: Top("bytearray"))
    nt("list", _to_list("list"))
    nt("tuple", _to_list("tuple"))
    nt("set", _to_list("set"))
    b.frozenset = b.set
    nt("dict", _to_dict)

    def _type(I, st, a, kw):
        if len(a) == 1:
            rs = [I.class_of(st, x) or Top("type") for x in alts(a[0])]
            return mk_union(rs)
        name, bases, d = a
        bs, _r = I.iterate(st, bases)
        c = Cls(const_of(name, "?"), [x for x in bs if isinstance(x, Cls)] or [b.object], "dynamic")
        c.addr += "#%d" % next(_ids)
        do = I.obj(st, d)
        st.new("class", d={k.v: v for k, v in (do.items if do else {}).items() if isinstance(k, Const)}, addr=c.addr)
        return c
    b.type.native = {"__new__": Native("type", lambda I, st, a, kw: _type(I, st, a[1:], kw))}

    def _super(I, st, a, kw):
        a = a[1:]
        if len(a) >= 2:
            return Wrap("super", a[0], a[1])
        return Top("super")
    b.super.native = {"__new__": Native("super", _super)}
    b.iterator.native = {"__iter__": Native("iter.__iter__", lambda I, st, a, kw: a[0]),
                         "__next__": Native("iter.__next__", lambda I, st, a, kw: _b_next(I, st, a, kw)),
                         "send": Native("iter.send", lambda I, st, a, kw: _b_next(I, st, a[:1], kw)),
                         "close": Native("iter.close", lambda I, st, a, kw: NONE)}

    bd = P.builtins
    for n in ("object", "type", "int", "bool", "float", "str", "bytes", "bytearray", "list", "tuple", "set", "frozenset", "dict", "super"):
        bd[n] = getattr(b, n)
    # exceptions
    excs = {}

    def mk(py):
        if py in excs:
            return excs[py]
        bases = [mk(x) for x in py.__bases__ if issubclass(x, BaseException)] or [b.object]
        c = Cls(py.__name__, bases, "builtins", py=py)
        excs[py] = c
        return c
    for n, v in vars(_pyb).items():
        if isinstance(v, type) and issubclass(v, BaseException):
            c = mk(v)
            bd[n] = c
            setattr(b, n, c)
    b.BaseException.native = {"__init__": Native("BaseException.__init__", _exc_init),
                              "__str__": Native("BaseException.__str__", _exc_str),
                              "__repr__": Native("BaseException.__repr__", lambda I, st, a, kw: Top("exc repr")),
                              "with_traceback": Native("with_traceback", lambda I, st, a, kw: a[0])}

    def _sysexit_init(I, st, a, kw):
        _exc_init(I, st, a, kw)
        st.w(a[0]).d["code"] = a[1] if len(a) == 2 else NONE
        return NONE
    b.SystemExit.native = {"__init__": Native("SystemExit.__init__", _sysexit_init)}
    b.OSError.family = True

    def _oserr_init(I, st, a, kw):
        _exc_init(I, st, a, kw)
        w = st.w(a[0])
        w.d.setdefault("errno", Top("errno"))
        w.d.setdefault("strerror", Top("strerror"))
        w.d.setdefault("filename", Top("filename"))
        return NONE
    b.OSError.native = {"__init__": Native("OSError.__init__", _oserr_init)}
    bd.update(BI)
    bd["NotImplemented"] = Wrap("NotImplemented")
    bd["Ellipsis"] = Const(Ellipsis)
    bd["__name__"] = Const("__main__")
    bd["__debug__"] = TRUE
    for n, f in STR.items():
        P.models[("str", n)] = f
        P.models[("bytes", n)] = f
    for n, f in LIST.items():
        P.models[("list", n)] = f
        if n in ("index", "count"):
            P.models[("tuple", n)] = f
    for n, f in DICT.items():
        P.models[("dict", n)] = f
    for n, f in SET.items():
        P.models[("set", n)] = f
    for n, f in OBJ.items():
        P.models[("object", n)] = f
    for n in ("__len__", "__str__", "__repr__", "__contains__", "__iter__"):
        def g(n):
            def f(I, st, a, kw):
                if n == "__len__":
                    return _b_len(I, st, a, kw)
                if n == "__str__":
                    return str_(I, st, a[0])
                if n == "__repr__":
                    return repr_(I, st, a[0])
                if n == "__contains__":
                    return I.contains(st, a[0], a[1])
                return I.get_iter(st, a[0])
            return Native(n, f)
        for k in ("list", "dict", "set", "tuple", "str"):
            P.models.setdefault((k, n), g(n))

    def _getitem(I, st, a, kw):
        return I.getitem(st, a[0], a[1])

    def _setitem(I, st, a, kw):
        I.setitem(st, a[0], a[1], a[2])
        return NONE
    for k in ("list", "dict", "tuple", "str"):
        P.models[(k, "__getitem__")] = Native("__getitem__", _getitem)
    for k in ("list", "dict"):
        P.models[(k, "__setitem__")] = Native("__setitem__", _setitem)
    P.models[("int", "bit_length")] = Native("bit_length", lambda I, st, a, kw: Sym("bits@%d" % next(_ids), "int"))
    from . import libs, argmodel
    libs.install(P)
    argmodel.install(P)
