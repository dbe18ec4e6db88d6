"""Model of argparse (Python 3.12) over abstract argument strings."""
import re

from .values import *
from .values import _ids
from .interp import Dead, ExcInfo
from .models import const_of, fresh_bool, safe_hole, str_

ACTION_FIELDS = ("option_strings", "dest", "nargs", "const", "default", "type", "choices", "required", "help", "metavar")


class Unknown(Exception):
    """An argument cannot be classified as option or positional."""


def items_of(I, st, v):
    o = I.obj(st, v)
    return list(o.items) if o is not None and o.items is not None else []


# ------------------------------------------------------------------- actions

def _action_init(I, st, a, kw):
    self = a[0]
    vals = dict(zip(ACTION_FIELDS, a[1:]))
    for k, v in kw.items():
        if k not in ACTION_FIELDS and k not in ("deprecated", "version"):
            I.throw(st, "TypeError", "Action.__init__() got an unexpected keyword argument %r" % k)
        vals[k] = v
    d = st.w(self).d
    d["option_strings"] = vals.get("option_strings") or I.list_(st, [])
    d = st.w(self).d
    d["dest"] = vals.get("dest", NONE)
    d["required"] = vals.get("required", FALSE)
    for k in ("nargs", "const", "default", "type", "choices", "help", "metavar"):
        d[k] = vals.get(k, NONE)
    d["container"] = NONE
    return NONE


def _mk_init(allowed, fixed):
    """__init__ of a concrete action class: accepted keywords and fixed ones."""
    def f(I, st, a, kw):
        kw = dict(kw)
        pos = dict(zip(("option_strings", "dest"), a[1:]))
        kw.update(pos)
        for k in kw:
            if k not in allowed:
                I.throw(st, "TypeError", "Action.__init__() got an unexpected keyword argument %r" % k)
        for k, v in fixed.items():
            if k == "default" and "default" in kw:
                continue
            kw[k] = v
        return _action_init(I, st, [a[0]], kw)
    return f


def _store_init(I, st, a, kw):
    n = kw.get("nargs", NONE)
    if isinstance(n, Const) and n.v == 0:
        I.throw(st, "ValueError", "nargs for store actions must be != 0")
    return _action_init(I, st, a, kw)


def _dest(I, st, self):
    return st.get(self).d["dest"].v


def _setns(I, st, ns, dest, v):
    I.setattr_(st, ns, dest, v)


def _store_call(I, st, a, kw):
    self, parser, ns, values = a[:4]
    _setns(I, st, ns, _dest(I, st, self), values)
    return NONE


def _const_call(I, st, a, kw):
    self, parser, ns = a[:3]
    _setns(I, st, ns, _dest(I, st, self), st.get(self).d["const"])
    return NONE


def _copy_items(I, st, v):
    if isinstance(v, Const) and v.v is None:
        return I.list_(st, [])
    if isinstance(v, Union):
        return I.split(st, v, lambda s, x: _copy_items(I, s, x))
    if isinstance(v, Top):
        return I.list_(st, [], Top("items"))
    items, rest = I.iterate(st, v)
    return I.list_(st, items, rest)


def _append_call(I, st, a, kw, what="values"):
    self, parser, ns, values = a[:4]
    d = _dest(I, st, self)
    cur = I.getattr_(st, ns, d, NONE, True)
    l = _copy_items(I, st, cur)

    def one(s, x):
        I.list_extend(s, x, [values if what == "values" else s.get(self).d["const"]], None)
        _setns(I, s, ns, d, x)
        return NONE
    I.split(st, l, one)
    return NONE


def _appendconst_call(I, st, a, kw):
    return _append_call(I, st, a, kw, "const")


def _extend_call(I, st, a, kw):
    self, parser, ns, values = a[:4]
    d = _dest(I, st, self)
    l = _copy_items(I, st, I.getattr_(st, ns, d, NONE, True))
    items, rest = I.iterate(st, values)

    def one(s, x):
        I.list_extend(s, x, items, rest)
        _setns(I, s, ns, d, x)
        return NONE
    I.split(st, l, one)
    return NONE


def _count_call(I, st, a, kw):
    self, parser, ns = a[:3]
    d = _dest(I, st, self)
    cur = I.getattr_(st, ns, d, NONE, True)
    v = cur.v if isinstance(cur, Const) else None
    _setns(I, st, ns, d, Const((v or 0) + 1) if isinstance(cur, Const) else Sym("count@%d" % next(_ids), "int"))
    return NONE


# -------------------------------------------------------------------- parser

def _parser_init(I, st, a, kw):
    self = a[0]
    names = ("prog", "usage", "description", "epilog", "parents", "formatter_class", "prefix_chars",
             "fromfile_prefix_chars", "argument_default", "conflict_handler", "add_help", "allow_abbrev", "exit_on_error")
    for i, v in enumerate(a[1:]):
        kw[names[i]] = v
    for k in kw:
        if k not in names and k != "**":
            I.throw(st, "TypeError", "ArgumentParser.__init__() got an unexpected keyword argument %r" % k)
    d = st.w(self).d
    for k in ("prog", "usage", "description", "epilog", "fromfile_prefix_chars", "argument_default"):
        d[k] = kw.get(k, NONE)
    d["conflict_handler"] = kw.get("conflict_handler", Const("error"))
    d["allow_abbrev"] = kw.get("allow_abbrev", TRUE)
    d["exit_on_error"] = kw.get("exit_on_error", TRUE)
    d["add_help"] = kw.get("add_help", TRUE)
    d["prefix_chars"] = kw.get("prefix_chars", Const("-"))
    al = I.list_(st, [])
    om = I.dict_(st)
    df = I.dict_(st)
    mx = I.list_(st, [])
    d = st.w(self).d
    d["_actions"] = al
    d["_option_string_actions"] = om
    d["_defaults"] = df
    d["_mutually_exclusive_groups"] = mx
    d["_action_groups"] = I.list_(st, [])
    st.w(self).d["_optionals"] = Top("_optionals")
    st.w(self).d["_positionals"] = Top("_positionals")
    if I.truth(st, d["add_help"]) is True:
        _add_argument(I, st, [self, Const("-h"), Const("--help")], {"action": Const("help"), "help": Const("show this help message and exit")})
    return NONE


REG = {None: "_StoreAction", "store": "_StoreAction", "store_const": "_StoreConstAction", "store_true": "_StoreTrueAction",
       "store_false": "_StoreFalseAction", "append": "_AppendAction", "append_const": "_AppendConstAction",
       "count": "_CountAction", "help": "_HelpAction", "version": "_VersionAction", "extend": "_ExtendAction"}


def _resolve_action(I, st, self, act):
    if isinstance(act, Const):
        if act.v in REG:
            return I.prog.ext["argparse"][REG[act.v]]
        reg = I.obj(st, st.get(self).d.get("_user_registry"))
        if reg is not None and act in reg.items:
            return reg.items[act]
        I.throw(st, "ValueError", "unknown action %r" % (act.v,))
    return act


def _add_argument(I, st, a, kw):
    self = a[0]
    args = a[1:]
    kw = dict(kw)
    if not all(isinstance(x, Const) and isinstance(x.v, str) for x in args):
        I.imprecise(st, "add_argument with unknown option name")
        return Top("action")
    args = [x.v for x in args]
    if not args or len(args) == 1 and not args[0].startswith("-"):
        if args and "dest" in kw:
            I.throw(st, "ValueError", "dest supplied twice for positional argument")
        dest = args[0] if args else const_of(kw.pop("dest", NONE))
        kw.pop("dest", None)
        if "required" in kw:
            I.throw(st, "TypeError", "'required' is an invalid argument for positionals")
        n = const_of(kw.get("nargs", NONE))
        if n not in ("?", "*", "...") :
            kw["required"] = TRUE
        if n == "*" and "default" not in kw:
            kw["required"] = TRUE
        opts = []
        kw["dest"] = Const(dest)
    else:
        longs = [x for x in args if x.startswith("--")]
        for x in args:
            if not x.startswith("-"):
                I.throw(st, "ValueError", "invalid option string %r" % x)
        dest = kw.pop("dest", None)
        if dest is None or isinstance(dest, Const) and dest.v is None:
            src = longs[0] if longs else args[0]
            dn = src.lstrip("-").replace("-", "_")
            if not dn:
                I.throw(st, "ValueError", "dest= is required for options like %r" % src)
            dest = Const(dn)
        kw["dest"] = dest
        opts = args
    if "default" not in kw:
        d = kw["dest"]
        do = I.obj(st, st.get(self).d["_defaults"])
        if d in do.items:
            kw["default"] = do.items[d]
        elif not (isinstance(st.get(self).d["argument_default"], Const) and st.get(self).d["argument_default"].v is None):
            kw["default"] = st.get(self).d["argument_default"]
    act = kw.pop("action", NONE)
    cls = _resolve_action(I, st, self, act)
    if isinstance(cls, (Top, Union)):
        I.imprecise(st, "unknown action")
        return Top("action")
    ol = I.list_(st, [Const(x) for x in opts])
    action = I.call(st, cls, [], dict(kw, option_strings=ol))
    ty = st.get(action).d.get("type", NONE)
    if isinstance(ty, Const) and ty.v is not None:
        I.throw(st, "ValueError", "%r is not callable" % ty.v)
    return _add_action(I, st, self, action)


def _add_action(I, st, self, action):
    opts = [x.v for x in items_of(I, st, st.get(action).d["option_strings"])]
    om = st.get(self).d["_option_string_actions"]
    ch = const_of(st.get(self).d["conflict_handler"])
    for x in opts:
        old = st.get(om).items.get(Const(x))
        if old is None:
            continue
        if ch == "resolve":
            ool = st.get(old).d["option_strings"]
            w = st.w(ool)
            w.items = tuple(i for i in w.items if i != Const(x))
            st.w(om).items.pop(Const(x), None)
            if not w.items:
                _remove_action(I, st, [self, old], {})
        else:
            I.throw(st, I.prog.ext["argparse"]["ArgumentError"], "conflicting option string: " + x)
    I.list_extend(st, st.get(self).d["_actions"], [action], None)
    st.w(action).d["container"] = self
    for x in opts:
        st.w(om).items[Const(x)] = action
    return action


def _remove_action(I, st, a, kw):
    self, act = a[:2]
    l = st.get(self).d["_actions"]
    o = st.w(l)
    if act not in o.items and o.rest is None:
        I.throw(st, "ValueError", "list.remove(x): x not in list")
    done = False
    out = []
    for x in o.items:
        if x == act and not done:
            done = True
            continue
        out.append(x)
    o.items = tuple(out)
    return NONE


def table(I, st, self):
    """Option string -> action Ref of a parser, None if unknown."""
    om = I.obj(st, st.get(self).d["_option_string_actions"])
    if om is None or om.rest is not None:
        return None
    return {k.v: v for k, v in om.items.items()}


def _parse_optional(I, st, a, kw):
    self, arg = a[:2]
    if isinstance(arg, Union):
        return I.split(st, arg, lambda s, x: _parse_optional(I, s, [self, x], kw))
    tup = _classify(I, st, self, arg)
    if tup is None:
        return NONE
    return I.tuple_(st, [x if x is not None else NONE for x in tup])


def _classify(I, st, self, arg):
    om = table(I, st, self)
    if om is None:
        raise Unknown("option table")
    parts = sparts(arg)
    if parts is None:
        raise Unknown(repr(arg))
    if not parts:
        return None
    head = parts[0]
    if isinstance(head, Sym):
        if truth(head) and (safe_hole(head) or head.has("fresh") or head.has("blank")):
            return None
        raise Unknown(repr(arg))
    if head[0] != "-":
        return None
    if isinstance(arg, Const):
        s = arg.v
        if s in om:
            return (om[s], arg, None, None)
        if len(s) == 1:
            return None
        opt, sep, expl = s.partition("=")
        if sep and opt in om:
            return (om[opt], Const(opt), Const("="), Const(expl))
        tups = _option_tuples(I, st, self, s, om, sep, Const(expl) if sep else None, opt)
        if len(tups) > 1:
            _error(I, st, self, Const("ambiguous option: %s could match %s" % (s, ", ".join(t[1].v for t in tups))))
        elif len(tups) == 1:
            return tups[0]
        if re.match(r"^-\d+$|^-\d*\.\d+$", s):
            if not any(re.match(r"^-\d+$|^-\d*\.\d+$", o) for o in om):
                return None
        if " " in s:
            return None
        return (None, arg, None, None)
    # template
    if len(head) == 1 and head == "-":
        # "-<hole>": single dash word
        h = parts[1]
        if isinstance(h, Sym) and h.has("digits") and len(parts) == 2:
            return None
        if isinstance(h, Sym) and h.has("fresh"):
            return (None, arg, None, None)
        raise Unknown(repr(arg))
    opt, sep, expl = head.partition("=")
    if sep:
        ev = mk_str((expl,) + parts[1:])
        if opt in om:
            return (om[opt], Const(opt), Const("="), ev)
        if opt.startswith("--"):
            tups = _option_tuples(I, st, self, head, om, sep, ev, opt)
            if len(tups) > 1:
                _error(I, st, self, Const("ambiguous option: " + opt))
            elif len(tups) == 1:
                return tups[0]
        if any(isinstance(p, str) and " " in p or isinstance(p, Sym) and p.has("blank") for p in parts):
            return None
        return (None, arg, None, None)
    if not head.startswith("--"):
        raise Unknown(repr(arg))
    # "--foo<hole>": differs from every option because the hole is fresh
    if all(isinstance(p, str) or p.has("fresh") for p in parts):
        if any(isinstance(p, str) and " " in p or isinstance(p, Sym) and p.has("blank") for p in parts):
            return None
        return (None, arg, None, None)
    raise Unknown(repr(arg))


def _option_tuples(I, st, self, s, om, sep, expl, opt):
    res = []
    if len(s) > 1 and s[0] == "-" and s[1] == "-":
        if I.truth(st, st.get(self).d["allow_abbrev"]) is True:
            for o, act in om.items():
                if o.startswith(opt):
                    res.append((act, Const(o), Const(sep) if sep else None, expl))
    elif s[0] == "-":
        for o, act in om.items():
            if o == s[:2]:
                res.append((act, Const(o), EMPTY, Const(s[2:])))
            elif o.startswith(s):
                res.append((act, Const(o), None, None))
    return res


def _error(I, st, self, msg):
    f = I.getattr_(st, self, "error")
    I.call(st, f, [msg], {})


def _exit_with(I, st, code):
    e = I.make_exc(st, "SystemExit")
    st.w(e).d["code"] = code
    I.throw_val(st, e)


def _native_error(I, st, a, kw):
    st.event("usage_error", a[1] if len(a) > 1 else EMPTY)
    st.event("print", (Const("usage"),), Ref("$stderr"))
    _exit_with(I, st, Const(2))


def _native_exit(I, st, a, kw):
    _exit_with(I, st, a[1] if len(a) > 1 else kw.get("status", Const(0)))


def _arg_error(I, st, action, msg):
    names = "/".join(str(x.v) for x in items_of(I, st, st.get(action).d["option_strings"])) or str(const_of(st.get(action).d["dest"]))
    I.throw(st, I.prog.ext["argparse"]["ArgumentError"], mk_str(["argument %s: " % names] + list(sparts(msg) or ("?",))))


def _get_value(I, st, self, action, arg):
    ty = st.get(action).d["type"]
    if isinstance(ty, Const) and ty.v is None:
        return arg
    v, alive, excs = I.guarded(st, lambda s: I.call(s, ty, [arg], {}))
    ate = I.prog.ext["argparse"]["ArgumentTypeError"]
    for e, es in excs:
        if e.cls is not None and (e.cls.issub(ate) or e.cls.issub(I.prog.exc("TypeError")) or e.cls.issub(I.prog.exc("ValueError"))):
            try:
                _arg_error(I, es, action, mk_str(["invalid value: "] + list(sparts(arg) or ())))
            except Dead:
                if e.may and I.sink:
                    I.sink[-1][0].may = True
        else:
            I.sink.append((e, es))
    if not alive:
        raise Dead()
    return v


def _check_value(I, st, self, action, value):
    ch = st.get(action).d["choices"]
    if isinstance(ch, Const) and ch.v is None:
        return
    t = I.truth(st, I.contains(st, ch, value))
    if t is True:
        return
    if t is False:
        _arg_error(I, st, action, mk_str(["invalid choice: "] + list(sparts(value) or ())))
    s2 = st.copy()
    try:
        _arg_error(I, s2, action, Const("invalid choice"))
    except Dead:
        if I.sink:
            I.sink[-1][0].may = True


def _get_values(I, st, self, action, strings):
    d = st.get(action).d
    nargs = const_of(d["nargs"], "?unknown")
    opt = items_of(I, st, d["option_strings"])
    strings = list(strings)
    if not opt and nargs not in ("A...", "..."):
        if Const("--") in strings:
            strings.remove(Const("--"))
    if not strings and nargs == "?":
        v = d["const"] if opt else d["default"]
        if isinstance(v, Const) and isinstance(v.v, str):
            v = _get_value(I, st, self, action, v)
            _check_value(I, st, self, action, v)
        return v
    if not strings and nargs == "*" and not opt:
        v = d["default"]
        if isinstance(v, Const) and v.v is None:
            return I.list_(st, [])
        _check_value(I, st, self, action, v)
        return v
    if len(strings) == 1 and nargs in (None, "?"):
        v = _get_value(I, st, self, action, strings[0])
        _check_value(I, st, self, action, v)
        return v
    vals = []
    for s in strings:
        v = _get_value(I, st, self, action, s)
        _check_value(I, st, self, action, v)
        vals.append(v)
    return I.list_(st, vals)


def _pattern(action_d, is_opt):
    n = const_of(action_d["nargs"], "?unknown")
    if n is None:
        p = "(-*A-*)"
    elif n == "?":
        p = "(-*A?-*)"
    elif n == "*":
        p = "(-*[A-]*)"
    elif n == "+":
        p = "(-*A[A-]*)"
    elif n == "...":
        p = "([-AO]*)"
    elif n == "A...":
        p = "(-*A[-AO]*)"
    elif n == "==SUPPRESS==":
        p = "(-*-*)"
    elif isinstance(n, int):
        p = "(-*%s-*)" % "-*".join("A" * n)
    else:
        raise Unknown("nargs")
    if is_opt:
        p = p.replace("-*", "").replace("-", "")
    return p


def _init_ns(I, st, self, ns):
    for act in items_of(I, st, st.get(self).d["_actions"]):
        d = st.get(act).d
        dest, default = d["dest"], d["default"]
        if isinstance(dest, Const) and isinstance(dest.v, str) and dest.v != "==SUPPRESS==":
            if dest.v not in st.get(ns).d and not (isinstance(default, Const) and default.v == "==SUPPRESS=="):
                st.w(ns).d[dest.v] = default
    for k, v in st.get(st.get(self).d["_defaults"]).items.items():
        if k.v not in st.get(ns).d:
            st.w(ns).d[k.v] = v


def _take(I, st, self, ns, action, strings, optstr, seen):
    seen.add(action)
    v = _get_values(I, st, self, action, strings)
    groups = items_of(I, st, st.get(self).d["_mutually_exclusive_groups"])
    for g in groups:
        ga = items_of(I, st, st.get(g).d["_group_actions"])
        if action in ga and v != st.get(action).d["default"]:
            for other in ga:
                if other != action and other in seen:
                    _arg_error(I, st, action, Const("not allowed with another argument"))
    if isinstance(v, Const) and v.v == "==SUPPRESS==":
        return
    I.call(st, action, [self, ns, v], {"option_string": optstr} if optstr is not None else {})


def _run(I, st, self, ns, strings):
    """_parse_known_args for classified strings; returns extras."""
    idx = {}
    pat = []
    it = iter(enumerate(strings))
    po = I.getattr_(st, self, "_parse_optional")
    for i, s in it:
        if s == Const("--"):
            pat.append("-")
            for _i, _s in it:
                pat.append("A")
            break
        t = I.call(st, po, [s], {})
        if isinstance(t, Const) and t.v is None:
            pat.append("A")
        else:
            o = I.obj(st, t)
            if o is None or o.kind not in ("tuple", "list"):
                raise Unknown("option tuple")
            idx[i] = tuple(o.items)
            pat.append("O")
    pat = "".join(pat)
    extras = []
    seen = set()
    isnone = lambda v: isinstance(v, Const) and v.v is None

    def match_arg(action, p):
        m = re.match(_pattern(st.get(action).d, bool(items_of(I, st, st.get(action).d["option_strings"]))), p)
        if m is None:
            _arg_error(I, st, action, Const("expected argument(s)"))
        return len(m.group(1))

    def consume_optional(start):
        tup = idx[start]
        if len(tup) == 3:
            action, ostr, expl = tup
            sep = NONE
        else:
            action, ostr, sep, expl = tup
        todo = []
        while True:
            if isnone(action):
                extras.append(strings[start])
                return start + 1
            if not isinstance(action, Ref):
                raise Unknown("action")
            if not isnone(expl):
                n = match_arg(action, "A")
                if n == 0 and isinstance(ostr, Const) and ostr.v[1] != "-" and expl != EMPTY:
                    if not isinstance(expl, Const):
                        raise Unknown("short options")
                    if (isinstance(sep, Const) and sep.v) or expl.v[0] == "-":
                        _arg_error(I, st, action, Const("ignored explicit argument"))
                    todo.append((action, [], ostr))
                    om = table(I, st, self)
                    o2 = "-" + expl.v[0]
                    if o2 in om:
                        action = om[o2]
                        ostr = Const(o2)
                        rest = expl.v[1:]
                        expl = Const(rest) if rest else NONE
                        sep = EMPTY
                        if rest.startswith("="):
                            sep = Const("=")
                            expl = Const(rest[1:])
                        continue
                    extras.append(Const("-" + expl.v))
                    stop = start + 1
                    break
                elif n == 1:
                    stop = start + 1
                    todo.append((action, [expl], ostr))
                    break
                else:
                    _arg_error(I, st, action, Const("ignored explicit argument"))
            else:
                n = match_arg(action, pat[start + 1:])
                stop = start + 1 + n
                todo.append((action, strings[start + 1:stop], ostr))
                break
        for act, ss, os_ in todo:
            _take(I, st, self, ns, act, ss, os_, seen)
        return stop

    positionals = [x for x in items_of(I, st, st.get(self).d["_actions"]) if not items_of(I, st, st.get(x).d["option_strings"])]

    def consume_positionals(start):
        sel = pat[start:]
        counts = []
        for n in range(len(positionals), 0, -1):
            m = re.match("".join(_pattern(st.get(x).d, False) for x in positionals[:n]), sel)
            if m is not None:
                counts = [len(g) for g in m.groups()]
                break
        for act, c in zip(positionals, counts):
            ss = strings[start:start + c]
            start += c
            _take(I, st, self, ns, act, ss, None, seen)
        del positionals[:len(counts)]
        return start

    start = 0
    mx = max(idx) if idx else -1
    while start <= mx:
        nxt = min(i for i in idx if i >= start)
        if start != nxt:
            end = consume_positionals(start)
            if end > start:
                start = end
                continue
            start = end
        if start not in idx:
            extras.extend(strings[start:nxt])
            start = nxt
        start = consume_optional(start)
    stop = consume_positionals(start)
    extras.extend(strings[stop:])
    missing = []
    for act in items_of(I, st, st.get(self).d["_actions"]):
        if act in seen:
            continue
        d = st.get(act).d
        if I.truth(st, d["required"]) is True:
            missing.append(str(const_of(d["dest"])))
        else:
            df = d["default"]
            dn = const_of(d["dest"])
            if isinstance(df, Const) and isinstance(df.v, str) and st.get(ns).d.get(dn) == df:
                _setns(I, st, ns, dn, _get_value(I, st, self, act, df))
    if missing:
        _error(I, st, self, Const("the following arguments are required: " + ", ".join(missing)))
    for g in items_of(I, st, st.get(self).d["_mutually_exclusive_groups"]):
        gd = st.get(g).d
        if I.truth(st, gd["required"]) is True and not any(x in seen for x in items_of(I, st, gd["_group_actions"])):
            _error(I, st, self, Const("one of the arguments is required"))
    return extras


def _soup(I, st, self, ns, strings, rest):
    """Unknown argument strings: every option may occur, any number of times."""
    st.note("arguments not classified")
    po = I.getattr_(st, self, "_parse_optional")
    anystr = Sym("arg@%d" % next(_ids), "str")
    for _round in range(2):
        for act in items_of(I, st, st.get(self).d["_actions"]):
            s2 = st.copy()
            try:
                opts = items_of(I, s2, s2.get(act).d["option_strings"])
                if opts:
                    I.call(s2, po, [opts[0]], {})
                n = const_of(s2.get(act).d["nargs"], "?unknown")
                if n in (None, "?"):
                    v = _get_value(I, s2, self, act, anystr)
                    _check_value(I, s2, self, act, v)
                    ch = s2.get(act).d["choices"]
                    if not (isinstance(ch, Const) and ch.v is None):
                        ci, cr = I.iterate(s2, ch)
                        v = mk_union(ci) if cr is None and ci else v
                    if n == "?":
                        v = join(v, s2.get(act).d["const"] if opts else s2.get(act).d["default"])
                else:
                    x = _get_value(I, s2, self, act, anystr)
                    _check_value(I, s2, self, act, x)
                    if isinstance(n, int):
                        v = I.list_(s2, [x] * n)
                    else:
                        v = I.list_(s2, [], x)
                I.call(s2, act, [self, ns, v], {"option_string": opts[0]} if opts else {})
            except Dead:
                continue
            st.assign(join_states([st.copy(), s2]))
    v, alive, excs = I.guarded(st.copy(), lambda s: _error(I, s, self, Const("bad arguments")))
    for e, es in excs:
        e.may = True
        I.sink.append((e, es))
    return I.list_(st, [], anystr)


def _known(I, st, self, strings, rest, ns):
    """Body of parse_known_args: returns (namespace ref, extras ref)."""
    _init_ns(I, st, self, ns)
    ae = I.prog.ext["argparse"]["ArgumentError"]
    s0 = st.copy()
    try:
        if rest is not None:
            raise Unknown("argument list")
        sink0 = I.sink
        depth0 = I.depth
        ss0 = list(I.site_stack)
        v, alive, excs = I.guarded(st, lambda s: I.list_(s, _run(I, s, self, ns, strings)))
    except Unknown:
        I.sink = sink0 if rest is None else I.sink
        if rest is None:
            I.depth = depth0
            I.site_stack[:] = ss0
        st.assign(s0)
        v, alive, excs = I.guarded(st, lambda s: _soup(I, s, self, ns, strings, rest))
    outs, vals = [], []
    if alive:
        outs.append(st.copy())
        vals.append(v)
    for e, es in excs:
        if e.cls is not None and e.cls.issub(ae) and I.truth(es, es.get(self).d["exit_on_error"]) is not False:
            n0 = len(I.sink)
            try:
                _error(I, es, self, str_(I, es, e.val))
                # error() returned: parsing goes on with the raw arguments
                outs.append(es)
                vals.append(I.list_(es, strings, rest))
            except Dead:
                pass
            if e.may:
                for x, _s in I.sink[n0:]:
                    x.may = True
        else:
            I.sink.append((e, es))
    if not outs:
        raise Dead()
    st.assign(join_states(outs))
    return mk_union(vals)


def _args_of(I, st, a, kw):
    args = a[1] if len(a) > 1 else kw.get("args", NONE)
    ns = a[2] if len(a) > 2 else kw.get("namespace", NONE)
    if isinstance(args, Const) and args.v is None:
        o = st.heap.get("$argv")
        if o is not None and o.rest is None:
            return list(o.items[1:]), None, ns
        return [], Sym("argv", "str"), ns
    if isinstance(args, Top):
        return [], Sym("args@%d" % next(_ids), "str"), ns
    items, rest = I.iterate(st, args)
    return items, rest, ns


def _parse_known_args(I, st, a, kw):
    for k in kw:
        if k not in ("args", "namespace", "**"):
            I.throw(st, "TypeError", "parse_known_args() got an unexpected keyword argument %r" % k)
    av = a[1] if len(a) > 1 else kw.get("args", NONE)
    if isinstance(av, Union):
        def one(s, x):
            k2 = dict(kw)
            k2.pop("args", None)
            return _parse_known_args(I, s, [a[0], x] + a[2:], k2)
        return I.split(st, av, one)
    items, rest, ns = _args_of(I, st, a, kw)
    self = a[0]
    for i, x in enumerate(items):
        if isinstance(x, Undef):
            return _parse_known_args(I, st, [self, I.list_(st, [], Sym("args@%d" % next(_ids), "str"))], {})
        if isinstance(x, Union):
            alt = [y for y in x.alts]
            if len(alt) > 8 or any(isinstance(y, Undef) for y in alt):
                rest = Sym("args@%d" % next(_ids), "str")
                items = []
                break

            def one(s, y, i=i):
                l = I.list_(s, items[:i] + [y] + items[i + 1:], rest)
                return _parse_known_args(I, s, [self, l], {} if isinstance(ns, Const) else {"namespace": ns})
            return I.split(st, x, one)
    if isinstance(ns, Const):
        ns = I.call(st, I.prog.ext["argparse"]["Namespace"], [], {})
    extras = _known(I, st, self, items, rest, ns)
    return I.tuple_(st, [ns, extras])


def _parse_args(I, st, a, kw):
    f = I.getattr_(st, a[0], "parse_known_args")
    r = I.call(st, f, a[1:], kw)

    def one(s, x):
        o = s.get(x)
        ns, extras = o.items
        t = I.truth(s, extras)
        if t is not False:
            s2 = s.copy()
            n0 = len(I.sink)
            alive = True
            try:
                _error(I, s2, a[0], Const("unrecognized arguments"))
            except Dead:
                alive = False
            if t is True:
                if not alive:
                    raise Dead()
                s.assign(s2)
            else:
                for e, _s in I.sink[n0:]:
                    e.may = True
                if alive:
                    s.assign(join_states([s.copy(), s2]))
        return ns
    return I.split(st, r, one)


def _set_defaults(I, st, a, kw):
    for k, v in kw.items():
        st.w(st.get(a[0]).d["_defaults"]).items[Const(k)] = v
        for act in items_of(I, st, st.get(a[0]).d["_actions"]):
            if st.get(act).d["dest"] == Const(k):
                st.w(act).d["default"] = v
    return NONE


def _get_default(I, st, a, kw):
    for act in items_of(I, st, st.get(a[0]).d["_actions"]):
        if st.get(act).d["dest"] == a[1]:
            return st.get(act).d["default"]
    return NONE


def _add_group(I, st, a, kw):
    g = st.new("inst", I.prog.ext["argparse"]["_ArgumentGroup"], d={"_parser": a[0], "required": kw.get("required", FALSE)})
    st.w(g).d["_group_actions"] = I.list_(st, [])
    return g


def _add_mutex(I, st, a, kw):
    g = _add_group(I, st, a, kw)
    I.list_extend(st, st.get(a[0]).d["_mutually_exclusive_groups"], [g], None)
    return g


def _group_add(I, st, a, kw):
    p = st.get(a[0]).d["_parser"]
    r = I.call(st, I.getattr_(st, p, "add_argument"), a[1:], kw)
    I.list_extend(st, st.get(a[0]).d["_group_actions"], [r], None)
    return r


def install(P):
    b = P.b
    ns = {}
    A = Cls("Action", [b.object], "argparse", native={
        "__init__": Native("Action.__init__", _action_init),
        "__call__": Native("Action.__call__", lambda I, st, a, kw: I.throw(st, "NotImplementedError", ".__call__() not defined"))})
    ns["Action"] = A

    def act(name, init, call):
        c = Cls(name, [A], "argparse", native={"__init__": Native(name + ".__init__", init), "__call__": Native(name + ".__call__", call)})
        ns[name] = c
        return c
    act("_StoreAction", _store_init, _store_call)
    base = {"option_strings", "dest", "default", "required", "help", "metavar"}
    act("_StoreConstAction", _mk_init(base | {"const"}, {"nargs": Const(0)}), _const_call)
    nb = base - {"metavar"}
    act("_StoreTrueAction", _mk_init(nb, {"nargs": Const(0), "const": TRUE, "default": FALSE}), _const_call)
    act("_StoreFalseAction", _mk_init(nb, {"nargs": Const(0), "const": FALSE, "default": TRUE}), _const_call)
    act("_AppendAction", _store_init, _append_call)
    act("_AppendConstAction", _mk_init(base | {"const"}, {"nargs": Const(0)}), _appendconst_call)
    act("_ExtendAction", _store_init, _extend_call)
    act("_CountAction", _mk_init(nb, {"nargs": Const(0)}), _count_call)

    def _help_call(I, st, a, kw):
        f = I.getattr_(st, a[1], "exit")
        I.call(st, f, [], {})
        return NONE
    act("_HelpAction", _mk_init({"option_strings", "dest", "default", "help"}, {"nargs": Const(0), "dest": Const("==SUPPRESS=="), "default": Const("==SUPPRESS==")}), _help_call)

    def _ver_init(I, st, a, kw):
        kw = {k: v for k, v in kw.items() if k != "version"}
        return _mk_init({"option_strings", "dest", "default", "help"}, {"nargs": Const(0), "dest": Const("==SUPPRESS=="), "default": Const("==SUPPRESS==")})(I, st, a, kw)
    act("_VersionAction", _ver_init, _help_call)

    text = lambda n: Native(n, lambda I, st, a, kw: Sym(n + "@%d" % next(_ids), "str", {"T"}))

    def _reg(I, st, a, kw):
        d = st.get(a[0]).d
        if "_user_registry" not in d:
            st.w(a[0]).d["_user_registry"] = I.dict_(st)
        I.setitem(st, st.get(a[0]).d["_user_registry"], a[2], a[3])
        return NONE
    ns["ArgumentParser"] = Cls("ArgumentParser", [b.object], "argparse", native={
        "__init__": Native("ArgumentParser.__init__", _parser_init),
        "add_argument": Native("ArgumentParser.add_argument", _add_argument),
        "_add_action": Native("ArgumentParser._add_action", lambda I, st, a, kw: _add_action(I, st, a[0], a[1])),
        "_remove_action": Native("ArgumentParser._remove_action", _remove_action),
        "_parse_optional": Native("ArgumentParser._parse_optional", _parse_optional),
        "parse_args": Native("ArgumentParser.parse_args", _parse_args),
        "parse_known_args": Native("ArgumentParser.parse_known_args", _parse_known_args),
        "error": Native("ArgumentParser.error", _native_error),
        "exit": Native("ArgumentParser.exit", _native_exit),
        "set_defaults": Native("ArgumentParser.set_defaults", _set_defaults),
        "get_default": Native("ArgumentParser.get_default", _get_default),
        "add_argument_group": Native("ArgumentParser.add_argument_group", _add_group),
        "add_mutually_exclusive_group": Native("ArgumentParser.add_mutually_exclusive_group", _add_mutex),
        "register": Native("ArgumentParser.register", _reg),
        "format_help": text("format_help"), "format_usage": text("format_usage"),
        "print_help": Native("print_help", lambda I, st, a, kw: (st.event("print", (Const("help"),), NONE), NONE)[1]),
        "print_usage": Native("print_usage", lambda I, st, a, kw: (st.event("print", (Const("usage"),), NONE), NONE)[1]),
    })
    ns["_ArgumentGroup"] = Cls("_ArgumentGroup", [b.object], "argparse", native={"add_argument": Native("group.add_argument", _group_add)})

    def _ns_init(I, st, a, kw):
        st.w(a[0]).d.update(kw)
        return NONE
    ns["Namespace"] = Cls("Namespace", [b.object], "argparse", native={"__init__": Native("Namespace.__init__", _ns_init)})
    ns["ArgumentError"] = Cls("ArgumentError", [b.Exception], "argparse")
    ns["ArgumentTypeError"] = Cls("ArgumentTypeError", [b.Exception], "argparse")
    for n in ("RawTextHelpFormatter", "HelpFormatter", "RawDescriptionHelpFormatter", "ArgumentDefaultsHelpFormatter"):
        c = Cls(n, [b.object], "argparse")
        c.opaque = True
        ns[n] = c
    ns["SUPPRESS"] = Const("==SUPPRESS==")
    ns["OPTIONAL"] = Const("?")
    ns["ZERO_OR_MORE"] = Const("*")
    ns["ONE_OR_MORE"] = Const("+")
    ns["REMAINDER"] = Const("...")
    P.ext["argparse"] = ns


def _u():
    return ExcInfo, fresh_bool
