"""Abstract interpreter for the Python subset used by the repository.

Classic forward abstract interpretation over the syntax tree: constants are
propagated, undecided branches are analysed on both sides (with refinement of
the tested location) and their states joined, loops over unknown collections
are iterated with joins.  Nothing of the analysed program is imported or run.
"""
import ast
import itertools
from .values import *
from .values import _ids


class Dead(Exception):
    """The current program point is unreachable."""


class AnalysisBroken(Exception):
    """An anchor of the analysis is missing."""


class Frame(object):
    __slots__ = ("func", "env", "returns", "cls", "selfv", "globals_", "yields", "loops", "module")

    def __init__(self, func, env, module, cls=None, selfv=None):
        self.func = func
        self.env = env
        self.module = module
        self.returns = []
        self.cls = cls
        self.selfv = selfv
        self.globals_ = set()
        self.yields = None
        self.loops = []


class Loop(object):
    def __init__(self):
        self.breaks = []
        self.conts = []


class ExcInfo(object):
    """An exception in flight."""
    __slots__ = ("val", "cls", "site", "may")

    def __init__(self, val, cls, site, may=False):
        self.val = val
        self.cls = cls
        self.site = site
        self.may = may

    def __repr__(self):
        return "Exc(%s at %s%s)" % (self.cls.name if self.cls else "?", self.site, " may" if self.may else "")


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&",
          ast.FloorDiv: "//", ast.Div: "/", ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>"}

MAX_DEPTH = 60
MAX_ITER = 400


class Interp(object):
    def __init__(self, program):
        self.prog = program
        self.sink = []          # exceptions leaving the current try region
        self.depth = 0
        self.stack = []
        self.probes = set()     # (label, kind, literal) seen in undecided tests on fresh symbols
        self.steps = 0
        self.touched = set()    # functions analysed (module, name)
        self.hooks = {}         # qualified name -> native replacement
        self.lineinfo = None
        self.site_stack = []

    # ---------------------------------------------------------------- utils
    def site(self):
        for fr, node in reversed(self.site_stack):
            return "%s:%s" % (fr, getattr(node, "lineno", "?"))
        return "?"

    def list_(self, st, items, rest=None):
        return st.new("list", self.prog.b.list, items=tuple(items), rest=rest)

    def tuple_(self, st, items):
        return st.new("tuple", self.prog.b.tuple, items=tuple(items))

    def dict_(self, st, items=None, rest=None):
        return st.new("dict", self.prog.b.dict, items=dict(items or {}), rest=rest)

    def set_(self, st, items, rest=None):
        out = []
        for i in items:
            if i not in out:
                out.append(i)
        return st.new("set", self.prog.b.set, items=tuple(out), rest=rest)

    def obj(self, st, v):
        if isinstance(v, Ref):
            return st.get(v)
        return None

    def truth(self, st, v):
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ("list", "tuple", "set"):
                if o.items:
                    return True if not any(isinstance(i, Undef) for i in o.items) else None
                return False if o.rest is None else None
            if o.kind == "dict":
                if any(not isinstance(x, Undef) and not (isinstance(x, Union) and UNDEF in x.alts) for x in o.items.values()):
                    return True
                if o.items or o.rest is not None:
                    return None
                return False
            if o.kind == "inst":
                for nm in ("__bool__", "__len__"):
                    f = self.find_cls_attr(st, o.cls, nm)
                    if f is not None:
                        r = self.call(st, Bound(v, f) if isinstance(f, (Func, Native)) else f, [], {})
                        return self.truth(st, r)
                return True
            return True
        if isinstance(v, Union):
            ts = set(self.truth(st, a) for a in v.alts)
            return ts.pop() if len(ts) == 1 else None
        return truth(v)

    def imprecise(self, st, why):
        st.note(why)

    # ----------------------------------------------------------- exceptions
    def make_exc(self, st, name_or_cls, msg=None):
        cls = name_or_cls if isinstance(name_or_cls, Cls) else self.prog.exc(name_or_cls)
        args = [] if msg is None else [msg if isinstance(msg, Val) else Const(msg)]
        v = st.new("inst", cls, d={"args": self.tuple_(st, args)})
        return v

    def throw(self, st, name, msg=None):
        """Definitely raise."""
        v = self.make_exc(st, name, msg)
        self.throw_val(st, v)

    def throw_val(self, st, v):
        o = self.obj(st, v)
        self.sink.append((ExcInfo(v, o.cls if o else None, self.site()), st.move()))
        raise Dead()

    def may_throw(self, st, name, msg=None):
        s2 = st.copy()
        v = self.make_exc(s2, name, msg)
        self.sink.append((ExcInfo(v, s2.get(v).cls, self.site(), True), s2))

    def fault(self, st, name, msg=None):
        """An environment failure: joined in, or the chosen one of a numbered series."""
        P = self.prog
        if P.faults == "enum":
            i = len(P.fault_log)
            P.fault_log.append((name if isinstance(name, str) else name.name, self.site()))
            if i in P.fault_at:
                self.throw(st, name, msg)
        elif P.faults:
            self.may_throw(st, name, msg)

    # ------------------------------------------------------------- variables
    def lookup(self, st, fr, name):
        if name not in fr.globals_:
            e = fr.env
            while e is not None:
                o = st.heap[e]
                if name in o.d and (o.kind == "env" or o.kind == "class" and e == fr.env):
                    v = o.d[name]
                    return self.defined(st, v, "UnboundLocalError", name)
                e = o.items if o.kind in ("env", "class") else None
        m = st.heap.get("mod:" + fr.module)
        if m is not None and name in m.d:
            return self.defined(st, m.d[name], "NameError", name)
        v = self.prog.builtin(name)
        if v is not None:
            return v
        self.throw(st, "NameError", "name %r is not defined" % name)

    def defined(self, st, v, exc, name):
        if isinstance(v, Undef):
            self.throw(st, exc, name)
        if isinstance(v, Union) and UNDEF in v.alts:
            self.may_throw(st, exc, name)
            return mk_union([a for a in v.alts if a is not UNDEF])
        return v

    def assign_name(self, st, fr, name, val):
        if name in fr.globals_:
            g = fr.globals_
            if ("nonlocal", name) in g:
                e = st.heap[fr.env].items
                while e is not None:
                    if name in st.heap[e].d:
                        st.w(e).d[name] = val
                        return
                    e = st.heap[e].items
            st.event("write_global", fr.module, name, self.site())
            st.w("mod:" + fr.module).d[name] = val
            return
        st.w(fr.env).d[name] = val

    # ------------------------------------------------------------ attributes
    def find_cls_attr(self, st, cls, name, after=None):
        """Look a name up along the MRO; returns raw value or None."""
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            o = st.heap.get(c.addr)
            if o is not None and name in o.d:
                return o.d[name]
            if name in c.native:
                return c.native[name]
        return None

    def bind(self, st, raw, selfv, cls):
        if isinstance(raw, (Func, Native)):
            return Bound(selfv, raw) if selfv is not None else raw
        if isinstance(raw, Wrap):
            if raw.kind == "property":
                if selfv is None:
                    return raw
                return self.call(st, raw.a[0], [selfv], {})
            if raw.kind == "staticmethod":
                return raw.a[0]
            if raw.kind == "classmethod":
                return Bound(cls, raw.a[0])
            if raw.kind == "cached_property" and selfv is not None:
                return self.call(st, raw.a[0], [selfv], {})
        return raw

    def getattr_(self, st, v, name, default=None, has_default=False):
        if isinstance(v, Union):
            return self.split(st, v, lambda s, a: self.getattr_(s, a, name, default, has_default))
        r = self.getattr0(st, v, name)
        if r is None:
            if has_default:
                return default
            tn = self.type_name(st, v)
            self.throw(st, "AttributeError", "%r object has no attribute %r" % (tn, name))
        if isinstance(r, Union) and UNDEF in r.alts:
            vals = [a for a in r.alts if a is not UNDEF]
            if has_default:
                return mk_union(vals + list(alts(default)))
            self.may_throw(st, "AttributeError", name)
            return mk_union(vals)
        if isinstance(r, Undef):
            if has_default:
                return default
            self.throw(st, "AttributeError", name)
        return r

    def type_name(self, st, v):
        c = self.class_of(st, v)
        return c.name if c else "?"

    def class_of(self, st, v):
        b = self.prog.b
        if isinstance(v, Const):
            if v.v is None:
                return b.NoneType
            return {bool: b.bool, int: b.int, float: b.float, str: b.str, bytes: b.bytes}.get(type(v.v), b.object)
        if isinstance(v, Sym):
            return {"str": b.str, "int": b.int, "bool": b.bool, "float": b.float}.get(v.ty)
        if isinstance(v, Tmpl):
            return b.str
        if isinstance(v, Ref):
            return st.get(v).cls
        if isinstance(v, Cls):
            return b.type
        if isinstance(v, (Func, Native, Bound)):
            return b.function
        return None

    def getattr0(self, st, v, name):
        """Returns value, or None when the attribute does not exist."""
        if isinstance(v, Top):
            return Top("attr %s of %s" % (name, v.why))
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ("env",):
                return o.d.get(name)
            raw = self.find_cls_attr(st, o.cls, name) if o.cls else None
            if isinstance(raw, Wrap) and raw.kind in ("property",):
                return self.bind(st, raw, v, o.cls)
            if name in o.d:
                return o.d[name]
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.dict_(st, {Const(k): x for k, x in o.d.items()})
            if raw is not None:
                return self.bind(st, raw, v, o.cls)
            if o.kind == "inst":
                ga = self.find_cls_attr(st, o.cls, "__getattr__")
                if ga is not None:
                    return self.call(st, Bound(v, ga), [Const(name)], {})
                if getattr(o.cls, "opaque", False):
                    return Top("opaque attr " + name)
                m = self.prog.models.get(("object", name))
                return Bound(v, m) if m is not None else None
            m = self.prog.method_model(o.kind, name)
            if m is not None:
                return Bound(v, m)
            return None
        if isinstance(v, Cls):
            raw = self.find_cls_attr(st, v, name)
            if raw is not None:
                return self.bind(st, raw, None, v) if not isinstance(raw, Wrap) or raw.kind != "classmethod" else Bound(v, raw.a[0])
            if name == "__name__" or name == "__qualname__":
                return Const(v.name)
            if name == "__module__":
                return Const(v.module)
            if name == "__mro__":
                return self.tuple_(st, v.mro)
            if name == "__bases__":
                return self.tuple_(st, v.bases)
            if name == "__dict__":
                o = st.heap.get(v.addr)
                return self.dict_(st, {Const(k): x for k, x in (o.d if o else {}).items()})
            if name == "__doc__":
                return NONE
            m = self.prog.type_method(v, name)
            return m
        if isinstance(v, Mod):
            o = st.heap.get(v.addr)
            if o is not None and name in o.d:
                return o.d[name]
            r = self.prog.module_attr(self, st, v.name, name)
            return r
        if isinstance(v, (Const, Sym, Tmpl)):
            if isinstance(v, Sym) and v.ty == "any":
                return Top("attr of any")
            c = self.class_of(st, v)
            if name == "__class__":
                return c
            kind = c.name
            m = self.prog.method_model(kind, name)
            if m is not None:
                return Bound(v, m)
            return None
        if isinstance(v, (Func, Native)):
            if name in ("__name__", "__qualname__"):
                return Const(v.name)
            if name == "__doc__":
                return NONE
            if name == "__module__" and isinstance(v, Func):
                return Const(v.module)
            d = self.prog.func_attrs.get((id(v), name))
            return d
        if isinstance(v, Bound):
            if name == "__self__":
                return v.self_
            if name == "__func__":
                return v.func
            return self.getattr0(st, v.func, name)
        if isinstance(v, Wrap):
            if v.kind == "super":
                cls, selfv = v.a
                oc = selfv if isinstance(selfv, Cls) else self.class_of(st, selfv)
                raw = self.find_cls_attr(st, oc, name, after=cls)
                if raw is None:
                    m = self.prog.type_method(self.prog.b.object, name)
                    return Bound(selfv, m) if m is not None else None
                if isinstance(selfv, Cls):
                    return self.bind(st, raw, None, selfv) if not (isinstance(raw, Wrap) and raw.kind == "classmethod") else Bound(selfv, raw.a[0])
                return self.bind(st, raw, selfv, oc)
            if v.kind == "property" and name in ("setter", "getter", "deleter"):
                idx = {"getter": 0, "setter": 1, "deleter": 2}[name]

                def mk(I, s, args, kw, v=v, idx=idx):
                    a = list(v.a) + [None] * (3 - len(v.a))
                    a[idx] = args[0]
                    return Wrap("property", *a)
                return Native("property." + name, mk)
            if v.kind == "property" and name in ("fget", "fset"):
                return v.a[0 if name == "fget" else 1]
            if v.kind == "slice":
                return None
        return None

    def setattr_(self, st, v, name, val):
        if isinstance(v, Union):
            return self.split(st, v, lambda s, a: self.setattr_(s, a, name, val))
        if isinstance(v, Top):
            return NONE
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == "inst" or o.kind == "env":
                if o.cls is not None:
                    raw = self.find_cls_attr(st, o.cls, name)
                    if isinstance(raw, Wrap) and raw.kind == "property":
                        if len(raw.a) > 1 and raw.a[1] is not None:
                            self.call(st, raw.a[1], [v, val], {})
                            return NONE
                        self.throw(st, "AttributeError", "can't set attribute " + name)
                    sa = self.find_cls_attr(st, o.cls, "__setattr__")
                    if sa is not None and not isinstance(sa, Native):
                        self.call(st, Bound(v, sa), [Const(name), val], {})
                        return NONE
                self.raw_setattr(st, v, name, val)
                return NONE
            self.throw(st, "AttributeError", name)
        if isinstance(v, Cls):
            st.event("write_class", v.module + "." + v.name, name, self.site())
            if v.addr not in st.heap:
                st.new("class", d={}, addr=v.addr)
            st.w(v.addr).d[name] = val
            return NONE
        if isinstance(v, Mod):
            st.event("write_module", v.name, name, self.site())
            if v.addr not in st.heap:
                st.new("mod", d={}, addr=v.addr)
            st.w(v.addr).d[name] = val
            return NONE
        if isinstance(v, (Func, Native)):
            self.prog.func_attrs[(id(v), name)] = val
            return NONE
        self.throw(st, "AttributeError", name)

    def raw_setattr(self, st, v, name, val):
        st.w(v).d[name] = val

    def delattr_(self, st, v, name):
        if isinstance(v, Union):
            return self.split(st, v, lambda s, a: self.delattr_(s, a, name))
        if isinstance(v, Ref):
            o = st.get(v)
            if name not in o.d:
                self.throw(st, "AttributeError", name)
            cur = o.d[name]
            if isinstance(cur, Union) and UNDEF in cur.alts:
                self.may_throw(st, "AttributeError", name)
            del st.w(v).d[name]
        elif isinstance(v, Mod) or isinstance(v, Cls):
            st.event("write_class", repr(v), name, self.site())
            st.w(v.addr).d.pop(name, None)
        return NONE

    def split(self, st, v, fn):
        """Apply fn to every alternative of v on its own state and join."""
        if not isinstance(v, Union):
            return fn(st, v)
        outs, vals = [], []
        for a in v.alts:
            s = st.copy()
            try:
                vals.append(fn(s, a))
                outs.append(s)
            except Dead:
                pass
        if not outs:
            raise Dead()
        st.assign(join_states(outs))
        return mk_union([x for v2 in vals for x in alts(v2 if v2 is not None else NONE)])

    def exec_module(self, name, tree, st):
        fr = Frame(None, "mod:" + name, name)
        d, self.depth = self.depth, 0
        try:
            self.exec_block(tree.body, st, fr)
        finally:
            self.depth = d

    def guarded(self, st, fn):
        """Run fn on st, capturing exceptions: (value, alive, [(exc, state)])."""
        outer, self.sink = self.sink, []
        alive, v = True, None
        try:
            try:
                v = fn(st)
            except Dead:
                alive = False
            mine = self.sink
        finally:
            self.sink = outer
        return v, alive, mine

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            self.exec_stmt(s, st, fr)

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.prog.step_limit:
            raise AnalysisBroken("step limit")
        self.site_stack.append((fr.module, s))
        try:
            m = getattr(self, "s_" + s.__class__.__name__, None)
            if m is None:
                self.imprecise(st, "unsupported statement " + s.__class__.__name__)
                return
            m(s, st, fr)
        finally:
            self.site_stack.pop()

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Import(self, s, st, fr):
        for a in s.names:
            self.prog.import_module(self, st, a.name)
            if a.asname:
                self.assign_name(st, fr, a.asname, Mod(a.name))
            else:
                self.assign_name(st, fr, a.name.split(".")[0], Mod(a.name.split(".")[0]))

    def s_ImportFrom(self, s, st, fr):
        modname = s.module or ""
        if s.level:
            base = fr.module.split(".")
            if not self.prog.is_pkg(fr.module):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            modname = ".".join(base + ([s.module] if s.module else []))
        if modname == "__future__":
            return
        if not self.prog.import_module(self, st, modname):
            if not self.prog.known_external(modname):
                self.throw(st, "ImportError", modname)
        for a in s.names:
            if a.name == "*":
                o = st.heap.get("mod:" + modname)
                if o is None:
                    self.imprecise(st, "import * from " + modname)
                    continue
                names = None
                al = o.d.get("__all__")
                if al is not None and isinstance(al, Ref):
                    names = [x.v for x in st.get(al).items if isinstance(x, Const)]
                for k, v in list(o.d.items()):
                    if (names is None and not k.startswith("_")) or (names is not None and k in names):
                        self.assign_name(st, fr, k, v)
                continue
            v = self.getattr0(st, Mod(modname), a.name)
            if v is None:
                sub = modname + "." + a.name
                if self.prog.import_module(self, st, sub):
                    v = Mod(sub)
                else:
                    self.throw(st, "ImportError", "cannot import name " + a.name)
            self.assign_name(st, fr, a.asname or a.name, v)

    def make_func(self, node, st, fr):
        a = node.args
        defaults = [self.ev(d, st, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, st, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        env = fr.env if st.heap[fr.env].kind == "env" else None
        if env is None and st.heap[fr.env].kind == "class":
            env = st.heap[fr.env].items if isinstance(st.heap[fr.env].items, (int, str)) else None
        f = Func(node, fr.module, env, defaults, kwd, fr.cls)
        return f

    def s_FunctionDef(self, s, st, fr):
        f = self.make_func(s, st, fr)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            v = self.call(st, dv, [v], {})
        self.assign_name(st, fr, s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, st, fr)
            if isinstance(v, Cls):
                bases.append(v)
            else:
                bases.append(self.prog.opaque_class(ast.unparse(b)))
        if not bases:
            bases = [self.prog.b.object]
        cls = Cls(s.name, bases, fr.module, node=s)
        if cls.addr in st.heap and fr.func is not None:
            cls.addr += "#%d" % next(_ids)
        for b in bases:
            if getattr(b, "opaque", False):
                cls.opaque = True
        outer = fr.env if st.heap[fr.env].kind == "env" else None
        st.new("class", cls=None, d={}, items=outer, addr=cls.addr)
        cfr = Frame(fr.func, cls.addr, fr.module, cls=cls)
        cfr.globals_ = set()
        self.exec_block(s.body, st, cfr)
        self.prog.register_class(cls)
        v = cls
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            v = self.call(st, dv, [v], {})
        self.assign_name(st, fr, s.name, v)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st.move(), v))
        raise Dead()

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = st.w(fr.env)
                o.d.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr_(st, self.ev(t.value, st, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                c = self.ev(t.value, st, fr)
                k = self.ev_index(t.slice, st, fr)
                self.delitem(st, c, k)

    def delitem(self, st, c, k):
        o = self.obj(st, c)
        if o is None:
            return
        if o.kind == "dict":
            if k in o.items:
                w = st.w(c)
                del w.items[k]
            elif o.rest is None:
                self.throw(st, "KeyError")
        elif o.kind == "list":
            items = list(o.items)
            if isinstance(k, Const) and isinstance(k.v, int) and o.rest is None:
                if -len(items) <= k.v < len(items):
                    del items[k.v]
                    st.w(c).items = tuple(items)
                else:
                    self.throw(st, "IndexError")
            elif isinstance(k, Wrap) and k.kind == "slice" and o.rest is None:
                sl = self.const_slice(k)
                if sl is not None:
                    del items[sl]
                    st.w(c).items = tuple(items)
                else:
                    self.imprecise(st, "del slice")
            else:
                self.imprecise(st, "del index")

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, fr, t.id)
            r = self.augop(st, op, cur, self.ev(s.value, st, fr))
            self.assign_name(st, fr, t.id, r)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            cur = self.getattr_(st, base, t.attr)
            r = self.augop(st, op, cur, self.ev(s.value, st, fr))
            self.setattr_(st, base, t.attr, r)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            k = self.ev_index(t.slice, st, fr)
            cur = self.getitem(st, base, k)
            r = self.augop(st, op, cur, self.ev(s.value, st, fr))
            self.setitem(st, base, k, r)

    def augop(self, st, op, a, b):
        o = self.obj(st, a)
        if op == "+" and o is not None and o.kind == "list":
            items, rest = self.iterate(st, b)
            self.list_extend(st, a, items, rest)
            return a
        if o is not None and o.kind == "inst":
            f = self.find_cls_attr(st, o.cls, {"+": "__iadd__"}.get(op, "__none__"))
            if f is not None:
                return self.call(st, Bound(a, f), [b], {})
        if op == "|" and o is not None and o.kind == "set":
            items, rest = self.iterate(st, b)
            w = st.w(a)
            w.items = w.items + tuple(i for i in items if i not in w.items)
            if rest is not None:
                w.rest = rest if w.rest is None else join(w.rest, rest)
            return a
        if op == "-" and o is not None and o.kind == "set":
            r = self.binop(st, op, a, b)
            ro = self.obj(st, r)
            if ro is not None and ro.kind == "set":
                w = st.w(a)
                w.items, w.rest = ro.items, ro.rest
                return a
        return self.binop(st, op, a, b)

    def list_extend(self, st, a, items, rest):
        w = st.w(a)
        if w.rest is not None:
            r = w.rest
            for i in items:
                r = join(r, i)
            if rest is not None:
                r = join(r, rest)
            w.rest = r
        else:
            w.items = w.items + tuple(items)
            w.rest = rest

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.assign_name(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(st, self.ev(t.value, st, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, st, fr)
            k = self.ev_index(t.slice, st, fr)
            self.setitem(st, c, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, elts, v, st, fr):
        if isinstance(v, Union):
            # join element-wise
            def one(s, a):
                self.unpack(elts, a, s, fr)
                return NONE
            self.split(st, v, one)
            return
        items, rest = self.iterate(st, v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        if rest is not None or isinstance(v, Top):
            if not isinstance(v, Top):
                self.may_throw(st, "ValueError", "unpack")
            for i, e in enumerate(elts):
                if i < len(items) and not star:
                    x = items[i]
                    self.assign(e, x, st, fr)
                elif isinstance(e, ast.Starred):
                    self.assign(e.value, self.list_(st, [], rest), st, fr)
                else:
                    self.assign(e, rest, st, fr)
            return
        if star:
            k = star[0]
            if len(items) < n - 1:
                self.throw(st, "ValueError", "unpack")
            after = n - 1 - k
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, st, fr)
            self.assign(elts[k].value, self.list_(st, items[k:len(items) - after]), st, fr)
            if after:
                for e, x in zip(elts[k + 1:], items[-after:]):
                    self.assign(e, x, st, fr)
            return
        if len(items) != n:
            self.throw(st, "ValueError", "not enough or too many values to unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, st, fr)

    def s_If(self, s, st, fr):
        t, f = self.cond(s.test, st, fr)
        outs = []
        for b, body in ((t, s.body), (f, s.orelse)):
            if b is None:
                continue
            try:
                self.exec_block(body, b, fr)
                outs.append(b)
            except Dead:
                pass
        if not outs:
            raise Dead()
        st.assign(join_states(outs))

    def s_Match(self, s, st, fr):
        self.imprecise(st, "match statement")

    def s_Assert(self, s, st, fr):
        t, f = self.cond(s.test, st, fr)
        if f is not None:
            v = self.make_exc(f, "AssertionError")
            self.sink.append((ExcInfo(v, f.get(v).cls, self.site(), t is not None), f))
        if t is None:
            raise Dead()
        st.assign(t)

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = fr.loops and None
            e = self.prog.cur_exc[-1] if self.prog.cur_exc else None
            if e is None:
                self.throw(st, "RuntimeError", "No active exception to reraise")
            self.sink.append((ExcInfo(e.val, e.cls, e.site, e.may), st.copy()))
            raise Dead()
        v = self.ev(s.exc, st, fr)
        if s.cause is not None:
            self.ev(s.cause, st, fr)
        outs = False
        for a in alts(v):
            if isinstance(a, Cls):
                s2 = st.copy()
                try:
                    iv = self.call(s2, a, [], {})
                except Dead:
                    continue
                self.sink.append((ExcInfo(iv, a, self.site()), s2))
            elif isinstance(a, Ref):
                self.sink.append((ExcInfo(a, st.get(a).cls, self.site()), st.copy()))
            else:
                self.sink.append((ExcInfo(a, None, self.site()), st.copy()))
        raise Dead()

    def s_Try(self, s, st, fr):
        outer = self.sink
        mine = self.sink = []
        nret = len(fr.returns)
        lp = fr.loops[-1] if fr.loops else None
        nb, nc = (len(lp.breaks), len(lp.conts)) if lp else (0, 0)
        outs = []
        escaped = []            # (ExcInfo, state) leaving the statement
        normal = st.copy()
        try:
            try:
                self.exec_block(s.body, normal, fr)
                alive = True
            except Dead:
                alive = False
        finally:
            self.sink = outer
        # exceptions raised by body
        self.sink = escaped
        try:
            for exc, est in self.merge_excs(mine):
                cur = est
                for h in s.handlers:
                    m = self.match_handler(h, exc, cur, fr)
                    if m is False:
                        continue
                    hs = cur if m is True else cur.copy()
                    try:
                        if h.name:
                            self.assign_name(hs, fr, h.name, exc.val)
                        self.prog.cur_exc.append(exc)
                        try:
                            self.exec_block(h.body, hs, fr)
                        finally:
                            self.prog.cur_exc.pop()
                        outs.append(hs)
                    except Dead:
                        pass
                    if m is True:
                        cur = None
                        break
                if cur is not None:
                    escaped.append((exc, cur))
            if alive:
                try:
                    self.exec_block(s.orelse, normal, fr)
                    outs.append(normal)
                except Dead:
                    pass
        finally:
            self.sink = outer
        if s.finalbody:
            def fin(state):
                try:
                    self.exec_block(s.finalbody, state, fr)
                    return True
                except Dead:
                    return False
            res = []
            for o in outs:
                if fin(o):
                    res.append(o)
            outs = res
            newrets = fr.returns[nret:]
            del fr.returns[nret:]
            keep = []
            for rs, rv in newrets:
                if fin(rs):
                    keep.append((rs, rv))
            # returns executed inside finally were appended by fin itself
            fr.returns.extend(keep)
            if lp:
                for lst, n in ((lp.breaks, nb), (lp.conts, nc)):
                    new = lst[n:]
                    del lst[n:]
                    lst.extend([x for x in new if fin(x)])
            esc2 = []
            for exc, es in escaped:
                if fin(es):
                    esc2.append((exc, es))
            escaped = esc2
        self.sink.extend(escaped)
        if not outs:
            raise Dead()
        st.assign(join_states(outs))

    s_TryStar = s_Try

    def merge_excs(self, lst):
        groups = {}
        order = []
        for exc, est in lst:
            key = (exc.cls, exc.site, exc.may)
            if key in groups:
                groups[key].append((exc, est))
            else:
                groups[key] = [(exc, est)]
                order.append(key)
        out = []
        for k in order:
            g = groups[k]
            if len(g) <= 3:
                out.extend(g)
            else:
                out.append((g[0][0], join_states([x[1] for x in g])))
        return out

    def match_handler(self, h, exc, st, fr):
        if h.type is None:
            return True
        tv = self.ev(h.type, st, fr)
        cs = []
        for a in alts(tv):
            o = self.obj(st, a)
            if o is not None and o.kind == "tuple":
                cs.extend(o.items)
            else:
                cs.append(a)
        if exc.cls is None:
            return None
        res = False
        for c in cs:
            if isinstance(c, Cls):
                if exc.cls.issub(c):
                    return True
                if getattr(exc.cls, "family", None) and c.issub(exc.cls):
                    res = None
            elif isinstance(c, Top):
                res = None
        return res

    def s_With(self, s, st, fr):
        exits = []
        for item in s.items:
            cm = self.ev(item.context_expr, st, fr)
            ent = self.getattr0(st, cm, "__enter__") if not isinstance(cm, Union) else None
            if ent is not None and not isinstance(ent, Top):
                v = self.call(st, ent, [], {})
            else:
                v = cm
            exits.append(cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, fr)
        outer = self.sink
        mine = self.sink = []
        nret = len(fr.returns)
        alive = True
        try:
            try:
                self.exec_block(s.body, st, fr)
            except Dead:
                alive = False
        finally:
            self.sink = outer

        def leave(state, exc=None):
            sup = None
            for cm in reversed(exits):
                ex = self.getattr0(state, cm, "__exit__") if not isinstance(cm, Union) else None
                if ex is not None and not isinstance(ex, Top):
                    a = [NONE, NONE, NONE] if exc is None else [exc.cls or Top("exc"), exc.val, NONE]
                    r = self.call(state, ex, a, {})
                    if exc is not None and self.truth(state, r) is True:
                        sup = True
            return sup
        outs = []
        if alive:
            leave(st)
            outs.append(st.copy())
        for rs, rv in fr.returns[nret:]:
            try:
                leave(rs)
            except Dead:
                pass
        for exc, es in mine:
            try:
                if leave(es, exc):
                    outs.append(es)
                    continue
            except Dead:
                continue
            self.sink.append((exc, es))
        if not outs:
            raise Dead()
        st.assign(join_states(outs))

    s_AsyncWith = s_With

    def s_Global(self, s, st, fr):
        for n in s.names:
            fr.globals_.add(n)

    def s_Nonlocal(self, s, st, fr):
        for n in s.names:
            fr.globals_.add(n)
            fr.globals_.add(("nonlocal", n))

    def s_Break(self, s, st, fr):
        fr.loops[-1].breaks.append(st.move())
        raise Dead()

    def s_Continue(self, s, st, fr):
        fr.loops[-1].conts.append(st.move())
        raise Dead()

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        lp = Loop()
        fr.loops.append(lp)
        exhausted = None
        try:
            exhausted = self.run_for(s, it, st, fr, lp)
        finally:
            fr.loops.pop()
        outs = []
        if exhausted is not None:
            try:
                self.exec_block(s.orelse, exhausted, fr)
                outs.append(exhausted)
            except Dead:
                pass
        outs.extend(lp.breaks)
        if not outs:
            raise Dead()
        st.assign(join_states(outs))

    s_AsyncFor = s_For

    def body_once(self, s, st, fr, lp):
        """Run the loop body on st; returns state at the next iteration or None."""
        n = len(lp.conts)
        try:
            self.exec_block(s.body, st, fr)
            out = [st]
        except Dead:
            out = []
        out += lp.conts[n:]
        del lp.conts[n:]
        return join_states(out)

    def run_for(self, s, it, st, fr, lp):
        if isinstance(it, Union):
            outs = []
            for a in it.alts:
                r = self.run_for(s, a, st.copy(), fr, lp)
                if r is not None:
                    outs.append(r)
            return join_states(outs)
        o = self.obj(st, it)
        # iterator objects with a __next__ of their own
        if o is not None and o.kind in ("inst", "iter"):
            itv = self.get_iter(st, it)
            io = self.obj(st, itv)
            if io is not None and (io.kind == "iter" or io.kind == "inst"):
                cur = st
                dones = []
                for _i in range(MAX_ITER):
                    s2 = cur
                    v, stop = self.next_(s2, itv)
                    if stop is not None:
                        dones.append(stop)
                    if v is None:
                        return join_states(dones)
                    self.assign(s.target, v, s2, fr)
                    cur = self.body_once(s, s2, fr, lp)
                    if cur is None:
                        return join_states(dones)
                self.imprecise(cur, "for bound")
                dones.append(cur)
                return join_states(dones)
        # live iteration over lists sees appended elements
        if o is not None and o.kind == "list" and o.rest is None:
            cur = st
            i = 0
            dones = []
            while True:
                lo = cur.get(it)
                if lo.rest is not None:
                    break
                if i >= len(lo.items):
                    return join_states(dones + [cur])
                self.assign(s.target, lo.items[i], cur, fr)
                cur = self.body_once(s, cur, fr, lp)
                i += 1
                if cur is None:
                    return join_states(dones)
                if i > MAX_ITER:
                    self.imprecise(cur, "for bound")
                    return cur
            st = cur
        items, rest = self.iterate(st, it)
        cur = st
        for x in items:
            if isinstance(x, Undef) or isinstance(x, Union) and UNDEF in x.alts:
                skip = cur.copy()
                if not isinstance(x, Undef):
                    self.assign(s.target, mk_union([a for a in x.alts if a is not UNDEF]), cur, fr)
                    cur = join_states([skip, self.body_once(s, cur, fr, lp)])
                continue
            self.assign(s.target, x, cur, fr)
            cur = self.body_once(s, cur, fr, lp)
            if cur is None:
                return None
        if rest is not None:
            return self.fix(s, cur, fr, lp, lambda z: (self.assign(s.target, rest, z, fr), z)[1])
        return cur

    def fix(self, s, st, fr, lp, enter):
        """Iterate an unknown number of times with joins."""
        acc = st
        for i in range(3):
            z = acc.copy()
            z = enter(z)
            if z is None:
                break
            z = self.body_once(s, z, fr, lp)
            if z is None:
                break
            new = join_states([acc, z])
            if self.same_state(new, acc):
                acc = new
                break
            acc = new
        return acc

    def same_state(self, a, b):
        for k, o in dict.items(a.heap):
            p = b.heap.get(k)
            if p is o:
                continue
            if p is None:
                continue
            if not o.same(p):
                return False
        return True

    def s_While(self, s, st, fr):
        lp = Loop()
        fr.loops.append(lp)
        exits = []
        try:
            cur = st.copy()
            n = 0
            while True:
                t, f = self.cond(s.test, cur, fr)
                if f is not None:
                    exits.append(f)
                if t is None:
                    break
                if f is not None and t is not None:
                    # undecided condition: a few joined iterations
                    n += 20
                cur = self.body_once(s, t, fr, lp)
                if cur is None:
                    break
                n += 1
                if n > MAX_ITER // 2:
                    self.imprecise(cur, "while bound")
                    exits.append(cur)
                    break
        finally:
            fr.loops.pop()
        outs = []
        e = join_states(exits)
        if e is not None:
            try:
                self.exec_block(s.orelse, e, fr)
                outs.append(e)
            except Dead:
                pass
        outs.extend(lp.breaks)
        if not outs:
            raise Dead()
        st.assign(join_states(outs))

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """Returns (state if true, state if false); consumes st."""
        if isinstance(e, ast.BoolOp):
            cur = st
            done = []
            isand = isinstance(e.op, ast.And)
            for i, v in enumerate(e.values):
                try:
                    t, f = self.cond(v, cur, fr)
                except Dead:
                    cur = None
                    break
                go, stop = (t, f) if isand else (f, t)
                if stop is not None:
                    done.append(stop)
                cur = go
                if cur is None:
                    break
            d = join_states(done)
            if d is None and cur is None:
                raise Dead()
            return (cur, d) if isand else (d, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st, fr)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return self.cond_compare(e, st, fr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.cond(e.args[0], st, fr)
        v = self.ev(e, st, fr)
        b = self.truth(st, v)
        if b is True:
            return st, None
        if b is False:
            return None, st
        t = st.copy()
        f = st
        self.refine_truth(t, e, v, True, fr)
        self.refine_truth(f, e, v, False, fr)
        return t, f

    def cond_compare(self, e, st, fr):
        op = e.ops[0]
        l = self.ev(e.left, st, fr)
        r = self.ev(e.comparators[0], st, fr)
        res = self.compare(st, op, l, r)
        b = self.truth(st, res)
        if b is True:
            return st, None
        if b is False:
            return None, st
        t = st.copy()
        f = st
        if isinstance(op, (ast.Eq, ast.Is)):
            self.refine_eq(t, e.left, l, r, True, fr)
            self.refine_eq(f, e.left, l, r, False, fr)
            self.refine_eq(t, e.comparators[0], r, l, True, fr)
            self.refine_eq(f, e.comparators[0], r, l, False, fr)
        elif isinstance(op, (ast.NotEq, ast.IsNot)):
            self.refine_eq(t, e.left, l, r, False, fr)
            self.refine_eq(f, e.left, l, r, True, fr)
            self.refine_eq(t, e.comparators[0], r, l, False, fr)
            self.refine_eq(f, e.comparators[0], r, l, True, fr)
        elif isinstance(op, (ast.In, ast.NotIn)):
            o = self.obj(st, r)
            if o is not None and o.kind in ("list", "tuple", "set") and o.rest is None and isinstance(l, Union):
                ins, outs = [], []
                for a in l.alts:
                    x = self.truth(st, self.contains(st, r, a))
                    if x is not False:
                        ins.append(a)
                    if x is not True:
                        outs.append(a)
                pos, neg = (t, f) if isinstance(op, ast.In) else (f, t)
                if ins:
                    self.set_loc(pos, e.left, mk_union(ins), fr)
                if outs:
                    self.set_loc(neg, e.left, mk_union(outs), fr)
        elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and isinstance(l, Union):
            ts, fs = [], []
            for a in l.alts:
                try:
                    s9 = st.copy()
                    x = self.truth(s9, self.compare(s9, op, a, r))
                except Dead:
                    continue
                if x is not False:
                    ts.append(a)
                if x is not True:
                    fs.append(a)
            if ts:
                self.set_loc(t, e.left, mk_union(ts), fr)
            if fs:
                self.set_loc(f, e.left, mk_union(fs), fr)
        return t, f

    def set_loc(self, st, e, val, fr):
        """Refine the variable or attribute named by expression e."""
        try:
            if isinstance(e, ast.NamedExpr):
                e = e.target
            if isinstance(e, ast.Name):
                env = fr.env
                while env is not None:
                    o = st.heap[env]
                    if e.id in o.d:
                        st.w(env).d[e.id] = val
                        return
                    env = o.items if o.kind == "env" else None
            elif isinstance(e, ast.Attribute):
                b = self.quiet(e.value, st, fr)
                self._set_attr_loc(st, b, e.attr, val)
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" \
                    and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                b = self.quiet(e.args[0], st, fr)
                self._set_attr_loc(st, b, e.args[1].value, val)
        except Dead:
            pass

    def _set_attr_loc(self, st, b, name, val):
        if isinstance(b, Ref):
            o = st.get(b)
            if o.kind == "inst" and name in o.d:
                st.w(b).d[name] = val

    def quiet(self, e, st, fr):
        """Evaluate a Name/Attribute chain without effects."""
        if isinstance(e, ast.Name):
            return self.lookup(st, fr, e.id)
        if isinstance(e, ast.Attribute):
            b = self.quiet(e.value, st, fr)
            if isinstance(b, Ref):
                o = st.get(b)
                if o.kind == "inst" and e.attr in o.d:
                    return o.d[e.attr]
        return None

    def refine_truth(self, st, e, v, want, fr):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len",) and len(e.args) == 1:
            inner = e.args[0]
            iv = self.quiet(inner, st, fr)
            if iv is not None:
                return self.refine_truth(st, inner, iv, want, fr)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "hasattr" and len(e.args) == 2 \
                and isinstance(e.args[1], ast.Constant):
            b = self.quiet(e.args[0], st, fr)
            if isinstance(b, Ref):
                o = st.get(b)
                if e.args[1].value in o.d:
                    cur = o.d[e.args[1].value]
                    if isinstance(cur, Union) and UNDEF in cur.alts:
                        if want:
                            st.w(b).d[e.args[1].value] = mk_union([a for a in cur.alts if a is not UNDEF])
                        else:
                            del st.w(b).d[e.args[1].value]
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            iv = self.quiet(e.args[0], st, fr)
            if isinstance(iv, Union):
                cv = self.ev(e.args[1], st, fr)
                keep = []
                for a in iv.alts:
                    x = self.truth(st, self.prog.isinstance_(self, st, a, cv))
                    if x is None or x is want:
                        keep.append(a)
                if keep:
                    self.set_loc(st, e.args[0], mk_union(keep), fr)
            return
        nv = self.filter_truth(st, v, want)
        if nv is not None and nv != v or (isinstance(nv, Sym) and nv.facts != getattr(v, "facts", None)):
            self.set_loc(st, e, nv, fr)

    def filter_truth(self, st, v, want):
        if isinstance(v, Union):
            keep = []
            for a in v.alts:
                t = self.truth(st, a)
                if t is None:
                    keep.append(self.filter_truth(st, a, want) or a)
                elif t is want:
                    keep.append(a)
            return mk_union(keep) if keep else None
        if isinstance(v, Sym):
            if v.ty == "bool":
                return B(want)
            if want:
                return v.with_("T")
            if v.ty == "str":
                return EMPTY
            if v.ty == "int":
                return Const(0)
            return v.with_("F")
        return v

    def refine_eq(self, st, e, v, other, want, fr):
        if isinstance(v, Union):
            keep = []
            for a in v.alts:
                x = self.truth(st, self.eq(st, a, other))
                if x is None or x is want:
                    keep.append(other if (want and isinstance(a, Sym) and isinstance(other, Const)) else a)
            if keep:
                self.set_loc(st, e, mk_union(keep), fr)
        elif isinstance(v, Sym) and isinstance(other, Const) and want:
            self.set_loc(st, e, other, fr)
        elif isinstance(v, Sym) and v.ty == "bool" and isinstance(other, Const) and isinstance(other.v, bool) and not want:
            self.set_loc(st, e, B(not other.v), fr)

    # ----------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            self.imprecise(st, "unsupported expression " + e.__class__.__name__)
            return Top("unsupported " + e.__class__.__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return Const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(st, fr, e.id)

    def e_Attribute(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.site_stack.append((fr.module, e))
        try:
            return self.getattr_(st, v, e.attr)
        finally:
            self.site_stack.pop()

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign_name(st, fr, e.target.id, v)
        return v

    def e_Tuple(self, e, st, fr):
        items, rest = self.ev_elts(e.elts, st, fr)
        if rest is not None:
            return self.list_(st, items, rest)
        return self.tuple_(st, items)

    def e_List(self, e, st, fr):
        items, rest = self.ev_elts(e.elts, st, fr)
        return self.list_(st, items, rest)

    def e_Set(self, e, st, fr):
        items, rest = self.ev_elts(e.elts, st, fr)
        return self.set_(st, items, rest)

    def ev_elts(self, elts, st, fr):
        items, rest = [], None
        for x in elts:
            if isinstance(x, ast.Starred):
                i, r = self.iterate(st, self.ev(x.value, st, fr))
                if rest is None:
                    items.extend(i)
                    rest = r
                else:
                    for y in i:
                        rest = join(rest, y)
                    if r is not None:
                        rest = join(rest, r)
            else:
                v = self.ev(x, st, fr)
                if rest is None:
                    items.append(v)
                else:
                    rest = join(rest, v)
        return items, rest

    def e_Dict(self, e, st, fr):
        r = self.dict_(st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st, fr)
                so = self.obj(st, src)
                if so is not None and so.kind == "dict":
                    st.w(r).items.update(so.items)
                    if so.rest is not None:
                        st.w(r).rest = so.rest
                else:
                    st.w(r).rest = Top("dict **")
            else:
                kv = self.ev(k, st, fr)
                vv = self.ev(v, st, fr)
                self.setitem(st, r, kv, vv)
        return r

    def e_JoinedStr(self, e, st, fr):
        acc = EMPTY
        for p in e.values:
            if isinstance(p, ast.Constant):
                acc = self.concat(st, acc, Const(p.value))
            else:
                v = self.ev(p.value, st, fr)
                conv = p.conversion
                if conv == 114:
                    v = self.prog.repr_(self, st, v)
                else:
                    v = self.prog.str_(self, st, v) if not p.format_spec else self.format_spec(st, v, self.ev(p.format_spec, st, fr))
                acc = self.concat(st, acc, v)
        return acc

    def format_spec(self, st, v, spec):
        if isinstance(v, Const) and isinstance(spec, Const):
            try:
                return Const(format(v.v, spec.v))
            except Exception:
                self.throw(st, "ValueError", "format")
        if isinstance(spec, Const) and spec.v in ("d", "s", ""):
            return self.prog.str_(self, st, v)
        return Top("format", frags_of(v))

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st.copy(), fr)
            # evaluate for effects on st
            outs = [x for x in (t, f) if x is not None]
            st.assign(join_states(outs))
            if t is None:
                return TRUE
            if f is None:
                return FALSE
            return Sym("not@%d" % next(_ids), "bool")
        v = self.ev(e.operand, st, fr)
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            return Const(-v.v if isinstance(e.op, ast.USub) else +v.v if isinstance(e.op, ast.UAdd) else ~v.v)
        if isinstance(v, Sym):
            return Sym("neg(%s)" % v.label, v.ty)
        return Top("unary")

    def e_BinOp(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        r = self.ev(e.right, st, fr)
        self.site_stack.append((fr.module, e))
        try:
            return self.binop(st, BINOPS.get(type(e.op), "?"), l, r)
        finally:
            self.site_stack.pop()

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        res = []
        outs = []
        cur = st.copy()
        n = len(e.values)
        for i, x in enumerate(e.values):
            v = self.ev(x, cur, fr)
            if i == n - 1:
                res.append(v)
                outs.append(cur)
                break
            t = self.truth(cur, v)
            if t is (not isand):
                res.append(v)
                outs.append(cur)
                break
            if t is isand:
                continue
            # unknown
            stopst = cur.copy()
            self.refine_truth(stopst, x, v, not isand, fr)
            fv = self.filter_truth(stopst, v, not isand)
            res.append(fv if fv is not None else v)
            outs.append(stopst)
            self.refine_truth(cur, x, v, isand, fr)
        st.assign(join_states(outs))
        return mk_union([a for v in res for a in alts(v)])

    def e_IfExp(self, e, st, fr):
        t, f = self.cond(e.test, st.copy(), fr)
        outs, vals = [], []
        for s, x in ((t, e.body), (f, e.orelse)):
            if s is None:
                continue
            try:
                vals.append(self.ev(x, s, fr))
                outs.append(s)
            except Dead:
                pass
        if not outs:
            raise Dead()
        st.assign(join_states(outs))
        return mk_union([a for v in vals for a in alts(v)])

    def e_Compare(self, e, st, fr):
        l = self.ev(e.left, st, fr)
        acc = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st, fr)
            v = self.compare(st, op, l, r)
            t = self.truth(st, v)
            if t is False:
                return FALSE
            acc.append((t, v))
            l = r
        if all(t is True for t, v in acc):
            return TRUE
        if len(acc) == 1:
            return acc[0][1]
        return Sym("cmp@%d" % next(_ids), "bool")

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        y = fr.yields
        if y is not None:
            self.list_extend(st, y, [v], None)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        items, rest = self.iterate(st, self.ev(e.value, st, fr))
        if fr.yields is not None:
            self.list_extend(st, fr.yields, items, rest)
        return NONE

    def e_Slice(self, e, st, fr):
        f = lambda x: self.ev(x, st, fr) if x is not None else NONE
        return Wrap("slice", f(e.lower), f(e.upper), f(e.step))

    def ev_index(self, e, st, fr):
        return self.ev(e, st, fr)

    def const_slice(self, w):
        if all(isinstance(x, Const) for x in w.a):
            return slice(*[x.v for x in w.a])
        return None

    def e_Subscript(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        k = self.ev_index(e.slice, st, fr)
        self.site_stack.append((fr.module, e))
        try:
            return self.getitem(st, v, k)
        finally:
            self.site_stack.pop()

    # comprehensions -------------------------------------------------------
    def comp(self, gens, st, fr, emit):
        if not gens:
            emit(st)
            return
        g = gens[0]
        it = self.ev(g.iter, st, fr)
        for a in alts(it):
            pass
        items, rest = self.iterate(st, it)

        def one(s, x):
            self.assign(g.target, x, s, fr)
            cur = s
            dead = []
            for c in g.ifs:
                t, f = self.cond(c, cur, fr)
                if f is not None:
                    dead.append(f)
                cur = t
                if cur is None:
                    break
            if cur is not None:
                self._certain.append(not dead and self._certain[-1])
                try:
                    self.comp(gens[1:], cur, fr, emit)
                finally:
                    self._certain.pop()
                dead.append(cur)
            s.assign(join_states(dead))
        for x in items:
            if isinstance(x, Undef):
                continue
            if isinstance(x, Union) and UNDEF in x.alts:
                self._certain.append(False)
                try:
                    one(st, mk_union([a for a in x.alts if a is not UNDEF]))
                finally:
                    self._certain.pop()
                continue
            one(st, x)
        if rest is not None:
            self._certain.append(False)
            try:
                one(st, rest)
            finally:
                self._certain.pop()

    _certain = [True]

    def comp_env(self, st, fr):
        env = st.new("env", items=fr.env if st.heap[fr.env].kind == "env" else (st.heap[fr.env].items if st.heap[fr.env].kind == "class" else None))
        nfr = Frame(fr.func, env.addr, fr.module, fr.cls, fr.selfv)
        nfr.returns = fr.returns
        if st.heap[fr.env].kind == "class":
            st.w(env).d.update(st.heap[fr.env].d)
        return nfr

    def collect(self, e, st, fr, elt):
        nfr = self.comp_env(st, fr)
        saved, self._certain = self._certain, [True]
        out = []
        try:
            def emit(s):
                v = elt(s, nfr)
                out.append((v, self._certain[-1]))
            self.comp(e.generators, st, nfr, emit)
        finally:
            self._certain = saved
        return out

    def pack(self, out):
        """certain elements first-class, uncertain ones into rest."""
        items, rest = [], None
        for v, c in out:
            if c and rest is None:
                items.append(v)
            else:
                rest = v if rest is None else join(rest, v)
        return items, rest

    def e_ListComp(self, e, st, fr):
        items, rest = self.pack(self.collect(e, st, fr, lambda s, f: self.ev(e.elt, s, f)))
        return self.list_(st, items, rest)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        items, rest = self.pack(self.collect(e, st, fr, lambda s, f: self.ev(e.elt, s, f)))
        return self.set_(st, items, rest)

    def e_DictComp(self, e, st, fr):
        out = self.collect(e, st, fr, lambda s, f: (self.ev(e.key, s, f), self.ev(e.value, s, f)))
        r = self.dict_(st)
        for (k, v), c in out:
            if c:
                self.setitem(st, r, k, v)
            else:
                w = st.w(r)
                if isinstance(k, (Const, Sym, Tmpl)):
                    w.items[k] = join(w.items.get(k, UNDEF), v)
                else:
                    w.rest = v if w.rest is None else join(w.rest, v)
        return r

    # calls ----------------------------------------------------------------
    def e_Call(self, e, st, fr):
        fn = self.ev(e.func, st, fr)
        args, kwargs = [], {}
        rest = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                i, r = self.iterate(st, self.ev(a.value, st, fr))
                args.extend(i)
                if r is not None:
                    rest = r
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, st, fr)
                o = self.obj(st, d)
                if o is not None and o.kind == "dict":
                    for kk, vv in o.items.items():
                        if isinstance(kk, Const):
                            kwargs[kk.v] = vv
                    if o.rest is not None:
                        kwargs["**"] = o.rest
                else:
                    self.imprecise(st, "** of unknown")
            else:
                kwargs[k.arg] = self.ev(k.value, st, fr)
        self.site_stack.append((fr.module, e))
        try:
            # zero-argument super()
            if isinstance(fn, Cls) and fn is self.prog.b.super and not args:
                f2 = fr
                cls = fr.cls or (fr.func.cls if fr.func else None)
                selfv = fr.selfv
                return Wrap("super", cls, selfv)
            if isinstance(fn, Native) and fn.name in ("locals", "vars") and not args:
                o = st.heap[fr.env]
                return self.dict_(st, {Const(k): v for k, v in o.d.items()})
            if rest is not None:
                args.append(Wrap("restargs", rest))
            return self.call(st, fn, args, kwargs)
        finally:
            self.site_stack.pop()

    def call(self, st, fn, args, kwargs):
        if isinstance(fn, Union):
            return self.split(st, fn, lambda s, f: self.call(s, f, list(args), dict(kwargs)))
        if isinstance(fn, Bound):
            return self.call(st, fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, Native):
            if any(isinstance(a, Wrap) and a.kind == "restargs" for a in args):
                args = [a for a in args if not (isinstance(a, Wrap) and a.kind == "restargs")]
                self.imprecise(st, "unknown *args to " + fn.name)
            return fn.fn(self, st, list(args), dict(kwargs))
        if isinstance(fn, Func):
            return self.call_func(st, fn, args, kwargs)
        if isinstance(fn, Cls):
            return self.instantiate(st, fn, args, kwargs)
        if isinstance(fn, Ref):
            o = st.get(fn)
            if o.cls is not None:
                f = self.find_cls_attr(st, o.cls, "__call__")
                if f is not None:
                    return self.call(st, Bound(fn, f), args, kwargs)
            if o.kind == "inst" and getattr(o.cls, "opaque", False):
                return Top("opaque call")
            self.throw(st, "TypeError", "object is not callable")
        if isinstance(fn, Top):
            self.escape(st, args, kwargs)
            return Top("call of " + fn.why)
        if isinstance(fn, Wrap):
            if fn.kind == "partial":
                f, a, k = fn.a
                k = dict(k)
                k.update(kwargs)
                return self.call(st, f, list(a) + list(args), k)
            return Top("call of wrap")
        if isinstance(fn, Const):
            self.throw(st, "TypeError", "not callable")
        return Top("call")

    def escape(self, st, args, kwargs):
        """Arguments handed to unknown code: mutable ones lose precision."""
        st.note("call of unknown function at " + self.site())

    def instantiate(self, st, cls, args, kwargs):
        nat = None
        for c in cls.mro:
            if "__new__" in c.native:
                nat = c
                break
        if nat is not None:
            return nat.native["__new__"].fn(self, st, [cls] + list(args), dict(kwargs))
        # user-defined __new__
        nw = None
        for c in cls.mro:
            o = st.heap.get(c.addr)
            if o is not None and "__new__" in o.d:
                nw = o.d["__new__"]
                break
        if nw is not None:
            if isinstance(nw, Wrap):
                nw = nw.a[0]
            v = self.call(st, nw, [cls] + list(args), kwargs)
        else:
            v = st.new("inst", cls)
        init = self.find_cls_attr(st, cls, "__init__")
        if init is not None:
            self.call(st, Bound(v, init), args, kwargs)
        elif cls.issub(self.prog.b.BaseException):
            st.w(v).d["args"] = self.tuple_(st, args)
        elif getattr(cls, "opaque", False):
            pass
        elif (args or kwargs) and nw is None:
            self.throw(st, "TypeError", "%s() takes no arguments" % cls.name)
        return v

    def is_generator(self, node):
        r = self.prog.gen_cache.get(node)
        if r is None:
            r = False
            stack = list(node.body) if isinstance(node.body, list) else [node.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            self.prog.gen_cache[node] = r
        return r

    def has_closure(self, node):
        r = self.prog.clo_cache.get(node)
        if r is None:
            body = node.body if isinstance(node.body, list) else [node.body]
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for b in body for n in ast.walk(b))
            self.prog.clo_cache[node] = r
        return r

    def call_func(self, st, f, args, kwargs):
        q = "%s.%s" % (f.module, f.name if f.cls is None else f.cls.name + "." + f.name)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, st, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        self.touched.add(q)
        if self.depth >= MAX_DEPTH:
            self.imprecise(st, "call depth")
            return Top("depth")
        env = st.new("env", items=f.env)
        fr = Frame(f, env.addr, f.module, cls=f.cls, selfv=args[0] if args else None)
        self.bind_args(st, f, args, kwargs, fr)
        self.depth += 1
        gen = self.is_generator(f.node)
        if gen:
            fr.yields = self.list_(st, [])
        try:
            body = f.node.body
            if isinstance(body, list):
                try:
                    self.exec_block(body, st, fr)
                    fr.returns.append((st, NONE))
                except Dead:
                    pass
            else:
                v = self.ev(body, st, fr)
                fr.returns.append((st, v))
        finally:
            self.depth -= 1
        if not fr.returns:
            raise Dead()
        if len(fr.returns) == 1:
            s, v = fr.returns[0]
            if s is not st:
                st.assign(s)
            res = v
        else:
            st.assign(join_states([s for s, v in fr.returns]))
            res = mk_union([a for s, v in fr.returns for a in alts(v)])
        if not self.has_closure(f.node):
            st.heap.pop(env.addr, None)
        if gen:
            return st.new("iter", self.prog.b.iterator, d={"src": fr.yields}, items=0)
        return res

    def bind_args(self, st, f, args, kwargs, fr):
        a = f.node.args
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        d = {}
        args = list(args)
        restv = None
        if args and isinstance(args[-1], Wrap) and args[-1].kind == "restargs":
            restv = args.pop().a[0]
        kwargs = dict(kwargs)
        kwrest = kwargs.pop("**", None)
        for n, v in zip(pos, args):
            d[n] = v
        if len(args) > len(pos):
            if a.vararg:
                d[a.vararg.arg] = self.tuple_(st, args[len(pos):])
            else:
                self.throw(st, "TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
        elif a.vararg:
            d[a.vararg.arg] = self.tuple_(st, []) if restv is None else st.new("tuple", self.prog.b.tuple, items=(), rest=restv)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in d:
                    self.throw(st, "TypeError", "multiple values for argument " + k)
                d[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d[a.kwarg.arg] = self.dict_(st, {Const(k): v for k, v in extra.items()}, rest=kwrest)
        elif extra:
            self.throw(st, "TypeError", "%s() got an unexpected keyword argument %r" % (f.name, sorted(extra)[0]))
        off = len(pos) - len(f.defaults)
        for i, n in enumerate(pos):
            if n not in d:
                if i >= off:
                    d[n] = f.defaults[i - off]
                elif restv is not None or kwrest is not None:
                    d[n] = restv if restv is not None else kwrest
                else:
                    self.throw(st, "TypeError", "%s() missing required argument %r" % (f.name, n))
            elif restv is not None and i >= off and n not in d:
                d[n] = join(f.defaults[i - off], restv)
        for n in kwonly:
            if n not in d:
                if n in f.kwdefaults:
                    d[n] = f.kwdefaults[n]
                else:
                    self.throw(st, "TypeError", "missing keyword-only argument " + n)
        st.w(fr.env).d.update(d)

    # operators ------------------------------------------------------------
    def concat(self, st, a, b):
        if isinstance(a, Union) or isinstance(b, Union):
            return mk_union([z for x in alts(a) for y in alts(b) for z in alts(self.concat(st, x, y))])
        if isinstance(a, Const) and isinstance(b, Const):
            if type(a.v) is type(b.v):
                return Const(a.v + b.v)
        pa, pb = sparts(a), sparts(b)
        if pa is not None and pb is not None:
            return mk_str(pa + pb)
        if isinstance(a, Const) and isinstance(a.v, bytes) and pb is not None:
            return mk_str((a.v.decode("utf-8", "replace"),) + pb)
        if isinstance(b, Const) and isinstance(b.v, bytes) and pa is not None:
            return mk_str(pa + (b.v.decode("utf-8", "replace"),))
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("concat", frags_of(a) | frags_of(b))
        return None

    def binop(self, st, op, l, r):
        if isinstance(l, Union) or isinstance(r, Union):
            if len(alts(l)) * len(alts(r)) > 64:
                return Top("binop", frags_of(l) | frags_of(r))
            if isinstance(l, Union):
                return self.split(st, l, lambda s, a: self.binop(s, op, a, r))
            return self.split(st, r, lambda s, b: self.binop(s, op, l, b))
        lo, ro = self.obj(st, l), self.obj(st, r)
        if op == "%" and (sparts(l) is not None):
            return self.prog.percent(self, st, l, r)
        if op == "%" and isinstance(l, Top):
            return Top("%", frags_of(l) | frags_of(r))
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                a, b = l.v, r.v
                res = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                       "//": lambda: a // b, "%": lambda: a % b, "|": lambda: a | b, "&": lambda: a & b,
                       "^": lambda: a ^ b, "**": lambda: a ** b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
                return Const(res)
            except TypeError:
                self.throw(st, "TypeError", "unsupported operand types for " + op)
            except ZeroDivisionError:
                self.throw(st, "ZeroDivisionError")
        if op == "+":
            if lo is not None and ro is not None and lo.kind == ro.kind and lo.kind in ("list", "tuple"):
                if lo.rest is None:
                    return st.new(lo.kind, lo.cls, items=lo.items + ro.items, rest=ro.rest)
                rest = lo.rest
                for x in ro.items + ((ro.rest,) if ro.rest is not None else ()):
                    rest = join(rest, x)
                return st.new(lo.kind, lo.cls, items=lo.items, rest=rest)
            c = self.concat(st, l, r)
            if c is not None:
                return c
            if isinstance(l, Sym) and l.ty in ("int", "float") or isinstance(r, Sym) and r.ty in ("int", "float"):
                if all(isinstance(x, Sym) and x.ty in ("int", "float", "bool") or isinstance(x, Const) and isinstance(x.v, (int, float)) for x in (l, r)):
                    return Sym("(%r+%r)" % (l, r), "int")
            if isinstance(l, Top) or isinstance(r, Top):
                return Top("+", frags_of(l) | frags_of(r))
            if isinstance(l, Sym) and l.ty == "any" or isinstance(r, Sym) and r.ty == "any":
                return Top("+any")
            for a, b, nm in ((l, r, "__add__"), (r, l, "__radd__")):
                o = self.obj(st, a)
                if o is not None and o.kind == "inst":
                    f = self.find_cls_attr(st, o.cls, nm)
                    if f is not None:
                        return self.call(st, Bound(a, f), [b], {})
            self.throw(st, "TypeError", "unsupported operand types for +: %s and %s" % (self.type_name(st, l), self.type_name(st, r)))
        if op in ("|", "&", "-", "^") and lo is not None and ro is not None and lo.kind == ro.kind == "set":
            return self.set_op(st, op, lo, ro)
        if op == "|" and lo is not None and ro is not None and lo.kind == ro.kind == "dict":
            d = dict(lo.items)
            d.update(ro.items)
            return self.dict_(st, d, lo.rest if ro.rest is None else ro.rest)
        if op == "*":
            if isinstance(r, Const) and isinstance(r.v, int) and lo is not None and lo.kind in ("list", "tuple") and lo.rest is None:
                return st.new(lo.kind, lo.cls, items=lo.items * r.v)
            if isinstance(r, Const) and isinstance(r.v, int) and sparts(l) is not None:
                return mk_str(sparts(l) * r.v)
        if isinstance(l, Top) or isinstance(r, Top):
            return Top(op, frags_of(l) | frags_of(r))
        nums = all(isinstance(x, Sym) and x.ty in ("int", "float", "bool") or isinstance(x, Const) and isinstance(x.v, (int, float)) for x in (l, r))
        if nums:
            if op in ("/", "//", "%") and not (isinstance(r, Const) and r.v):
                self.may_throw(st, "ZeroDivisionError")
            return Sym("(%r%s%r)" % (l, op, r), "int")
        if isinstance(l, Sym) and l.ty == "any" or isinstance(r, Sym) and r.ty == "any":
            return Top("op any")
        self.throw(st, "TypeError", "unsupported operand types for " + op)

    def set_op(self, st, op, lo, ro):
        eqt = lambda a, b: self.truth(st, self.eq(st, a, b))
        a, b = lo.items, ro.items
        imprec = False

        def inb(x, coll, rest):
            unk = rest is not None
            for y in coll:
                t = eqt(x, y)
                if t is True:
                    return True
                if t is None:
                    unk = True
            return None if unk else False
        items, rest = [], None
        def add_rest(x):
            nonlocal rest
            rest = x if rest is None else join(rest, x)
        for x in a:
            t = inb(x, b, ro.rest)
            keep = {"|": True, "&": t, "-": None if t is None else not t, "^": None if t is None else not t}[op]
            if keep is True:
                items.append(x)
            elif keep is None:
                add_rest(x)
        if lo.rest is not None:
            add_rest(lo.rest)
        if op in ("|", "^"):
            for x in b:
                t = inb(x, a, lo.rest)
                if t is True:
                    continue
                if t is False or op == "|":
                    items.append(x)
                else:
                    add_rest(x)
            if ro.rest is not None:
                add_rest(ro.rest)
        return self.set_(st, items, rest)

    def eq(self, st, a, b):
        """Abstract ==."""
        if isinstance(a, Union) or isinstance(b, Union):
            rs = set()
            for x in alts(a):
                for y in alts(b):
                    rs.add(self.truth(st, self.eq(st, x, y)))
            if rs == {True}:
                return TRUE
            if rs == {False}:
                return FALSE
            return Sym("eq@%d" % next(_ids), "bool")
        if isinstance(a, Top) or isinstance(b, Top):
            return Sym("eq@%d" % next(_ids), "bool")
        if isinstance(a, Const) and isinstance(b, Const):
            return B(a.v == b.v)
        if isinstance(a, (Sym, Tmpl)) or isinstance(b, (Sym, Tmpl)):
            return self.eq_sym(st, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.get(a), st.get(b)
            if oa.kind == "inst" or ob.kind == "inst":
                for x, y, ox in ((a, b, oa), (b, a, ob)):
                    if ox.kind == "inst":
                        f = self.find_cls_attr(st, ox.cls, "__eq__")
                        if f is not None:
                            return self.call(st, Bound(x, f), [y], {})
                return B(a == b)
            if a == b:
                return TRUE
            if oa.kind != ob.kind:
                return FALSE
            if oa.kind in ("list", "tuple"):
                if oa.rest is None and ob.rest is None:
                    if len(oa.items) != len(ob.items):
                        return FALSE
                    unk = False
                    for x, y in zip(oa.items, ob.items):
                        t = self.truth(st, self.eq(st, x, y))
                        if t is False:
                            return FALSE
                        if t is None:
                            unk = True
                    return Sym("eq@%d" % next(_ids), "bool") if unk else TRUE
                return Sym("eq@%d" % next(_ids), "bool")
            if oa.kind in ("dict", "set"):
                if oa.rest is None and ob.rest is None:
                    if oa.kind == "dict":
                        if oa.items == ob.items:
                            return TRUE
                        if set(oa.items) != set(ob.items) and all(isinstance(k, Const) for k in list(oa.items) + list(ob.items)):
                            return FALSE
                    elif set(oa.items) == set(ob.items):
                        return TRUE
                    elif all(isinstance(k, Const) for k in oa.items + ob.items):
                        return FALSE
                return Sym("eq@%d" % next(_ids), "bool")
            return FALSE
        if isinstance(a, Ref) or isinstance(b, Ref):
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            ro = st.get(r)
            if ro.kind == "inst":
                f = self.find_cls_attr(st, ro.cls, "__eq__")
                if f is not None:
                    return self.call(st, Bound(r, f), [o], {})
            return FALSE
        if isinstance(a, Bound) and isinstance(b, Bound):
            return B(a == b)
        return B(a is b or a == b)

    def eq_sym(self, st, a, b):
        unk = lambda: Sym("eq(%r,%r)" % (a, b), "bool")
        if a == b:
            return TRUE
        if isinstance(b, (Sym, Tmpl)) and not isinstance(a, (Sym, Tmpl)):
            a, b = b, a
        if isinstance(b, Ref):
            return FALSE
        if isinstance(b, (Cls, Func, Native, Bound, Mod, Wrap)):
            return FALSE
        if isinstance(a, Sym) and a.ty == "any":
            return unk()
        if isinstance(b, Sym) and b.ty == "any":
            return unk()
        if isinstance(b, Const):
            if isinstance(a, Sym) and a.ty != "str":
                if b.v is None or isinstance(b.v, str):
                    return FALSE
                if a.has("T") and not b.v:
                    return FALSE
                if a.ty == "bool":
                    return unk()
                if a.has("fresh"):
                    self.probes.add((a.label, "eq", b.v))
                    return FALSE
                return unk()
            if not isinstance(b.v, str):
                return FALSE
            # string template against literal
            if isinstance(a, Sym):
                if b.v == "" and truth(a):
                    return FALSE
                if a.has("fresh"):
                    self.probes.add((a.label, "eq", b.v))
                    return FALSE
                if a.has("word") and not b.v.isalnum():
                    return FALSE
                return unk()
            holes = [p for p in a.parts if isinstance(p, Sym)]
            if b.v == "" and truth(a):
                return FALSE
            for p in holes:
                self.probes.add((p.label, "tmpl-eq", b.v))
            if all(p.has("fresh") for p in holes):
                return FALSE
            lead, trail = a.parts[0], a.parts[-1]
            if isinstance(lead, str) and not b.v.startswith(lead):
                return FALSE
            if isinstance(trail, str) and not b.v.endswith(trail):
                return FALSE
            return unk()
        ta = "str" if isinstance(a, Tmpl) else a.ty
        tb = "str" if isinstance(b, Tmpl) else b.ty
        if (ta == "str") != (tb == "str"):
            return FALSE
        ha = [p for p in (a.parts if isinstance(a, Tmpl) else (a,)) if isinstance(p, Sym)]
        hb = [p for p in (b.parts if isinstance(b, Tmpl) else (b,)) if isinstance(p, Sym)]
        if all(p.has("fresh") for p in ha + hb):
            for p in ha:
                for q in hb:
                    if p.label != q.label:
                        self.probes.add((p.label, "eqsym", q.label))
            return FALSE
        return unk()

    def compare(self, st, op, l, r):
        if isinstance(op, ast.Eq):
            return self.eq(st, l, r)
        if isinstance(op, ast.NotEq):
            res = None
            lo = self.obj(st, l)
            if lo is not None and lo.kind == "inst":
                f = self.find_cls_attr(st, lo.cls, "__ne__")
                if f is not None:
                    return self.call(st, Bound(l, f), [r], {})
            t = self.truth(st, self.eq(st, l, r))
            return Sym("ne@%d" % next(_ids), "bool") if t is None else B(not t)
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            rs = set()
            for a in alts(l):
                for b in alts(r):
                    rs.add(self.is_(a, b))
            if len(rs) == 1 and None not in rs:
                x = rs.pop()
                return B(x != neg)
            return Sym("is@%d" % next(_ids), "bool")
        if isinstance(op, ast.In):
            return self.contains(st, r, l)
        if isinstance(op, ast.NotIn):
            t = self.truth(st, self.contains(st, r, l))
            return Sym("notin@%d" % next(_ids), "bool") if t is None else B(not t)
        if isinstance(l, Union) or isinstance(r, Union):
            rs = set()
            def one(s, a, b):
                x = self.compare(s, op, a, b)
                rs.add(self.truth(s, x))
                return NONE
            self.split(st, l, lambda s, a: self.split(s, r, lambda s2, b: one(s2, a, b)))
            if rs == {True}:
                return TRUE
            if rs == {False}:
                return FALSE
            return Sym("cmp@%d" % next(_ids), "bool")
        return self.order(st, op, l, r)

    def is_(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and (x.v is None or isinstance(x.v, bool)):
                if isinstance(y, Const):
                    return type(y.v) is type(x.v) and y.v == x.v
                if isinstance(y, Sym):
                    if y.ty == "any" or (y.ty == "bool" and isinstance(x.v, bool)):
                        return None
                return False
        if isinstance(a, (Const, Sym, Tmpl)) and isinstance(b, (Const, Sym, Tmpl)):
            return True if a == b else (False if isinstance(a, Const) and isinstance(b, Const) else None)
        if isinstance(a, (Ref, Cls, Mod)) or isinstance(b, (Ref, Cls, Mod)):
            return a == b
        return a is b or a == b

    def order(self, st, op, l, r):
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                return B({"__lt__": lambda: l.v < r.v, "__le__": lambda: l.v <= r.v,
                          "__gt__": lambda: l.v > r.v, "__ge__": lambda: l.v >= r.v}[nm]())
            except TypeError:
                self.throw(st, "TypeError", "unorderable")
        lo = self.obj(st, l)
        if lo is not None and lo.kind == "inst":
            f = self.find_cls_attr(st, lo.cls, nm)
            if f is not None:
                return self.call(st, Bound(l, f), [r], {})
        if lo is not None and lo.kind == "set":
            return Sym("setcmp@%d" % next(_ids), "bool")
        for x, y in ((l, r), (r, l)):
            if isinstance(x, Sym) and x.ty == "int" and isinstance(y, Const):
                self.probes.add((x.label, "order", y.v))
            if isinstance(x, Const) and x.v is None and not isinstance(y, Top):
                self.throw(st, "TypeError", "unorderable None")
        # a positive number against zero / negative bounds
        if isinstance(l, Sym) and l.ty == "int" and l.has("pos") and isinstance(r, Const) and isinstance(r.v, (int, float)):
            if nm in ("__gt__", "__ge__") and r.v <= 0:
                return TRUE
            if nm == "__ge__" and r.v == 1:
                return TRUE
            if nm in ("__lt__", "__le__") and r.v <= 0:
                return FALSE
            if nm == "__lt__" and r.v == 1:
                return FALSE
        return Sym("ord(%r%s%r)" % (l, nm, r), "bool")

    def contains(self, st, c, x):
        if isinstance(c, Union) or isinstance(x, Union):
            rs = set()
            for a in alts(c):
                for b in alts(x):
                    rs.add(self.truth(st, self.contains(st, a, b)))
            if len(rs) == 1 and None not in rs:
                return B(rs.pop())
            return Sym("in@%d" % next(_ids), "bool")
        if isinstance(c, Top) or isinstance(x, Top):
            return Sym("in@%d" % next(_ids), "bool")
        p = sparts(c)
        if p is not None:
            return self.prog.str_contains(self, st, c, x)
        o = self.obj(st, c)
        if o is None:
            if isinstance(c, Sym):
                return Sym("in@%d" % next(_ids), "bool")
            if isinstance(c, Const) and c.v is None or isinstance(c, Const) and isinstance(c.v, (int, bool)):
                self.throw(st, "TypeError", "argument is not iterable")
            if isinstance(c, Mod) or isinstance(c, Cls):
                return Sym("in@%d" % next(_ids), "bool")
            self.throw(st, "TypeError", "argument is not iterable")
        if o.kind in ("list", "tuple", "set"):
            unk = o.rest is not None
            for y in o.items:
                if isinstance(y, Undef):
                    continue
                may = isinstance(y, Union) and UNDEF in y.alts
                if may:
                    y = mk_union([a for a in y.alts if a is not UNDEF])
                if x == y and not isinstance(x, Union):
                    t = True
                else:
                    t = self.truth(st, self.eq(st, y, x))
                if t is True and not may:
                    return TRUE
                if t is not False:
                    unk = True
            return Sym("in@%d" % next(_ids), "bool") if unk else FALSE
        if o.kind == "dict":
            if x in o.items:
                v = o.items[x]
                if isinstance(v, Union) and UNDEF in v.alts:
                    return Sym("in@%d" % next(_ids), "bool")
                return TRUE
            unk = o.rest is not None
            for y in o.items:
                t = self.truth(st, self.eq(st, y, x))
                if t is True:
                    return TRUE
                if t is None:
                    unk = True
            return Sym("in@%d" % next(_ids), "bool") if unk else FALSE
        if o.kind == "inst":
            f = self.find_cls_attr(st, o.cls, "__contains__")
            if f is not None:
                return self.call(st, Bound(c, f), [x], {})
            ns = self.prog.is_namespace(o)
            if ns and isinstance(x, Const):
                return B(x.v in o.d)
        if o.kind == "iter":
            items, rest = self.iterate(st, c)
            l = self.list_(st, items, rest)
            return self.contains(st, l, x)
        return Sym("in@%d" % next(_ids), "bool")

    # containers -----------------------------------------------------------
    def iterate(self, st, v):
        """Elements of an iterable: (items list, rest value or None)."""
        if isinstance(v, Union):
            rest = None
            seqs = [self.iterate(st, a) for a in v.alts]
            if all(r is None and len(i) == len(seqs[0][0]) for i, r in seqs):
                return [mk_union([x for a in col for x in alts(a)]) for col in zip(*[i for i, r in seqs])], None
            for i, r in seqs:
                for x in i:
                    rest = x if rest is None else join(rest, x)
                if r is not None:
                    rest = r if rest is None else join(rest, r)
            return [], rest
        if isinstance(v, Top):
            return [], Top("element of " + v.why)
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [Const(c) for c in v.v], None
            if isinstance(v.v, bytes):
                return [Const(c) for c in v.v], None
            self.throw(st, "TypeError", "object is not iterable")
        if isinstance(v, (Sym, Tmpl)):
            if isinstance(v, Sym) and v.ty in ("int", "bool"):
                self.throw(st, "TypeError", "object is not iterable")
            return [], Sym("char(%r)" % v, "str", {"T"})
        o = self.obj(st, v)
        if o is None:
            if isinstance(v, (Cls, Func, Native, Bound)):
                self.throw(st, "TypeError", "object is not iterable")
            return [], Top("iterate")
        if o.kind in ("list", "tuple", "set"):
            return list(o.items), o.rest
        if o.kind == "dict":
            return list(o.items), (Top("key") if o.rest is not None else None)
        if o.kind == "iter":
            src = o.d["src"]
            items, rest = self.iterate(st, src)
            pos = o.items
            st.w(v).items = max(len(items), pos)
            return items[pos:], rest
        if o.kind == "inst":
            itv = self.get_iter(st, v)
            out = []
            for _i in range(MAX_ITER):
                x, stop = self.next_(st, itv)
                if x is None:
                    if stop is not None:
                        st.assign(stop)
                    return out, None
                if stop is not None:
                    return out, x
                out.append(x)
            return out, Top("iter bound")
        return [], Top("iterate " + o.kind)

    def get_iter(self, st, v):
        o = self.obj(st, v)
        if o is not None and o.kind == "inst":
            f = self.find_cls_attr(st, o.cls, "__iter__")
            if f is not None:
                r = self.call(st, Bound(v, f), [], {})
                return r
            if self.find_cls_attr(st, o.cls, "__next__") is not None:
                return v
            if getattr(o.cls, "opaque", False):
                return Top("iter")
            self.throw(st, "TypeError", "object is not iterable")
        if o is not None and o.kind == "iter":
            return v
        if isinstance(v, Top):
            return v
        src = v
        if o is not None and o.kind in ("dict", "set") or o is None:
            items, rest = self.iterate(st, v)
            src = self.list_(st, items, rest)
        return st.new("iter", self.prog.b.iterator, d={"src": src}, items=0)

    def next_(self, st, it):
        """Advance: returns (value or None if certainly exhausted, state on exhaustion or None)."""
        if isinstance(it, Top):
            return Top("next"), st.copy()
        o = self.obj(st, it)
        if o is not None and o.kind == "iter":
            src = st.get(o.d["src"])
            if o.items < len(src.items):
                v = src.items[o.items]
                st.w(it).items = o.items + 1
                return v, None
            if src.rest is not None:
                return src.rest, st.copy()
            return None, st
        if o is not None and o.kind == "inst":
            outer, self.sink = self.sink, []
            s2 = st.copy()
            v = None
            try:
                try:
                    f = self.find_cls_attr(s2, o.cls, "__next__") or self.find_cls_attr(s2, o.cls, "next")
                    if f is None:
                        self.throw(s2, "TypeError", "not an iterator")
                    v = self.call(s2, Bound(it, f), [], {})
                except Dead:
                    v = None
                mine = self.sink
            finally:
                self.sink = outer
            stops = []
            for exc, es in mine:
                if exc.cls is not None and exc.cls.issub(self.prog.exc("StopIteration")):
                    stops.append(es)
                else:
                    self.sink.append((exc, es))
            stop = join_states(stops)
            if v is None:
                if stop is None:
                    raise Dead()
                st.assign(stop)
                return None, st
            st.assign(s2)
            return v, stop
        self.throw(st, "TypeError", "not an iterator")

    def getitem(self, st, c, k):
        if isinstance(c, Union):
            return self.split(st, c, lambda s, a: self.getitem(s, a, k))
        if isinstance(k, Union):
            return self.split(st, k, lambda s, a: self.getitem(s, c, a))
        if isinstance(c, Top):
            return Top("item of " + c.why, c.frags)
        if sparts(c) is not None:
            return self.prog.str_getitem(self, st, c, k)
        o = self.obj(st, c)
        if o is None:
            if isinstance(c, Sym) and c.ty == "any":
                return Top("item of any")
            if isinstance(c, Cls):
                return c
            if isinstance(c, Const) and isinstance(c.v, bytes):
                return Top("bytes item")
            self.throw(st, "TypeError", "object is not subscriptable")
        if o.kind in ("list", "tuple"):
            if isinstance(k, Const) and isinstance(k.v, int):
                n = len(o.items)
                i = k.v
                if o.rest is None:
                    if -n <= i < n:
                        v = o.items[i]
                        if isinstance(v, Union) and UNDEF in v.alts:
                            self.may_throw(st, "IndexError")
                            v = mk_union([a for a in v.alts if a is not UNDEF])
                        return v
                    self.throw(st, "IndexError", "list index out of range")
                if 0 <= i < n:
                    return o.items[i]
                self.may_throw(st, "IndexError", "list index out of range")
                if i >= n:
                    return o.rest
                r = o.rest
                for x in o.items:
                    r = join(r, x)
                return r
            if isinstance(k, Wrap) and k.kind == "slice":
                sl = self.const_slice(k)
                if sl is not None:
                    if o.rest is None:
                        return st.new(o.kind, o.cls, items=o.items[sl])
                    if (sl.start is None or sl.start >= 0) and sl.stop is None and sl.step is None:
                        s0 = sl.start or 0
                        return st.new(o.kind, o.cls, items=o.items[s0:], rest=o.rest)
                r = o.rest
                for x in o.items:
                    r = x if r is None else join(r, x)
                return st.new(o.kind, o.cls, items=(), rest=r)
            if isinstance(k, Const):
                self.throw(st, "TypeError", "list indices must be integers")
            r = o.rest
            for x in o.items:
                r = x if r is None else join(r, x)
            if r is None:
                self.throw(st, "IndexError")
            if not isinstance(k, Top):
                self.may_throw(st, "IndexError")
            return r
        if o.kind == "dict":
            if k in o.items:
                v = o.items[k]
                if isinstance(v, Union) and UNDEF in v.alts:
                    self.may_throw(st, "KeyError")
                    v = mk_union([a for a in v.alts if a is not UNDEF])
                return v
            cand = []
            for y, v in o.items.items():
                t = self.truth(st, self.eq(st, y, k))
                if t is True:
                    return v
                if t is None:
                    cand.extend(alts(v))
            if o.rest is not None:
                cand.extend(alts(o.rest))
            cand = [x for x in cand if x is not UNDEF]
            if not cand:
                self.throw(st, "KeyError", k)
            if not isinstance(k, Top):
                self.may_throw(st, "KeyError")
            return mk_union(cand)
        if o.kind == "inst":
            f = self.find_cls_attr(st, o.cls, "__getitem__")
            if f is not None:
                return self.call(st, Bound(c, f), [k], {})
            if getattr(o.cls, "opaque", False):
                return Top("opaque item")
        self.throw(st, "TypeError", "object is not subscriptable")

    def setitem(self, st, c, k, v):
        if isinstance(c, Union):
            self.split(st, c, lambda s, a: (self.setitem(s, a, k, v), NONE)[1])
            return
        o = self.obj(st, c)
        if o is None:
            if isinstance(c, Top):
                return
            self.throw(st, "TypeError", "object does not support item assignment")
        if o.kind == "dict":
            w = st.w(c)
            if isinstance(k, Union):
                for a in k.alts:
                    w.items[a] = join(w.items.get(a, UNDEF), v)
            elif isinstance(k, Top):
                w.rest = v if w.rest is None else join(w.rest, v)
            else:
                w.items[k] = v
            return
        if o.kind == "list":
            if isinstance(k, Const) and isinstance(k.v, int):
                items = list(o.items)
                if -len(items) <= k.v < len(items):
                    items[k.v] = v
                    st.w(c).items = tuple(items)
                elif o.rest is None:
                    self.throw(st, "IndexError")
                return
            if isinstance(k, Wrap) and k.kind == "slice":
                sl = self.const_slice(k)
                it, rest = self.iterate(st, v)
                if sl is not None and o.rest is None and rest is None:
                    items = list(o.items)
                    items[sl] = it
                    st.w(c).items = tuple(items)
                    return
            w = st.w(c)
            w.items = tuple(join(x, v) for x in w.items)
            self.imprecise(st, "list store")
            return
        if o.kind == "inst":
            f = self.find_cls_attr(st, o.cls, "__setitem__")
            if f is not None:
                self.call(st, Bound(c, f), [k, v], {})
                return
        self.throw(st, "TypeError", "object does not support item assignment")
