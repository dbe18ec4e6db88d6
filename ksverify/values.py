"""Abstract values, abstract heap objects and states of the interpreter.

Values
  Const(v)      one known Python constant
  Sym(label)    an abstract scalar standing for *every* value of its kind
                (facts narrow the kind: 'T' truthy, 'word' a blank-free word,
                'digits' a decimal numeral, 'fresh' different from every
                literal of the program, 'blank' contains a blank)
  Tmpl(parts)   string template: literal pieces and Sym holes
  Ref(addr)     abstract heap object
  Union(alts)   finite set of alternatives
  Top(why)      any value (analysis lost precision; never used for an alarm)
"""
import itertools

MAX_UNION = 14


class Val(object):
    __slots__ = ()


class Const(Val):
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return type(o) is Const and type(o.v) is type(self.v) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%r" % (self.v,)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
EMPTY = Const("")


def B(x):
    return TRUE if x else FALSE


class Sym(Val):
    __slots__ = ("label", "ty", "facts", "_h")

    def __init__(self, label, ty="str", facts=()):
        self.label = label
        self.ty = ty
        self.facts = frozenset(facts)
        self._h = hash((label, ty))

    def __eq__(self, o):
        return type(o) is Sym and o.label == self.label and o.ty == self.ty

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "<%s%s>" % (self.label, "" if self.ty == "str" else ":" + self.ty)

    def has(self, f):
        return f in self.facts

    def with_(self, *f):
        return Sym(self.label, self.ty, self.facts | set(f))


class Tmpl(Val):
    __slots__ = ("parts", "_h")

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = hash(self.parts)

    def __eq__(self, o):
        return type(o) is Tmpl and o.parts == self.parts

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "T'" + "".join(p if isinstance(p, str) else repr(p) for p in self.parts) + "'"


class Ref(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return type(o) is Ref and o.addr == self.addr

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return "&%s" % (self.addr,)


class Union(Val):
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return type(o) is Union and set(o.alts) == set(self.alts)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(self.alts))

    def __repr__(self):
        return "{" + " | ".join(map(repr, self.alts)) + "}"


class Top(Val):
    """Unknown value.  frags: string fragments known to flow into it."""
    __slots__ = ("why", "frags")

    def __init__(self, why="", frags=frozenset()):
        self.why = why
        self.frags = frozenset(frags)

    def __eq__(self, o):
        return type(o) is Top and o.frags == self.frags

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("top", self.frags))

    def __repr__(self):
        return "TOP(%s)" % self.why


# -- code values -----------------------------------------------------------

class Cls(Val):
    """A class; its namespace is the heap object at .addr."""
    _all = {}

    def __init__(self, name, bases=(), module="builtins", native=None, py=None, node=None):
        self.name = name
        self.bases = list(bases)
        self.module = module
        self.native = native or {}
        self.py = py              # the real python class for builtin exceptions / types
        self.node = node
        self.addr = "cls:%s.%s" % (module, name)
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise ValueError("inconsistent MRO for " + self.name)
            res.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s.%s>" % (self.module, self.name)


class Func(Val):
    def __init__(self, node, module, env, defaults, kwdefaults, cls=None, name=None):
        self.node = node
        self.module = module
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.is_gen = None

    def __repr__(self):
        return "<func %s.%s>" % (self.module, self.name)


class Native(Val):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<native %s>" % self.name


class Bound(Val):
    __slots__ = ("self_", "func")

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __eq__(self, o):
        return type(o) is Bound and o.self_ == self.self_ and o.func is self.func

    def __hash__(self):
        return hash((self.self_, id(self.func)))

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class Wrap(Val):
    """property / staticmethod / classmethod / super / slice wrappers."""
    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.a)


class Mod(Val):
    def __init__(self, name):
        self.name = name
        self.addr = "mod:" + name

    def __eq__(self, o):
        return type(o) is Mod and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return "<module %s>" % self.name


# -- heap ------------------------------------------------------------------

_ids = itertools.count(1)


class HObj(object):
    """kind: inst list tuple dict set env class mod iter events."""
    __slots__ = ("kind", "cls", "d", "items", "rest", "owner")

    def __init__(self, kind, cls=None, d=None, items=None, rest=None):
        self.kind = kind
        self.cls = cls
        self.d = {} if d is None else d
        self.items = items
        self.rest = rest        # value of unknown further elements or None
        self.owner = None

    def clone(self):
        it = self.items
        if isinstance(it, dict):
            it = dict(it)
        return HObj(self.kind, self.cls, dict(self.d), it, self.rest)

    def same(self, o):
        return (self.kind == o.kind and self.cls is o.cls and self.d == o.d
                and self.items == o.items and self.rest == o.rest)

    def __repr__(self):
        return "HObj(%s,%s,%r,%r,%r)" % (self.kind, self.cls, self.d, self.items, self.rest)


class Heap(dict):
    """Writable layer over a frozen base heap."""
    __slots__ = ("base",)

    def __init__(self, base, over=()):
        dict.__init__(self, over)
        self.base = base

    def __missing__(self, k):
        return self.base[k]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.base

    def copy(self):
        return Heap(self.base, self)

    def flat(self):
        d = dict(self.base)
        d.update(dict.items(self))
        return d


class State(object):
    __slots__ = ("heap", "token")

    def __init__(self, heap=None):
        self.heap = Heap({}) if heap is None else heap
        self.token = object()

    def copy(self):
        self.token = object()
        return State(self.heap.copy())

    def move(self):
        """Hand the heap over to a new state; the old one must not be used."""
        s = State(self.heap)
        s.token = self.token
        self.token = object()
        return s

    def freeze(self):
        """A state whose base is everything present now."""
        return State(Heap(self.heap.flat()))

    def assign(self, o):
        self.heap = o.heap
        self.token = o.token
        o.token = object()

    def new(self, kind, cls=None, d=None, items=None, rest=None, addr=None):
        if addr is None:
            addr = next(_ids)
        o = HObj(kind, cls, d, items, rest)
        o.owner = self.token
        self.heap[addr] = o
        return Ref(addr)

    def get(self, ref):
        return self.heap[ref.addr if isinstance(ref, Ref) else ref]

    def w(self, ref):
        """Object opened for writing."""
        addr = ref.addr if isinstance(ref, Ref) else ref
        o = self.heap[addr]
        if o.owner is not self.token:
            o = o.clone()
            o.owner = self.token
            self.heap[addr] = o
        return o

    # events: tuple of (must, kind, payload...)
    def event(self, *e):
        o = self.w("$ev")
        o.items = o.items + ((True,) + e,)

    def events(self):
        return self.heap["$ev"].items

    def note(self, why):
        o = self.w("$imp")
        if why not in o.items:
            o.items = o.items + (why,)

    def notes(self):
        return self.heap["$imp"].items


def new_state():
    st = State()
    st.new("events", items=(), addr="$ev")
    st.new("events", items=(), addr="$imp")
    return st


# -- joins -----------------------------------------------------------------

def alts(v):
    return v.alts if isinstance(v, Union) else (v,)


def frags_of(v):
    """String fragments contained in a value (for soup tracking)."""
    if isinstance(v, Const):
        return frozenset([v.v]) if isinstance(v.v, str) and v.v else frozenset()
    if isinstance(v, Tmpl):
        return frozenset([v])
    if isinstance(v, Sym):
        return frozenset([v])
    if isinstance(v, Top):
        return v.frags
    if isinstance(v, Union):
        r = frozenset()
        for a in v.alts:
            r |= frags_of(a)
        return r
    return frozenset()


def _sym_join(a, b):
    return Sym(a.label, a.ty, a.facts & b.facts)


def join(a, b):
    if a is b or a == b:
        if isinstance(a, Sym) and a.facts != b.facts:
            return _sym_join(a, b)
        return a
    return mk_union(alts(a) + alts(b))


def mk_union(vs):
    res = []
    for v in vs:
        if isinstance(v, Top):
            fr = frozenset()
            for x in vs:
                fr |= frags_of(x)
            return Top(v.why, fr)
        for i, r in enumerate(res):
            if r == v:
                if isinstance(v, Sym) and v.facts != r.facts:
                    res[i] = _sym_join(r, v)
                break
        else:
            res.append(v)
    if len(res) == 1:
        return res[0]
    if len(res) > MAX_UNION:
        fr = frozenset()
        for x in res:
            fr |= frags_of(x)
        return Top("wide", fr)
    return Union(res)


MISSING = Top("missing-attribute")


class Undef(Val):
    """Possibly unbound attribute / variable marker used inside joins."""
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


def _join_dict(a, b):
    if a is b:
        return a
    r = {}
    for k in itertools.chain(a, (k for k in b if k not in a)):
        if k in a and k in b:
            va, vb = a[k], b[k]
            r[k] = va if va is vb else join(va, vb)
        else:
            r[k] = join(a.get(k, UNDEF), b.get(k, UNDEF))
    return r


def _join_events(a, b):
    if any(isinstance(x, str) for x in a + b):
        return a + tuple(x for x in b if x not in a)
    n = 0
    while n < len(a) and n < len(b) and a[n][1:] == b[n][1:]:
        n += 1
    out = [((x[0] and y[0]),) + x[1:] for x, y in zip(a[:n], b[:n])]
    seen = set()
    for x in a[n:] + b[n:]:
        k = x[1:]
        try:
            if k in seen:
                continue
            seen.add(k)
        except TypeError:
            pass
        out.append((False,) + k)
    return tuple(out)


def _join_obj(a, b):
    if a is b:
        return a
    if a.kind == "events":
        o = HObj("events")
        if a.items == b.items:
            o.items = a.items
        else:
            o.items = _join_events(a.items, b.items)
        return o
    o = HObj(a.kind, a.cls if a.cls is b.cls else a.cls)
    o.d = _join_dict(a.d, b.d)
    ia, ib = a.items, b.items
    o.rest = a.rest if b.rest is None else b.rest if a.rest is None else join(a.rest, b.rest)
    if ia == ib:
        o.items = ia
    elif isinstance(ia, dict) and isinstance(ib, dict):
        o.items = _join_dict(ia, ib)
    elif isinstance(ia, tuple) and isinstance(ib, tuple):
        if len(ia) == len(ib) and a.rest is None and b.rest is None:
            o.items = tuple(join(x, y) for x, y in zip(ia, ib))
        else:
            n = 0
            while n < len(ia) and n < len(ib) and ia[n] == ib[n]:
                n += 1
            o.items = ia[:n]
            r = o.rest
            for x in ia[n:] + ib[n:]:
                r = x if r is None else join(r, x)
            o.rest = r
    elif isinstance(ia, int) and isinstance(ib, int):
        o.items = min(ia, ib)
    else:
        o.items = ia
    return o


def join_states(sts):
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    res = sts[0]
    for s in sts[1:]:
        if s is res or s.heap is res.heap:
            continue
        h = res.heap.copy()
        for k, ob in dict.items(s.heap):
            oa = h.get(k)
            if oa is None:
                h[k] = ob
            elif oa is not ob:
                h[k] = _join_obj(oa, ob)
        base = h.base
        if base:
            for k, oa in dict.items(res.heap):
                if not dict.__contains__(s.heap, k) and k in base:
                    ob = base[k]
                    if oa is not ob:
                        h[k] = _join_obj(oa, ob)
        res = State(h)
    return res


# -- string templates ------------------------------------------------------

def mk_str(parts):
    """Normalise a list of str / Sym / Const / Tmpl parts into a value."""
    out = []
    for p in parts:
        if isinstance(p, Const):
            p = p.v if isinstance(p.v, str) else str(p.v)
        if isinstance(p, Tmpl):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            else:
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return Const(out[0]) if isinstance(out[0], str) else out[0]
    return Tmpl(out)


def sparts(v):
    """Parts of a string-like value or None."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return (v.v,) if v.v else ()
    if isinstance(v, Tmpl):
        return v.parts
    if isinstance(v, Sym) and v.ty == "str":
        return (v,)
    return None


def truth(v):
    """True / False / None (unknown)."""
    if isinstance(v, Const):
        return bool(v.v)
    if isinstance(v, Sym):
        if v.has("T") or v.has("word") and v.ty == "str" or v.has("blank"):
            return True
        if v.has("F"):
            return False
        return None
    if isinstance(v, Tmpl):
        if any(isinstance(p, str) for p in v.parts):
            return True
        if any(truth(p) for p in v.parts):
            return True
        return None
    if isinstance(v, (Cls, Func, Native, Bound, Mod, Wrap)):
        return True
    if isinstance(v, Union):
        ts = set(truth(a) for a in v.alts)
        return ts.pop() if len(ts) == 1 else None
    return None
