"""No shared mutable state.

In one abstract heap two handlers of a version and one of another version are
built. Reading documents that use every command (values are holes), sections,
writing, resetting, registering and building further handlers and parsers is
interpreted for the first handler; any heap object that changed and is
reachable from the other handlers, a class, a module or a function default is
a candidate, and the option tables, data, text and reading behaviour of the
other and of newly built handlers must be unchanged. Reading lines that show
every option, once and twice, must leave the command's own option table (its
defaults and constants are lists) as it is. Every list or dictionary
that a parsed object holds is then changed through that object, and no other
object, later line, reset command or new handler may show the change."""
from .. import argmodel, spec, tables
from ..check import bad, ok, undecided, world
from ..interp import AnalysisBroken, Dead
from ..values import *
from ..world import mod_attr, tpl, unsure, untpl, versions
from .c01 import where
from .c16 import documents, lines_of, SECTIONS, objects, text_of

MARK = "ZZMARK"
SEC = SECTIONS + [["%pre", "{w:a}", "%end", "%packages --nobase", "{w:p}", "-{w:q}", "@{w:g}", "%end"]]


class Duo(object):
    """Handlers A (the world's), B (same version) and C (another version)."""
    def __init__(self, ver, other):
        self.w = w = world(ver)
        self.other = other
        st = w.base.copy()
        I = w.I
        self.mk = mod_attr(st, "pykickstart.version", "makeVersion")
        self.KP = mod_attr(st, "pykickstart.parser", "KickstartParser")
        I.sink, I.steps = [], 0
        try:
            self.b = I.call(st, self.mk, [Const(ver)], {})
            self.kpb = I.call(st, self.KP, [self.b], {})
            self.c = I.call(st, self.mk, [Const(other)], {})
            self.kpc = I.call(st, self.KP, [self.c], {})
            self.kpb2 = I.call(st, self.KP, [self.b], {})
        except Dead:
            raise AnalysisBroken("second handler cannot be built")
        st.w("$ev").items = ()
        self.base = st.freeze()
        self.fields = {}
        self.obs_b = self.observe(self.base, self.b)
        self.obs_c = self.observe(self.base, self.c)
        self.outer = self.reach_others()

    def observe(self, st, h):
        """Everything a handler contains, accepts and prints."""
        w = self.w
        r = {}
        o = st.get(st.get(h).d["commands"])
        for k, v in o.items.items():
            if not isinstance(v, Ref):
                r[k.v] = repr(v)
                continue
            d = st.get(v)
            r[k.v] = [d.cls.name, w.canon_obj(st, v)]
            op = d.d.get("op")
            if isinstance(op, Ref):
                r[k.v].append(self.table(st, op))
        for k, v in sorted(st.get(h).d.items()):
            if isinstance(v, Cls):
                r["." + k] = v.name
        r[".scripts"] = w.canon(st, st.get(h).d["scripts"])
        r[".packages"] = w.canon(st, st.get(h).d["packages"])
        r[".text"] = text_of(w, st, h)
        for m in ("commandMap", "dataMap"):
            v = w.I.getattr_(st.copy(), st.get(h).cls, m)
            if isinstance(v, Ref):
                r["." + m] = {repr(a): repr(b) for a, b in st.get(v).items.items()}
        return r

    def table(self, st, op):
        """Names, defaults and choices of an option parser."""
        w = self.w
        key = None
        acts, rest = w.I.iterate(st.copy(), st.get(op).d["_actions"])
        res = []
        for a in acts:
            d = st.get(a).d
            res.append({k: w.canon(st, d[k]) for k in sorted(d) if k in ("option_strings", "dest", "nargs", "const", "default", "choices", "required", "deprecated")})
        return res

    def walk(self, st, roots, stop):
        seen, done = set(), set()
        todo = list(roots)
        while todo:
            v = todo.pop()
            if isinstance(v, Union):
                todo.extend(v.alts)
            elif isinstance(v, Bound):
                todo += [v.self_, v.func] if hasattr(v, "func") else [v.self_]
            elif isinstance(v, Func):
                if id(v) in done:
                    continue
                done.add(id(v))
                for x in list(v.defaults or ()) + (list(v.kwdefaults.values()) if isinstance(v.kwdefaults, dict) else list(v.kwdefaults or ())):
                    if isinstance(x, Val):
                        todo.append(x)
            elif isinstance(v, Wrap):
                todo.extend(x for x in v.a if isinstance(x, Val))
            elif isinstance(v, (Cls, Mod)):
                if v.addr not in seen and v.addr in st.heap:
                    seen.add(v.addr)
                    todo.extend(x for x in st.heap[v.addr].d.values() if isinstance(x, Val))
            elif isinstance(v, Ref):
                if v.addr in seen or v.addr in stop or v.addr not in st.heap:
                    continue
                seen.add(v.addr)
                o = st.get(v)
                todo.extend(x for x in o.d.values() if isinstance(x, Val))
                if o.cls is not None:
                    todo.append(o.cls)
                if isinstance(o.items, dict):
                    todo.extend(o.items.values())
                elif isinstance(o.items, tuple):
                    todo.extend(x for x in o.items if isinstance(x, Val))
                if isinstance(o.rest, Val):
                    todo.append(o.rest)
        return seen

    def reach_others(self):
        st = self.base
        roots = [self.b, self.kpb, self.kpb2, self.c, self.kpc]
        for a in list(st.heap.base) + list(dict.keys(st.heap)):
            if isinstance(a, str) and (a.startswith("cls:") or a.startswith("mod:")):
                roots.append(Ref(a))
        return self.walk(st, roots, {self.w.h.addr, self.w.kp.addr})

    def changed_shared(self, st):
        """Addresses of shared objects whose content changed."""
        res = []
        for a in dict.keys(st.heap):
            if a in self.outer and a in self.base.heap and a != "$ev":
                o, p = st.heap[a], self.base.heap[a]
                if o is p:
                    continue
                if o.d != p.d or o.items != p.items or o.rest != p.rest:
                    res.append(a)
        return res

    def name_of(self, st, addr):
        o = self.base.heap[addr]
        if isinstance(addr, str):
            p = st.heap[addr]
            ks = [k for k in set(o.d) | set(p.d) if o.d.get(k) != p.d.get(k)]
            return "%s attributes %s" % (addr.split(":", 1)[1], sorted(ks))
        owner = []
        for a in list(self.base.heap.base):
            if isinstance(a, str) and a.startswith(("cls:", "mod:")):
                for k, v in self.base.heap[a].d.items():
                    if isinstance(v, Ref) and v.addr == addr:
                        owner.append("%s.%s" % (a.split(":", 1)[1], k))
                    if isinstance(v, Func) and any(isinstance(x, Ref) and x.addr == addr for x in list(v.defaults or ())):
                        owner.append("default argument of %s.%s" % (a.split(":", 1)[1], k))
        return ", ".join(owner[:3]) or "a %s held by another handler" % o.kind


def differ(a, b, path=""):
    """First definite difference of two observations."""
    if unsure(a) and not isinstance(a, (dict, list)) or unsure(b) and not isinstance(b, (dict, list)):
        return None
    if type(a) is dict and type(b) is dict:
        if "?" in a or "?" in b:
            return None
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s.%s is %s" % (path, k, "gone" if k in a else "new")
            d = differ(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return "%s was %r, is %r" % (path, a, b)
        for x, y in zip(a, b):
            d = differ(x, y, path)
            if d:
                return d
        return None
    if a is None or b is None and path.endswith(".text"):
        return None
    return None if a == b and type(a) is type(b) else "%s was %r, is %r" % (path, a, b)


def judge(duo, st, what, case, wh, fresh=True, behave=True):
    """Obligations after operations on handler A led to state st."""
    w = duo.w
    probs = []
    cand = duo.changed_shared(st)
    if not cand:
        # nothing another or a future object depends on was written
        return [ok()]
    for h, o0, nm in ((duo.b, duo.obs_b, "another handler of %s" % w.ver), (duo.c, duo.obs_c, "a handler of %s" % duo.other)):
        d = differ(o0, duo.observe(st, h))
        if d:
            probs.append(("%s changes %s: %s" % (what, nm, d[:300]), "other"))
    if fresh:
        for ver, o0 in ((w.ver, duo.obs_b), (duo.other, duo.obs_c)):
            s = st.copy()
            h, out = w.guard(s, lambda s: w.I.call(s, duo.mk, [Const(ver)], {}))
            if out.status in ("exc", "err"):
                probs.append(("after %s a handler of %s cannot be built: %s" % (what, ver, out.exc), "new"))
            elif out.status == "ok" and isinstance(h, Ref):
                d = differ(o0, duo.observe(s, h))
                if d:
                    probs.append(("%s changes a new handler of %s: %s" % (what, ver, d[:300]), "new"))
    if not probs and behave:
        for kp, h, ver in ((duo.kpb, duo.b, w.ver), (duo.kpc, duo.c, duo.other)):
            for n, ls in lines_of(ver):
                for l in ls[:2]:
                    r = []
                    for s0 in (duo.base, st):
                        s = s0.copy()
                        v, out = w.guard(s, lambda s: w.I.call(s, w.I.getattr_(s, kp, "readKickstartFromString"), [tpl(l + "\n")], {}))
                        r.append((out.status, duo.observe_cmd(s, h, n) if out.status == "ok" and not out.why else None))
                    a, b = r
                    if {a[0], b[0]} <= {"ok", "err", "exc"} and (a[0] != b[0] or a[1] is not None and b[1] is not None and differ(a[1], b[1])):
                        probs.append(("%s changes what a handler of %s does with %r (through %s)" % (what, ver, l, duo.name_of(st, cand[0])), "behave"))
                        break
                if probs:
                    break
            if probs:
                break
    if probs:
        via = ", ".join(duo.name_of(st, a) for a in cand[:3])
        return [bad((p[1], what[:40]), p[0] + (" (changed shared object: %s)" % via if via else ""), wh, case, [{"via": via, "what": what}]) for p in probs[:2]]
    if cand:
        names = [duo.name_of(st, a) for a in cand]
        left = [n for n in names if not n.endswith(KNOWN_BENIGN)]
        if left:
            return [undecided("shared object written without visible effect", left[0])]
    return [ok()]


# judged by scripts_and_packages
KNOWN_BENIGN = ("parser.Script attributes ['_ver']", "parser.Packages attributes ['_ver']")


def observe_cmd(self, st, h, n):
    o = st.get(st.get(h).d["commands"])
    v = o.items.get(Const(n))
    return self.w.canon_obj(st, v) if isinstance(v, Ref) else None


Duo.observe_cmd = observe_cmd


def mutables(w, st, ref):
    """[(path, address)] of lists, dicts and sets an object holds in public attributes."""
    res, seen = [], set()
    todo = [("", ref)]
    while todo:
        path, v = todo.pop()
        if not isinstance(v, Ref) or v.addr in seen:
            continue
        seen.add(v.addr)
        o = st.get(v)
        if o.kind in ("list", "dict", "set"):
            res.append((path, v))
            if isinstance(o.items, dict):
                todo += [(path + "[]", x) for x in o.items.values()]
            elif o.kind == "list":
                todo += [(path + "[%d]" % i, x) for i, x in enumerate(o.items)]
        elif o.kind == "inst":
            if o.cls.name in ("KSOptionParser", "ArgumentParser") or v.addr == w.h.addr:
                continue
            todo += [(path + "." + k, x) for k, x in o.d.items() if not k.startswith("_") and k not in ("handler", "op")]
    return res


def mutate(st, v):
    o = st.w(v)
    if o.kind == "list":
        o.items = o.items + (Const(MARK),)
    elif o.kind == "dict":
        o.items = dict(o.items)
        o.items[Const(MARK)] = Const(MARK)
    elif o.kind == "set":
        o.items = tuple(o.items) + (Const(MARK),)


def marked(x):
    return MARK in repr(x)


def second(line):
    import re
    return re.sub(r"\{([wnb]):([A-Za-z0-9_]+)\}", r"{\1:\2z}", line)


def aliasing(duo, only=None):
    """Changing what one parsed object holds through that object."""
    w = duo.w
    ver = w.ver
    for n, ls in lines_of(ver):
        if n not in w.cmds or not isinstance(w.cmds[n], Ref):
            continue
        k = 0
        for l in ls:
            st = duo.base.copy()
            out = w.read(l + "\n", st)
            if out.status != "ok" or out.why:
                continue
            cmd = w.commands(st)[n]
            ms = mutables(w, st, cmd)
            # the data objects as the program sees them
            s = st.copy()
            dl, o2 = w.guard(s, lambda s: w.I.call(s, w.I.getattr_(s, cmd, "dataList"), [], {}))
            lst = dl.addr if o2.status == "ok" and isinstance(dl, Ref) else None
            for path, m in ms:
                s = st.copy()
                mutate(s, m)
                case = {"version": ver, "line": l, "changed": "%s object%s" % (n, path)}
                probs = []
                shared = m.addr in duo.outer or duo.changed_shared(st)
                for h, nm in ((duo.b, "another handler of %s" % ver), (duo.c, "a handler of %s" % duo.other)) if shared else ():
                    o = s.get(s.get(h).d["commands"])
                    for kk, v in o.items.items():
                        if isinstance(v, Ref) and marked(w.canon_obj(s, v)):
                            probs.append("the change shows in %s of %s" % (kk.v, nm))
                            break
                s2 = s.copy()
                h, o3 = w.guard(s2, lambda s: w.I.call(s, duo.mk, [Const(ver)], {})) if shared else (None, out)
                if o3.status == "ok" and isinstance(h, Ref):
                    o = s2.get(s2.get(h).d["commands"])
                    for kk, v in o.items.items():
                        if isinstance(v, Ref) and marked(w.canon_obj(s2, v)):
                            probs.append("the change shows in %s of a new handler" % kk.v)
                            break
                if path and shared:
                    s3 = s.copy()
                    _v, o4 = w.guard(s3, lambda s: w.I.call(s, w.I.getattr_(s, w.h, "resetCommand"), [Const(n)], {}))
                    if o4.status == "ok" and marked(w.canon_obj(s3, w.commands(s3)[n])):
                        probs.append("the change shows in the command after it was reset")
                if lst is not None and m.addr != lst:
                    # later and earlier data objects of the same command
                    s4 = s.copy()
                    l2 = second(l)
                    o5 = w.read(l2 + "\n", s4)
                    if o5.status == "ok" and not o5.why:
                        it = s4.get(Ref(lst)).items
                        old = s.get(Ref(lst)).items
                        for x in it:
                            if x not in old and marked(w.canon(s4, x)):
                                probs.append("the change shows in the data object of the later line %r" % l2)
                        holders = [x for x in it if isinstance(x, Ref) and marked(w.canon(s4, x))]
                        if len(holders) > 1 and not probs:
                            probs.append("the change shows in %d data objects" % len(holders))
                else:
                    # a data object made by the program
                    pass
                if probs:
                    yield bad(("alias", n, path), "changing the %s in %s of the %s object: %s" % (st.get(m).kind, path or "it", n, probs[0]), where(w, n), case, [{"cmd": n, "path": path, "class": w.cls_name(n)}])
                else:
                    k += 1
        yield ok(k)


_cover = {}


def cover(ver):
    """[(command, [accepted lines that together show every option])]."""
    if not _cover:
        for n, gs in spec.commands().items():
            for g in gs:
                al = sorted((l for l, e in g["lines"].items() if isinstance(e, list) and "\n" not in l and l.split(" ")[0] == n), key=lambda l: (-l.count("--"), len(l), l))
                use, have = [], set()
                for l in al:
                    os = {x.partition("=")[0] for x in l.split() if x.startswith("--")}
                    if os - have:
                        have |= os
                        use.append(l)
                for v in g["versions"]:
                    _cover[v, n] = use
    return [(n, ls) for (v, n), ls in sorted(_cover.items()) if v == ver and ls]


def twice(line):
    """The line with every option given twice."""
    ws = line.split(" ")
    res = []
    for i, x in enumerate(ws):
        res.append(x)
        if x.startswith("--") and ("=" in x or i + 1 == len(ws) or ws[i + 1].startswith("--")):
            res.append(x)
    return " ".join(res)


def own_table(duo):
    """Reading a line leaves the option table of its own command as it is."""
    w = duo.w
    n = 0
    for name, ls in cover(w.ver):
        ref = w.cmds.get(name)
        op = w.base.get(ref).d.get("op") if isinstance(ref, Ref) else None
        if not isinstance(op, Ref):
            continue
        reach = duo.walk(duo.base, [op], {ref.addr, w.h.addr, w.kp.addr})
        t0 = None
        for l in dict.fromkeys(ls + [twice(x) for x in ls]):
            st = duo.base.copy()
            out = w.read(l + "\n", st)
            if out.status != "ok" or out.why:
                continue
            wrote = [a for a in dict.keys(st.heap) if a in reach and a != op.addr and a in duo.base.heap
                     and st.heap[a] is not duo.base.heap[a] and (st.heap[a].d != duo.base.heap[a].d or st.heap[a].items != duo.base.heap[a].items)]
            n += 1
            if not wrote:
                continue
            t0 = t0 or duo.table(duo.base, op)
            d = differ(t0, duo.table(st, op))
            if d:
                yield bad(("own", name), "reading %r changes the option table of %s: %s" % (l, name, d[:300]), where(w, name), {"version": w.ver, "line": l}, [{"cmd": name, "class": w.cls_name(name)}])
                break
    yield ok(n)


def data_objects(duo):
    """Objects a program builds: two new data objects share nothing."""
    w = duo.w
    n = 0
    for name, cls in sorted(w.data_cls("").items()):
        st = duo.base.copy()

        def go(s):
            a = w.I.call(s, cls, [], {})
            b = w.I.call(s, cls, [], {})
            return w.P.M.mk_tuple(s, [a, b]) if hasattr(w.P.M, "mk_tuple") else s.new("tuple", items=(a, b))
        v, out = w.guard(st, go)
        if out.status != "ok" or not isinstance(v, Ref):
            continue
        a, b = st.get(v).items
        for path, m in mutables(w, st, a):
            s = st.copy()
            mutate(s, m)
            s2 = s.copy()
            c, o2 = w.guard(s2, lambda s: w.I.call(s, cls, [], {}))
            if marked(w.canon(s, b)) or o2.status == "ok" and marked(w.canon(s2, c)):
                yield bad(("dalias", name, path), "two new %s objects share their %s" % (cls.name, path), "%s.py %s" % (cls.module.replace(".", "/"), cls.name), {"version": w.ver, "class": cls.name, "attribute": path}, [{"class": cls.name, "path": path}])
            else:
                n += 1
    yield ok(n)


def scripts_and_packages(duo):
    """Existing script and package objects do not depend on later parsers."""
    w = duo.w
    for v2 in (duo.other,):
        st = duo.base.copy()
        out = w.read("%pre\n{w:a}\n%end\n%packages\n{w:p}\n%end\n", st)
        if out.status != "ok" or out.why:
            yield undecided("sections", w.ver)
            continue
        t = text_of(w, st, w.h)

        def mk(s):
            S = mod_attr(s, "pykickstart.parser", "Script")
            P = mod_attr(s, "pykickstart.parser", "Packages")
            return s.new("tuple", items=(w.I.call(s, S, [tpl("{w:x}\n")], {}), w.I.call(s, P, [], {})))
        own, o1 = w.guard(st, mk)
        if o1.status == "ok":
            sc, pk = st.get(own).items
            if isinstance(pk, Ref):
                st.w(pk).d["seen"] = TRUE
            t1, t2 = text_of(w, st, sc), text_of(w, st, pk)
        h, o2 = w.guard(st, lambda s: w.I.call(s, duo.KP, [w.I.call(s, duo.mk, [Const(v2)], {})], {}))
        if o2.status != "ok" or o1.status != "ok":
            yield undecided("parser", v2)
            continue
        case = {"version": w.ver, "then a parser of": v2}
        tt = text_of(w, st, w.h)
        if t is not None and tt is not None and t != tt:
            yield bad(("later", "handler"), "building a parser of %s changes the text of a filled handler of %s: %r, was %r" % (v2, w.ver, tt[-200:], t[-200:]), "pykickstart/parser.py KickstartParser.__init__", case, [{"object": "handler"}])
        else:
            yield ok()
        for nm, a, o in (("Script", t1, sc), ("Packages", t2, pk)):
            b = text_of(w, st, o)
            if a is not None and b is not None and a != b:
                yield bad(("later", nm), "building a parser of %s changes the text of a %s object made by a program: %r, was %r" % (v2, nm, b, a), "pykickstart/parser.py KickstartParser.__init__", case, [{"object": nm, "made": "by program"}])
            else:
                yield ok()


def mkdict(w, s, items):
    r = w.I.dict_(s)
    s.w(r).items = items
    return r


def task(t):
    ver, other, thorough = t
    duo = Duo(ver, other)
    w = duo.w
    n = 0
    docs = list(documents(w, 3 if thorough else 2))
    for k, (st0, used) in enumerate(docs):
        st = duo.base.copy()
        text = "\n".join(l for _n, l in used) + "\n"
        out = w.read(text, st)
        case = {"version": ver, "lines": [l for _n, l in used]}
        if out.status != "ok" or out.why:
            yield undecided("document: %s" % (out.why or out.status), ver)
            continue
        yield from judge(duo, st, "reading commands", case, "pykickstart/commands")
        if k:
            continue
        for i, ls in enumerate(SEC):
            s = st.copy()
            o = w.read("\n".join(ls) + "\n", s)
            if o.status == "ok" and not o.why:
                yield from judge(duo, s, "reading sections", dict(case, sections=ls), "pykickstart/sections.py", fresh=i == 0)
                if i == len(SEC) - 1:
                    st = s
        _v, o = w.str_of(st, w.h)
        yield from judge(duo, st, "writing the handler", case, "pykickstart/base.py", fresh=False)
        for c in sorted(w.cmds):
            _v, o = w.guard(st, lambda s: w.I.call(s, w.I.getattr_(s, w.h, "resetCommand"), [Const(c)], {}))
            if o.status != "ok":
                break
        yield from judge(duo, st, "resetting commands", case, "pykickstart/base.py KickstartHandler.resetCommand")
        for what, fn in (("building a handler and parser of %s" % other, lambda s: w.I.call(s, duo.KP, [w.I.call(s, duo.mk, [Const(other)], {})], {})),
                         ("registering a command", lambda s: w.I.call(s, w.I.getattr_(s, w.h, "registerCommand"), [tpl("{w:newcmd}"), w.base.get(w.cmds["lang"]).cls], {})),
                         ("registering data", lambda s: w.I.call(s, w.I.getattr_(s, w.h, "registerData"), [Const("UserData"), w.base.get(w.h).cls], {})),
                         ("masking commands", lambda s: w.I.call(s, w.I.getattr_(s, w.h, "maskAllExcept"), [s.new("list", items=(Const("lang"),))], {}))):
            s = st.copy()
            _v, o = w.guard(s, fn)
            if o.status == "ok" and not o.why:
                yield from judge(duo, s, what, dict(case, then=what), "pykickstart/base.py")
            else:
                yield undecided("%s: %s" % (what, o.why or o.status), ver)
        # a handler built with updates
        hc = w.base.get(w.h).cls
        lang, text = w.base.get(w.cmds["lang"]).cls, w.base.get(w.cmds["rootpw"]).cls
        for kw in ("commandUpdates", "dataUpdates", "mapping", "dataMapping"):
            s = st.copy()
            _v, o = w.guard(s, lambda s: w.I.call(s, hc, [], {kw: mkdict(w, s, {Const("zzcmd"): lang, Const("lang"): text})}))
            if o.status == "ok" and not o.why:
                yield from judge(duo, s, "building a handler with %s" % kw, dict(case, then=kw), "pykickstart/base.py BaseHandler._registerCommands")
            else:
                yield undecided("%s: %s" % (kw, o.why or o.status), ver)
        # refused lines
        st = duo.base.copy()
        st.w(w.kp).d["errorsAreFatal"] = FALSE
        bl = []
        for c, ls in lines_of(ver):
            bl += [c + " --zz{w:u}", ls[-1] + " --zz{w:u}", c + " {w:p1} {w:p2} {w:p3}"]
        o = w.read("\n".join(bl) + "\n", st)
        if o.alive:
            yield from judge(duo, st, "reading refused lines", {"version": ver, "lines": bl[:20]}, "pykickstart/commands")
    yield from scripts_and_packages(duo)
    yield from aliasing(duo)
    yield from data_objects(duo)
    yield from own_table(duo)
    yield ("sample", "%s next to %s: %d documents" % (ver, other, len(docs)))


def check(rep):
    vs = sorted(versions(), key=lambda v: versions()[v])
    ts = []
    for i, v in enumerate(vs):
        o = vs[(i + 17) % len(vs)]
        ts.append((v, o, rep.tier == "thorough"))
    rep.run(task, ts[::-1])
