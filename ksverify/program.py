"""The analysed program: source modules of the repository, loaded into an
abstract heap, plus models of the builtins and library modules it uses."""
import ast
import builtins as _pyb
import os
import posixpath

from .values import *
from .interp import Interp, AnalysisBroken, Dead

REPO = os.environ.get("KSVERIFY_REPO", "/repo")


class NS(object):
    pass


EXTERNAL_PREFIXES = ("os", "sys", "warnings", "shlex", "argparse", "textwrap", "six", "collections", "importlib",
                     "getopt", "gettext", "requests", "tempfile", "shutil", "readline", "pipes", "re", "copy",
                     "functools", "itertools", "string", "contextlib", "types", "errno", "glob", "io", "atexit",
                     "operator", "logging", "urllib", "socket", "typing", "enum", "locale", "traceback", "hashlib",
                     "posixpath", "pathlib", "codecs", "abc", "__future__", "builtins", "time", "datetime", "subprocess",
                     "json", "unicodedata", "stat", "signal", "platform", "inspect", "math", "weakref", "threading")


class Program(object):
    def __init__(self, repo=REPO):
        self.repo = repo
        self.step_limit = 2 * 10 ** 6
        self.gen_cache = {}
        self.clo_cache = {}
        self.func_attrs = {}
        self.cur_exc = []
        self.classes = {}
        self.asts = {}
        self.failed_imports = {}
        self.loading = []
        self.faults = False            # library calls may fail: True joins, "enum" numbers them
        self.fault_at = ()
        self.fault_log = []
        self.models = {}               # (kind, name) -> Native
        self.ext = {}                  # external module name -> {attr: value or callable}
        self.opaque_cache = {}
        self.files = self._files()
        self.b = NS()
        self.builtins = {}
        from . import models
        models.install(self)
        self.M = models

    # ---------------------------------------------------------------- sources
    def _files(self):
        out = {}
        for top in ("pykickstart", "tools"):
            root = os.path.join(self.repo, top)
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("__pycache__", "locale"))
                for f in sorted(fs):
                    if f.endswith(".py"):
                        p = os.path.join(d, f)
                        rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                        if rel.endswith(".__init__"):
                            rel = rel[:-9]
                        out[rel] = p
        if "pykickstart" not in out and not any(k.startswith("pykickstart.") for k in out):
            raise AnalysisBroken("package pykickstart not found in " + self.repo)
        return out

    def module_ast(self, name):
        t = self.asts.get(name)
        if t is None:
            with open(self.files[name], encoding="utf-8") as f:
                t = ast.parse(f.read(), self.files[name])
            self.asts[name] = t
        return t

    def is_pkg(self, name):
        p = self.files.get(name)
        return p is not None and p.endswith("__init__.py") or name == "pykickstart"

    def resolve(self, name):
        if name in self.files:
            return name
        alt = "pykickstart.handlers." + name
        if alt in self.files:
            return alt
        return None

    def known_external(self, name):
        return name.split(".")[0] in EXTERNAL_PREFIXES

    def import_module(self, I, st, name):
        """Load a repository module into the state; True when it exists."""
        real = self.resolve(name)
        if real is None:
            if name in self.ext:
                return True
            # package directory without __init__
            if any(k.startswith(name + ".") for k in self.files):
                if "mod:" + name not in st.heap:
                    st.new("mod", d={}, addr="mod:" + name)
                return True
            return False
        if real != name:
            self.import_module(I, st, real)
            st.heap["mod:" + name] = st.heap["mod:" + real]
            return True
        if "mod:" + real in st.heap:
            return True
        parts = real.split(".")
        if len(parts) > 1:
            self.import_module(I, st, ".".join(parts[:-1]))
            if "mod:" + real in st.heap:
                return True
        st.new("mod", d={"__name__": Const(real), "__file__": Const(self.files[real])}, addr="mod:" + real)
        I.exec_module(real, self.module_ast(real), st)
        if len(parts) > 1:
            pa = "mod:" + ".".join(parts[:-1])
            if pa in st.heap and parts[-1] not in st.heap[pa].d:
                st.w(pa).d[parts[-1]] = Mod(real)
        return True

    def module_attr(self, I, st, mod, name):
        d = self.ext.get(mod)
        if d is not None and name in d:
            v = d[name]
            return v
        sub = mod + "." + name
        if sub in self.ext:
            return Mod(sub)
        if self.resolve(mod) is not None or any(k.startswith(mod + ".") for k in self.files):
            if "mod:" + sub in st.heap:
                return Mod(sub)
            if name == "__dict__":
                o = st.heap.get("mod:" + mod)
                return I.dict_(st, {Const(k): v for k, v in o.d.items()})
            return None
        if name == "__version__":
            return Const("0")
        return Top("%s.%s" % (mod, name))

    def opaque_class(self, name):
        c = self.opaque_cache.get(name)
        if c is None:
            c = Cls(name, [self.b.object], "external")
            c.opaque = True
            self.opaque_cache[name] = c
        return c

    def register_class(self, cls):
        self.classes[cls.addr] = cls

    # ------------------------------------------------------------- lookups
    def exc(self, name):
        c = self.builtins.get(name)
        if not isinstance(c, Cls):
            raise KeyError(name)
        return c

    def builtin(self, name):
        return self.builtins.get(name)

    def method_model(self, kind, name):
        return self.models.get((kind, name))

    def type_method(self, cls, name):
        b = self.b
        for c in cls.mro:
            k = {b.str: "str", b.list: "list", b.dict: "dict", b.set: "set", b.tuple: "tuple", b.int: "int"}.get(c)
            if k is not None:
                m = self.models.get((k, name))
                if m is not None:
                    return m
        return self.models.get(("object", name))

    def is_namespace(self, o):
        return o.cls is not None and any(c.name == "Namespace" for c in o.cls.mro)

    # thin delegation to models
    def isinstance_(self, I, st, v, c):
        return self.M.isinstance_(I, st, v, c)

    def str_(self, I, st, v):
        return self.M.str_(I, st, v)

    def repr_(self, I, st, v):
        return self.M.repr_(I, st, v)

    def percent(self, I, st, l, r):
        return self.M.percent(I, st, l, r)

    def str_contains(self, I, st, c, x):
        return self.M.str_contains(I, st, c, x)

    def str_getitem(self, I, st, c, k):
        return self.M.str_getitem(I, st, c, k)

    # ---------------------------------------------------------------- loading
    def load(self, modules=None, tools=False):
        """Interpret the module bodies; returns (interpreter, state)."""
        I = Interp(self)
        st = new_state()
        st.new("warn", d={"rec": NONE}, items=(), addr="$warn")
        for f in self.state_init:
            f(I, st)
        names = modules or [m for m in self.files if tools or not m.startswith("tools")]
        for m in names:
            try:
                self.import_module(I, st, m)
            except Dead:
                exc = I.sink[-1][0] if I.sink else None
                self.failed_imports[m] = repr(exc)
                # the failing state became unusable
                raise AnalysisBroken("module %s fails on import: %r" % (m, exc))
        self.load_sink = list(I.sink)
        I.sink = []
        return I, st


def _unused():
    return posixpath, _pyb
