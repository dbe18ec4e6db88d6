"""Development aid, not a check: compares the abstract interpreter with the
real library on concrete command lines (engine validation)."""
import ast, glob, sys, time, warnings, multiprocessing as mp
sys.path.insert(0, '/verif')
sys.path.insert(0, '/repo')
sys.setrecursionlimit(20000)
from ksverify.program import Program
from ksverify.values import *

def corpus():
    out = set()
    for f in glob.glob('/repo/tests/commands/*.py') + glob.glob('/repo/tests/parser/*.py'):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 2000:
                out.add(n.value)
    return sorted(out)

def real(ver, text):
    from pykickstart.parser import KickstartParser
    from pykickstart.version import makeVersion
    h = makeVersion(ver)
    p = KickstartParser(h)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            p.readKickstartFromString(text)
        except BaseException as e:
            return ("EXC", type(e).__name__, getattr(e, "lineno", None), str(e))
        try:
            return ("OK", str(h), tuple(sorted((x.category.__name__, str(x.message)) for x in w)))
        except BaseException as e:
            return ("STREXC", type(e).__name__, str(e))

def abstract(P, I, base, kp, h, text):
    s = base.copy()
    r, alive, ex = I.guarded(s, lambda s: I.call(s, I.getattr_(s, kp, "readKickstartFromString"), [Const(text)], {}))
    if alive:
        o, al2, ex2 = I.guarded(s, lambda s: P.str_(I, s, h))
        if not al2:
            e, es = ex2[0]
            return ("STREXC", e.cls.name, None)
        return ("OK", o.v if isinstance(o, Const) else repr(o), tuple(sorted((e[2].name, e[3].v if isinstance(e[3], Const) else repr(e[3])) for e in s.events() if e[1] == "warn")), len(ex), s.notes())
    e, es = ex[0]
    m = P.str_(I, es, e.val)
    ln = es.get(e.val).d.get("lineno")
    return ("EXC", e.cls.name, ln.v if isinstance(ln, Const) else repr(ln), m.v if isinstance(m, Const) else repr(m), len(ex), es.notes())

def work(ver):
    P = Program()
    I, st = P.load()
    mk = st.heap["mod:pykickstart.version"].d["makeVersion"]
    KP = st.heap["mod:pykickstart.parser"].d["KickstartParser"]
    h = I.call(st, mk, [Const(ver)], {})
    kp = I.call(st, KP, [h], {})
    st.w("$ev").items = ()
    base = st.freeze()
    bad = []
    n = 0
    for t in corpus():
        r = real(ver, t)
        try:
            a = abstract(P, I, base, kp, h, t)
        except BaseException as e:
            import traceback
            a = ("CRASH", repr(e), traceback.format_exc()[-800:])
        n += 1
        if r[0] == "STREXC":
            ok = a[0] == "STREXC" and a[1] == r[1]
        else:
            ok = a[:len(r)] == r if r[0] == "OK" else a[:2] == r[:2] and str(a[2]) == str(r[2])
        if not ok:
            bad.append((ver, t, r, a))
    return n, bad

if __name__ == "__main__":
    vers = sys.argv[1:] or ["FC3", "F8", "RHEL6", "F21", "RHEL7", "F34", "RHEL8", "FC6"]
    with mp.Pool(8) as p:
        for n, bad in p.imap(work, vers):
            print(n, len(bad))
            for b in bad[:int(12)]:
                print("  V", b[0], repr(b[1])[:200]); print("     real", repr(b[2])[:700]); print("     abs ", repr(b[3])[:900])
