"""Values with blanks survive writing wherever they are quoted.

The committed reference lists, per generation of a command, the lines in which
an option or argument value is a hole for any text with a blank in it and which
the published writer quotes. Each line is interpreted, the command objects are
written by their own writers and the text template is read again in a new
handler of the same version: the quoted hole must come back as one value, in
the same place. The splitting of the text is the engine's model of shlex, in
which a blank hole outside quotes becomes several words."""
import re

from .. import spec
from ..check import bad, ok, undecided, world
from ..world import untpl
from .c01 import roundtrip, where, written

OPT = re.compile(r"(--[\w-]+)=(\{w:[^} ]*\})(?= |$)")
POS = re.compile(r"(?<= )(\{w:[^} ]*\})(?= |$)")


def blank(h):
    return '"' + h.replace("{w:", "{b:") + '"'


def singles(lines):
    """{option or 'argument n': lines in which just that value has a blank}."""
    res = {}
    for l in lines:
        for m in OPT.finditer(l):
            res.setdefault(m.group(1), []).append(l[:m.start(2)] + blank(m.group(2)) + l[m.end(2):])
        for m in POS.finditer(l):
            res.setdefault(m.group(1), []).append(l[:m.start(1)] + blank(m.group(1)) + l[m.end(1):])
    return res


def every(l, names):
    """The line with each of the named values holding a blank."""
    l = OPT.sub(lambda m: m.group(1) + "=" + (blank(m.group(2)) if m.group(1) in names else m.group(2)), l)
    return POS.sub(lambda m: blank(m.group(1)) if m.group(1) in names else m.group(1), l)


def kept(w, line):
    """Does the published writer write the value, and does it come back?"""
    out = w.read(line + "\n")
    if out.status != "ok" or out.why:
        return False
    ch = [n for n, s in w.changed(out.state).items() if w.diff(n, s)]
    text, b, o = written(w, out.state.copy(), ch)
    if text is None:
        return False
    holes = set(re.findall(r"\{b:[^}]*\}", line))
    t = "\n".join(x for x in untpl(text).split("\n") if not x.strip().startswith("#"))
    if not all(h in t for h in holes):
        return False
    return roundtrip(w, line)[0] == "ok"


def published(t):
    """Reference of one generation (tools/mkspec.py --blank)."""
    name, vs, lines = t
    lines = [l for l in lines if "\n" not in l and l.split(" ")[0] == name and "{w:" in l]
    ws = [world(v) for v in dict.fromkeys([vs[0], vs[-1]])]
    use, names = [], set()
    for k, c in sorted(singles(lines).items()):
        c = sorted(set(c), key=lambda x: (x.count(" --"), len(x), x))
        good = [l for l in c[:3] + c[len(c) // 2:len(c) // 2 + 2] + c[-2:] if all(kept(w, l) for w in ws)]
        if good:
            names.add(k)
            use += good
    long_ = sorted(lines, key=lambda x: (-x.count("="), len(x), x))[:6]
    for l in long_ + sorted(lines, key=lambda x: (x.count(" --"), len(x), x))[:40]:
        x = every(l, names)
        if x.count("{b:") > 1 and all(kept(w, x) for w in ws):
            use.append(x)
    return name, vs, sorted(set(use))


# other texts with blanks: the hole within punctuation that means something elsewhere in a line
SHAPES = ("{b},{w}", "{w}={b}", "{b}#{w}", "{b}:{w}", "-{b}", "--{b}", "{b}  {w} ", "%{b}", "{w}/{b};")


def shaped(l, k):
    """The line with the first blank hole in the k-th shape."""
    m = re.search(r"\{b:([^}]*)\}", l)
    sh = SHAPES[k % len(SHAPES)]
    return l[:m.start()] + sh.replace("{b}", m.group(0)).replace("{w}", "{w:z%s}" % m.group(1)) + l[m.end():]


def task(t):
    ver, ls = t
    w = world(ver)
    n = 0
    for name, l in ls:
        if name not in w.cmds:
            continue
        r = roundtrip(w, l)
        if r[0] == "ok":
            n += 1
        elif r[0] == "undecided":
            yield undecided("%s: %s" % (name, r[1]), "%s: %s" % (ver, l))
        elif r[0] == "bad":
            kind, msg, items = r[1:]
            cls = w.cls_name(name)
            key = (name, kind, str(sorted(set(i["attr"] for i in items))) if items else cls)
            yield bad(key, "%s: %s" % (l, msg), where(w, name), {"version": ver, "line": l}, items or [{"cmd": name, "kind": kind, "class": cls, "line": l}])
    yield ok(n)
    if ls:
        yield ("sample", "%s: %s" % (ver, ls[len(ls) // 2][1]))


def check(rep):
    by = {}
    for name, gs in spec.load("blank").items():
        for vs, ls in gs:
            for v in (vs if rep.tier == "thorough" else list(dict.fromkeys([vs[0], vs[-1]]))):
                by.setdefault(v, []).extend((name, l) for l in ls)
    ts = []
    for v, ls in by.items():
        ls += [(n, shaped(l, k)) for i, (n, l) in enumerate(list(ls)) for k in (range(len(SHAPES)) if rep.tier == "thorough" or l.count("--") < 2 else (i % len(SHAPES), (i + 5) % len(SHAPES)))]
        for i in range(0, len(ls), 150):
            ts.append((v, ls[i:i + 150]))
    rep.run(task, ts)
