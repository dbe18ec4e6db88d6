"""Printing, aliases and resetting.

For every version the reader is interpreted on documents that use as many
commands together as the version allows (values are holes); str(handler) is
interpreted in that state and must be the concatenation of the text of every
distinct command object, once each, sorted by priority and class name, then
the scripts in order, the foreign sections and the packages. Commands that the
published version writes in a fixed order must still be written in it. Every
name of every command is reset in that state and the resulting heap examined:
all names of the command and printing reach one new object equal to a new
handler's, which reads again, and nothing else changed."""
from .. import spec
from ..check import bad, ok, undecided, world
from ..compare import data_diff
from ..interp import AnalysisBroken
from ..values import *
from ..world import tpl, unsure, untpl, versions
from .c01 import where

_lines = {}
WB = "pykickstart/base.py "


def lines_of(ver):
    """[(command, [accepted lines])]: the shortest and one of the longest of each."""
    if not _lines:
        for n, gs in spec.commands().items():
            for g in gs:
                al = sorted((l for l, e in g["lines"].items() if isinstance(e, list) and "\n" not in l and l.split(" ")[0] == n), key=lambda l: (len(l), l))
                use = al[:1] + al[1:2] + al[len(al) // 2:len(al) // 2 + 1] + al[-1:]
                for v in g["versions"]:
                    _lines[v, n] = list(dict.fromkeys(use))
    return [(n, ls) for (v, n), ls in sorted(_lines.items()) if v == ver and ls]


def documents(w, variants=3):
    """(names, state, lines): sets of lines accepted together, covering every command."""
    todo = lines_of(w.ver)
    for k in range(variants):
        left = [(n, ls[min(k, len(ls) - 1)]) for n, ls in todo]
        if k % 2:
            left.reverse()
        guard = 0
        while left and guard < 12:
            guard += 1
            st, used, rest = w.fresh(), [], []
            for n, l in left:
                s2 = st.copy()
                out = w.read(l + "\n", s2)
                if out.status == "ok" and not out.why:
                    st = s2
                    used.append((n, l))
                elif out.status == "err":
                    rest.append((n, l))
            if not used:
                break
            yield st, used
            left = rest


def objects(w, st):
    """Distinct command objects: [(ref, names)]."""
    res = {}
    for n, r in w.commands(st).items():
        if isinstance(r, Ref):
            res.setdefault(r.addr, (r, []))[1].append(n)
    return list(res.values())


def text_of(w, st, ref):
    v, out = w.str_of(st.copy(), ref)
    if out.status != "ok" or out.why or sparts(v) is None:
        return None
    return untpl(v)


def prio(w, st, ref):
    p = st.get(ref).d.get("writePriority")
    return p.v if isinstance(p, Const) else "?"


def printed(w, st):
    """(full text, [(prio, class name, names, text)]) or None."""
    t = text_of(w, st, w.h)
    if t is None:
        return None
    segs = []
    for r, names in objects(w, st):
        s = text_of(w, st, r)
        if s is None:
            return None
        p = prio(w, st, r)
        if p == "?":
            return None
        if s:
            segs.append((p, st.get(r).cls.name, sorted(names), s))
    return t, segs


def check_print(w, st, case, pub):
    r = printed(w, st)
    if r is None:
        return [undecided("text not determined", str(case)[:200])]
    t, segs = r
    head = t.split("#version=", 1)
    if len(head) != 2 or not head[1].startswith(w.ver + "\n") and not head[1].startswith("DEVEL\n"):
        return [bad(("head",), "the text of the handler does not name its version: %r" % t[:80], WB + "BaseHandler.__str__", case)]
    body = head[1].split("\n", 1)[1]
    silent = [s for s in segs if s[0] is None]
    if silent:
        # never written by the handler although it has text
        return [bad(("silent", silent[0][1]), "%s has text %r but no place in the output" % (silent[0][1], silent[0][3]), where(w, silent[0][2][0]), case)]
    segs.sort(key=lambda s: (s[0], s[1]))
    out = []
    exp = "".join(s[3] for s in segs)
    if body != exp:
        for p, c, n, s in segs:
            k = body.count(s)
            if k == 0:
                out.append(bad(("miss", c), "the text of the %s object (%r) is not in the text of the handler" % (c, s), WB + "KickstartHandler.__str__/_setCommand/_insertSorted", case))
            elif k > 1 and sum(s in x[3] for x in segs) == 1:
                out.append(bad(("twice", c), "the text of the %s object (%r) is written %d times" % (c, s, k), WB + "KickstartHandler.__str__/_setCommand/_insertSorted", case))
            if len(out) > 3:
                break
        if not out:
            extra = body
            for s in sorted(segs, key=lambda s: -len(s[3])):
                extra = extra.replace(s[3], "", 1)
            if extra:
                out.append(bad(("extra",), "the text of the handler has parts no command object wrote: %r" % extra[:200], WB + "KickstartHandler.__str__", case))
            else:
                out.append(bad(("order",), "the commands are not written in the order of their priority and class name: %r" % body[:300], WB + "KickstartHandler.__str__/_insertSorted", case))
        return out
    # order that the published version guarantees
    seen = []
    for p, c, n, s in segs:
        q = [pub.get(x) for x in n if pub.get(x) is not None]
        if q:
            seen.append((max(q), c, n[0]))
    for a, b in zip(seen, seen[1:]):
        if a[0] and b[0] and a[0] > b[0]:
            out.append(bad(("prio", a[2], b[2]), "%s is written before %s, but must come after it" % (a[2], b[2]), where(w, a[2]), case))
    zero = [s for s in seen if s[0] == 0]
    if not out:
        out.append(ok(len(segs) + 1))
    return out


SECTIONS = [
    ["%pre", "{w:a1}", "%end", "%post --nochroot", "{w:a2}", "%end", "%packages", "{w:p1}", "%end", "%pre", "{w:a3}", "%end"],
    ["%packages --ignoremissing", "{w:p1}", "@{w:g1}", "-{w:x1}", "%end", "%addon {w:ad} --{w:o}", "{w:a1} {w:a4}", "%end", "%post", "{w:a2}", "%end", "%anaconda", "{w:a3}", "%end"],
    ["#platform={w:plat}", "%traceback", "{w:a1}", "%end", "%post --interpreter=/{w:i}", "{w:a2}", "{w:a5}", "%end", "%pre-install", "{w:a3}", "%end", "%onerror", "{w:a6}", "%end", "%post", "{w:a2}", "%end"],
    # the same things twice
    ["%addon {w:ad}", "{w:a1}", "%end", "%post", "{w:a2}", "%end", "%addon {w:ad}", "{w:a1}", "%end", "%post", "{w:a2}", "%end", "%packages", "{w:p1}", "%end", "%anaconda", "{w:a3}", "%end", "%addon {w:ad}", "{w:a4}", "%end", "%packages", "{w:p1}", "%end"],
]


def sections(w, st0, case0):
    for i, ls in enumerate(SECTIONS + [SECTIONS[0] + ["--- then ---"] + SECTIONS[2][:8]]):
        st = st0.copy()
        case = dict(case0, sections=ls)
        if "--- then ---" in ls:
            # two inputs, the line numbers of the second start again
            k = ls.index("--- then ---")
            out = w.read("\n" * 30 + "\n".join(ls[:k]) + "\n", st)
            out = w.read("\n".join(ls[k + 1:]) + "\n", st) if out.status == "ok" and not out.why else out
        else:
            out = w.read("\n".join(ls) + "\n", st)
        if out.status != "ok" or out.why:
            yield undecided("sections: %s" % (out.why or out.status), str(ls))
            continue
        r = printed(w, st)
        hd = st.get(w.h).d
        it = st.get(hd["scripts"])
        scr = [text_of(w, st, x) for x in it.items] if it.rest is None else [None]
        pk = text_of(w, st, hd["packages"])
        if r is None or None in scr or pk is None:
            yield undecided("section text", str(ls))
            continue
        t, segs = r
        segs.sort(key=lambda s: (s[0] is None, s[0], s[1]))
        cmds = "".join(s[3] for s in segs)
        head = t.split("#version=", 1)[0]
        plat = [l for l in ls if l.startswith("#platform=")]
        if plat and plat[0] not in head or not plat and "platform" in head:
            yield bad(("platform",), "the platform line is not written: %r" % head, WB + "BaseHandler.__str__", case)
            continue
        body = t.split("#version=", 1)[1].split("\n", 1)[1]
        want = cmds + "".join(scr)
        if not body.startswith(want):
            yield bad(("scripts",), "after the commands the scripts do not follow once each in order: %r, must start with %r" % (body[-300:], "".join(scr)), WB + "BaseHandler.__str__", case)
            continue
        rest = body[len(want):]
        if not rest.endswith(pk):
            yield bad(("pk",), "the text does not end with the packages: %r, must end with %r" % (rest, pk), WB + "BaseHandler.__str__", case)
            continue
        mid = rest[:len(rest) - len(pk)]
        pos = 0
        good = True
        for j, l in enumerate(ls):
            if l.startswith("%addon") or l.startswith("%anaconda"):
                for x in (l, ls[j + 1]):
                    k = mid.find(x, pos)
                    if k < 0:
                        yield bad(("null",), "the line %r of a foreign section is missing or out of order between scripts and packages: %r" % (x, mid), WB + "BaseHandler.__str__", case)
                        good = False
                        break
                    pos = k + len(x)
        if good:
            n = sum(l.startswith(("%addon", "%anaconda")) for l in ls)
            if len([x for x in mid.split("\n") if x.startswith("%") and not x.startswith("%end")]) != n:
                yield bad(("null",), "between scripts and packages stand other lines than the foreign sections: %r" % mid, WB + "BaseHandler.__str__", case)
            else:
                yield ok()


def resets(w, st0, used, case0, which):
    before = {}
    for r, names in objects(w, st0):
        for n in names:
            before[n] = r
    hcls = w.base.get(w.h).cls
    texts = {r.addr: text_of(w, st0, r) for r, n in objects(w, st0)}
    lines = dict(used)
    for j, n in enumerate(sorted(before)):
        if which is not None and n not in which:
            continue
        st = st0.copy()
        case = dict(case0, reset=n)
        wh = WB + "KickstartHandler.resetCommand"
        _v, out = w.guard(st, lambda s: w.I.call(s, w.I.getattr_(s, w.h, "resetCommand"), [Const(n)], {}))
        if out.status != "ok" or out.why:
            if out.status in ("exc", "err"):
                yield bad(("reset", "raises"), "resetCommand(%r) raises %s" % (n, out.exc), wh, case)
            else:
                yield undecided("reset: %s" % (out.why or out.status), n)
            continue
        cur = w.commands(st)
        old = before[n]
        same = [x for x in before if before[x] == old]
        new = cur.get(n)
        if not isinstance(new, Ref):
            yield undecided("reset object", n)
            continue
        probs = []
        if new == old:
            probs.append("the object is still the old one")
        if any(cur[x] != new for x in same):
            probs.append("the names %s do not all reach the new object" % same)
        if any(cur[x] != before[x] for x in before if x not in same):
            probs.append("other commands were replaced: %s" % [x for x in before if x not in same and cur[x] != before[x]])
        d = st.get(new).d
        if d.get("handler") != w.h:
            probs.append("the new object does not belong to the handler")
        if st.get(new).cls is not st0.get(old).cls:
            probs.append("the new object is a %s" % st.get(new).cls.name)
        attr = st.get(new).cls.name.split("_", 1)[-1].lower()
        a = st.get(w.h).d.get(attr)
        if isinstance(a, Ref) and a != new and st0.get(w.h).d.get(attr) == old:
            probs.append("handler.%s is still the old object" % attr)
        if not probs:
            c, c0 = w.canon_obj(st, new), w.snap0(same[0] if same[0] in w.cmds else n)
            if not unsure(c) and c != c0:
                probs.append("the new object is not empty: %s" % sorted(k for k in set(c) | set(c0) if c.get(k) != c0.get(k)))
        if not probs:
            t = text_of(w, st, w.h)
            ts = []
            for r, names in objects(w, st):
                x = text_of(w, st, r)
                p = prio(w, st, r)
                ts.append((p, st.get(r).cls.name, x))
                if r != new and x is not None and texts.get(r.addr) is not None and x != texts[r.addr]:
                    probs.append("the text of %s changed" % names[0])
            if t is not None and all(x[2] is not None and x[0] != "?" for x in ts):
                exp = "".join(x[2] for x in sorted((x for x in ts if x[2]), key=lambda x: (x[0] is None, x[0], x[1])))
                body = t.split("#version=", 1)[1].split("\n", 1)[1]
                if body != exp:
                    probs.append("the text of the handler is not that of its current objects: %r, must be %r" % (body[:200], exp[:200]))
        if not probs and n in lines:
            o2 = w.read(lines[n] + "\n", st)
            if o2.status in ("exc", "err") and w.read(lines[n] + "\n").status == "ok":
                alone = st0.copy()
                if w.read(lines[n] + "\n", alone).status == "ok":
                    probs.append("the line %r is refused after the reset (%s)" % (lines[n], o2.exc))
        if probs:
            yield bad(("reset", probs[0][:30]), "after resetCommand(%r) %s" % (n, "; ".join(probs[:3])), wh, case)
        else:
            yield ok(1 + len(same))
    st = st0.copy()
    _v, out = w.guard(st, lambda s: w.I.call(s, w.I.getattr_(s, w.h, "resetCommand"), [tpl("{w:nosuch}")], {}))
    if out.status == "ok" and not out.why:
        yield bad(("reset", "unknown"), "resetCommand of an unknown name succeeds", WB + "KickstartHandler.resetCommand", case0)


def task(t):
    ver, thorough = t
    w = world(ver)
    pub = spec.load("maps").get(ver, {})
    # aliases share one object
    for names in pub.get("shared", ()):
        refs = [w.cmds.get(n) for n in names]
        if any(r is None for r in refs):
            continue
        if len(set(refs)) != 1:
            yield bad(("alias", names[0]), "the names %s of one command have separate objects" % names, WB + "KickstartHandler.registerCommand", {"version": ver, "names": names})
        else:
            yield ok()
    for n, r in w.cmds.items():
        if isinstance(r, Ref) and w.base.get(r).d.get("handler") != w.h:
            yield bad(("handler", n), "the object of %s does not belong to the handler" % n, WB + "KickstartHandler.registerCommand", {"version": ver, "line": n})
    yield from check_print(w, w.fresh(), {"version": ver, "lines": []}, pub.get("prio", {}))
    first = True
    for k, (st, used) in enumerate(documents(w, 4 if thorough else 2)):
        case = {"version": ver, "lines": [l for n, l in used]}
        yield from check_print(w, st, case, pub.get("prio", {}))
        if first or thorough:
            yield from sections(w, st, case)
        yield from resets(w, st, used, case, None if first or thorough else set(n for n, l in used) if k < 3 else set())
        if first:
            yield ("sample", "%s: %d commands printed together" % (ver, len(used)))
        first = False


def check(rep):
    vs = sorted(versions(), key=lambda v: -versions()[v])
    rep.run(task, [(v, rep.tier == "thorough") for v in vs])
