"""Enumeration of abstract command lines (input partitions) for one command.

A line is a string with holes ('{w:x}' any word, '{n:x}' any positive number,
'{b:x}' any text with a blank).  The enumeration asks the abstract semantics
which lines are accepted; it is used to build the committed reference in
spec/ and, in the thorough tier, to extend it for the current tree.
"""
from . import argmodel
from .values import *
from .world import tpl, unsure

STRUCT = ["{w:%s}", "{n:%s}", "/{w:%s}", "{w:%s}:{w:%s2}", "{w:%s},{w:%s2}", "{w:%s}={w:%s2}", "{n:%s}:{n:%s2}", "7", "1.5",
          "yes", "on", "http://{w:%s}", "a:{w:%s}", "00:11:22:33:44:55", "192.168.0.1"]
BAD = ["{w:%s}", "{n:%s}", "-7", "0", "{w:%s}:{w:%s2}", "/", "", "7", "70000"]


def fill(s, lab):
    return s.replace("%s2", lab + "2").replace("%s", lab)


class Opt(object):
    __slots__ = ("names", "dest", "nargs", "choices", "required", "ref", "vals", "bad", "lab", "extra")


def options(w, name):
    """Distinct options of a command in table order; (options, positionals)."""
    I = w.I
    st = w.base
    op = st.get(w.cmds[name]).d.get("op")
    if not isinstance(op, Ref):
        return None, None
    acts, rest = I.iterate(st.copy(), st.get(op).d["_actions"])
    if rest is not None:
        return None, None
    opts, pos = [], []
    for i, a in enumerate(acts):
        d = st.get(a).d
        o = Opt()
        o.names = [x.v for x in argmodel.items_of(I, st, d["option_strings"]) if isinstance(x, Const)]
        o.dest = d["dest"].v if isinstance(d["dest"], Const) else None
        o.nargs = d["nargs"].v if isinstance(d["nargs"], Const) else "?unk"
        ch = d["choices"]
        o.choices = None
        if ch != NONE:
            it, r = I.iterate(st.copy(), ch)
            o.choices = [x.v for x in it if isinstance(x, Const)]
        o.required = I.truth(st, d["required"]) is True
        o.ref = a
        o.lab = "v%d" % i
        o.vals, o.bad, o.extra = [], [], []
        if o.names and o.names[0] in ("-h", "--help"):
            continue
        (opts if o.names else pos).append(o)
    return opts, pos


def values(w, name, o):
    """Fill o.vals / o.bad: accepted and rejected value templates."""
    if o.nargs == 0:
        o.vals = [None]
        return
    op = w.base.get(w.cmds[name]).d["op"]

    def test(v):
        st = w.fresh()

        def go(s):
            x = argmodel._get_value(w.I, s, op, o.ref, tpl(v))
            argmodel._check_value(w.I, s, op, o.ref, x)
            return x
        _r, out = w.guard(st, go)
        return out.status

    cands = []
    if o.choices is not None:
        cands += [str(c) for c in o.choices]
    cands += [fill(s, o.lab) for s in STRUCT]
    for c in cands:
        t = test(c)
        if t == "ok":
            if o.choices is None and o.vals and not c[0].isalnum() and len(o.vals) >= 1 and c not in ("7",):
                # one general template is enough, keep numbers as well
                if not ("{n:" in c and ":" not in c[3:].replace("{n:", "")):
                    continue
            o.vals.append(c)
    if o.choices is None and len(o.vals) > 3:
        o.vals = o.vals[:3]
    for c in BAD:
        v = fill(c, o.lab)
        if v in o.vals:
            continue
        t = test(v)
        if t == "ok" and v in ("0", "-7") and v not in o.vals and any("{n:" in x or x == "7" for x in o.vals) and not any(x == "{w:%s}" % o.lab for x in o.vals):
            o.vals.append(v)
        elif t in ("exc", "err"):
            o.bad.append(v)
    o.bad = o.bad[:3]


def word(o, v=None, alt=0):
    n = o.names[min(alt, len(o.names) - 1)]
    if o.nargs == 0:
        return n
    if v is None:
        v = o.vals[0]
    if isinstance(o.nargs, int) and o.nargs > 1:
        return n + " " + " ".join([v] * o.nargs)
    if v == "" or "{b:" in v or " " in v:
        return n + '="%s"' % v
    return n + "=" + v


POS = [[], ["{w:p1}"], ["/{w:p1}"], ["{w:p1}", "{w:p2}"], ["{n:p1}"], ["{w:p1}", "{w:p2}", "{w:p3}"]]


SEEDS = {
    "mount": [["/dev/{w:p1}", "/{w:p2}"], ["{w:p1}", "none"], ["{w:p1}", "swap"]],
    "ostreesetup": [["--osname={w:v1}", "--url={w:v3}", "--ref={w:v4}", "--remote={w:v2}"], ["--osname={w:v1}", "--url={w:v3}", "--ref={w:v4}"],
                    ["--osname={w:v1}", "--url=http://{w:v3}", "--ref={w:v4}"]],
    "snapshot": [["{w:p1}/{w:p2}", "--name={w:v1}", "--when=post-install"], ["{w:p1}/{w:p2}", "--name={w:v1}", "--when=pre-install"]],
    "volgroup": [["{w:p1}", "{w:p2}"], ["{w:p1}", "--useexisting"], ["{w:p1}", "--noformat"], ["{w:p1}", "pv.{n:p2}", "pv.{n:p3}"]],
    "realm": [["join", "{w:p1}"], ["join", "--client-software={w:v1}", "{w:p1}"], ["join", "--no-password", "--computer-ou={w:v2}", "{w:p1}"],
              ["join", "--one-time-password={w:v2}", "{w:p1}"], ["join", "{w:p1}", "{w:p2}"], ["join"], ["join", "--zz", "{w:p1}"],
              ["join", "--server-software={w:v2}", "--membership-software={w:v3}", "{w:p1}"], ["leave", "{w:p1}"]],
    "part": [["/"], ["swap", "--recommended"], ["raid.{n:p1}", "--size={n:v5}"], ["pv.{n:p1}", "--size={n:v5}"]],
    "raid": [["/{w:p1}", "--device={n:v1}", "--level=1", "{w:m1}", "{w:m2}"], ["/{w:p1}", "--device={w:v1}", "--level=1", "{w:m1}", "{w:m2}"],
             ["{w:p1}", "--device={n:v1}", "--noformat"], ["{w:p1}", "--device={n:v1}", "--useexisting"], ["pv.{n:p1}", "--device={w:v1}", "--level=RAID0", "{w:m1}", "{w:m2}"], ["swap", "--level=1", "--device=md{n:v1}", "raid.{n:m1}", "raid.{n:m2}"]],
    "btrfs": [["none", "--label={w:v1}", "--data=0", "--metadata=1", "{w:m1}", "{w:m2}"], ["/{w:p1}", "--subvol", "--name={w:v2}", "{w:m1}"]],
    "cmdline": [["--non-interactive"]],
    "text": [["--non-interactive"]],
    "graphical": [["--non-interactive"]],
    "device": [["{w:p1}", "{w:p2}", "--opts={w:v1}"], ["{w:p1}", "--opts={w:v1}"], ["{w:p1}"]],
    "monitor": [["--monitor={w:v1}", "--hsync={n:v2}", "--vsync={n:v3}"]],
}


class Gen(object):
    def __init__(self, w, name, pair_vals=2, rich=True):
        self.w = w
        self.name = name
        self.lines = {}
        self.order = []
        self.opts, self.pos = options(w, name)
        self.bases = []
        self.pair_vals = pair_vals
        self.rich = rich
        self.probes = {}
        self.home = {}

    def ev(self, args, keep=True):
        line = (self.name + " " + " ".join(args)).strip()
        r = self.lines.get(line)
        if r is None:
            self.w.I.probes.clear()
            out = self.w.read(line + "\n")
            for lab, kind, lit in self.w.I.probes:
                if isinstance(lit, str) and lit and isinstance(lab, str):
                    self.probes.setdefault(lab, set()).add((kind, lit))
            r = out.status
            if r == "ok" and out.why:
                r = "unknown"
            self.lines[line] = r
            if keep:
                self.order.append(line)
        elif keep and line not in self.order:
            self.order.append(line)
        return r

    def run(self):
        if self.opts is None:
            for p in POS + SEEDS.get(self.name, []):
                self.ev(p)
            self.ev(["--zzunknown"])
            return self.order
        w = self.w
        for o in self.opts:
            values(w, self.name, o)
        self.opts = [o for o in self.opts if o.vals]
        req = [word(o) for o in self.opts if o.required]
        opt = [o for o in self.opts if not o.required]
        pools = [list(p) for p in POS]
        for p in self.pos:
            if p.choices:
                pools += [[str(c)] for c in p.choices]
            else:
                values(w, self.name, p)
                pools += [[v] for v in p.vals if v is not None]
        # accepted base lines
        tried = [self.ev(req + p) for p in pools]
        for lab in ("p1", "p2"):
            for kind, lit in sorted(self.probes.get(lab, ())):
                if kind in ("eq", "tmpl-eq") and " " not in lit and [lit] not in pools and len(pools) < 16:
                    pools.append([lit])
                elif kind in ("prefix", "startswith") and " " not in lit and len(pools) < 18:
                    pools.append([lit + "{w:p1}"])
                    pools.append([lit + "{n:p1}"])
        tried = [self.ev(req + p) for p in pools]
        for p, t in zip(pools, tried):
            if t == "ok":
                self.bases.append((req, p))
        for sd in SEEDS.get(self.name, ()):
            if self.ev(sd) == "ok":
                self.bases.append(([x for x in sd if x.startswith("--")], [x for x in sd if not x.startswith("--")]))
        if not self.bases:
            for p in pools:
                for o in opt:
                    for v in o.vals[:2]:
                        if self.ev(req + [word(o, v)] + p, keep=False) == "ok":
                            self.bases.append((req + [word(o, v)], p))
                            break
                if len(self.bases) > 6:
                    break
        if not self.bases:
            for p in pools[:6]:
                for i, o in enumerate(opt):
                    for o2 in opt[i + 1:]:
                        if self.ev(req + [word(o), word(o2)] + p, keep=False) == "ok":
                            self.bases.append((req + [word(o), word(o2)], p))
                            break
                    if len(self.bases) > 2:
                        break
        if not self.bases and opt:
            for p in pools[:6]:
                al = [word(o) for o in opt[:4]]
                if self.ev(req + al + p, keep=False) == "ok":
                    self.bases.append((req + al, p))
        for b, p in self.bases:
            self.ev(b + p)
        if not self.bases:
            return self.order
        # prefer a base with a positional word when positionals are accepted
        main = self.bases[0]
        for b in self.bases[:8]:
            self.ev(b[0] + ["--zzunknown"] + b[1])
            self.ev(b[0] + b[1] + ["{w:x9}"])
        # missing required options
        for o in self.opts:
            if o.required:
                self.ev([x for x in main[0] if x != word(o)] + main[1])
        # single options
        home = self.home = {}
        for o in self.opts:
            if o.required:
                for v in o.vals + o.bad:
                    self.ev([word(o, v) if x == word(o) else x for x in main[0]] + main[1])
                continue
            for v in o.vals:
                st = None
                for b in self.bases[:8]:
                    t = self.ev([x for x in b[0] if not x.startswith(o.names[0] + "=") and x != o.names[0]] + [word(o, v)] + b[1])
                    if t == "ok" and o not in home:
                        home[o] = (b[0], b[1])
                    if t == "ok":
                        st = t
                        if not self.rich:
                            break
                if st != "ok":
                    for b in self.bases[:2]:
                        for o2 in opt:
                            if o2 is o or o2.required:
                                continue
                            if any(x.split("=")[0] in o2.names for x in b[0]):
                                continue
                            for v2 in o2.vals[:3]:
                                ln = b[0] + [word(o, v), word(o2, v2)] + b[1]
                                t = self.ev(ln, keep=False)
                                if t == "ok":
                                    self.ev(ln)
                                    if o not in home:
                                        home[o] = (b[0] + [word(o2, v2)], b[1])
                                    st = t
                                    break
                            if st == "ok":
                                break
                        if st == "ok":
                            break
            for v in o.bad:
                b = home.get(o, main)
                self.ev([x for x in b[0] if x.split("=")[0] not in o.names] + [word(o, v)] + b[1])
            # values the program looks for
            lits = sorted(self.probes.get(o.lab, ()))
            n = 0
            for kind, lit in lits:
                if not lit or " " in lit or '"' in lit or "'" in lit or "\\" in lit or "#" in lit or "{" in lit or o.nargs == 0 or len(lit) > 24:
                    continue
                b = home.get(o, main)
                bb = [x for x in b[0] if x.split("=")[0] not in o.names]
                for v in ([lit] if kind in ("eq", "tmpl-eq") else [lit + "{w:%s}" % o.lab, "{w:%s}%s{w:%s2}" % (o.lab, lit, o.lab)] if kind in ("split", "contains") else [lit + "{w:%s}" % o.lab]):
                    if v in o.vals or v in o.extra:
                        continue
                    self.ev(bb + [word(o, v)] + b[1])
                    o.extra.append(v)
                    n += 1
                if n > 10:
                    break
            # other spellings, empty value, repetition, positionals variants
            b = home.get(o, main)
            bb = [x for x in b[0] if x.split("=")[0] not in o.names]
            for k in range(1, len(o.names)):
                self.ev(bb + [word(o, None, k)] + b[1])
            if o.nargs == 0:
                self.ev(bb + [o.names[0] + "={w:%s}" % o.lab] + b[1])
                self.ev(bb + [o.names[0], o.names[0]] + b[1])
            else:
                self.ev(bb + [word(o, "")] + b[1])
                self.ev(bb + b[1] + [o.names[0]])
                self.ev(bb + [word(o), word(o, o.vals[-1])] + b[1])
        # pairs
        for i, a in enumerate(opt):
            for c in opt[i + 1:]:
                if a not in home and c not in home:
                    continue
                b = home.get(a) or home.get(c)
                bb = [x for x in b[0] if x.split("=")[0] not in a.names + c.names]
                lone = [self.lines.get((self.name + " " + " ".join(bb + [word(o)] + b[1])).strip()) for o in (a, c)]
                if "err" in lone:
                    continue
                t = self.ev(bb + [word(a), word(c)] + b[1])
                if t != "ok" and a in home and c in home and home[c] != home[a]:
                    b = home[c]
                    bb = [x for x in b[0] if x.split("=")[0] not in a.names + c.names]
                    self.ev(bb + [word(a), word(c)] + b[1])
                if self.pair_vals > 1:
                    va = (a.extra + a.vals[1:])[:self.pair_vals - 1] if a.choices or a.extra else []
                    vc = (c.extra + c.vals[1:])[:self.pair_vals - 1] if c.choices or c.extra else []
                    for v in va:
                        self.ev(bb + [word(a, v), word(c)] + b[1])
                    for v in vc:
                        self.ev(bb + [word(a), word(c, v)] + b[1])
        # greedy maximal lines and leave-one-out
        for b in self.bases[:3]:
            for rev in (False, True):
                cur = list(b[0])
                mine = []
                for o in (reversed(opt) if rev else opt):
                    if any(x.split("=")[0] in o.names for x in cur):
                        continue
                    for v in o.vals[:2]:
                        if self.ev(cur + [word(o, v)] + b[1], keep=False) == "ok":
                            cur.append(word(o, v))
                            mine.append(o)
                            break
                if len(mine) > 2:
                    self.ev(cur + b[1])
                    for o in mine:
                        self.ev([x for x in cur if x.split("=")[0] not in o.names] + b[1])
        return self.order


def outcome(w, text, out=None):
    """Canonical outcome of reading text: None when undecided.

    'E' rejected with a parse error; ['ok', {command: changed attributes},
    [warning categories]]."""
    if out is None:
        out = w.read(text)
    if out.status == "err":
        return "E"
    if out.status == "exc":
        return "X:" + out.exc.cls.name
    if out.status != "ok" or out.why:
        return None
    ch = {n: w.diff(n, s) for n, s in w.changed(out.state).items()}
    if unsure(ch) or any(not e[0] for e in out.warns):
        return None
    return ["ok", ch, sorted(e[2].name if isinstance(e[2], Cls) else "?" for e in out.warns)]
