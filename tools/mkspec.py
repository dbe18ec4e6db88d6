"""Builds the committed reference (spec/) from the tree it is pointed at.

Run by hand after a reviewed change of the library; never run by a check.
    python3 tools/mkspec.py [command ...]
"""
import gzip, json, multiprocessing as mp, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ksverify import spec, tables, world
from ksverify.world import World, program, versions
from ksverify.contexts import Gen, SEEDS, outcome, word
from ksverify.values import *

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
_w = {}


def get(ver):
    if ver not in _w:
        if len(_w) > 3:
            _w.clear()
        _w[ver] = World(ver)
    return _w[ver]


def groups_of(ver):
    w = get(ver)
    seen = {}
    res = []
    dm = w.data_cls(None)
    for n, r in w.cmds.items():
        if not isinstance(r, Ref) or r.addr in seen:
            if isinstance(r, Ref):
                res[seen[r.addr]][1].append(n)
            continue
        seen[r.addr] = len(res)
        c = w.base.get(r).cls
        data = tuple(sorted(v.name for v in dm.values() if v.module == c.module))
        res.append([(n, c.name, data), [n]])
    return ver, [(k, tuple(v)) for k, v in res]


def second(line):
    """The same line about another thing: every hole renamed."""
    import re
    return re.sub(r"\{([wnb]):([A-Za-z0-9_]+)\}", r"{\1:\2z}", line)


def build(job):
    key, aliases, vers = job
    name = key[0]
    t = time.time()
    w = get(vers[0])
    g = Gen(w, name)
    lines = g.run()
    oks = [l for l in lines if g.lines[l] == "ok"]
    errs = [l for l in lines if g.lines[l] == "err"]
    hist = []
    for l in (oks[:6] + oks[-2:]):
        hist.append(l + "\n" + l)
        hist.append(l + "\n" + second(l))
        if len(oks) > 1:
            hist.append(l + "\n" + second(oks[1]))
        if errs:
            hist.append(errs[-1] + "\n" + l)
            hist.append(l + "\n" + errs[0])
    if oks:
        hist.append(oks[0] + "\n" + second(oks[0]) + "\n" + second(second(oks[0])))
        for a in aliases[1:]:
            for l in oks[:12]:
                hist.append(a + l[len(name):])
            for sd in SEEDS.get(a, ()):
                hist.append(a + " " + " ".join(sd))
            hist.append(oks[0] + "\n" + a + second(oks[0])[len(name):])
    res = {}
    for l in list(lines) + hist:
        o = outcome(w, l + "\n")
        if o is not None:
            res[l] = o
    newest = {}
    if vers[-1] != vers[0]:
        w2 = get(vers[-1])
        for l in list(res):
            o = outcome(w2, l + "\n")
            if o != res[l]:
                newest[l] = o
    table, e2e = None, {}
    op = w.base.get(w.cmds[name]).d.get("op")
    if isinstance(op, Ref):
        table = tables.describe(w, op)
        for o in (g.opts or []):
            if o.required and g.bases:
                b = g.bases[0]
            elif o in g.home:
                b = g.home[o]
            else:
                continue
            pre = [x for x in b[0] if x.split("=")[0] not in o.names]
            d = {}
            def put(k, args):
                line = (name + " " + " ".join(pre + args + b[1])).strip()
                d[k] = [line, outcome(w, line + "\n")]
            put("without", [])
            put("once", [word(o)])
            put("twice", [word(o), word(o)])
            if o.nargs == 0:
                put("value", [o.names[0] + "=zz"])
            else:
                put("bare", [])
                d["bare"][0] = (name + " " + " ".join(pre + b[1] + [o.names[0]])).strip()
                d["bare"][1] = outcome(w, d["bare"][0] + "\n")
                vals = list(tables.PROBE) + [str(c) for c in o.choices or []]
                for v in vals:
                    put("v:" + v, [word(o, v)])
            for n in o.names:
                e2e[n] = d
    miss = [o.names[0] for o in g.opts or [] if not any(g.lines[l] == "ok" and any(x.split("=")[0] in o.names for x in l.split()) for l in lines)]
    return key, aliases, vers, res, newest, miss, time.time() - t, {"init": w.snap0(name), "table": table, "e2e": e2e}


def eq_of(job):
    name, gi, ver, lines = job
    from ksverify import datalist
    w = get(ver)
    if datalist.datalist(w, w.base, name) is None:
        return name, gi, None
    return name, gi, [[a, b, datalist.eq(w, name, a, b)] for a, b in datalist.eq_cases(lines)]


def forms_of(job):
    name, gi, ver, lines = job
    from ksverify import datalist
    w = get(ver)
    res = {}
    for l, e in lines:
        for f in datalist.forms(l):
            o = outcome(w, f + "\n")
            if o is not None:
                res[f] = o
                if o != e:
                    print("form", ver, l, "|", f, "E" if o == "E" else "DIFF")
    return name, gi, res


def formss():
    from ksverify import datalist
    jobs = []
    for n, gs in spec.commands().items():
        for i, g in enumerate(gs):
            ls = [l for l, e in g["lines"].items() if isinstance(e, list) and "\n" not in l]
            ls = list(dict.fromkeys(datalist.pick(ls, 14) + datalist.pick2(ls, 6)))
            jobs.append((n, i, g["versions"][-1], [(l, g["newest"].get(l, g["lines"][l])) for l in ls]))
    res = {}
    with mp.Pool(8) as p:
        for n, i, r in p.imap_unordered(forms_of, jobs):
            res.setdefault(n, {})[str(i)] = r
    spec.save("forms", res)
    print("forms", sum(len(x) for d in res.values() for x in d.values()))


def eqs():
    jobs = []
    for n, gs in spec.commands().items():
        for i, g in enumerate(gs):
            jobs.append((n, i, g["versions"][0], [l for l, e in g["lines"].items() if isinstance(e, list) and "\n" not in l and l.split(" ")[0] == n]))
    res = {}
    with mp.Pool(8) as p:
        for n, i, r in p.imap_unordered(eq_of, jobs):
            if r is not None:
                res.setdefault(n, {})[str(i)] = r
    spec.save("eq", res)
    print("eq", sum(len(x) for d in res.values() for x in d.values()))


def pairs_of(job):
    """lines: command -> accepted lines; pairs with at most one other than the first."""
    ver, lines, only = job
    w = get(ver)
    res = {}
    alone = {l: outcome(w, l + "\n") for ls in lines.values() for l in ls}
    for a in lines:
        for b in lines:
            if a == b or only is not None and (a not in only or b not in only):
                continue
            for la, lb in [(lines[a][0], x) for x in lines[b]] + [(x, lines[b][0]) for x in lines[a][1:]]:
                if not isinstance(alone[la], list) or not isinstance(alone[lb], list):
                    continue
                t = la + "\n" + lb
                res[a, b, t] = (outcome(w, t + "\n"), ["ok", {**alone[la][1], **alone[lb][1]}, sorted(alone[la][2] + alone[lb][2])])
    return ver, res


def cross(vers, bycmd):
    """Lines of two different commands after each other."""
    def base(ver, name, n=1):
        for g in bycmd[name]:
            if ver in g["versions"]:
                ls = sorted((l for l, o in g["lines"].items() if "\n" not in l and isinstance(o, list) and "--zz" not in l and o[1]
                            and l.split()[0] == name), key=lambda l: (len(l.split()), l))
                if len(ls) > 3 and n > 1:
                    return [ls[0], ls[len(ls) // 3], ls[2 * len(ls) // 3], ls[-1]]
                return ls[:1]
        return []
    jobs = []
    for v in ("RHEL5", "F16", "RHEL6", "RHEL7", "F29", "F34", "RHEL8"):
        jobs.append((v, {n: base(v, n) for n in bycmd if base(v, n)}, None))
    inter = set()
    with mp.Pool(8) as p:
        for ver, res in p.imap_unordered(pairs_of, jobs):
            for (a, b, t), (o, exp) in res.items():
                if o != exp and o is not None:
                    inter.add((a, b))
    names = {x for p in inter for x in p}
    print("interacting", len(inter), sorted(names))
    more = {"clearpart", "ignoredisk", "bootloader", "user", "network"}
    out = {}
    jobs = [(v, {n: base(v, n, 4 if n in names else 1) for n in bycmd if base(v, n)}, names | more) for v in vers]
    with mp.Pool(8) as p:
        for ver, res in p.imap_unordered(pairs_of, jobs):
            out[ver] = {t: o for (a, b, t), (o, exp) in res.items() if o is not None}
    spec.save("cross", out)
    print("cross", sum(len(x) for x in out.values()))
    cm = {}
    for v in vers:
        w = get(v)
        cm[v] = {}
        for n, r in w.cmds.items():
            cm[v][n] = {"class": w.cls_name(n), "prio": w.canon(w.base, w.base.get(r).d.get("writePriority")) if isinstance(r, Ref) else None}
    spec.save("versions", cm)


if __name__ == "__main__":
    only = sys.argv[1:]
    program()
    vs = sorted(versions().items(), key=lambda x: x[1])
    if only == ["--maps"]:
        res = {}
        for v, n in vs:
            w = get(v)
            res[v] = {"number": n, "commands": {k: w.cls_name(k) for k in w.cmds}, "data": {k: c.name for k, c in w.data_cls("").items()},
                      "prio": {k: w.canon(w.base, w.base.get(r).d.get("writePriority")) for k, r in w.cmds.items() if isinstance(r, Ref)},
                      "shared": sorted(sorted(k for k in w.cmds if w.cmds[k] == r) for r in set(w.cmds.values()))}
        spec.save("maps", res)
        sys.exit(0)
    if only == ["--ctor"]:
        from ksverify import ctor
        spec.save("ctor", {v: ctor.published(get(v)) for v, n in vs})
        sys.exit(0)
    if only == ["--dep"]:
        from ksverify.rules import c13
        cl, hd = {}, {}
        for v, n in vs:
            w = get(v)
            cs = {k: w.base.get(r).cls for k, r in w.cmds.items() if isinstance(r, Ref)}
            cl[v] = {"dep": sorted(k for k, c in cs.items() if "DeprecatedCommand" in [x.name for x in c.mro] and "RemovedCommand" not in [x.name for x in c.mro]),
                     "rem": sorted(k for k, c in cs.items() if "RemovedCommand" in [x.name for x in c.mro])}
            hd[v] = {h: c13.header_outcome(w, h)[0] for h in c13.headers()}
            print(v, cl[v], sum(1 for x in hd[v].values() if x is None), sum(1 for x in hd[v].values() if x == "E"))
        spec.save("dep", {"classes": cl, "headers": hd})
        sys.exit(0)
    if only == ["--forms"]:
        formss()
        sys.exit(0)
    if only == ["--blank"]:
        from ksverify.rules import c20
        res = {}
        js = [(n, g["versions"], [l for l, e in g["lines"].items() if isinstance(e, list)]) for n, gs in spec.commands().items() for g in gs]
        with mp.Pool(8) as p:
            for n, v, ls in p.imap(c20.published, js):
                res.setdefault(n, []).append([v, ls])
        spec.save("blank", res)
        print(sum(len(x[1]) for g in res.values() for x in g), "lines")
        sys.exit(0)
    if only == ["--pkghdr"]:
        from ksverify.rules import c09
        with mp.Pool(8) as p:
            res = dict(zip([v for v, n in vs], p.map(c09.published, [v for v, n in vs], 1)))
        spec.save("pkghdr", res)
        print({v: (len(r["one"]), len(r["two"])) for v, r in res.items()})
        sys.exit(0)
    if only == ["--eq"]:
        eqs()
        sys.exit(0)
    if only == ["--cross"]:
        cross([v for v, n in vs], spec.commands())
        sys.exit(0)
    groups = {}
    with mp.Pool(8) as p:
        for ver, gs in p.imap(groups_of, [v for v, n in vs]):
            for k, al in gs:
                groups.setdefault((k, al), []).append(ver)
    jobs = [(k[0], k[1], v) for k, v in groups.items() if not only or k[0][0] in only]
    big = {"logvol": 0, "part": 1, "raid": 2, "network": 3}
    jobs.sort(key=lambda j: (big.get(j[0][0], 9), j[2][0]))
    print(len(jobs), "groups")
    bycmd = {}
    tot = 0
    with mp.Pool(8) as p:
        for key, al, vers, res, newest, miss, dt, more in p.imap_unordered(build, jobs):
            tot += len(res)
            xs = sorted(l for l, o in res.items() if isinstance(o, str) and o.startswith("X"))
            if miss or newest or xs or dt > 20:
                print(key, vers[0], len(res), "newest-diff", len(newest), "MISS", miss, "EXC", len(xs), xs[:2], "%.1f" % dt)
            bycmd.setdefault(key[0], []).append({"class": key[1], "data": list(key[2]), "names": list(al), "versions": vers, "lines": res, "newest": newest, **more})
    os.makedirs(os.path.join(SPEC, "commands"), exist_ok=True)
    for n, gs in bycmd.items():
        gs.sort(key=lambda g: vs.index((g["versions"][0], dict(vs)[g["versions"][0]])))
        with open(os.path.join(SPEC, "commands", n + ".json.gz"), "wb") as f:
            f.write(gzip.compress(json.dumps(gs, sort_keys=True).encode(), mtime=0))
    print(tot, "contexts")
    if not only:
        cross([v for v, n in vs], bycmd)
