"""Includes.

The reader's source is interpreted on sets of abstract files: every kind of
included content at every position (between commands, in each section kind),
nested to depth three, with and without a final newline, for main inputs given
as string, as absolute and as relative path, and include names given relative,
in sub-directories and absolute, present or missing. The order of files opened
and the lines handled must be those of textual inclusion."""
from ._reader import *
from ..script import TAG

ASPECTS = ("order", "outcome", "script", "options", "packages", "null", "lineno", "errline")
CONT = {"c": (["part", "comm", "lang"], True), "cn": (["blank", "part"], False), "sec": (["part", "posto", "text", "blank", "end", "part"], True),
        "two": (["pre", "text", "end", "addon", "text", "end"], True), "body": (["text", "blank", "pct", "comm"], True), "bodyn": (["comm", "itext"], False), "bodyq": (["quote", "pctq"], True), "bodyb": (["ws", "blank", "comm", "text"], True),
        "pk": (["pkg", "npkg", "grp", "blank", "pkgc"], True), "pkn": (["pkg"], False), "empty": ([], False), "nest": (["part", "inc:c", "part"], True),
        "nests": (["inc:sec", "part", "inc:nest", "lang"], False), "nestb": (["text", "inc:body", "text", "inc:bodyn", "text"], True),
        "nestp": (["inc:pk", "pkg", "inc:pkn", "npkg"], True), "open": (["part", "post", "text"], True), "bad": (["part", "unk", "part"], True)}
OUT = ["c", "cn", "sec", "two", "empty", "nest", "nests", "open", "bad", "nothere"]
BODY = ["body", "bodyn", "bodyq", "bodyb", "empty", "nestb", "nothere"]
PK = ["pk", "pkn", "empty", "nestp", "nothere"]


def layouts():
    """(files, main path or None, main kinds): path resolution."""
    leaf = (["part"], True)
    for main in ("/d/main", "/d/e/main", "main", "e/main", None):
        base = posixpath.dirname(main) if main else None
        for where in ("given", "beside", "both", "none"):
            for name in ("x", "s/x", "s/t/x", "/abs/x"):
                for sub in ("y", "u/y", "/abs/y"):
                    for suben in ("given", "beside", "main", "none"):
                        files = {}
                        if where in ("given", "both"):
                            files[name] = (["part", "inc:" + sub, "lang"], True)
                        bpath = posixpath.join(base if base and base.startswith("/") else ("{w:cwd}/" + base if base else "{w:cwd}"), name) if base is not None else None
                        if where in ("beside", "both") and bpath and bpath not in files:
                            files[bpath] = (["lang", "inc:" + sub, "part"], True)
                        at = name if where in ("given", "both") else bpath if where == "beside" else None
                        if at is None and where != "none":
                            continue
                        if at is not None:
                            d = posixpath.dirname(at)
                            d = d if d.startswith("/") or d.startswith("{w:cwd}") else ("{w:cwd}/" + d if d else "{w:cwd}")
                            if suben == "given":
                                files[sub] = leaf
                            elif suben == "beside":
                                files[posixpath.join(d, sub)] = leaf
                            elif suben == "main" and base is not None and base.startswith("/"):
                                files[posixpath.join(base, sub)] = leaf
                            files.setdefault("/d/e/z", leaf)
                            files.setdefault("/d/z", leaf)
                            files.setdefault("{w:cwd}/e/z", leaf)
                        yield files, main, ["part", "inc:" + name, "lang", "inc:z", "part"]


def layouts2():
    """Includes within sections, and files of the same names in different directories."""
    for main in ("/d/main", "main", "e/main"):
        d = posixpath.dirname(main)
        base = d if d.startswith("/") else ("{w:cwd}/" + d if d else "{w:cwd}")

        def at(n):
            return posixpath.join(base, n)
        for h in ("post", "pre", "pkgs", "addon", "onerror"):
            l = "pkg" if h == "pkgs" else "text"
            for n in ("x", "s/x"):
                sub = posixpath.join(posixpath.dirname(n), "y")
                yield {at(n): ([l, l], True)}, main, ["part", h, l, "inc:" + n, l, "end", "lang"]
                yield {at(n): ([l, "inc:y", l], True), at(sub): ([l], True)}, main, [h, "inc:" + n, l, "end", "inc:" + n if False else "part"]
                yield {at(n): ([h, l, "inc:y", "end", "part"], True), at(sub): ([l, l], True)}, main, ["inc:" + n, "part", h, "inc:" + sub, "end"]
        # two directories with files of the same names, at the same depth
        two = {at("a/b"): (["part", "inc:c", "lang"], True), at("a/c"): (["part", "lang"], True), at("z/b"): (["lang", "inc:c", "part"], True), at("z/c"): (["lang", "part"], True), at("c"): (["part"], True)}
        for k in (["inc:a/b", "inc:z/b"], ["inc:z/b", "part", "inc:a/b", "inc:c"], ["inc:c", "inc:a/b", "inc:z/b", "inc:a/c", "inc:c"], ["post", "text", "end", "inc:z/b", "pkgs", "pkg", "end", "inc:c"]):
            yield dict(two), main, k
            deep = dict(two)
            deep[at("q/r/main2")] = ([x.replace("inc:", "inc:../../") for x in k], True)
            yield deep, main, k + ["part"]
        # back up the tree: a file that includes a neighbour after a deeper one
        yield {at("a/b"): (["inc:k/m", "inc:n", "part"], True), at("a/k/m"): (["part", "inc:o"], True), at("a/k/o"): (["lang"], True), at("a/n"): (["part", "lang"], True), at("a/k/n"): (["lang"], True)}, main, ["inc:a/b", "inc:a/n", "part"]
        # the same file twice
        yield {at("a/b"): (["part", "inc:c"], True), at("a/c"): (["lang", "part"], True)}, main, ["inc:a/b", "inc:a/b", "inc:a/c"]


def layout_task(t):
    ver, cases, missing_fatal = t
    run = get_run(ver, {"missing_fatal": missing_fatal})
    nums = versions()
    n = 0
    for files, main, kinds in cases:
        mfiles = {p.replace("{w:cwd}", "{cwd}"): c for p, c in files.items()}
        if main:
            mfiles[main] = (kinds, True)
        m = Model(ver, nums[ver], nums, mfiles, missing_fatal=missing_fatal)
        if main:
            m.read_file(main)
        else:
            m.dirs = [None]
            try:
                m.file(kinds, True, "", 0)
            except Stop as e:
                m.error = e
        if m.odd:
            continue
        fs = {p: render(c[0], c[1], TAG(p.replace("{w:cwd}", "{cwd}"))) for p, c in files.items()}
        content = render(kinds, True, TAG(main) if main else "")
        out = run.go(content, fs, main)
        r = compare_run(run, m, out)
        case = {"version": ver, "main": main, "files": fs, "input": content, "missing_fatal": missing_fatal}
        if r is None:
            yield undecided(out.why or out.status, str(case)[:300])
            continue
        r = [x for x in r if x[0] in ASPECTS]
        if not r:
            o = observe(run, out)
            if o is not None and "opens" in o and None not in o["opens"]:
                want = [p for p in m.opens if p in m.files]
                have = [x.replace("<", "").replace(">", "").replace("{w:cwd}", "{cwd}") for x in o["opens"]]
                if want != have:
                    r = [("open", "the files read are %r, must be %r" % (have, want))]
        if r:
            yield bad(("path", r[0][0]), r[0][1], "pykickstart/parser.py KickstartParser.readKickstart/_handleInclude", case, [{"aspect": r[0][0], "main": main}])
        else:
            n += 1
    yield ok(n)


def dispatch(t):
    return layout_task(t[1:]) if t[0] == "layout" else run_batch(t[1:])


def check(rep):
    thorough = rep.tier == "thorough"
    ts = []
    seqs = []
    for a in OUT:
        i = "inc:" + a
        seqs += [[i], ["part", i, "part"], ["comm", i, i, "lang"], [i, "pre", "text", "end", i, "part"], ["pkgs", "pkg", "end", i, "pkgso", "pkg", "end"]]
        for b in OUT[:6]:
            seqs.append(["part", i, "inc:" + b, "lang", "part"])
    for h in [x for x in HEADS if not x.startswith("bad") and x not in ("foreign",)]:
        for a in (PK if OPENS[h] == "pkgs" else BODY):
            i = "inc:" + a
            l = "pkg" if OPENS[h] == "pkgs" else "text"
            seqs += [[h, i, "end", "part"], [h, l, i, l, "end", "lang"], ["part", h, i, i, l, "endc", "part"], [h, l, i], [h, l, "end", h, i, l, "end", "part"],
                     [h, l, i, "pre", "text", "end", "part"]]
            for b in (PK if OPENS[h] == "pkgs" else BODY)[:3]:
                seqs.append([h, i, l, "inc:" + b, "end", "part"])
    vs = ("F33", "F7") if not thorough else [v for v in ("F33", "F7", "F8", "FC3", "RHEL5", "RHEL7", "F34", "RHEL9") if v in versions()]
    for q, ver in enumerate(vs):
        for fl in ({}, {"missing_fatal": False}, {"follow": False}, {"fatal": False}):
            mine = [s for j, s in enumerate(seqs) if thorough or fl == {} and q == 0 or (j + q) % 3 == 0]
            for b in batches(mine, 20):
                ts.append(("seq", ver, b, ASPECTS, fl, True, CONT))
    more = list(layouts2())
    for q, ver in enumerate(vs):
        for mf in (True, False):
            for b in batches(more if mf or thorough else more[::3], 12):
                ts.append(("layout", ver, b, mf))
    cases = list(layouts())
    for q, ver in enumerate(vs):
        for mf in (True, False):
            mine = [c for j, c in enumerate(cases) if thorough or (j + q + mf) % 4 == 0]
            for b in batches(mine, 20):
                ts.append(("layout", ver, b, mf))
    rep.run(dispatch, ts)
