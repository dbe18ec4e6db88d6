"""The committed reference: input partitions and published behaviour."""
import gzip
import json
import os
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")


def commands():
    """Command name -> list of groups."""
    d = os.path.join(SPEC, "commands")
    res = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".json.gz"):
            with open(os.path.join(d, f), "rb") as fh:
                res[f[:-8]] = json.loads(gzip.decompress(fh.read()).decode())
    return res


def load(name):
    p = os.path.join(SPEC, name + ".json.gz")
    with open(p, "rb") as fh:
        return json.loads(gzip.decompress(fh.read()).decode())


def save(name, data):
    os.makedirs(SPEC, exist_ok=True)
    with open(os.path.join(SPEC, name + ".json.gz"), "wb") as fh:
        fh.write(gzip.compress(json.dumps(data, sort_keys=True).encode(), mtime=0))


COST = {"part": 4, "logvol": 5, "raid": 3, "network": 3, "bootloader": 2, "firewall": 2, "repo": 2, "btrfs": 2, "autopart": 2}


def _kept(line, gi, ng, ver_i):
    """Quick tier: long combinations at the oldest and newest generation of a
    command and, for the generations between, at a third of them each."""
    if line.count(" --") < 2 or gi in (0, ng - 1):
        return True
    return (zlib.crc32(line.encode()) + gi) % 3 == 0


def tasks(tier, want=None, hist=True, limit=1500, all_versions=False, only=None):
    """[(version, [(command, line, expected)])] covering every group.

    quick: each line at the oldest or the newest version of its group,
    alternating; thorough (or all_versions): every version."""
    byver = {}
    for name, groups in commands().items():
        if only and name not in only:
            continue
        ng = len(groups)
        for gi, g in enumerate(groups):
            vs = g["versions"]
            for i, (l, exp) in enumerate(sorted(g["lines"].items())):
                if not hist and "\n" in l:
                    continue
                if want is not None and not want(l, exp):
                    continue
                if tier == "thorough" or all_versions:
                    use = vs
                elif not _kept(l, gi, ng, 0):
                    continue
                else:
                    use = vs if len(vs) == 1 else [vs[0] if i % 2 == 0 else vs[-1]]
                for v in use:
                    e = exp
                    if v != vs[0] and l in g["newest"]:
                        e = g["newest"][l]
                    byver.setdefault(v, []).append((name, l, e))
    out = []
    for v, ls in byver.items():
        cur, c = [], 0
        for x in ls:
            cur.append(x)
            c += COST.get(x[0], 1) * (1 + x[1].count("\n"))
            if c >= limit:
                out.append((c, v, cur))
                cur, c = [], 0
        if cur:
            out.append((c, v, cur))
    out.sort(key=lambda t: -t[0])
    return [(v, ls) for c, v, ls in out]
