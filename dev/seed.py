"""Confirms planted bugs (dev/seedsrc/*.py) in a scratch copy and stores them in seeded/.

Each dev/seedsrc file calls seed(id, property, edits, demo, needs, breaks) where
edits is a list of (file, old, new[, count]).  usage: dev/seed.py [id ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id] = (prop, edits, demo, needs, breaks)


for f in sorted(glob.glob(os.path.join(ROOT, "dev/seedsrc/*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})

DEMO = """#!/bin/bash
# exit 0: behaviour as it should be; nonzero: the property is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LANG=C.UTF-8
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def main(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for id in ids:
        prop, edits, demo, needs, breaks = SEEDS[id]
        out = os.path.join(ROOT, "seeded", id)
        work = tempfile.mkdtemp(prefix="seed-")
        try:
            d = os.path.join(work, "repo")
            subprocess.check_call(["git", "clone", "-q", "/repo", d])
            dm = os.path.join(work, "demo")
            os.makedirs(dm)
            open(dm + "/demo.sh", "w").write(DEMO)
            open(dm + "/demo.py", "w").write(demo)
            r0 = subprocess.run(["bash", dm + "/demo.sh"], cwd=d, capture_output=True, text=True)
            for e in edits:
                p = os.path.join(d, e[0])
                s = open(p).read()
                n = s.count(e[1])
                want = e[3] if len(e) > 3 else 1
                if n != want:
                    raise SystemExit("%s: %d matches of %r in %s" % (id, n, e[1], e[0]))
                open(p, "w").write(s.replace(e[1], e[2]))
            diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
            r1 = subprocess.run(["bash", dm + "/demo.sh"], cwd=d, capture_output=True, text=True)
            if r0.returncode != 0 or r1.returncode == 0:
                print(id, "DEMO WRONG", r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-400:])
                continue
            t = open("/opt/vp/test.sh").read().replace("/repo", d)
            open(work + "/test.sh", "w").write(t)
            subprocess.run(["bash", work + "/test.sh", work + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            got = set(json.load(open(work + "/o.json"))["passed"])
            if base - got:
                print(id, "TESTS FAIL", sorted(base - got)[:4])
                continue
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO)
            open(out + "/demo.py", "w").write(demo)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
            print(id, "kept")
        finally:
            shutil.rmtree(work)


if __name__ == "__main__":
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(os.path.join(ROOT, "seeded", i, "patch.diff"))]
    if len(ids) > 1:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            for i in ids:
                ex.submit(subprocess.call, [sys.executable, __file__, i])
    else:
        main(ids)
