"""Runs the check of each planted bug's property on a scratch copy with the bug.
usage: dev/trycheck.py [id ...]   (all checks: --all)"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
for id in ids:
    meta = json.load(open(ROOT + "/seeded/%s/meta.json" % id))
    work = tempfile.mkdtemp(prefix="try-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", work + "/repo"])
        subprocess.check_call(["git", "-C", work + "/repo", "apply", ROOT + "/seeded/%s/patch.diff" % id])
        shutil.copytree(ROOT, work + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        props = [meta["property"]] if "--all" not in sys.argv else ["C%02d" % i for i in range(1, 21)]
        for p in props:
            r = subprocess.run([sys.executable, "-m", "ksverify", p], cwd=work + "/verif", env=dict(os.environ, KSVERIFY_REPO=work + "/repo"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN") and "VIOLATION" not in l]
            print(id, p, "CAUGHT" if r.returncode == 1 else "missed rc=%d" % r.returncode, (v[0][:200] if v else r.stderr[-300:]), flush=True)
    finally:
        shutil.rmtree(work)
