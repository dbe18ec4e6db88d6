"""Applies behaviour-keeping edits (dev/refsrc/*.py) to a scratch copy and runs checks there.
usage: dev/ref.py batch [Cxx ...]; each batch file calls ref(file, old, new)"""
import os, subprocess, sys, shutil, tempfile, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = []


def ref(f, old, new, count=1):
    EDITS.append((f, old, new, count))


def main(batch, props):
    src = ROOT + "/dev/refsrc/%s.py" % batch
    exec(compile(open(src).read(), src, "exec"), {"ref": ref})
    work = tempfile.mkdtemp(prefix="ref-")
    try:
        d = work + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", d])
        for f, old, new, count in EDITS:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != count:
                raise SystemExit("%s: %d matches of %r" % (f, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
        t = open("/opt/vp/test.sh").read().replace("/repo", d)
        open(work + "/test.sh", "w").write(t)
        if os.environ.get("NOTEST") is None:
            subprocess.run(["bash", work + "/test.sh", work + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            got = set(json.load(open(work + "/o.json"))["passed"])
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            print("tests lost:", sorted(base - got)[:8], flush=True)
        shutil.copytree(ROOT, work + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        for p in props or ["C%02d" % i for i in range(1, 21)]:
            r = subprocess.run([sys.executable, "-m", "ksverify", p], cwd=work + "/verif", env=dict(os.environ, KSVERIFY_REPO=d), capture_output=True, text=True)
            out = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
            print(p, "quiet" if r.returncode == 0 else "ALARM rc=%d" % r.returncode, out[-1][:150] if out else r.stderr[-300:], flush=True)
            if r.returncode:
                print("\n".join("   " + l[:400] for l in out[:12]), flush=True)
                keep = "/tmp/refout-%s-%s" % (batch, p)
                open(keep, "w").write(r.stdout + r.stderr)
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
