"""Driver of the checks: parallel obligations, verdicts, evidence, findings."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter

from . import spec
from .interp import AnalysisBroken
from .world import World, program
from .world import _prog as progs

ROOT = spec.ROOT
FINDINGS = os.path.join(ROOT, "known-findings.txt")
MAX_REPORT = 20
SLOW = float(os.environ.get("KSVERIFY_SLOW", "0"))

_worlds = {}


def world(ver):
    """World of a version, the last few kept per process."""
    w = _worlds.pop(ver, None)
    if w is None:
        if len(_worlds) >= 3:
            del _worlds[next(iter(_worlds))]
        w = World(ver)
    _worlds[ver] = w
    return w


# ------------------------------------------------------------------ results

def ok(n=1):
    return ("ok", n)


def undecided(why, sample=None):
    return ("und", why, sample)


def bad(key, msg, where=None, replay=None, items=None):
    """A violation.  items: list of fact dicts, each of which may be a listed finding."""
    return ("bad", {"key": key, "msg": msg, "where": where, "replay": replay, "items": items})


def load_findings(prop):
    res = []
    if not os.path.exists(FINDINGS):
        return res
    with open(FINDINGS) as f:
        for line in f:
            if line.startswith("finding: property=%s " % prop):
                head, desc = line.rstrip("\n").split(" :: ", 1)
                m = head.split(" match=", 1)[1]
                res.append((json.loads(m), desc))
    return res


def _get(facts, key):
    cur = facts
    for k in key.split("."):
        if not isinstance(cur, dict) or k not in cur:
            return None
        cur = cur[k]
    return cur


def matches(m, facts):
    for k, v in m.items():
        x = _get(facts, k)
        if isinstance(v, list):
            if x != v and not any(type(x) is type(y) and x == y for y in v):
                return False
        elif not (x == v and type(x) is type(v)):
            return False
    return True


class Report(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.n = Counter()
        self.und = Counter()
        self.und_sample = {}
        self.bads = []
        self.crashes = []
        self.touched = set()
        self.samples = []
        self.rule = ""
        self.extra = {}
        self.assumptions = []
        self.findings = load_findings(prop)
        self.hit = Counter()
        self.deadline = self.t0 + float(os.environ.get("KSVERIFY_BUDGET", "720" if tier == "quick" else "7200"))
        self.skipped = 0

    def add(self, results):
        for r in results:
            if r[0] == "ok":
                self.n["holds"] += r[1]
            elif r[0] == "und":
                self.n["undecided"] += 1
                self.und[r[1]] += 1
                self.und_sample.setdefault(r[1], r[2])
            elif r[0] == "sample":
                if len(self.samples) < 12:
                    self.samples.append(r[1])
            elif r[0] == "count":
                self.extra[r[1]] = self.extra.get(r[1], 0) + r[2]
            elif r[0] == "bad":
                b = r[1]
                items = b["items"]
                left = []
                if items:
                    for it in items:
                        for i, (m, desc) in enumerate(self.findings):
                            if matches(m, it):
                                self.hit[i] += 1
                                break
                        else:
                            left.append(it)
                if items and not left:
                    self.n["known"] += 1
                else:
                    self.n["violated"] += 1
                    b["left"] = left
                    self.bads.append(b)

    def run(self, fn, tasks, procs=None):
        """Run fn(task) -> results over the tasks in parallel processes."""
        tasks = list(tasks)
        if not tasks:
            raise AnalysisBroken("%s: nothing to analyse" % self.prop)
        program()
        procs = procs or min(len(tasks), os.cpu_count() or 4, 8)
        if procs <= 1:
            for t in tasks:
                self._take(_job((fn, t)))
            return
        ctx = mp.get_context("fork")
        with ctx.Pool(procs) as p:
            it = p.imap_unordered(_job, [(fn, t) for t in tasks])
            left = len(tasks)
            while left:
                try:
                    r = it.next(timeout=max(1.0, self.deadline - time.time()))
                except mp.TimeoutError:
                    self.skipped += left
                    p.terminate()
                    break
                left -= 1
                self._take(r)

    def _take(self, r):
        res, touched, err = r
        self.touched |= touched
        if err:
            self.crashes.append(err)
            self.n["crashed"] += 1
        self.add(res)

    def finish(self):
        wall = time.time() - self.t0
        seen = {}
        for b in self.bads:
            k = b["key"]
            if k not in seen or len(str(b["replay"])) < len(str(seen[k]["replay"])):
                seen[k] = b
        uniq = sorted(seen.values(), key=lambda b: (len(str(b["replay"])), str(b["key"])))
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        lines = []
        for i, b in enumerate(uniq[:MAX_REPORT]):
            rp = os.path.join("evidence", "replay-%s-%d.json" % (self.prop, i + 1))
            with open(os.path.join(ROOT, rp), "w") as f:
                json.dump({"property": self.prop, "construct": b["where"], "message": b["msg"], "case": b["replay"],
                           "facts": b["left"]}, f, indent=1, default=str)
            lines.append((b, rp))
        for i, (m, desc) in enumerate(self.findings):
            if self.hit[i]:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, desc))
        for b, rp in lines:
            print("%s: %s" % (b["where"] or "?", b["msg"]))
            print("    case: %s" % (b["replay"],))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        if len(uniq) > MAX_REPORT:
            print("... and %d more violations" % (len(uniq) - MAX_REPORT))
        total = sum(self.n[k] for k in ("holds", "undecided", "known", "violated"))
        cov = {
            "explanation": self.rule,
            "rule": self.rule,
            "obligations": total,
            "discharged": self.n["holds"],
            "undecided": self.n["undecided"],
            "undecided_reasons": [{"reason": str(k), "count": c, "sample": self.und_sample[k]} for k, c in self.und.most_common(8)],
            "known_findings_seen": self.n["known"],
            "violated": self.n["violated"],
            "task_crashes": len(self.crashes),
            "tasks_not_reached": self.skipped,
            "functions_analysed": len(self.touched),
            "functions_sample": sorted(self.touched)[:: max(1, len(self.touched) // 12)][:12],
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions or ["the abstract models of the standard library in ksverify/models.py, argmodel.py and libs.py"],
              "wall_s": round(wall, 2), "violations": len(uniq)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d obligations, %d hold, %d undecided, %d listed, %d violated, %d functions analysed, %.1f s"
              % (self.prop, self.tier, total, self.n["holds"], self.n["undecided"], self.n["known"], self.n["violated"], len(self.touched), wall))
        if self.crashes:
            print("note: %d tasks crashed; first:\n%s" % (len(self.crashes), self.crashes[0]), file=sys.stderr)
        if self.skipped:
            print("note: %d tasks not reached within the time budget" % self.skipped, file=sys.stderr)
        if uniq:
            return 1
        if not self.n["holds"]:
            print("ANALYSIS BROKEN: nothing could be decided", file=sys.stderr)
            return 2
        return 0


def _job(job):
    fn, task = job
    program()
    for _P, I, _st in progs.values():
        I.touched.clear()
    res = []
    err = None
    t0 = time.time()
    try:
        for r in fn(task):
            res.append(r)
    except AnalysisBroken as e:
        err = "analysis: %s" % e
    except Exception:
        err = traceback.format_exc()[-1500:]
    if SLOW and time.time() - t0 > SLOW:
        print("slow: %.1f s %s" % (time.time() - t0, str(task)[:150]), file=sys.stderr)
    return res, set().union(*[I.touched for _P, I, _st in progs.values()]), err


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args(argv)
    prop = a.property.upper()
    rep = Report(prop, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module("ksverify.rules." + prop.lower())
    rep.rule = " ".join((mod.RULE if hasattr(mod, "RULE") else mod.__doc__).split())
    try:
        mod.check(rep)
    except AnalysisBroken as e:
        print("ANALYSIS BROKEN: %s" % e, file=sys.stderr)
        rep.finish()
        return 2
    return rep.finish()
