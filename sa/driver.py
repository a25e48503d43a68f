"""Runs one check, applies the known-findings list and writes the evidence."""
import argparse, importlib, json, os, sys, time, traceback
from .repo import VERIF, REPO, AnalysisBroken


class Report:
    """what one check found

    violations: dicts with key (stable identity: rule + construct, no line
    numbers), file, ln, msg.  coverage: measured counts.  undecided: instances
    the rule could not decide (never reported as violations)."""

    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.undecided = []
        self.assumptions = []
        self._seen = set()

    def bad(self, key, file, ln, msg, **kw):
        if key in self._seen:
            return
        self._seen.add(key)
        self.violations.append(dict(key=key, file=file, ln=ln, msg=msg, **kw))

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def need(self, name, minimum=1):
        """an anchor: the rule must have met at least so many instances"""
        if self.coverage.get(name, 0) < minimum:
            raise AnalysisBroken("anchor '%s': %d instances found, at least %d expected; the rule "
                                 "no longer meets the construct it is about" %
                                 (name, self.coverage.get(name, 0), minimum))


def known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        j = json.load(f)
    return {k["key"]: k for k in j.get("known", []) if k["property"] == pid}


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    pid, tier = a.id, a.tier
    t0 = time.time()
    try:
        mod = importlib.import_module("sa.checks." + pid.lower())
        rep = Report()
        mod.run(rep, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2
    kn = known(pid)
    new, old = [], []
    for v in rep.violations:
        (old if v["key"] in kn else new).append(v)
    cov = dict(rep.coverage)
    cov["explanation"] = getattr(mod, "EXPLANATION", mod.__doc__ or "").strip()
    cov["rule"] = getattr(mod, "RULE", "")
    if rep.undecided:
        cov["undecided_count"] = len(rep.undecided)
        cov["undecided"] = rep.undecided[:200]
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": rep.violations,
        "known_findings": [v["key"] for v in old],
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s:%s %s" % (pid, v["file"], v["ln"], v["msg"]))
    for v in new:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s:%s: %s  [%s]" % (v["file"], v["ln"], v["msg"], v["key"]))
    c = {k: v for k, v in cov.items() if isinstance(v, int)}
    print("%s %s: %d violation(s), %d known; %s; %.1fs" %
          (pid, tier, len(new), len(old), ", ".join("%s=%s" % x for x in sorted(c.items())), time.time() - t0))
    return 1 if new else 0
