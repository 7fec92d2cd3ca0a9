"""Verdicts: known findings, replay files, evidence, exit status."""
import json, os, re, sys, time
from build import VERIF, AnalysisBroken

class Check:
    def __init__(self, pid, tier, level="other"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.violations = []      # dicts: key, what, where, detail
        self.coverage = {}
        self.assumptions = []
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    def violate(self, key, what, where="", detail=None):
        self.violations.append({"key": key, "what": what, "where": where, "detail": detail or []})

    def require(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def known(self):
        r = []
        p = os.path.join(VERIF, "known_findings.txt")
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == self.pid:
                r.append((m.group(2), m.group(3).strip()))
        return r

    def finish(self):
        known = self.known()
        kd = dict(known)
        fresh = [v for v in self.violations if v["key"] not in kd]
        for k, text in known:
            if any(v["key"] == k for v in self.violations):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rd = os.path.join(d, "replay"); os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(fresh[:40]):
            p = os.path.join(rd, "%s-%d.txt" % (self.pid, n))
            with open(p, "w") as f:
                f.write("%s\nwhere: %s\n%s\n" % (v["what"], v["where"], "\n".join(str(x) for x in v["detail"])))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  %s  [%s]" % (v["what"][:600], v["where"]))
        if not fresh:
            print("OK property=%s %s" % (self.pid, json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, (int, str)) and len(str(v)) < 60})))
        return 1 if fresh else 0
