"""Violations, known findings, evidence, exit status."""
import json, os, sys, time
from core import VERIF, CheckError

KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.obligations = 0; self.violations = []; self.analysed = {}; self.samples = []
        self.assumptions = []; self.rule = ""
        self._seen = set()

    def ok(self, n=1):
        self.obligations += n

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def bad(self, key, where, msg):
        """key: stable identity (no line numbers); where: file:line"""
        self.obligations += 1
        if (key, where) in self._seen: return
        self._seen.add((key, where))
        self.violations.append(dict(key=key, where=where, msg=msg))

    def need(self, cond, what):
        if not cond:
            raise CheckError("%s: %s" % (self.pid, what))

    def finish(self, level, explanation):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)) if k["property"] == self.pid and k.get("status") == "known"]
        out = []; hit = set()
        for v in self.violations:
            k = next((k for k in known if k["key"] == v["key"]), None)
            if k is not None:
                if k["key"] not in hit:
                    print("KNOWN-FINDING: property=%s %s (%s: %s)" % (self.pid, k["what"], v["where"], v["msg"]))
                hit.add(k["key"])
            else:
                out.append(v)
        evdir = os.path.join(VERIF, "evidence"); os.makedirs(evdir, exist_ok=True)
        cov = dict(explanation=explanation, rule=self.rule, obligations=self.obligations,
                   discharged=self.obligations - len(self.violations), analysed=self.analysed,
                   samples=self.samples, known_findings_matched=sorted(hit))
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(out))
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for i, v in enumerate(out):
            rp = os.path.join(evdir, "%s-violation-%d.json" % (self.pid, i))
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, **v, rule=self.rule), f, indent=1)
            print("%s: %s: %s [%s]" % (self.pid, v["where"], v["msg"], v["key"]))
            if i == 0: first = rp
        if out:
            print("VIOLATION property=%s replay=%s" % (self.pid, first))
            return 1
        print("%s: held; %d obligations, %s" % (self.pid, self.obligations,
              ", ".join("%s=%s" % kv for kv in sorted(self.analysed.items()))))
        return 0
