"""Verdicts, evidence and known findings."""
import json, os, sys, time, shutil, tempfile
from ndlib import VERIF, ToolError, log, T0

EVID = os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.thorough = tier == "thorough"
        self.work = tempfile.mkdtemp(prefix="nd-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.violations = []           # (summary, replay record)
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.kinds = {}
        self.level = "model_checking"
        self.assumptions = []
        self.t0 = time.time()
        # thorough runs go on until about this many seconds
        self.budget = float(os.environ.get("ND_BUDGET", "600" if self.thorough else "60"))

    def left(self):
        return self.budget - (time.time() - T0)

    def addtlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def count(self, k, n=1):
        self.kinds[k] = self.kinds.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violate(self, summary, record):
        self.violations.append((summary, record))

    def finish(self):
        known = load_known(self.prop)
        new, old = [], []
        for s, r in self.violations:
            k = match_known(known, r)
            (old if k else new).append((s, r, k))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "outcomes": self.kinds}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        os.makedirs(EVID, exist_ok=True)
        if not self.replay:
            with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        rc = 0
        if new:
            s, r, _ = min(new, key=lambda x: len(json.dumps(x[1])))
            path = os.path.join(EVID, "replay-%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "summary": s, "record": r}, f)
            for x in new[:int(os.environ.get("ND_SHOW", "5"))]:
                print("  " + x[0][:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        else:
            print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.traces, time.time() - T0))
        sys.stdout.flush()
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                k = json.loads(l)
                if k["property"] == prop:
                    out.append(k)
    return out


def match_known(known, record):
    for k in known:
        if "key" in record and record["key"] == k["key"]:
            return k
    return None
