"""Running one property's rule: findings, known findings, evidence, verdict."""
import importlib, json, os, sys, time, traceback
from . import facts, ir

HERE = facts.HERE


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.findings = {}      # key -> (where, message)
        self.counts = {}
        self.samples = []
        self.explanation = ""
        self.assumptions = []

    def violation(self, key, where, msg):
        self.findings.setdefault(key, (where, msg))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s, cap=25):
        if len(self.samples) < cap:
            self.samples.append(s)

    def floor(self, k, n, what):
        """fail closed: the rule must have had at least n instances to look at"""
        if self.counts.get(k, 0) < n:
            self.violation("floor:" + k, "-", "only %d %s found (at least %d expected): the rule has lost its anchors" % (self.counts.get(k, 0), what, n))


def known(pid):
    out = set()
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s key=" % pid):
                out.add(line.split(" key=", 1)[1].split(" :: ", 1)[0])
    return out


def main(pid, tier):
    t0 = time.time()
    try:
        d = facts.get()
    except facts.FactsError as e:
        print("ERROR: " + str(e))
        return 2
    P = ir.Program.load(d)
    mod = importlib.import_module("rules." + pid)
    R = Result(pid)
    mod.run(P, R, tier)
    kn = known(pid)
    viol = {k: v for k, v in R.findings.items() if k not in kn}
    for k in sorted(R.findings):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, k, R.findings[k][0], R.findings[k][1]))
    evd = os.environ.get("VP_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, pid + ".findings.txt")
    with open(rep, "w") as f:
        for k, (w, m) in sorted(R.findings.items()):
            f.write("%s%s\n    at %s\n    %s\n" % ("(known) " if k in kn else "", k, w, m))
    cov = dict(R.counts)
    cov["explanation"] = R.explanation
    cov["bodies_analysed"] = len(P.bodies)
    cov["crates"] = sorted(P.crates)
    cov["samples"] = R.samples
    cov["known_findings"] = sorted(k for k in R.findings if k in kn)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": R.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, (w, m) in sorted(viol.items()):
        print("%s: %s\n    rule instance: %s" % (w, m, k))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s %s" % (pid, " ".join("%s=%s" % kv for kv in sorted(R.counts.items()))))
    return 0


if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rc = 0
    for pid in sys.argv[1:]:
        try:
            rc = max(rc, main(pid, tier))
        except Exception:
            traceback.print_exc()
            rc = 2
    sys.exit(rc)
