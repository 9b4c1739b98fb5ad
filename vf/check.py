"""Entry point: python3 -m vf.check <property> [quick|thorough]"""
import importlib.util, json, os, sys, time, traceback
from . import build, tlc
VERIF = build.VERIF

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(build.OUT, "work", pid); os.makedirs(self.work, exist_ok=True)
        self.violations = []; self.known = []; self.level = "exploration"
        self.cov = {}; self.samples = []; self.assumptions = []
        self.findings = [f for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                         if f["property"] == pid and f["status"] == "known"]
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    def add(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, s, limit=6):
        if len(self.samples) < limit: self.samples.append(s)
    def violation(self, what, case, key=None):
        """key identifies the failing input for the known-findings file."""
        for f in self.findings:
            if key is not None and key in f["keys"]:
                if f["what"] not in self.known: self.known.append(f["what"])
                return
        self.violations.append((what, case))
    def model(self, r):
        """account for a TLC run"""
        self.add("states", r.distinct or r.states); self.add("transitions", r.states)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    sp = importlib.util.spec_from_file_location("prop_" + pid, os.path.join(VERIF, "props", pid + ".py"))
    mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
    try:
        mod.run(ctx)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: the check itself failed" % pid)
        sys.exit(2)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": ctx.level,
          "coverage": dict(ctx.cov, samples=ctx.samples or ["none"]), "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in ctx.known: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if ctx.violations:
        rd = os.path.join(VERIF, "replays", pid); os.makedirs(rd, exist_ok=True)
        for n, (what, case) in enumerate(ctx.violations[:5]):
            rp = os.path.join(rd, "case%d.json" % n)
            json.dump({"property": pid, "what": what, "case": case, "seed": seed}, open(rp, "w"), indent=1)
            print("violation: %s" % what[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("%d violations in total" % len(ctx.violations))
        sys.exit(1)
    print("OK property=%s %s wall=%.1fs" % (pid, json.dumps(ctx.cov)[:400], time.time() - ctx.t0))

if __name__ == "__main__":
    main()
