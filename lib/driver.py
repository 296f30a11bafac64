"""Runs one check: imports lib/checks/<ID>.py, calls check(ctx), applies the known findings, writes evidence."""
import sys, os, json, time, importlib, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import predir
from ir import AnalysisError


class Ctx:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.work = predir.workdir()
        self.repo = predir.REPO
        self.violations = []      # (construct key, human text)
        self.counts = {}          # measured counts
        self.notes = []
        self.assumptions = []
        self.rule = ""

    def viol(self, key, text):
        if (key, text) not in self.violations:
            self.violations.append((key, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, cond, text):
        """a vanished anchor is an error of the check, not a verdict"""
        if not cond:
            raise AnalysisError(text)


def known_findings():
    r = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                parts = l[len("finding: "):].split(" ", 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                r.append((d["property"], d["key"], parts[2] if len(parts) > 2 else ""))
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        mod = importlib.import_module("checks." + pid)
        mod.check(ctx)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    known = known_findings()
    new, old = [], []
    for k, t in ctx.violations:
        hit = [d for (p, kk, d) in known if p == pid and kk == k]
        (old if hit else new).append((k, t))
    level = getattr(mod, "LEVEL", "other")
    cov = {"explanation": mod.EXPLANATION}
    if ctx.rule:
        cov["rule"] = ctx.rule
    for k, v in ctx.counts.items():
        cov[k] = v
    if ctx.notes:
        cov["analysed"] = ctx.notes
    if level == "proof":
        cov.setdefault("checker_cmd", "bin/check " + pid)
        cov.setdefault("trusted_base", getattr(mod, "TRUSTED", ["clang/LLVM 18 front end and opt passes", "CPython", "lib/*.py"]))
    cov["known_findings"] = ["%s: %s" % x for x in old]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k, t in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, t, k))
    print("%s: analysed %s in %.1f s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in ctx.counts.items()), time.time() - t0))
    if new:
        rp = os.path.join("evidence", pid + ".violations.txt")
        with open(os.path.join(ROOT, rp), "w") as f:
            for k, t in new:
                f.write("%s\t%s\n" % (k, t))
        for k, t in new[:40]:
            print("  [%s] %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
