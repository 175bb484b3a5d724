#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   -- decide one property on the current tree of /repo.

exit 0: held on everything analysed (known findings are printed), 1: VIOLATION line printed, 2: analysis broken."""
import importlib, json, os, shutil, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import build, ir
from sa.build import AnalysisBroken
from sa.model import Model


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.notes = []
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix="sa-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
        self.bc = build.build_ir(self.tmp)
        self.m = ir.Module(self.bc, build.REPO)
        self.model = Model(self.m)
        self.repo = build.REPO

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, subject, ok, detail="", loc="", path=None):
        """one proof obligation of a rule; subject is stable across unrelated edits"""
        self.obs.append({"rule": rule, "subject": subject, "ok": bool(ok), "detail": detail, "loc": loc, "path": path or []})
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def require(self, n, least, what):
        self.counts[what] = n
        if n < least:
            raise AnalysisBroken("only %d %s found, at least %d expected: the analysis no longer sees the code" % (n, what, least))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                key, _, what = l[len("finding: property=%s " % pid):].partition(" | ")
                out[key.strip()] = what
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = None
    try:
        ctx = Ctx(pid, tier)
        mod = importlib.import_module("rules." + pid.lower())
        mod.run(ctx)
        if not ctx.obs:
            raise AnalysisBroken("no obligation was generated")
    except Exception as e:
        # violations already established stand, whatever else could not be decided
        kn = known_findings(pid)
        if not ctx or not any(not o["ok"] and "%s:%s" % (o["rule"], o["subject"]) not in kn for o in ctx.obs):
            if not isinstance(e, AnalysisBroken):
                traceback.print_exc()
                e = "internal error"
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            sys.exit(2)
        ctx.assume("the analysis was not completed: %s" % e)
    finally:
        if ctx:
            ctx.close()
    known = known_findings(pid)
    bad, seen = [], set()
    for o in ctx.obs:
        if o["ok"]:
            continue
        key = "%s:%s" % (o["rule"], o["subject"])
        if key in seen:
            continue
        seen.add(key)
        if key in known:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, key, known[key]))
        else:
            bad.append(o)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    per_rule = {}
    for o in ctx.obs:
        r = per_rule.setdefault(o["rule"], {"obligations": 0, "discharged": 0})
        r["obligations"] += 1
        r["discharged"] += o["ok"]
    uniq = {(o["rule"], o["subject"]) for o in ctx.obs}
    disch = {(o["rule"], o["subject"]) for o in ctx.obs} - {(o["rule"], o["subject"]) for o in ctx.obs if not o["ok"]}
    samples = []
    for r in per_rule:
        samples += [{"rule": o["rule"], "subject": o["subject"], "loc": o["loc"], "detail": o["detail"]}
                    for o in ctx.obs if o["rule"] == r][:4]
    level = getattr(mod, "LEVEL", "other")
    cov = {"explanation": getattr(mod, "EXPLANATION", mod.__doc__ or ""),
           "obligations": len(uniq), "discharged": len(disch),
           "checker_cmd": "python3 check.py " + pid,
           "trusted_base": ["clang 18 front end and sroa", "sa/absint.py, sa/model.py, rules/%s.py" % pid.lower()] + ctx.notes,
           "rules": ctx.rules, "per_rule": per_rule, "analysed": ctx.counts,
           "functions_in_program": len(ctx.m.defined()),
           "samples": samples}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(bad)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    if "-v" in sys.argv:
        for o in ctx.obs:
            print("%s %s:%s  [%s] %s" % ("ok " if o["ok"] else "BAD", o["rule"], o["subject"], o["loc"], o["detail"]))
    if bad:
        rp = os.path.join(ev, pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in bad:
                f.write("property %s\nrule %s: %s\nsubject %s\nat %s\n%s\npath: %s\n\n" % (
                    pid, o["rule"], ctx.rules.get(o["rule"], ""), o["subject"], o["loc"], o["detail"], " -> ".join(o["path"])))
        for o in bad[:20]:
            print("  %s  %s [%s] %s%s" % (o["loc"], o["rule"], o["subject"], o["detail"],
                                        ("  path: " + " -> ".join(o["path"])) if o["path"] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s obligations=%d wall=%.1fs" % (pid, len(uniq), time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
