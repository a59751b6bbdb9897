"""Collects obligations and verdicts of one check, writes evidence, decides the exit code."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")

class Check(object):
    def __init__(self, prop, prog=None):
        self.prop, self.prog = prop, prog
        self.t0 = time.time()
        self.obs = []            # (rule, construct)
        self.fails = []          # dict(rule, construct, where, msg)
        self.undec = []
        self.functions = set()
        self.rules = {}
        self.floor = {}
        self.counts = {}
        self.assumptions = []
        self.broken = []
    def guard(self, what, fn, *a, **k):
        """run one part of a check; a vanished anchor is recorded, the other parts still run"""
        from .program import AnalysisBroken
        try: return fn(*a, **k)
        except AnalysisBroken as e:
            self.broken.append("%s: %s" % (what, e))
        except Exception as e:      # the engine met something it cannot analyse
            self.broken.append("%s: internal error %s: %s" % (what, type(e).__name__, e))
            traceback.print_exc()
        return None
    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floor[name] = floor
    def ok(self, rule, construct):
        self.obs.append((rule, construct))
        self.counts[rule] = self.counts.get(rule, 0) + 1
    def fail(self, rule, construct, msg, where=""):
        self.obs.append((rule, construct))
        self.counts[rule] = self.counts.get(rule, 0) + 1
        for f in self.fails:
            if f["rule"] == rule and f["construct"] == construct:
                f["n"] += 1
                return
        self.fails.append({"rule": rule, "construct": construct, "where": where, "msg": msg, "n": 1})
    def check(self, cond, rule, construct, msg="", where=""):
        if cond: self.ok(rule, construct)
        else: self.fail(rule, construct, msg, where)
        return cond
    def undecided(self, rule, construct, why):
        self.undec.append({"rule": rule, "construct": construct, "why": str(why)[:300]})
    def analysed(self, *quals):
        for q in quals: self.functions.add(q if isinstance(q, str) else q.qualname)

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f: known = json.load(f)["findings"]
        kn, new = [], []
        for f in self.fails:
            m = [k for k in known if k["property"] == self.prop and k.get("status") == "open"
                 and k["rule"] == f["rule"] and k["construct"] == f["construct"]]
            (kn if m else new).append((f, m[0] if m else None))
        os.makedirs(EVID, exist_ok=True)
        rep = os.path.join(EVID, "%s.report.txt" % self.prop)
        low = []
        for r, fl in self.floor.items():
            if self.counts.get(r, 0) < fl: low.append("%s: %d decided, floor %d" % (r, self.counts.get(r, 0), fl))
        per_rule = {}
        for r in self.rules:
            per_rule[r] = {"rule": self.rules[r], "decided": self.counts.get(r, 0),
                           "violated": sum(f["n"] for f in self.fails if f["rule"] == r),
                           "undecided": sum(1 for u in self.undec if u["rule"] == r)}
        samples, seen = [], {}
        for r, c in self.obs:
            if seen.get(r, 0) < 3:
                seen[r] = seen.get(r, 0) + 1
                samples.append("%s: %s" % (r, c))
        nfail = sum(f["n"] for f in self.fails)
        cov = {"explanation": "static analysis of the source under %s; every obligation is one rule applied to one construct of the current source" % (self.prog.root if self.prog else "/repo"),
               "obligations": len(self.obs) + len(self.undec), "discharged": len(self.obs) - nfail,
               "distinct_constructs": len(set(self.obs)), "rules": per_rule,
               "functions_analysed": sorted(self.functions), "n_functions_analysed": len(self.functions),
               "samples": samples, "undecided": self.undec[:50], "not_analysed": self.broken + low,
               "findings": [dict(f) for f in self.fails],
               "modules_parsed": len(self.prog.modules) if self.prog else 0,
               "source_digest": self.prog.digest.hexdigest() if self.prog else ""}
        ev = {"property": self.prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        with open(os.path.join(EVID, "%s.json" % self.prop), "w") as f: json.dump(ev, f, indent=1, default=str)
        with open(rep, "w") as f:
            for x, k in kn + new:
                f.write("%s [%s] %s\n  %s\n  %s (x%d)\n\n" % ("KNOWN" if k else "VIOLATION", x["rule"], x["construct"], x["where"], x["msg"], x["n"]))
                f.write("  rule: %s\n\n" % self.rules.get(x["rule"], ""))
        print("%s: %d functions analysed, %d obligations, %d discharged, %d undecided, %.1fs" % (
            self.prop, len(self.functions), cov["obligations"], cov["discharged"], len(self.undec), ev["wall_s"]))
        for r in self.rules: print("  rule %-28s decided %5d  violated %3d  undecided %3d" % (r, per_rule[r]["decided"], per_rule[r]["violated"], per_rule[r]["undecided"]))
        for u in self.undec[:12]: print("  UNDECIDED [%s] %s: %s" % (u["rule"], u["construct"], u["why"]))
        for x, k in kn: print("KNOWN-FINDING: property=%s [%s] %s" % (self.prop, x["rule"], x["construct"]))
        for x, k in new[:15]: print("  FAIL [%s] %s at %s: %s" % (x["rule"], x["construct"], x["where"], x["msg"][:600]))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        # what could not be analysed is reported; the check gives no verdict at all (exit 2) only when
        # less than half of the expected minimum of obligations was decided
        for b in self.broken: print("NOT-ANALYSED: " + b)
        if low: print("NOT-ANALYSED: fewer decided obligations than usual: " + "; ".join(low))
        if sum(min(self.counts.get(r, 0), fl) for r, fl in self.floor.items()) < 0.5 * sum(self.floor.values()):
            print("ANALYSIS-BROKEN: too little of the property could be decided")
            return 2
        return 0
