"""Verdicts, evidence and replay files of one check run."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, level="other", tier="quick"):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.t0 = time.time()
        self.rules = {}        # rule -> dict(text, ok, bad, samples)
        self.violations = []
        self.errors = []
        self.entries = []
        self.functions = set()
        self.paths = 0
        self.insts = 0
        self.models = []
        self.loops = 0
        self.extra = {}
        self.variant = "default"
        self.known = load_known(pid)
        self.known_hit = []
        self.vacuous = []

    # ------------------------------------------------------------------ recording
    def rule(self, name, text, minimum=1):
        self.rules.setdefault(name, {"text": text, "ok": 0, "bad": 0, "samples": [], "min": minimum})
        return name

    def ok(self, rule, what=None, n=1):
        r = self.rules[rule]
        r["ok"] += n
        if what and len(r["samples"]) < 4 and what not in r["samples"]:
            r["samples"].append(what)

    def bad(self, rule, where, what, detail=(), key=None):
        """where: file:line function / call site ; key identifies a known finding"""
        k = key or "%s|%s|%s" % (rule, where, what)
        for kn in self.known:
            if kn["status"] == "known" and kn["match"] in k:
                if kn not in self.known_hit:
                    self.known_hit.append(kn)
                return
        if self.variant != "default":
            what = "%s (configuration: %s)" % (what, self.variant)
        self.rules[rule]["bad"] += 1
        v = {"rule": rule, "where": where, "what": what, "detail": list(detail)[:24]}
        if (rule, where, what) not in [(x["rule"], x["where"], x["what"]) for x in self.violations]:
            self.violations.append(v)

    def expect(self, rule, cond, where, what, detail=(), good=None):
        if cond:
            self.ok(rule, good or where)
        else:
            self.bad(rule, where, what, detail)
        return cond

    def error(self, what):
        if what not in self.errors:
            self.errors.append(what)

    def begin(self, name):
        """the configuration analysed from here on"""
        self.variant = name
        self.extra.setdefault("configurations_analysed", []).append(name)

    def use(self, E):
        """account for an analysed entry"""
        if E in self.entries:
            return E
        self.entries.append(E)
        if E.M not in self.models:
            self.models.append(E.M)
        return E

    # ------------------------------------------------------------------ end of the run
    def finish(self):
        for n, r in sorted(self.rules.items()):
            if r["ok"] + r["bad"] < r["min"]:
                self.error("rule %s matched %d instances, at least %d expected (anchor vanished?)" %
                           (n, r["ok"] + r["bad"], r["min"]))
        fns, paths, insts, loops, sites = set(), 0, 0, 0, 0
        for M in self.models:
            fns |= M.fns_seen
            paths += M.npaths
            insts += M.ninst
            loops += len(M.loops)
            sites += len(M.callsites)
        fns |= self.functions
        nob = sum(r["ok"] + r["bad"] for r in self.rules.values())
        ev = {"property": self.pid, "tier": self.tier,
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "wall_s": round(time.time() - self.t0, 3),
              "coverage": {
                  "explanation": "Static analysis of the LLVM IR of /repo's current working tree: abstract "
                                 "interpretation over every path of the listed entry points, the rules below are "
                                 "evaluated on the abstract outcomes; nothing is executed.",
                  "entry_points": [E.name for E in self.entries],
                  "abstract_outcomes": sum(len(E.outcomes) for E in self.entries),
                  "functions_analysed": sorted(fns),
                  "blocks_interpreted": paths, "instructions_interpreted": insts,
                  "loops_summarised": loops, "call_sites": sites,
                  "obligations": nob, "discharged": sum(r["ok"] for r in self.rules.values()),
                  "rules": {n: {"rule": r["text"], "instances": r["ok"] + r["bad"], "violations": r["bad"],
                                "samples": r["samples"]} for n, r in sorted(self.rules.items())},
              },
              "violations": len(self.violations), "violation_details": self.violations[:40], "errors": self.errors,
              "known_findings": [k["what"] for k in self.known_hit]}
        ev["coverage"].update(self.extra)
        d = os.path.join(os.environ.get("USH_REPO") or ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            rp = os.path.join(d, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for v in self.violations[:60]:
                    f.write("property %s, rule %s\n  at   %s\n  what %s\n" % (self.pid, v["rule"], v["where"], v["what"]))
                    f.write("  rule %s\n" % self.rules[v["rule"]]["text"])
                    for x in v["detail"]:
                        f.write("    | %s\n" % (x,))
                    f.write("\n")
                for e in self.errors:
                    f.write("(incomplete: %s)\n" % e)
            for v in self.violations[:8]:
                print("%s: %s: %s" % (v["rule"], v["where"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.errors:
            for e in self.errors:
                print("ANALYSIS INCOMPLETE property=%s: %s" % (self.pid, e))
            return 2
        print("ok property=%s obligations=%d entries=%d functions=%d wall=%.2fs" %
              (self.pid, nob, len(self.entries), len(fns), time.time() - self.t0))
        return 0


def load_known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        st, rest = line.split(":", 1)
        parts = [x.strip() for x in rest.split(" ", 2) if x.strip()] if False else rest.strip().split(None, 2)
        prop = parts[0].split("=", 1)[1]
        if prop != pid:
            continue
        if st == "known":
            out.append({"status": "known", "match": parts[1], "what": parts[2]})
        else:
            out.append({"status": "fixed", "match": parts[1], "what": parts[2]})
    return out
