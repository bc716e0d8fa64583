"""Obligations, violations, known findings, evidence."""
import json, os, sys, time
from .build import VERIF, Broken

EVID = os.environ.get("SA_EVID", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.rules = {}        # rule -> [obligations, discharged]
        self.viol = []         # (key, message)
        self.seen = set()
        self.samples = []
        self.subjects = set()
        self.notes = {}
        self.undecided = []
        self.weak = set()      # rules with undecided obligations

    def ob(self, rule, subject, ok, msg=None, key=None, sample=None):
        """one obligation: `subject` satisfies `rule`"""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        self.subjects.add((rule, subject))
        if ok:
            r[1] += 1
            if r[1] <= 2: self.samples.append("%s: %s%s" % (rule, subject, (" -- " + sample) if sample else ""))
        else:
            self.violation(key or (rule + ":" + subject), "%s: %s: %s" % (rule, subject, msg or "does not hold"))
        return ok

    def unknown(self, rule, subject, why):
        """an obligation the analysis could not decide: recorded, neither discharged nor a violation"""
        self.rules.setdefault(rule, [0, 0])[0] += 1
        self.weak.add(rule)
        self.undecided.append("%s: %s: %s" % (rule, subject, why))

    def violation(self, key, msg):
        if key in self.seen: return
        self.seen.add(key); self.viol.append((key, msg))

    def note(self, k, v): self.notes[k] = v

    def need(self, rule, n):
        """at least n obligations must have been found for the rule, or the analysis looked at nothing (obligations that could not be
        decided are reported as such, and finish() gives no answer when they are nearly all)"""
        if self.viol or rule in self.weak: return
        if self.rules.get(rule, [0])[0] < n:
            raise Broken("rule '%s' found only %d instances (expected at least %d): the anchors have moved" % (rule, self.rules.get(rule, [0])[0], n))

    def known(self):
        out = {}
        try:
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("known: "):
                    p, rest = l[7:].split(" ", 1)
                    if p == "property=" + self.prop:
                        k, txt = rest.split(" | ", 1)
                        out[k.strip()] = txt
        except OSError:
            pass
        return out

    def finish(self, level="other", explanation="", trusted=()):
        known = self.known()
        bad = [(k, m) for k, m in self.viol if k not in known]
        for k, m in self.viol:
            if k in known: print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        for r, (a, b) in self.rules.items(): print("%s: %-70s obligations %5d discharged %5d" % (self.prop, r, a, b))
        os.makedirs(EVID, exist_ok=True)
        tot = sum(r[0] for r in self.rules.values()); ok = sum(r[1] for r in self.rules.values())
        cov = {"explanation": explanation, "rules": {r: {"obligations": a, "discharged": b} for r, (a, b) in self.rules.items()},
               "obligations": tot, "discharged": ok, "distinct_subjects": len(self.subjects), "samples": self.samples[:40] or ["none"],
               "trusted_base": list(trusted) or ["clang 18 front end and the LLVM passes run before the dump", "irtool", "the Python analysis"],
               "violations": [m for _, m in bad][:50], "known_findings": [k for k, _ in self.viol if k in known]}
        cov.update(self.notes)
        if self.undecided:
            cov["undecided"] = {"count": len(self.undecided), "samples": self.undecided[:20]}
            print("%s: %d obligations not decided, e.g. %s" % (self.prop, len(self.undecided), self.undecided[0][:200]))
            if not bad and len(self.undecided) > tot * 0.9: raise Broken("almost nothing was decided: " + self.undecided[0])
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if bad:
            p = os.path.join(EVID, self.prop + ".violations.txt")
            with open(p, "w") as f:
                for k, m in bad: f.write("[%s] %s\n" % (k, m))
            for k, m in bad[:20]: print("  " + m)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        return 0
