"""Result of one check: obligations, violations, evidence."""
import json, os, re, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENGINE_TB = [
    "rustc nightly's MIR construction and type checker (the analysed program is the MIR of the current source, all features)",
    "the abstract semantics in sa/engine (interp.py, core.py, zone.py: zone + string-shape domain) and its models of the standard library (models.py)",
    "memory allocation does not fail; a counter or length growing by less than 2^32 per iteration stays below 2^47",
]


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obl = {}  # key -> True/False/None(undecided)
        self.msgs = {}  # key -> description of the violated obligation
        self.undecided = {}
        self.analysed = set()
        self.notes = {}
        self.assumptions = []
        self.trusted = []
        self.rule = ""
        self.extra = {}

    def ok(self, key):
        self.obl.setdefault(key, True)

    def fail(self, key, msg):
        self.obl[key] = False
        self.msgs.setdefault(key, msg)

    def undec(self, key, why):
        if self.obl.get(key) is not False:
            self.obl[key] = None
        self.undecided.setdefault(key, why)

    def check(self, key, cond, msg, undecided=False):
        if cond:
            self.ok(key)
        elif undecided:
            self.undec(key, msg)
        else:
            self.fail(key, msg)

    # ---------------------------------------------------------------- output
    def finish(self, known):
        obs = len(self.obl)
        bad = [k for k, v in self.obl.items() if v is False]
        und = [k for k, v in self.obl.items() if v is None]
        new, old = [], []
        for k in bad:
            (old if k in known else new).append(k)
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        cov = {
            "obligations": obs,
            "discharged": obs - len(bad) - len(und),
            "checker_cmd": "python3-vt sa/check.py %s --tier %s" % (self.prop, self.tier),
            "trusted_base": self.trusted or ENGINE_TB,
            "explanation": self.rule,
            "functions_analysed": len(self.analysed),
            "samples": [str(k) for k in sorted(self.obl, key=str)[:12]],
            "undecided": {str(k): self.undecided[k] for k in und if k in self.undecided},
            "violated": [str(k) for k in new],
            "known_findings": [str(k) for k in old],
        }
        if self.notes:
            cov["unmodelled"] = {k: "%s:%s" % tuple(v) for k, v in list(self.notes.items())[:40]}
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": seed,
            "level": "proof",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        EV = os.environ.get("RPHON_EVIDENCE") or os.path.join(V, "evidence")
        os.makedirs(EV, exist_ok=True)
        with open(os.path.join(EV, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        for k in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for k in und[:20]:
            print("undecided: %s (%s)" % (k, self.undecided.get(k, "")))
        print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %.1f s" % (self.prop, obs, cov["discharged"], len(und), len(bad), len(self.analysed), time.time() - self.t0))
        if new:
            rp = os.path.join(EV, "%s.violation.json" % self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "replay": cov["checker_cmd"], "violations": [{"construct": str(k), "detail": self.msgs.get(k, "")} for k in new]}, f, indent=1)
            for k in new[:20]:
                print("  violated: %s\n    %s" % (k, self.msgs.get(k, "")))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def known_findings(prop):
    """constructs listed in known-findings.json (kind: known)"""
    p = os.path.join(V, "known-findings.json")
    if not os.path.exists(p):
        return set()
    return {e["construct"] for e in json.load(open(p))["known"] if e["property"] == prop}
