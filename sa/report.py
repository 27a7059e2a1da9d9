"""Obligation bookkeeping, known findings, evidence and exit codes."""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class AnchorError(Exception):
    """The construct a rule is anchored to no longer exists: no verdict."""


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []            # (rule, construct, status, msg, key, loc)
        self.rules = {}
        self.floors = []
        self.t0 = time.time()
        self.notes = []
        self.level = "other"

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, construct, msg="", loc=""):
        self.obs.append((rule, construct, True, msg, "", loc))

    def bad(self, rule, construct, msg, loc="", key=None):
        """key identifies the construct without line numbers."""
        self.obs.append((rule, construct, False, msg, key or "%s|%s" % (rule, construct), loc))

    def unk(self, rule, construct, msg="", loc=""):
        self.obs.append((rule, construct, None, msg, "", loc))

    def put(self, cond, rule, construct, msg, loc="", key=None):
        if cond is None:
            self.unk(rule, construct, msg, loc)
        elif cond:
            self.ok(rule, construct, "", loc)
        else:
            self.bad(rule, construct, msg, loc, key)

    def floor(self, rule, n):
        self.floors.append((rule, n))

    def finish(self, prog_info):
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))
        kf = {f["key"]: f for f in known["findings"] if f["property"] == self.pid}
        # template instantiations of the same source construct are one finding
        viol, seen, hit = [], set(), set()
        for o in self.obs:
            if o[2] is False:
                k = o[4]
                if k in kf:
                    hit.add(k)
                elif k not in seen:
                    seen.add(k)
                    viol.append(o)
        counts = {}
        for o in self.obs:
            c = counts.setdefault(o[0], {"checked": 0, "held": 0, "undecided": 0, "violated": 0})
            c["checked"] += 1
            c["held" if o[2] else ("undecided" if o[2] is None else "violated")] += 1
        missing = [(r, n, counts.get(r, {"checked": 0})["checked"]) for r, n in self.floors if counts.get(r, {"checked": 0})["checked"] < n]
        for k in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kf[k]["what"]))
        for o in viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, "python3 /verif/check.py %s" % self.pid))
            print("  rule %s: %s" % (o[0], self.rules.get(o[0], "")))
            print("  at %s  in %s" % (o[5], o[1]))
            print("  %s" % o[3])
            print("  key: %s" % o[4])
        obligations = len(self.obs)
        held = sum(1 for o in self.obs if o[2])
        und = sum(1 for o in self.obs if o[2] is None)
        expl = "Static analysis of %d functions (%d classes) extracted from /repo's current source; nothing was executed. " % (prog_info["functions"], prog_info["records"])
        expl += "Rules: " + "; ".join("%s = %s [%s]" % (r, t, ", ".join("%s %d" % kv for kv in counts.get(r, {"checked": 0}).items())) for r, t in self.rules.items())
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": {"explanation": expl[:6000], "obligations": obligations, "discharged": held, "undecided": und,
                           "violations": len(viol), "known_findings": len(hit), "functions_analysed": prog_info["functions"],
                           "classes_analysed": prog_info["records"], "translation_units": prog_info["tus"],
                           "counts_by_rule": counts, "checker_cmd": "python3 /verif/check.py %s --tier %s" % (self.pid, self.tier),
                           "samples": [{"rule": o[0], "construct": o[1], "loc": o[5], "status": {True: "held", False: "violated", None: "undecided"}[o[2]], "why": o[3][:300]} for o in (self.obs[:40] + [x for x in self.obs[40:] if not x[2]][:60])],
                           "notes": self.notes},
              "wall_s": round(time.time() - self.t0, 3)}
        edir = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        json.dump(ev, open(os.path.join(edir, self.pid + ".json"), "w"), indent=1, default=str)
        print("%s [%s]: %d obligations, %d held, %d undecided, %d known findings, %d violations (%.1fs)" % (self.pid, self.tier, obligations, held, und, len(hit), len(viol), time.time() - self.t0))
        for r, c in counts.items():
            print("  %-28s %s" % (r, " ".join("%s=%d" % kv for kv in c.items())))
        if viol:
            return 1
        if missing:
            for r, n, c in missing:
                print("ANCHOR: rule %s found %d constructs, at least %d were confirmed when it was written" % (r, c, n))
            return 3
        return 0
