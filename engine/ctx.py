"""Obligations of one check, its report, evidence and known findings."""
import json, os, sys, time, hashlib
from .model import VERIF, REPO, AnalysisBroken


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obs = []           # (key, rule, where, ok, why)
        self.counts = {}
        self.assume = []
        self.notes = {}
        self._views = None

    # ---- shared analyses
    @property
    def g(self):
        if not hasattr(self, "_g"):
            from . import genrun
            self._g = genrun.run()
        return self._g

    @property
    def views(self):
        if self._views is None:
            from . import view
            self._views = view.Views(self.g)
        return self._views

    # ---- obligations
    def ob(self, key, rule, ok, where="", why=""):
        """one obligation; key identifies the construct (stable across line numbers)"""
        self.obs.append((key, rule, str(where), bool(ok), why))
        return bool(ok)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, n, what, least=1):
        if n < least:
            raise AnalysisBroken("%s: only %d instance(s) of: %s" % (self.prop, n, what))

    def failed(self):
        known = self.findings()
        return any(not o[3] and o[0] not in known for o in self.obs)

    def assumes(self, *texts):
        self.assume += [t for t in texts if t not in self.assume]

    # ---- result
    def findings(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return {}
        return {f["key"]: f for f in json.load(open(p))["findings"] if f["property"] == self.prop}

    def finish(self, level, explanation, trusted):
        seed = int(os.environ.get("VERIF_SEED", "1"))
        bad = {}
        for key, rule, where, ok, why in self.obs:
            if not ok:
                bad.setdefault(key, (rule, where, why))
        known = self.findings()
        viol = {k: v for k, v in bad.items() if k not in known}
        out = []
        for k in bad:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]["what"]))
        keys = []
        distinct = {(o[0], o[1]) for o in self.obs}
        cov = {
            "obligations": len(distinct),
            "discharged": len({(o[0], o[1]) for o in self.obs if o[3]} - {(o[0], o[1]) for o in self.obs if not o[3]}),
            "checker_cmd": "python3 engine/run.py %s %s" % (self.prop, self.tier),
            "trusted_base": trusted,
            "explanation": explanation,
            "analysed": self.counts,
            "rules": sorted({o[1] for o in self.obs})[:80],
            "samples": [{"construct": o[0], "rule": o[1], "where": o[2], "holds": o[3]} for o in self.obs[:12]],
        }
        cov.update(self.notes)
        if known:
            cov["known_findings"] = [k for k in bad if k in known]
        ev = {"property": self.prop, "tier": self.tier, "seed": seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assume,
              "violations": len(viol)}
        if viol:
            cov["violated"] = [{"construct": k, "rule": v[0], "where": v[1], "why": v[2]} for k, v in viol.items()]
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        if viol:
            rp = os.path.join(d, self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for k, (rule, where, why) in viol.items():
                    f.write("%s\n  rule: %s\n  at: %s\n  %s\n" % (k, rule, where, why))
            for k, (rule, where, why) in list(viol.items())[:20]:
                print("%s: %s -- %s%s" % (where, k, rule, (" -- " + why[:400]) if why else ""))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: %d obligations hold (%s)" % (self.prop, len(distinct), ", ".join("%s=%s" % x for x in sorted(self.counts.items()))))
        return 0
