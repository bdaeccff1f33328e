"""Obligations, known findings, evidence files and the outcome of a check."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WBSA_REPO", "/repo")
EVID = os.environ.get("WBSA_EVIDENCE", os.path.join(HERE, "evidence"))


def relsrc(p):
    return os.path.relpath(p, REPO) if os.path.isabs(p) else p


class Check:
    def __init__(self, prop, tier, explanation, rule):
        self.prop, self.tier, self.explanation, self.rule = prop, tier, explanation, rule
        self.t0 = time.time()
        self.obl = []
        self.functions = set()
        self.stats = {}
        self.notes = []

    def saw(self, body):
        self.functions.add("%s (%s:%d)" % (body.fn.n, relsrc(body.file), body.line))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def add(self, key, status, where, rule, detail=""):
        """status: holds | violated | undecided.  key: stable identity of the obligation."""
        self.obl.append({"key": key, "status": status, "where": where, "rule": rule, "detail": str(detail)[:1500]})

    def expect(self, key, ok, where, rule, detail=""):
        """ok: True / False / None (undecided)."""
        self.add(key, "holds" if ok else ("violated" if ok is False else "undecided"), where, rule, detail)

    def where(self, body, line=None):
        return "%s:%s %s" % (relsrc(body.file), line or body.line, body.fn.n)

    def finish(self):
        known = load_known(self.prop)
        uniq = {}
        rank = {"violated": 2, "undecided": 1, "holds": 0}
        for o in self.obl:
            u = uniq.get(o["key"])
            if u is None or rank[o["status"]] > rank[u["status"]]:
                uniq[o["key"]] = o
        obl = list(uniq.values())
        viol = [o for o in obl if o["status"] == "violated" and o["key"] not in known]
        kn = [o for o in obl if o["status"] == "violated" and o["key"] in known]
        und = [o for o in obl if o["status"] == "undecided"]
        held = [o for o in obl if o["status"] == "holds"]
        cov = {"explanation": self.explanation, "rule": self.rule,
               "obligations": len(obl), "holds": len(held), "undecided": len(und), "known_findings": len(kn),
               "functions_analysed": sorted(self.functions), "counts": self.stats,
               "undecided_obligations": [dict(o) for o in und][:60],
               "samples": [dict(o) for o in held[:: max(1, len(held) // 12)]][:14]}
        if self.notes:
            cov["notes"] = self.notes[:60]
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        if viol:
            cov["violations"] = viol[:40]
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in kn:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.prop, known[o["key"]], o["key"], o["where"]))
        if not obl:
            print("ERROR: no obligation was generated for %s" % self.prop)
            return 2
        if viol:
            rp = os.path.join(EVID, self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for o in viol:
                    f.write("%s\n  obligation: %s\n  rule: %s\n  %s\n\n" % (o["where"], o["key"], o["rule"], o["detail"]))
            for o in viol[:10]:
                print("%s: %s: %s -- %s" % (o["where"], o["key"], o["rule"], o["detail"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: %d obligations hold, %d undecided, %d known findings (%.1f s)" %
              (self.prop, len(held), len(und), len(kn), time.time() - self.t0))
        return 0


def load_known(prop):
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return res
    for l in open(p):
        l = l.rstrip("\n")
        if l.startswith("property="):
            head, _, text = l.partition(" :: ")
            pr, _, key = head.partition(" key=")
            if pr == "property=" + prop:
                res[key] = text
    return res
