#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_data import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids and len(p["title"]) <= 80, (p["id"], len(p["title"]))
        ids.add(p["id"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/model.py --core && python3 lib/model.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"],
                 "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
                 "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]}
                for p in PROPS if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

D = open(os.path.join(H, "tools/design_head.md")).read()
seeds = {}
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    x = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    seeds.setdefault(x["property"], []).append((d, x))
D += "| seed | caught by | what it breaks |\n|---|---|---|\n"
for p in PROPS:
    for d, x in seeds.get(p["id"], []):
        D += "| %s | %s | %s |\n" % (d, p["id"], x["what_it_breaks"].replace("|", "\\|").replace("\n", " "))
D += open(os.path.join(H, "tools/design_mid.md")).read()
T = {"M": "T", "C": "T", "B": "T", "E": "T", "Q": "T", "U": "T", "F": "T", "X": "T", "P": "H", "V": "T", "R": "H", "S": "T", "K": "T"}
D += "\n## 6. Properties\n\n"
for p in PROPS:
    m = T.get(p["id"][0], "D")
    if p["id"] in ("W04", "W05"):
        m = "H"
    D += "### %s %s\n\n" % (p["id"], p["title"])
    if p["na"]:
        D += "Not applicable: %s\n\n" % p["na"]
        continue
    D += "%s\n\n* method: %s (%s)\n* quantified over: %s\n* why tests cannot settle it: %s\n* bounds and scope: %s\n* code: %s\n\n" % (
        p["statement"], m, p["technique"], p["text"], p["why"], p["note"], "; ".join(x["where"] for x in p["mech"]))
open(os.path.join(H, "DESIGN.md"), "w").write(D)
