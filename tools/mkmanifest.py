"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(V + "/tools/techniques.json"))
NA = TECH.pop("_not_applicable", {})
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in TECH and os.path.exists(V + "/checks/%s.py" % p.lower()):
        m["checks"].append(dict(property=p, quick_cmd="python3 checks/run.py %s --tier quick" % p,
                                thorough_cmd="python3 checks/run.py %s --tier thorough" % p,
                                technique=TECH[p]["technique"], level="exploration", level_note=TECH[p]["note"],
                                evidence_file="evidence/%s.json" % p))
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
