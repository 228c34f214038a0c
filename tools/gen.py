"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, TECH, NOTE
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(R + "/properties.jsonl", "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("state"):
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["stmt"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": []}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py " + p["id"],
                        "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                        "technique": p.get("tech", TECH), "level": "other", "level_note": p.get("note", NOTE)})
m["notes"] = "Static analysis only: see DESIGN.md. known_findings.txt lists the defects found and repaired."
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
