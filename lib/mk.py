"""writes properties.jsonl and MANIFEST.json from lib/table.py"""
import json, os
from table import T
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p in sorted(T, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        assert os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")), p["id"]
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
        h.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["observe"] or ["public C++ API"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/build.py all", "checks": [], "not_applicable": [],
     "notes": "Specifications in spec/ (TLA+, TLC); checks/run.py runs one property; known_findings.json lists findings and repairs."}
for p in sorted(T, key=lambda p: p["id"]):
    c = "python3 checks/run.py " + p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": c + " --tier quick", "thorough_cmd": c + " --tier thorough",
                        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
