"""Writes properties.jsonl and MANIFEST.json from tools/table.py (for properties whose check exists)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in table.P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                                                    "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
na = getattr(table, "NA", {})
m = {"version": 1, "setup_cmd": PY + " tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks build and drive the sources as they are", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}
for p in table.P:
    if p["id"] in na:
        continue
    assert os.path.exists(os.path.join(V, "checks", p["id"] + ".py")), p["id"]
    c = "%s checks/%s.py" % (PY, p["id"])
    m["checks"].append({"property": p["id"], "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c, "technique": "runtime monitoring: " + p["technique"],
                        "level": "exploration", "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(table.P), "properties,", len(m["checks"]), "checks")
