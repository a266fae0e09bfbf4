"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the rule files present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    for pid, (t, s, r) in props.NA.items():
        f.write(json.dumps({"id": pid, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": "all training data and options"},
                            "why_tests_cant": "Tests sample few data sets.", "anchors": {"files": ["crates/gp/src/algorithm.rs", "crates/moe/src/algorithm.rs", "crates/ego/src/solver/egor_solver.rs"], "mechanism": []}}) + "\n")
checks, na = [], []
for p in props.P:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --tier thorough",
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no rule built yet for this property"})
for pid, (t, s, r) in props.NA.items():
    na.append({"property": pid, "reason": r})
m = {"version": 1, "setup_cmd": "python3 -m vp.build", "checks": checks, "not_applicable": na,
     "notes": "All checks read facts emitted from /repo's current source by a rustc driver (driver/), rebuilt when the source changes."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
