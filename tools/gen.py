"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand, output committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from qsa.registry import MODULES
with open(f"{V}/properties.jsonl", "w") as fh:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "why_tests_cant")}
        assert len(d["title"]) <= 80, p["id"]
        d["quantifier"] = {"over": p["over"], "text": p["quant"]}
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        d = {k: d[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        fh.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 10)'", "checks": [], "not_applicable": [], "notes": "Every check parses /repo's current working tree and runs no code of it; see DESIGN.md."}
for p in PROPS:
    if p["id"] not in MODULES:
        print("no module yet:", p["id"]); continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"cd /verif && python3 -m qsa {p['id']} quick", "thorough_cmd": f"cd /verif && python3 -m qsa {p['id']} thorough",
        "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["level_note"]})
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "n/a")
