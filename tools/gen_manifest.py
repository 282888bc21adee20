"""Writes MANIFEST.json from mc/props.py (run with /opt/venv/bin/python)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick",
                       "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": p.technique, "level": p.level, "level_note": p.note if hasattr(p, "note") else
                       "Exhaustive within the deviation/cancellation/fault budgets listed in coverage.phases of the "
                       "evidence; child processes and the clock are simulated, the code under test is the real one."})
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
