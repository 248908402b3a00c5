"""Writes MANIFEST.json from the checks present in checks/."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")) and pid in NOTES:
        n = NOTES[pid]
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./check {pid} --tier quick",
                "thorough_cmd": f"./check {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": n["technique"],
                "level": "exploration",
                "level_note": n["note"],
            }
        )
    else:
        na.append({"property": pid, "reason": NOTES.get("na:" + pid, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "One runner (vp/runner.py), one module per property (checks/pNN.py); ./check PNN --replay FILE re-executes a shrunk case.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
