"""Writes MANIFEST.json from the checks present and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i.lower()}.py") and i in NOTES:
        n = NOTES[i]
        checks.append({
            "property": i, "quick_cmd": f"bash run.sh {i} --tier quick",
            "thorough_cmd": f"bash run.sh {i} --tier thorough",
            "technique": n["technique"], "level": "model_checking", "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
