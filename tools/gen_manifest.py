"""Writes MANIFEST.json from the check modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": "python3 run.py %s --tier quick" % i,
                "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                "technique": TECH.get(
                    i,
                    "property-based testing: generated inputs (Hypothesis, "
                    "shrinking to a replay file) against a reference model",
                ),
                "level": "exploration",
                "level_note": NOTES.get(
                    i,
                    "random structured search; holds on every case explored, "
                    "no proof",
                ),
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python vlib/deps.py",
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
