"""Write MANIFEST.json from properties.jsonl and the modules in pbt/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    if not line.strip():
        continue
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "pbt", "props", p.lower() + ".py")):
        tech, note = NOTES.get(p, [None, None])
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "property-based testing (Hypothesis): " + (tech or "generated cases against an independent oracle"),
                       "level": "exploration",
                       "level_note": note or "Randomised search with shrinking; sound for the explored cases only."})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./run.sh --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo; 'fix:' commits are listed in known_findings.json and DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
