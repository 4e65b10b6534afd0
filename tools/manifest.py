"""Writes properties.jsonl and MANIFEST.json (run in /verif)."""
import json
import os
import runpy

runpy.run_path("tools/props.py")
props = [json.loads(x) for x in open("properties.jsonl")]
NOTES = json.load(open("tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"pbt/{i.lower()}.py"):
        t, note = NOTES.get(i, ["property-based testing", ""])
        checks.append(dict(
            property=i, quick_cmd=f"bash run.sh {i} quick",
            thorough_cmd=f"bash run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="exploration",
            level_note=note or "Random search over generated cases; a pass says that "
            "no generated case breaks the property."))
    else:
        na.append(dict(property=i, reason="no check has been built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
               not_applicable=na,
               notes="No hooks in /repo. See DESIGN.md."),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
