"""Writes the table of seeded bugs into DESIGN.md (run in /verif)."""
import glob
import json
import re

rows = ["| seeded bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    one = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")  # noqa: E731
    rows.append(f"| {f.split('/')[1]}: {one(d['what_it_breaks'])} | {one(d['needs'])} | "
                f"{d.get('caught', d['property'])} |")
s = open("DESIGN.md").read()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
t = f"{a}\n" + "\n".join(rows) + f"\n{b}"
s = s.replace("SEEDED_TABLE", f"{a}{b}")
s = s[: s.index(a)] + t + s[s.index(b) + len(b) :]
open("DESIGN.md", "w").write(s)
