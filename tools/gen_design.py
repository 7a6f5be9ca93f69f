"""Writes /verif/DESIGN.md: design_head.md + the repaired defects + the table of planted bugs + design_tail.md."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.join(here, "..")
out = open(os.path.join(here, "design_head.md")).read()
fixed = [k for k in json.load(open(os.path.join(top, "known_findings.json"))) if k["status"] == "fixed"]
out += f"{len(fixed)} `fix:` commits in /repo (property, commit, what failed):\n\n"
for k in fixed:
    out += f"* {k['property']} {k['commit']} {k['what']}\n"
res = json.load(open(os.path.join(here, "seeded_results.json")))
out += open(os.path.join(here, "design_tail.md")).read()
out += "\n| planted bug | property | caught by | what it needs |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(top, "seeded"))):
    m = json.load(open(os.path.join(top, "seeded", d, "meta.json")))
    out += f"| {d} | {m['property']} | {res.get(d, '?')} | {' '.join(m['needs'].split())[:160]} |\n"
open(os.path.join(top, "DESIGN.md"), "w").write(out)
