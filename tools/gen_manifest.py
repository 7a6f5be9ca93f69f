"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "default": "runtime monitoring: seeded workloads on the real code, online exact-oracle monitors",
 "C12": "runtime monitoring: random operation histories checked against an executable set model",
 "C15": "runtime monitoring: random query histories, every answer judged against an exact oracle on the members",
 "C30": "runtime monitoring: operand fingerprints before and after every public operation",
 "C31": "runtime monitoring: shipped derivations run under online monitors of every piecewise and polyhedral operation",
}
NOTE = "Held on the executions generated (counts in the evidence file); says nothing about inputs outside the generators. Trusts the exact oracles in /verif/vh and Python's Fraction."
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=TECH.get(i, TECH["default"]), level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="VERIF_HOOKS", enable="no source hooks are needed: monitors wrap the public API from /verif at run time", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
