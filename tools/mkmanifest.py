#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
from props import P, TECH, NA
props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in P:
        t, n = TECH.get(i, ("property-based testing: generated automata against a reference model", ""))
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
            technique=t, level="exploration", level_note="Searches generated cases (count, distinct non-trivial count and samples in the evidence); finds violations, does not prove absence. Trusts the oracle in /verif and the compilers. " + n))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
doc = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: harnesses use the public API, the generated output and the programs; nothing in /repo is guarded", source_commits=[]), checks=checks, not_applicable=na,
  notes="known_findings.jsonl lists recorded defects and repairs; tools/run.py is the driver, tools/build.py builds /repo's working tree out of tree with content-addressed caching.")
json.dump(doc, open(VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
