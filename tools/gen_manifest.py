#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, missing, harness = [], [], set()
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(VERIF, "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "no check built (yet); see DESIGN.md"})
        continue
    mod = importlib.import_module("checks." + pid.lower())
    harness |= set(getattr(mod, "HARNESS", []))
    checks.append({
        "property": pid,
        "quick_cmd": "./run.sh %s --tier quick" % pid,
        "thorough_cmd": "./run.sh %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": getattr(mod, "TECHNIQUE", "property-based testing (Hypothesis) of the real binary against a reference model, with shrinking"),
        "level": mod.LEVEL,
        "level_note": mod.RULE,
    })
manifest = {
    "version": 1,
    "setup_cmd": " ".join(["python3-vt", "-m", "engine.build"] + sorted(harness)),
    "checks": checks,
    "not_applicable": missing,
    "notes": "Generated by tools/gen_manifest.py. run.sh <id> [--tier quick|thorough] [--replay FILE]. Known findings and fixed defects: known_findings.json.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks;", len(missing), "without")
