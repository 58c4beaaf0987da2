#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import registry
from tools.notes import NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in registry.CHECKS:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {i}",
                           technique=tech, level=registry.CHECKS[i][0], level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check still being built")))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks build the unmodified sources with the linker's --wrap and a shadow constants header.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
