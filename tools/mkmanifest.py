#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import META
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
         notes="Black-box monitors: no hooks in /repo. Every check builds the harness against /repo's working tree itself.")
for k, (t, lv, note) in META.items():
    m["checks"].append(dict(property=k, quick_cmd="./check.sh %s --tier quick" % k, thorough_cmd="./check.sh %s --tier thorough" % k,
                            evidence_file="evidence/%s.json" % k, technique=t, level=lv, level_note=note))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
