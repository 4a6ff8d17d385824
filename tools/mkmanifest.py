#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.props import PROPS
from tools.notes import NOTES

TECH = "explicit TLA+ specification: TLC model checking, generated behaviours replayed into the library, recorded traces validated by TLC"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PROPS:
        checks.append({"property": p, "quick_cmd": "python3 vrun.py %s quick" % p,
                       "thorough_cmd": "python3 vrun.py %s thorough" % p,
                       "technique": TECH, "level": PROPS[p][0], "level_note": NOTES[p]})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the driver uses the public interface only. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
