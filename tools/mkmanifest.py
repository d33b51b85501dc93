#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS

SEQ = "bounded exhaustive model checking of the implementation (all inputs/operation sequences of a small scope) against a reference model"
SCHED = "stateless model checking of the implementation: all thread interleavings up to a preemption bound under a controlled scheduler, with happens-before race detection"
HIST = "bounded exhaustive model checking of the whole node (all event histories of a small scope) against a reference model of the protocol"
FAULT = "exhaustive fault placement in all short histories of the whole node (model checking with one environment deviation)"
PY = "exhaustive exploration of environment answers for the real scripts under a mock middleware"
NOTE = ("Every execution of the bounded space stated in DESIGN.md runs the code compiled from /repo; says nothing beyond these "
        "alphabets and bounds. Trusts the reference model in the harness, the stand-ins for ROS 2 in stubs/, the compiler, and AddressSanitizer.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": "no check has been built yet"})
        continue
    c = PROPS[i]
    tech = {"seq": SEQ, "sched": SCHED, "hist": HIST, "fault": FAULT, "py": PY}[c.get("tech", c["kind"])]
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": tech, "level": "model_checking", "level_note": c.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"", "checks": checks, "not_applicable": na,
     "notes": "Checks build /repo's working tree themselves (build/ is ignored by git). There are no hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
