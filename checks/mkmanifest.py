#!/usr/bin/env python3
"""Writes MANIFEST.json from components.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from components import PROPS, NOT_APPLICABLE, NOTES
props = [json.loads(l) for l in open(os.path.join(lib.VERIF, "properties.jsonl"))]
TECH = {"*": "TLA+ contract and algorithm model (TLC), conformance by trace validation of controlled and free executions of the real code",
        "C30": "TLA+ contract, algorithm model and scenario generation (TLC), conformance by trace validation of generated histories of the real program"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(
            property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="python3 checks/run.py %s --tier thorough" % i,
            technique=TECH.get(i, TECH["*"]),
            level="model_checking", level_note=NOTES.get(i, NOTES["*"])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 checks/run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness instruments a copy of the sources through go's -overlay. See DESIGN.md.")
json.dump(m, open(os.path.join(lib.VERIF, "MANIFEST.json"), "w"), indent=1)
