#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import props, specs
with open(V + "/properties.jsonl", "w") as f:
    for x in props.P: f.write(json.dumps({k: v for k, v in x.items() if k not in ("note", "technique")}) + "\n")
checks = [dict(property=x["id"], quick_cmd="python3 tools/check.py %s quick" % x["id"], thorough_cmd="python3 tools/check.py %s thorough" % x["id"], technique=x.get("technique", "symbolic execution of the compiled code (LLVM IR) with an SMT solver, counterexamples replayed natively"), level="model_checking", level_note=x["note"]) for x in props.P if x["id"] in specs.SPECS]
na = props.NA
missing = [x["id"] for x in props.P if x["id"] not in specs.SPECS and x["id"] not in [n["property"] for n in na]]
assert not missing, missing
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na, notes="See DESIGN.md. Known findings and repairs: known_findings.txt."), open(V + "/MANIFEST.json", "w"), indent=1)
