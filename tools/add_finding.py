#!/usr/bin/env python3
"""add_finding.py fixed PROPERTY COMMIT WHAT...   records a repaired defect"""
import json, sys
_, status, prop, commit, *what = sys.argv
what = " ".join(what)
line = {"status": "fixed", "property": prop, "commit": commit, "what": f"fixed: property={prop} {commit} {what}"}
open("/verif/known/findings.jsonl", "a").write(json.dumps(line, separators=(",", ":")) + "\n")
