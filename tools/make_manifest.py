#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks are needed: all monitors observe the public interface", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(
            property=i, quick_cmd=f"python3 tools/run_check.py {i} --tier quick",
            thorough_cmd=f"python3 tools/run_check.py {i} --tier thorough",
            technique=c.get("technique", "runtime monitoring of generated workloads under " + " and ".join(
                dict(asan="ASan+UBSan", tsan="TSan", plain="optimised build")[k] for k in c["configs"])),
            level="exploration",
            level_note=c.get("note", "Holds on every execution explored from the seed; oracles are independent models. "
                                     "Trusts the compiler's sanitizers and the harness's reference model.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "No check has been built for this property yet.")))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
