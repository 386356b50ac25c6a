#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and mkprops.py."""
import json, os
import checks, mkprops
here = os.path.dirname(os.path.abspath(__file__))
NA = getattr(checks, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'.'); import checks\" && clang --version >/dev/null && gcc --version >/dev/null",
     "checks": [], "not_applicable": [],
     "notes": "run.py PID builds /repo's working tree with instrumentation, runs the workloads of checks.py and writes evidence/PID.json. Listed and repaired defects: KNOWN_FINDINGS.txt."}
for x in mkprops.P:
    c = checks.CHECKS.get(x["id"])
    if c:
        m["checks"].append(dict(property=x["id"], quick_cmd=f"python3 run.py {x['id']} --tier quick", thorough_cmd=f"python3 run.py {x['id']} --tier thorough",
                                evidence_file=f"evidence/{x['id']}.json", technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=x["id"], reason=NA.get(x["id"], "no check built (yet): not claimed")))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
