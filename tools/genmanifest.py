#!/usr/bin/env python3
"""MANIFEST.json from specs/ and the list below"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/na.py").read())
checks = []; na = []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    f = V + "/specs/%s.py" % i.lower()
    if not os.path.exists(f) or i in WIP: na.append({"property": i, "reason": WIP.get(i, "no check has been built yet: the contracts for these functions are not written")}); continue
    checks.append({"property": i, "quick_cmd": "./run.py %s --tier quick" % i, "thorough_cmd": "./run.py %s --tier thorough" % i,
        "technique": "contract-based deductive verification of the extracted C++ (FVC: weakest-precondition style obligations, z3/cvc5)", "level": LEVEL.get(i, "proof"), "level_note": NOTE.get(i, "all obligations of the contracts of the functions listed in the evidence; standard library behaviour and the callee contracts named there are assumed")})
json.dump({"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
