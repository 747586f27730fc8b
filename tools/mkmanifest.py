#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/tools/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    c = conf.get(i, {})
    if c.get("claimed"):
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": c.get("technique", "contract-based deductive verification of the Go source (govc: contracts, loop invariants and lemmas over go/ssa, discharged by z3/cvc5)"),
            "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": c.get("reason", "no contract for it yet in this snapshot of the framework")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "tools/check.py PROP builds govc, regenerates every obligation from /repo's working tree and the contracts in /verif/contracts, and discharges them. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
