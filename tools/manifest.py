#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = {}
T_PROOF = "contract-based deductive verification (gover: Go SSA, Z3/cvc5), violations replayed on the real code"
T_MIX = "contract-based deductive verification of the functions within reach; labelled bounded replay of the contracts on the real code for the rest"
T_BOUND = "contracts executed on the real code over generated inputs: bounded stand-in, no obligation is discharged yet"
rows = json.load(open(os.path.join(root, "tools", "claims.json")))
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [], "not_applicable": rows["not_applicable"],
     "notes": "See DESIGN.md. /repo has no hooks: the harness goes in through go's -overlay."}
for k, (level, note) in sorted(rows["checks"].items()):
    t = {"proof": T_PROOF, "mix": T_MIX, "bounded": T_BOUND}[level]
    m["checks"].append({"property": k, "quick_cmd": "./check.sh %s quick" % k, "thorough_cmd": "./check.sh %s thorough" % k,
        "technique": t, "level": "proof" if level == "proof" else "exploration", "level_note": note})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
