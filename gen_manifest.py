#!/usr/bin/env python3
"""writes MANIFEST.json from units.py"""
import json, os
from units import PROPS
V = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid, s in sorted(PROPS.items()):
    if s["level"] == "proof":
        tech = "contract-based deductive verification (Verus) of the functions extracted from /repo, with the same contract run on the real crate to replay failures"
        note = ("Every obligation of the listed functions is discharged by Verus/Z3 for all inputs, on text extracted from /repo on each run. Trusted: the std model in "
                "contracts/prelude.vc, the extractor, Verus. If the source leaves the verifier's subset the run says PROOF-INCOMPLETE and only the bounded stand-in ("
                + s["bounded"] + ") decides. " + s.get("note", ""))
    else:
        tech = "bounded run of the executable contract (pre/postcondition with exact oracle) on the real code"
        note = "Bounded, not proved: " + s["bounded"] + ". " + s.get("note", "")
    c = {"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
         "technique": tech, "level": s["level"], "level_note": note.strip()}
    if s["level"] == "proof":
        c["theorems"] = s["theorems"]
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
           "notes": "check.py rebuilds the extractor and the harness from source on each run, in the git-ignored .build/"},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
