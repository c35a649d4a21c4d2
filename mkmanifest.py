#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(V + "/checks.json"))
checks = []
for p, x in c["properties"].items():
    proved = x.get("proved", "")
    note = ("Proved for all inputs (Verus on text extracted from /repo on every run): " + proved + " " if proved else "No obligation of this property is discharged deductively. ") + "Bounded (never counted as proved): " + x.get("bounded", "conformance of the real code with an independent reference on generated cases") + ". Trusted: see trusted_base and assumptions in the evidence file."
    checks.append({"property": p, "quick_cmd": f"bash run_check.sh {p} quick", "thorough_cmd": f"bash run_check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": "contract-based deductive verification (Verus) of mechanically extracted real code; counterexample search by bounded conformance replay" if x["templates"] else "bounded stand-in for contract verification: real code against an executable reference specification",
                   "level": x["level"], "level_note": note, **({"theorems": x["theorems"]} if x.get("theorems") else {})})
m = {"version": 1, "setup_cmd": "bash run_check.sh build", "checks": checks, "not_applicable": c["not_applicable"],
     "notes": "No hooks in /repo: private functions are reached by extraction, public ones by path dependency. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
