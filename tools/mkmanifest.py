#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (a development helper; no check runs it)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTE = ("Held for every value of the symbolic inputs within the stated bounds (evidence: bounds, outside); bounded, not a proof. "
        "Trusts rustc's LLVM IR, the executor in engine/, Z3, and the independent readers/models in harness/; every explored path is "
        "replayed natively with the solver's values and must agree with the interpretation.")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "symbolic execution of the compiled code (LLVM IR) with Z3, counterexamples replayed natively",
                 "level": "model_checking", "level_note": NOTE} for p in ps],
     "not_applicable": [],
     "notes": "No hooks: the harness drives faerie's public API. Build output goes to /verif/build (ignored by git)."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
