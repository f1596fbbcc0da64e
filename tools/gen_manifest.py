#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
LEX = ("TLA+ specification of the tokenizer as a state machine (Lex.tla) model-checked with TLC; recorded runs of the real tokenizer validated against it",
       "Exhaustive over short inputs of several alphabets plus boundary and random inputs; beyond those lengths sampled. Trusts TLC, the recording harness and the specification's reading of the documentation.")
CLAIMED = {
    "C01": LEX, "C02": LEX, "C03": LEX, "C04": LEX,
}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "true",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                 "technique": CLAIMED[i][0], "level": "model_checking", "level_note": CLAIMED[i][1]} for i in ids if i in CLAIMED],
     "not_applicable": [{"property": i, "reason": "Not claimed yet: its specification and conformance check are under construction."} for i in ids if i not in CLAIMED],
     "notes": "Language: TLA+ (TLC). See DESIGN.md. Known findings and repaired defects: known-findings.txt"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
