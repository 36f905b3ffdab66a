#!/usr/bin/env python3
"""Rewrites MANIFEST.json from props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(f"{V}/props.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = "contract-based deductive verification: govc generates VCs from /repo's current Go source and contracts/*.gvc, z3/cvc5 discharge them"
checks, na = [], []
for p in props:
    i = p["id"]
    c = cfg.get(i)
    if c is None or c.get("na"):
        na.append({"property": i, "reason": (c or {}).get("na", "not claimed yet: its contracts are still being written")})
        continue
    note = c.get("note", "")
    if c.get("bounded"):
        note += " Bounded, not proved: " + "; ".join(c["bounded"]) + "."
    note += " Assumes the trusted library contracts and the modelling assumptions listed in the evidence file."
    checks.append({"property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"./check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", TECH), "level": c.get("level", "proof"), "level_note": note.strip()})
m = {"version": 1, "setup_cmd": "cd govc && go build -o /dev/null . && cd ../axioms && go test . && cd .. && ./check.py search C01 1", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
