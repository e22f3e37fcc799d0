#!/usr/bin/env python3
"""gen.py: write properties.jsonl and MANIFEST.json from proptext.py and props.py."""
import sys, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from proptext import T
from props import PROPS
try: from proptext import NA
except ImportError: NA = {}
with open(H + "/properties.jsonl", "w") as f:
    for pid in sorted(T):
        t = T[pid]
        files = PROPS[pid]["files"] if pid in PROPS else t.get("files") or NA[pid]["files"]
        o = {"id": pid, "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["quant"]}, "why_tests_cant": t["why"],
             "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in t["mechanism"]]}}
        assert len(t["title"]) <= 80, pid
        if t["state"]: o["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in t["state"]]
        if t["observe"]: o["anchors"]["observe_at"] = t["observe"]
        f.write(json.dumps(o) + "\n")
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]; t = T[pid]
    checks.append({"property": pid, "quick_cmd": f"python3-vt check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {pid}",
                   "technique": p.get("technique", "contract-based deductive verification of the SML source (SMLV: contracts + symbolic execution per function, z3/cvc5)"),
                   "level": p.get("level", "proof"), "level_note": t["note"] or "Every function of the property is verified against its contract from the current source."})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo. The verifier parses /repo's sources on every run. When an obligation is not discharged, a scratch copy of /repo is built and searched for a failing input (replay/)."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
