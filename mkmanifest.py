#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/props.json (run by hand after editing props.json)"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = json.load(open(V + "/contracts/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
NA = P.get("_not_applicable", {})
checks, na = [], []
for i in ids:
    if i in P:
        s = P[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 /verif/check.py %s" % i,
            "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
            "technique": s.get("technique", "contract-based deductive verification: Verus discharges the contracts of the functions extracted mechanically from /repo's source"),
            "level": s.get("level", "proof"),
            "level_note": s["level_note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet for this property")})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh",
           "hooks": {"guard": "luafmt_verif", "enable": "RUSTFLAGS=\"--cfg luafmt_verif\" (only the witness searcher in /verif/harness uses it)",
                     "source_commits": ["5dc4952", "1a1ce04", "185c062"]},
           "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md"}, open(V + "/MANIFEST.json", "w"), indent=1)
