#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from spec import P
from checks import CHECKS
with open(H + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["observe_at"] = list(p["observe"]) or ["the public API named in the files"]
        a["hook_needed"] = False
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "runtime monitoring: " + p["technique"], "level": p["level"],
                       "level_note": p["note"] or "Seeded executions of the real code, each judged by an oracle; nothing is proved about executions not run. Bounds: " + p["text"] + " are sampled, not enumerated."})
    else:
        na.append({"property": p["id"], "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the monitors drive /repo's public API, built with sanitizers from /repo's working tree by harness/CMakeLists.txt; clocks, synchronisation calls and write faults are interposed at link or process level."}
with open(H + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
