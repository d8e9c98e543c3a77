#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in CLAIMED."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
CLAIMED = open(H + "/tools/claimed.txt").read().split()
NOTE = ("Every execution is the repository's own code, source-instrumented from /repo's working tree, under a controlled scheduler, virtual time and an in-memory network. "
        "Enumerated: all inputs/operation sequences of the listed scenarios and all schedules within their deviation bounds (evidence lists bound, completed bound, executions, states). "
        "Beyond the bounds nothing is claimed; gorilla/websocket runs instrumented but without preemption points; net/http is replaced by a recorder with its semantics.")
checks = []
for p in props:
    if p["id"] not in CLAIMED:
        continue
    q = p["quantifier"]["over"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "model checking: stateless, state-cached, deviation-bounded exploration of the real code under a controlled scheduler" if "schedules" in q
                     else "model checking: bounded-exhaustive enumeration of inputs, histories and faults on the real code under a controlled scheduler",
        "level": "model_checking",
        "level_note": NOTE,
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build /tmp/vmc-setup && rm -rf /tmp/vmc-setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in CLAIMED]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
