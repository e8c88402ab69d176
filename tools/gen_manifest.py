#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the profiles (run after adding a property)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from dst import profiles
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ids:
  if p in profiles.PROFILES:
    i = profiles.info(p)
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "technique": "deterministic simulation with fault injection: " + i.get("technique", "real broker under a seeded scheduler, network and clock, each packet checked against a reference model"),
                   "level": "exploration",
                   "level_note": i.get("note", "Seeded sample of schedules, faults and histories of the real broker code on a simulated network, clock and scheduler; a clean batch is evidence, not proof. "
                                       "Trusts the simulator (dst/kernel.py, net.py, seams.py), the independent codec and the reference model (dst/model.py).")})
  else:
    na.append({"property": p, "reason": profiles.NOT_CLAIMED.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hook was needed in /repo: every source of nondeterminism is replaced from outside (dst/seams.py); the checks import the code from /repo's working tree.", "source_commits": []},
     "notes": "All commits in /repo are fixes of genuine defects (known_findings.json lists them)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
