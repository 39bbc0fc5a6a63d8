#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, os.path.join(HERE, "checks"))
NA = {}
exec(open(os.path.join(HERE, "tools", "not_applicable.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")) and pid not in NA:
        m = __import__(pid.lower())
        checks.append({"property": pid, "quick_cmd": "./check %s --tier quick" % pid,
                       "thorough_cmd": "./check %s --tier thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                       "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "not built yet")})
man = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
       "notes": "Every check is ./check ID; it builds the programs under test from /repo/src into /verif/.build, runs generated cases in chroot "
                "cells under /dev/shm (or /tmp) as an unprivileged uid, and removes them. No hooks are needed in /repo."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
