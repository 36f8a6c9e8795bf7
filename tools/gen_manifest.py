#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and tools/plan.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
import plan  # noqa: E402

checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    i = json.loads(l)["id"]
    p = plan.PLAN.get(i)
    if p is None:
        na.append({"property": i, "reason": plan.NOT_APPLICABLE.get(i, "no check is built for it yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i} quick",
        "thorough_cmd": f"python3 run.py {i} thorough",
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the library is monitored through its public interface, the daemon and the command-line client from outside "
             "(HTTP, files, signals, a preloaded shim between them and libc). Every check builds what it needs from /repo's working tree.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
