#!/usr/bin/env python3
"""Rewrites MANIFEST.json from harness/props.py and properties.jsonl."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
from props import PROPS  # noqa: E402

NOTE = ("Seeded, case-bounded workloads drive the real code of /repo through its public API, compiled with AddressSanitizer and "
        "the UndefinedBehaviorSanitizer checks that trap; an independent oracle judges what was observed. Executions that the "
        "generators do not produce are not judged.")

checks, unclaimed = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    c = PROPS.get(p["id"])
    if c is None:
        unclaimed.append({"property": p["id"], "reason": "its monitor is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 bin/check.py {p['id']}",
        "thorough_cmd": f"python3 bin/check.py {p['id']} --tier thorough",
        "technique": c.get("technique", "runtime monitoring of generated workloads under ASan/UBSan, judged by an independent oracle"),
        "level": "exploration",
        "level_note": (c["note"] + " " if "note" in c else "") + NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "mkdir -p evidence/replay _build",
    "checks": checks,
    "not_applicable": unclaimed,
    "notes": "No hooks in /repo: every monitor takes part through the public API (probe signals, effects, matchers, envelopes) or watches the process. See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(unclaimed), "not claimed")
