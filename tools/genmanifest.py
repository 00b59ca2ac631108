#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E1 = "stateless model checking of the real code under a controlled scheduler (preemption- and fault-bounded exhaustive enumeration of schedules with happens-before state caching, plus a race-detector pass over the same schedules)"
E1N = "Every schedule of the listed small scenarios within the reported preemption and fault bounds is executed on the real code; assumes the source rewriter and the models of sync/channels/timers are faithful."
checks = {
 "C07": (E1, "model_checking", E1N),
 "C08": (E1, "model_checking", E1N),
 "C09": (E1, "model_checking", E1N),
 "C10": (E1, "model_checking", E1N),
}
exec(open(os.path.join(root, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "manifest_more.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: instrumentation is applied through go build overlays at check time. Genuine defects are repaired by fix: commits in /repo and listed in KNOWN_FINDINGS.txt."}
for p in props:
    if p in checks:
        t, l, n = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA[p] if "NA" in globals() and p in NA else "check still being built"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
