#!/usr/bin/env python3
"""Writes MANIFEST.json from run/plan.py and properties.jsonl."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "run"))
import plan
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
hooks = [c for c in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True,
         text=True).stdout.splitlines() if "hook" in c]
m = {"version": 1, "setup_cmd": "python3 run/setup.py",
     "hooks": {"guard": "cfg flag congee_verif",
               "enable": "RUSTFLAGS='--cfg congee_verif', set by harness/.cargo/config.toml for every build of the harness crate",
               "source_commits": [c.split()[0] for c in reversed(hooks)]},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        q = plan.PLAN[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run/check.py %s" % i,
                            "thorough_cmd": "python3 run/check.py %s" % i,
                            "technique": q["technique"], "level": q["level"], "level_note": q["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": plan.NOT_YET.get(i, "check not built yet")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
