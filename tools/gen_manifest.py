#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "vk"), os.path.join(V, "checks")]
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    c = specs.CHECKS.get(p["id"])
    if c:
        cmd = "python3 vk/driver.py " + c.id
        checks.append({"property": c.id, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "evidence_file": "evidence/%s.json" % c.id, "technique": c.technique, "level": c.level,
                       "level_note": c.level_note})
na = [{"property": p["id"], "reason": specs.NOT_APPLICABLE.get(p["id"], "the monitor for this property is not built yet")}
      for p in props if p["id"] not in specs.CHECKS]
m = {"version": 1, "setup_cmd": "python3 vk/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes the public interface. Each check compiles what it needs from "
              "/repo's working tree into /verif/.build (objects are reused only if every file they were built from is unchanged)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
