#!/usr/bin/env python3
# Regenerates MANIFEST.json.
import json
NA = {"K01": "kqueue filters and Windows waitables are compiled only on BSD-derived systems and Windows; on this Linux sandbox that code is not part of the build, so no execution of it can be simulated (it delegates to the same Source/Reactor paths that R01-R04 and H01/H02 decide)."}
PENDING = {}
NOTES = {
"default": "Seeded search over programs, thread schedules (preemption at control-flow edges of the code under test and at every intercepted call), clocks, I/O timing and faults; the unmodified crate and its dependencies run in a simulated kernel. Sampled, not exhaustive; sequentially consistent memory.",
}
na = dict(NA); na.update(PENDING)
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    if p["id"] in na: continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
      "technique": "deterministic simulation with fault injection (seeded schedule and fault search over the real code)",
      "level": "exploration", "level_note": NOTES.get(p["id"], NOTES["default"])})
m = {"version": 1, "setup_cmd": "./sim/build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())]}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json","a").write("\n")
