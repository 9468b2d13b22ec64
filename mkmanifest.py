#!/usr/bin/env python3
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
from props import PROPS
NA = {
 "C15": "speed and operation counts are not observable behaviour under a simulator that controls time; the technique decides nothing about performance",
 "C16": "micro-architectural timing is outside of what a deterministic simulation models; the library makes no constant time promise either (README does not claim it)",
}
allp = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 driver/check.py --setup",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks in /repo: every seam is either in the code already (streams, function pointers, operator new, template parameters, linker level posix_memalign/mprotect/pthread symbols) or provided by the simulator (single stepping by the trap flag, poisoned stacks). See DESIGN.md.",
}
for p in allp:
    if p in PROPS:
        P = PROPS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 driver/check.py %s quick" % p,
            "thorough_cmd": "python3 driver/check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": P.get("technique", "deterministic simulation with fault injection: seeded histories against a GMP reference model"),
            "level": "exploration",
            "level_note": P.get("level_note", "Seeded search: no violation in the explored runs, not a proof. Trusts GMP, the compiler and the simulator."),
        })
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
