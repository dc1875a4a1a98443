#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = json.load(open("claims.json"))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [{
   "property": i,
   "quick_cmd": f"bash check.sh {i} quick",
   "thorough_cmd": f"bash check.sh {i} thorough",
   "technique": T + C[i]["technique"],
   "level": C[i].get("level", "exploration"),
   "level_note": C[i]["note"],
 } for i in ids if i in C],
 "not_applicable": [{"property": i, "reason": "not built yet"} for i in ids if i not in C],
 "notes": "No hook in /repo: the simulator takes the place of the kernel and libc entry points (futexes, clock, randomness, CPU count, file I/O, allocator) and of the compiler's tsan runtime, in builds of /repo's crate made by /verif/sim. See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
