#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the registered checks."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run([V + "/check", "build"], check=True)
env = dict(os.environ, VERIF_ASSETS=V + "/assets")
have = [l.split()[0] for l in subprocess.run([V + "/.build/sim", "-list"], env=env, capture_output=True, text=True, check=True).stdout.splitlines()]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {
    "C19": "A pure function of one 256- or 512-byte structure: no scheduling, time, I/O or fault for a simulation to control. What users see of it is inside C01-C03 and C08-C10.",
    "C20": "A constant table: nothing for a simulation to control.",
}
NOTE = "Seeded search over histories, schedules and faults with the real program in a simulated world; assumes the simulated kernel, file system and disk stand for real ones, and samples rather than enumerates."
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": [{
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search)",
        "level": "exploration",
        "level_note": NOTE,
    } for i in props if i in have],
    "not_applicable": [{"property": i, "reason": NA.get(i, "No check yet.")} for i in props if i not in have],
    "notes": "No hooks in /repo: the seams (system calls, clock, randomness, exit) are put in by a build overlay, see DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
