#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
note = ("Seeded search over many simulated runs: assurance grows with the number of distinct schedules and fault sequences explored, and is no proof. "
 "The whole server (or CLI) binary, built from /repo with unmodified sources, runs; kernel, libc scheduling, clocks, network, provider, browser, commands and randomness are simulated, with sequentially consistent memory. Oracles see only what is observable from outside.")
extra = {
 "C18": " Two recorded findings (thread creation and descriptor exhaustion abort the process) are reported as KNOWN-FINDING.",
 "C19": " A recorded finding (a local client that connects and sends nothing blocks other clients) is reported as KNOWN-FINDING.",
 "C21": " Logs are inspected at every verbosity; memory and core files are not.",
 "C25": " The order of the lines is accepted in any order fixed by name.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./build_app.sh all", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the application is built with -Zsanitizer=thread, -Zexternal-clangrt and linked to a shared library that implements libc, pthread and TSan entry points on top of the simulator (see DESIGN.md). known_findings.txt lists repaired and recorded defects."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults, reference-model and history oracles)",
        "level": "exploration", "level_note": note + extra.get(i, "")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
