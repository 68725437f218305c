#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claims below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, network and storage faults",
            "level": "exploration",
            "level_note": CLAIMS[i],
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none: the shipped sources carry no hooks; the simulation is a source-to-source rewrite made at check time",
               "enable": "build.sh rewrites /repo's working tree into a scratch copy whose goroutines, channels, locks, timers, network and randomness go through the simulator, and builds the harness from that copy",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. ./replay FILE re-executes a replay file."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
