#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
NA = {
 "C18": "The reported footprint is a pure function of the object: no schedule, clock, fault, I/O or second party can change it, so there is nothing for a simulator to decide. (That footprinting leaves the object unchanged and survives faults is decided under C09 and C14.)",
 "C19": "Which way an object is constructed is fixed at compile time by the class definition; no execution nondeterminism is involved. Types using each way are part of every simulated workload, but precedence itself is not a simulation target.",
 "C20": "Kokkos is not installed and cannot be fetched, so none of this code can be built here; and apart from the transports, which C01-C12 decide, it is a pure function of the view.",
 "C21": "Which members a user-defined traverser visits is a pure function of program and object; there is no schedule, fault, time or I/O in it.",
}
TECH = "deterministic simulation with fault injection (seeded search over schedules and fault sequences)"
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo were needed: system calls, allocation, streams, user code and (C13) memory accesses are intercepted at link or compile time by the harness' own build. See DESIGN.md."}
for pid in sorted(props.PROPS):
    i = props.PROPS[pid]
    m["checks"].append({"property": pid, "quick_cmd": "python3 run_check.py %s quick" % pid, "thorough_cmd": "python3 run_check.py %s thorough" % pid,
                        "technique": i.get("technique", TECH), "level": "exploration", "level_note": i["note"]})
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
