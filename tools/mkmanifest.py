#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C25": "kqueue filters and Windows waitables are not compiled on Linux: there is no implementation here to execute, and no such kernel interface to bind a model to."}
NOTE = ("Every execution of the listed scenarios of the real, compiled library within the bounds (threads, operations, number of schedule / time / error deviations) was run and judged; "
        "bounds and counts per scenario are in the evidence. Assumes sequentially consistent memory, the Linux epoll back end, and that scheduling points at atomics, locks, futexes and system calls suffice. ")
EXTRA = {
 "C17": "Lengths and alphabets are small.", "C16": "The OS's answers are scripted at the system call, plus real loopback sockets.",
 "C25": "",
}
TECH = {i: "stateless model checking of the implementation: exhaustive enumeration of schedules and choices, bounded by deviations" for i in ids}
for i in ("C05", "C07", "C08"): TECH[i] = "exhaustive enumeration of operation histories of the implementation against a reference model, with all schedules of the reactor bounded by deviations"
for i in ("C01", "C02", "C03", "C04", "C13", "C23"): TECH[i] = "stateless model checking of the implementation: all operation histories up to a depth and all interleavings bounded by deviations, with a reference model as oracle"
TECH["C14"] = "exhaustive enumeration of the environment's answers (scripted object, injected OS errors), event orders and schedules bounded by deviations, on the implementation"
TECH["C16"] = TECH["C14"]
TECH["C18"] = "exhaustive enumeration of OS errors at every call, with histories and schedules bounded by deviations, on the implementation"
checks = [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", technique=TECH[i], level="model_checking", level_note=(NOTE + EXTRA.get(i, "")).strip()) for i in ids if i not in NA]
json.dump(dict(version=1, setup_cmd="bash mc/build.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: the library is built unchanged, with compiler instrumentation (ThreadSanitizer call-backs for atomics) and interposed system calls; see DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
