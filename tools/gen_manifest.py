#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
NA = {
 "C40": "Option parsing and preset tables are pure functions of their input: no schedule, clock, fault or interleaving for a simulator to decide.",
 "C41": "Codecs are pure functions of an integer sequence; their concurrent and faulty uses are covered by C09, C15 and C17.",
 "C42": "Single-threaded containers are pure functions of an operation sequence: no schedule, clock, fault or interleaving involved.",
 "C43": "Arithmetic helpers are pure functions of their arguments: nothing to simulate.",
}
NOTE = ("Seeded search over thread schedules, inputs and faults against an executable reference; every violation is "
        "gated (same seed twice), minimised and replayed in a fresh process. Assumes sequentially consistent "
        "interleavings at instrumented accesses; a clean batch is evidence, not proof.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py run {i}",
            thorough_cmd=f"python3 check.py run {i} --tier thorough",
            technique="deterministic simulation: " + c.get("technique", "seeded schedules over simulated TBB workers, reference-model oracle"),
            level="exploration", level_note=c.get("note", NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Not built yet.")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
