#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the checker registers."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
na = {
 "N01": "Elapsed wall-clock silence between frames and the time a UART needs per character are run-time quantities of the operating system and hardware; no source-level argument bounds them. (The pause the client asks for is decided by T09; what the line sees is not.)",
 "N03": "Liveness: it depends on the scheduler, on timers and on the remote server answering. The safety half (a retry is made exactly when configured) is decided by V06.",
 "N04": "Which line errors a CRC or LRC misses is a property of the code's distance, i.e. of arithmetic over all error patterns, and for some patterns it is false; that the checksums are computed over, placed in and compared with the right bytes is decided by T01 and T02.",
}
lv = ("Path-complete static analysis of the current source: every feasible path of the named operations, for all inputs, "
      "with loops summarised by inferred inductive invariants; an obligation that cannot be shown is reported. Assumes the library models "
      "(io, net, sync, context, time, encoding/binary, bytes, hex, goburrow/serial) listed in the evidence, 64-bit ints and slices below 2^40 elements; "
      "not a machine-checked proof.")
src = "".join(open(f"{here}/checker/{f}").read() for f in os.listdir(here + "/checker") if f.endswith(".go"))
reg = set(re.findall(r'register\("([A-Z]\d\d)"', src))
tech = {
 "L01": "lockset analysis over all abstract paths + field-use enumeration",
 "L02": "lock typestate analysis over all abstract paths",
 "L03": "lockset analysis + who-may-access enumeration of shared fields",
 "L04": "ownership/typestate analysis of pooled buffers",
 "R04": "lockset analysis over all abstract paths + field-use enumeration",
 "R05": "points-to/alias analysis of results and stores",
 "V01": "resource typestate analysis of connections and listeners",
 "V02": "must-check-between analysis on loops of the session and dial functions",
 "V03": "wait-group typestate and ordering analysis",
 "V04": "must-precede dataflow on deadline and read/write events",
 "V06": "event-order (typestate) analysis of the life cycle",
 "V07": "connection typestate analysis with inductive field invariant",
 "M01": "guarded-call and effect analysis of the logger",
}
checks = []
for i in ids:
    if i in reg:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": tech.get(i, "abstract interpretation over a relational linear domain, path conditions, loop invariant inference"),
            "level": "other", "level_note": lv})
    elif i not in na:
        na[i] = "No check has been built for it yet."
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na and i not in reg]}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
