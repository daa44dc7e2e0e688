#!/usr/bin/env python3
"""Writes MANIFEST.json from the job tables (tools/jobs.py) and the property list."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import jobs as J
TECH = {"C10": "abstract interpretation in the domain of GF(2)-affine bit functions", "C22": "interprocedural effect analysis (call graph, loops, stores) plus abstract interpretation of the notifications",
 "C24": "interprocedural reachability and shared-variable analysis over the linked IR", "C25": "call graph analysis (externals, recursion) plus terminating abstract interpretation of all loops",
 "C27": "abstract interpretation of the registration calls with symbolic address"}
SL = "trace-partitioned abstract interpretation of the LLVM IR with typestate of frame and notifications, explored to a fixpoint"
NOTE = {"proof": "Holds for every input and history of the stated scope; trusts clang's IR, the analysis engine and the environment assumptions in the evidence file. ",
        "other": "Sound over-approximation of the stated scope (a path the analysis cannot decide ends the check without a verdict, never as a pass); trusts clang's IR, the engine and the listed assumptions. "}
checks = []
for p in sorted(J.PROPS):
    s = J.PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, technique=TECH.get(p, SL), level=s["level"], level_note=NOTE[s["level"]] + "Scope: " + s["scope"] + ". Assumes: " + "; ".join(s["assumptions"]) + "."))
m = dict(version=1, setup_cmd="make -s -j8 -C engine", checks=checks,
 not_applicable=[dict(property="C30", reason="Real-time durations depend on timer clocks, baud-rate settings, interrupt latency and poll rate of the target; nothing in the source bounds them, so no sound static argument reaches them. The order in which the events may come, at any time, is covered by C07, C08, C18, C19, C21 and C23.")],
 notes="All checks are static: check.py compiles /repo/src to LLVM IR with clang and runs engine/ (C++) on it; tools/jobs.py says which analyses decide which property. No hooks in /repo. known-findings.txt lists the repaired defects. Properties in properties.jsonl are generated by tools/gen_properties.py, this file by tools/gen_manifest.py.")
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
