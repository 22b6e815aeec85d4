#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plans import PLANS
NOTE = {
    "C0": "",
}
PURE = "a pure function of its arguments: no thread, time, I/O, allocation failure or throwing user code that its " \
       "result can depend on, so there is no schedule or fault for a simulator to choose; "
NA = {
    "C20": PURE + "vector arithmetic is decided by example tests or proof, not by simulation.",
    "C21": PURE + "matrix arithmetic has no nondeterminism.",
    "C22": PURE + "transforms and quaternions have no nondeterminism.",
    "C23": PURE + "find on a range nobody else touches is a function of the range (its use on shared buffers is C19).",
    "C24": PURE + "reverse on a range nobody else touches is a function of the range (its use on shared buffers is C19).",
    "C27": PURE + "iterator adaptors are pointer arithmetic.",
    "C28": PURE + "ArrayView is a non-owning pointer and length.",
    "C29": PURE + "AlignedData and the trait utilities are decided at compile time.",
}
SPSC_NOTE = ("Seeded search, not exhaustive: hundreds of thousands of simulated executions per build of the real queue "
             "code with a scheduling decision at every memory access and C++ weak-memory loads, against a reference "
             "model. Trusts the simulator's memory model (no load buffering) and gcc's instrumentation.")
SEQ_NOTE = ("Seeded search, not exhaustive: random operation histories of the real code on a simulated heap with "
            "injected allocation and element failures, compared after every operation with a reference model. Trusts "
            "the reference model and gcc's instrumentation.")
THR_NOTE = ("Seeded search, not exhaustive: real code run by several simulated threads with a scheduling decision at "
            "every memory access, a vector-clock race detector and comparison with sequential execution.")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANS:
        h = PLANS[i][0][0]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i}",
            "technique": "deterministic simulation with fault injection" +
                         (" (scheduled threads, weak memory)" if h in ("spsc", "threads", "disjoint") else " (operation histories, failing allocator and elements)"),
            "level": "exploration",
            "level_note": SPSC_NOTE if h == "spsc" else THR_NOTE if h in ("threads", "disjoint") else SEQ_NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seam is compiler instrumentation of the harness translation units and "
                    "link-time replacement (see DESIGN.md). Commits in /repo are repairs only."},
          open(V + "/MANIFEST.json", "w"), indent=1)
