#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after adding a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
M = "runtime monitoring: "
T = {
 "C01": (M + "conservation ledger over recorded flux divergences and steps", None),
 "C02": (M + "invariant monitor on the fields of whole runs", None),
 "C03": (M + "metamorphic monitor (mirrored twin runs compared step by step)", None),
 "C04": (M + "metamorphic monitor (rescaled and shifted twin runs compared step by step)", None),
 "C05": (M + "runs compared with an exact Riemann solver under refinement", None),
 "C06": (M + "recorded flux evaluations compared with an independent reference implementation", None),
 "C07": (M + "recorded face values checked against cell means, neighbours and reference limiters", None),
 "C08": (M + "recorded stages and steps replayed with literature tableaus; measured order of accuracy", None),
 "C09": (M + "attempts reconstructed from recorded stages, checked against the acceptance rule", None),
 "C10": (M + "recorded step widths checked against the state before each step", None),
 "C27": (M + "invariant monitors (positivity, monotonicity, sonic points) over runs", None),
 "C28": (M + "metamorphic and order monitors over integrators and schemes", None),
}
T.update(json.load(open(os.path.join(V, "tools", "techniques.json"))) if os.path.exists(os.path.join(V, "tools", "techniques.json")) else {})
NOTE = "Held on the executions observed (counts in the evidence file), with random and hostile workloads; not a proof for others."
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    t = T[i]
    level = t[1] or "exploration"
    note = t[2] if len(t) > 2 else NOTE
    checks.append({
        "property": i, "quick_cmd": "python3 run_check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": t[0], "level": level, "level_note": note,
    })
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in T]}
if not m["not_applicable"]:
    m["not_applicable"] = []
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
