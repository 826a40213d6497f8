#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in props.PLANS:
        continue
    d = props.META.get(p, {})
    checks.append({
        "property": p,
        "quick_cmd": f"./check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
        "technique": d.get("technique", "TLA+ specification checked with TLC; its transitions replayed into the real server and all answers and stored data validated against the specification"),
        "level": d.get("level", "model_checking"),
        "level_note": d.get("note", "Exhaustive on the specification for small sets of names; the real server is judged by trace validation on the replayed transitions and on random sequences. Trusts TLC, the driver's projection of stored records and gRPC's in-process transport."),
    })
na = [{"property": p, "reason": props.NOT.get(p, "not built yet")} for p in ids if p not in props.PLANS]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the driver enters the module through go build -overlay."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
