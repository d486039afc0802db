#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
TECH = "symbolic execution of the real headers (LLVM IR) with Z3 deciding every branch, memory access and assertion"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("observe", ["public API results"]), hook_needed=None))) + "\n")
checks = []
for p in PROPS:
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p.get("tech", TECH), level="model_checking",
        level_note=p.get("note", "Bounded: every value of the symbolic inputs within the bounds printed in the evidence is covered; ") + " Trusts clang's lowering (cross-checked by replaying models on the g++-9 build), the engine, Z3, and the models of shared-library functions."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
         notes="No hooks: the headers are executed as they are. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
