#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sxlib/tasks.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sxlib import tasks
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
    "real": "symbolic execution of the compiled code's LLVM IR, exact-real SMT queries (z3, cvc5)",
    "bits": "symbolic execution of the compiled code's LLVM IR, bit-exact SMT queries (z3, cvc5)",
}
checks = []
for p, t in sorted(tasks.TASKS.items()):
    modes = []
    for x in t["quick"]:
        if x["mode"] not in modes:
            modes.append(x["mode"])
    tech = TECH[modes[0]] if len(modes) == 1 else "symbolic execution of the compiled code's LLVM IR, exact-real and bit-exact SMT queries (z3, cvc5)"
    if p in ("C16", "C19"):
        tech += "; schedules enumerated symbolically"
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": tech,
        "level": "model_checking",
        "level_note": "Bounds: %s. Everything else is outside. Assumes: %s." % (t["bounds"], "; ".join(t["assumptions"])),
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 sxlib/build.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in tasks.TASKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
