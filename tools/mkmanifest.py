#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from properties.jsonl and harness/registry.py (every property without a check is listed as not
applicable, with its reason)"""
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import registry

TECH = "solver-based symbolic execution of the real code (z3)"
CONC = "solver-based symbolic execution of the real code with symbolic preemption points (z3)"
NA = registry.NOT_APPLICABLE


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in registry.PROPS:
            r = registry.PROPS[i]
            checks.append(dict(
                property=i, quick_cmd="python3-vt check.py %s --tier quick" % i,
                thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                technique=CONC if i in ("C26", "C27", "C28", "C29", "C36", "C38", "C39") else TECH, level="model_checking",
                level_note="Bounded: holds for every value within: %s Outside: %s" % (
                    r["bounds"] if isinstance(r["bounds"], str) else r["bounds"]("quick"),
                    r.get("outside") or "nothing stated.")))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
    m = dict(version=1, setup_cmd="python3-vt -c \"import z3; print(z3.get_version_string())\"", checks=checks,
             not_applicable=na,
             notes="check.py symbolically executes the current source of /repo/modbus_tk (no hooks in /repo are needed); "
                   "see DESIGN.md")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
