#!/usr/bin/env python3
"""Writes MANIFEST.json from run/table.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "run"))
from table import P
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in P:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(
        property=i,
        quick_cmd="python3 run/check.py %s quick" % i,
        thorough_cmd="python3 run/check.py %s thorough" % i,
        technique="symbolic execution of the compiled crate's LLVM bitcode, decided by z3 (bounded)",
        level="model_checking",
        level_note="Holds for every value of the symbolic inputs within the bounds (%s). Outside: %s. Trusts the own executor's reading of LLVM IR (sampled paths are compared with native runs), rustc, z3."
        % ("; ".join(P[i]["bounds"]), "; ".join(P[i]["outside"]))))
m = dict(version=1, setup_cmd="python3 run/check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness uses the public interface only.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

# every registered entry has to be in the list the replay program knows
lib = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/lib.rs")).read()
for i, p in P.items():
    for e in p["entries"]:
        assert "::" + e[0] + "," in lib, "not in lib.rs: " + e[0]
