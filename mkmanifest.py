#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = "symbolic execution of the compiled library over a symbolic element type; SMT (QF_LRA, z3) decides each output claim for all inputs; models replayed natively"
S = "symbolic execution of the library's LLVM IR with symbolic lengths; SMT (QF_ABV/BV, z3) decides reachability of contract breaches; models replayed natively"
NOTE_V = ("All real inputs up to scaling, for the listed transform shapes, lengths, chunk counts and entry points; rounding of every operation bounded "
          "by the standard model; lengths outside the catalogue and overflow/underflow/NaN inputs are outside the claim. Trusts rustc, z3, the symbolic number type (bit-checked against native runs).")
NOTE_S = ("All 64-bit buffer and scratch lengths within the stated bounds (chunk counts / loop unrolling), per transform shape listed in the evidence. "
          "Trusts rustc's LLVM IR, the IR executor (validated against native runs) and z3.")
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
from vlib import catalog
try:
    from vlib import sengine
    sp = set(sengine.PROPS)
except ImportError:
    sp = set()
checks, na = [], []
for p in props:
    i = p["id"]
    v, s = i in catalog.CATALOG, i in sp
    if not (v or s):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    tech = " + ".join(([V] if v else []) + ([S] if s else []))
    note = " ".join(([NOTE_V] if v else []) + ([NOTE_S] if s else []))
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level="other", level_note="Bounded solver-based checking. " + note))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all checks use the public API. Every check builds its harness from /repo's working tree by itself.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
