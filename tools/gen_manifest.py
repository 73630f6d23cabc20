#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tasks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import tasks as T
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NOTE = "Every path of the harness over the real code (LLVM IR of the current tree) is executed symbolically and every assertion, panic, out-of-bounds access, use after free, uninitialised branch and leak is decided by z3 for all values within the bounds; counterexamples are confirmed natively. Bounds: %s Outside: %s Trusts rustc's IR, the engine's semantics (cross-checked by native replay of sampled paths) and z3."
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness crate uses the public API only. Defects found and repaired: KNOWN_FINDINGS.md."}
NA = getattr(T, "NOT_APPLICABLE", {})
for p in props:
    i = p["id"]
    if i in T.P:
        inf = T.INFO[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "symbolic execution of the compiled crate (LLVM IR) with SMT (z3)", "level": "model_checking", "level_note": NOTE % (inf["bounds"], inf["outside"])})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "its check is not built yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
