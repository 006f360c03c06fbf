#!/usr/bin/env python3
# (Development tool.) Writes MANIFEST.json from checks.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
NOTE = "For every value of the harness's symbolic inputs within the stated bounds (evidence: coverage.bounds): the solver decides each assertion on each path of the real code's LLVM bitcode; paths that hit a limit are counted as incomplete, never as passed. Trusted: clang's lowering, the engine (sampled paths are re-run on the native build), libc++/libc, and the models named in DESIGN.md."
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
          "technique": c.get("technique") or "symbolic execution of the compiled library (LLVM IR) with Z3, counterexamples replayed natively", "level": c.get("level", "model_checking"), "level_note": c.get("note", "") + (" " if c.get("note") else "") + (NOTE if "py" not in c else "")})
    else: out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE[i]})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
