#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import checks
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
TECH = "symbolic execution of the code's LLVM IR, decided by Z3"
out = dict(version=1, setup_cmd="python3 run_check.py --setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if not c:
        out["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "check not built yet")))
        continue
    b = c["bounds"]
    q = b["quick"] if isinstance(b, dict) else b
    note = "Bounded: holds for every value within the bounds. Quick bounds: " + q + ". "
    if c["outside"]:
        note += "Not covered: " + c["outside"] + ". "
    for a in c["assumptions"]:
        note += "Assumes " + a + ". "
    for s in c["stubs"]:
        note += "Model: " + s + ". "
    note += "Trusted: clang's lowering to IR, the lsx executor, Z3; sampled paths and every counterexample are replayed natively on the same IR."
    out["checks"].append(dict(property=i, quick_cmd=f"python3 run_check.py {i} --tier quick", thorough_cmd=f"python3 run_check.py {i} --tier thorough",
                              evidence_file=f"evidence/{i}.json", technique=c.get("technique") or TECH, level="model_checking", level_note=note))
json.dump(out, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(out, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
