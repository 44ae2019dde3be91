#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        sp = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 sv.py check %s --tier quick" % i, thorough_cmd="python3 sv.py check %s --tier thorough" % i,
            technique="symbolic execution of the real code (LLVM IR, all paths within bounds) with z3 deciding every branch and assertion",
            level="model_checking", level_note=sp.get("note", "Holds for every value of the symbolic inputs within the stated bounds (evidence: coverage.harnesses); trusts clang, the instrumentation pass, the term runtime and z3. Real-arithmetic harnesses ignore float rounding; counterexamples are replayed natively.")))
    else: na.append(dict(property=i, reason=specs.NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 sv.py setup", checks=checks, not_applicable=na, notes="See DESIGN.md"), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
