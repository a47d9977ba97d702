#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harnesses present"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(H + "/harness/%s.cc" % i) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the LLVM IR of the real code, every branch and obligation decided by Z3 (or by an exact value-table decision over one 8-bit variable); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: holds for every input within the bounds printed in the evidence file (per case). Trusts clang's IR, the instrumentation pass and runtime, the models of libc/libstdc++ listed in DESIGN.md, and Z3; sampled path models are replayed against a native ASan build of the real code to validate the encoding."})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not yet claimed: its harness is not written yet.")})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
