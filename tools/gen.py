#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from spec import P, NA
TECH = {"symx": "symbolic execution of the real C code (LLVM IR) with Z3; counterexamples replayed natively",
        "mes": "symbolic execution of the whole mes interpreter (LLVM IR) with Z3 on Scheme programs with symbolic inputs; counterexamples replayed natively",
        "mc": "symbolic execution of MesCC-generated machine code with Z3 against a C-semantics oracle; counterexamples replayed natively"}
NOTE = {"symx": "Every value within the stated bounds: each path's assertions, object bounds and traps are discharged by Z3 (or by constant folding); bounds, incomplete paths and unknown answers are in the evidence. Trusts clang's lowering to IR, the symbolic executor and Z3; sampled paths and every counterexample are replayed against a native gcc/ASan build.",
        "mes": "Every value of the symbolic inputs within the stated bounds, on the real interpreter, libc and Scheme library executed as LLVM IR over a modelled kernel. Trusts clang's lowering, the symbolic executor, the kernel model and Z3; counterexamples and sampled paths are replayed on a native build.",
        "mc": "Every value of the symbolic operands for the compiled program templates; the generated machine code itself is executed symbolically. Trusts the instruction semantics of the engine (LLVM disassembler), the template oracle and Z3; counterexamples are replayed by running the generated program."}
with open(V + "/properties.jsonl", "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        r = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        f.write(json.dumps(r) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
for p in P:
    k = p["kind"]
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=TECH[k], level="model_checking", level_note=NOTE[k]))
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "checks,", len(NA), "not applicable")
