"""Writes /verif/MANIFEST.json from specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import specs
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in specs.PROPS:
        continue
    s = specs.PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": s.get("technique", "bounded symbolic execution of the compiled real code (LLVM IR) with SMT (z3, QF_BV); counterexamples replayed natively"),
        "level": "model_checking",
        "level_note": "Every value of the symbolic inputs (and every interleaving, for concurrent harnesses) within: " + "; ".join(s["bounds"]) + ". Outside: " + "; ".join(s.get("outside", ["-"])) + ". Trusts the llsym engine (cross-validated against native runs of the same code on every run), rustc's IR, z3, sequentially consistent memory.",
    })
na = [{"property": p, "reason": specs.NOT_APPLICABLE[p]} for p in props if p not in specs.PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harness crates under harness/ use the public API through path dependencies."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
