#!/usr/bin/env python3
"""write MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {
    "C34": "a statistical statement about random draws: no assertion over all inputs decides it, any finite noise realisation is possible",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "symbolic execution of the compiled LLVM IR; assertions decided by an SMT solver (z3), counterexamples replayed natively"
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "--cfg komunikilo_verif (src/csk.rs), --cfg komunikilo_verif_py (src/lib.rs, only for C40)", "enable": "RUSTFLAGS=\"--cfg komunikilo_verif --cfg komunikilo_verif_py\" (set by check.py when it builds /verif/harness)",
              "source_commits": ["4b70cc6", "4f27b30"]},
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", T), "level": "model_checking",
            "level_note": "Decided for all values within the bounds: " + c["bounds"] + ". Outside: " + (c.get("outside") or "nothing further") +
                          ". Trusts rustc's IR, the executor's model of it (each run is compared with native runs), libm within ulps, and z3."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
