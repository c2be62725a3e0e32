#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
try:
    from na import NA
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i + ".py")):
        checks.append(dict(
            property=i, quick_cmd="python3-vt check.py %s" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="bounded symbolic execution of the real Python code (instrumented AST, symbolic strings and integers) with z3 deciding every branch and assertion",
            level="model_checking",
            level_note="Exhaustive over all input values within the stated bounds and domains (evidence: bounds, assumptions). Trusts z3, the string/regex/format encoding in sx/ (compared with the plain interpreter on a sample of all paths in every run) and the reference model in the harness; counterexamples are replayed on the uninstrumented code before they are reported."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3-vt -c \"import z3; print(z3.get_version_string())\"", checks=checks, not_applicable=na,
         notes="All checks: python3-vt check.py <id> [--tier thorough]; no hooks in /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
