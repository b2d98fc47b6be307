"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: all configurations up to a bound plus random sizes, against extended-precision zeros of Jacobi polynomials",
 "C02": "property-based testing (Hypothesis) against the 50-digit Lagrange basis",
 "C03": "property-based testing (Hypothesis) against exact integrals of the 50-digit Lagrange basis",
 "C04": "property-based testing (Hypothesis) against exact derivatives of the 50-digit Lagrange basis",
 "C05": "property-based testing and metamorphic relations (shift, scale) against multi-precision weights",
 "C06": "property-based testing: differential with the distinct points, exact reference matrices",
 "C07": "property-based testing: brute-force closest stencil and exact interpolant, metamorphic period shifts",
 "C08": "property-based testing over configurations and intervals against exact integrals of the Lagrange basis",
 "C09": "property-based testing: exact moments of shifted Legendre polynomials and stability function invariants",
 "C10": "property-based testing: all rooted trees against every table, and generated polynomial ODE systems",
 "C11": "property-based testing: algebraic relations between all forms, exact interpolation weights, padding as a metamorphic relation",
 "C12": "property-based testing against the 50-digit stability function, metamorphic relations in the parameters",
 "C13": "property-based testing against a rational-arithmetic reference model of each time integrator",
 "C14": "property-based testing against exact rational elimination",
 "C15": "property-based testing: characteristic polynomials of iteration matrices, pinned published tables",
 "C16": "property-based testing: differential between all ways of requesting, against a documented model of the interface",
 "C17": "stateful property-based testing: request histories with overwriting callers, compared with a fresh process",
 "C18": "stateful property-based testing: registration histories against a reference model of the registries",
 "C19": "property-based testing against an extended-precision reference implementation of the sweeps",
 "C20": "property-based testing: predicted orders against Taylor coefficients of one step",
 "C21": "property-based testing against 50-digit least squares, metamorphic relations",
 "C22": "property-based testing: growth bounds, time-reversal round trips, invariants of generated nonlinear systems",
 "C23": "property-based testing: all rooted trees with two kinds of nodes, and generated split polynomial ODE systems",
}
mods = {}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    src = open(os.path.join(V, "pbt", "props", i.lower() + ".py")).read()
    ns = {}
    a = src[src.index("ASSUMPTIONS"):]
    exec(a[:a.index("]\n") + 2], ns)
    checks.append({"property": i, "quick_cmd": f"python3 pbt/run.py {i} --tier quick",
                   "thorough_cmd": f"python3 pbt/run.py {i} --tier thorough",
                   "technique": TECH[i], "level": "exploration",
                   "level_note": "No counterexample among the generated cases (counts and samples in the evidence file). Assumes: "
                                 + "; ".join(ns["ASSUMPTIONS"]) + "."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks import qmat from /repo as it is. Findings in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
