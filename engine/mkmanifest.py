#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per check module present, the other properties as not applicable."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": "table extraction and constructor constant propagation on the typed AST; guard dominance on the CFG",
"C02": "enumeration/name-table extraction, totality and injectivity; stream-operator resolution",
"C03": "def-use flow from declared option to read to use over the call graph; exception-handler analysis",
"C04": "abstract interpretation of the table writers over separators, cells and instance sizes; path-state analysis of the per-pair results",
"C05": "interprocedural effect analysis",
"C06": "lockset and thread-lifetime (may-run) dataflow with conditional constant propagation",
"C07": "resource typestate on the CFG",
"C08": "throw-type and handler audit; guard dominance of the settings check",
"C09": "taint of clock/process sources; definite-initialisation analysis of members",
"C10": "typestate of the line-reading loop on the CFG",
"C11": "conversion and integer-quotient dataflow on the typed AST",
"C12": "freshness (stale-value) dataflow analysis over the preparation entry points of every model class",
"C13": "argument-role forwarding analysis over the call graph",
"C14": "append-count abstract interpretation on the CFG",
"C15": "value numbering in the domain of polynomials (abstract interpretation of tensor assignments)",
"C16": "constant propagation of sizes, append counting and index ranges",
"C17": "abstract interpretation of the CFG over equality patterns with rational-function value numbering",
"C18": "guard dominance and value flow in the minimizer front end",
"C19": "termination analysis of every natural loop: path-state changes of the tested quantity, dominating guards for symbolic steps (ranking arguments)",
}
NOTE = ("Decided from /repo's current sources (clang typed AST + CFG of every translation unit of the default build and the "
        "standalone programs). Trusts clang's front end, the extractor engine/astx.cpp and the rule in the module's "
        "docstring; code only built with the optional components (libcmaes, baryogenesis) is not analysed. ")
NOTES = json.load(open(os.path.join(V, "engine", "level_notes.json"))) if os.path.exists(os.path.join(V, "engine", "level_notes.json")) else {}
NA = {
"C20": "Global optimality of a stochastic minimisation of a runtime-parametrised function: no sound static argument on the source bounds where the deepest minimum lies.",
"C21": "Accuracy of a numerically integrated boundary-value problem depends on runtime parameters; no static bound in reach.",
"C22": "Completeness of phase tracing quantifies over all minima of a runtime-defined potential; not decidable from the source.",
"C23": "An approximation-error bound over a continuum (splines/expansions against integrals); needs numerical or solver-based proof, not static analysis of the source.",
"C24": "The counterterms are the solution of a numerically differentiated system; the equality holds up to numerical error at runtime values only, so no source-level analysis decides it.",
"C25": "The order of the temperatures follows from monotonicity of numerically computed actions and integrals, which no source-level analysis bounds.",
}
checks = []; na = []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    m = os.path.join(V, "checks", pid.lower() + ".py")
    if os.path.exists(m):
        doc = " ".join((ast.get_docstring(ast.parse(open(m).read())) or "").split())
        checks.append(dict(property=pid, quick_cmd="python3 checks/run.py " + pid, thorough_cmd="python3 checks/run.py " + pid,
                           evidence_file="evidence/%s.json" % pid, technique="static analysis: " + T[pid], level="other",
                           level_note=NOTE + "Rule: " + doc + " " + NOTES.get(pid, "")))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 engine/setup.py", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo. known_findings.json lists repaired and recorded defects."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
