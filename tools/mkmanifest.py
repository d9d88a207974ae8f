#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that are registered."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "checks")]
import registry

TECH = {
    "G": "TLA+ (CFG.tla, TraceGLL.tla) checked with TLC: sentences generated from the spec, traces of the generated GLL parser validated against it",
    "R": "TLA+ (LR1.tla, CFG.tla, TraceLR.tla) checked with TLC: the spec's canonical LR(1) machine; traces of the generated parser validated against it",
    "L": "TLA+ (Lexer.tla, TraceLex.tla) checked with TLC: the spec's longest-match lexer; traces of the generated lexer validated against it",
    "F": "TLA+ (CFG.tla, TraceFF.tla) checked with TLC: FIRST/FOLLOW least fixpoints of the spec against the sets the tool reports",
    "C": "TLA+ (Tool.tla, TraceTool.tla) checked with TLC: histories of tool runs generated from the spec, replayed on the real tool, logged file systems validated against it",
    "G08": "TLA+ (Runs.tla, TraceRuns.tla) checked with TLC: schedules of overlapping parses generated from the spec, replayed on race-detector builds, traces validated against it",
}
NOTE = {
    "G": "Exhaustive over all derivations of each sampled (grammar, input); grammars and inputs are sampled (hand-written corpus, random). Trusts TLC, the Go toolchain, the adapter that logs what the public API returns.",
    "R": "Exact LR(1)/derivation semantics per sampled (grammar, input); grammars and inputs are sampled. Trusts TLC, the Go toolchain and the adapter that logs reductions from AST functions.",
    "L": "Exact longest-match semantics per sampled (rules, input); rules and inputs are sampled, class boundaries are swept over all code points. Trusts TLC, Python's Unicode tables, the Go toolchain.",
    "F": "Exact sets for each sampled grammar. Trusts TLC and the parser of the tool's verbose file.",
    "C": "Histories are generated from the model; each is decided completely (every file of the scratch tree is hashed before and after). Trusts TLC, the Go toolchain and the harness.",
}
checks = []
for p in sorted(registry.CHECKS):
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "technique": TECH.get(p, TECH[p[0]]), "level": "model_checking", "level_note": NOTE.get(p, NOTE[p[0]])})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": i, "reason": "No check yet."} for i in ids if i not in registry.CHECKS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API, the generated files and the exit status. One check runs about 10-45 s (quick)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
