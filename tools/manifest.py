#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list, the obligation table and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import table, lints
VG = "gated value-graph dataflow analysis of the type-checked AST: graph of the code compared with the graph of a specification (identity, canonical form, identity testing of the extracted expressions)"
LINT = {"C06": "interval dataflow for every array index, definite initialisation, and allocation/exception-path analysis", "C10": "linkage analysis over all namespace-scope definitions", "C11": "definite-initialisation dataflow over constructors and locals",
        "C12": "use-after-move dataflow over all functions and initialiser lists", "C13": "effect analysis: writable static storage, mutable members, const removal", "C30": "control-flow analysis of every function, closure and switch (no path reaches the end without a value or an exception)", "C16": "type-level dimensional analysis (dimension-carrying types; every formula must type-check)"}
NOTE = "Decided from /repo's current source on every run; nothing of the library is executed. Real-number semantics for double (rounding not modelled); njoy libraries replaced by interface models; a construct outside the analysis is reported UNDECIDED, never as a violation. "
NA = {"N01": "accuracy of a floating-point algorithm over a continuum of arguments: bounding the truncation and rounding error of the expansions and recurrences needs numerical error analysis that no static analysis in reach provides; the formulas themselves are C07 and C31",
      "N02": "finiteness and sign of sums over arbitrary resonance data at arbitrary energies are numerical facts (cancellation, near-singular matrices); no sound static bound is in reach"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]; obs = [o for o in table.OBS if o.prop == i or i in o.also]; ls = lints.LINTS.get(i, [])
    if not obs and not ls: na.append({"property": i, "reason": NA.get(i, "no check built yet")}); continue
    tech = "; ".join(x for x in ([LINT.get(i, "structural dataflow analysis")] if ls else []) + ([VG] if obs else []))
    checks.append({"property": i, "quick_cmd": "bash check %s quick" % i, "thorough_cmd": "bash check %s thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": table.LEVEL.get(i, "translation_validation" if obs else "other"), "level_note": NOTE + table.NOTES.get(i, "")})
json.dump({"version": 1, "setup_cmd": "bash build_extractor.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
