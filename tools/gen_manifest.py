#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C01": "value-numbering data-flow analysis of the matrix stamping, per terminal coincidence class, against documented element laws",
 "C02": "value-numbering data-flow analysis of the reactive stamping, per terminal coincidence class, against documented element laws",
 "C03": "value-numbering data-flow analysis of the excitation vectors of every analysis, against one convention",
 "C04": "value-numbering data-flow analysis of the symbolic stamping, compared cell by cell with the numeric one",
 "C05": "value-numbering data-flow analysis of the non-linear device assembly, per port coincidence class",
 "C06": "data-flow analysis of branch index counters and lookups, per element class",
 "C07": "value-numbering data-flow analysis of the initial condition vectors, per element class and orientation",
 "C08": "interprocedural write-effect analysis with must-restore on every exit",
 "C09": "path-sensitive typestate of the solver strategy loop and of failure propagation",
 "C10": "unit data flow of tolerances into convergence and error comparisons",
 "C11": "interprocedural exception-effect analysis from the parser's entry points",
 "C12": "writer/reader grammar extraction and comparison per element kind",
 "C13": "parameter plumbing data flow from netlist fields and specs to constructors and analyses",
 "C14": "data flow from each command-line option to the setting it documents",
 "C15": "renaming data flow through the subcircuit expansion",
 "C16": "read/write effect analysis of memoized evaluations against their cache keys",
 "C17": "ordering and effect analysis of the circuit bookkeeping methods",
 "C18": "symbolic list-shape analysis of result constructors and accessors",
 "C19": "algebraic normal form of currents, symbolic derivative compared with reported conductances per region",
 "C20": "algebraic normal form of each waveform per time region compared with its documentation",
 "C21": "algebraic normal form of the integration formulas, exactness on polynomial signals",
 "C22": "dominance and typestate analysis of the transient time loop",
 "C23": "resource typestate over all paths including exceptional ones",
 "C24": "algebraic normal form of sweep grids and data flow from grid points to solutions",
 "C25": "attribute, method and arity resolution per element class; undefined-name analysis",
}
NA = {
 "N01": "accuracy of floating-point Newton solutions quantifies over run-time matrices, conditioning and rounding; no sound static bound is in reach",
 "N02": "the true local truncation error depends on the exact solution of run-time differential equations; what the source decides (which points are accepted, exactness of formulas, units of the bound) is claimed as C10, C21, C22",
 "N03": "eigenvalue accuracy is a property of LAPACK on run-time matrices; the source-decidable part (the matrices handed over) is covered by C01, C02, C06",
 "N04": "the value of an FFT of an interpolated run-time waveform is numerical; not statically decidable",
 "N05": "depends on sympy's solver, whose behaviour on arbitrary equations is not decidable from ahkab's source; the equations handed to it are covered by C04",
 "N06": "convergence of Newton iterations on arbitrary non-linear circuits is a run-time numerical question without a sound static argument",
}
LEVEL = {}
LEVEL_NOTE = ("Sound for the constructs listed as decided in the evidence, under the analysis' model of numpy and python values; "
  "the abstraction enumerates every element class and terminal coincidence pattern (or every path, call site, class) of the current source; "
  "constructs outside the model are reported as undecided, never as violations. Trusted: the analyser in sa/, the reference tables taken from the documentation.")
built = sorted(f[:-3].upper() for f in os.listdir(V + "/sa/checks") if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py"))
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in built:
        m["checks"].append({"property": i, "quick_cmd": "python3 -m sa.run " + i, "thorough_cmd": "python3 -m sa.run " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + T[i], "level": "other", "level_note": LEVEL_NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "No hooks: nothing of ahkab is executed. See DESIGN.md."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
