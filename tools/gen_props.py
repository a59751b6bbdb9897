#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Static equations hold exactly every linear element's law",
 "For every circuit, the static system of equations that the numeric analyses build contains, for each linear element, exactly the terms of its documented law (resistor, controlled sources, voltage-defined branches) and of Kirchhoff's current law at its terminals, each once and with the documented sign, whichever of its terminals coincide or are grounded. Capacitors, mutual couplings and non-linear devices contribute nothing to it. Re-assigning the value of a resistor keeps its resistance and conductance reciprocal.",
 ["inputs"], "all circuits: every linear element class, every way its terminals (and those it senses) may coincide with each other or with ground, every position in the element list",
 "the reference netlists exercise one topology per element; a wrong sign, a lost or overwritten term shows only for particular terminal coincidences or element mixes",
 ["ahkab/dc_analysis.py", "ahkab/utilities.py", "ahkab/components/Resistor.py", "ahkab/components/sources/*.py", "ahkab/circuit.py"],
 [("matrix stamping", "dc_analysis.generate_mna_and_N"), ("row/column growth", "utilities.expand_matrix"), ("voltage-defined predicate", "circuit.is_elem_voltage_defined")])

prop("C02", "Reactive terms are right and the same for time and frequency analyses",
 "In transient, periodic-steady-state, pole-zero and AC analyses, each capacitor contributes its capacitance between its own two nodes, each inductor its inductance to its own branch equation, and each mutual coupling its mutual inductance to the branch equations of exactly the two inductors it couples, with the documented signs. No other element contributes, and the time-domain and the frequency-domain matrices are identical, including the minimum node-to-ground capacitance.",
 ["inputs"], "all circuits: any number and order of reactive and voltage-defined elements, any coincidence of terminals",
 "the order of inductors among other voltage-defined elements and coupled/uncoupled mixes are unbounded; tests hold a few fixed netlists",
 ["ahkab/transient.py", "ahkab/ac.py", "ahkab/components/Inductor.py", "ahkab/components/Capacitor.py", "ahkab/circuit.py"],
 [("time-domain dynamic matrix", "transient.generate_D"), ("AC dynamic matrix", "ac._generate_AC"), ("coupled inductor lookup", "InductorCoupling.get_other_inductor"), ("mutual inductance", "Circuit.add_inductor_coupling")])

prop("C03", "Each independent source excites exactly once, one convention everywhere",
 "Every independent voltage or current source enters the equations of each analysis exactly once: its constant value through the static term if it is constant, its value at the very instant being solved if it is time-dependent, and its complex amplitude (magnitude and phase) in AC. Operating point, sweeps, transient, shooting, brute-force steady state and AC use the same passive sign convention, and grounded terminals are skipped. A time-dependent source asked for its value without a time gives its DC value when it has one.",
 ["inputs", "configurations"], "all mixes and orders of constant and time-dependent sources, with either terminal grounded, in every analysis",
 "a source counted twice, dropped, or offset by one branch only shows with particular orders of sources and analyses; most tests use one grounded source first in the netlist",
 ["ahkab/dc_analysis.py", "ahkab/bfpss.py", "ahkab/shooting.py", "ahkab/ac.py", "ahkab/components/sources/VSource.py", "ahkab/components/sources/ISource.py"],
 [("static excitation", "dc_analysis.generate_mna_and_N"), ("time-dependent excitation", "dc_analysis.dc_solve, bfpss._build_Tt, shooting._build_Tass_static_vector"), ("AC excitation", "ac._generate_Nac"), ("source value selection", "VSource.V, ISource.I")])

prop("C04", "Symbolic equations are the numeric ones with symbols for values",
 "For every circuit, the equations the symbolic analysis solves are those of the numeric analyses with element values replaced by their symbols (and d/dt by s when reactive elements are enabled): same terms, same signs, same unknowns in the same order, and mutual couplings and controlled sources included. An element flagged as not symbolic enters with its numeric value.",
 ["inputs", "configurations"], "all circuits, symbolic and non-symbolic elements of every class, with and without reactive elements, with and without output resistances",
 "tests compare a handful of solved references; no test marks an element non-symbolic, and coincident terminals are not covered",
 ["ahkab/symbolic.py", "ahkab/dc_analysis.py", "ahkab/transient.py"],
 [("symbolic stamping", "symbolic.generate_mna_and_N"), ("unknowns", "symbolic.get_variables"), ("growth", "symbolic._expand_matrix")])

prop("C05", "Non-linear devices are assembled with correct ports, signs and ground skips",
 "Wherever an analysis linearizes non-linear devices (operating point, transient, AC, shooting, brute-force steady state, pole-zero), each output port's current is added at its first node and subtracted at its second, each conductance enters with the sign pattern given by the output port and the driving port it refers to, port voltages are differences of the unknowns at the port's nodes, and grounded nodes never touch an unknown. Devices that stamp themselves contribute the same terms as their currents and conductances.",
 ["inputs"], "all non-linear devices, any number of output and driving ports, every grounding pattern of their nodes, every candidate solution",
 "Newton's method often converges with a wrong Jacobian entry, only slower or for fewer circuits, and grounded driving ports are rare in tests",
 ["ahkab/dc_analysis.py", "ahkab/bfpss.py", "ahkab/shooting.py", "ahkab/ac.py", "ahkab/pz.py", "ahkab/diode.py", "ahkab/components/TunnelJunction.py"],
 [("Newton stamping", "dc_analysis._update_J_and_Tx"), ("AC linearization", "ac._generate_J"), ("brute-force PSS", "bfpss.bfpss"), ("shooting", "shooting._get_variable_MAass_and_Tass"), ("self stamps", "diode.istamp/gstamp, TunnelJunction.istamp/gstamp")])

prop("C06", "Branch currents have one numbering shared by every producer and consumer",
 "The current unknown of the k-th voltage-defined element (voltage source, voltage-controlled or current-controlled voltage source, inductor, or user element declaring itself so), in circuit order, is the k-th unknown after the node voltages in every matrix, excitation, initial condition, lookup and result of every analysis. Elements of other kinds never consume a position.",
 ["inputs"], "all circuits: any order and mix of voltage-defined and other elements",
 "an index slip is invisible unless a circuit mixes the affected classes in an unlucky order",
 ["ahkab/circuit.py", "ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/ac.py", "ahkab/bfpss.py", "ahkab/shooting.py", "ahkab/pz.py", "ahkab/results.py", "ahkab/symbolic.py"],
 [("predicate", "circuit.is_elem_voltage_defined"), ("lookups", "Circuit.find_vde_index, Circuit.find_vde"), ("counters", "every loop over the circuit that indexes branch currents"), ("result labels", "results.*_solution constructors")])

prop("C07", "Initial conditions land on the variable they name",
 "A user-supplied initial condition for a node voltage or a branch current sets exactly that unknown, and every other unknown starts from zero. An element's own initial condition fixes that capacitor's or diode's terminal voltage or that inductor's branch current, whatever its orientation, including when a terminal is grounded and when the condition is zero.",
 ["inputs"], "all initial-condition directives and element conditions, all node numberings, orientations and groundings",
 "tests set conditions on ungrounded-anode elements only; a grounded anode or a zero condition is not exercised",
 ["ahkab/dc_analysis.py"],
 [("directive", "dc_analysis.build_x0_from_user_supplied_ic"), ("element conditions", "dc_analysis.modify_x0_for_ic")])

prop("C08", "Analyses leave the circuit and the simulator options as they found them",
 "Running an analysis or printing its results never changes an element, a model or the node table of the caller's circuit, nor a global simulator option: whatever a sweep temporarily modifies is restored on every way out, including errors. Queued analyses and parsed parameter sets handed in by the caller are not modified either. (The internal evaluation state of non-linear devices, such as a hysteresis state or cached evaluations, is not meant here.)",
 ["histories", "fault_sequences"], "all sequences of analyses on one circuit, including those that fail or raise midway",
 "tests build one circuit, run it once and discard it; failures midway through a sweep are not provoked",
 ["ahkab/dc_analysis.py", "ahkab/ahkab.py", "ahkab/ac.py", "ahkab/transient.py", "ahkab/pz.py", "ahkab/circuit.py", "ahkab/printing.py", "ahkab/options.py"],
 [("sweep restore", "dc_analysis.dc_analysis"), ("queue", "ahkab.run, ahkab.queue"), ("model insertion", "Circuit.add_model")])

prop("C09", "A result is reported only for the actual circuit, and only if it converged",
 "No analysis returns a solution unless its last non-linear solve converged: a failed solve yields no result or an error. When source or gmin stepping is used, the solution accepted is that of the circuit with its full sources and with only the requested minimum conductance, never of an intermediate step.",
 ["inputs", "histories"], "all circuits and option settings, every combination of solution strategies that fail and succeed, in every analysis",
 "tests converge with the standard method; the fall-back strategies and failures run only on hard circuits",
 ["ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/ac.py", "ahkab/shooting.py", "ahkab/bfpss.py", "ahkab/utilities.py"],
 [("homotopy loop", "dc_analysis.dc_solve, get_solve_methods, set_next_solve_method, more_solve_methods_available"), ("Newton", "dc_analysis.mdn_solver"), ("failure propagation", "op_analysis, dc_analysis, ac_analysis, transient_analysis, shooting_analysis, bfpss")])

prop("C10", "Voltage tolerances judge voltages, current tolerances judge currents",
 "In every convergence test and truncation-error bound, node-voltage unknowns are compared with the voltage tolerances and branch-current unknowns with the current tolerances, while the residuals of node equations (currents) and branch equations (voltages) are compared with the current and voltage tolerance respectively. The Newton solver accepts only when both the updates and the residuals of both groups are within tolerance.",
 ["inputs", "configurations"], "all tolerance settings and circuits with any number of branch currents, in operating-point, transient and steady-state analyses",
 "with default tolerances a swap only shifts accuracy by orders of magnitude; no test varies one tolerance alone",
 ["ahkab/utilities.py", "ahkab/transient.py", "ahkab/bfpss.py", "ahkab/results.py", "ahkab/dc_analysis.py"],
 [("checks", "utilities.convergence_check, voltage_convergence_check, current_convergence_check, custom_convergence_check"), ("LTE bound", "transient.transient_analysis"), ("PSS", "bfpss._convergence_check"), ("gmin check", "results.op_solution.gmin_check")])

prop("C11", "A malformed netlist is reported as a parse error, never another exception",
 "Whatever text a netlist contains, parsing it either succeeds or raises the documented netlist parse error: missing or surplus fields, non-numeric values, unknown models, directives, options or subcircuits never surface as another kind of exception.",
 ["inputs"], "all netlist texts",
 "tests only parse well-formed netlists",
 ["ahkab/netlist_parser.py", "ahkab/time_functions.py", "ahkab/ahkab.py"],
 [("entry", "netlist_parser.parse_circuit, main_netlist_parser"), ("element parsers", "netlist_parser.parse_elem_*"), ("directives", "parse_models, parse_analysis, parse_single_analysis, parse_ics, parse_postproc, parse_include_directive"), ("numbers", "netlist_parser.convert_units")])

prop("C12", "Elements print themselves as netlist lines the parser reads back",
 "The netlist line that an element (or the whole circuit) prints uses only keywords and field order that the netlist parser accepts for that kind of element, and carries every node and every parameter that defines the element's behaviour in the field the parser assigns to it. This includes independent sources with DC, AC and time-dependent parts.",
 ["inputs"], "all elements that can be built, with any combination of optional parameters",
 "no test parses a printed circuit",
 ["ahkab/components/*.py", "ahkab/components/sources/*.py", "ahkab/diode.py", "ahkab/ekv.py", "ahkab/mosq.py", "ahkab/switch.py", "ahkab/time_functions.py", "ahkab/netlist_parser.py"],
 [("writers", "get_netlist_elem_line of every element class, __str__ of time functions"), ("readers", "netlist_parser.parse_elem_*, parse_time_function")])

prop("C13", "Every accepted parameter reaches the component or analysis it configures",
 "A parameter accepted in an element, model, time-function or analysis line of a netlist, or by the corresponding construction call, is passed on to the constructed object under its own meaning: none is silently dropped, swapped with another, or replaced by a default. Positional and keyword forms assign the same meaning.",
 ["inputs"], "all optional and mandatory parameters of every element, model, time function, analysis and post-processing directive",
 "tests use the mandatory parameters and few options; a dropped optional parameter changes nothing they look at",
 ["ahkab/netlist_parser.py", "ahkab/circuit.py", "ahkab/ahkab.py", "ahkab/time_functions.py", "ahkab/fourier.py", "ahkab/pz.py", "ahkab/transient.py", "ahkab/dc_analysis.py", "ahkab/ac.py", "ahkab/pss.py", "ahkab/symbolic.py"],
 [("element parsers", "netlist_parser.parse_elem_*"), ("construction", "Circuit.add_*"), ("analysis specs", "module level specs and the analysis signatures, ahkab.new_*"), ("dispatch", "ahkab.run, ahkab.analysis")])

prop("C14", "Every command-line option takes effect as documented",
 "Each command-line switch changes exactly the simulator setting it documents, converted to that setting's type, and leaving it out keeps the default; the two documented values of the starting-guess switch enable and disable the guess. The input and output files and verbosity given are the ones used.",
 ["configurations"], "all combinations of command-line switches and values",
 "tests run the library, not the command line",
 ["ahkab/__main__.py", "ahkab/options.py", "ahkab/ahkab.py"],
 [("option parsing", "__main__._cli"), ("settings", "options module"), ("readers of the settings", "every use of options.*")])

prop("C15", "Subcircuit instances are isolated copies wired only through their ports",
 "Expanding a subcircuit call maps each declared port to the caller's node given for it, keeps ground global, and renames every other node and every element of the body with the instance's own prefix, so that two instances never share internals. References between elements of the body (controlling sources, coupled inductors) follow the renaming.",
 ["inputs"], "all subcircuit definitions and any number of instances, with any element kinds inside",
 "tests instantiate one simple subcircuit; controlled sources or couplings inside a body are not covered",
 ["ahkab/netlist_parser.py", "ahkab/circuit.py"],
 [("expansion", "netlist_parser.parse_sub_instance, parse_sub_declaration"), ("node renaming", "circuit._circuit_wrapper")])

prop("C16", "Cached device evaluations depend only on their arguments",
 "Evaluating a non-linear device twice with the same arguments gives the same current and conductance as evaluating it afresh: cached evaluations never depend on, or survive, a change of state that is not part of the cache key (temperature, device geometry, model parameters, simulator options). Two devices sharing a model do not influence each other's results.",
 ["histories"], "all sequences of evaluations, parameter and temperature changes on any set of devices sharing models",
 "needs a change of state between two evaluations at identical voltages; tests evaluate each model in one state",
 ["ahkab/utilities.py", "ahkab/diode.py", "ahkab/mosq.py", "ahkab/ekv.py", "ahkab/components/TunnelJunction.py"],
 [("cache", "utilities.memoize"), ("memoized evaluations", "methods decorated with memoize in diode, mosq, TunnelJunction"), ("state", "set_temperature of models and devices")])

prop("C17", "Node and element bookkeeping stays consistent through every edit",
 "After any sequence of adding and removing elements and nodes, external and internal node names map one-to-one, internal node numbers are exactly 0 to N-1 with ground as 0, every terminal of every element is a known node, and a rejected addition leaves the circuit unchanged. Looking an element up by name ignores case consistently, and duplicate names are recognized the same way.",
 ["histories"], "all sequences of add and remove operations, valid or rejected",
 "tests add a few nodes and remove a linear element once; interleavings and rejections are not explored",
 ["ahkab/circuit.py", "ahkab/utilities.py"],
 [("node table", "Circuit.add_node, create_node, new_internal_node, remove_elem"), ("lookups", "get_elem_by_name, find_vde_index, find_vde, has_duplicate_elem"), ("validation", "Circuit.add_*")])

prop("C18", "Result variables, units and data rows always correspond",
 "In every solution object the i-th variable name, its unit and the i-th data row refer to the same unknown, in the order the solver uses; sweep variable first where there is one. Reading a variable back by any capitalization of its name returns that row, what is written to file is what is returned, and power and operating-point reports use each element's own voltage and current.",
 ["inputs"], "all circuits and analyses, any number and order of elements, with or without zeros, one or many points",
 "tests check a few named variables of small circuits; index slips and empty results need particular mixes",
 ["ahkab/results.py", "ahkab/csvlib.py", "ahkab/printing.py"],
 [("constructors", "results.op_solution, ac_solution, dc_solution, tran_solution, pss_solution, pz_solution"), ("reports", "results.op_solution._get_elements_op"), ("files", "csvlib.write_csv, load_csv")])

prop("C19", "Every device's conductances are the derivatives of its currents",
 "For each built-in non-linear device whose current is given in closed form, the conductance it reports with respect to each driving voltage is exactly the derivative of the current it reports, in every operating region and for both polarities, apart from a documented minimum conductance and the limits that guard exponentials against overflow. Reported device powers and initial guesses refer to the device's own ports.",
 ["inputs"], "all bias voltages, regions, polarities, geometries and model parameters",
 "a wrong derivative only slows Newton's method or makes rare circuits fail, so value-based tests pass",
 ["ahkab/diode.py", "ahkab/mosq.py", "ahkab/switch.py", "ahkab/components/TunnelJunction.py", "ahkab/ekv.py"],
 [("currents", "get_i, get_ids, i"), ("conductances", "get_gm, get_gmb, get_gd, g")])

prop("C20", "Time functions compute the documented waveforms",
 "At every instant, each built-in source waveform (sinusoid, exponential, pulse, frequency and amplitude modulation, piecewise linear) has the value its documentation gives, including before its delay and exactly at its breakpoints; omitted optional parameters take the documented defaults.",
 ["inputs"], "all instants and all parameter values",
 "tests compare sampled waveforms for single parameter sets; phases, delays, damping and second edges are mostly left at defaults",
 ["ahkab/time_functions.py", "ahkab/netlist_parser.py"],
 [("waveforms", "time_functions.pulse, sin, exp, sffm, am, pwl"), ("defaults", "time_functions.*_spec")])

prop("C21", "Integration formulas are exact for constant and linear signals",
 "The one-step integration formulas approximate the derivative of the unknowns consistently: for every step they are exact on constant signals and on ramps, the trapezoidal rule also on parabolas, and the companion model used by transient and steady-state analyses derives from the same formula. Predicted values and stored derivatives refer to the step actually taken, and the error coefficients used by the step control are those of the formulas. Each method name selects its own formula.",
 ["inputs"], "all step sizes and signal histories",
 "a consistent-looking coefficient slip changes results by an amount below the reference tolerances on smooth test circuits",
 ["ahkab/implicit_euler.py", "ahkab/trap.py", "ahkab/transient.py", "ahkab/shooting.py", "ahkab/bfpss.py"],
 [("formulas", "implicit_euler.get_df, get_df_coeff, trap.get_df"), ("use", "transient.transient_analysis, shooting._build_static_MAass_and_MBass, bfpss._build_CMAT")])

prop("C22", "Transient simulation only records accepted, ordered time points",
 "A transient result holds only points after the start time whose solve converged and whose estimated error was accepted, each at the time it was solved for, strictly increasing, never more than the requested step apart and ending at the requested stop time. A rejected step leaves time and history untouched and is retried with a smaller step; a failed simulation returns no result.",
 ["histories", "inputs"], "all sequences of accepted, rejected and failed steps, all methods and step settings",
 "rejections depend on the waveform; tests look at final agreement only",
 ["ahkab/transient.py"],
 [("time loop", "transient.transient_analysis"), ("step bound", "transient.check_step"), ("history", "transient.dfbuffer")])

prop("C23", "Files and print settings are released on every way out",
 "Every file the simulator opens is closed on every path, including errors, and temporarily changed printing settings are restored when the block that changed them ends, normally or not.",
 ["fault_sequences"], "all inputs and errors in between",
 "tests do not provoke errors between opening and closing, and leaked handles are invisible to them",
 ["ahkab/csvlib.py", "ahkab/results.py", "ahkab/netlist_parser.py", "ahkab/printing.py", "ahkab/transient.py", "ahkab/testing.py"],
 [("csv", "csvlib"), ("netlist reading", "netlist_parser.parse_circuit"), ("print options", "printing.printoptions")])

prop("C24", "Sweep grids start and stop where asked and are evenly spaced",
 "A linear or logarithmic sweep visits exactly the requested number of points, the first being the start value and the last the stop value, with constant difference or constant ratio, and indexing the grid gives the same points as iterating over it. DC and AC sweeps assign to each grid point the solution computed for that very value.",
 ["inputs"], "all start, stop and point counts",
 "tests check a couple of grids",
 ["ahkab/utilities.py", "ahkab/dc_analysis.py", "ahkab/ac.py"],
 [("grids", "utilities.log_axis_iterator, utilities.lin_axis_iterator"), ("use", "dc_analysis.dc_analysis, ac.ac_analysis")])

prop("C25", "Every element honours the interface the analyses rely on",
 "Every element class provides, with compatible arguments, each attribute and method that the analyses, the result containers and the circuit use on elements of its kind, and no code path uses a name that is not defined. In particular driving and output ports, starting guesses (one per port) and initial conditions have the shape their users expect, for every combination of optional arguments.",
 ["inputs", "programs"], "all element classes, all optional constructor arguments, all analyses",
 "an undefined name or a wrong shape fails only on the path that uses it; many option combinations are untested",
 ["ahkab/components/*.py", "ahkab/diode.py", "ahkab/ekv.py", "ahkab/mosq.py", "ahkab/switch.py", "ahkab/dc_guess.py", "ahkab/circuit.py", "ahkab/results.py"],
 [("element classes", "components, diode, ekv, mosq, switch"), ("users", "dc_guess.get_dc_guess, dc_analysis, results, circuit")])

# --- properties that quantify over run-time numbers: stated, not claimed -------------------
prop("N01", "Converged solutions are accurate",
 "The numerical solution of every analysis approximates the exact solution of the circuit equations within the requested tolerances, for well-posed circuits.",
 ["inputs"], "all circuits and tolerances", "only sampled circuits have references",
 ["ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/ac.py"], [("Newton iteration", "dc_analysis.mdn_solver")])
prop("N02", "Transient truncation error stays below the requested bound",
 "With step control on, the local truncation error of every recorded transient point is below the tolerance requested.",
 ["inputs"], "all circuits, methods and tolerances", "the bound depends on the waveform",
 ["ahkab/transient.py", "ahkab/gear.py", "ahkab/trap.py"], [("step control", "transient.transient_analysis")])
prop("N03", "Poles and zeros are those of the linearized circuit",
 "Pole-zero analysis returns the poles of the linearized network and the zeros of the requested transfer function, to numerical precision.",
 ["inputs"], "all linear or linearized circuits", "only sampled networks have references",
 ["ahkab/pz.py"], [("eigenvalues of the time-constant matrix", "pz.calculate_singularities")])
prop("N04", "Spectra and distortion figures are those of the waveform",
 "Fourier and FFT post-processing return the spectrum of the interpolated waveform over the documented interval and the corresponding distortion figures.",
 ["inputs"], "all waveforms and settings", "only sampled waveforms",
 ["ahkab/fourier.py"], [("resampling and FFT", "fourier.fft, fourier.fourier")])
prop("N05", "Symbolic solutions satisfy the symbolic equations",
 "The closed-form solution returned by symbolic analysis satisfies the equations it was derived from, and the gains, poles and zeros follow from it.",
 ["inputs"], "all circuits", "only sampled circuits have references",
 ["ahkab/symbolic.py"], [("solution", "sympy.solve")])
prop("N06", "A circuit that has a solution is solved",
 "For every circuit with a unique operating point, the solver strategies find it within the iteration limits.",
 ["inputs"], "all circuits", "only sampled circuits",
 ["ahkab/dc_analysis.py", "ahkab/dc_guess.py"], [("strategies", "dc_analysis.dc_solve")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
