"""C08: analyses and reports do not change what the caller handed in."""
import ast
from ..origins import Origins, EMPTY
from ..program import FuncInfo, ClassInfo, AnalysisBroken

ANALYSES = ["dc_analysis.op_analysis", "dc_analysis.dc_analysis", "ac.ac_analysis", "transient.transient_analysis",
            "pss.pss_analysis", "bfpss.bfpss", "shooting.shooting_analysis", "symbolic.symbolic_analysis",
            "pz.calculate_poles", "pz.calculate_singularities", "dc_analysis.dc_solve", "dc_analysis.mdn_solver",
            "dc_guess.get_dc_guess", "ahkab.run", "ahkab.queue", "ahkab.new_x0", "ahkab.icmodified_x0", "ahkab.get_op_x0",
            "dc_analysis.build_x0_from_user_supplied_ic", "dc_analysis.modify_x0_for_ic",
            "dc_analysis.generate_mna_and_N"]
CIRC = {"circ", "mc", "circuit", "circuit_instance"}
ELEM = {"elem", "element"}
ARGS = {"an_list", "analysis", "icdict", "subs", "sdict", "model_parameters", "postproc_list", "ic_list", "an", "options"}
# values an evaluation leaves in a non-linear device (hysteresis, cached evaluations): not part of the description
STATE = {"opdict", "last_vd", "is_on", "scaling"}
MODEL_STATE = {("MODEL", "V")}
REPORTS = {"__str__", "__repr__", "get_op_info", "get_netlist_elem_line", "print_model", "get_value_function", "get_description"}

def run(c, prog):
    c.rule("no-effect", "the code reachable from an analysis, report or construction call never writes through the circuit, its elements, models, node table, the options, or the caller's own lists and dictionaries", 60)
    c.rule("restored", "what is written temporarily is written back, from a value saved before, on every way out", 1)
    elems, models, circ = classes(prog)
    o = Origins(prog, elems, models, circ)
    ents = list(entries(prog, elems, models, circ))
    for round_ in range(2):
        o.memo.clear(); o.effects.clear(); o.fields_changed = False
        per = []
        for fi, args in ents: per.append((fi, o.entry(fi, args)))
        if not o.fields_changed: break
    c.analysed(*[f.qualname for f in o.functions])
    for fi, eff in per:
        bad = False
        for e in eff.values():
            if e.restoring: continue
            what = "%s.%s" % (e.tag[0] + ("." + e.tag[1] if e.tag[1] and e.tag[0] != "OPTS" else ""), e.attr)
            if e.attr in STATE or e.tag[1] in STATE or (e.tag[0], e.attr) in MODEL_STATE and "switch" in e.fi.module.name: continue
            if e.protected:
                c.ok("restored", "%s: %s in %s" % (fi.qualname, what, e.fi.qualname)); continue
            bad = True
            c.fail("no-effect", "%s written by %s" % (what, e.fi.qualname), "%s reaches a write to %s (%s) via %s" % (fi.qualname, what, e.kind, " > ".join(e.stack)), e.where)
        if not bad: c.ok("no-effect", fi.qualname)
    c.assumptions.append("state that an evaluation leaves in a device (%s) is not part of the circuit's description" % ", ".join(sorted(STATE)))
    c.assumptions.append("values reached through more than one attribute are attributed to the object they were first read from")

def classes(prog):
    comp = prog.cls("components.Component.Component")
    elems = [x for x in prog.classes.values() if comp in prog.mro(x)]
    names = {x.name for x in elems}
    for q in ("diode.diode", "switch.switch_device", "ekv.ekv_device", "mosq.mosq_device"):
        try:
            k = prog.cls(q)
            if k not in elems: elems.append(k)
        except AnalysisBroken: pass
    # parts of devices (e.g. the physical device of a MOS) count as elements
    for x in list(prog.classes.values()):
        if x not in elems and x.module in {e.module for e in elems if e.module.name.split(".")[-1] in ("diode", "switch", "ekv", "mosq")} and "model" not in x.name.lower() and not is_exc(prog, x): elems.append(x)
    models = [x for x in prog.classes.values() if "model" in x.name.lower() and not is_exc(prog, x)]
    return elems, models, prog.cls("circuit.Circuit")

def is_exc(prog, k):
    return any(isinstance(b, tuple) and b[1] and b[1].endswith(("Exception", "Error")) for m in prog.mro(k) for b in m.bases)

def seed(fi, cls_tag=None):
    args = {}
    for p in fi.params() + fi.kwonly() + ([fi.node.args.vararg.arg] if fi.node.args.vararg else []):
        if p in CIRC: args[p] = frozenset({("CIRC", "")})
        elif p in ELEM: args[p] = frozenset({("ELEM", "")})
        elif p in ARGS: args[p] = frozenset({("ARG:" + p, "")})
    if cls_tag is not None and fi.params(): args[fi.params()[0]] = frozenset({cls_tag})
    return args

def entries(prog, elems, models, circ):
    for q in ANALYSES:
        f = prog.has_func(q)
        if f is not None: yield f, seed(f)
    # the parameters of PSS and friends arrive as *args
    f = prog.has_func("pss.pss_analysis")
    if f is not None:
        a = {}
        if f.node.args.vararg: a[f.node.args.vararg.arg] = frozenset({("C", ("CIRC", ""))})
        if f.node.args.kwarg: a[f.node.args.kwarg.arg] = frozenset({("C", ("CIRC", ""))})
        yield f, a
    for mod in ("results", "printing", "plotting", "fourier", "csvlib"):
        m = prog.modules.get("%s.%s" % (prog.pkg, mod))
        if m is None: continue
        for f in prog.functions.values():
            if f.module is m: yield f, seed(f)
    for k in elems:
        for n, f in k.methods.items():
            if n in REPORTS: yield f, seed(f, ("ELEM", ""))
    for k in models:
        for n, f in k.methods.items():
            if n in REPORTS: yield f, seed(f, ("MODEL", ""))
    for n, f in circ.methods.items():
        if n in ("__str__", "print_circuit", "get_nodes_number", "is_nonlinear", "get_locked_nodes", "get_ground_node", "get_elem_by_name",
                 "find_vde", "find_vde_index", "has_duplicate_elem", "is_int_node_internal_only", "ext_node_to_int", "int_node_to_ext", "get_nodes", "get_node_voltage"):
            yield f, seed(f, ("CIRC", ""))
        elif n == "add_model": yield f, seed(f)
