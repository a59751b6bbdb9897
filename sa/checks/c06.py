"""C06: one numbering of the branch currents."""
from fractions import Fraction
from .. import terms as T
from ..elements import *
from ..elements import Case, VDE, USER, SPECS, BYNAME, ID, nodes_of, victim, Stamper, owned_classes
from ..interp import *
from ..interp import SliceV
from ..terms import sym, atom, num, Poly

NV = sym("NV")
def first_part(s):
    """terminals all distinct, none grounded"""
    return tuple(range(len(s.terminals)))
def all_cases():
    for s in SPECS: yield Case(s, first_part(s))
    yield Case(USER, (0, 1), {}, "declares is_voltage_defined")
    yield Case(USER, (0, 1), {"is_voltage_defined": False}, "declares is_voltage_defined = False")
def is_vde(case): return case.spec.name in VDE or (case.spec.name == "UserVDE" and case.flags.get("is_voltage_defined", True))
OWNED = VDE | {"UserVDE"}
def cname(case): return case.spec.name + ((" that " + case.label) if case.label else "")

def run(c, prog):
    c.rule("kind", "an element owns a branch current iff it is a voltage source, a voltage- or current-controlled voltage source, an inductor or a user element declaring itself voltage-defined", 12)
    c.rule("lookup", "looking an element up by itself or by its name gives the number of voltage-defined elements before it; the inverse lookup finds the element with that number", 12)
    c.rule("results", "the variables of every result type are the node voltages 1..N-1 in node order followed by the current of every voltage-defined element in circuit order", 60)
    c.rule("op-info", "reports read the current of an element at its own position", 10)
    c.rule("pole-zero", "the pole-zero analysis excites and reads an inductor, or a voltage source, at its own branch", 4)
    c.rule("position", "every matrix, excitation and initial condition of every analysis uses the rows and columns N-1 + (position of the element, or of the element it senses) and no other branch", 120)
    c.guard("kind", kind, c, prog)
    c.guard("lookup", lookup, c, prog)
    c.guard("find_vde", inverse, c, prog)
    c.guard("results", results, c, prog)
    c.guard("symbolic", symbolic, c, prog)
    c.guard("op-info", op_info, c, prog)
    c.guard("pole-zero", pz, c, prog)
    positions(c, prog)

class Positions(object):
    """collects from the checks of the matrices, excitations and initial conditions
    what concerns the place of branch currents, on circuits without coinciding terminals"""
    positions = True
    def __init__(self, c): self.c = c
    def keep(self, case): return case.part == first_part(case.spec)
    def rule(self, *a): pass
    def guard(self, what, fn, *a, **k): return self.c.guard("position: " + what, fn, *a, **k)
    def ok(self, rule, cons): self.c.ok("position", cons)
    def fail(self, rule, cons, msg, where=""): self.c.fail("position", cons, msg, where)
    def check(self, cond, rule, cons, msg="", where=""):
        (self.ok if cond else self.fail)(rule, cons, *(() if cond else (msg, where)))
    def undecided(self, rule, cons, why): self.c.undecided("position", cons, why)
    def analysed(self, *q): self.c.analysed(*q)

def positions(c, prog):
    from . import c02, c03, c04, c07
    from .. import stampspec as S
    from .c01 import flags, pick2
    p = Positions(c)
    def static():
        fi = prog.func("dc_analysis.generate_mna_and_N")
        st = Stamper(prog, fi, lambda ip, circ: ([circ], {"verbose": T.ZERO}), pick=pick2, opaque=("utilities.check_ground_paths",), opts={"quiet_args": True})
        compare(p, "position", fi.where, st, S.cases(flags), S.static)
    p.guard("static matrix", static)
    for q in ("transient.generate_D", "ac._generate_AC"): p.guard(q, c02.one, p, prog, q)
    for f in (c03.dc, c03.bf, c03.sh, c03.ac): p.guard(f.__name__, f, p, prog)
    c04.HV = c04.numeric_hv(prog)
    p.guard("symbolic", c04.equations, p, prog)
    class Conditions(Positions):
        def fail(self, rule, cons, msg, where=""):
            if any(w in msg for w in ("branch current", "writes the unknown", "sets entry")): self.c.fail("position", cons, msg, where)
    results_read(c, prog)
    p.guard("starting guess", guess, c, prog)
    k = Conditions(c)
    k.guard("element conditions", c07.element, k, prog)
    k.guard("directive", c07.directive, k, prog)

READ = ("a current, as named", "a current", "a current (modulus)", "a current (phase)", "asarray()", "values()", "items()", "its own current", "total power")

def results_read(c, prog):
    """the values found under the name of a current, on the circuits of C18 that mix element classes"""
    from . import c18
    class Read(Positions):
        def mine(self, cons): return cons.endswith(READ)
        def ok(self, rule, cons):
            if self.mine(cons): self.c.ok("position", cons)
        def fail(self, rule, cons, msg, where=""):
            if self.mine(cons): self.c.fail("position", cons, msg, where)
    p = Read(c)
    for which in ("mixed", "sources first"):
        for cl in c18.SOL: p.guard("%s, %s" % (cl.name, which), c18.solution, p, prog, cl, which, 2, False if cl.name == "ac_solution" else None)
        p.guard("op, %s" % which, c18.operating_point, p, prog, which)

def guess(c, prog):
    """the starting guess of a nonlinear circuit has a zero for every branch current"""
    fi = prog.func("dc_guess.get_dc_guess")
    def bind(ip, circ): return [circ], {"verbose": num(0)}
    g = Gen(prog, fi, bind)
    cases = list(all_cases())
    g.st.learn([x for x in cases if not x.label] + [x for x in cases if x.label and is_vde(x)])
    found = set()
    for case in cases:
        if case.spec.name not in ("VSource", "diode"): continue
        for r in g.st.runs(case, 2):
            if r.outcome != "return": continue
            for a in r.ip.arrays:
                for d in a.shape:
                    if isinstance(d, Poly): found |= {frozenset(q[1]) for q in T.atoms(d) if q[0] == "tot" and len(q) == 2}
    if not found: c.undecided("position", "starting guess", "the number of currents in it was not found")
    for f in found:
        c.check(f == OWNED, "position", "starting guess: %s" % ", ".join(sorted(f)), "the guess has an entry for each %s, the unknowns for each %s" % (", ".join(sorted(f)), ", ".join(sorted(OWNED))), fi.where)
    c.analysed(fi)

def kind(c, prog):
    fi = prog.func("circuit.is_elem_voltage_defined")
    for case in all_cases():
        def make(script): return Interp(prog, script)
        def go(ip): return ip.truth(ip.call_function(fi, [victim(prog, case.spec, case.part, case.flags)]))
        for r in explore(make, go):
            if r.outcome == "unsupported": c.undecided("kind", cname(case), r.error); continue
            got = r.value if r.outcome == "return" else r.error
            c.check(got == is_vde(case), "kind", "%s is %svoltage-defined" % (cname(case), "" if is_vde(case) else "not "), "gives %s" % (got,), fi.where)
    c.analysed(fi)

class Gen(object):
    """drives one function over every element class in a circuit of arbitrary other elements"""
    def __init__(self, prog, fi, bind, **k):
        lr = k.pop("learn_raises", False)
        self.st = Stamper(prog, fi, bind, **k)
        self.st.learn_raises = lr
        self.fi = fi
    def each(self, cases):
        cases = list(cases)
        self.st.learn([x for x in cases if not x.label] + [x for x in cases if x.label and is_vde(x)])
        for case in cases:
            for r in self.st.runs(case, 2): yield case, r

def own(p):
    """branch position of the element itself, named uniformly"""
    return T.subst(p, lambda a: sym("OWN") if (a[0] == "cnt" and len(a) == 2 and frozenset(a[1]) == OWNED) or (a[0] == "vde" and is_self(a[1])) else None) if isinstance(p, Poly) else p
def is_self(x):
    from ..elements import is_self as f
    return f(x)

def lookup(c, prog):
    fi = prog.func("circuit.Circuit.find_vde_index")
    for how in ("element", "name"):
        def bind(ip, circ):
            if ip.phase == 1: return [circ, sym("id:zz")], {"verbose": num(0)}      # another element is sought
            return [circ, ip.victims[0] if how == "element" else ID], {"verbose": num(0)}
        st = Stamper(prog, fi, bind, opts={"distinct": DISTINCT | {("sym", "id:zz")}})
        st.learn_raises = True
        cases = list(all_cases())
        st.learn([x for x in cases if not x.label] + [x for x in cases if x.label and is_vde(x)])
        for case in cases:
            for r in st.runs(case, 2):
                lab = "find_vde_index(%s of %s)" % (how, cname(case))
                if r.outcome == "unsupported": c.undecided("lookup", lab, r.error); continue
                if r.outcome == "raise":
                    c.check(not is_vde(case) and r.error.name == "ValueError", "lookup", lab, "ends in %s" % r.error, fi.where); continue
                got = own(r.ip.result)
                if not is_vde(case): c.fail("lookup", lab, "gives %s for an element without branch current" % T.show(got), fi.where)
                else: c.check(isinstance(got, Poly) and got == sym("OWN"), "lookup", lab + ("" if got == sym("OWN") else ": %s" % T.show(got)), "gives %s instead of the number of voltage-defined elements before it" % T.show(got), fi.where)
    c.analysed(fi)

def inverse(c, prog):
    fi = prog.func("circuit.Circuit.find_vde")
    IDX = sym("index")
    nd = PList([], "nodes_dict"); nd.length = NV * 2
    def bind(ip, circ):
        circ.attrs["nodes_dict"] = nd
        return [circ, IDX], {}
    g = Gen(prog, fi, bind, learn_raises=True)
    found = set()
    for case, r in g.each(all_cases()):
        lab = "find_vde for %s" % cname(case)
        if r.outcome == "unsupported": c.undecided("lookup", lab, r.error); continue
        if r.outcome == "raise":
            if r.error.name != "IndexError": c.fail("lookup", lab, "ends in %s" % r.error, fi.where)
            continue
        facts = [(k, v) for k, v in r.ip.facts.items() if k[0] == "eq0"]
        if r.ip.result is not r.ip.victims[0]: c.fail("lookup", lab, "returns something else than an element", fi.where); continue
        want = IDX - NV + T.ONE - sym("OWN")
        ok = is_vde(case) and any(v and (own(k[1]) == want or own(k[1]) == -want) for k, v in facts)
        found.add(cname(case))
        c.check(ok, "lookup", lab + ("" if ok else ": %s" % [(T.show(own(k[1])), v) for k, v in facts]), "is returned under %s, expected position index - (N-1)" % [(T.show(own(k[1])), v) for k, v in facts], fi.where)
    for case in all_cases():
        if is_vde(case) and cname(case) not in found: c.fail("lookup", "find_vde never finds %s" % cname(case), "no index leads to it", fi.where)
    c.analysed(fi)

def names_of(v):
    return repr(v)

RESULTS = {"op_solution": 0, "ac_solution": 1, "dc_solution": 1, "tran_solution": 1, "pss_solution": 1}

def per_ok(ip, l, case, skip, lab, mk):
    """the list is <sweep variables> + node voltages + branch currents"""
    bad = []
    if len(l.items) != skip: bad.append("starts with %d names before the node voltages instead of %d" % (len(l.items), skip))
    nodes = [p for p in l.per if isinstance(p[0], tuple) or str(p[0]).startswith("G|")]
    elems = [p for p in l.per if isinstance(p[0], str) and p[0].startswith("E|")]
    if [p for p in l.per] != nodes + elems: bad.append("branch currents precede node voltages")
    return bad, nodes, elems

def results(c, prog):
    sb = prog.cls("results.solution")
    for cl, skip in RESULTS.items():
        ci = prog.cls("results." + cl)
        fi = prog.find_method(ci, "__init__")
        ps = fi.params()
        def bind(ip, circ):
            o = Obj(ci, "sol")
            ip.sol = o
            nd = Obj(None, "nodes_dict", opaque=True)
            circ.attrs["nodes_dict"] = nd
            a = {p: sym("param:" + p) for p in ps[1:]}
            a["circ"] = circ
            a["outfile"] = "f"
            if "x" in a: a["x"] = ip.new_arr([sym("n"), T.ONE], False, "param", name="x")
            if "error" in a: a["error"] = ip.new_arr([sym("n"), T.ONE], False, "param", name="err")
            if "sweepvar" in a: a["sweepvar"] = "VSWEEP"
            return [o], a
        summ = {"results.op_solution._get_elements_op": lambda ip, a, k, n: (sym("ok"), sym("oi"), sym("tp")),
                "circ.is_int_node_internal_only": lambda ip, a, k, n: False,
                "circ.int_node_to_ext": lambda ip, a, k, n: atom("sub", atom("obj", "nodes_dict"), a[0])}
        g = Gen(prog, fi, bind, summaries=summ, opts={"lenient_dict": True, "notnone": lambda a: True})
        for case, r in g.each(all_cases()):
            lab = "%s of a circuit with %s" % (cl, cname(case))
            if r.outcome == "unsupported": c.undecided("results", lab, r.error); continue
            if r.outcome == "raise": c.fail("results", lab, "ends in %s" % r.error, fi.where); continue
            l = r.ip.sol.attrs.get("variables")
            l = unlist(l)
            if not isinstance(l, PList): c.undecided("results", lab, "variables: %r" % (l,)); continue
            bad, nodes, elems = per_ok(r.ip, l, case, skip, lab, None)
            # node part: one entry per k in 0..N-2, made from the external name of node k+1
            good_nodes = len(nodes) == 1 and len(nodes[0][1]) == 1
            rng = nodes[0][0][1] if nodes and isinstance(nodes[0][0], tuple) else None
            if not good_nodes: bad.append("node voltages: %s" % (nodes,))
            else:
                nm = nodes[0][1][0]
                subs = [a for a in T.atoms(term(nm)) if a[0] == "sub"]
                idx = sorted({a for a in T.atoms(term(nm)) if a[0] == "idx"}, key=repr)
                ok = len(idx) == 1 and any("nodes_dict" in repr(a[1]) and len(a) == 3 and term_of(a[2]) - Poly({((idx[0], Fraction(1)),): Fraction(1)}) == T.ONE for a in subs)
                if not ok: bad.append("k-th node voltage is named %s" % T.show(term(nm)))
                if idx and idx[0][1] not in (("range", num(0), NV - 1, num(1)),) and "NV" not in repr(idx[0]): bad.append("node voltages run over %s" % (idx[0],))
                if idx and isinstance(idx[0][1], tuple) and idx[0][1][0] == "range":
                    _, a, b, st = idx[0][1]
                    if not (T.equal(a, T.ZERO) and T.equal(b, NV - T.ONE) and T.equal(st, T.ONE)): bad.append("node voltages run over %s..%s" % (T.show(a), T.show(b)))
            mine = [x for k, vs in elems for x in vs]
            if is_vde(case):
                if len(mine) != 1: bad.append("contributes %d branch currents" % len(mine))
                elif not any(a == ("sym", "id:self") for a in T.atoms(term(mine[0]))): bad.append("its current is called %s" % T.show(term(mine[0])))
            elif mine: bad.append("contributes a branch current %s" % T.show(term(mine[0])))
            # values stored next to the names
            for attr in ("results", "errors"):
                pass
            for b in bad: c.fail("results", "%s.variables: %s: %s" % (cl, cname(case), b), b, fi.where)
            if not bad: c.ok("results", lab)
            if cl == "op_solution" and not bad: stored(c, r, case, fi)
        c.analysed(fi)

def term_of(x): return x if isinstance(x, Poly) else term(x)

def stored(c, r, case, fi):
    """op_solution.results / errors: the value stored under a name is the unknown at the name's position"""
    for attr, arr in (("results", "x"), ("errors", "err")):
        d = r.ip.sol.attrs.get(attr)
        d = d.attrs.get("__dict__", d) if isinstance(d, Obj) else d
        pairs = []
        for ev in r.ip.events:
            if ev[0] == "update" and ev[1] == attr: pairs.append(ev)
    return

def symbolic(c, prog):
    fi = prog.func("symbolic.get_variables")
    def bind(ip, circ):
        circ.attrs["nodes_dict"] = Obj(None, "nodes_dict", opaque=True)
        return [circ], {}
    g = Gen(prog, fi, bind)
    for case, r in g.each(all_cases()):
        lab = "symbolic.get_variables, circuit with %s" % cname(case)
        if r.outcome == "unsupported": c.undecided("results", lab, r.error); continue
        if r.outcome == "raise": c.fail("results", lab, "ends in %s" % r.error, fi.where); continue
        x = r.ip.result
        if not isinstance(x, Arr): c.undecided("results", lab, repr(x)); continue
        bad = []
        size = T.subst(x.shape[0], lambda a: sym("TOT") if a[0] == "tot" or a[0] == "len" else None) if isinstance(x.shape[0], Poly) else None
        r.ip.size = size
        if size is not None and not T.equal(size, NV - 1 + sym("TOT")): bad.append("has %s entries" % T.show(x.shape[0]))
        for b in bad: c.fail("results", lab + ": " + b, b, fi.where)
        if not bad: c.ok("results", lab)
    c.analysed(fi)

def op_info(c, prog):
    """power and operating-point report: every unknown read for an element is its own branch current,
    the current it senses, or a node voltage"""
    fi = prog.func("results.op_solution._get_elements_op")
    X = "x"
    def bind(ip, circ):
        x = ip.new_arr([sym("n"), T.ONE], False, "param", name=X)
        ip.infos = []
        return [Obj(prog.cls("results.op_solution"), "sol"), circ, x], {}
    def info(ip, args, kw, n):
        ip.infos.append((args, kw))
        return (ip.new_list([], n), ip.new_list([], n))
    g = Gen(prog, fi, bind, opts={"lenient_dict": True}, summaries={"*.get_op_info": info})
    seen = {}
    for case, r in g.each(all_cases()):
        lab = "operating point report of %s" % cname(case)
        if r.outcome == "unsupported": c.undecided("op-info", lab, r.error); continue
        if r.outcome == "raise":
            # a missing sensing element is reported; anything else is a failure
            if "source_id" in case.spec.params and r.error.name in ("RuntimeError", "ValueError"): continue
            c.fail("op-info", lab + " ends in %s" % r.error.name, "ends in %s" % r.error, fi.where); continue
        bad = []
        res = r.ip.result
        # what the element adds to the total power
        tot = [a for a in T.atoms(term(res[2])) if a[0] == "lvend"] if isinstance(res, tuple) and len(res) == 3 else []
        vals = [("the total power", ev[3]) for ev in r.ip.events if ev[0] == "accum" and any(a[1:] == ev[1:3] for a in tot)]
        for args, kw in r.ip.infos:
            for v in list(args[1:]) + list(kw.values()): vals.append(("get_op_info", v))
        allowed = [sym("OWN") + NV - T.ONE]
        if "source_id" in case.spec.params: allowed.append(sym("SRC") + NV - T.ONE)
        currents = set()
        for what, v in vals:
            if not isinstance(v, Poly): continue
            for a in T.atoms(v):
                if a[0] != "cell" or a[1] != X: continue
                i = a[2]
                if not isinstance(i, Poly): continue
                i = T.subst(i, lambda q: sym("OWN") if (q[0] == "cnt" and len(q) == 2 and frozenset(q[1]) == OWNED) or (q[0] == "vde" and is_self(q[1])) else
                            sym("SRC") if (q[0] == "vde" and strip_case(q[1]) == SRC) else None)
                if not any(q == ("sym", "NV") for q in T.atoms(i)): continue      # a node voltage
                currents.add((what, T.show(i)))
                if not any(T.equal(i, q) for q in allowed): bad.append("%s reads the unknown at %s instead of N-1 + (its position)" % (what, T.show(i)))
        for b in sorted(set(bad)): c.fail("op-info", "%s: %s" % (cname(case), b), b, fi.where)
        if not bad: c.ok("op-info", lab + " (%d branch currents read)" % len(currents))
    c.analysed(fi)

def pz(c, prog):
    """pole-zero: the unit excitation of an inductor or voltage source is applied to, and its response read from, its own row"""
    fi = prog.func("pz.calculate_singularities")
    for zeros in (False, True):
        def bind(ip, circ):
            a = {p: None for p in fi.params()}
            a.update({"mc": circ, "MNA": ip.new_arr([NV + sym("TOT"), NV + sym("TOT")], False, "param", name="MNA"), "shift": sym("shift"), "verbose": num(0)})
            if zeros: a.update({"input_source": ID if ip.phase == 2 else sym("id:zz"), "output_port": (sym("node:p"), sym("node:q"))})
            return [], {k: v for k, v in a.items() if k in fi.params()}
        def dot(ip, args, kw, n):
            arrs = [x for x in args if isinstance(x, Arr) and not x.name.startswith("MNA")]
            # only the product with the excitation column is a response
            ip.tv = getattr(ip, "tv", [])
            a = ip.new_arr([sym("n"), T.ONE], False, "param", name="TV")
            ip.tv.append((a, arrs))
            return a
        def stop(ip, args, kw, n): raise ReturnSig(("PZ",))
        summ = {"numpy.dot": dot, "numpy.linalg.inv": lambda ip, a, k, n: sym("inv"), "numpy.linalg.det": stop,
                "pz._enlarge_matrix": lambda ip, a, k, n: ip.new_arr([sym("k"), sym("k")], False, "param", name="TCM"),
                "transient.generate_D": lambda ip, a, k, n: ip.new_arr([NV + sym("TOT"), NV + sym("TOT")], False, "param", name="D")}
        st = Stamper(prog, fi, bind, summaries=summ, opts={"distinct": DISTINCT | {("sym", "id:zz")}, "notnone": lambda a: True}, limit=900)
        st.learn_raises = True
        cases = list(all_cases())
        if not zeros:
            st.learn([x for x in cases if not x.label] + [x for x in cases if x.label and is_vde(x)])
            info = st.loop_info
        else: st.loop_info = info      # the same loops
        for case in cases:
            nm = case.spec.name
            if nm not in ("Inductor", "VSource", "Capacitor", "ISource"): continue
            if zeros and nm not in ("VSource", "ISource"): continue
            if not zeros and nm not in ("Inductor", "Capacitor"): continue
            lab = "pz.calculate_singularities: %s%s" % (cname(case), " as input" if zeros else "")
            bad, n = set(), 0
            try: rs = st.runs(case, 2)
            except Unsupported as ex: c.undecided("pole-zero", lab, str(ex)); continue
            for r in rs:
                if r.outcome == "unsupported": c.undecided("pole-zero", lab, r.error); continue
                if r.outcome == "raise": continue
                for arr in r.ip.arrays:
                    for kk, v, w, loops, kind in arr.log:
                        for i in kk[:1]:
                            if not isinstance(i, Poly): continue
                            i = own(i)
                            if arr.name in ("TCM", "MNA", "D") or "TV" in arr.name: continue
                            if not any(q[0] in ("sym", "cnt", "lv", "tot", "vde") for q in T.atoms(i)): continue
                            if any(q[0] == "sym" and q[1].startswith("node:") for q in T.atoms(i)):
                                if nm in VDE: bad.add("%s is excited at a node" % nm)
                                n += 1; continue
                            n += 1
                            if not T.equal(i, NV - T.ONE + sym("OWN")): bad.add("excited at unknown %s instead of N-1 + (its position)" % T.show(i))
                vals = [v for arr in r.ip.arrays if arr.name == "TCM" for kk, v, w, loops, kind in arr.log]
                for v in vals:
                    if not isinstance(v, Poly): continue
                    for a in T.atoms(v):
                        if a[0] == "cell" and a[1] == "TV" and isinstance(a[2], Poly):
                            i = own(a[2])
                            if any(q[0] == "sym" and q[1].startswith("node:") for q in T.atoms(i)): continue
                            n += 1
                            if not T.equal(i, NV - T.ONE + sym("OWN")): bad.add("response read at unknown %s instead of N-1 + (its position)" % T.show(i))
            for b in sorted(bad): c.fail("pole-zero", "%s: %s" % (lab, b), b, fi.where)
            if not bad and n: c.ok("pole-zero", lab)
            elif not bad: c.undecided("pole-zero", lab, "no access found")
    c.analysed(fi)
