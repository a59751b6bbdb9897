"""C07: initial conditions reach the unknown they name."""
from fractions import Fraction
from .. import terms as T
from ..elements import *
from ..elements import Case, VDE, USER, SPECS, BYNAME, ID, nodes_of, victim, Stamper, partitions
from ..interp import *
from ..terms import sym, atom, num, Poly
from ..parsing import go, value, to_number, circ as new_circ
from . import c22
from .c06 import own, first_part, is_vde, cname, all_cases, OWNED

NV = sym("NV")

def run(c, prog):
    c.rule("element", "after applying element conditions, a capacitor's or diode's v(n1) - v(n2), or an inductor's own branch current, is its condition; nothing else is written", 50)
    c.rule("directive", "V(node) sets the unknown of that node, I(element) the one of that element's branch, in a vector of zeros without the ground entry", 4)
    c.rule("label", "a starting point asked for by label is the one built from the directive of that label; 'op' and 'op+ic' are the operating point, as computed and with the element conditions applied", 12)
    c.rule("start", "the transient simulation starts, at the start time, from exactly the starting point it is given; from zeros if it is given none", 9)
    c.guard("element", element, c, prog)
    c.guard("directive", directive, c, prog)
    c.guard("ic line", ic_line, c, prog)
    c.guard("labels", labels, c, prog)
    c.guard("operating point labels", op_labels, c, prog)
    c.guard("uic", uic, c, prog)
    c.guard("start", start, c, prog)

def cases():
    for s in SPECS:
        has = s.name in ("Capacitor", "diode", "Inductor")
        if not has:
            yield Case(s, first_part(s), {}, ""), None
            continue
        for part in partitions(2):
            for lab, v in (("with a condition", sym("IC")), ("with condition 0", num(0)), ("without condition", None)):
                yield Case(s, part, {"ic": v}, lab), v
    yield Case(USER, (0, 1), {}, "declares is_voltage_defined"), None

def element(c, prog):
    fi = prog.func("dc_analysis.modify_x0_for_ic")
    def bind(ip, circ):
        x = ip.new_arr([sym("n"), T.ONE], False, "param", name="x0")
        ip.x0 = x
        p = fi.params()
        return [], {p[0]: circ, p[1]: x}
    st = Stamper(prog, fi, bind, opts={"distinct": DISTINCT, "lenient_dict": True}, positive={("sym", "IC")})
    allc = list(cases())
    st.learn([x for x, v in allc if x.part == first_part(x.spec) and (v is not None or not x.flags)])
    for case, ic in allc:
        lab = str(case)
        for r in st.runs(case, 2):
            if r.outcome == "unsupported": c.undecided("element", lab, r.error); continue
            if r.outcome == "raise": c.fail("element", case.spec.name + " " + case.label, "%s: ends in %s" % (lab, r.error), fi.where); continue
            arrs = [a for a in r.ip.arrays if a.cells]
            bad = []
            x = r.value if isinstance(r.value, Arr) else r.ip.x0
            if not isinstance(r.value, Arr): bad.append("does not return the vector")
            written = {}
            for a in arrs:
                if a is not x and a.name != "x0": continue
                for k, v in a.cells.items(): written[k[0]] = v
            val = lambda p: T.ZERO if p.is_zero() else next((v for k, v in written.items() if isinstance(k, Poly) and T.equal(k, p - 1)), atom("cell", "x0", p - 1))
            nd = nodes_of(case.part)
            allowed = []
            if case.spec.name in ("Capacitor", "diode"):
                allowed = [p - 1 for p in nd if not p.is_zero()] if ic is not None and not T.equal(nd[0], nd[1]) else []
                if ic is not None and not T.equal(nd[0], nd[1]):
                    d = norm_x0(val(nd[0])) - norm_x0(val(nd[1]))
                    if not T.equal(d, ic): bad.append("v(n1) - v(n2) becomes %s instead of %s" % (T.show(d), T.show(ic)))
                elif ic is not None: allowed = [p - 1 for p in nd if not p.is_zero()]
            if case.spec.name == "Inductor" and ic is not None:
                want = NV - T.ONE + sym("OWN")
                allowed = [want]
                got = [v for k, v in written.items() if isinstance(k, Poly) and T.equal(own(k), want)]
                if not got or not isinstance(got[0], Poly) or not T.equal(got[0], ic): bad.append("its branch current is set to %s instead of %s" % ([T.show(g) for g in got], T.show(ic)))
            for k in written:
                if not isinstance(k, Poly) or not any(T.equal(own(k), q) for q in allowed): bad.append("writes the unknown %s" % (T.show(own(k)) if isinstance(k, Poly) else k,))
            for u in r.ip.unknown_writes:
                if u[0] == "x0": c.undecided("element", lab, "untracked write %s" % (u,))
            for b in bad: c.fail("element", "%s %s: %s" % (case.spec.name, case.label, b), "%s: %s" % (lab, b), fi.where)
            if not bad: c.ok("element", lab)
    c.analysed(*st.inlined)

def norm_x0(v):
    """x0 entries read through a copy are the entries of x0"""
    def f(a):
        if a[0] == "cell" and isinstance(a[1], str) and len(a) >= 3: return atom("cell", "x0", a[2])
        return None
    return T.subst(v, f) if isinstance(v, Poly) else term(v)

LABELS = [("V(n1)", "n1"), ("V(N2)", "N2"), ("v(7)", "7"), ("v ( n1 )", "n1"), ("V(out_p)", "out_p"), ("v(x1-n1)", "x1-n1"),
          ("I(L1)", True), ("i(l1)", True), ("I ( L1 )", True), ("X(n1)", None), ("n1", None)]

def directive(c, prog):
    fi = prog.func("dc_analysis.build_x0_from_user_supplied_ic")
    p = fi.params()
    summ = {"circ.ext_node_to_int": lambda ip, a, k, n: atom("intnode", a[-1] if isinstance(a[-1], str) else tokey(a[-1]))}
    for label, target in LABELS:
        for spec in ("VSource", "Inductor", "EVSource", "HVSource", "Resistor", "ISource"):
            case = Case(BYNAME[spec], first_part(BYNAME[spec]), {"part_id": "L1"})
            def bind(ip, circ):
                d = PDict(); d.items = {label: sym("VALUE")}
                return [], {p[0]: circ, p[1]: d}
            st = Stamper(prog, fi, bind, summaries=summ, opts={"distinct": DISTINCT})
            st.learn_raises = True
            st.learn([Case(s, first_part(s), {"part_id": "Q9"}) for s in SPECS] + [Case(USER, (0, 1), {"part_id": "Q9"})])
            lab = "%s in a circuit with %s L1" % (label, spec)
            for r in st.runs(case, 2):
                if r.outcome == "unsupported": c.undecided("directive", lab, r.error); continue
                if r.outcome == "raise":
                    ok = r.error.name == "ValueError" and (target is None or (target is True and spec not in VDE))
                    c.check(ok, "directive", "%s (%s) ends in %s" % (label, spec, r.error.name), "ends in %s" % r.error, fi.where); continue
                if target is None: c.fail("directive", "%s is accepted" % label, "a label naming neither a voltage nor a current is accepted", fi.where); continue
                if target is True and spec not in VDE: 
                    # the name may belong to another element of the circuit; position unknown here
                    continue
                bad = []
                arrs = [a for a in r.ip.arrays if a.log]
                if len(arrs) != 1: c.fail("directive", "%s (%s): sets nothing" % (label, spec), "%d vectors written" % len(arrs), fi.where); continue
                a = arrs[0]
                if not a.zero: bad.append("the vector does not start from zeros")
                drop = T.ZERO
                if r.value is not a:
                    # the ground entry is removed from what is returned
                    t = r.value.atom() if isinstance(r.value, Poly) else None
                    sl = t[2] if t and t[0] == "cell" and t[1] == a.name and len(t) > 2 else None
                    if not (isinstance(sl, tuple) and sl[0] == "slice"): c.undecided("directive", lab, "returns %s" % (r.value,)); continue
                    d0 = sl[1] if isinstance(sl[1], Poly) else T.ZERO
                    if not T.equal(d0, T.ONE) or sl[2] != ("None",): bad.append("returns the entries %s of a vector" % (sl,))
                    drop = d0
                want = (atom("intnode", target) if target is not True else NV + sym("OWN")) - (T.ONE - drop)     # row of the ground is row 0 of the full vector
                for k, w, wh, loops, kd in a.log:
                    i = own(k[0])
                    if not isinstance(i, Poly) or not T.equal(i, want): bad.append("sets entry %s instead of %s" % (T.show(i) if isinstance(i, Poly) else i, T.show(want)))
                    if not (isinstance(w, Poly) and w == sym("VALUE")): bad.append("sets %s instead of the value given" % (w,))
                for b in bad: c.fail("directive", "%s (%s): %s" % (label, spec, b), b, fi.where)
                if not bad: c.ok("directive", lab)
    c.analysed(fi)

# ---------------------------------------------------------------------------------- from the directive to the analysis
N0 = c22.N

def same(a, b):
    if a is b: return True
    if isinstance(a, Poly) and isinstance(b, Poly): return T.equal(a, b)
    return type(a) == type(b) and isinstance(a, (str, bool)) and a == b

def ic_line(c, prog):
    ii = prog.func("netlist_parser.parse_ics")
    line = lambda s: (s, num(1))
    cases = {
        "values by name": ([".ic name=lab v(1)=81 i(v2)=82"], [("lab", {"v(1)": "81", "i(v2)": "82"})]),
        "name last": ([".ic v(1)=81 v(2)=82 name=lab"], [("lab", {"v(1)": "81", "v(2)": "82"})]),
        "comment": ([".ic name=lab v(1)=81 * v(2)=82"], [("lab", {"v(1)": "81"})]),
        "two directives": ([".ic name=lab v(1)=81", ".tran 5 6", ".ic name=other v(1)=83 i(l1)=84"], [("lab", {"v(1)": "81"}), ("other", {"v(1)": "83", "i(l1)": "84"})]),
    }
    for what, (text, want) in sorted(cases.items()):
        def fn(ip): return ip.call_function(ii, [ip.new_list([line(t) for t in text], N0)])
        for r in go(prog, fn):
            if r.outcome == "unsupported": c.undecided("label", what, r.error); continue
            if r.outcome == "raise": c.fail("label", ".ic, %s: ends in %s" % (what, r.error.name), str(r.error), ii.where); continue
            got = r.value.items if isinstance(r.value, PList) else None
            ok = got is not None and len(got) == len(want)
            if ok:
                for d, (lab, vals) in zip(got, want):
                    inner = d.items.get(lab) if isinstance(d, PDict) and len(d.items) == 1 else None
                    ok = ok and isinstance(inner, PDict) and set(inner.items) == set(vals) and all(same(inner.items[k], value(v)) for k, v in vals.items())
            c.check(ok, "label", ".ic: " + what, "%s parses to %s" % (text, [show(x) for x in got] if got is not None else r.value), ii.where)
    c.analysed(ii)

def show(x):
    if isinstance(x, PDict): return "{%s}" % ", ".join("%s: %s" % (k, show(v)) for k, v in x.items.items())
    if isinstance(x, Obj): return x.name
    return T.show(x) if isinstance(x, Poly) else str(x)

def PD(d):
    p = PDict(dict(d))
    for k in d: p.keyvals[k] = k
    return p

def labels(c, prog):
    """_handle_netlist_ics: the labels of the directives, then the analyses that ask for them"""
    fi = prog.func("ahkab._handle_netlist_ics")
    build = prog.func("dc_analysis.build_x0_from_user_supplied_ic")
    asks = {"a": "first", "b": "second"}
    for ask, want in sorted(asks.items()):
        for an_type in ("tran", "pss", "op", "ac"):
            def fn(ip):
                ip.opts["globals"] = {prog.pkg + ".ahkab._x0s": PDict({None: None})}
                cc = new_circ(prog, ip)
                dicts = {"a": PD({"V(1)": num(1)}), "b": PD({"V(1)": num(2)})}
                made = []
                def x0(ip, args, kw, n):
                    d = dict(zip(build.params(), args)); d.update(kw)
                    q = d[build.params()[1]]
                    made.append(d[build.params()[0]] is cc)
                    return sym("X0:" + next((k for k, v in dicts.items() if v is q), "?"))
                ip.summaries["dc_analysis.build_x0_from_user_supplied_ic"] = x0
                p = fi.params()
                ip.call_function(fi, [], {p[0]: cc, p[1]: ip.new_list([], N0), p[2]: ip.new_list([PD({"a": dicts["a"]}), PD({"b": dicts["b"]})], N0)})
                an = PD({"type": an_type, "x0": ask})
                ip.call_function(fi, [], {p[0]: cc, p[1]: ip.new_list([an], N0), p[2]: ip.new_list([], N0)})
                ip.good = all(made)
                return an.items.get("x0")
            for r in go(prog, fn):
                lab = ".%s starting from the label of the %s directive" % (an_type, want)
                if r.outcome == "unsupported": c.undecided("label", lab, r.error); continue
                if r.outcome == "raise": c.fail("label", "%s: ends in %s" % (lab, r.error.name), str(r.error), fi.where); continue
                c.check(isinstance(r.value, Poly) and r.value == sym("X0:" + ask) and r.ip.good, "label", lab, "starts from %s" % show(r.value), fi.where)
                c.analysed(*r.ip.inlined)
    def fn(ip):
        ip.opts["globals"] = {prog.pkg + ".ahkab._x0s": PDict({None: None})}
        p = fi.params()
        an = PD({"type": "tran", "x0": None})
        ip.call_function(fi, [], {p[0]: new_circ(prog, ip), p[1]: ip.new_list([an], N0), p[2]: ip.new_list([], N0)})
        return an.items.get("x0", "nothing")
    for r in go(prog, fn):
        if r.outcome == "unsupported": c.undecided("label", "no starting point", r.error); continue
        c.check(r.outcome == "return" and r.value is None, "label", "no starting point asked for", "starts from %s" % show(r.value) if r.outcome == "return" else str(r.error), fi.where)

def op_labels(c, prog):
    """run: what 'op' and 'op+ic' stand for after an operating point"""
    fi = prog.func("ahkab.run")
    modify = prog.func("dc_analysis.modify_x0_for_ic")
    for seq, wants in ((("op", "tran:op"), {1: "OP0"}), (("op", "tran:op+ic"), {1: "IC:OP0"}), (("op", "tran:op", "tran:op+ic"), {1: "OP0", 2: "IC:OP0"}),
                       (("tran:", "op", "ac:op"), {0: None, 2: "OP1"}), (("op", "ac:op", "tran:op+ic"), {1: "OP0", 2: "IC:OP0"}), (("tran:", "op", "tran:", "tran:op"), {0: None, 2: None, 3: "OP1"})):
        lab = "run(%s)" % ", ".join(seq)
        def fn(ip):
            ip.opts["globals"] = {prog.pkg + ".ahkab._x0s": PDict({None: None}), prog.pkg + ".ahkab._queue": ip.new_list([], N0)}
            cc = new_circ(prog, ip)
            ran = []
            mark = lambda name: Obj(prog.cls("results.op_solution"), name, {}, opaque=True)
            def analysis(ip, args, kw, n):
                ran.append(kw.get("x0"))
                return mark("OP%d" % (len(ran) - 1))
            def icm(ip, args, kw, n):
                d = dict(zip(modify.params(), args)); d.update(kw)
                x = d[modify.params()[1]]
                return mark("IC:" + show(x) if d[modify.params()[0]] is cc else "another circuit")
            for f in ("dc_analysis.op_analysis", "transient.transient_analysis", "ac.ac_analysis", "dc_analysis.dc_analysis"): ip.summaries[f] = analysis
            ip.summaries["dc_analysis.modify_x0_for_ic"] = icm
            items = []
            for s in seq:
                t, _, x = s.partition(":")
                d = {"type": t}
                if ":" in s: d["x0"] = x or None
                items.append(PD(d))
            ip.call_function(fi, [cc, ip.new_list(items, N0)])
            return ran
        for r in go(prog, fn, options={"deepcopy": True}):
            if r.outcome == "unsupported": c.undecided("label", lab, r.error); continue
            if r.outcome == "raise": c.fail("label", "%s: ends in %s" % (lab, r.error.name), str(r.error), fi.where); continue
            ran = r.value
            if len(ran) != len(seq): c.fail("label", lab + ": analyses run", "%d analyses run" % len(ran), fi.where); continue
            for k, w in sorted(wants.items()):
                got = ran[k]
                ok = got is None if w is None else isinstance(got, Obj) and got.name == w
                c.check(ok, "label", "%s: starting point of number %d" % (lab, k), "starts from %s instead of %s" % (show(got), w), fi.where)
            c.analysed(*r.ip.inlined)

def uic(c, prog):
    fi = prog.func("netlist_parser.parse_single_analysis")
    for u, x0 in (("0", None), ("1", "op"), ("2", "op+ic"), ("3", "mylabel")):
        for form in (".tran 5 6 uic=%s", ".tran uic=%s tstop=6 tstep=5", ".tran tstep=5 tstop=6 uic=%s method=trap"):
            line = (form % u) + (" ic_label=mylabel" if u == "3" else "")
            s = {"netlist_parser.convert_units": lambda ip, args, kw, n: num(int(args[0])) if isinstance(args[0], str) and args[0].isdigit() else to_number(ip, args, kw, n)}
            for r in go(prog, lambda ip: ip.call_function(fi, [line]), summaries=s):
                if r.outcome == "unsupported": c.undecided("label", line, r.error); continue
                if r.outcome == "raise": c.fail("label", line + ": ends in %s" % r.error.name, str(r.error), fi.where); continue
                got = r.value.items.get("x0", "nothing")
                c.check(got == x0, "label", "%s starts from %s" % (line, x0), "starts from %s" % show(got), fi.where)
    c.analysed(fi)

def start(c, prog):
    """the first point handed to the integration formula"""
    fi = prog.func("transient.transient_analysis")
    for method in sorted(c22.METHODS):
        mod, hist = c22.METHODS[method]
        cfg = {"name": method, "method": method, "module": mod, "control": True, "history": hist, "order": 1, "may_fail": False}
        make = c22.harness(prog, cfg, 1)
        for given in ("a vector", "an operating point", "nothing"):
            lab = "%s from %s" % (method, given)
            def fn(ip):
                x = Mat((2, 1), [sym("Xa"), sym("Xb")])
                if given == "an operating point": x = Obj(prog.cls("results.op_solution"), "op", {"x": x}, opaque=True)
                if given == "nothing": x = None
                M = lambda n: Mat((2, 2), [sym(n + str(i)) for i in range(4)])
                kw = {"circ": c22.circuit(prog, ip), "tstart": c22.TSTART, "tstep": c22.TSTEP, "tstop": c22.TSTOP, "method": method, "x0": x, "mna": M("M"),
                      "N": Mat((2, 1), [sym("N0"), sym("N1")]), "D": M("D"), "use_step_control": True, "outfile": "f", "verbose": num(0)}
                old = dict(ip.summaries)
                for q in list(ip.summaries):
                    if q.endswith(".get_df"):
                        def first(ip, args, kw, n):
                            ip.log.append(("first", args[0] if args else kw.get("pv_array")))
                            raise RaiseSig("PathBound", "", "")
                        ip.summaries[q] = first
                return ip.call_function(fi, [], kw)
            got = False
            for r in explore(make, fn, 12, True):
                if r.outcome == "unsupported": c.undecided("start", lab, r.error); continue
                ev = [e for e in r.ip.log if e[0] == "first"]
                if not ev: continue
                got = True
                l = ev[0][1]
                l = list(l) if isinstance(l, tuple) else l.items
                e = l[0] if isinstance(l[0], tuple) else l[0].items
                m = mat_of(e[1]) if not isinstance(e[1], Mat) else e[1]
                want = [T.ZERO, T.ZERO] if given == "nothing" else [sym("Xa"), sym("Xb")]
                ok = m is not None and len(m.vals) == 2 and all(isinstance(v, Poly) and T.equal(v, w) for v, w in zip(m.vals, want))
                c.check(ok, "start", lab, "the first point is %s" % ([T.show(v) for v in m.vals] if m is not None else show(e[1])), fi.where)
                c.check(len(l) == 1 and isinstance(e[0], Poly) and T.equal(e[0], c22.TSTART), "start", lab + ": at the start time", "the first of %d points is at %s" % (len(l), show(e[0])), fi.where)
                c.analysed(*r.ip.inlined)
            if not got: c.undecided("start", lab, "no path reaches the first step")
