"""C05: assembly of non-linear devices."""
import itertools
from fractions import Fraction
from .. import terms as T
from ..elements import SPECS, partitions, nodes_of, node_sym, NODE, DISTINCT, POSITIVE, cells, victim, BYNAME, template
from ..interp import *
from ..program import AnalysisBroken
from ..terms import sym, atom, num, Poly

NV, NVAR, PTS, TIME = sym("NV"), sym("nvar"), sym("points"), sym("t")
I_SIG = ("op_index", "ports_v", "time")
G_SIG = ("op_index", "ports_v", "port_index", "time")

def bindsig(sig, args, kw):
    d = dict(zip(sig, args)); d.update(kw)
    return d

def vlist(ip, v):
    v = unlist(v)
    if isinstance(v, PList) and not v.per: return tuple(term(x) for x in v.items)
    if isinstance(v, (tuple,)): return tuple(term(x) for x in v)
    if isinstance(v, Mat): return tuple(v.vals)
    return tokey(v)

class Dev(object):
    """a device about which only the interface is known: ports, currents, conductances"""
    def __init__(self, outs, drives):
        self.outs, self.drives = outs, drives      # node values; drives[k]: ports of output port k
        self.obj = Obj(None, "dev", {"is_nonlinear": True, "n1": outs[0][0], "n2": outs[0][1]}, opaque=True)
        self.obj.absent |= {"gstamp", "istamp"}
    def hook(self, ip, b, name, args, kw, n):
        if b is not self.obj: return NotImplemented
        if name == "get_output_ports": return tuple(self.outs)
        if name == "get_drive_ports":
            d = bindsig(("op",), args, kw)
            k = d.get("op")
            k = int(k.const()) if isinstance(k, Poly) and k.const() is not None else None
            if k is None or not 0 <= k < len(self.outs): return NotImplemented
            return tuple(self.drives[k])
        if name == "i":
            d = bindsig(I_SIG, args, kw)
            return atom("I", tokey(d.get("op_index")), vlist(ip, d.get("ports_v")))
        if name == "g":
            d = bindsig(G_SIG, args, kw)
            return atom("G", tokey(d.get("op_index")), vlist(ip, d.get("ports_v")), tokey(d.get("port_index")))
        return NotImplemented

def expected(outs, drives, X, row, cur=None, con=None):
    """documented contribution: {("T", row): term}, {("J", row, col): term}; ground skipped"""
    tt, jj = {}, {}
    def add(d, k, v): d[k] = d.get(k, T.ZERO) + v
    for k, (o1, o2) in enumerate(outs):
        v = tuple((X(p) if not p.is_zero() else T.ZERO) - (X(q) if not q.is_zero() else T.ZERO) for p, q in drives[k])
        i = atom("I", num(k), v) if cur is None else cur(k, v)
        for o, s in ((o1, T.ONE), (o2, -T.ONE)):
            if o.is_zero(): continue
            add(tt, row(o), s * i)
            for m, (p, q) in enumerate(drives[k]):
                g = atom("G", num(k), v, num(m)) if con is None else con(k, v, m)
                if not p.is_zero(): add(jj, (row(o), row(p)), s * g)
                if not q.is_zero(): add(jj, (row(o), row(q)), -s * g)
    clean = lambda d: {k: v for k, v in d.items() if not v.is_zero()}
    return clean(tt), clean(jj)

def collect(arrs):
    """net writes of an array as {rows..: delta}; drop a trailing zero column index of vectors"""
    out, bad = {}, []
    for k, (d, over) in cells(arrs).items():
        if not isinstance(d, Poly): bad.append("untracked value at %s" % (k,)); continue
        if not all(isinstance(i, Poly) for i in k):
            if d.is_zero(): continue
            bad.append("untracked index %s" % (k,)); continue
        if over and d.is_zero(): continue
        if over: bad.append("%s is overwritten" % showk(k))
        out[k] = d
    return out, bad

def showk(k): return "[" + ", ".join(T.show(i) for i in k) + "]"

def match(c, rule, cons, got_t, got_j, want, where, extra=()):
    """compare; a vector may be indexed [i] or [i, 0]"""
    tt, jj = want
    bad = list(extra)
    gt = {k[0]: v for k, v in got_t.items() if len(k) == 1 or k[1].is_zero()}
    for nm, w, g in (("current", tt, gt), ("jacobian", jj, got_j)):
        for k in sorted(set(w) | set(g), key=repr):
            a, b = w.get(k, T.ZERO), g.get(k, T.ZERO)
            if not T.equal(a, b):
                kk = k if isinstance(k, tuple) else (k,)
                bad.append("%s%s receives %s, expected %s" % (nm, showk(kk), T.show(b), T.show(a)))
    return bad

def pat(parts, names):
    return "(" + ",".join("%s=%s" % (n, "0" if p is None else NODE6[p]) for n, p in zip(names, parts)) + ")"
NODE6 = ["a", "b", "c", "d", "e", "f"]
def nd(p): return num(0) if p is None else sym("node:" + NODE6[p])
DIST6 = DISTINCT | {("sym", "node:" + x) for x in NODE6}
POS6 = POSITIVE | {("sym", "node:" + x) for x in NODE6} | {("sym", "nvar"), ("sym", "points"), ("glob", "ahkab.options.gmin")}

def shapes():
    """one output port driven by two ports, and two output ports driven by one port each"""
    for p in partitions(6):
        n = [nd(x) for x in p]
        yield "1 output, 2 driving ports", pat(p, ("o1", "o2", "p1", "q1", "p2", "q2")), [(n[0], n[1])], [[(n[2], n[3]), (n[4], n[5])]]
    for p in partitions(4):
        n = [nd(x) for x in p]
        yield "2 output ports", pat(p, ("o1", "o2", "r1", "r2")), [(n[0], n[1]), (n[2], n[3])], [[(n[0], n[1])], [(n[2], n[3])]]

def interp(prog, script, dev, **k):
    opts = {"distinct": DIST6, "meth_hook": dev.hook, "fancy": True, "notnone": lambda a: a[0] == "sym"}
    opts.update(k.pop("opts", {}))
    return Interp(prog, script, phase=1, victims=[dev.obj, dev.obj], positive=POS6, opts=opts, **k)

def run(c, prog):
    c.rule("assembly", "each output port's current is added at its first node and subtracted at its second, each conductance enters with the sign pattern of output and driving port, port voltages are differences of the unknowns at the port's nodes, ground never touches an unknown", 250)
    c.rule("self-stamp", "a device that stamps itself contributes the terms of its own currents and conductances for the same ports", 20)
    c.rule("every-device", "each analysis linearizes every non-linear device of the circuit, at the current unknowns, and uses the result in residual and jacobian", 4)
    c.rule("ports", "each non-linear device declares its documented output and driving ports (difference of its own terminals, for every pattern of coinciding terminals), and exactly the non-linear classes declare themselves non-linear", 30)
    c.guard("ports", ports, c, prog)
    c.guard("update", update, c, prog)
    c.guard("stamps", stamps, c, prog)
    c.guard("shooting", shooting, c, prog)
    c.guard("bfpss", bfpss, c, prog)
    c.guard("users", users, c, prog)

PORTS = {"diode": ([("n1", "n2")], [("n1", "n2")]), "TunnelJunction": ([("n1", "n2")], [("n1", "n2")]),
         "mosq_device": ([("nd", "ns")], [("nd", "ns"), ("ng", "ns"), ("nb", "ns")]),
         "ekv_device": ([("nd", "ns")], [("nd", "nb"), ("ng", "nb"), ("ns", "nb")]),
         "switch_device": ([("n1", "n2")], [("n1", "n2"), ("sn1", "sn2")])}

def ports(c, prog):
    for spec in SPECS:
        ci = prog.cls(spec.qual)
        v = template(prog, spec, tuple([0] * len(spec.terminals)) if spec.terminals else ())
        flag = v.attrs.get("is_nonlinear")
        if not isinstance(flag, bool): c.undecided("ports", "%s.is_nonlinear" % spec.name, repr(flag))
        else: c.check(flag == (spec.name in PORTS), "ports", "%s.is_nonlinear is %s" % (spec.name, flag), "the class declares is_nonlinear = %s" % flag, ci.where)
        if spec.name not in PORTS: continue
        for part in partitions(len(spec.terminals)):
            nds = dict(zip(spec.terminals, nodes_of(part)))
            pattern = pat(part, spec.terminals)
            for mname, args, want in (("get_output_ports", [], PORTS[spec.name][0]), ("get_drive_ports", [num(0)], PORTS[spec.name][1])):
                m = prog.find_method(ci, mname)
                if m is None: c.fail("ports", "%s has no %s" % (spec.name, mname), "missing method", ci.where); continue
                want = [tuple(nds[t] for t in p) for p in want]
                def make(script): return Interp(prog, script, positive=POS6, opts={"distinct": DIST6})
                def go(ip):
                    o = victim(prog, spec, part)
                    return ip.call_function(m, list(args), self_=o)
                for r in explore(make, go):
                    lab = "%s.%s %s" % (spec.name, mname, pattern)
                    if r.outcome == "unsupported": c.undecided("ports", lab, r.error); continue
                    got = r.value
                    try: got = [tuple(term(x) for x in (unlist(p).items if isinstance(unlist(p), PList) else unlist(p))) for p in (got.items if isinstance(got, PList) else got)]
                    except Exception: got = repr(r.value)
                    if r.outcome == "raise": got = "an exception (%s)" % r.error.name
                    c.check(got == want, "ports", "%s.%s" % (spec.name, mname) if got != want else lab, "%s gives %s, documented %s" % (lab, T.show(got) if isinstance(got, list) else got, T.show(want)), m.where)
                c.analysed(m)

def failcons(fname, shape, bad):
    return "%s: %s: %s" % (fname, shape, bad)

def report(c, rule, fname, shape, pattern, bad, where):
    if not bad: c.ok(rule, "%s: %s %s" % (fname, shape, pattern)); return
    for b in bad[:6]: c.fail(rule, "%s: %s: %s" % (fname, shape, generic(b)), "%s: %s" % (pattern, b), where)

def generic(b):
    return b

def update(c, prog):
    fi = prog.func("dc_analysis._update_J_and_Tx")
    X = lambda p: atom("cell", "x", p - T.ONE, T.ZERO)
    row = lambda p: p - T.ONE
    for shape, pattern, outs, drives in shapes():
        dev = Dev(outs, drives)
        def make(script): return interp(prog, script, dev)
        def go(ip):
            J, Tx, x = (ip.new_arr([sym("n"), sym("n")], False, "param", name=nm) for nm in ("J", "Tx", "x"))
            ip.call_function(fi, [J, Tx, x, dev.obj, TIME])
            return J, Tx, x
        for r in explore(make, go):
            if r.outcome != "return":
                if r.outcome == "raise": report(c, "assembly", fi.qualname, shape, pattern, ["ends in %s" % r.error.name], fi.where)
                else: c.undecided("assembly", "%s %s %s" % (fi.qualname, shape, pattern), r.error)
                continue
            J, Tx, x = r.value
            gj, b1 = collect(J); gt, b2 = collect(Tx)
            bad = b1 + b2 + (["the unknowns are modified"] if x.cells else [])
            report(c, "assembly", fi.qualname, shape, pattern, match(c, "", "", gt, gj, expected(outs, drives, X, row), fi.where, bad), fi.where)
    c.analysed(fi)

# ---- devices that stamp themselves ---------------------------------------------------
GMIN = atom("glob", "ahkab.options.gmin")

def stamps(c, prog):
    fi = prog.func("dc_analysis._update_J_and_Tx")
    n = 0
    for nm in ("diode", "TunnelJunction", "mosq_device"):
        ci = prog.cls(BYNAME[nm].qual)
        if prog.find_method(ci, "istamp") is None or prog.find_method(ci, "gstamp") is None:
            c.ok("self-stamp", "%s does not stamp itself" % nm); continue
        n += 1
        for part in partitions(len(BYNAME[nm].terminals)):
            selfstamp(c, prog, fi, nm, ci, part)
    if not n: c.ok("self-stamp", "no self-stamping devices")

def model_t1t2(prog, model):
    """permutation matrices a model keeps as attributes, from its constructor"""
    key = "_c05_tmats"
    if not hasattr(prog, key):
        out = {}
        init = prog.find_method(model, "__init__")
        for node in ast.walk(init.node):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
                try:
                    ip = Interp(prog)
                    v = ip.ev(node.value, Env({}, model.module))
                    if isinstance(v, Mat): out[node.targets[0].attr] = v
                except Exception: pass
        setattr(prog, key, out)
    return getattr(prog, key)

def selfstamp(c, prog, fi, nm, ci, part):
    spec = BYNAME[nm]
    pattern = pat(part, spec.terminals)
    row = lambda p: p - T.ONE
    X = lambda p: (atom("cell", "x", p - T.ONE, T.ZERO) if not p.is_zero() else T.ZERO)
    fname = "%s.istamp/gstamp" % ci.name
    def names(ip, args): return [a for a in args if not isinstance(a, Obj)]
    def cur(tag):
        def f(ip, args, kw, n):
            vs = [a for a in list(args) + list(kw.values()) if not (isinstance(a, Obj))]
            idx = [a for a in vs if isinstance(a, Poly) and a.const() is not None and a.const().denominator == 1]
            vs2 = [a for a in vs if a not in idx or a.is_zero() and False]
            v = None
            for a in list(args) + list(kw.values()):
                if isinstance(a, (tuple, PList, Mat)): v = vlist(ip, a)
            if v is None:
                ps = [a for a in args if isinstance(a, Poly) and a.const() is None]
                v = (ps[0],) if ps else (T.ZERO,)
            return atom(tag, v)
        return f
    CS = sym("CS")
    sw = tuple(sym("sw%d" % k) for k in range(3))
    seen = {}
    def get_voltages(ip, args, kw, n):
        ip.swin = tuple(term(a) for a in args if not isinstance(a, Obj))
        return (sw, CS)
    summ = {"utilities.tuplinator": lambda ip, a, k, n: a[0], "*.get_i": cur("I"), "*.get_gm": cur("GM"), "*.get_gmb": cur("GMB"), "*.get_gmd": cur("GMD"), "*.get_ids": cur("IDS"), "*.get_voltages": get_voltages}
    def build():
        v = victim(prog, spec, part, {"is_nonlinear": True})
        for k, o in list(v.attrs.items()):
            if isinstance(o, Obj) and o.name == "model":
                mc = prog.cls("mosq.mosq_mos_model") if nm == "mosq_device" else prog.cls({"diode": "diode.diode_model"}.get(nm, "components.TunnelJunction.TunnelJunctionModel"))
                o.cls = mc
                o.attrs.update(model_t1t2(prog, mc) if nm == "mosq_device" else {})
        return v
    class D(object):
        obj = None
        def hook(self, *a): return NotImplemented
    for cs in ((1, -1) if nm == "mosq_device" else (None,)):
        d = D()
        def make(script):
            d.obj = build()
            return interp(prog, script, d, summaries=summ, facts={("eq0", CS + T.ONE): cs == -1, ("eq0", CS - T.ONE): cs == 1} if cs else {},
                          opts={"notnone": lambda a: True})
        def go(ip):
            J, Tx, x = (ip.new_arr([sym("n"), sym("n")], False, "param", name=q) for q in ("J", "Tx", "x"))
            ip.call_function(fi, [J, Tx, x, d.obj, TIME])
            return J, Tx, x
        nd1 = dict(zip(spec.terminals, [nd(p) for p in part]))
        lab = nm + (", swapped" if cs == -1 else "")
        for r in explore(make, go, 300):
            if r.outcome != "return":
                if r.outcome == "raise": report(c, "self-stamp", fname, lab, pattern, ["ends in %s" % r.error.name], ci.where)
                else: c.undecided("self-stamp", "%s %s %s" % (fname, lab, pattern), r.error)
                continue
            J, Tx, x = r.value
            gj, b1 = collect(J); gt, b2 = collect(Tx)
            bad = b1 + b2
            def fallback(g, gm):      # a vanishing conductance is replaced by a small one
                return gm if r.ip.facts.get(("eq0", g)) is True else g
            if nm == "mosq_device":
                d_, g_, s_, b_ = nd1["nd"], nd1["ng"], nd1["ns"], nd1["nb"]
                drives = [[(d_, s_), (g_, s_), (b_, s_)]]
                outs = [(d_, s_)]
                gmd, gmg, gmb = atom("GMD", sw), atom("GM", sw), atom("GMB", sw)
                gmd, gmg, gmb = fallback(gmd, GMIN * 2), fallback(gmg, GMIN * 2), fallback(gmb, GMIN * -2)
                if cs == -1: gl = [gmd + gmg + gmb, -gmg, -gmb]
                else: gl = [gmd, gmg, gmb]
                want = expected(outs, drives, X, row, cur=lambda k, v: CS * atom("IDS", sw), con=lambda k, v, m: gl[m])
                vv = tuple(X(p) - X(q) for p, q in drives[0])
                if getattr(r.ip, "swin", None) is not None and r.ip.swin != vv: bad.append("device evaluated at %s, ports are at %s" % (T.show(r.ip.swin), T.show(vv)))
            else:
                o = [(nd1["n1"], nd1["n2"])]
                want = expected(o, [o], X, row, cur=lambda k, v: atom("I", v), con=lambda k, v, m: fallback(atom("GM", v), GMIN * 2))
            if cs:
                f = lambda a: num(cs) if a == ("sym", "CS") else None
                gt = {k: T.subst(v, f) for k, v in gt.items()}
                want = ({k: T.subst(v, f) for k, v in want[0].items()}, want[1])
            # a shorted output port carries no current (a property of the device equations, C19): whether
            # the pair of opposite terms is accumulated or dropped makes no difference
            o1, o2 = (nd1["nd"], nd1["ns"]) if nm == "mosq_device" else (nd1["n1"], nd1["n2"])
            if o1 == o2:
                z = lambda a: T.ZERO if a[0] in ("I", "IDS") else None
                gt = {k: T.subst(v, z) for k, v in gt.items()}
            report(c, "self-stamp", fname, lab, pattern, match(c, "", "", gt, gj, want, ci.where, bad), ci.where)
    c.analysed(fi, prog.find_method(ci, "istamp"), prog.find_method(ci, "gstamp"))

# ---- the other assemblies ------------------------------------------------------------
def shooting(c, prog):
    fi = prog.func("shooting._get_variable_MAass_and_Tass")
    row = lambda p: p - T.ONE
    X = lambda p: atom("cell", "xi", p - T.ONE)
    C1, C0 = sym("C1"), sym("C0")
    first = True
    for shape, pattern, outs, drives in shapes():
        dev = Dev(outs, drives)
        def make(script): return interp(prog, script, dev, summaries={"implicit_euler.get_df_coeff": lambda ip, a, k, n: (C1, C0)})
        def go(ip):
            circ = Circ(None, "circ")
            ip.xi = ip.new_arr([NVAR], False, "param", name="xi")
            a = {"circ": circ, "xi": ip.xi, "xi_minus_1": sym("xm"), "M": sym("M"), "D": sym("D"), "step": sym("step"), "n_of_var": NVAR}
            return ip.call_function(fi, [], a)
        for r in explore(make, go):
            cons = "%s %s %s" % (fi.qualname, shape, pattern)
            if r.outcome == "raise": report(c, "assembly", fi.qualname, shape, pattern, ["ends in %s" % r.error.name], fi.where); continue
            if r.outcome != "return": c.undecided("assembly", cons, r.error); continue
            v = r.value
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Arr) and isinstance(v[1], Poly)): c.undecided("assembly", cons, "result %r" % (v,)); continue
            ts = [a for a in T.atoms(v[1], deep=False) if a[0] == "arr"]
            if len(ts) != 1: c.undecided("assembly", cons, "vector %s" % T.show(v[1])); continue
            ta = [a for a in r.ip.arrays if a.name == ts[0][1]][0]
            gj, b1 = collect(v[0]); gt, b2 = collect(ta)
            bad = b1 + b2 + (["the unknowns are modified"] if r.ip.xi.cells else [])
            report(c, "assembly", fi.qualname, shape, pattern, match(c, "", "", gt, gj, expected(outs, drives, X, row), fi.where, bad), fi.where)
            if first:
                first = False
                rest = v[1] - Poly({((ts[0], Fraction(1)),): Fraction(1)})
                # dot products and plain products of opaque matrices are the same bilinear form
                want = {("D", "C1", "xi"), ("M", "xi"), ("D", "C0", "xm")}
                got = set()
                okform = True
                for m, k in rest.t.items():
                    if k != 1: okform = False
                    s = set()
                    for a in T.atoms(Poly({m: Fraction(1)})):
                        if a[0] == "sym": s.add(a[1])
                        if a[0] == "arr": s.add(a[1])
                    got.add(frozenset(s))
                c.check(okform and got == {frozenset(x) for x in want}, "every-device", "%s: linear part of the residual" % fi.qualname,
                        "residual adds %s, expected D*C1*x(n) + M*x(n) + D*C0*x(n-1)" % T.show(rest), fi.where)
    c.analysed(fi)

def bfpss(c, prog):
    fi = prog.func("bfpss.bfpss")
    first = True
    for shape, pattern, outs, drives in shapes():
        if shape.startswith("1") and pattern.count("=0") == 0 and len(set(pattern.split("=")[1:])) > 6: continue
        dev = Dev(outs, drives)
        MN, XA = sym("MNA"), "xall"
        def arr(name, shape_):
            def f(ip, a, k, n):
                x = ip.new_arr(shape_, False, "param", name=name); return x
            return f
        summ = {"utilities.check_step_and_points": lambda ip, a, k, n: (PTS, sym("step")),
                "bfpss._build_CMAT": lambda ip, a, k, n: sym("CMAT"), "bfpss._build_x": arr(XA, [NVAR * PTS, T.ONE]),
                "bfpss._build_Tf": lambda ip, a, k, n: sym("Tf"), "bfpss._build_Tt": lambda ip, a, k, n: sym("Tt"),
                "dc_analysis.get_td": lambda ip, a, k, n: sym("td"), "bfpss._convergence_check": lambda ip, a, k, n: True,
                "numpy.linalg.solve": stop, "scipy.sparse.linalg.splu": stop}
        for q in ("lil_matrix", "csc_matrix", "csr_matrix", "coo_matrix", "dok_matrix"): summ["scipy.sparse." + q] = sparse
        def make(script):
            return interp(prog, script, dev, summaries=summ, facts={("eq0", atom("lv", "it", "iteration")): True}, opts={"notnone": lambda a: True})
        def go(ip):
            circ = Circ(None, "circ")
            mna = ip.new_arr([NVAR, NVAR], False, "param", name="MNA"); D = ip.new_arr([NVAR, NVAR], False, "param", name="D")
            tf = ip.new_arr([NVAR, T.ONE], False, "param", name="TF")
            a = {"circ": circ, "period": sym("period"), "step": sym("step"), "points": PTS, "outfile": "f", "mna": mna, "Tf": tf, "D": D, "verbose": T.ZERO}
            ps = fi.params()
            a = {k: v for k, v in a.items() if k in ps}
            return ip.call_function(fi, [], a)
        rs = explore(make, go, 400)
        for r in rs:
            cons = "%s %s %s" % (fi.qualname, shape, pattern)
            if r.outcome == "raise": report(c, "assembly", fi.qualname, shape, pattern, ["ends in %s" % r.error.name], fi.where); continue
            if r.outcome != "return": c.undecided("assembly", cons, r.error); continue
            tj = [a for a in r.ip.arrays if a.cells and a.name not in ("td",)]
            ixs = {x for a in tj for k in a.cells for i in k if isinstance(i, Poly) for x in T.atoms(i) if x[0] == "idx"}
            J, Ta = [], []
            for a in tj:
                g, b = collect(a)
                if any(x[0] in ("G",) for v in g.values() for x in T.atoms(v)): J.append((a, g, b))
                elif any(x[0] in ("I",) for v in g.values() for x in T.atoms(v)): Ta.append((a, g, b))
            if any(p[0] == "idx" for p in ()): pass
            loopix = [x for x in ixs if any(x in T.atoms(i) for a, g, b in J + Ta for k in g for i in k)]
            bad = []
            if loopix and loopix[0][1] != ("range", num(1), PTS, T.ONE): bad.append("time points covered: %s instead of 1..points-1" % (loopix[0][1],))
            ix = Poly({((loopix[0], Fraction(1)),): Fraction(1)}) if loopix else sym("none")
            row = lambda p: ix * NVAR + p - T.ONE
            X = lambda p: atom("cell", XA, ix * NVAR + p - T.ONE, T.ZERO)
            want = expected(outs, drives, X, row)
            gj, gt = (J[0][1] if J else {}), (Ta[0][1] if Ta else {})
            if len(J) > 1 or len(Ta) > 1: bad.append("contributions spread over several arrays")
            for a, g, b in J + Ta: bad += b
            report(c, "assembly", fi.qualname, shape, pattern, match(c, "", "", gt, gj, want, fi.where, bad), fi.where)
            if first and J and Ta and isinstance(r.value, tuple) and r.value[0] == "SOLVE":
                first = False
                jm, rhs = r.value[1:]
                # jacobian handed to the linear solver: CMAT + J; right-hand side -(CMAT x + T + Tf + Tt)
                aj, at = atom("arr", J[0][0].name), atom("arr", Ta[0][0].name)
                okj = jm is not None and jm - sym("CMAT") == aj
                okr = True
                if rhs is not None:
                    neg = -rhs - at - sym("Tf") - sym("Tt")
                    got = {frozenset(("arr", x[1]) if x[0] == "arr" else x for x in T.atoms(Poly({m: Fraction(1)})) if x[0] in ("sym", "arr")) for m in neg.t}
                    okr = len(neg.t) == 1 and got == {frozenset({("sym", "CMAT"), ("arr", XA)})} and list(neg.t.values()) == [1]
                c.check(okj and okr, "every-device", "%s: linear system" % fi.qualname, "solves %s dx = %s" % (jm, rhs), fi.where)
    c.analysed(fi)

def sparse(ip, args, kw, n):
    """a sparse matrix: of the given shape, or holding the given array"""
    a = args[0]
    return a if isinstance(a, Arr) else (ip.new_arr([NVAR * PTS, NVAR * PTS], True, "zeros") if "shape" in repr(a) or isinstance(a, (tuple, PList)) else a)

def stop(ip, args, kw, n):
    a = [strip(x) for x in args]
    raise ReturnSig(("SOLVE", a[0] if a else None, a[1] if len(a) > 1 else None))
def strip(x):
    x = term(x)
    a = x.atom()
    while a and a[0] == "call" and isinstance(a[1], str) and a[1].split(".")[-1] in ("csc_matrix", "csr_matrix", "asarray", "array", "toarray"):
        if not isinstance(a[2], Poly): break
        x = a[2]; a = x.atom()
    return x

def users(c, prog):
    """Newton solver and AC linearization: every non-linear device goes through the assembly at the
    current unknowns, and the solved system is (mna + J) dx = -(mna x + T + T(x))"""
    upd = "dc_analysis._update_J_and_Tx"
    ps = prog.func(upd).params()
    for qual in ("dc_analysis.mdn_solver", "ac._generate_J", "pz.calculate_singularities"):
        fi = prog.func(qual)
        for nonlin in (True, False):
            dev = Dev([(nd(0), nd(1))], [[(nd(0), nd(1))]])
            dev.obj.attrs["is_nonlinear"] = nonlin
            dev.obj.absent |= {"is_voltage_defined"}
            def rec(ip, args, kw, n):
                d = dict(zip(ps, args)); d.update(kw)
                ip.seen.append((d, sum(1 for l in ip.loops if isinstance(l, str) and l.startswith("E|"))))
                for k, tg in (("J", "JDEV"), ("Tx", "TDEV")):
                    if isinstance(d.get(k), Arr): ip.write(d[k], ("dev",), sym(tg), n)
                return None
            def sv(ip, args, kw, n):
                ip.solved.append(tuple(strip(a) for a in args))
                return sym("dx")
            def splu(ip, args, kw, n):
                return Obj(None, "lu", {"A": strip(args[0])}, opaque=True)
            def hook(ip, b, name, args, kw, n):
                if isinstance(b, Obj) and b.name == "lu" and name == "solve":
                    ip.solved.append((b.attrs["A"], strip(args[0]))); return sym("dx")
                return dev.hook(ip, b, name, args, kw, n)
            def make(script):
                ip = interp(prog, script, dev, summaries={upd: rec, "numpy.linalg.solve": sv, "scipy.sparse.linalg.splu": splu, "scipy.sparse.linalg.spsolve": sv,
                                                       "dc_analysis.generate_mna_and_N": lambda ip, a, k, n: (ip.new_arr([NV, NV], False, "param", name="MNA"), sym("N")),
                                                       "transient.generate_D": lambda ip, a, k, n: ip.new_arr([NV, NV], False, "param", name="D"),
                                                       "numpy.linalg.inv": pzstop,
                                                       "dc_analysis.get_td": lambda ip, a, k, n: sym("td"), "dc_analysis.convergence_check": lambda ip, a, k, n: (sym("conv"), ()), "circ.is_nonlinear": lambda ip, a, k, n: nonlin},
                            opts={"notnone": lambda a: True, "meth_hook": hook, "opaque_isinstance_false": True})
                ip.seen, ip.solved = [], []
                return ip
            def go(ip):
                circ = Circ(None, "circ")
                if qual.startswith("dc"):
                    x = ip.new_arr([NVAR, T.ONE], False, "param", name="x0")
                    a = {"x": x, "mna": ip.new_arr([NVAR, NVAR], False, "param", name="MNA"), "circ": circ, "T": ip.new_arr([NVAR, T.ONE], False, "param", name="TT"), "MAXIT": sym("MAXIT"), "nv": NV,
                         "locked_nodes": sym("locked"), "time": TIME, "print_steps": False, "debug": False}
                    a = {k: v for k, v in a.items() if k in fi.params()}
                elif qual.startswith("ac"):
                    x = ip.new_arr([NVAR, T.ONE], False, "param", name="x0")
                    a = {"xop": x, "circ": circ, "reduced_mna_size": NVAR}
                else:
                    x = ip.new_arr([NVAR, T.ONE], False, "param", name="x0")
                    a = {"mc": circ, "x0": x, "MNA": None, "input_source": None, "output_port": None}
                ip.x0 = x
                return ip.call_function(fi, [], a)
            lab = "%s: %s device" % (fi.qualname, "non-linear" if nonlin else "linear")
            bad, decided, n = [], 0, 0
            for r in explore(make, go, 300):
                if qual.startswith("dc") and (r.outcome == "raise" or not r.ip.solved): continue
                if r.outcome == "unsupported": c.undecided("every-device", lab, r.error); continue
                if r.outcome == "raise": bad.append("ends in %s" % r.error); continue
                decided += 1
                cnt = len(r.ip.seen)
                if cnt != (1 if nonlin else 0): bad.append("the device is linearized %d times per evaluation" % cnt)
                for d, depth in r.ip.seen:
                    if depth != 1: bad.append("not evaluated once per element")
                    e = d.get("elem")
                    if e is not dev.obj: bad.append("linearizes something else than the element")
                    xx = d.get("x")
                    if not (xx is r.ip.x0 or (isinstance(xx, Poly) and (r.ip.x0.term().atom() in T.atoms(xx) or any(a[0] == "lv" for a in T.atoms(xx))))): bad.append("linearizes at %s" % (xx,))
                    if qual.startswith("dc"):
                        if d.get("time") != TIME: bad.append("device evaluated at time %s instead of the instant being solved" % (d.get("time"),))
                if nonlin and qual.startswith("dc"):
                    for A, rhs in r.ip.solved:
                        aa = {a[1] for a in T.atoms(A) if a[0] == "arr"}
                        ra = {a[1] for a in T.atoms(rhs) if a[0] == "arr"} | {a[1] for a in T.atoms(rhs) if a[0] == "sym"}
                        jn = r.ip.seen[0][0]["J"].name if r.ip.seen and isinstance(r.ip.seen[0][0].get("J"), Arr) else None
                        tn = r.ip.seen[0][0]["Tx"].name if r.ip.seen and isinstance(r.ip.seen[0][0].get("Tx"), Arr) else None
                        if "MNA" not in aa or jn not in aa: bad.append("solved matrix is %s, not mna + jacobian" % T.show(A))
                        if "MNA" not in ra or tn not in ra or "TT" not in ra: bad.append("right-hand side is %s, not -(mna x + T + T(x))" % T.show(rhs))
                        elif any(k > 0 for k in rhs.t.values()): bad.append("right-hand side is %s, signs differ from -(mna x + T + T(x))" % T.show(rhs))
                if nonlin and not qual.startswith("dc"):
                    jn = [d["J"] for d, _ in r.ip.seen if isinstance(d.get("J"), Arr)]
                    if qual.startswith("ac") and not (isinstance(r.value, Arr) and jn and r.value is jn[0]): bad.append("the jacobian assembled is not the one returned")
                    if qual.startswith("pz"):
                        v = r.value
                        if not (isinstance(v, tuple) and v[0] == "PZ" and any("JDEV" in repr(a) or (jn and jn[0].name in repr(a)) for a in v[1])): bad.append("the jacobian is not part of the linearized system")
            if not decided and not bad: c.undecided("every-device", lab, "no path decided"); continue
            for b in sorted(set(bad)): c.fail("every-device", "%s: %s" % (lab, b), b, fi.where)
            if not bad: c.ok("every-device", lab)
        c.analysed(fi)

def pzstop(ip, args, kw, n):
    a = args[0]
    at = [a] + [x for arr in ip.arrays for x in [arr] if arr.cells]
    raise ReturnSig(("PZ", [tokey(a)] + [repr((x.name, {repr(k): repr(v) for k, v in x.cells.items()})) for x in ip.arrays if x.cells]))
