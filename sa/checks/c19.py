"""C19: conductances are derivatives of currents."""
import ast
from fractions import Fraction
from .. import terms as T
from ..devices import Device, runs
from ..interp import *
from ..terms import sym, atom, num, Poly

V = [sym("v0"), sym("v1"), sym("v2")]

def run(c, prog):
    c.rule("derivative", "on every path of the evaluation, the conductance reported for a driving port is the derivative of the current expression computed on the same path", 15)
    c.rule("stamp", "a device that stamps itself stamps the derivatives: column of a node = sum over driving ports of (+/-) d I / d v(port)", 8)
    c.rule("op-info", "the current, conductance and power reported for the operating point are the device's own current and conductance at the reported voltages", 4)
    c.rule("guess", "one starting guess per driving port", 4)
    c.guard("diode", scalar, c, prog, Device(prog, "diode.diode", "diode.diode_model", "model"), 1)
    c.guard("tunnel junction", scalar, c, prog, Device(prog, "components.TunnelJunction.TunnelJunction", "components.TunnelJunction.TunnelJunctionModel", "model"), 1)
    c.guard("switch", scalar, c, prog, Device(prog, "switch.switch_device", "switch.vswitch_model", "model"), 2)
    for pol in (1, -1):
        c.guard("mosq", mosq, c, prog, pol)
    c.guard("op-info", opinfo, c, prog)
    c.guard("guess", guesses, c, prog)

def constants_of(prog, dev):
    """attributes the constructor of the model sets to constants (matrices, slopes)"""
    out = {}
    init = prog.find_method(dev.mi, "__init__")
    if init is None: return out
    ps = set(init.params())
    for n in ast.walk(init.node):
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute)): continue
        t = n.targets[0]
        if not (isinstance(t.value, ast.Name) and t.value.id == init.params()[0]): continue
        if not isinstance(n.value, ast.Call): continue
        names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        if names & ps or not names <= {"np", "numpy", "tuple", "list"}: continue
        vals = [ast.literal_eval(a) for a in n.value.args[:1] if literal(a)]
        if vals and isinstance(vals[0], (tuple, list)): out[t.attr] = vals[0]
    return out

def out_of_scope(ip, args, kw, n):
    raise RaiseSig("OutOfScope", "", "")

def exp_summary(ip, args, kw, n):
    """an exponential of a constant is the overflow guard: not in closed form of the voltage"""
    x = term(args[0])
    if x.const() is not None and abs(x.const()) > 1: out_of_scope(ip, args, kw, n)
    return T.exp(x)

SCOPE = {"scipy.optimize.newton": out_of_scope, "numpy.exp": exp_summary, "math.exp": exp_summary}

def literal(a):
    try: ast.literal_eval(a); return True
    except Exception: return False

def region_ok(r):
    """paths where the derivative is claimed: no overflow guard, no series resistance, no isolated point"""
    f = dict(r.trace)
    for k, v in r.trace:
        if k[0] == "gt0" and not v and f.get(("lt0", k[1])) is False: return False
        if k[0] == "eq0" and v and any(a in T.atoms(k[1]) for a in (("sym", "v0"), ("sym", "v1"), ("sym", "v2"))): return False
    return True

def guarded(p):
    """the value of a saturated exponential or of an iterative solve"""
    for a in T.atoms(p):
        if a[0] == "root": return True
        if a[0] == "exp" and a[1].const() is not None: return True
    return False

def gm_atoms(p):
    return [a for a in T.atoms(p) if a[0] != "poly" and "gmin" in T.show_atom(a) and not any(isinstance(x, Poly) for x in a[1:])]

def matches(c, g, d):
    """g equals the derivative d, up to an added multiple of the minimum conductance"""
    if T.equal(g, d): return True
    for a in gm_atoms(g):
        rest = T.subst(g, lambda b: num(0) if b == a else None)
        added = (g - rest) / Poly({((a, Fraction(1)),): Fraction(1)})
        if added.const() is not None and T.equal(rest, d): return True
    return False

def pathkey(r):
    return "; ".join("%s %s=%s" % (k[0], T.show(k[1]) if len(k) > 1 else "", v) for k, v in r.trace)

def name(dev): return dev.ci.name

def scalar(c, prog, dev, nports):
    fi, fg = prog.find_method(dev.ci, "i"), prog.find_method(dev.ci, "g")
    c.analysed(fi, fg)
    for port in range(nports):
        def call(ip, e, d, m):
            v = tuple(V[:nports])
            cur = ip.call_function(fi, [num(0), v], self_=e)
            g = ip.call_function(fg, [num(0), v, num(port)], self_=e)
            cur2 = ip.call_function(fi, [num(0), v], self_=e)
            return (cur, g, cur2)
        n = 0
        for r in runs(prog, dev, call, limit=800, summaries=SCOPE):
            lab = "%s port %d" % (name(dev), port)
            if r.outcome != "return":
                if r.outcome == "unsupported": c.undecided("derivative", lab, r.error)
                continue
            i, g, i2 = [term(x) for x in r.value]
            if not region_ok(r) or guarded(i) or guarded(g): continue
            if not T.equal(i, i2): i = i2       # hysteresis: the state the conductance was evaluated in
            try: d = T.diff(i, V[port].atom())
            except T.NotDifferentiable as x:
                c.undecided("derivative", lab, "not differentiable: %s" % x); continue
            n += 1
            c.check(matches(c, g, d), "derivative", lab, "where %s: current %s, conductance %s, derivative %s" % (pathkey(r), T.show(i), T.show(g), T.show(d)), fg.where)
        if not n: c.undecided("derivative", "%s port %d" % (name(dev), port), "no path in closed form")
    if prog.find_method(dev.ci, "gstamp") and prog.find_method(dev.ci, "istamp") and nports == 1:
        stamps(c, prog, dev, [("n1", {0: 1}), ("n2", {0: -1})], 1)

def stamps(c, prog, dev, cols, nports, prep=None, extra=""):
    """cols: [(node attribute, {port: sign of its voltage in the port})]"""
    fi, fg = prog.find_method(dev.ci, "istamp"), prog.find_method(dev.ci, "gstamp")
    c.analysed(fi, fg)
    nn = len(cols)
    def call(ip, e, d, m):
        v = tuple(V[:nports])
        si = ip.call_function(fi, [v], {"reduced": False}, self_=e)
        sg = ip.call_function(fg, [v], {"reduced": False}, self_=e)
        return si, sg
    for r in runs(prog, dev, call, limit=1500, prep=prep, summaries=SCOPE):
        lab = name(dev) + extra
        if r.outcome != "return":
            if r.outcome == "unsupported": c.undecided("stamp", lab, r.error)
            continue
        try:
            (ii, iv), (gi, gv) = r.value
            I = vec(r.ip, iv); G = mat(r.ip, gv)
        except Exception as x:
            c.undecided("stamp", lab, "shape of the stamps: %s %s" % (type(x).__name__, x)); continue
        if not region_ok(r) or any(guarded(x) for x in I) or any(guarded(x) for row in G for x in row): continue
        try:
            D = [T.diff(I[0], V[p].atom()) for p in range(nports)]
        except T.NotDifferentiable as x:
            c.undecided("stamp", lab, "not differentiable: %s" % x); continue
        # isolated points where a conductance vanishes get a minimum conductance instead
        if any(k[0] == "eq0" and v and any(not d.is_zero() and T.equal(d.primitive()[1], k[1]) for d in D) for k, v in r.trace): continue
        bad = []
        drain = 0; source = next(k for k, (a, s) in enumerate(cols) if a == "n2")
        for k, (a, s) in enumerate(cols):
            want = T.ZERO
            for p, sg in s.items(): want = want + D[p] * num(sg)
            if not matches(c, G[drain][k], want): bad.append("d I / d %s is %s instead of %s" % (a, T.show(G[drain][k]), T.show(want)))
            if not matches(c, G[source][k], -want): bad.append("-d I / d %s at n2 is %s" % (a, T.show(G[source][k])))
        if not T.equal(I[0] + I[1], T.ZERO): bad.append("the currents of the two nodes are not opposite")
        if bad: c.fail("stamp", lab + ": " + ", ".join(b.split(" is ")[0] for b in bad), "where %s: %s" % (pathkey(r), "; ".join(bad)), fg.where)
        else: c.ok("stamp", lab)

def vec(ip, x):
    m = mat_of(x)
    return [term(y) for y in m.vals]

def mat(ip, x):
    m = mat_of(x)
    return [r.vals for r in m.rows()]

def mosq(c, prog, pol):
    dev = Device(prog, "mosq.mosq_device", "mosq.mosq_mos_model", "mosq_model")
    cons = constants_of(prog, dev)
    def prep(ip, e, d, m):
        m.attrs["NPMOS"] = num(pol)
        d.attrs["mckey"] = None
        for k, v in cons.items(): m.attrs[k] = mat_of(tuple(tuple(num(x) for x in row) for row in v))
    stamps(c, prog, dev, [("n1", {0: 1}), ("ng", {1: 1}), ("n2", {0: -1, 1: -1, 2: -1}), ("nb", {2: 1})], 3, prep, " (%s channel)" % ("n" if pol == 1 else "p"))

# -- reports -------------------------------------------------------------------------------
def opinfo(c, prog):
    for el, mo, at, ports in (("diode.diode", "diode.diode_model", "model", 1),
                              ("components.TunnelJunction.TunnelJunction", "components.TunnelJunction.TunnelJunctionModel", "model", 1),
                              ("switch.switch_device", "switch.vswitch_model", "model", 2),
                              ("mosq.mosq_device", "mosq.mosq_mos_model", "mosq_model", 3),
                              ("ekv.ekv_device", "ekv.ekv_mos_model", "ekv_model", 3)):
        c.guard(el + " report", report, c, prog, el, mo, at, ports)

def report(c, prog, el, mo, at, ports):
    """get_op_info with the evaluations left symbolic: I(v) and G(v, port) of this very device at these very voltages"""
    dev = Device(prog, el, mo, at)
    f = prog.find_method(dev.ci, "get_op_info")
    if f is None: return
    c.analysed(f)
    v = tuple(V[:ports])
    def s_i(ip, a, kw, n): return atom("I", tokey(vt(a[2] if len(a) > 2 else kw["ports_v"])))
    def s_g(ip, a, kw, n): return atom("G", tokey(vt(a[2] if len(a) > 2 else kw["ports_v"])), tokey(a[3] if len(a) > 3 else kw["port_index"]))
    def s_is(ip, a, kw, n):
        x = atom("I", tokey(vt(a[1] if len(a) > 1 else kw["ports_v"])))
        return ((), Mat((2,), [x, -x]))
    def s_gs(ip, a, kw, n):
        g = [atom("G", tokey(vt(a[1] if len(a) > 1 else kw["ports_v"])), num(k)) for k in range(3)]
        row = [g[0], g[1], -g[0] - g[1] - g[2], g[2]]
        return ((), Mat((4, 4), row + [T.ZERO] * 4 + [-x for x in row] + [T.ZERO] * 4))
    summ = {"*.i": s_i, "*.g": s_g, "*.istamp": s_is, "*.gstamp": s_gs}
    def vt(x): return tuple(term(y) for y in (x.items if isinstance(x, PList) else x.vals if isinstance(x, Mat) else x))
    def make_prep(ip, e, d, m):
        e.attrs["part_id"] = sym("id")
        o = PDict({"state": tuple(sym("s%d" % k) for k in range(ports))})
        if at == "ekv_model": o.items["WMSI"] = num(2)
        e.attrs["opdict"] = o
    I, G = atom("I", tokey(v)), lambda k: atom("G", tokey(v), num(k))
    got_any, why = False, None
    for r in runs(prog, dev, lambda ip, e, d, m: ip.call_function(f, [((v),)], self_=e), prep=make_prep, limit=300, summaries=summ):
        if r.outcome == "unsupported": c.undecided("op-info", name(dev), r.error); continue
        if r.outcome == "raise":
            why = r.error; continue
        if any(k[0] == "eq0" and x and any(a[0] in ("I", "G") for a in T.atoms(k[1])) for k, x in r.trace): continue
        same = all(x for k, x in r.trace if k[0] == "eq0" and any(a == ("sym", "s0") for a in T.atoms(k[1]))) and any(k[0] == "eq0" for k, x in r.trace)
        labels = labelled(r.value)
        if labels is None: c.undecided("op-info", name(dev), "report %r" % (r.value,)); continue
        for lab, val in labels.items():
            want = expected_of(name(dev), lab, v, I, G)
            if want is None or not isinstance(val, Poly): continue
            if any("opdict" in T.show_atom(a) for a in T.atoms(val)): continue
            got_any = True
            c.check(T.equal(val, want), "op-info", "%s: %s" % (name(dev), lab), "%s is reported as %s, the device's own is %s" % (lab, T.show(val), T.show(want)), f.where)
    if not got_any: c.undecided("op-info", name(dev), "no labelled value found (%s)" % (why,))

def labelled(v):
    """{label: value} of a report: (labels, values) or a table of label, unit, value"""
    if not isinstance(v, tuple) or len(v) != 2: return None
    k, x = v
    it = lambda z: list(z.items) if isinstance(z, PList) else list(z) if isinstance(z, tuple) else []
    out = {}
    if k is not None:
        ks, xs = it(k), it(x)
        if len(ks) != len(xs): return {"number of labels": num(len(ks)), "number of values": num(len(xs))}
        for a, b in zip(ks, xs):
            if isinstance(a, str): out[a] = b
        return out
    for row in it(x):
        row = it(row)
        for i in range(len(row) - 2):
            if isinstance(row[i], str) and isinstance(row[i + 1], str) and row[i + 1].startswith("["): out[row[i]] = row[i + 2]
    return out

def expected_of(cls, lab, v, I, G):
    if lab == "number of values": return num(-1)
    l = lab.split(" ")[0]
    if l.startswith("V(n1") or l in ("VO", "Vds", "Vdb"): return v[0]
    if l in ("VS", "Vgs", "Vgb"): return v[1]
    if l in ("Vbs", "Vsb"): return v[2]
    if l.startswith("I(n1") or l in ("I", "Ids"): return I
    if l == "P": return v[0] * I
    if cls in ("diode", "TunnelJunction") and l == "gm": return G(0)
    if l == "R": return G(0) ** -1
    if l in ("ro", "rob"): return G(0) ** -1
    if l == "gm": return G(1)
    if l == "gmg": return G(1)
    if l in ("gmb", "gms"): return G(2)
    return None

def guesses(c, prog):
    import itertools
    from ..elements import Case, victim, POSITIVE, DISTINCT, SPECS, partitions, nodes_of, template
    f = prog.func("dc_guess.get_dc_guess")
    c.analysed(f)
    for s in SPECS:
        if not s.nonlinear: continue
        for part in partitions(len(s.terminals)):
            nd = nodes_of(part)
            def stop(ip, a, kw, n): raise RaiseSig("StopHere", "", "")
            def make(script):
                vv = victim(prog, s, part)
                ip = Interp(prog, script, phase=1, victims=[vv, vv], positive=POSITIVE, opts={"distinct": DISTINCT, "notnone": lambda a: True, "decide": later},
                            summaries={"utilities.remove_row_and_col": stop, "circ.is_nonlinear": lambda ip, a, kw, n: True, "circ.get_nodes_number": lambda ip, a, kw, n: sym("NV")})
                ip.circ = Circ(None, "circ"); ip.vic = vv
                return ip
            lab = str(Case(s, part))
            for r in explore(make, lambda ip: ip.call_function(f, [ip.circ], {"verbose": num(0)})):
                if r.outcome == "unsupported": c.undecided("guess", lab, r.error); continue
                if r.outcome == "raise" and r.error.name != "StopHere":
                    c.fail("guess", s.name + " ends in " + r.error.name, "%s: ends in %s" % (lab, r.error), f.where); continue
                ports = r.ip.vic.attrs.get("ports")
                g = r.ip.vic.attrs.get("dc_guess")
                if not isinstance(ports, tuple) or g is None: continue
                gl = list(g.items) if isinstance(g, PList) else list(g) if isinstance(g, tuple) else None
                if gl is None:
                    if isinstance(g, Poly) and any(a[0] == "call" for a in T.atoms(g)): gl = [load(r.ip, g, k) for k in range(len(ports))]
                    else: c.fail("guess", s.name + " shape", "%s: the guess is %r, not one per port" % (lab, g), f.where); continue
                if len(gl) != len(ports): c.fail("guess", s.name + " shape", "%s: %d guesses for %d ports" % (lab, len(gl), len(ports)), f.where); continue
                M, Tt = tables(r.ip)
                rows, rhs = {}, {}
                for i, x in M.items(): rows.setdefault(i[0], {})[i[1]] = term(x)
                for i, x in Tt.items(): rhs[i[0]] = term(x)
                bad, left = [], dict(rows)
                for p, (a, b) in enumerate(ports):
                    if T.equal(a, b): continue
                    hit = [k for k, row in left.items() if set(row) == {a, b} and T.equal(row[a], T.ONE) and T.equal(row[b], -T.ONE)]
                    if not hit: bad.append("no equation states v(%s) - v(%s)" % (T.show(a), T.show(b))); continue
                    ok = [k for k in hit if k in rhs and T.equal(rhs[k], term(gl[p]))]
                    if not ok: bad.append("port %d uses the guess %s instead of %s" % (p, T.show(rhs.get(hit[0], T.ZERO)), T.show(term(gl[p])))); del left[hit[0]]
                    else: del left[ok[0]]
                if left and not bad: bad.append("%d equations more than ports" % len(left))
                for b in bad: c.fail("guess", s.name + ": " + b.split("(")[0].split(" uses")[0], "%s: %s" % (lab, b), f.where)
                if not bad: c.ok("guess", lab)

def later(key):
    """a generic element: equations of other elements come before"""
    if key[0] == "eq0" and any(a[0] == "lv" for a in T.atoms(key[1])): return False
    return None

def load(ip, g, k): return atom("sub", g, num(k))

def tables(ip):      # the coefficient matrix and the right-hand side
    M = Tt = None
    for a in ip.arrays:
        two = [k for k in a.cells if len(k) == 2]
        if two and a.shape and len(a.shape) == 2 and not T.equal(term(a.shape[1]), T.ONE): M = a.cells if M is None or len(a.cells) >= len(M) else M
        elif a.cells: Tt = a.cells if Tt is None or len(a.cells) >= len(Tt) else Tt
    if M is None: M = {}
    if Tt is None: Tt = {}
    return M, Tt
