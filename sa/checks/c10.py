"""C10: voltage tolerances judge voltages, current tolerances judge currents."""
import ast
from .. import terms as T
from ..elements import DISTINCT, POSITIVE, BYNAME, template
from ..interp import *
from ..terms import sym, atom, num, Poly
from . import c09
from .c09 import OPT, bound, driver, X0, MATS
from .c06 import first_part

TOLS = {n: sym(n) for n in ("vea", "ver", "iea", "ier")}
GLOBS = {OPT + n: v for n, v in TOLS.items()}
WANT = {"dxV": ("vea", "ver"), "dxI": ("iea", "ier"), "rV": ("iea", None), "rI": ("vea", None)}
NAMES = {"dxV": "the update of a node voltage", "dxI": "the update of a branch current", "rV": "the residual of a node equation", "rI": "the residual of a branch equation"}

def run(c, prog):
    c.rule("newton test", "on every accepting path of the Newton convergence test each update and each residual was compared with the tolerances of its own kind, and with no others", 6)
    c.rule("test inputs", "the Newton solver hands the test its iterate, its last update, the residual, and splits the unknowns after the node voltages", 4)
    c.rule("steady state test", "on every accepting path of the convergence tests of the steady-state analyses, voltage updates were compared with the voltage tolerances and current updates with the current tolerances", 6)
    c.rule("truncation bound", "the bound put on the truncation error of an unknown is made of its own kind of tolerances", 2)
    c.rule("gmin check", "the operating point's check for the influence of Gmin judges each variable with its own kind of tolerances", 2)
    c.guard("newton test", newton_test, c, prog)
    c.guard("test inputs", inputs, c, prog)
    c.guard("steady state test", brute, c, prog)
    c.guard("steady state test", shoot, c, prog)
    c.guard("truncation bound", lte, c, prog)
    c.guard("gmin check", gmin, c, prog)

# ------------------------------------------------------------------ terms
def names_in(x, out=None):
    out = set() if out is None else out
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m: names_in(a, out)
            if False: pass
    elif isinstance(x, (tuple, list, frozenset)):
        if len(x) == 2 and x[0] == "sym" and isinstance(x[1], str): out.add(x[1])
        else:
            for y in x: names_in(y, out)
    elif isinstance(x, dict):
        for y in x.values(): names_in(y, out)
    return out

def kind(nm):
    for k in ("dxV", "dxI", "rV", "rI", "xV", "xI"):
        if nm.startswith(k) and nm[len(k):].isdigit(): return k
    return None

def polys(x):
    """every polynomial inside a value, outermost first"""
    if isinstance(x, Poly):
        yield x
        for m in x.t:
            for a, e in m:
                for p in polys(a): yield p
                for p in polys(e): yield p
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            for p in polys(y): yield p
    elif isinstance(x, dict):
        for y in x.values():
            for p in polys(y): yield p

def bounds(r):
    """the inequalities a path established: [(poly <= 0)]"""
    for k, v in r.trace:
        if not (isinstance(k, tuple) and k and k[0] in ("lt0", "gt0") and isinstance(k[1], Poly)): continue
        neg = (k[0] == "lt0") == bool(v)
        yield k[1] if neg else -k[1]

def judge(p):
    """poly <= 0 as 'subject <= bound': (subject symbols, problem or None), or None if no tolerance judges data here"""
    subj, tol, bad = set(), {}, []
    kinds = set()
    for m, cf in p.t.items():
        nm = set()
        for a, e in m: names_in(a, nm)
        ts = nm & set(TOLS)
        ds = {n for n in nm if kind(n)}
        if not ts:
            if not ds:
                if m == () : bad.append("with the constant %s besides" % T.show(num(-cf)))
                continue
            if cf > 0:
                subj |= ds
                kinds |= {kind(n) for n in ds}
            else: bad.append("allowing it the size of %s without a tolerance" % "/".join(sorted({kind(n) for n in ds})))
        else:
            if len(ts) > 1: bad.append("with the product of tolerances %s" % "*".join(sorted(ts)))
            t = sorted(ts)[0]
            if cf > 0: return None
            if cf != -1: bad.append("with %s scaled by %s" % (t, T.show(num(-cf))))
            tol[t] = tol.get(t, set()) | ds
    jk = {k for k in kinds if k in WANT}
    if not jk or not tol: return None
    return subj, jk, tol, bad

def ordered(p):
    """a comparison of data with data: (symbols found not larger, symbols found not smaller)"""
    lo, hi = set(), set()
    for m, cf in p.t.items():
        nm = set()
        for a, e in m: names_in(a, nm)
        if nm & set(TOLS): return None
        (lo if cf > 0 else hi).update(n for n in nm if kind(n))
    return lo, hi

def verdict(subj, jk, tol, bad, residual=True):
    """problem text or None"""
    if bad: return bad[0]
    if len(jk) > 1: return "together with %s" % ", ".join(NAMES[k] for k in sorted(jk)[1:])
    ab, rel = WANT[sorted(jk)[0]]
    g = sorted(jk)[0][-1]
    for t, ds in tol.items():
        if t not in (ab, rel): return "with %s" % t
        if t == rel:
            if not ds: return "with %s as if it were absolute" % t
            if {kind(n)[-1] for n in ds} != {g}: return "relatively to the other group of unknowns"
            if not all(kind(n)[:1] in "xd" for n in ds): return "relatively to the residual"
        elif ds: return "with %s as if it were relative" % t
    if ab not in tol: return "without %s" % ab
    if rel and rel not in tol: return "without %s" % rel
    return None

def accept(c, rule, who, r, need, fi):
    """one accepting path"""
    done, seen, n = set(), set(), 0
    for p in bounds(r):
        j = judge(p)
        if j is None: continue
        n += 1
        subj, jk, tol, bad = j
        seen |= subj
        v = verdict(subj, jk, tol, bad)
        nm = NAMES[sorted(jk)[0]]
        if v: c.fail(rule, "%s: %s is judged %s" % (who, nm, v), "%s <= 0" % T.show(p), fi.where)
        else:
            c.ok(rule, "%s: %s" % (who, nm))
            done |= subj
    cmp = [o for o in map(ordered, bounds(r)) if o and o[0]]
    for _ in cmp:
        for lo, hi in cmp:
            if hi <= done: done |= lo
    for k in sorted({kind(x) for x in need - done}):
        if {x for x in need - done if kind(x) == k} <= seen: continue
        c.fail(rule, "%s: accepts without judging %s" % (who, NAMES[k]), "never compared: %s" % ", ".join(sorted(x for x in need - done if kind(x) == k)), fi.where)

def col(*names): return Mat((len(names), 1), [sym(x) for x in names])

# ------------------------------------------------------------------ Newton
def newton_test(c, prog):
    fi = prog.func("utilities.convergence_check")
    for nv, ni in ((2, 1), (1, 2), (2, 0), (0, 1)):
        idx = ["V%d" % i for i in range(nv)] + ["I%d" % i for i in range(ni)]
        for debug in (False, True):
            def make(script):
                return Interp(prog, script, phase=0, positive=set(TOLS), budget=100000, opts={"smallmat": True, "globals": GLOBS, "unroll": 8, "notnone": lambda a: True})
            def go(ip):
                return ip.call_function(fi, [], dict(zip(fi.params(), [col(*["x" + i for i in idx]), col(*["dx" + i for i in idx]), col(*["r" + i for i in idx]), num(nv), debug])))
            n = 0
            for r in explore(make, go, 600):
                who = "Newton convergence test"
                if r.outcome == "unsupported": c.undecided("newton test", "%d+%d unknowns" % (nv, ni), r.error); continue
                if r.outcome == "raise": continue
                v = r.value[0] if isinstance(r.value, tuple) else r.value
                if r.ip.truth(v):
                    n += 1
                    accept(c, "newton test", who, r, {k + i for k in ("dx", "r") for i in idx}, fi)
            if not debug: c.check(n > 0, "newton test", "Newton convergence test: never accepts", "%d+%d unknowns" % (nv, ni), fi.where)
    c.analysed(fi, prog.func("utilities.custom_convergence_check"))

def inputs(c, prog):
    class Proxy(object):
        """the Newton obligations that concern the test's inputs, under this property's rule"""
        def ok(self, rule, lab=None): c.ok("test inputs", lab)
        def undecided(self, rule, lab, why): c.undecided("test inputs", lab, why)
        def fail(self, rule, key, text, where=None):
            if "convergence test" in key or "residual" in key: c.fail("test inputs", key, text, where)
        def analysed(self, *a): c.analysed(*a)
    c09.newton(Proxy(), prog)

# ------------------------------------------------------------------ steady state
def norm_of(v): return atom("norm", tokey(v))

def brute(c, prog):
    fi = prog.func("bfpss.bfpss")
    who = "brute-force steady state test"
    idx = ["V0", "V1", "I0", "V10", "V11", "I10"]
    seen = []
    real = prog.func("bfpss._convergence_check")
    def solve(ip, a, k, n): return col(*["dx" + i for i in idx])
    def td(ip, a, k, n): return num(1)
    for ni in (1, 0):
        idx = ["V0", "V1"] + ["I0"] * ni + ["V10", "V11"] + ["I10"] * ni
        nn = 2 + ni
        s = {"bfpss._build_CMAT": lambda ip, a, k, n: Mat((2 * nn, 2 * nn), [T.ONE if i == j else T.ZERO for i in range(2 * nn) for j in range(2 * nn)]),
             "bfpss._build_x": lambda ip, a, k, n: col(*["x" + i for i in idx]), "bfpss._build_Tf": lambda ip, a, k, n: col(*["r" + i for i in idx]),
             "bfpss._build_Tt": lambda ip, a, k, n: Mat((2 * nn, 1), [T.ZERO] * (2 * nn)), "numpy.linalg.solve": lambda ip, a, k, n: col(*["dx" + i for i in idx]),
             "dc_analysis.get_td": lambda ip, a, k, n: num(1), "utilities.check_step_and_points": lambda ip, a, k, n: (num(2), sym("STEP")),
             "circ.get_nodes_number": lambda ip, a, k, n: num(3), "circ.get_locked_nodes": lambda ip, a, k, n: sym("LOCKED"), "NORM": None}
        s.pop("NORM")
        m = Mat((nn, nn), [T.ZERO] * (nn * nn))
        def norm(ip, a, k, n): return norm_of(a[0])
        s["vnorm"] = norm
        kw = lambda ip: {"circ": Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list([], ast.Pass(lineno=0))}, opaque=True), "period": sym("PERIOD"), "points": num(2), "mna": m, "Tf": Mat((nn, 1), [T.ZERO] * nn), "D": m,
                         "outfile": "f", "vector_norm": Ext("vnorm"), "verbose": num(0)}
        s.update({"circuit.Circuit.get_nodes_number": lambda ip, a, k, n: num(3), "circuit.Circuit.get_locked_nodes": lambda ip, a, k, n: sym("LOCKED")})
        n = 0
        for r in driver(prog, fi, kw, s, opts={"unroll": 1, "smallmat": True}, globs=dict(GLOBS, **{OPT + "dense_matrix_limit": num(400)})):
            if r.outcome == "unsupported":
                if "loop bound" not in str(r.error): c.undecided("steady state test", who, r.error)
                continue
            if r.outcome == "raise" or r.value is None: continue
            n += 1
            accept(c, "steady state test", who, r, {"dx" + i for i in idx}, fi)
        if n == 0: c.undecided("steady state test", who, "no accepting path found")
    c.analysed(fi, real)

def norms(key):
    """norms are positive"""
    if key[0] in ("lt0", "gt0", "eq0") and isinstance(key[1], Poly) and len(key[1].t) == 1:
        m, cf = list(key[1].t.items())[0]
        if len(m) == 1 and m[0][0][0] == "norm": return {"lt0": cf < 0, "gt0": cf > 0, "eq0": False}[key[0]]
    return None

def shoot(c, prog):
    fi = prog.func("shooting._convergence_check")
    fs = prog.func("shooting.shooting_analysis")
    who = "shooting test"
    for ni in (1, 0):
        idx = [["V0", "V1"] + ["I0"] * ni, ["V10", "V11"] + ["I10"] * ni]
        nn = 2 + ni
        row = lambda pre, i: Mat((nn,), [sym(pre + j) for j in idx[i]])
        m = Mat((nn, nn), [T.ZERO] * (nn * nn))
        s = {"transient.transient_analysis": lambda ip, a, k, n: Mat((2 * nn, 1), [sym("x" + j) for p in idx for j in p]),
             "shooting._build_static_MAass_and_MBass": lambda ip, a, k, n: (m, m), "shooting._build_Tass_static_vector": lambda ip, a, k, n: (T.ZERO, T.ZERO),
             "shooting._get_variable_MAass_and_Tass": lambda ip, a, k, n: (m, T.ZERO), "shooting._compute_dxN": lambda ip, a, k, n: row("dx", 1),
             "shooting._compute_dx": lambda ip, a, k, n: row("dx", 0), "dc_analysis.get_td": lambda ip, a, k, n: T.ZERO,
             "utilities.check_step_and_points": lambda ip, a, k, n: (num(2), sym("STEP")), "circuit.Circuit.get_nodes_number": lambda ip, a, k, n: num(3),
             "circuit.Circuit.get_locked_nodes": lambda ip, a, k, n: sym("LOCKED"), "vnorm": lambda ip, a, k, n: norm_of(a[0])}
        kw = lambda ip: {"circ": Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list([], ast.Pass(lineno=0))}, opaque=True), "period": sym("PERIOD"), "points": num(2),
                         "matrices": PD(ip, {"MNA": m, "Tf": Mat((nn, 1), [T.ZERO] * nn), "D": m}),
                         "outfile": "f", "vector_norm": Ext("vnorm"), "verbose": num(0)}
        n = 0
        for r in driver(prog, fs, kw, s, opts={"unroll": 5, "smallmat": True, "decide": norms}, globs=dict(GLOBS, **{OPT + "shooting_max_nr_iter": T.ZERO}), limit=1500):
            if r.outcome == "unsupported":
                if "loop bound" not in str(r.error): c.undecided("steady state test", who, r.error)
                continue
            if r.outcome == "raise" or r.value is None: continue
            n += 1
            accept(c, "steady state test", who, r, {"dx" + i for p in idx for i in p}, fi)
        if n == 0: c.undecided("steady state test", who, "no accepting path found")
    c.analysed(fi, fs)

# ------------------------------------------------------------------ transient
def lte(c, prog):
    fi = prog.func("transient.transient_analysis")
    who = "transient truncation error"
    idx = ["V0", "V1", "I0"]
    S = c09.Scripted(prog)
    def solve(ip, a, k, n):
        i = len(ip.solves)
        ip.solves.append((True, {}))
        return (col(*["x" + j + str(i) for j in idx]), sym("E"), True, num(1))
    def get_df(ip, a, k, n):
        pr = k.get("predict", a[2] if len(a) > 2 else False)
        return (sym("XC"), col(*["c"] * 3), sym("LTEC"), col(*["dx" + j for j in idx]) if ip.solves else None, sym("PLTEC"))
    m = Mat((3, 3), [T.ZERO] * 9)
    s = dict(MATS)
    s.update({"dc_analysis.dc_solve": solve, "implicit_euler.get_df": get_df, "transient.check_step": lambda ip, a, k, n: sym("STEP%d" % len(ip.solves)),
              "implicit_euler.has_ff": lambda ip, a, k, n: True, "circuit.Circuit.get_nodes_number": lambda ip, a, k, n: num(3), "circuit.Circuit.get_locked_nodes": lambda ip, a, k, n: sym("LOCKED")})
    kw = lambda ip: {"circ": Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list([], ast.Pass(lineno=0))}, opaque=True), "tstart": sym("TSTART"), "tstep": sym("TSTEP"), "tstop": sym("TSTOP"),
                     "method": "IMPLICIT_EULER", "x0": col("a", "b", "d"), "mna": m, "N": col("n", "n", "n"), "D": m, "use_step_control": True, "outfile": "f", "verbose": num(0)}
    got = {}
    n = 0
    for r in driver(prog, fi, kw, s, opts={"unroll": 2, "smallmat": True, "notnone": lambda a: True}, globs=dict(GLOBS, **{OPT + "transient_no_step_control": False, OPT + "transient_max_time_iter": num(0)}), limit=400):
        for k, v in r.trace:
            for p in polys(k):
                groups = {}
                for mono, cf in p.t.items():
                    nm = set()
                    for a, e in mono: names_in(a, nm)
                    ts, ds = nm & set(TOLS), {x for x in nm if kind(x)}
                    if len(ts) != 1 or not ds: continue
                    ks = {kind(x)[-1] for x in ds}
                    if len(ks) != 1: continue
                    groups.setdefault(ks.pop(), set()).update(ts)
                for g, ts in groups.items(): got.setdefault(g, set()).add(frozenset(ts))
        n += 1
    for g, nm in (("V", "node voltage"), ("I", "branch current")):
        full = {x for x in got.get(g, ()) if len(x) > 1}
        want = frozenset(WANT["dx" + g])
        if not full: c.undecided("truncation bound", "%s of a %s" % (who, nm), "no bound found on %d paths" % n); continue
        for ts in full:
            if ts == want: c.ok("truncation bound", nm)
            else: c.fail("truncation bound", "%s: a %s is judged with %s" % (who, nm, " and ".join(sorted(ts))), "documented: %s and %s" % WANT["dx" + g], fi.where)
    c.analysed(fi)

# ------------------------------------------------------------------ gmin check
def gmin(c, prog):
    fi = prog.func("results.op_solution.gmin_check")
    who = "Gmin check"
    def make(script):
        return Interp(prog, script, phase=0, positive=set(TOLS), opts={"globals": GLOBS, "notnone": lambda a: True}, budget=100000)
    def go(ip):
        nd = ast.Pass(lineno=0)
        def o(pre):
            x = Obj(prog.cls("results.op_solution"), pre, {}, opaque=True)
            x.attrs.update(variables=ip.new_list(["V1", "I(V1)"], nd), units=PD(ip, {"V1": "V", "I(V1)": "A"}), results=PD(ip, {"V1": sym(pre + "V0"), "I(V1)": sym(pre + "I0")}))
            return x
        return ip.call_function(fi, [o("dx"), o("x")], {})
    for r in explore(make, go, 200):
        if r.outcome != "return": c.undecided("gmin check", who, r.error); continue
        v = r.value
        items = v.items if isinstance(v, PList) else None
        if items is None: c.undecided("gmin check", who, "returns %r" % (v,)); continue
        need = {("dxV0" if nm == "V1" else "dxI0") for nm in ("V1", "I(V1)") if nm not in items}
        if need: accept(c, "gmin check", who, r, need, fi)
    c.analysed(fi)

def PD(ip, d):
    return PDict({tokey(k): v for k, v in d.items()})
