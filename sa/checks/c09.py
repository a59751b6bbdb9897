"""C09: only converged solutions, and only of the circuit that was asked for."""
import ast, math
from fractions import Fraction
from .. import terms as T
from ..elements import SPECS, BYNAME, victim, DISTINCT, POSITIVE, Case, template
from ..interp import *
from ..program import AnalysisBroken
from ..terms import sym, atom, num, Poly
from .c06 import first_part

MNA, NDC, NTR, GM, X0, TIME = [sym(x) for x in ("MNA", "NDC", "NTRAN", "GMIN", "XINIT", "TIME")]
OPT = "ahkab.options."

def bound(fi, args, kw):
    d = dict(zip(fi.params(), args)); d.update(kw)
    return d

def logfun(base):
    def f(ip, a, kw, n):
        c = a[0].const() if isinstance(a[0], Poly) else None
        if c is None or c <= 0: return NotImplemented
        v = math.log(c) if base is None else math.log(c, base)
        if abs(v - round(v)) < 1e-12: v = round(v)
        return num(Fraction(v).limit_denominator(10 ** 9))
    return f
LOGS = {"numpy.log10": logfun(10), "math.log10": logfun(10), "numpy.log": logfun(None), "math.log": logfun(None)}

def run(c, prog):
    c.rule("homotopy", "the solution dc_solve accepts is the one of its last solve, which converged, of the very system it was handed: matrix plus requested minimum conductance, full sources", 100)
    c.rule("newton", "mdn_solver claims convergence only after the full step of a linear circuit, or when the convergence test accepted the iterate it returns", 6)
    c.rule("propagation", "each analysis returns only what converged solves gave, and no result (or an error) when one failed", 15)
    c.guard("homotopy", homotopy, c, prog)
    c.guard("newton", newton, c, prog)
    for f in (op, dc, ac, tran, pss): c.guard(f.__name__, f, c, prog)

# ------------------------------------------------------------------------- dc_solve
def homotopy(c, prog):
    fi, mdn = prog.func("dc_analysis.dc_solve"), prog.func("dc_analysis.mdn_solver")
    # the iterations of one solve and their limit: far from it, reaching it with several solves, at it, one below it
    for gmin, exc, given, nit, maxit in ((Fraction(1, 10 ** 12), False, True, 1, None), (Fraction(1, 100), True, True, 2, 5), (Fraction(1, 10), True, True, 3, 3),
                                         (Fraction(1, 10), True, True, 2, 3), (Fraction(1, 1000), False, False, 1, None)):
        def solver(ip, args, kw, n):
            d = bound(mdn, args, kw)
            k = len(ip.solves)
            rec = {"M": d.get("mna"), "T": d.get("T"), "x": d.get("x"), "ok": None, "k": k}
            ip.solves.append(rec)
            if exc:
                if ip.ask(("solve", k, "LinAlgError")): rec["ok"] = False; raise RaiseSig("LinAlgError", "mdn_solver")
                if ip.ask(("solve", k, "OverflowError")): rec["ok"] = False; raise RaiseSig("OverflowError", "mdn_solver")
            rec["ok"] = ip.ask(("solve", k, "converges"))
            return (sym("X%d" % k), sym("E%d" % k), rec["ok"], num(nit), None)
        def make(script):
            ip = Interp(prog, script, phase=1, victims=[tdep(prog)], positive=POSITIVE, budget=400000,
                        opts={"distinct": DISTINCT, "unroll": 60, "notnone": lambda a: a[0] == "sym" and a[1] not in (), "lenient_dict": True,
                              "globals": {OPT + "gmin": num(gmin)}},
                        summaries=dict(LOGS, **{"dc_analysis.mdn_solver": solver, "circuit.Circuit.get_locked_nodes": lambda ip, a, k, n: sym("LOCKED"),
                                   "circ.get_locked_nodes": lambda ip, a, k, n: sym("LOCKED")}))
            ip.solves = []
            return ip
        def go(ip):
            from ..interp import Circ
            circ = Circ(None, "circ")
            kw = {"mna": MNA, "Ndc": NDC, "circ": circ, "x0": X0, "time": TIME, "verbose": num(0)}
            if given: kw.update(Ntran=NTR, Gmin=GM)
            if maxit is not None: kw["MAXIT"] = num(maxit)
            return ip.call_function(fi, [], kw)
        seen = set()
        rs = explore(make, go, 4000, True)
        if len(rs) >= 4000: c.undecided("homotopy", "gmin %g" % float(gmin), "more than 4000 histories of failures, the others are not looked at")
        for r in rs:
            lab = "gmin %g%s: %s" % (float(gmin), "" if given else " (no minimum conductance requested)", path(r))
            if r.outcome == "unsupported": c.undecided("homotopy", lab, r.error); continue
            if r.outcome == "raise":
                if r.ip.solves and r.error.name in ("LinAlgError", "OverflowError"): c.ok("homotopy", lab + " -> error")
                elif not r.ip.solves: c.ok("homotopy", lab + " -> error: no solution method")
                else: c.fail("homotopy", "ends in %s" % r.error.name, "%s: ends in %s" % (lab, r.error), fi.where)
                continue
            v = r.value
            if not isinstance(v, tuple) or len(v) < 3: c.undecided("homotopy", lab, "returns %r" % (v,)); continue
            x, conv = v[0], v[2]
            conv = r.ip.truth(conv)
            if not conv:
                c.ok("homotopy", lab + " -> not converged"); continue
            how = method(r)
            if not r.ip.solves: c.fail("homotopy", "success without a solve", "%s: reports convergence without solving" % lab, fi.where); continue
            s = r.ip.solves[-1]
            bad = []
            if not s["ok"]: bad.append("the last solve did not converge")
            if not (isinstance(x, Poly) and x == sym("X%d" % s["k"])): bad.append("the solution returned is not the one of the last solve")
            m = clean(r.ip, s["M"])
            if not (isinstance(m, Poly) and T.equal(m, MNA + (GM if given else T.ZERO))): bad.append("the matrix of the accepted solve is %s" % T.show(m))
            t = clean(r.ip, s["T"])
            want = NDC + (NTR if given else T.ZERO)
            rest = t - want if isinstance(t, Poly) else None
            if rest is None or not (rest.is_zero() or (rest.atom() and rest.atom()[0] == "arr")): bad.append("the sources of the accepted solve are %s" % (T.show(t) if isinstance(t, Poly) else t))
            for b in bad: c.fail("homotopy", "%s: %s" % (how, generic(b)), "%s: %s" % (lab, b), fi.where)
            if not bad: c.ok("homotopy", lab)
        c.analysed(fi, *r.ip.inlined)

def tdep(prog):
    v = template(prog, BYNAME["ISource"], first_part(BYNAME["ISource"]))
    v.attrs["is_timedependent"] = True
    return v

def generic(b):
    import re
    return re.sub(r"X\d+", "X", b)

def path(r):
    return "".join("%s" % ("s" if s["ok"] else "f") for s in r.ip.solves) + " " + method(r)

def method(r):
    on = []
    for k, v in r.trace:
        t = repr(k)
        for o in ("use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"):
            if o in t: on.append("%s=%s" % (o[4:], v if "eq0" not in k[0] else not v))
    return ",".join(sorted(set(on)))

def clean(ip, t):
    """zero arrays count as zero; constants of the program are folded"""
    if isinstance(t, Arr): t = t.term()
    if not isinstance(t, Poly): return t
    arrs = {a.name: a for a in ip.arrays}
    def f(a):
        if a[0] == "arr" and a[1] in arrs and arrs[a[1]].zero and not arrs[a[1]].log: return T.ZERO
        return None
    return T.subst(t, f)

# ------------------------------------------------------------------------- Newton
def newton(c, prog):
    fi = prog.func("dc_analysis.mdn_solver")
    ident = lambda ip, a, kw, n: a[0]
    def lil(ip, a, kw, n): return ip.new_arr([sym("n"), sym("n")], True, "np")
    def solve(ip, a, kw, n):
        k = len(ip.solves)
        ip.solves.append((clean_now(ip, a[0]), clean_now(ip, a[1])))
        if ip.ask(("singular", k)): raise RaiseSig("LinAlgError", "solve")
        return sym("DX%d" % k)
    def splu(ip, a, kw, n): 
        o = Obj(None, "LU", {"M": a[0]}, opaque=True)
        return o
    def hook(ip, b, name, args, kw, n):
        if isinstance(b, Obj) and b.name == "LU" and name == "solve": return solve(ip, [b.attrs["M"], args[0]], kw, n)
        return NotImplemented
    def check(ip, a, kw, n):
        u = prog.func("utilities.convergence_check")
        d = bound(u, a, kw)
        k = len(ip.tests)
        ok = ip.ask(("test", k)) if not (d.get("debug") is True) else (ip.tests[-1][0] if ip.tests else ip.ask(("test", k)))
        ip.tests.append((ok, {x: d.get(x) for x in u.params()}))
        return (ok, ip.new_list([], n))
    def td(ip, a, kw, n): return sym("TD")
    for nonlin in (False, True):
        def make(script):
            s = {"numpy.linalg.solve": solve, "scipy.linalg.solve": solve, "scipy.sparse.linalg.spsolve": solve, "scipy.sparse.linalg.splu": splu, "utilities.convergence_check": check,
                 "dc_analysis.get_td": td, "dc_analysis._update_J_and_Tx": lambda ip, a, kw, n: upd(ip, a), "circ.is_nonlinear": lambda ip, a, k, n: nonlin, "scipy.sparse.lil_matrix": lil,
                 "scipy.sparse.coo_matrix": ident, "scipy.sparse.csc_matrix": ident, "scipy.sparse.csr_matrix": ident, "numpy.array": ident}
            from ..elements import template
            v = template(prog, BYNAME["diode" if nonlin else "Resistor"], (0, 1))
            ip = Interp(prog, script, phase=1, victims=[v], positive=POSITIVE, summaries=s,
                        opts={"distinct": DISTINCT, "unroll": 3, "meth_hook": hook, "notnone": lambda a: a[0] == "sym", "lenient_dict": True})
            ip.solves, ip.tests = [], []
            return ip
        def go(ip):
            kw = {"x": X0, "mna": MNA, "circ": Circ(None, "circ"), "T": sym("TVEC"), "MAXIT": sym("MAXIT"), "nv": sym("NV"), "locked_nodes": sym("LOCKED"), "time": TIME}
            return ip.call_function(fi, [], kw)
        for r in explore(make, go, 900):
            lab = "%s circuit: %s" % ("non-linear" if nonlin else "linear", "".join("t" if v else "f" for k, v in r.trace))
            if r.outcome == "unsupported":
                if "loop bound" not in str(r.error): c.undecided("newton", lab, r.error)
                continue
            if r.outcome == "raise": c.ok("newton", lab + " -> error"); continue
            v = r.value
            if not isinstance(v, tuple) or len(v) < 3: c.undecided("newton", lab, "returns %r" % (v,)); continue
            conv = r.ip.truth(v[2])
            if not conv: c.ok("newton", lab + " -> not converged"); continue
            bad = []
            if not r.ip.solves: bad.append("convergence without a step")
            else:
                k = len(r.ip.solves) - 1
                prev = X0
                for i in range(k): prev = prev + sym("TD") * sym("DX%d" % i)
                x = v[0].term() if isinstance(v[0], Arr) else v[0]
                A, b = r.ip.solves[-1]
                if not nonlin:
                    if not (isinstance(x, Poly) and T.equal(x, prev + sym("DX%d" % k))): bad.append("a linear circuit's solution is %s, not the full step" % (T.show(x) if isinstance(x, Poly) else x))
                    if k and not same_system(r.ip): bad.append("steps of different systems")
                else:
                    if not r.ip.tests or not r.ip.tests[-1][0]: bad.append("convergence is claimed although the last convergence test %s" % ("failed" if r.ip.tests else "was never made"))
                    else:
                        d = r.ip.tests[-1][1]
                        names = list(d)
                        if not eq(d[names[0]], x): bad.append("the convergence test looked at %s, the iterate returned is %s" % (show(d[names[0]]), show(x)))
                        if not eq(d[names[1]], sym("DX%d" % k)): bad.append("the convergence test looked at the update %s, not the last one" % show(d[names[1]]))
                        res = d[names[2]]
                        if isinstance(b, Poly) and not (eq(res, -b) or eq(res, b)): bad.append("the convergence test looked at a residual that is not the one solved for")
                        if not eq(d[names[3]], sym("NV") - T.ONE): bad.append("the convergence test splits the unknowns at %s" % show(d[names[3]]))
            for m in bad: c.fail("newton", "%s circuit: %s" % ("non-linear" if nonlin else "linear", m), "%s: %s" % (lab, m), fi.where)
            if not bad: c.ok("newton", lab)
        c.analysed(fi)

def upd(ip, a):
    ip.events.append(("updated",))
    return None

def same_system(ip): return all(s[0] == ip.solves[0][0] for s in ip.solves)
def clean_now(ip, x): return x.term() if isinstance(x, Arr) else x
def eq(a, b):
    a = a.term() if isinstance(a, Arr) else a
    b = b.term() if isinstance(b, Arr) else b
    return isinstance(a, Poly) and isinstance(b, Poly) and T.equal(a, b)
def show(x): return T.show(x) if isinstance(x, Poly) else repr(x)

# ------------------------------------------------------------------------- analyses
class Scripted(object):
    """summary of dc_solve (or op_analysis): the k-th call converges or not, at will"""
    def __init__(self, prog):
        self.prog, self.fi = prog, prog.func("dc_analysis.dc_solve")
    def solve(self, ip, args, kw, n):
        d = bound(self.fi, args, kw)
        k = len(ip.solves)
        ok = ip.ask(("solve", k))
        ip.solves.append((ok, d))
        if not ok: return (None, None, False, num(1))
        return (sym("X%d" % k), sym("E%d" % k), True, num(1))

def base_opts(**k):
    o = {"distinct": DISTINCT, "lenient_dict": True, "opaque_isinstance_false": True, "notnone": lambda a: a[0] in ("sym", "call", "arr", "glob"), "unroll": 3}
    o.update(k)
    return o

def ok_solves(ip): return {"X%d" % k for k, s in enumerate(ip.solves) if s[0]}

def sols(v):
    """the solver results a value is made of"""
    out = set()
    def walk(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m: walk(a)
        elif isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == "sym" and isinstance(x[1], str) and x[1][:1] in "XE" and x[1][1:].isdigit(): out.add("X" + x[1][1:])
            for y in x: walk(y)
        elif isinstance(x, dict):
            for y in x.values(): walk(y)
        elif isinstance(x, Arr): walk(x.term())
    walk(v)
    return out

class Result(Obj): pass

def containers(ip_rec):
    def new(name):
        def f(ip, args, kw, n):
            o = Obj(None, "%s#%d" % (name, len(ip.made)), {}, opaque=True)
            o.kind, o.data = name, [tokey(a) for a in args] + [tokey(v) for v in kw.values()]
            ip.made.append(o)
            return o
        return f
    return {n: new(n) for n in ("op_solution", "dc_solution", "ac_solution", "tran_solution", "pss_solution")}

def hook(ip, b, name, args, kw, n):
    if isinstance(b, Obj) and getattr(b, "kind", None):
        if name in ("add_op", "add_line", "set_results"):
            b.data += [tokey(a) for a in args] + [tokey(v) for v in kw.values()]
            ip.added.append((b, tuple(args) + tuple(kw.values())))
            return None
        if name == "asarray":
            return atom("call", "asarray", b.term(), tuple(b.data))
        if name == "gmin_check": return ip.new_list([], n)
    return NotImplemented

def judge(c, rule, who, r, fi, need_all=True):
    """one path of one analysis"""
    lab = "%s: solves %s" % (who, "".join("s" if s[0] else "f" for s in r.ip.solves))
    if r.outcome == "unsupported":
        if "loop bound" not in str(r.error): c.undecided(rule, lab, r.error)
        return
    if r.outcome == "raise": c.ok(rule, lab + " -> error"); return
    v = r.value
    if v is None: c.ok(rule, lab + " -> no result"); return
    bad = []
    good = ok_solves(r.ip)
    used = set()
    if isinstance(v, Obj) and getattr(v, "kind", None):
        for d in v.data: used |= sols(d)
    elif isinstance(v, Poly): used = sols(v)
    else: c.undecided(rule, lab, "returns %r" % (v,)); return
    if not good: bad.append("a result is returned although no solve converged")
    for u in sorted(used - good): bad.append("the result holds the outcome of a solve that failed")
    if need_all and any(not s[0] for s in r.ip.solves[-1:]): bad.append("a result is returned although the last solve failed")
    if need_all == "every" and any(not s[0] for s in r.ip.solves): bad.append("a result is returned although a solve failed")
    if not used and good: bad.append("the result holds no solution")
    for b in bad: c.fail(rule, "%s: %s" % (who, b), "%s: %s" % (lab, b), fi.where)
    if not bad: c.ok(rule, lab)
    return bad

def driver(prog, fi, kw, summaries, opts=None, limit=3000, globs=None):
    def make(script):
        s = dict(containers(None)); s.update(summaries)
        o = base_opts(meth_hook=hook)
        o.update(opts or {})
        o["globals"] = globs or {}
        v = template(prog, BYNAME["Resistor"], (0, 1))
        ip = Interp(prog, script, phase=1, victims=[v], positive=POSITIVE, summaries=s, opts=o, budget=300000)
        ip.solves, ip.made, ip.added = [], [], []
        return ip
    def go(ip): return ip.call_function(fi, [], kw(ip) if callable(kw) else dict(kw))
    return explore(make, go, limit)

MATS = {"dc_analysis.generate_mna_and_N": lambda ip, a, k, n: (MNA, sym("N")), "utilities.remove_row_and_col": lambda ip, a, k, n: a[0],
        "utilities.remove_row": lambda ip, a, k, n: a[0], "dc_analysis.build_gmin_matrix": lambda ip, a, k, n: GM,
        "dc_guess.get_dc_guess": lambda ip, a, k, n: sym("GUESS"), "transient.generate_D": lambda ip, a, k, n: sym("D"),
        "ac._generate_AC": lambda ip, a, k, n: sym("AC"), "ac._generate_Nac": lambda ip, a, k, n: sym("NAC"), "ac._generate_J": lambda ip, a, k, n: sym("J")}

def op(c, prog):
    fi = prog.func("dc_analysis.op_analysis")
    S = Scripted(prog)
    s = dict(MATS); s["dc_analysis.dc_solve"] = S.solve
    s["results.op_solution.gmin_check"] = lambda ip, a, k, n: ip.new_list([], n)
    for r in driver(prog, fi, lambda ip: {"circ": Circ(None, "circ"), "x0": None, "outfile": None, "verbose": num(0)}, s):
        bad = judge(c, "propagation", "operating point", r, fi, need_all=False)
        if bad == [] and isinstance(r.value, Obj):
            # every solve is of the circuit itself: its matrix, its sources, at most the requested minimum conductance
            for ok, d in r.ip.solves:
                g = d.get("Gmin")
                c.check(eq(d.get("mna"), MNA) and eq(d.get("Ndc"), sym("N")) and (g is None or eq(g, GM) or eq(g, T.ZERO)), "propagation",
                        "operating point: system solved", "solves mna=%s Ndc=%s Gmin=%s" % (show(d.get("mna")), show(d.get("Ndc")), show(g)), fi.where)
    c.analysed(fi)

def dc(c, prog):
    fi = prog.func("dc_analysis.dc_analysis")
    opf = prog.func("dc_analysis.op_analysis")
    def opa(ip, args, kw, n):
        d = bound(opf, args, kw)
        k = len(ip.solves)
        ok = ip.ask(("solve", k))
        ip.solves.append((ok, d))
        if not ok: return None
        o = Obj(None, "OP%d" % k, {}, opaque=True)
        o.kind, o.data = "op_solution", [sym("X%d" % k)]
        o.k = k
        return o
    grid = lambda ip, a, kw, n: ip.new_list([sym("W%d" % i) for i in range(3)], n)
    for stype in ("LINEAR", "LOG"):
        def args(ip):
            src = template(prog, BYNAME["VSource"], (0, None))
            src.attrs["part_id"] = "V1"
            src.name = "V1"
            ip.src = src
            l = Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list([src], ast.Pass(lineno=0))}, opaque=True)
            return {"circ": l, "start": sym("START"), "stop": sym("STOP"), "step": sym("STEP"), "source": "V1", "sweep_type": stype, "outfile": None, "verbose": num(0)}
        def keep(ip, a, kw, n): return None
        for r in driver(prog, fi, args, {"dc_analysis.op_analysis": opa, "utilities.lin_axis_iterator": grid, "utilities.log_axis_iterator": grid, "lin_axis_iterator": grid, "log_axis_iterator": grid},
                        globs={OPT + "dc_lin_step": "LIN", OPT + "dc_log_step": "LOG"}):
            skip = any("dc_sweep_skip_allowed" in repr(k) and (v if "eq0" not in k[0] else not v) for k, v in r.trace)
            who = "DC sweep (%s)%s" % (stype.lower(), ", skipping allowed" if skip else "")
            # what add_op got
            for o, a in r.ip.added:
                for x in a:
                    if isinstance(x, Obj) and getattr(x, "kind", "") == "op_solution": o.data += x.data
            judge(c, "propagation", who, r, fi, need_all=False if skip else "every")
    c.analysed(fi)

def ac(c, prog):
    fi = prog.func("ac.ac_analysis")
    S = Scripted(prog)
    grid = lambda ip, a, kw, n: ip.new_list([sym("W%d" % i) for i in range(2)], n)
    for nonlin in (False, True):
        def opa(ip, args, kw, n):
            ok = ip.ask(("op",))
            ip.op = ok
            return Obj(None, "OP", {}, opaque=True) if ok else None
        s = dict(MATS)
        s.update({"dc_analysis.dc_solve": S.solve, "lin_axis_iterator": grid, "log_axis_iterator": grid, "circ.is_nonlinear": lambda ip, a, k, n: nonlin, "dc_analysis.op_analysis": opa,
                  "Circuit": lambda ip, a, k, n: Obj(None, "DUMMY", {}, opaque=True), "numpy.complex": lambda ip, a, k, n: sym("j")})
        for r in driver(prog, fi, lambda ip: {"circ": Circ(None, "circ"), "start": sym("START"), "points": sym("POINTS"), "stop": sym("STOP"), "sweep_type": "LOG", "x0": None, "outfile": None, "verbose": num(0)}, s,
                        globs={OPT + "ac_lin_step": "LIN", OPT + "ac_log_step": "LOG"}):
            who = "AC analysis%s" % (" of a non-linear circuit" if nonlin else "")
            judge(c, "propagation", who, r, fi, need_all="every")
            if nonlin and getattr(r.ip, "op", None) is False and r.outcome == "return" and r.value is not None:
                c.fail("propagation", who + ": linearized without an operating point", "a result is returned although the operating point failed", fi.where)
    c.analysed(fi)

def tran(c, prog):
    fi = prog.func("transient.transient_analysis")
    S = Scripted(prog)
    for step_control in (True, False):
        s = dict(MATS)
        s.update({"dc_analysis.dc_solve": S.solve, "implicit_euler.get_df": lambda ip, a, k, n: (sym("XC"), sym("CONST"), sym("LTEC"), None, None),
                  "transient.check_step": lambda ip, a, k, n: sym("STEP%d" % len(ip.solves)), "implicit_euler.has_ff": lambda ip, a, k, n: True})
        for r in driver(prog, fi, lambda ip: {"circ": Circ(None, "circ"), "tstart": sym("TSTART"), "tstep": sym("TSTEP"), "tstop": sym("TSTOP"), "method": "IMPLICIT_EULER",
                                              "x0": X0, "mna": MNA, "N": sym("N"), "D": sym("D"), "use_step_control": step_control, "outfile": "f", "verbose": num(0)}, s,
                        opts={"unroll": 3}, globs={OPT + "transient_no_step_control": False}):
            if not r.ip.solves: continue        # an empty time range
            judge(c, "propagation", "transient%s" % ("" if step_control else ", fixed step"), r, fi, need_all=True if step_control else "every")
    c.analysed(fi)

def pss(c, prog):
    # brute force: the result exists only if the last convergence test said so
    fi = prog.func("bfpss.bfpss")
    def test(ip, a, k, n):
        ok = ip.ask(("solve", len(ip.solves)))
        ip.solves.append((ok, {}))
        return ok
    s = dict(MATS)
    mk = lambda nm: (lambda ip, a, k, n: sym(nm))
    s.update({"bfpss._convergence_check": test, "bfpss._build_CMAT": lambda ip, a, k, n: ip.new_arr([sym("n"), sym("n")], False, "np"), "bfpss._build_x": mk("X"), "bfpss._build_Tf": mk("TF"),
              "bfpss._build_Tt": mk("TT"), "utilities.check_step_and_points": lambda ip, a, k, n: (num(2), sym("STEP")), "circ.is_nonlinear": lambda ip, a, k, n: True,
              "dc_analysis.get_td": lambda ip, a, k, n: sym("TD")})
    def judge2(who, r, fi, ok, solved_any):
        lab = "%s: tests %s" % (who, "".join("s" if x[0] else "f" for x in r.ip.solves))
        if r.outcome == "unsupported":
            if "loop bound" not in str(r.error): c.undecided("propagation", lab, r.error)
            return
        if r.outcome == "raise": c.ok("propagation", lab + " -> error"); return
        if r.value is None: c.ok("propagation", lab + " -> no result"); return
        c.check(ok(r), "propagation", "%s: a result is returned although the last test of convergence failed" % who, lab, fi.where)
    for r in driver(prog, fi, lambda ip: {"circ": Circ(None, "circ"), "period": sym("PERIOD"), "points": num(2), "mna": MNA, "Tf": sym("N"), "D": sym("D"), "outfile": "f", "verbose": num(0)}, s, opts={"unroll": 3}):
        judge2("brute-force steady state", r, fi, lambda r: bool(r.ip.solves) and r.ip.solves[-1][0], True)
    c.analysed(fi)
    fs = prog.func("shooting.shooting_analysis")
    def trans(ip, a, k, n):
        ok = ip.ask(("transient",))
        ip.started = ok
        return sym("XTRAN") if ok else None
    def decide_hook(ip): pass
    s = dict(MATS)
    cnt = {}
    def dxn(ip, a, k, n):
        ip.round = getattr(ip, "round", 0) + 1
        return sym("DXN%d" % ip.round)
    s.update({"transient.transient_analysis": trans, "shooting._build_static_MAass_and_MBass": lambda ip, a, k, n: (sym("MA"), sym("MB")), "shooting._build_Tass_static_vector": lambda ip, a, k, n: (sym("T0"), sym("T1")),
              "shooting._get_variable_MAass_and_Tass": lambda ip, a, k, n: (sym("MAV"), sym("TV")), "shooting._compute_dxN": dxn, "shooting._compute_dx": lambda ip, a, k, n: sym("DX%d" % ip.round),
              "dc_analysis.get_td": lambda ip, a, k, n: sym("TD"), "shooting._vector_norm_wrapper": lambda ip, a, k, n: atom("norm", tokey(a[0])),
              "utilities.check_step_and_points": lambda ip, a, k, n: (num(2), sym("STEP"))})
    def last_test(r):
        """the last comparison of the update's norm with a tolerance found it smaller"""
        out = None
        for k, v in r.trace:
            if k[0] not in ("lt0", "gt0"): continue
            co = [cf for m, cf in k[1].t.items() for a, e in m if a[0] == "norm" and "DXN" in repr(a) and "XTRAN" not in repr(a)]
            if not co: continue
            out = v if (k[0] == "lt0") == (co[0] > 0) else not v
        return out is True
    for r in driver(prog, fs, lambda ip: {"circ": Circ(None, "circ"), "period": sym("PERIOD"), "points": num(2), "matrices": None, "outfile": "f", "vector_norm": Ext("norm"), "verbose": num(0)}, s, opts={"unroll": 5}, limit=4000):
        judge2("shooting", r, fs, lambda r: getattr(r.ip, "started", False) and last_test(r), True)
    c.analysed(fs)
