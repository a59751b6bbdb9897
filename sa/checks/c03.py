from .. import terms as T
from ..elements import *
from ..interp import Obj, PList, Arr, PDict, ReturnSig
from .. import stampspec as S
from ..terms import sym, atom, num

NV, TIME, STEP, NVAR, PTS = sym("NV"), sym("t"), sym("step"), sym("nvar"), sym("points")

def tf(): return Obj(None, "tf", opaque=True)
def tfval(t): return atom("call", "()", tf().term(), t)
MAG, PH = sym("mag"), sym("ph")

def flags(s):
    if s.name in ("VSource", "ISource"):
        return [({}, "constant"),
                ({"is_timedependent": True, "_time_function": tf()}, "time-dependent with dc"),
                ({"is_timedependent": True, "_time_function": tf(), "dc_value": None}, "time-dependent"),
                ({"abs_ac": MAG, "arg_ac": PH}, "constant with ac"),
                ({"abs_ac": MAG, "arg_ac": PH, "is_timedependent": True, "_time_function": tf()}, "time-dependent with ac")]
    return [({}, "")]

def run(c, prog):
    c.rule("static-excitation", "the constant vector receives -dc once in the branch row of a constant voltage source, +dc/-dc once at the nodes of a constant current source, nothing from any other element or from a time-dependent source", 150)
    c.rule("timed-excitation", "the time-dependent vector of each analysis receives each time-dependent source's value at the instant being solved exactly once, with the same convention, and nothing else", 300)
    c.rule("ac-excitation", "the AC vector receives magnitude*exp(j*phase) of each source exactly once with the static convention", 100)
    c.rule("source-value", "the value of a source: dc value if constant, the time function at the given time if time-dependent, the dc value (if any) when no time is given", 8)
    c.guard("static", static, c, prog)
    c.guard("dc_solve", dc, c, prog)
    c.guard("bfpss", bf, c, prog)
    c.guard("shooting", sh, c, prog)
    c.guard("ac", ac, c, prog)
    c.guard("value", value, c, prog)

def static(c, prog):
    fi = prog.func("dc_analysis.generate_mna_and_N")
    def pick(v, ip):
        if isinstance(v, tuple) and len(v) == 2: return [v[1]]
        return None
    st = Stamper(prog, fi, lambda ip, circ: ([circ], {"verbose": T.ZERO}), pick=pick, opaque=("utilities.check_ground_paths",))
    compare(c, "static-excitation", fi.where, st, S.cases(flags), lambda case: {"N": S.static(case)["N"]}, arrays=("N",))

def timed(case, t, node, branch, have_time=True):
    m = {}
    nd = S.terms_of(case)
    def add(k, v): m[k] = m.get(k, T.ZERO) + v
    if case.flags.get("is_timedependent"):
        v = tfval(t) if have_time or case.flags.get("dc_value", 1) is None else sym("dc")
        if case.spec.name == "VSource": add(branch, -v)
        else:
            if not nd["n1"].is_zero(): add(node(nd["n1"]), v)
            if not nd["n2"].is_zero(): add(node(nd["n2"]), -v)
    return m

def dc(c, prog):
    fi = prog.func("dc_analysis.dc_solve")
    for tm, lab in ((TIME, "time given"), (None, "no time")):
        for skip in (False, True):
            def stop(ip, args, kw, n):
                names = prog.func("dc_analysis.mdn_solver").params()
                d = dict(zip(names, args)); d.update(kw)
                raise ReturnSig(("MDN", d))
            def bind(ip, circ):
                kw = {"mna": sym("MNA"), "Ndc": sym("Ndc"), "circ": circ, "Ntran": sym("Ntran"), "Gmin": sym("Gmin"), "x0": None,
                      "time": tm, "locked_nodes": sym("locked"), "skip_Tt": skip, "verbose": T.ZERO}
                return [], kw
            def pick(v, ip):
                if not (isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "MDN"): return None
                t = v[1].get("T")
                if not isinstance(t, Poly): return None
                rest = t - sym("Ndc") - sym("Ntran")
                tts = [a for a in T.atoms(t) if a[0] == "arr"]
                ip.tt_bad = []
                if skip and not tts:
                    if not rest.is_zero(): ip.tt_bad.append("excitation passed to the solver is %s" % T.show(t))
                    return [Arr("none", [T.ONE], True)]
                if len(tts) != 1 or rest != Poly({((tts[0], Fraction(1)),): Fraction(1)}):
                    ip.tt_bad.append("excitation passed to the solver is %s, not constant + time-dependent + integration terms" % T.show(t))
                    return None
                m = v[1].get("mna")
                tv = v[1].get("time")
                if not (tv is tm or tv == tm): ip.tt_bad.append("time passed to the solver is %s" % (tv,))
                return [[a for a in ip.arrays if a.name == tts[0][1]][0]]
            st = Stamper(prog, fi, bind, pick=pick, facts={("isnone", TIME): False, ("eq0", atom("glob", "ahkab.options.use_standard_solve_method")): False},
                         summaries={"dc_analysis.mdn_solver": stop}, opts={"notnone": lambda a: a[0] in ("sym", "attr")})
            def spec(case, r):
                m = {} if skip else timed(case, tm if tm is not None else ("None",), lambda n: (n - T.ONE, T.ZERO), (NV - T.ONE + OWN, T.ZERO), tm is not None)
                return {"Tt": m, "bad": getattr(r.ip, "tt_bad", [])}
            compare(c, "timed-excitation", fi.where, st, S.cases(flags), spec, arrays=("Tt",), ground=None, dynamic=True,
                    fname="ahkab.dc_analysis.dc_solve (%s%s)" % (lab, ", skip_Tt" if skip else ""))

def loop_idx(r, lo):
    """index atom of the time loop and whether it runs over lo..points-1"""
    best = None
    for a in r.value or []:
        if not isinstance(a, Arr): continue
        for k, v in a.cells.items():
            for i in k:
                if isinstance(i, Poly):
                    for x in T.atoms(i):
                        if x[0] == "idx": best = x
            if isinstance(v, Poly):
                for x in T.atoms(v):
                    if x[0] == "idx": best = best or x
    return best

def idx_bad(x, lo):
    if x is None: return []
    c = x[1]
    if c == ("range", num(lo), PTS, T.ONE): return []
    return ["time loop covers %s instead of points %d..points-1" % (c, lo)]

def bf(c, prog):
    fi = prog.func("bfpss._build_Tt")
    def bind(ip, circ):
        return [], {"circ": circ, "points": PTS, "step": STEP, "tick": Obj(None, "tick", opaque=True), "n_of_var": NVAR, "verbose": T.ZERO}
    st = Stamper(prog, fi, bind, pick=lambda v, ip: [v] if isinstance(v, Arr) else None)
    def spec(case, r):
        x = loop_idx(r, 1)
        ix = Poly({((x, Fraction(1)),): Fraction(1)}) if x else sym("no time loop")
        return {"Tt": timed(case, ix * STEP, lambda n: (ix * NVAR + n - T.ONE, T.ZERO), (ix * NVAR + NV - T.ONE + OWN, T.ZERO)), "bad": idx_bad(x, 1)}
    compare(c, "timed-excitation", fi.where, st, S.cases(flags), spec, arrays=("Tt",), ground=None, dynamic=True)

def sh(c, prog):
    fi = prog.func("shooting._build_Tass_static_vector")
    def bind(ip, circ):
        return [], {"circ": circ, "Tf": sym("Tf"), "points": PTS, "step": STEP, "tick": Obj(None, "tick", opaque=True), "n_of_var": NVAR, "verbose": T.ZERO}
    def pick(v, ip):
        if not isinstance(v, PList) or v.items or len(v.per) != 1 or len(v.per[0][1]) != 1: return None
        e = v.per[0][1][0]
        if not isinstance(e, Poly): return None
        tts = [a for a in T.atoms(e) if a[0] == "arr"]
        if len(tts) != 1 or e - sym("Tf") != Poly({((tts[0], Fraction(1)),): Fraction(1)}): return None
        return [[a for a in ip.arrays if a.name == tts[0][1]][0]]
    st = Stamper(prog, fi, bind, pick=pick)
    def spec(case, r):
        x = loop_idx(r, 0)
        ix = Poly({((x, Fraction(1)),): Fraction(1)}) if x else sym("no time loop")
        return {"Tt": timed(case, ix * STEP, lambda n: (n - T.ONE,), (NV - T.ONE + OWN,)), "bad": idx_bad(x, 0)}
    compare(c, "timed-excitation", fi.where, st, S.cases(flags), spec, arrays=("Tt",), ground=None, dynamic=True)

def ac(c, prog):
    fi = prog.func("ac._generate_Nac")
    st = Stamper(prog, fi, lambda ip, circ: ([circ], {}), pick=lambda v, ip: [v] if isinstance(v, Arr) else None,
                 opts={"notnone": lambda a: a[0] == "sym"})
    def spec(case):
        m = {}
        if case.flags.get("abs_ac") is not None:
            v = MAG * T.exp(T.J * PH)
            nd = S.terms_of(case)
            if case.spec.name == "VSource": m[(NV + OWN, T.ZERO)] = -v
            else:
                for n, s in ((nd["n1"], T.ONE), (nd["n2"], -T.ONE)):
                    if not n.is_zero(): m[(n, T.ZERO)] = m.get((n, T.ZERO), T.ZERO) + s * v
        return {"Nac": m}
    compare(c, "ac-excitation", fi.where, st, S.cases(flags), spec, arrays=("Nac",))

def value(c, prog):
    for cls, meth in (("components.sources.VSource", "V"), ("components.sources.ISource", "I")):
        ci = prog.cls(cls)
        fi = prog.find_method(ci, meth)
        if fi is None: raise AnalysisBroken("%s.%s" % (cls, meth))
        spec = BYNAME[cls.split(".")[-1]]
        for fl, lab in flags(spec):
            for tm in (TIME, None):
                def make(script): return Interp(prog, script, facts={("isnone", TIME): False}, positive=POSITIVE, opts={"notnone": lambda a: a[0] == "sym"})
                def go(ip):
                    v = victim(prog, spec, (0, 1), fl)
                    return ip.call_function(fi, [tm] if tm is not None else [], {}, self_=v)
                want = sym("dc")
                if fl.get("is_timedependent"):
                    if tm is not None: want = tfval(TIME)
                    elif fl.get("dc_value", 1) is None: want = tfval(("None",))
                for r in explore(make, go):
                    good = r.outcome == "return" and isinstance(r.value, Poly) and r.value == want
                    c.check(good, "source-value", "%s.%s %s, %s" % (cls, meth, lab, "time given" if tm is not None else "no time"),
                            "gives %s, documented %s" % (r.value if r.outcome == "return" else r.error, T.show(want)), fi.where)
        # polar form of the AC amplitude
        init = prog.find_method(ci, "__init__")
        def make(script): return Interp(prog, script, positive={("sym", "acv")}, opts={"notnone": lambda a: a[0] == "sym"})
        def go(ip):
            o = Obj(ci, "s")
            ip.call_function(init, [], {"part_id": sym("id"), "n1": sym("x"), "n2": sym("y"), "dc_value": sym("dc"), "ac_value": sym("acz")}, self_=o)
            return o
        for r in explore(make, go):
            if r.outcome != "return": c.undecided("source-value", cls + " ac amplitude", r.error); continue
            z = dict(r.trace).get(("eq0", sym("acz")))
            a, g = r.value.attrs.get("abs_ac"), r.value.attrs.get("arg_ac")
            if z is True: continue
            good = isinstance(a, Poly) and a in (atom("call", "abs", sym("acz")),) and isinstance(g, Poly) and g.atom() and g.atom()[0] == "call" and "angle" in str(g.atom()[1]) or \
                   (isinstance(g, Poly) and g.atom() and g.atom()[0] == "call" and str(g.atom()[1]).endswith("phase"))
            c.check(good, "source-value", "%s ac amplitude" % cls, "magnitude %s, phase %s" % (a, g), init.where)
        c.analysed(fi, init)
