from .. import terms as T
from ..elements import *
from ..interp import Obj, PList, Arr, PDict, ReturnSig, strip_case, tokey, explore, Interp
from .. import stampspec as S
from ..terms import sym, atom, num

NV = sym("NV")
SV = sym("laplace")
def symbol(name): return atom("symbol", strip_case(name) if isinstance(name, Poly) else name)

def factory(ip, args, kw, n):
    return symbol(args[0])

ID = sym("id:self")
def pre(prefix): return atom("symbol", atom("cat", (prefix, ("%", "s", ID))))

def flags(s):
    out = []
    for issym, lab in ((True, "symbolic"), (False, "numeric")):
        base = {"is_symbolic": issym}
        if s.name == "Inductor":
            for fl, l2 in S.coupling_flags(s):
                f = dict(fl); f.update(base)
                out.append((f, "%s, %s" % (l2, lab)))
        else: out.append((base, lab))
    return out

def val(case):
    issym = case.flags.get("is_symbolic", True)
    def v(name):
        if not issym: return sym(name)
        if name.startswith("M"): return symbol(sym("id:K" + name[1:]))
        return symbol(ID)
    return v

def spec(ac, r0s, hv, sub=None):
    def f(case):
        V = val(case)
        st = S.static(case, V)
        m, n = st["mna"], st["N"]
        if case.spec.name == "HVSource":
            b = (NV + OWN, NV + vde(SRC))
            m[b] = T.subst(hv, lambda a: V("alpha") if a == sym("alpha").atom() else None)
        if ac:
            for k, v in S.reactive(case, V)["D"].items(): m[k] = m.get(k, T.ZERO) + v * SV
        nd, nm = S.terms_of(case), case.spec.name
        if nm in ("mosq_device", "ekv_device"):
            d, g, s = nd["nd"], nd["ng"], nd["ns"]
            gm = pre("gm_")
            m.add(d, g, gm); m.add(d, s, -gm); m.add(s, g, -gm); m.add(s, s, gm)
            if r0s: S.four(m, d, s, d, s, T.ONE / pre("r0_"))
        elif nm == "diode":
            g = pre("g")
            S.four(m, nd["n1"], nd["n2"], nd["n1"], nd["n2"], g)
        if sub is not None:
            f2 = lambda a: sub if a in SUBST else None
            for a in (m, n):
                for k in list(a): a[k] = T.subst(a[k], f2)
        return {"mna": m, "N": n}
    return f

SUBST = {symbol(ID).atom()} | {pre(x).atom() for x in ("gm_", "r0_", "g")}

def numeric_hv(prog):
    """the term the numeric analyses stamp for the controlling current of an HVSource"""
    fi = prog.func("dc_analysis.generate_mna_and_N")
    st = Stamper(prog, fi, lambda ip, circ: ([circ], {"verbose": T.ZERO}), opaque=("utilities.check_ground_paths",))
    cs = [Case(BYNAME["HVSource"], (0, 1))]
    st.learn(S.cases())
    for r in st.runs(cs[0], 2):
        if r.outcome == "return" and isinstance(r.value, tuple) and isinstance(r.value[0], Arr):
            for k, (d, over) in cells(r.value[0]).items():
                if isinstance(d, Poly) and norm_key(k, VDE | {"UserVDE"})[-1] == NV + vde(SRC): return d
    return -sym("alpha")

def run(c, prog):
    global HV
    HV = numeric_hv(prog)
    c.rule("symbolic-law", "net contribution of one generic element to each cell of the symbolic matrix and excitation equals the numeric law with the element's symbol (or its number when it is not symbolic) and s for d/dt", 600)
    c.rule("substitution", "a symbol to be substituted is replaced wherever the element's symbol enters", 60)
    c.rule("conductances", "formulated with conductances, replacing the auxiliary symbols back gives the same equations", 10)
    c.rule("reduction", "the solved equations are the full ones without the ground row and column, for the unknowns in the numeric order", 3)
    c.guard("equations", equations, c, prog)
    c.guard("reduction", reduction, c, prog)
    c.guard("unknowns", unknowns, c, prog)

def stamper(prog, ac, r0s, gs=False, subs=None):
    fi = prog.func("symbolic.generate_mna_and_N")
    def bind(ip, circ):
        d = PDict()
        for k in (subs or ()): d.items[k] = sym("replacement"); d.keyvals[k] = k
        o = PDict({"r0s": r0s})
        return [circ], {"opts": o, "ac": ac, "subs": d, "verbose": T.ZERO}
    def pick(v, ip):
        if not (isinstance(v, tuple) and len(v) >= 2): return None
        if len(v) > 2 and isinstance(v[2], PDict) and v[2].items:
            back = {}
            for k, x in v[2].items.items():
                if isinstance(k, Poly) and k.atom() and isinstance(x, Poly): back[k.atom()] = x
            for a in v[:2]:
                if isinstance(a, Arr):
                    for k in a.cells:
                        if isinstance(a.cells[k], Poly): a.cells[k] = T.subst(a.cells[k], lambda z: back.get(z))
        lap = {("glob", "ahkab.symbolic.s")}
        for a in v[:2]:
            if isinstance(a, Arr):
                for k in a.cells:
                    if isinstance(a.cells[k], Poly): a.cells[k] = T.subst(a.cells[k], lambda z: SV if z in lap else None)
        return list(v[:2])
    facts = {("eq0", atom("glob", "ahkab.options.symb_formulate_with_gs")): not gs}
    return fi, Stamper(prog, fi, bind, pick=pick, summaries={"symbolic._symbol_factory": factory}, facts=facts,
                       positive={("symbol", ID)})

def equations(c, prog):
    for ac in (True, False):
        for r0s in (True, False):
            fi, st = stamper(prog, ac, r0s)
            cs = S.cases(flags) if r0s else S.cases(flags, which=("mosq_device", "ekv_device", "diode"), user=False)
            compare(c, "symbolic-law", fi.where, st, cs, spec(ac, r0s, HV), fname="ahkab.symbolic.generate_mna_and_N (%s%s)" % ("ac" if ac else "dc", ", r0" if r0s else ""))
            c.analysed(*st.inlined)
    only = lambda s: [f for f in flags(s) if f[0].get("is_symbolic") and not f[0].get("couplings")]
    fi, st = stamper(prog, True, False, subs=[Poly({((a, Fraction(1)),): Fraction(1)}) for a in sorted(SUBST, key=repr)])
    compare(c, "substitution", fi.where, st, S.cases(only, user=False), spec(True, False, HV, sym("replacement")), fname="ahkab.symbolic.generate_mna_and_N (subs)")
    fi, st = stamper(prog, True, False, gs=True)
    compare(c, "conductances", fi.where, st, S.cases(flags, which=("Resistor",), user=False), spec(True, False, HV), fname="ahkab.symbolic.generate_mna_and_N (conductances)")

def reduction(c, prog):
    fi = prog.func("symbolic.symbolic_analysis")
    MNA, N, X = sym("MNA"), sym("NN"), sym("XX")
    seen = []
    for ac in (True, False):
        def gen(ip, args, kw, n):
            names = prog.func("symbolic.generate_mna_and_N").params()
            d = dict(zip(names, args)); d.update(kw)
            seen.append(d)
            return (MNA, N, PDict())
        def solve(ip, args, kw, n): raise ReturnSig(("SOLVE", args[0] if args else kw.get("f"), args[1] if len(args) > 1 else kw.get("symbols")))
        def tolist(ip, args, kw, n): return atom("reallist", args[0])
        def make(script):
            return Interp(prog, script, summaries={"symbolic.generate_mna_and_N": gen, "sympy.solve": solve, "symbolic._to_real_list": tolist,
                          "symbolic.get_variables": lambda ip, a, k, n: X, "symbolic._parse_substitutions": lambda ip, a, k, n: PDict(),
                          "sympy.Eq": lambda ip, a, k, n: a[0] - a[1] if isinstance(a[0], Poly) and len(a) > 1 and isinstance(a[1], Poly) else atom("eq", *[tokey(x) for x in a])})
        def go(ip):
            return ip.call_function(fi, [], {"circ": Circ(None, "circ"), "source": None, "ac_enable": ac, "r0s": sym("r0s"), "subs": None, "outfile": None, "verbose": T.ZERO})
        for r in explore(make, go):
            cons = "symbolic_analysis (%s)" % ("ac" if ac else "dc")
            v = r.value
            if r.outcome != "return" or not (isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "SOLVE"):
                c.undecided("reduction", cons, r.error or "solver call not reached"); continue
            eqs, xs = v[1], v[2]
            if not (isinstance(eqs, PList) and not eqs.items and len(eqs.per) == 1 and len(eqs.per[0][1]) == 1):
                c.undecided("reduction", cons, "list of equations not tracked"); continue
            e = eqs.per[0][1][0]
            a = e.atom() if isinstance(e, Poly) else None
            inner = a[1] if a and a[0] == "sub" else None
            ia = inner.atom() if isinstance(inner, Poly) else None
            lst = ia[1] if ia and ia[0] == "reallist" else (inner if ia is None else inner)
            one = ("slice", T.ONE, ("None",), ("None",)); full = ("slice", ("None",), ("None",), ("None",))
            wants = [atom("sub", MNA, one, one) * X + atom("sub", N, one, full), atom("sub", MNA, one, one) * X + atom("sub", N, one)]
            if not isinstance(lst, Poly): c.undecided("reduction", cons, "equation %s" % (e,)); continue
            c.check(lst in wants, "reduction", "%s equations" % cons, "the solved equations are %s, not (matrix and excitation without the ground row)*unknowns" % T.show(lst), fi.where)
            c.check(tokey(xs) == tokey(atom("reallist", X)) or tokey(xs) == X, "reduction", "%s unknowns" % cons, "solved for %s" % (xs,), fi.where)
    for d in seen[:4]:
        c.check(d.get("ac") in (True, False) and isinstance(d.get("opts"), PDict) and d["opts"].items.get("r0s") == sym("r0s"),
                "reduction", "symbolic_analysis passes ac and r0s on", "ac=%s opts=%s" % (d.get("ac"), d.get("opts")), fi.where)
    if len(seen) >= 2:
        c.check([d.get("ac") for d in seen][0] is True and any(d.get("ac") is False for d in seen), "reduction", "symbolic_analysis ac flag", "ac flags passed: %s" % [d.get("ac") for d in seen], fi.where)
    c.analysed(fi)

def unknowns(c, prog):
    """unknown i is the voltage of internal node i+1, then the current of the i-th voltage-defined element"""
    fi = prog.func("symbolic.get_variables")
    sp = BYNAME["VSource"]
    I = None
    def make(script):
        ip = Interp(prog, script, victims=[victim(prog, sp, (0, 1)), victim(prog, sp, (0, 1))], summaries={"symbolic._symbol_factory": factory}, positive=POSITIVE,
                    opts={"distinct": DISTINCT})
        return ip
    def go(ip): return ip.call_function(fi, [Circ(None, "circ")])
    for r in explore(make, go):
        if r.outcome != "return" or not isinstance(r.value, Arr):
            c.undecided("reduction", "get_variables", r.error or "result not tracked"); continue
        for k, v in r.value.cells.items():
            a = v.atom() if isinstance(v, Poly) else None
            i = k[0]
            if not (a and a[0] == "symbol" and isinstance(i, Poly)): c.undecided("reduction", "get_variables", "cell %s" % (k,)); continue
            name = a[1]
            node = "V" in repr(name)[:40] and any(x[0] in ("sub",) and "nodes_dict" in repr(x) for x in T.atoms(name))
            if node:
                subs = [x for x in T.atoms(name) if x[0] == "sub" and "nodes_dict" in repr(x[1])]
                c.check(subs[0][2] == i + T.ONE, "reduction", "get_variables voltages", "unknown %s is named after node %s" % (T.show(i), T.show(subs[0][2])), fi.where)
            else:
                subs = [x for x in T.atoms(name) if x[0] == "sub"]
                if len(subs) != 1: c.undecided("reduction", "get_variables currents", T.show(v)); continue
                c.check(subs[0][2] == i - (NV - T.ONE), "reduction", "get_variables currents", "unknown %s is the current of voltage-defined element %s" % (T.show(i), T.show(subs[0][2])), fi.where)
    c.analysed(fi)
