from .. import terms as T
from ..elements import *
from ..interp import Obj, PList, Arr, SliceV
from .. import stampspec as S
from ..terms import sym, atom, num

CMIN = atom("glob", "ahkab.options.cmin")

def pick1(v, ip): return [v] if isinstance(v, Arr) else None

def bind(ip, circ):
    return [circ, (sym("m"), sym("m"))], {}

def stamper(prog, fi, cmin):
    f = {("gt0", CMIN): cmin, ("lt0", CMIN): False, ("eq0", CMIN): not cmin}
    return Stamper(prog, fi, bind, facts=f, pick=pick1, positive=[CMIN.atom()] if cmin else [])

def run(c, prog):
    c.rule("reactive-law", "net contribution of one generic element to each cell of the time-domain and of the frequency-domain dynamic matrix equals the documented reactive law", 80)
    c.rule("cmin", "the minimum node capacitance is added once to the diagonal of every node and to no branch row, identically in both matrices", 2)
    c.rule("mutual", "the mutual inductance stored by a coupling is k*sqrt(L1*L2) and is registered on exactly the two inductors", 2)
    for q in ("transient.generate_D", "ac._generate_AC"): c.guard(q, one, c, prog, q)
    c.guard("cmin", cmin, c, prog)
    c.guard("mutual", mutual, c, prog)
    c.guard("other", other_inductor, c, prog)

def one(c, prog, q):
    fi = prog.func(q)
    st = stamper(prog, fi, False)
    compare(c, "reactive-law", fi.where, st, S.cases(S.coupling_flags), S.reactive, arrays=("D",))

def cmin(c, prog):
    for q in ("transient.generate_D", "ac._generate_AC"):
        fi = prog.func(q)
        st = stamper(prog, fi, True)
        cs = S.cases(S.coupling_flags)
        st.learn(cs)
        for case in [x for x in cs if x.spec.name in ("Resistor", "Inductor", "Capacitor")][:12]:
            for r in st.runs(case, 2):
                cons = "%s: %s" % (fi.qualname, "minimum capacitance")
                if r.outcome != "return" or not r.value: c.undecided("cmin", cons, r.error); continue
                D = r.value[0]
                blocks = {k: v for k, v in D.cells.items() if k == ("all",) or any(not isinstance(i, Poly) for i in k)}
                lens = [v for k, v in r.trace if k[0] == "eq0" and "tot" in repr(k)]
                bad = check_cmin(blocks, D, r.ip)
                if bad: c.fail("cmin", cons + ": " + bad, "%s (%s)" % (bad, case), fi.where)
                else: c.ok("cmin", cons)
        c.analysed(*st.inlined)

def check_cmin(blocks, D, ip):
    hits = 0
    for k, v in blocks.items():
        if k == ("all",): base = D.term()
        else:
            base = D.base(k)
            want = None
            for i in k:
                # rows/columns of every node, none of the branches
                if not (isinstance(i, tuple) and i[0] == "slice" and i[1] in (("None",), T.ZERO) and i[3] in (("None",), T.ONE)): return "unexpected block %r" % (k,)
                hi = i[2]
                if not isinstance(hi, Poly): return "block is not limited to the nodes"
                if want is None: want = hi
                elif hi != want: return "block is not square"
            if not (want == S.NV or (want + atom("tot", VDE_SET)) .is_zero() or (want + atom("tot", VDE_U)).is_zero()): return "block ends at %s, not at the last node" % T.show(want)
        if not isinstance(v, Poly): return "block value is not tracked"
        d = v - base
        eye = [a for a in T.atoms(d) if a[0] == "arr"]
        if len(eye) != 1 or d != CMIN * Poly({((eye[0], Fraction(1)),): Fraction(1)}): return "adds %s instead of cmin times the identity" % T.show(d)
        E = [a for a in ip.arrays if a.name == eye[0][1]][0]
        if E.kind != "eye": return "adds a matrix that is not the identity on the nodes"
        for kk, vv, w, loops, kind in E.log:
            if not any(isinstance(i, Poly) and i.is_zero() for i in kk): return "changes the identity outside the ground row/column at %s" % w
        hits += 1
    if hits != 1: return "added %d times" % hits
    return None
VDE_SET = VDE
VDE_U = frozenset(VDE | {"UserVDE"})

def other_inductor(c, prog):
    """the partner of an inductor in a coupling is the other one, whatever the order"""
    fi = prog.func("components.Inductor.InductorCoupling.get_other_inductor") if False else prog.find_method(prog.cls("components.InductorCoupling"), "get_other_inductor")
    if fi is None: raise AnalysisBroken("get_other_inductor")
    me, ot = sym("id:self"), sym("id:other")
    for a, b in ((me, ot), (ot, me)):
        for nm in (me, atom("call", ".upper", me), atom("call", ".lower", me)):
            def make(script): return Interp(prog, script, positive=POSITIVE, opts={"distinct": DISTINCT})
            def go(ip):
                o = Obj(prog.cls("components.InductorCoupling"), "k", {"part_id": sym("id:k"), "L1": a, "L2": b, "M": sym("M"), "K": sym("K")})
                return ip.call_function(fi, [nm], {}, self_=o)
            for r in explore(make, go):
                good = r.outcome == "return" and isinstance(r.value, Poly) and strip_case(r.value) == ot
                c.check(good, "mutual", "partner lookup", "partner of %s in (%s, %s) is %s" % (T.show(nm), T.show(a), T.show(b), r.value if r.outcome == "return" else r.error), fi.where)
    c.analysed(fi)

def mutual(c, prog):
    fi = prog.func("circuit.Circuit.add_inductor_coupling")
    ci = prog.cls("circuit.Circuit")
    me, ot = sym("id:L1"), sym("id:L2")
    # the circuit holds exactly two inductors with these names (in either order) and an unrelated one
    dist = {("sym", "id:L1"), ("sym", "id:L2"), ("sym", "id:L3"), ("sym", "id:K")}
    for order in (("id:L1", "id:L2", "id:L3"), ("id:L3", "id:L2", "id:L1")):
        state = {}
        def make(script): return Interp(prog, script, positive=dist | {("sym", "La"), ("sym", "Lb"), ("sym", "Lc"), ("sym", "k")}, opts={"distinct": dist})
        def go(ip):
            val = {"id:L1": "La", "id:L2": "Lb", "id:L3": "Lc"}
            inds = [Obj(prog.cls("components.Inductor"), n, {"part_id": sym(n), "value": sym(val[n]), "n1": sym("x"), "n2": sym("y"), "coupling_devices": PList([], n + ".c"),
                                                             "is_nonlinear": False, "is_symbolic": True, "ic": None}) for n in order]
            lst = PList(list(inds), "circ")
            circ = Obj(ci, "circ", {"__items__": lst})
            state[id(ip)] = (inds, lst)
            ip.call_function(fi, [sym("id:K"), me, ot, sym("k")], {}, self_=circ)
            return ip
        for r in explore(make, go):
            if r.outcome == "raise" and r.error.name in ("ValueError", "CircuitError"): continue
            if r.outcome != "return": c.undecided("mutual", "add_inductor_coupling", r.error); continue
            inds, lst = state[id(r.ip)]
            new = [x for x in lst.items if isinstance(x, Obj) and x.cls is not None and x.cls.name == "InductorCoupling"]
            bad = None
            if len(new) != 1: bad = "%d coupling elements added" % len(new)
            else:
                k = new[0]
                want = sym("k") * (sym("La") * sym("Lb")) ** Fraction(1, 2)
                if not (isinstance(k.attrs.get("M"), Poly) and T.equal(k.attrs["M"], want)): bad = "M = %s, documented %s" % (k.attrs.get("M"), T.show(want))
                for i in inds:
                    n = sum(1 for x in i.attrs["coupling_devices"].items if x is k)
                    if n != (0 if i.name == "id:L3" else 1): bad = "registered %d times on inductor %s" % (n, i.name)
                if {strip_case(k.attrs.get("L1")), strip_case(k.attrs.get("L2"))} != {me, ot}: bad = "couples %s and %s" % (k.attrs.get("L1"), k.attrs.get("L2"))
            c.check(not bad, "mutual", "add_inductor_coupling: %s" % (bad or "ok"), bad or "", fi.where)
    c.analysed(fi)
