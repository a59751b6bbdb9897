from .. import terms as T
from ..elements import Stamper, compare
from ..elements import BYNAME, victim
from ..interp import *
from .. import stampspec as S
from ..terms import sym, atom, num

def tf(): return Obj(None, "tf", opaque=True)
def flags(s):
    if s.name in ("VSource", "ISource"):
        return [({}, "constant"), ({"is_timedependent": True, "_time_function": tf()}, "time-dependent")]
    return [({}, "")]

def pick2(v, ip):
    if isinstance(v, tuple) and len(v) == 2: return list(v)
    if isinstance(v, PList) and len(v.items) == 2: return list(v.items)
    return None

def run(c, prog):
    c.rule("static-law", "net contribution of one generic linear element to each cell of the static matrix and excitation equals its documented law, for every terminal coincidence", 60)
    fi = prog.func("dc_analysis.generate_mna_and_N")
    st = Stamper(prog, fi, lambda ip, circ: ([circ], {"verbose": T.ZERO}), pick=pick2,
                 opaque=("utilities.check_ground_paths",), opts={"quiet_args": True})
    compare(c, "static-law", fi.where, st, S.cases(flags), S.static)
    c.rule("reciprocal", "whatever sequence of re-assignments a resistor sees, its resistance and conductance stay reciprocal and the assigned one is the one read back", 6)
    c.guard("reciprocal", reciprocal, c, prog)

def reciprocal(c, prog):
    ci = prog.cls("components.Resistor")
    seqs = [(), ("value",), ("g",), ("value", "g"), ("g", "value"), ("value", "value"), ("g", "g"), ("g", "value", "g"), ("value", "g", "value")]
    for q in seqs:
        def make(script): return Interp(prog, script, positive={("sym", "w%d" % i) for i in range(4)} | {("sym", "value")})
        def go(ip):
            o = victim(prog, BYNAME["Resistor"], (0, 1))
            for i, a in enumerate(q): ip.set_attr(o, a, sym("w%d" % i), ci.node)
            return term(ip.getattr(o, "value", ci.node)), term(ip.getattr(o, "g", ci.node))
        lab = "Resistor, after assigning %s" % (", ".join(q) or "nothing")
        for r in explore(make, go):
            if r.outcome == "unsupported": c.undecided("reciprocal", lab, r.error); continue
            if r.outcome == "raise": c.fail("reciprocal", lab, "ends in %s" % r.error, ci.where); continue
            v, g = r.value
            want = (sym("w%d" % (len(q) - 1)) if q else sym("value"))
            wv, wg = (want, want ** -1) if not q or q[-1] == "value" else (want ** -1, want)
            ok = T.equal(v, wv) and T.equal(g, wg)
            c.check(ok, "reciprocal", lab + ("" if ok else ": resistance %s, conductance %s" % (T.show(v), T.show(g))),
                    "resistance %s and conductance %s, expected %s and %s" % (T.show(v), T.show(g), T.show(wv), T.show(wg)), ci.where)
    c.analysed("components.Resistor.Resistor")
