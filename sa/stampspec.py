"""The documented element laws as matrix contributions (reference tables for C01-C04)."""
from . import terms as T
from .terms import num, sym, atom
from .elements import OWN, nodes_of, vde, Case, SPECS, USER, BYNAME, partitions, SRC

NV = sym("NV")

class M(dict):
    def add(self, i, j, v):
        self[(i, j)] = self.get((i, j), T.ZERO) + v

def terms_of(case):
    nd = dict(zip(case.spec.terminals, nodes_of(case.part)))
    if "nd" in nd: nd["n1"], nd["n2"] = nd["nd"], nd["ns"]
    return nd

def branch_rows(m, nd):
    b = NV + OWN
    m.add(nd["n1"], b, T.ONE); m.add(nd["n2"], b, -T.ONE)
    m.add(b, nd["n1"], T.ONE); m.add(b, nd["n2"], -T.ONE)
    return b

def four(m, r1, r2, c1, c2, g):
    m.add(r1, c1, g); m.add(r1, c2, -g); m.add(r2, c1, -g); m.add(r2, c2, g)

def static(case, val=None):
    """documented static equations: mna * x + N = 0, currents leaving a node positive,
    branch equation v(n1) - v(n2) - (law) = 0"""
    m, n = M(), M()
    s, nd = case.spec.name, terms_of(case)
    V = val or (lambda name: sym(name))
    if s == "Resistor": four(m, nd["n1"], nd["n2"], nd["n1"], nd["n2"], T.ONE / V("value"))
    elif s == "GISource": four(m, nd["n1"], nd["n2"], nd["sn1"], nd["sn2"], V("alpha"))
    elif s == "FISource":
        b = NV + vde(SRC)
        m.add(nd["n1"], b, V("alpha")); m.add(nd["n2"], b, -V("alpha"))
    elif s == "ISource":
        if not case.flags.get("is_timedependent"):
            n.add(nd["n1"], T.ZERO, V("dc")); n.add(nd["n2"], T.ZERO, -V("dc"))
    elif case.spec.vde:
        b = branch_rows(m, nd)
        if s == "VSource" and not case.flags.get("is_timedependent"): n.add(b, T.ZERO, -V("dc"))
        if s == "EVSource":
            m.add(b, nd["sn1"], -V("alpha")); m.add(b, nd["sn2"], V("alpha"))
        if s == "HVSource": m.add(b, NV + vde(SRC), -V("alpha"))
    return {"mna": m, "N": drop_ground_rows(n)}

def drop_ground_rows(n):
    return M({k: v for k, v in n.items() if not k[0].is_zero()})

def cases(flags_of=lambda s: [({}, "")], which=None, user=True, split=None):
    out = []
    for s in SPECS + ([USER] if user else []):
        if which and s.name not in which: continue
        for fl, lab in flags_of(s):
            for p in partitions(len(s.terminals)): out.append(Case(s, p, fl, lab))
    return out

def reactive(case, val=None):
    """documented reactive terms: capacitance between the element's nodes, minus the inductance
    on its own branch, minus the mutual inductance towards each coupled inductor"""
    m = M()
    s, nd = case.spec.name, terms_of(case)
    V = val or (lambda name: sym(name))
    if s == "Capacitor": four(m, nd["n1"], nd["n2"], nd["n1"], nd["n2"], V("value"))
    elif s == "Inductor":
        b = NV + OWN
        m.add(b, b, -V("value"))
        for i, (l1, l2) in enumerate(case.flags.get("couplings", ())):
            other = l2 if l1 == sym("id:self") else l1
            m.add(b, NV + vde(other), -V("M%d" % i))
    return {"D": m, "mna": m}

def coupling_flags(s):
    if s.name == "Inductor":
        me, o1, o2 = sym("id:self"), sym("id:other"), sym("id:other2")
        return [({}, "uncoupled"), ({"couplings": [(me, o1)]}, "coupled as first"), ({"couplings": [(o1, me)]}, "coupled as second"),
                ({"couplings": [(me, o1), (o2, me)]}, "coupled twice")]
    return [({}, "")]
