"""Generic element instances of every class, terminal coincidence patterns, stamping analysis."""
import itertools
from fractions import Fraction
from . import terms as T
from .terms import Poly, num, sym, atom
from .interp import (Interp, Obj, Circ, Arr, PList, PDict, EList, FuncVal, ClassVal, explore, tokey,
                     Unsupported, strip_case, term, BoundMeth)
from .program import ClassInfo, AnalysisBroken

NODE = ["a", "b", "c", "d"]
def node_sym(i): return sym("node:" + NODE[i])
DISTINCT = {("sym", "node:" + x) for x in NODE} | {("sym", "id:self"), ("sym", "id:other"), ("sym", "id:src"), ("sym", "id:other2")}
POSITIVE = {("sym", "node:" + x) for x in NODE} | {("sym", "id:self"), ("sym", "id:other"), ("sym", "id:src"), ("sym", "id:other2"), ("sym", "NV")}

def partitions(k, ground=True):
    """every way k terminals coincide with each other and with ground"""
    out = []
    def rec(i, cur, m):
        if i == k:
            out.append(tuple(cur)); return
        if ground: rec(i + 1, cur + [None], m)
        for j in range(m): rec(i + 1, cur + [j], m)
        rec(i + 1, cur + [m], m + 1)
    rec(0, [], 0)
    return out

def nodes_of(part):
    return [num(0) if p is None else node_sym(p) for p in part]

class Spec(object):
    def __init__(self, name, qual, terminals, params=None, extra=None, vde=False, nonlinear=False, couple=False):
        self.name, self.qual, self.terminals = name, qual, terminals
        self.params, self.extra, self.vde, self.nonlinear, self.couple = params or {}, extra or {}, vde, nonlinear, couple

ID = sym("id:self")
SRC = sym("id:src")
SPECS = [
    Spec("Resistor", "components.Resistor", ("n1", "n2"), {"value": sym("value")}),
    Spec("Capacitor", "components.Capacitor", ("n1", "n2"), {"value": sym("value")}),
    Spec("Inductor", "components.Inductor", ("n1", "n2"), {"value": sym("value")}, vde=True, couple=True),
    Spec("InductorCoupling", "components.InductorCoupling", (), {"L1": sym("id:other"), "L2": sym("id:other2"), "K": sym("K"), "M": sym("M")}),
    Spec("VSource", "components.sources.VSource", ("n1", "n2"), {"dc_value": sym("dc")}, vde=True),
    Spec("ISource", "components.sources.ISource", ("n1", "n2"), {"dc_value": sym("dc")}),
    Spec("EVSource", "components.sources.EVSource", ("n1", "n2", "sn1", "sn2"), {"value": sym("alpha")}, vde=True),
    Spec("GISource", "components.sources.GISource", ("n1", "n2", "sn1", "sn2"), {"value": sym("alpha")}),
    Spec("HVSource", "components.sources.HVSource", ("n1", "n2"), {"value": sym("alpha"), "source_id": SRC}, vde=True),
    Spec("FISource", "components.sources.FISource", ("n1", "n2"), {"value": sym("alpha"), "source_id": SRC}),
    Spec("diode", "diode.diode", ("n1", "n2"), {}, nonlinear=True),
    Spec("mosq_device", "mosq.mosq_device", ("nd", "ng", "ns", "nb"), {"W": sym("W"), "L": sym("L")}, nonlinear=True),
    Spec("ekv_device", "ekv.ekv_device", ("nd", "ng", "ns", "nb"), {"W": sym("W"), "L": sym("L")}, nonlinear=True),
    Spec("switch_device", "switch.switch_device", ("n1", "n2", "sn1", "sn2"), {}, nonlinear=True),
    Spec("TunnelJunction", "components.TunnelJunction.TunnelJunction", ("n1", "n2"), {}, nonlinear=True),
]
USER = Spec("UserVDE", None, ("n1", "n2"), {}, vde=True)
BYNAME = {s.name: s for s in SPECS}
VDE = frozenset(s.name for s in SPECS if s.vde)

class _UserNode(object):
    lineno = 0
    bases = []

def clone_val(v, memo):
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, PList):
        n = PList([], v.name); memo[id(v)] = n
        n.items = [clone_val(x, memo) for x in v.items]; n.per = list(v.per); n.length = v.length
        return n
    if isinstance(v, PDict):
        n = PDict(); memo[id(v)] = n
        n.items = {k: clone_val(x, memo) for k, x in v.items.items()}
        n.keyvals, n.unknown = dict(v.keyvals), list(v.unknown)
        return n
    if isinstance(v, Obj):
        n = type(v)(v.cls, v.name, {}, v.opaque); memo[id(v)] = n
        n.absent = set(v.absent)
        n.attrs = {k: clone_val(x, memo) for k, x in v.attrs.items()}
        return n
    if isinstance(v, tuple): return tuple(clone_val(x, memo) for x in v)
    return v

_templates = {}
def template(prog, spec, part):
    """abstract instance right after construction, one per way construction may end"""
    k = (prog.root, spec.name, part)
    if k in _templates: return _templates[k]
    if spec.qual is None:
        ci = ClassInfo("UserVDE", _UserNode(), prog.modules["ahkab.circuit"])
        nd = nodes_of(part)
        o = Obj(ci, "elem", {"part_id": ID, "n1": nd[0], "n2": nd[1], "is_voltage_defined": True, "is_nonlinear": False, "is_symbolic": True})
        _templates[k] = o
        return o
    ci = prog.cls(spec.qual)
    init = prog.find_method(ci, "__init__")
    if init is None: raise AnalysisBroken("%s has no __init__" % spec.qual)
    ps = init.params()[1:]
    nd = dict(zip(spec.terminals, nodes_of(part)))
    kw = {}
    dflt = init.defaults()
    for p in ps:
        if p in nd: kw[p] = nd[p]
        elif p in spec.params: kw[p] = spec.params[p]
        elif p == "part_id": kw[p] = ID
        elif p == "model": kw[p] = Obj(None, "model", opaque=True)
        elif p in dflt: pass
        else: kw[p] = sym("param:" + p)
    miss = [t for t in spec.terminals if t not in ps]
    if miss: raise AnalysisBroken("%s.__init__ has no parameter %s" % (spec.qual, miss))
    o = {}
    def make(script):
        return Interp(prog, script, positive=POSITIVE | {("sym", x) for x in ("value", "alpha", "W", "L", "dc", "K", "M")}, opts={"distinct": DISTINCT})
    def run(ip):
        x = Obj(ci, "elem")
        ip.call_function(init, [], dict(kw), self_=x)
        return x
    rs = [r for r in explore(make, run) if r.outcome == "return"]
    if not rs: raise AnalysisBroken("construction of %s cannot be analysed" % spec.qual)
    _templates[k] = rs[0].value
    return rs[0].value

def victim(prog, spec, part, flags=None):
    o = clone_val(template(prog, spec, part), {})
    for k, v in (flags or {}).items():
        if k == "couplings":
            ci = prog.cls("components.InductorCoupling")
            l = PList([], "couplings")
            for i, (a, b) in enumerate(v):
                cd = Obj(ci, "coupling%d" % i, {"part_id": sym("id:K%d" % i), "L1": a, "L2": b, "K": sym("K%d" % i), "M": sym("M%d" % i),
                                               "is_nonlinear": False, "is_symbolic": flags.get("is_symbolic", True)})
                l.items.append(cd)
            o.attrs["coupling_devices"] = l
        else: o.attrs[k] = v
    return o

class Case(object):
    """one generic element: class, terminal pattern, flags"""
    def __init__(self, spec, part, flags=None, label=""):
        self.spec, self.part, self.flags, self.label = spec, part, flags or {}, label
    def __str__(self):
        pat = ",".join("%s=%s" % (t, "0" if p is None else NODE[p]) for t, p in zip(self.spec.terminals, self.part))
        return "%s(%s)%s" % (self.spec.name, pat, (" " + self.label) if self.label else "")

class StampResult(object):
    def __init__(self, case): self.case, self.runs = case, []

class Stamper(object):
    """analyses one function that walks over the circuit's elements"""
    def __init__(self, prog, fi, bind, facts=None, summaries=None, opaque=(), opts=None, positive=(), pick=None, members=None, limit=400):
        self.prog, self.fi, self.bind = prog, fi, bind
        self.facts, self.summaries, self.opaque = facts or {}, summaries or {}, opaque
        self.opts = dict(opts or {}); self.opts.setdefault("distinct", DISTINCT)
        self.positive = set(positive) | POSITIVE
        self.pick = pick or (lambda v, ip: v)
        self.inlined = set()
        self.learn_raises = False
        self.loop_info = None
        self.limit = limit

    def runs(self, case, phase, second=None):
        def make(script):
            v = victim(self.prog, case.spec, case.part, case.flags)
            vs = [v, second(self.prog) if second else victim(self.prog, case.spec, case.part, case.flags)]
            vs[1].name = "elem2" if vs[1] is not v else v.name
            ip = Interp(self.prog, script, phase=phase, loop_info=self.loop_info, victims=vs, facts=self.facts,
                        positive=self.positive, opaque=self.opaque, summaries=self.summaries, opts=self.opts)
            ip.circ = Circ(None, "circ")
            return ip
        def run(ip):
            args, kw = self.bind(ip, ip.circ)
            ip.result = self.fi if isinstance(self.fi, list) else ip.call_function(self.fi, args, kw)
            return self.pick(ip.result, ip)
        rs = explore(make, run, self.limit)
        for r in rs: self.inlined |= r.ip.inlined
        return rs

    def learn(self, cases):
        """how far each scalar / shape / list advances per element of each class"""
        per = {}
        self.loop_info = {}
        seen = set()
        for c in cases:
            k = (c.spec.name, c.label)
            if k in seen: continue
            seen.add(k)
            for r in self.runs(c, 1):
                if r.outcome != "return" and not (self.learn_raises and r.outcome == "raise"): continue
                for key, ds in r.ip.loop_rec.items():
                    per.setdefault(key, {}).setdefault(c.spec.name, set()).update(ds)
        info = {}
        for key, m in per.items():
            groups = {}
            ok = True
            for cls, ds in m.items():
                if "irregular" in ds or len(ds) != 1: ok = False; break
                d = next(iter(ds))
                if d != 0: groups.setdefault(d, set()).add(cls)
            info[key] = sorted(((d, frozenset(s)) for d, s in groups.items()), key=repr) if ok else "irregular"
        self.loop_info = info
        self.per = per

def norm_key(k, owned):
    """cell index with the element's own branch position named uniformly"""
    out = []
    for i in k:
        if isinstance(i, Poly): i = norm_own(i, owned)
        out.append(i)
    return tuple(out)
def norm_own(p, owned):
    return T.subst(p, lambda a: OWN if (a[0] == "cnt" and a[1] == owned and len(a) == 2) or
                   (a[0] == "vde" and is_self(a[1])) else None)
OWN = sym("OWN")
def is_self(x):
    x = strip_case(x) if isinstance(x, Poly) else x
    return x == ID
def vde(x): return atom("vde", x)

def cells(arr):
    """net contribution per cell: {index: (delta, overwritten)}"""
    out = {}
    for k, v in arr.cells.items():
        if isinstance(v, Poly):
            b = arr.base(k)
            d = v - b
            over = False
            if b.atom() in T.atoms(d):
                d, over = v, True
                if b.atom() in T.atoms(v): out[k] = (v, "nonlinear"); continue
        else: d, over = v, True
        out[k] = (d, over)
    return out

def owned_classes(stamper):
    """classes whose branch the analysed function numbers (a class it refuses is left out)"""
    s = set(VDE)
    if getattr(stamper, "user_ok", False): s.add("UserVDE")
    return frozenset(s)

def compare(c, rule, where, stamper, cases, spec_of, arrays=("mna", "N"), ground=0, base=None, fname=None, dynamic=False):
    """for every case: net contribution of the generic element == spec_of(case)[array][cell]
    ground: index of the ground row/column in the produced arrays (cells there are dropped), None if reduced"""
    fname = fname or stamper.fi.qualname
    # C06 reuses the comparison for the positions of branch currents alone
    pos = getattr(c, "positions", False)
    if pos: cases = [x for x in cases if c.keep(x)]
    stamper.learn(cases)
    stamper.user_ok = any(r.outcome == "return" for case in cases if case.spec.name == "UserVDE" for r in stamper.runs(case, 1))
    owned = owned_classes(stamper)
    setrec, addrec = [], []
    breaks, filled = [], set()
    for case in cases:
        if case.spec.name == "UserVDE" and not stamper.user_ok: continue
        exp0 = spec_of(case) if not dynamic else None
        cons0 = "%s: %s" % (fname, case)
        for r in stamper.runs(case, 2):
            exp = exp0 if exp0 is not None else spec_of(case, r)
            if r.outcome == "unsupported":
                c.undecided(rule, cons0, r.error); continue
            if r.outcome == "raise":
                if spec_raises(exp, r): c.ok(rule, cons0); continue
                if pos: continue
                c.fail(rule, "%s: %s" % (fname, class_of(case)), "analysis of %s ends in %s" % (case, r.error), where); continue
            arrs = r.value
            breaks += [(ev[1], ev[2], case) for ev in r.ip.events if ev[0] == "elem-loop-break"]
            for a in arrs or []:
                if isinstance(a, Arr):
                    for kk, v, w, loops, kind in a.log: filled |= {l for l in loops if isinstance(l, str) and l.startswith("E|")}
            if arrs is None or any(not isinstance(a, Arr) for a in arrs):
                c.undecided(rule, cons0, "result is not tracked: %r" % (arrs,)); continue
            bad = []
            for name, a in zip(arrays, arrs):
                rows = (lambda k: k[:1]) if is_col(a) else (lambda k: k)
                dropped = (lambda k: ground is not None and any(isinstance(i, Poly) and i.is_zero() for i in rows(k)))
                want = {norm_key(k, owned): v for k, v in exp.get(name, {}).items() if not dropped(k)}
                got = {}
                for k, (d, over) in cells(a).items():
                    nk = norm_key(k, owned)
                    if dropped(k): continue
                    if over == "nonlinear":
                        bad.append("%s%s is multiplied in place" % (name, showk(nk))); continue
                    d = norm_own(d, owned) if isinstance(d, Poly) else d
                    if isinstance(d, Poly) and base: d = base(d, r.ip, arrs)
                    got[nk] = d
                    own_only = any(isinstance(i, Poly) and OWN.atom() in T.atoms(i) for i in nk)
                    lastloop = loop_of(a, k)
                    if over and not own_only:
                        bad.append("%s%s is overwritten: contributions of other elements are lost" % (name, showk(nk)))
                    elif over: setrec.append((name, nk, lastloop, r.ip.loop_order, case))
                    if not over: addrec.append((name, nk, lastloop, r.ip.loop_order, case))
                keys = set(want) | set(got)
                for k in sorted(keys, key=repr):
                    w, g = want.get(k, T.ZERO), got.get(k, T.ZERO)
                    if pos and (not isinstance(g, Poly) or w.is_zero() == g.is_zero() or not branch_cell(k)): continue
                    if not isinstance(g, Poly) or not T.equal(w, g):
                        bad.append("%s%s: contributes %s, documented %s" % (name, showk(k), T.show(g) if isinstance(g, Poly) else g, T.show(w)))
                for u in r.ip.unknown_writes:
                    if u[0] == a.name: c.undecided(rule, cons0, "untracked write %s" % (u,))
            if pos: bad = [b for b in bad if ": contributes " in b]
            else: bad += exp.get("bad", [])
            for b in bad: c.fail(rule, "%s: %s: %s" % (fname, class_of(case), b), "%s: %s" % (case, b), where)
            if not bad: c.ok(rule, cons0)
    if pos: breaks = []
    for key, where_, case in breaks:
        if key in filled:
            c.fail(rule, "%s: loop over the elements left at %s" % (fname, class_of(case)),
                   "%s: the loop that builds the equations is left at this element: contributions of later elements are lost" % (case,), where_)
    # a cell that is overwritten must be written before any other element adds to it
    for name, nk, lp, order, case in setrec:
        if pos: break
        for name2, nk2, lp2, order2, case2 in addrec:
            if name2 == name and len(nk) == 2 and len(nk2) == 2 and could_alias(nk, nk2) and case2.spec.name != case.spec.name:
                try: early = order.index(lp) >= order2.index(lp2)
                except ValueError: continue
                if early:
                    c.fail(rule, "%s: overwrite order %s/%s" % (fname, case.spec.name, case2.spec.name),
                           "%s%s is assigned by %s after %s may have added to it" % (name, showk(nk), case.spec.name, case2), where)
    c.analysed(*stamper.inlined)

def branch_cell(k):
    """the cell lies in the row or column of a branch current"""
    return any(isinstance(i, Poly) and ("sym", "NV") in T.atoms(i) for i in k)
def is_col(a): return len(a.shape) > 1 and a.shape[1] == T.ONE
def class_of(case): return case.spec.name + ((" " + case.label) if case.label else "")
def showk(k): return "[" + ", ".join(T.show(i) if isinstance(i, Poly) else str(i) for i in k) + "]"
def spec_raises(exp, r): return exp.get("raises") and r.error.name in exp["raises"]
def loop_of(a, k):
    for kk, v, w, loops, kind in reversed(a.log):
        if kk == k:
            ls = [l for l in loops if isinstance(l, str) and l.startswith("E|")]
            return ls[0] if ls else None
    return None
def could_alias(k1, k2):
    """k1 names the element's own branch; k2 the branch of an element it refers to"""
    for i, j in zip(k1, k2):
        if not (isinstance(i, Poly) and isinstance(j, Poly)): return False
        own = OWN.atom() in T.atoms(i)
        ref = any(a[0] == "vde" for a in T.atoms(j))
        if own and ref: continue
        if own != ref: return False
    return True
