"""C18: result variables, units and data rows always correspond."""
import ast, itertools
from .. import terms as T
from ..files import VFS, Row
from ..interp import *
from ..parsing import show
from ..terms import num, sym, atom, Poly
from .c17 import start, call, add, attempt, text, models, done

N = ast.Pass(lineno=0)
OUT = "out.dat"

# ---------------------------------------------------------------------------------- harness
def go(prog, fn, limit=24, **o):
    opts = {"notnone": lambda a: True, "copy_obj": True, "decorate": True, "inttype": True, "sets": True, "text": text, "unroll": 60, "distinct": False,
            "modinit": True, "split_max": True, "smallmat": True, "strict": True, "decide": decided, "loud": ("printing.table",)}
    opts.update(o)
    def make(script):
        fs = VFS()
        s = {"printing.print_info_line": nothing, "printing.print_warning": nothing, "printing.print_general_error": nothing, "time.strftime": now, "time.gmtime": now,
             "printing.table": tabled, "numpy.angle": angle, "numpy.real_if_close": first, "numpy.sort_complex": first, "numpy.squeeze": squeeze, "numpy.prod": prod_, "numpy.exp": exp_, "numpy.abs": abs_, "numpy.absolute": abs_, "builtins.abs": abs_}
        s.update(fs.summaries())
        def hook(ip, b, name, args, kw, n):
            r = fs.hook(ip, b, name, args, kw, n)
            if r is not NotImplemented: return r
            return NotImplemented
        opts["meth_hook"] = hook
        ip = Interp(prog, script, opts=dict(opts), summaries=s, budget=600000)
        ip.fs = fs
        return ip
    return explore(make, fn, limit, True)

def decided(key):
    """element values are not zero"""
    if key[0] == "eq0" and show(key[1]).startswith("val_"): return False
    return None
def nothing(ip, args, kw, n): return None
def now(ip, args, kw, n): return "now"
def first(ip, args, kw, n):
    x = mat_of(args[0])
    return x if x is not None else args[0]
def squeeze(ip, args, kw, n):
    m = mat_of(args[0])
    if m is None: return args[0]
    return Mat([d for d in m.shape if d != 1], m.vals)
def prod_(ip, args, kw, n):
    x = args[0]
    its = list(x) if isinstance(x, tuple) else x.vals if isinstance(x, Mat) else x.items
    p = T.ONE
    for v in its: p = p * v
    return p
def tabled(ip, args, kw, n):
    """what a printed table holds"""
    ip.tables.append((args[0] if args else kw.get("data"), kw.get("headers", args[1] if len(args) > 1 else None)))
    return "table"
def angle(ip, args, kw, n):
    deg = args[1] if len(args) > 1 else kw.get("deg", False)
    if not isinstance(deg, bool): deg = ip.truth(deg)
    f = lambda v: T.atom("call", "angle", tokey(v)) * (num(180) / sym("pi") if deg else T.ONE)
    x = args[0]
    return Mat(x.shape, [f(v) for v in x.vals]) if isinstance(x, Mat) else f(x)
def abs_(ip, args, kw, n):
    x = args[0]
    return Mat(x.shape, [modulus(v) for v in x.vals]) if isinstance(x, Mat) else modulus(term(x))
def exp_(ip, args, kw, n):
    x = args[0]
    return Mat(x.shape, [T.exp(v) for v in x.vals]) if isinstance(x, Mat) else T.exp(term(x))
def vec(v):
    """one-dimensional values"""
    if isinstance(v, Mat): return list(v.vals)
    if isinstance(v, list): return v
    m = mat_of(v)
    if m is not None: return list(m.vals)
    return [v] if isinstance(v, Poly) else None

def eq(a, b):
    a, b = vec(a), vec(b)
    return a is not None and b is not None and len(a) == len(b) and all(isinstance(x, Poly) and T.equal(x, y) for x, y in zip(a, b))

def sh(v):
    x = vec(v)
    return "[%s]" % ", ".join(show(y) if isinstance(y, Poly) else repr(y) for y in x) if x is not None else repr(v)

# ---------------------------------------------------------------------------------- circuits
# name: (elements in order, expected unknowns)
CIRCUITS = {
 "mixed": ([("resistor", "r1", ["a", "0"]), ("vsource", "va", ["a", "B"]), ("isource", "I1", ["c", "0"]), ("inductor", "L1", ["B", "c"]), ("capacitor", "C2", ["c", "2"]),
            ("vcvs", "e7", ["2", "0", "a", "c"]), ("vccs", "g1", ["a", "c", "2", "0"]), ("diode", "D1", ["2", "c"]), ("ccvs", "H1", ["2", "B"]), ("cccs", "F1", ["c", "a"]), ("vsource", "V2", ["0", "a"])], None),
 "sources first": ([("vsource", "V9", ["z", "0"]), ("inductor", "l2", ["z", "y"]), ("resistor", "R1", ["y", "x"]), ("mos (ekv)", "M1", ["x", "y", "0", "0"])], None),
 "no currents": ([("isource", "I1", ["n1", "0"]), ("resistor", "R1", ["n1", "n2"]), ("resistor", "R2", ["n2", "0"])], None),
 "one unknown": ([("isource", "I1", ["n1", "0"]), ("resistor", "R1", ["n1", "0"])], None),
 "internal node": ([("vsource", "V1", ["in", "0"]), ("resistor", "R1", ["in", "*"]), ("inductor", "L1", ["*", "out"]), ("resistor", "R2", ["out", "0"])], None),
}
VDE = ("vsource", "inductor", "vcvs", "ccvs")

def build(prog, ip, which):
    o = start(prog, ip)
    models(prog, ip, o)
    nodes, vde = [], []
    call(ip, o, "add_node", "0")
    inner = None
    for kind, pid, ns in CIRCUITS[which][0]:
        if "*" in ns:
            if inner is None: inner = call(ip, o, "new_internal_node")
            ns = [inner if n == "*" else n for n in ns]
        over = {"source_id": "va"} if kind in ("ccvs", "cccs") else {}
        add(ip, o, kind, pid, ns, **over)
        if kind in VDE: vde.append(pid)
    t = o.attrs["nodes_dict"]
    num_ = {}
    for k, v in t.items.items():
        k = t.keyvals.get(k, k)
        if isinstance(k, str): num_[int(v.const()) if isinstance(v, Poly) else v] = k
    nodes = [num_[i] for i in sorted(num_) if i != 0]
    ip.tables = []
    return o, ["V" + n for n in nodes] + ["I(%s)" % p for p in vde], ["V"] * len(nodes) + ["A"] * len(vde)

def column(n, tag): return Mat((n, 1), [sym("%s%d" % (tag, i)) for i in range(n)])

def same_text(a, b): return isinstance(a, str) and isinstance(b, str) and a.upper() == b.upper()

# ---------------------------------------------------------------------------------- what a solution must show
class Cls(object):
    """how one kind of solution is built and filled"""
    def __init__(self, name, sweep, unit, make, fill): self.name, self.sweep, self.unit, self.make, self.fill = name, sweep, unit, make, fill

def k_ac(prog, ip, circ, **o): return ip.instantiate(prog.cls("results.ac_solution"), [], {"circ": circ, "start": sym("f0"), "stop": sym("f1"), "points": num(3), "stype": "LOG", "op": None, "outfile": OUT}, N)
def k_dc(label):
    def f(prog, ip, circ): return ip.instantiate(prog.cls("results.dc_solution"), [circ, sym("s0"), sym("s1")], {"sweepvar": label, "stype": "LIN", "outfile": OUT}, N)
    return f
def k_tran(prog, ip, circ): return ip.instantiate(prog.cls("results.tran_solution"), [circ, sym("t0"), sym("t1")], {"op": None, "method": "TRAP", "outfile": OUT}, N)
def k_pss(prog, ip, circ): return ip.instantiate(prog.cls("results.pss_solution"), [], {"circ": circ, "method": "m", "period": sym("per"), "outfile": OUT}, N)

def f_lines(ip, s, pts):
    for t, x in pts: call(ip, s, "add_line", t, x)
def f_ops(ip, s, pts):
    for t, x in pts:
        op = Obj(ip.prog.cls("results.op_solution"), "op", {"x": x}, opaque=True)
        call(ip, s, "add_op", t, op)
def f_all(ip, s, pts):
    t = Mat((1, len(pts)), [p[0] for p in pts])
    n = len(pts[0][1].vals)
    call(ip, s, "set_results", t, Mat((n, len(pts)), [p[1].vals[i] for i in range(n) for p in pts]))

SOL = [Cls("ac_solution", "f", "Hz", k_ac, f_lines), Cls("dc_solution", "Vs", "V", k_dc("Vs"), f_ops), Cls("dc_solution of a current", "Ixy", "A", k_dc("Ixy"), f_ops),
       Cls("tran_solution", "T", "s", k_tran, f_lines), Cls("pss_solution", "T", "s", k_pss, f_all)]

FORMS = (("as named", lambda s: s), ("upper case", lambda s: s.upper()), ("lower case", lambda s: s.lower()), ("mixed case", lambda s: s.swapcase()))

def listed(ip, v):
    """the elements of an iterable the program made"""
    its = ip.concrete(v) if not isinstance(v, (PList, tuple)) else (v.items if isinstance(v, PList) else list(v))
    return None if its is None else list(its)

def iterate(ip, o):
    """for pair in solution"""
    it = call(ip, o, "__iter__")
    out = []
    for k in range(40):
        try: out.append(call(ip, it, "__next__"))
        except RaiseSig as r:
            if r.name == "StopIteration": return out
            raise
    return out

def pairs(ip, l):
    l = listed(ip, l)
    if l is None: return None
    out = []
    for p in l:
        q = listed(ip, p)
        if q is None or len(q) != 2: return None
        out.append(tuple(q))
    return out

def solution(c, prog, cl, which, npts, deg=None):
    what = "%s, %s" % (cl.name, which)
    ci = prog.cls("results." + cl.name.split(" ")[0])
    where = "%s:%d" % (ci.module.rel, ci.node.lineno)
    ac = cl.name == "ac_solution"
    note = (", %s" % ("phase in degrees" if deg else "phase in radians")) if deg is not None else ""
    def fn(ip):
        if deg is not None: ip.opts["globals"] = dict(ip.opts.get("globals") or {}, **{prog.pkg + ".options.ac_phase_in_deg": deg})
        circ, names, units = build(prog, ip, which)
        s = cl.make(prog, ip, circ)
        n = len(names)
        pts = [(sym("t%d" % k), column(n, "x%d_" % k)) for k in range(npts)]
        cl.fill(ip, s, pts)
        out = []
        def rule(r, t, ok, msg): out.append((r, t, ok, msg))
        allv, allu = [cl.sweep] + names, [cl.unit] + units
        rows = [[p[0] for p in pts]] + [[p[1].vals[i] for p in pts] for i in range(n)]
        if ac: rows = [rows[0]] + [[polar(v) for v in r] for r in rows[1:]]
        vs = listed(ip, s.attrs["variables"])
        rule("names", "variables", len(vs) == len(allv) and all(same_text(a, b) for a, b in zip(vs, allv)), "the variables are %s, the unknowns %s" % (vs, allv))
        h = attempt(ip, lambda: call(ip, s, "keys"))
        rule("names", "keys()", h[0] == "ok" and [str(x).upper() for x in listed(ip, h[1])] == [v.upper() for v in allv], "%s" % (h,))
        h = attempt(ip, lambda: call(ip, s, "__len__"))
        rule("names", "len()", h[0] == "ok" and isinstance(h[1], Poly) and h[1].const() == len(allv), "%s %s" % (h[0], sh(h[1])))
        for v, u, row in zip(allv, allu, rows):
            kind = "the sweep variable" if v is allv[0] else "a voltage" if v[0] == "V" else "a current"
            for form, f in FORMS:
                q = f(v)
                h = attempt(ip, lambda: call(ip, s.attrs["units"], "__getitem__", q))
                rule("units", "%s, %s" % (kind, form), h == ("ok", u), "the unit of %s is %s, not %s" % (q, h[1], u))
                h = attempt(ip, lambda: call(ip, s, "__getitem__", q))
                rule("reading", "%s, %s" % (kind, form), h[0] == "ok" and eq(h[1], row), "%s reads %s %s, stored %s" % (q, h[0], sh(h[1]), sh(row2(row))))
                h = attempt(ip, lambda: call(ip, s, "get", q))
                rule("reading", "get, %s, %s" % (kind, form), h[0] == "ok" and eq(h[1], row), "%s reads %s %s, stored %s" % (q, h[0], sh(h[1]), sh(row2(row))))
                h = attempt(ip, lambda: call(ip, s, "has_key", q))
                g = attempt(ip, lambda: call(ip, s, "__contains__", q))
                rule("reading", "in, %s, %s" % (kind, form), h == ("ok", True) and g == ("ok", True), "%s: %s, %s" % (q, h, g))
        absent(rule, ip, s, "vnosuch")
        if ac: rows = [rows[0]] + rows[1:]
        h = attempt(ip, lambda: call(ip, s, "values"))
        l = listed(ip, h[1]) if h[0] == "ok" else None
        rule("reading", "values()", l is not None and len(l) == len(rows) and all(eq(a, b) for a, b in zip(l, rows)), "values() gives %s %s" % (h[0], [sh(x) for x in l] if l else h[1]))
        h = attempt(ip, lambda: pairs(ip, call(ip, s, "items")))
        rule("reading", "items()", h[0] == "ok" and matched(h[1], allv, rows), "items() gives %s %s" % (h[0], shp(h[1])))
        h = attempt(ip, lambda: [tuple(listed(ip, p)) for p in iterate(ip, s)])
        rule("reading", "iteration", h[0] == "ok" and matched(h[1], allv, rows), "iterating gives %s %s" % (h[0], shp(h[1])))
        h2 = attempt(ip, lambda: [tuple(listed(ip, p)) for p in iterate(ip, s)])
        rule("reading", "iterating again", h2[0] == "ok" and matched(h2[1], allv, rows), "iterating again gives %s %s" % (h2[0], shp(h2[1])))
        h = attempt(ip, lambda: call(ip, s, "asarray"))
        good = h[0] == "ok" and isinstance(h[1], Mat) and h[1].shape == (len(rows), npts) and eq(Mat((len(h[1].vals),), h[1].vals), Mat((len(rows) * npts,), [v for r in rows for v in r]))
        rule("reading", "asarray()", good, "asarray() gives %s %s" % (h[0], sh(h[1])))
        h = attempt(ip, lambda: call(ip, s, "get_x"))
        rule("reading", "get_x()", h[0] == "ok" and eq(h[1], rows[0]), "get_x() gives %s %s" % (h[0], sh(h[1])))
        h = attempt(ip, lambda: call(ip, s, "get_xlabel"))
        rule("names", "get_xlabel()", h[0] == "ok" and same_text(h[1], cl.sweep), "get_xlabel() gives %s" % (h,))
        h = attempt(ip, lambda: call(ip, s, "__str__"))
        rule("names", "str()", h[0] == "ok", "str() ends in %s" % (h[1],))
        # the file itself
        lines = ip.fs.files.get(OUT, [])
        hd = [x for x in lines if isinstance(x, str)]
        data = [x for x in lines if isinstance(x, Row)]
        rule("file", "header", len(hd) == 1 and lines[0] is hd[0], "the file has %d header lines" % len(hd))
        cols = hd[0].lstrip("#").split("\t") if hd else []
        rule("file", "columns", len(data) == npts and all(len(r.vals) == len(cols) for r in data), "%d columns, rows of %s values, %d points" % (len(cols), sorted({len(r.vals) for r in data}), npts))
        for v, row in zip(allv, rows):
            kind = "the sweep variable" if v is allv[0] else "a voltage" if v[0] == "V" else "a current"
            for head, f in ([(v, lambda z: z)] if not ac or v is allv[0] else [("|%s|" % v, modulus), ("arg(%s)" % v, phase(deg))]):
                ks = [k for k, x in enumerate(cols) if x.upper() == head.upper()]
                raw = [p[0] for p in pts] if v is allv[0] else [p[1].vals[names.index(v)] for p in pts]
                ok = len(ks) == 1 and all(ks[0] < len(r.vals) and T.equal(r.vals[ks[0]], f(w)) for r, w in zip(data, raw))
                rule("file", "%s%s" % (kind, "" if head is v else " (modulus)" if head[0] == "|" else " (phase)"), ok, "column %s of the file holds %s" % (head, [sh(r.vals[ks[0]]) for r in data if ks and ks[0] < len(r.vals)] if ks else "nothing"))
        rule("file", "precision", all(precise(r.fmt) for r in data), "numbers are written as %s" % sorted({str(r.fmt) for r in data}))
        return out
    for r in done(c, "reading", what, go(prog, fn), where):
        c.analysed(*r.ip.inlined)
        for ru, t, ok, msg in r.value: c.check(ok, ru, "%s%s: %s" % (cl.name, note, t), "%s: %s" % (which, msg), where)

def row2(r): return Mat((len(r),), r)
def shp(l): return [(a, sh(b)) for a, b in l] if isinstance(l, list) else l
def matched(l, names, rows): return isinstance(l, list) and len(l) == len(names) and all(same_text(a, v) and eq(b, r) for (a, b), v, r in zip(l, names, rows))
def modulus(v): return atom("call", "abs", tokey(v))
def phase(deg): return lambda v: atom("call", "angle", tokey(v)) * (num(180) / sym("pi") if deg else T.ONE)
def polar(v): return modulus(v) * T.exp(T.J * phase(False)(v))

def precise(f):
    import re
    if not isinstance(f, str): return False
    m = re.match(r"^%[+\- ]?\d*\.(\d+)([eg])$", f)
    return bool(m) and int(m.group(1)) >= (15 if m.group(2) == "e" else 16)

def absent(rule, ip, s, q):
    h = attempt(ip, lambda: call(ip, s, "__getitem__", q))
    rule("reading", "a name that is not there", h == ("raise", "KeyError"), "%s reads %s %s" % (q, h[0], h[1]))
    h = attempt(ip, lambda: call(ip, s, "get", q, "dflt"))
    rule("reading", "get, a name that is not there", h == ("ok", "dflt"), "get(%s, 'dflt') is %s %s" % (q, h[0], h[1]))
    h = attempt(ip, lambda: call(ip, s, "has_key", q))
    g = attempt(ip, lambda: call(ip, s, "__contains__", q))
    rule("reading", "in, a name that is not there", h == ("ok", False) and g == ("ok", False), "%s, %s" % (h, g))

# ---------------------------------------------------------------------------------- operating point
def opsol(prog, ip, circ, n, tag="x"):
    x, err = column(n, tag), column(n, "e")
    s = ip.instantiate(prog.cls("results.op_solution"), [], {"x": x, "error": err, "circ": circ, "outfile": OUT, "iterations": sym("iters")}, N)
    return s, x, err

def cell(v):
    """the only number in a value"""
    x = vec(v)
    return x[0] if x is not None and len(x) == 1 else None

def operating_point(c, prog, which):
    ci = prog.cls("results.op_solution")
    where = "%s:%d" % (ci.module.rel, ci.node.lineno)
    def info(ip, args, kw, n):
        el = args[0]
        k = "D" if len(args) + len(kw) > 2 else "S"
        lab, val = ip.new_list(["label of " + el.attrs["part_id"]], n), ip.new_list([el.attrs["part_id"]], n)
        ip.infos.append((el, list(args[1:]) + [kw[q] for q in ("ports_v", "ports_v_v", "current") if q in kw], lab, val))
        return (lab, val)
    def fn(ip):
        ip.summaries["*.get_op_info"] = info
        ip.infos = []
        circ, names, units = build(prog, ip, which)
        n = len(names)
        s, x, err = opsol(prog, ip, circ, n)
        out = []
        def rule(r, t, ok, msg): out.append((r, t, ok, msg))
        vs = listed(ip, s.attrs["variables"])
        rule("names", "variables", len(vs) == n and all(same_text(a, b) for a, b in zip(vs, names)), "the variables are %s, the unknowns %s" % (vs, names))
        for i, (v, u) in enumerate(zip(names, units)):
            kind = "a voltage" if v[0] == "V" else "a current"
            for form, f in FORMS:
                q = f(v)
                h = attempt(ip, lambda: call(ip, s.attrs["units"], "__getitem__", q))
                rule("units", "%s, %s" % (kind, form), h == ("ok", u), "the unit of %s is %s, not %s" % (q, h[1], u))
                for what, want, get in (("own row", x, lambda: call(ip, s, "__getitem__", q)), ("get", x, lambda: call(ip, s, "get", q)),
                                        ("results", x, lambda: call(ip, s.attrs["results"], "__getitem__", q)), ("errors", err, lambda: call(ip, s.attrs["errors"], "__getitem__", q))):
                    h = attempt(ip, get)
                    rule("reading", "%s, %s, %s" % (what, kind, form), h[0] == "ok" and eq(h[1], [want.vals[i]]), "%s of %s is %s %s, stored %s" % (what, q, h[0], sh(h[1]), sh([want.vals[i]])))
                h = attempt(ip, lambda: call(ip, s, "has_key", q))
                g = attempt(ip, lambda: call(ip, s, "__contains__", q))
                rule("reading", "in, %s, %s" % (kind, form), h == ("ok", True) and g == ("ok", True), "%s: %s, %s" % (q, h, g))
        absent(rule, ip, s, "vnosuch")
        rows = [[v] for v in x.vals]
        h = attempt(ip, lambda: listed(ip, call(ip, s, "values")))
        rule("reading", "values()", h[0] == "ok" and h[1] is not None and len(h[1]) == n and all(eq(a, b) for a, b in zip(h[1], rows)), "values() gives %s %s" % (h[0], [sh(v) for v in h[1]] if isinstance(h[1], list) else h[1]))
        h = attempt(ip, lambda: pairs(ip, call(ip, s, "items")))
        rule("reading", "items()", h[0] == "ok" and matched(h[1], names, rows), "items() gives %s %s" % (h[0], shp(h[1])))
        for t in ("iteration", "iterating again"):
            h = attempt(ip, lambda: [tuple(listed(ip, p)) for p in iterate(ip, s)])
            rule("reading", t, h[0] == "ok" and matched(h[1], names, rows), "%s gives %s %s" % (t, h[0], shp(h[1])))
        h = attempt(ip, lambda: call(ip, s, "asarray"))
        rule("reading", "asarray()", h[0] == "ok" and isinstance(h[1], Mat) and h[1].shape == (n, 1) and eq(list(h[1].vals), list(x.vals)), "asarray() gives %s %s" % (h[0], sh(h[1])))
        # printed table
        ip.tables = []
        h = attempt(ip, lambda: call(ip, s, "get_table_array"))
        rule("report", "results table", h[0] == "ok" and len(ip.tables) == 1 and tabulated(ip, ip.tables[0], names, units, x, err), "the table holds %s" % (ip.tables,))
        # short form
        ip.tables = []
        h = attempt(ip, lambda: call(ip, s, "print_short"))
        cells = [q for t in ip.tables for r in listed(ip, t[0]) for q in listed(ip, r) if q != ""] if h[0] == "ok" else []
        rule("report", "short form", h[0] == "ok" and len(cells) == n and all(short(q, v, u, y) for q, v, u, y in zip(cells, names, units, x.vals)), "it shows %s" % ([str(q) for q in cells] or h[1]))
        # element reports
        nv = sum(1 for u in units if u == "V")
        volt = lambda k: T.ZERO if k == 0 else x.vals[k - 1]
        vde = 0
        power = T.ZERO
        el = list(circ.attrs["__items__"].items)
        cur = {}
        for (kind, pid, ns), e in zip(CIRCUITS[which][0], el):
            if kind in VDE: cur[pid.lower()] = x.vals[nv + vde]; vde += 1
        done_ = {id(a[0]): a for a in ip.infos}
        groups = {}
        for (kind, pid, ns), e in zip(CIRCUITS[which][0], el):
            nd = {a: int(v.const()) if isinstance(v, Poly) else v for a, v in e.attrs.items() if a in ("n1", "n2", "sn1", "sn2", "ng", "nb")}
            v = volt(nd["n1"]) - volt(nd["n2"])
            if prog.find_method(e.cls, "get_op_info") is not None:
                a = done_.get(id(e))
                if a is None: rule("report", "%s: reported" % kind, False, "%s is not asked for its report" % pid); continue
                if kind in ("diode", "mos (ekv)"):
                    ports = ((("n1", "n2"),),) if kind == "diode" else None
                    want = [[v]] if kind == "diode" else [[volt(nd[p]) - volt(nd[q]) for p, q in MOSPORTS(prog, ip, e)]]
                else: want = [[v]]
                got = nested(a[1][0])
                rule("report", "%s: its own voltage" % kind, got is not None and len(got) == len(want) and all(eq(p, q) for p, q in zip(got, want)), "%s is given %s, its voltages are %s" % (pid, show_nested(got), show_nested(want)))
                if kind in VDE: rule("report", "%s: its own current" % kind, len(a[1]) == 2 and eq(a[1][1], [cur[pid.lower()]]), "%s is given %s, its current is %s" % (pid, sh(a[1][1]) if len(a[1]) > 1 else "no current", show(cur[pid.lower()])))
                groups.setdefault(pid[0].upper() if pid[0].upper() != "M" else pid.upper(), []).append(a)
            if kind == "isource": power = power - v * cell(attempt(ip, lambda: call(ip, e, "I"))[1])
            elif kind == "vsource": power = power - v * cur[pid.lower()]
            elif kind == "vcvs": power = power - v * cur[pid.lower()]
            elif kind == "vccs": power = power - v * e.attrs["alpha"] * (volt(nd["sn1"]) - volt(nd["sn2"]))
            elif kind == "cccs": power = power - v * e.attrs["alpha"] * cur["va"]
            elif kind == "ccvs": power = power - e.attrs["alpha"] * cur["va"] * cur[pid.lower()]
        t = cell(s.attrs["tot_power"])
        rule("report", "total power", t is not None and T.equal(t, power), "the total power is %s, the sources supply %s" % (show(t) if t is not None else s.attrs["tot_power"], show(power)))
        oi, ok_ = s.attrs["_op_info"], s.attrs["_op_keys"]
        # file
        ip.tables = []
        h = attempt(ip, lambda: call(ip, s, "write_to_file"))
        rule("file", "write_to_file", h[0] == "ok", "write_to_file ends in %s" % (h[1],))
        rule("report", "results table in the file", any(tabulated(ip, t, names, units, x, err) for t in ip.tables), "no table of the report holds the results")
        for letter, l in groups.items():
            hit = [t for t in ip.tables if reported(ip, t, l)]
            rule("report", "table of the elements of one kind", len(hit) == 1, "the reports of %s are in %d tables of the file" % (", ".join(a[0].attrs["part_id"] for a in l), len(hit)))
        lines = ip.fs.files.get(OUT, [])
        hd = [q for q in lines if isinstance(q, str)]
        data = [q for q in lines if isinstance(q, Row)]
        cols = hd[0].lstrip("#").split("\t") if len(hd) == 1 else []
        rule("file", "header and row", len(data) == 1 and len(cols) == n and all(same_text(a, b) for a, b in zip(cols, names)) and eq(data[0].vals, list(x.vals)) and precise(data[0].fmt), "the file holds %s and %s" % (hd, [sh(r.vals) for r in data]))
        rule("file", "report closed", all(q.closed for q in ip.fs.handles), "%s stays open" % [q.name for q in ip.fs.handles if not q.closed])
        return out
    for r in done(c, "report", which, go(prog, fn), where):
        c.analysed(*r.ip.inlined)
        for ru, t, ok, msg in r.value: c.check(ok, ru, "op_solution: %s" % t, "%s: %s" % (which, msg), where)

def MOSPORTS(prog, ip, e):
    """the driving ports of the transistor, as its own class says, by attribute"""
    d = attempt(ip, lambda: call(ip, e, "get_drive_ports", num(0)))[1]
    at = {}
    for a in ("n1", "n2", "ng", "nb"): at.setdefault(int(e.attrs[a].const()) if isinstance(e.attrs[a], Poly) else e.attrs[a], a)
    return [tuple(at[int(q.const()) if isinstance(q, Poly) else q] for q in (p if isinstance(p, tuple) else p.items)) for p in (d if isinstance(d, tuple) else d.items)]

def nested(v):
    its = v.items if isinstance(v, PList) else list(v) if isinstance(v, (tuple, list)) else v.rows() if isinstance(v, Mat) else None
    if its is None: return None
    out = []
    for q in its:
        z = q.items if isinstance(q, PList) else list(q) if isinstance(q, (tuple, list)) else q.rows() if isinstance(q, Mat) else None
        if z is None: return None
        z = [cell(y) for y in z]
        if None in z: return None
        out.append(z)
    return out
def show_nested(v): return "?" if v is None else "[%s]" % ", ".join(sh(q) for q in v)

def tabulated(ip, t, names, units, x, err):
    rows = listed(ip, t[0]) if isinstance(t[0], (PList, tuple)) else None
    if rows is None or len(rows) != len(names): return False
    for r, v, u, y, e in zip(rows, names, units, x.vals, err.vals):
        r = listed(ip, r)
        if r is None or len(r) < 4 or not same_text(r[0], v) or r[1] != u or not eq(r[2], [y]) or not eq(r[3], [e]): return False
    return True

def short(q, v, u, y):
    q = q if isinstance(q, str) else str(q)
    return q.upper() == ("%s: <%s> %s" % (v, show(y), u)).upper()

def reported(ip, t, l):
    rows = listed(ip, t[0]) if isinstance(t[0], (PList, tuple)) else None
    if rows is None: return False
    if len(l) == 1 and t[0] is l[0][3]: return True    # a single report whose values are rows of its own
    return len(rows) == len(l) and all(r is a[3] for r, a in zip(rows, l)) and any(t[1] is a[2] for a in l)

def multiport(c, prog):
    """a device with two outputs is given the voltages of the driving ports of both"""
    fi = prog.func("results.op_solution._get_elements_op")
    def ports(ip, args, kw, n): return ((num(1), num(2)), (num(2), num(0)))
    def drive(ip, args, kw, n):
        k = args[1].const() if len(args) > 1 else list(kw.values())[0].const()
        return [((num(1), num(2)),), ((num(2), num(0)), (num(0), num(1)))][int(k)]
    got = []
    def info(ip, args, kw, n):
        ip.given = args[1] if len(args) > 1 else list(kw.values())[0]
        return (ip.new_list(["l"], n), ip.new_list(["v"], n))
    def fn(ip):
        ip.summaries.update({"*.get_op_info": info, "*.get_output_ports": ports, "*.get_drive_ports": drive})
        ip.given = None
        o = start(prog, ip)
        models(prog, ip, o)
        add(ip, o, "diode", "D1", ["a", "b"])
        ip.tables = []
        s, x, err = opsol(prog, ip, o, 2)
        return x, ip.given
    for r in done(c, "report", "two outputs", go(prog, fn), fi.where):
        x, g = r.value
        g = nested(g)
        want = [[x.vals[0] - x.vals[1]], [x.vals[1], -x.vals[0]]]
        c.check(g is not None and len(g) == 2 and all(eq(a, b) for a, b in zip(g, want)), "report", "op_solution: a device with two outputs", "it is given %s, its driving voltages are %s" % (show_nested(g), show_nested(want)), fi.where)

LABELS = {"resistor": {"R": "value", "V": "v", "I": lambda v, i, a: v / a, "P": lambda v, i, a: v * v / a},
          "capacitor": {"V": "v", "Q": lambda v, i, a: v * a, "E": lambda v, i, a: a * v * v / num(2)},
          "inductor": {u"\u03d5": lambda v, i, a: a * i, "I": "i", "E": lambda v, i, a: a * i * i / num(2)},
          "vsource": {"V": lambda v, i, a: a, "I": "i", "P": lambda v, i, a: a * i},
          "isource": {"V": "v", "I": lambda v, i, a: a, "P": lambda v, i, a: v * a}}

def linear_reports(c, prog):
    """what the linear elements report about themselves"""
    from .c19 import labelled
    for kind, want in LABELS.items():
        where = ""
        def fn(ip):
            o = start(prog, ip)
            e = add(ip, o, kind, {"resistor": "R", "capacitor": "C", "inductor": "L", "vsource": "V", "isource": "I"}[kind] + "z", ["a", "b"])
            e = list(o.attrs["__items__"].items)[0]
            v, i = sym("v"), sym("i")
            a = [((v,),)] + ([i] if kind in VDE else [])
            return e, call(ip, e, "get_op_info", *a)
        for r in done(c, "report", kind, go(prog, fn), where):
            c.analysed(*r.ip.inlined)
            e, got = r.value
            m = prog.find_method(e.cls, "get_op_info")
            got = labelled(got)
            if got is None: c.undecided("report", "%s reports" % kind, "the report is not a list of labels and values"); continue
            val = sym("val_" + e.attrs["part_id"])
            for lab, x in got.items():
                key = re_label(lab)
                w = want.get(key)
                if w is None: continue
                w = {"v": sym("v"), "i": sym("i"), "value": val}.get(w) if isinstance(w, str) else w(sym("v"), sym("i"), val)
                alt = [w]
                if kind == "vsource" : alt += [want[key](sym("v"), sym("i"), sym("v"))] if callable(want[key]) else []
                x = cell(x)
                c.check(x is not None and any(T.equal(x, y) for y in alt), "report", "%s reports %s" % (kind, lab.encode("ascii", "replace").decode()), "it reports %s, it is %s" % (show(x) if x is not None else x, show(w)), m.where)
            for k in ("V", "I", "P"):
                if k in want and not any(re_label(l) == k for l in got): c.undecided("report", "%s reports %s" % (kind, k), "no such label")

def re_label(l):
    import re
    return re.split(r"[ (\[]", l)[0]

# ---------------------------------------------------------------------------------- poles and zeros
def pole_zero(c, prog):
    ci = prog.cls("results.pz_solution")
    where = "%s:%d" % (ci.module.rel, ci.node.lineno)
    for np_, nz in ((2, 1), (3, 0), (0, 2), (1, 1), (0, 0), (12, 2)):
        what = "%s poles, %s zeros" % ("some" if np_ else "no", "some" if nz else "no")
        def fn(ip):
            circ, names, units = build(prog, ip, "one unknown")
            P, Z = [sym("p%d" % i) for i in range(np_)], [sym("z%d" % i) for i in range(nz)]
            s = ip.instantiate(ci, [], {"circ": circ, "poles": ip.new_list(list(P), N), "zeros": ip.new_list(list(Z), N), "outfile": OUT}, N)
            out = []
            def rule(r, t, ok, msg): out.append((r, t, ok, msg))
            want = [("p%d" % i, v) for i, v in enumerate(vec(s.attrs["poles"]) or [])] + [("z%d" % i, v) for i, v in enumerate(vec(s.attrs["zeros"]) or [])]
            rule("names", "all poles and zeros", sorted(show(v) for _, v in want) == sorted(show(v) for v in P + Z) and len(want) == np_ + nz and len(vec(s.attrs["poles"])) == np_, "poles %s and zeros %s" % (sh(s.attrs["poles"]), sh(s.attrs["zeros"])))
            h = attempt(ip, lambda: listed(ip, call(ip, s, "keys")))
            rule("names", "keys()", h[0] == "ok" and [str(q).lower() for q in h[1]] == [a for a, _ in want], "keys() gives %s" % (h,))
            h = attempt(ip, lambda: call(ip, s, "__len__"))
            rule("names", "len()", h[0] == "ok" and isinstance(h[1], Poly) and h[1].const() == len(want), "%s %s" % (h[0], sh(h[1])))
            for k, v in want:
                for form, f in FORMS:
                    q = f(k)
                    h = attempt(ip, lambda: call(ip, s, "__getitem__", q)); g = attempt(ip, lambda: call(ip, s, "get", q))
                    rule("reading", form, h[0] == g[0] == "ok" and eq(h[1], [v]) and eq(g[1], [v]), "%s reads %s %s" % (q, h[0], sh(h[1])))
                    h = attempt(ip, lambda: call(ip, s, "has_key", q)); g = attempt(ip, lambda: call(ip, s, "__contains__", q))
                    rule("reading", "in, %s" % form, h == g == ("ok", True), "%s: %s, %s" % (q, h, g))
                    h = attempt(ip, lambda: call(ip, s.attrs["units"], "__getitem__", q))
                    rule("units", form, h == ("ok", "rad/s"), "the unit of %s is %s" % (q, h[1]))
            absent(rule, ip, s, "p77")
            h = attempt(ip, lambda: listed(ip, call(ip, s, "values")))
            rule("reading", "values()", h[0] == "ok" and h[1] is not None and len(h[1]) == len(want) and all(eq(a, [b]) for a, (_, b) in zip(h[1], want)), "values() gives %s %s" % (h[0], h[1]))
            h = attempt(ip, lambda: pairs(ip, call(ip, s, "items")))
            rule("reading", "items()", h[0] == "ok" and matched(h[1], [a for a, _ in want], [[b] for _, b in want]), "items() gives %s %s" % (h[0], shp(h[1])))
            for t in ("iteration", "iterating again"):
                h = attempt(ip, lambda: [tuple(listed(ip, p)) for p in iterate(ip, s)])
                rule("reading", t, h[0] == "ok" and matched(h[1], [a for a, _ in want], [[b] for _, b in want]), "%s gives %s %s" % (t, h[0], shp(h[1])))
            lines = ip.fs.files.get(OUT)
            if want:
                lines = lines or []
                hd = [q for q in lines if isinstance(q, str)]
                data = [q for q in lines if isinstance(q, Row)]
                cols = hd[0].lstrip("#").split("\t") if len(hd) == 1 else []
                ok = len(data) == 1 and len(cols) == 2 * len(want) and len(data[0].vals) == len(cols) and precise(data[0].fmt)
                for k, v in want:
                    for part, w in (("Re", "real"), ("Im", "imag")):
                        ks = [i for i, q in enumerate(cols) if q.upper() == ("%s(%s)" % (part, k)).upper()]
                        ok = ok and len(ks) == 1 and T.equal(data[0].vals[ks[0]], atom("call", w, tokey(v)))
                rule("file", "columns", ok, "the file holds %s and %s" % (hd, [sh(r.vals) for r in data]))
            return out
        for r in done(c, "reading", "pz_solution, " + what, go(prog, fn), where):
            c.analysed(*r.ip.inlined)
            for ru, t, ok, msg in r.value: c.check(ok, ru, "pz_solution, %s: %s" % (what, t), msg, where)

# ---------------------------------------------------------------------------------- symbolic results
def symbolic(c, prog):
    ci = prog.cls("results.symbolic_solution")
    where = "%s:%d" % (ci.module.rel, ci.node.lineno)
    def fn_(tf):
        def fn(ip):
            def sy(name): return Obj(None, name, {"name": name, "is_Symbol": True, "__str__": name}, opaque=True)
            syms = {k: sy(k) for k in ("Va", "V_b2", "I(V1)", "R1", "S")}
            ip.opts["text"] = lambda ip_, spec, v: v.attrs["name"] if isinstance(v, Obj) and "name" in v.attrs else text(ip_, spec, v)
            inner = ip.opts["meth_hook"]
            def hook(ip_, b, name, args, kw, n):
                if isinstance(b, Obj) and "__atoms__" in b.attrs and name == "atoms": return ip_.new_list([syms[k] for k in b.attrs["__atoms__"]], n)
                return inner(ip_, b, name, args, kw, n)
            ip.opts["meth_hook"] = hook
            def string(ip_, args, kw, n):
                v = args[0]
                if isinstance(v, Obj) and "name" in v.attrs: return v.attrs["name"]
                if isinstance(v, str): return v
                return "<%s>" % (v.name if isinstance(v, Obj) else show(v))
            ip.summaries.update({"builtins.str": string})
            def ex(name, atoms): return Obj(None, "expression " + name, {"__atoms__": atoms}, opaque=True)
            d = PDict()
            vals = []
            for k, name in enumerate(("Va", "V_b2", "I(V1)")):
                e = ex(name, ["R1", "S"])
                if tf:
                    g = PDict()
                    for q in ("gain", "gain0"): g.items[q] = e; g.keyvals[q] = q
                    for q in ("poles", "zeros"): g.items[q] = ip.new_list([], N); g.keyvals[q] = q
                    key, e = name + "/V1", g
                else: key = syms[name]
                kk = tokey(key)
                d.items[kk] = e; d.keyvals[kk] = key
                vals.append((name + ("/V1" if tf else ""), e))
            circ, _, _ = build(prog, ip, "one unknown")
            s = ip.instantiate(ci, [d, PDict(), circ, None], {"tf": tf}, N)
            out = []
            def rule(r, t, ok, msg): out.append((r, t, ok, msg))
            for name, e in vals:
                for form, f in FORMS:
                    h = attempt(ip, lambda: call(ip, s, "__getitem__", f(name))); g = attempt(ip, lambda: call(ip, s, "get", f(name)))
                    rule("reading", form, h[0] == g[0] == "ok" and h[1] is e and g[1] is e, "%s reads %s %s" % (f(name), h[0], h[1]))
                    h = attempt(ip, lambda: call(ip, s, "has_key", f(name))); g = attempt(ip, lambda: call(ip, s, "__contains__", f(name)))
                    rule("reading", "in, %s" % form, h == g == ("ok", True), "%s: %s, %s" % (name, h, g))
                if not tf:
                    h = attempt(ip, lambda: call(ip, s, "__getitem__", syms[name]))
                    rule("reading", "by symbol", h[0] == "ok" and h[1] is e, "%s reads %s %s" % (name, h[0], h[1]))
            h = attempt(ip, lambda: call(ip, s, "__getitem__", "nosuch")); g = attempt(ip, lambda: call(ip, s, "get", "nosuch", "dflt"))
            rule("reading", "a name that is not there", h == ("raise", "KeyError") and g == ("ok", "dflt"), "%s, %s" % (h, g))
            h = attempt(ip, lambda: listed(ip, call(ip, s, "keys")))
            rule("names", "keys()", h[0] == "ok" and [str(q).upper() for q in h[1]] == [n.upper() for n, _ in vals], "%s" % (h,))
            same = lambda l: isinstance(l, list) and len(l) == len(vals) and all(str(a).upper() == n.upper() and b is e for (a, b), (n, e) in zip(l, vals))
            h = attempt(ip, lambda: pairs(ip, call(ip, s, "items")))
            rule("reading", "items()", h[0] == "ok" and same(h[1]), "items() gives %s" % (h,))
            for t in ("iteration", "iterating again"):
                h = attempt(ip, lambda: [tuple(listed(ip, p)) for p in iterate(ip, s)])
                rule("reading", t, h[0] == "ok" and same(h[1]), "%s gives %s" % (t, h))
            for name in (["Va", "I(V1)"] if not tf else []) + ["R1", "S"]:
                for form, f in FORMS:
                    h = attempt(ip, lambda: call(ip, s, "as_symbol", f(name)))
                    rule("reading", "as_symbol, %s" % form, h[0] == "ok" and h[1] is syms[name], "as_symbol(%s) is %s %s" % (f(name), h[0], h[1]))
            h = attempt(ip, lambda: call(ip, s, "as_symbol", "nosuch"))
            rule("reading", "as_symbol, a name that is not there", h == ("raise", "ValueError"), "%s" % (h,))
            return out
        return fn
    for tf in (False, True):
        what = "symbolic_solution%s" % (" of transfer functions" if tf else "")
        for r in done(c, "reading", what, go(prog, fn_(tf)), where):
            c.analysed(*r.ip.inlined)
            for ru, t, ok, msg in r.value: c.check(ok, ru, "%s: %s" % (what, t), msg, where)

# ---------------------------------------------------------------------------------- the dictionary and the csv functions
def dictionary(c, prog):
    ci = prog.cls("results.case_insensitive_dict")
    where = "%s:%d" % (ci.module.rel, ci.node.lineno)
    def fn(ip):
        o = ip.instantiate(ci, [], {}, N)
        out = []
        def rule(t, ok, msg): out.append((t, ok, msg))
        rule("empty", attempt(ip, lambda: call(ip, o, "get", "a", "d")) == ("ok", "d") and attempt(ip, lambda: call(ip, o, "__getitem__", "a")) == ("raise", "KeyError") and attempt(ip, lambda: call(ip, o, "__contains__", "a")) == ("ok", False), "an empty dictionary holds something")
        def put(k, v):
            d = PDict({k: v}); d.keyvals[k] = k
            call(ip, o, "update", d)
        put("Vab", "1"); put("I(x)", "2"); put("vB", "3")
        for q, w in (("VAB", "1"), ("vab", "1"), ("i(X)", "2"), ("VB", "3"), ("vb", "3")):
            rule("reading by any case", attempt(ip, lambda: call(ip, o, "__getitem__", q)) == ("ok", w) and attempt(ip, lambda: call(ip, o, "get", q)) == ("ok", w) and attempt(ip, lambda: call(ip, o, "__contains__", q)) == ("ok", True) and attempt(ip, lambda: call(ip, o, "has_key", q)) == ("ok", True), "%s does not read %s" % (q, w))
        rule("missing", attempt(ip, lambda: call(ip, o, "get", "v", "d")) == ("ok", "d") and attempt(ip, lambda: call(ip, o, "__getitem__", "v")) == ("raise", "KeyError"), "a part of a name is found")
        put("VAB", "9")
        n = attempt(ip, lambda: call(ip, o, "__len__"))
        rule("writing again in another case", attempt(ip, lambda: call(ip, o, "__getitem__", "vab")) == ("ok", "9") and n[0] == "ok" and n[1].const() == 3, "after Vab and VAB: %s, %s entries" % (attempt(ip, lambda: call(ip, o, "__getitem__", "vab"))[1], sh(n[1])))
        k, v = listed(ip, call(ip, o, "keys")), listed(ip, call(ip, o, "values"))
        it = [tuple(listed(ip, p)) for p in listed(ip, call(ip, o, "items"))]
        rule("keys and values in step", list(zip(k, v)) == it and sorted(v) == ["2", "3", "9"], "%s, %s, %s" % (k, v, it))
        return out
    for r in done(c, "dictionary", "case_insensitive_dict", go(prog, fn), where):
        for t, ok, msg in r.value: c.check(ok, "dictionary", t, msg, where)

def csv(c, prog):
    f = {n: prog.func("csvlib." + n) for n in ("write_csv", "load_csv", "get_headers", "get_headers_index")}
    heads = ["T", "Va", "I(v1)", "V10"]
    M = lambda lo, hi: Mat((4, hi - lo), [sym("d%d_%d" % (i, k)) for i in range(4) for k in range(lo, hi)])
    def fn(ip):
        out = []
        def rule(t, ok, msg, w): out.append((t, ok, msg, f[w].where))
        L = lambda l: ip.new_list(list(l), N)
        ip.call_function(f["write_csv"], ["a.csv", M(0, 2), L(heads)])
        ip.call_function(f["write_csv"], ["a.csv", M(2, 3), L(heads)], {"append": True})
        h = attempt(ip, lambda: listed(ip, ip.call_function(f["get_headers"], ["a.csv"])))
        rule("headers read back", h == ("ok", heads), "%s" % (h,), "get_headers")
        for ask, want in ((None, [0, 1, 2, 3]), ([], [0, 1, 2, 3]), (["va"], [1]), (["V10", "T"], [3, 0]), (["I(V1)", "VA", "t"], [2, 1, 0]), (["nosuch", "va"], [1]), (["va", "va"], [1, 1])):
            h = attempt(ip, lambda: listed(ip, ip.call_function(f["get_headers_index"], [L(heads)] + ([] if ask is None else [L(ask)]), {"verbose": T.ZERO})))
            got = [int(x.const()) for x in h[1]] if h[0] == "ok" else h
            rule("column numbers", got == want, "%s are %s, should be %s" % (ask, got, want), "get_headers_index")
        full = M(0, 3)
        for ask in (None, [], ["va"], ["V10", "t"], ["i(V1)", "VA", "T"]):
            cols = [0, 1, 2, 3] if not ask else [[x.lower() for x in heads].index(a.lower()) for a in ask]
            for skip in (0, 1, 2):
                for ns in (None, 1, 2, 3, 5):
                    kw = {"verbose": T.ZERO}
                    if ask is not None: kw["load_headers"] = L(ask)
                    if skip: kw["skip"] = num(skip)
                    if ns is not None: kw["nsamples"] = num(ns)
                    h = attempt(ip, lambda: ip.call_function(f["load_csv"], ["a.csv"], kw))
                    last = 3 if ns is None else min(3, skip + ns)
                    want = [full.vals[3 * i + k] for i in cols for k in range(skip, last)]
                    d = listed(ip, h[1]) if h[0] == "ok" else None
                    t = "reading %s%s" % ("all the signals" if not ask else "some signals", "" if not skip and ns is None else " from a later sample" if skip and ns is None else " up to a number of samples" if not skip else " from a later sample up to a number of samples")
                    ok = d is not None and isinstance(d[0], Mat) and d[0].shape == (len(cols), last - skip) and eq(list(d[0].vals), want)
                    rule(t, ok, "load_headers=%s, skip=%s, nsamples=%s gives %s" % (ask, skip, ns, sh(d[0]) if d else h[1]), "load_csv")
                    if d is None: continue
                    rule(t + ": names", [str(q) for q in listed(ip, d[1])] == [heads[k] for k in cols], "the names are %s" % (listed(ip, d[1]),), "load_csv")
                    rule(t + ": position", isinstance(d[2], Poly) and d[2].const() == last, "skip=%s, nsamples=%s: the position is %s, not %s" % (skip, ns, show(d[2]), last), "load_csv")
                    rule(t + ": all read", (d[3] if isinstance(d[3], bool) else None) == (last == 3), "skip=%s, nsamples=%s: all read is %s" % (skip, ns, d[3]), "load_csv")
        h = attempt(ip, lambda: ip.call_function(f["load_csv"], ["a.csv"], {"load_headers": L(["va", "nosuch"]), "verbose": T.ZERO}))
        rule("a signal that is not there", h == ("raise", "ValueError"), "%s" % (h,), "load_csv")
        return out
    for r in done(c, "file", "csvlib", go(prog, fn), f["load_csv"].where):
        c.analysed(*r.ip.inlined)
        for t, ok, msg, w in r.value: c.check(ok, "file", "csvlib: " + t, msg, w)

def run(c, prog):
    c.rule("names", "the variables are the sweep variable, the node voltages by node number, the currents of the voltage-defined elements in circuit order", 30)
    c.rule("units", "units in the same order, found by any capitalization of the name", 60)
    c.rule("reading", "each variable, read in any way and capitalization, gives its own row", 150)
    c.rule("file", "the file has one column per variable, in order, full precision, and reading it returns what was written", 30)
    c.rule("report", "operating point reports use each element's own voltage and current", 20)
    c.rule("dictionary", "the dictionary behind results and units ignores case", 5)
    for cl in SOL:
        for which in sorted(CIRCUITS):
            for npts in ((1, 3) if which in ("mixed", "one unknown") else (2,)):
                for deg in ((False, True) if cl.name == "ac_solution" else (None,)):
                    c.guard("%s %s" % (cl.name, which), solution, c, prog, cl, which, npts, deg)
    for which in sorted(CIRCUITS): c.guard("op %s" % which, operating_point, c, prog, which)
    c.guard("two outputs", multiport, c, prog)
    c.guard("linear reports", linear_reports, c, prog)
    c.guard("poles and zeros", pole_zero, c, prog)
    c.guard("symbolic", symbolic, c, prog)
    c.guard("dictionary", dictionary, c, prog)
    c.guard("csv", csv, c, prog)
