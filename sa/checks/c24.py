"""C24: sweep grids start and stop where asked and are evenly spaced."""
import ast, math
from fractions import Fraction
from .. import terms as T
from ..interp import *
from ..terms import num, sym, atom, Poly

N = ast.Pass(lineno=0)
A, D, Q = sym("start"), sym("d"), sym("q")
COUNTS = (2, 3, 4, 6, 9)

def fold(f):
    def run(ip, a, kw, n):
        x = term(a[0])
        c = x.const()
        if c is None or len(a) > 1 and not (isinstance(a[1], Poly) and a[1].is_zero()): return atom("call", "round", *[tokey(q) for q in a])
        return num(int(f(c)))
    return run
def quiet(ip, a, kw, n): return None
SUMM = {"numpy.log2": lambda ip, a, kw, n: T.log(term(a[0])) / T.log(num(2))}
for m in ("builtins", "numpy"):
    for k in ("round", "rint", "around", "round_"): SUMM["%s.%s" % (m, k)] = fold(round)
for m in ("math", "numpy"):
    for k, f in (("floor", math.floor), ("ceil", math.ceil), ("trunc", int), ("fix", int)): SUMM["%s.%s" % (m, k)] = fold(f)
for k in ("print_general_error", "print_warning", "print_info_line"): SUMM["printing." + k] = quiet
for k in ("display", "step", "hide", "reset"): SUMM["*." + k] = quiet
SUMM["ticker.ticker"] = lambda ip, a, kw, n: Obj(None, "tick", {}, opaque=True)

def choices(prog):
    """the values the sweep type is compared with"""
    out = {}
    for s in prog.modules[prog.pkg + ".options"].tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
            for t in s.targets:
                if isinstance(t, ast.Name): out["%s.options.%s" % (prog.pkg, t.id)] = s.value.value
    return out

def order(x):
    """sign of a term, with the steps d and q positive and start, 2 pi positive: None if it depends"""
    c = x.const()
    if c is not None: return (c > 0) - (c < 0)
    s = set()
    for m, k in x.t.items():
        for at, e in m:
            if not (at[0] == "exp" or at == ("sym", "d") or at == ("sym", "q") or at == ("sym", "pi")): return None
        s.add(k > 0)
    return None if len(s) > 1 else 1 if s == {True} else -1

def decide_for(asc=True):
    def decide(key):
        if key[0] not in ("lt0", "gt0", "eq0", "le0", "ge0") or not isinstance(key[1], Poly): return None
        x = key[1]
        s = order(x)
        if s is None:
            ex = [k for k in x.t.items() if any(at[0] == "exp" for at, _ in k[0])]
            if len(ex) == 2 and len(x.t) == 2:
                # c exp(u) - c exp(v): the sign of u - v
                (m1, k1), (m2, k2) = ex
                u, v = [next(at[1] for at, _ in m if at[0] == "exp") for m in (m1, m2)]
                r1, r2 = [tuple(p for p in m if p[0][0] != "exp") for m in (m1, m2)]
                if r1 == r2 and k1 == -k2:
                    o = order(u - v)
                    if o is not None: s = o if k1 > 0 else -o
            elif len(x.t) == 2 and len(ex) == 1 and () in x.t:
                # exp(u) - 1
                (m, k), = ex
                if len(m) == 1 and x.t[()] == -k:
                    o = order(m[0][0][1])
                    if o is not None: s = o if k > 0 else -o
        if s is None: return None
        return {"lt0": s < 0, "gt0": s > 0, "eq0": s == 0, "le0": s <= 0, "ge0": s >= 0}[key[0]]
    return decide

def go(prog, fn, limit=24, summaries=None, **o):
    opts = {"notnone": lambda a: True, "smallmat": True, "modinit": True, "unroll": 40, "distinct": False, "inttype": True, "strict": True, "iters": True, "decide": decide_for()}
    g = dict(choices(prog))
    g.update(o.pop("globals", {}))
    opts.update(o)
    opts["globals"] = g
    def make(script): return Interp(prog, script, opts=dict(opts), summaries=dict(SUMM, **(summaries or {})), budget=900000)
    return explore(make, fn, limit, True)

def collect(c, rule, what, runs, fi):
    n = 0
    for r in runs:
        if r.outcome == "unsupported": c.undecided(rule, what, r.error); continue
        n += 1
        if r.outcome == "raise": c.fail(rule, "%s: ends in %s" % (what, r.error.name), "%s: %s" % (what, r.error), fi.where); continue
        c.analysed(*r.ip.inlined)
        for ru, t, ok, msg in r.value: c.check(ok, ru, t, "%s: %s" % (what, msg), fi.where)
    return n

# ---------------------------------------------------------------------------------- the grids
def grids():
    """name, class, endpoints for k points, value of point i"""
    for asc in (True, False):
        d = D if asc else -D
        yield ("linear, %s" % ("rising" if asc else "falling"), "utilities.lin_axis_iterator", lambda k, d=d: (A, A + d * num(k - 1)), lambda i, d=d: A + d * num(i))
        q = Q if asc else -Q
        yield ("logarithmic, %s" % ("rising" if asc else "falling"), "utilities.log_axis_iterator", lambda k, q=q: (T.exp(A), T.exp(A + q * num(k - 1))), lambda i, q=q: T.exp(A + q * num(i)))

def show(x):
    s = T.show(x) if isinstance(x, Poly) else repr(x)
    return s if len(s) < 120 else s[:120] + "..."
def same(x, y):
    x = scalar(x)
    return isinstance(x, Poly) and T.equal(x, y)
def scalar(x):
    if isinstance(x, Mat) and len(x.vals) == 1: return x.vals[0]
    return x

def grid(c, prog, name, cls, ends, point, k, kwargs):
    ci = prog.cls(cls)
    fi = prog.find_method(ci, "__init__") or prog.find_method(ci, "__iter__")
    what = "%s grid of %d point%s" % (name, k, "s" if k > 1 else "")
    lo, hi = ends(k)
    def make(ip): return ip.instantiate(ci, [], {"min": lo, "max": hi, "points": num(k)}, N) if kwargs else ip.instantiate(ci, [lo, hi, num(k)], {}, N)
    def values(name, got):
        out = [("count", "%s grid: number of points" % name, len(got) == k, "it gives %d values" % len(got))]
        if got:
            out.append(("ends", "%s grid: first point" % name, same(got[0], lo), "the first point is %s, not %s" % (show(got[0]), show(lo))))
            if len(got) == k: out.append(("ends", "%s grid: last point" % name, same(got[-1], hi), "the last point is %s, not %s" % (show(got[-1]), show(hi))))
        bad = next((i for i, g in enumerate(got[:k]) if not same(g, point(i))), None)
        out.append(("even", "%s grid: spacing" % name, bad is None, "" if bad is None else "point %d is %s, not %s" % (bad, show(got[bad]), show(point(bad)))))
        return out
    def it(ip): return values(name, list(ip.iterate(make(ip), N)))
    collect(c, "even", what + ", iterated", go(prog, it), fi)
    if prog.find_method(ci, "__next__") is not None:
        def nx(ip):
            o = make(ip)
            got, over = [], 0
            for i in range(k + 2):
                try: got.append(ip.call_function(prog.find_method(ci, "__next__"), [], {}, self_=o))
                except RaiseSig as x:
                    if x.name != "StopIteration": raise
                    over += 1
            out = values(name, got)
            out.append(("count", "%s grid: stays at its end" % name, over == 2, "next() after the last point goes on"))
            return out
        collect(c, "even", what + ", one point at a time", go(prog, nx), fi)
    if prog.find_method(ci, "__getitem__") is not None:
        def ix(ip):
            o = make(ip)
            out = []
            for when in ("before", "after"):
                got = [ip.call_function(prog.find_method(ci, "__getitem__"), [num(i)], {}, self_=o) for i in range(k)]
                bad = next((i for i, g in enumerate(got) if not same(g, point(i))), None)
                out.append(("index", "%s grid: indexed %s iterating" % (name, when), bad is None, "" if bad is None else "[%d] is %s, not %s" % (bad, show(got[bad]), show(point(bad)))))
                past = []
                for i in (k, k + 1):
                    try: past.append(ip.call_function(prog.find_method(ci, "__getitem__"), [num(i)], {}, self_=o))
                    except RaiseSig as x:
                        if x.name != "IndexError": raise
                        past.append(None)
                out.append(("index", "%s grid: indexed past its end" % name, past == [None, None], "[%d] is %s" % (k, past[0])))
                if when == "before": out += values(name, list(ip.iterate(o, N)))
            return out
        collect(c, "index", what + ", indexed", go(prog, ix), fi)

# ---------------------------------------------------------------------------------- dc sweep
def hook(ip, b, name, args, kw, n):
    if isinstance(b, Obj) and b.name == "solution":
        if name in ("add_op", "add_line"): ip.log.append(("add", name, [args[i] if i < len(args) else None for i in range(2)], dict(kw)))
        if name in ("add_op", "add_line", "lock", "print_short"): return None
    return NotImplemented

def solution(ip, args, kw, n):
    o = Obj(None, "solution", {}, opaque=True)
    ip.log.append(("made", o, list(args), dict(kw)))
    return o

def elements(prog, ip, kind):
    """a voltage and a current source of interest among others of similar names"""
    mk = lambda cls, **kw: ip.instantiate(prog.cls("components." + cls), [], kw, N)
    l = [mk("sources.VSource", part_id="V1", n1=num(1), n2=num(0), dc_value=sym("dcV1")), mk("sources.ISource", part_id="I1", n1=num(2), n2=num(0), dc_value=sym("dcI1")),
         mk("Resistor", part_id="R1", n1=num(1), n2=num(2), value=sym("R")),
         mk("sources.VSource", part_id="Vx", n1=num(3), n2=num(0), dc_value=sym("dcVx")), mk("sources.ISource", part_id="Ix", n1=num(1), n2=num(2), dc_value=sym("dcIx"))]
    return l

def snap(l): return [{k: tokey(v) for k, v in o.attrs.items() if isinstance(v, (Poly, str, bool, int)) or v is None} for o in l]

def sweep(c, prog, name, src, kind, k, start, stop, value, skip=None, spell=None, how="new_dc"):
    """dc sweep through new_dc (a number of points) or directly (a step)"""
    fi = prog.func("dc_analysis.dc_analysis")
    what = "DC sweep of %s, %s, %d point%s%s" % (spell or src, name, k, "s" if k != 1 else "", "" if skip is None else ", points may fail, %s" % ("skipping them" if skip else "stopping there"))
    opf = prog.func("dc_analysis.op_analysis")
    def fn(ip):
        ip.log = []
        ip.elems = l = elements(prog, ip, kind)
        circ = Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list(list(l), N)}, opaque=True)
        before = snap(l)
        at = next(i for i, o in enumerate(l) if o.attrs["part_id"] == src)
        def op(ip, a, kw, n):
            i = sum(1 for e in ip.log if e[0] == "op")
            ok = True if skip is None else ip.ask(("op", i))
            o = Obj(None, "op%d" % i, {}, opaque=True) if ok else None
            ip.log.append(("op", i, o, snap(l), l[at].attrs.get("dc_value")))
            return o
        ip.summaries["dc_analysis.op_analysis"] = op
        if how == "new_dc":
            d = ip.call_function(prog.func("ahkab.new_dc"), [], {"start": start, "stop": stop, "points": num(k), "source": spell or src, "sweep_type": kind, "outfile": "f"})
            kw = {q: v for q, v in ((d.keyvals.get(t, t), v) for t, v in d.items.items()) if q != "type"}
        else: kw = {"start": start, "stop": stop, "step": how, "source": spell or src, "sweep_type": kind, "outfile": "f"}
        r = ip.call_function(fi, [circ], kw)
        ops = [e for e in ip.log if e[0] == "op"]
        adds = [e for e in ip.log if e[0] == "add"]
        made = [e for e in ip.log if e[0] == "made"]
        out = []
        key = "DC sweep, %s" % name
        good = [e for e in ops if e[2] is not None]
        wanted = k if skip in (None, True) else next((e[1] + 1 for e in ops if e[2] is None), k)
        out.append(("count", key + ": number of points", len(ops) == wanted, "%d points are solved instead of %d" % (len(ops), wanted)))
        for e in ops[:k]:
            v = value(e[1])
            pos = "first point" if e[1] == 0 else "last point" if e[1] == k - 1 else "spacing"
            out.append(("ends" if pos != "spacing" else "even", "%s: %s" % (key, pos), same(e[4], v), "point %d is solved with the source at %s, not %s" % (e[1], show(e[4]), show(v))))
            rest = [(x, y) for j, (x, y) in enumerate(zip(before, e[3])) for q in set(x) | set(y) if x.get(q) != y.get(q) and not (j == at and q == "dc_value")]
            out.append(("dc", key + ": only the swept source changes", not rest, "other values change: %s" % (rest[:1],)))
        out.append(("dc", key + ": points recorded", len(adds) == len(good), "%d of the %d solutions are recorded" % (len(adds), len(good))))
        for e, a in zip(good, adds):
            sv, x = [a[3].get(q, v) for q, v in zip(("sweepvalue", "op"), a[2])]
            out.append(("dc", key + ": value recorded with a solution", same(sv, value(e[1])), "the solution for %s is recorded at %s" % (show(value(e[1])), show(sv))))
            out.append(("dc", key + ": solution recorded", x is e[2], "at point %d the solution recorded is %r" % (e[1], x)))
        if skip is None: out.append(("dc", key + ": results returned", len(made) == 1 and r is made[0][1], "returns %r" % (r,)))
        out.append(("dc", key + ": source restored", snap(l) == before, "afterwards the source is at %s" % show(l[at].attrs.get("dc_value"))))
        return out
    g = {} if skip is None else {prog.pkg + ".options.dc_sweep_skip_allowed": skip}
    collect(c, "dc", what, go(prog, fn, 40, summaries={"dc_solution": solution, "results.dc_solution": solution}, meth_hook=hook, globals=g), fi)

def broken(c, prog):
    """an error while solving a point leaves the source as it was"""
    fi = prog.func("dc_analysis.dc_analysis")
    for src in ("V1", "I1"):
        for at in (0, 2):
            def fn(ip):
                ip.log = []
                l = elements(prog, ip, "LIN")
                circ = Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list(list(l), N)}, opaque=True)
                before = snap(l)
                def op(ip, a, kw, n):
                    ip.log.append(("op",))
                    if len(ip.log) > at: raise RaiseSig("FloatingPointError", "a point that cannot be solved")
                    return Obj(None, "op", {}, opaque=True)
                ip.summaries["dc_analysis.op_analysis"] = op
                try: ip.call_function(fi, [circ], {"start": A, "stop": A + D * num(3), "step": D, "source": src, "sweep_type": "LIN", "outfile": "f"})
                except RaiseSig: pass
                return [("dc", "DC sweep that ends in an error: source restored", snap(l) == before, "afterwards the sources have changed")]
            collect(c, "dc", "DC sweep of %s with an error at point %d" % (src, at), go(prog, fn, summaries={"dc_solution": solution, "results.dc_solution": solution}, meth_hook=hook), fi)

def rounding(c, prog):
    """the number of points does not hang on the last bits of (stop - start)/step"""
    fi = prog.func("dc_analysis.dc_analysis")
    eps = Fraction(1, 10 ** 9)
    for kind, ends in (("LIN", lambda k, e: (num(2), num(2) + num(k - 1 + e), T.ONE)), ("LOG", lambda k, e: (T.exp(A), T.exp(A + Q * num(k - 1 + e)), T.exp(Q)))):
        for k in (4, 12):
            for e in (eps, -eps):
                lo, hi, st = ends(k, e)
                def fn(ip):
                    ip.log = []
                    l = elements(prog, ip, kind)
                    circ = Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list(list(l), N)}, opaque=True)
                    def op(ip, a, kw, n):
                        ip.log.append(("op",))
                        return Obj(None, "op", {}, opaque=True)
                    ip.summaries["dc_analysis.op_analysis"] = op
                    ip.call_function(fi, [circ], {"start": lo, "stop": hi, "step": st, "source": "V1", "sweep_type": kind, "outfile": "f"})
                    n = sum(1 for q in ip.log if q[0] == "op")
                    return [("count", "DC sweep, %s: number of points and round-off" % kind, n == k, "%d points instead of %d when the ratio of range and step is off by %g" % (n, k, float(e)))]
                collect(c, "count", "DC sweep, %s, %d points and round-off" % (kind, k), go(prog, fn, summaries={"dc_solution": solution, "results.dc_solution": solution}, meth_hook=hook), fi)

# ---------------------------------------------------------------------------------- ac sweep
def ac(c, prog, name, kind, k, start, stop, value, nonlin, fails=False, sol_kw=True):
    fi = prog.func("ac.ac_analysis")
    what = "AC sweep, %s, %d point%s%s%s" % (name, k, "s" if k > 1 else "", ", nonlinear" if nonlin else "", ", points may fail" if fails else "")
    solve = prog.func("dc_analysis.dc_solve")
    M_, A_, J_, N_, GM = [Mat((1, 1), [sym(q)]) for q in ("M", "AC", "J", "Nac", "GMIN")]
    TWOPI = num(2) * sym("pi")
    def fn(ip):
        ip.log = []
        circ = Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list([], N)}, opaque=True)
        def dcs(ip, a, kw, n):
            d = dict(zip(solve.params(), a)); d.update(kw)
            i = sum(1 for e in ip.log if e[0] == "solve")
            ok = ip.ask(("solve", i)) if fails else True
            ip.log.append(("solve", i, ok, d))
            return (Mat((1, 1), [sym("X%d" % i)]), Mat((1, 1), [sym("E%d" % i)]), True, num(1)) if ok else (None, None, False, num(1))
        ip.summaries["dc_analysis.dc_solve"] = dcs
        kw = {"circ": circ, "start": start, "points": num(k), "stop": stop, "mna": M_, "AC": A_, "Nac": N_, "outfile": "f", "verbose": num(0)}
        if kind is not None: kw["sweep_type"] = kind
        if nonlin: kw["J"] = J_
        r = ip.call_function(fi, [], kw)
        sv = [e for e in ip.log if e[0] == "solve"]
        adds = [e for e in ip.log if e[0] == "add"]
        made = [e for e in ip.log if e[0] == "made"]
        key = "AC sweep, %s" % name
        good = [e for e in sv if e[2]]
        wanted = next((e[1] + 1 for e in sv if not e[2]), k)
        out = [("count", key + ": number of points", len(sv) == wanted or fails and len(sv) <= k, "%d points are solved instead of %d" % (len(sv), wanted))]
        for e in sv[:k]:
            f = value(e[1])
            m = mat_of(e[3].get("mna"))
            w = M_.vals[0] + T.J * TWOPI * f * A_.vals[0] + (J_.vals[0] if nonlin else T.ZERO)
            got = m.vals[0] if m is not None and len(m.vals) == 1 else None
            pos = "first point" if e[1] == 0 else "last point" if e[1] == k - 1 else "spacing"
            out.append(("ends" if pos != "spacing" else "even", "%s: %s" % (key, pos), got is not None and T.equal(got, w), "point %d is solved with %s, not %s" % (e[1], show(got), show(w))))
            b = mat_of(e[3].get("Ndc"))
            nt = e[3].get("Ntran")
            out.append(("ac", key + ": right-hand side", b is not None and same(b, N_.vals[0]) and (nt is None or isinstance(nt, Poly) and nt.is_zero()), "solves with %r + %r" % (e[3].get("Ndc"), nt)))
        out.append(("ac", key + ": points recorded", len(adds) == len(good), "%d of the %d solutions are recorded" % (len(adds), len(good))))
        for e, a in zip(good, adds):
            fr, x = [a[3].get(q, v) for q, v in zip(("frequency", "x"), a[2])]
            out.append(("ac", key + ": frequency recorded with a solution", same(fr, value(e[1])), "the solution for %s is recorded at %s" % (show(value(e[1])), show(fr))))
            out.append(("ac", key + ": solution recorded", same(x, sym("X%d" % e[1])), "at point %d the solution recorded is %r" % (e[1], x)))
        if not fails: out.append(("ac", key + ": results returned", len(made) == 1 and r is made[0][1], "returns %r" % (r,)))
        return out
    s = {"ac_solution": solution, "results.ac_solution": solution, "circuit.Circuit.is_nonlinear": lambda ip, a, kw, n: bool(nonlin), "circuit.Circuit.get_nodes_number": lambda ip, a, kw, n: num(2),
         "dc_analysis.build_gmin_matrix": lambda ip, a, kw, n: GM, "Circuit": lambda ip, a, kw, n: Obj(prog.cls("circuit.Circuit"), "dummy", {"__items__": ip.new_list([], N)}, opaque=True)}
    collect(c, "ac", what, go(prog, fn, 24, summaries=s, meth_hook=hook), fi)

def run(c, prog):
    c.rule("count", "a grid has exactly the requested number of points", 20)
    c.rule("ends", "the first point is the start value, the last the stop value", 20)
    c.rule("even", "consecutive points have a constant difference (linear) or ratio (logarithmic)", 20)
    c.rule("index", "indexing the grid gives the points iterating gives", 10)
    c.rule("dc", "a DC sweep records, for each point, the operating point computed with the source at that value, changes nothing else and puts the source back", 20)
    c.rule("ac", "an AC sweep records, for each frequency, the solution of the system at that frequency", 20)
    for name, cls, ends, point in grids():
        for k in COUNTS: c.guard(name, grid, c, prog, name, cls, ends, point, k, k % 2)
    c.guard("one", grid, c, prog, "linear", "utilities.lin_axis_iterator", lambda k: (A, A), lambda i: A, 1, False)
    lin = ("LIN", lambda k: (A, A + D * num(k - 1)), lambda i: A + D * num(i))
    fall = ("LIN", lambda k: (A, A - D * num(k - 1)), lambda i: A - D * num(i))
    log = ("LOG", lambda k: (T.exp(A), T.exp(A + Q * num(k - 1))), lambda i: T.exp(A + Q * num(i)))
    full = {"linear": lin, "linear, falling": fall, "logarithmic": log}
    for name, (kind, ends, val) in full.items():
        for src in ("V1", "I1", "Vx", "Ix"):
            for k in ((3, 6) if src in ("V1", "Ix") else (4,)):
                c.guard(name, sweep, c, prog, name, src, kind, k, *ends(k), val)
        c.guard(name, sweep, c, prog, name, "V1", kind, 5, *ends(5), val, None, "v1")
        for skip in (True, False): c.guard(name, sweep, c, prog, name, "V1", kind, 4, *ends(4), val, skip)
    c.guard("dc", sweep, c, prog, "linear", "V1", "linear", 4, *lin[1](4), lin[2])
    c.guard("dc", sweep, c, prog, "linear", "V1", "LIN", 1, A, A, lin[2])
    for k in (3, 5):
        c.guard("dc", sweep, c, prog, "linear, by step", "V1", "LIN", k, *lin[1](k), lin[2], None, None, D)
        c.guard("dc", sweep, c, prog, "linear, falling, by step", "I1", "LIN", k, *fall[1](k), fall[2], None, None, -D)
        c.guard("dc", sweep, c, prog, "logarithmic, by step", "V1", "LOG", k, *log[1](k), log[2], None, None, T.exp(Q))
    c.guard("dc", rounding, c, prog)
    c.guard("dc", broken, c, prog)
    plin = ("LIN", lambda k: (T.exp(A), T.exp(A) + D * num(k - 1)), lambda i: T.exp(A) + D * num(i))
    for name, (kind, ends, val) in (("linear", plin), ("logarithmic", log), ("default", (None,) + log[1:]), ("linear", ("lin",) + plin[1:])):
        for k in (2, 3, 6):
            for nonlin in (False, True): c.guard(name, ac, c, prog, name, kind, k, *ends(k), val, nonlin)
        c.guard(name, ac, c, prog, name, kind, 4, *ends(4), val, False, True)
    c.guard("ac", ac, c, prog, "linear", "LIN", 1, T.exp(A), T.exp(A), lambda i: T.exp(A), False)
