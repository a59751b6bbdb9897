"""C21: integration formulas are exact for constant and linear signals."""
import ast
from fractions import Fraction
from .. import terms as T
from ..interp import *
from ..terms import num, sym, atom, Poly

N = ast.Pass(lineno=0)
h = sym("h")

def fact(k):
    r = 1
    for i in range(2, k + 1): r *= i
    return r

# ---------------------------------------------------------------------------------- small linear algebra
def solve_small(a, cols):
    """Gaussian elimination; a: rows, cols: right-hand sides (columns)"""
    n = len(a)
    a = [list(r) + [c[i] for c in cols] for i, r in enumerate(a)]
    for i in range(n):
        p = next((k for k in range(i, n) if not T.is_zero(a[k][i])), None)
        if p is None: raise Unsupported("singular matrix")
        a[i], a[p] = a[p], a[i]
        d = a[i][i]
        a[i] = [tidy(x / d) for x in a[i]]
        for k in range(n):
            if k != i and not T.is_zero(a[k][i]):
                f = a[k][i]
                a[k] = [tidy(x - f * y) for x, y in zip(a[k], a[i])]
    return [[a[i][n + j] for i in range(n)] for j in range(len(cols))]

def tidy(x): return T.ZERO if T.is_zero(x) else x

def inv(ip, args, kw, n):
    m = mat_of(args[0])
    if m is None or len(m.shape) != 2: raise Unsupported("inverse of %r" % (args[0],))
    k = m.shape[0]
    rows = [m.vals[i * k:(i + 1) * k] for i in range(k)]
    cols = solve_small(rows, [[T.ONE if i == j else T.ZERO for i in range(k)] for j in range(k)])
    return Mat((k, k), [cols[j][i] for i in range(k) for j in range(k)])

def lsolve(ip, args, kw, n):
    m, b = mat_of(args[0]), mat_of(args[1])
    if m is None or b is None: raise Unsupported("solve with %r" % (args,))
    k = m.shape[0]
    rows = [m.vals[i * k:(i + 1) * k] for i in range(k)]
    if len(b.shape) == 1: return Mat(b.shape, solve_small(rows, [list(b.vals)])[0])
    q = b.shape[1]
    cols = solve_small(rows, [[b.vals[i * q + j] for i in range(k)] for j in range(q)])
    return Mat(b.shape, [cols[j][i] for i in range(k) for j in range(q)])

def factorial(ip, args, kw, n):
    x = term(args[0]).const()
    if x is None: raise Unsupported("factorial of %r" % (args[0],))
    return num(fact(int(x)))

SUMM = {"numpy.linalg.inv": inv, "numpy.linalg.solve": lsolve, "math.factorial": factorial, "scipy.misc.factorial": factorial, "scipy.special.factorial": factorial}
for k in ("print_general_error", "print_warning", "print_info_line"): SUMM["printing." + k] = lambda ip, a, kw, n: None

def go(prog, fn, limit=24, summaries=None, **o):
    opts = {"notnone": lambda a: True, "smallmat": True, "modinit": True, "unroll": 60, "distinct": False, "inttype": True, "strict": True}
    opts.update(o)
    def make(script):
        return Interp(prog, script, opts=dict(opts), summaries=dict(SUMM, **(summaries or {})), budget=900000)
    return explore(make, fn, limit, True)

# ---------------------------------------------------------------------------------- signals
def poly_at(cs, t):
    r = T.ZERO
    for j, q in enumerate(cs): r = r + q * t ** j if j else r + q
    return r
def slope_at(cs, t):
    r = T.ZERO
    for j, q in enumerate(cs):
        if j: r = r + q * num(j) * (t ** (j - 1) if j > 1 else T.ONE)
    return r

FORMS = [("backward Euler", "implicit_euler", None, 1), ("trapezoidal rule", "trap", None, 2)] + [("Gear %d" % k, "gear", k, k) for k in range(1, 7)]

def spacings(k):
    """sizes of the past steps: symbols where the algebra allows it"""
    if k <= 3: return [("any past steps", [sym("H%d" % i) for i in range(1, k + 1)])]
    out = []
    for lab, f in (("equal past steps", lambda i: h), ("growing past steps", lambda i: h * num(Fraction(1, i + 1))), ("irregular past steps", lambda i: h * num(Fraction((7 * i) % 5 + 1, 3)))):
        out.append((lab, [f(i) for i in range(1, k + 1)]))
    return out

def formulas(c, prog, name, mod, order, p):
    fi = prog.func(mod + ".get_df")
    for lab, hs in spacings(p):
        for deg in sorted({0, 1, p}):
            for predict in (False, True):
                for tn in ((sym("tn"),) if p <= 3 else (T.ZERO,)):
                    one(c, prog, fi, name, mod, order, p, lab, hs, deg, predict, tn)
        error(c, prog, fi, name, mod, order, p, lab, hs)

def call_df(prog, ip, fi, mod, order, hist, predict, pw=3):
    if order is not None: ip.opts["globals"] = dict(ip.opts.get("globals") or {}, **{"%s.%s.order" % (prog.pkg, mod): num(order)})
    pv = ip.new_list([(t, x, dx) for t, x, dx in hist], N)
    v = ip.call_function(fi, [pv, h], {"predict": predict})
    l = list(v) if isinstance(v, tuple) else v.items if isinstance(v, PList) else None
    if l is None or len(l) != 5: raise Unsupported("get_df returns %r" % (v,))
    return l

def history(prog, hs, tn, css, n):
    """(time, values, derivatives) at the last n points, newest first"""
    out, t, off = [], tn, T.ZERO
    for k in range(n):
        out.append((t, Mat((len(css), 1), [poly_at(cs, off) for cs in css]), Mat((len(css), 1), [slope_at(cs, off) for cs in css])))
        if k < len(hs): t, off = t - hs[k], off - hs[k]
    return out

def one(c, prog, fi, name, mod, order, p, lab, hs, deg, predict, tn):
    what = "%s, %s, signal of degree %d%s" % (name, lab, deg, ", with prediction" if predict else "")
    css = [[sym("%s%d" % (q, j)) for j in range(deg + 1)] for q in "ab"]
    def fn(ip):
        v = call_df(prog, ip, fi, mod, order, history(prog, hs, tn, css, p + 1), predict)
        new, slope = [poly_at(cs, h) for cs in css], [slope_at(cs, h) for cs in css]
        c1, c0 = v[0], mat_of(v[1])
        if not isinstance(c1, Poly) or c0 is None: raise Unsupported("get_df gives %r, %r" % (v[0], v[1]))
        got = [c1 * x + k for x, k in zip(new, c0.vals)]
        out = [("exact", "%s: derivative of a signal of degree %d" % (name, deg), len(got) == 2 and all(T.equal(a, b) for a, b in zip(got, slope)), "C1 x(n+1) + C0 is %s, the derivative is %s" % (short(got[0]), T.show(slope[0])))]
        if predict:
            g = mat_of(v[3]) if v[3] is not None else None
            out.append(("prediction", "%s: prediction of a signal of degree %d" % (name, deg), g is not None and len(g.vals) == 2 and all(T.equal(a, b) for a, b in zip(g.vals, new)), "predicts %s, the signal is %s" % (short(g.vals[0]) if g is not None else v[3], T.show(new[0]))))
        return out
    collect(c, "exact", what, go(prog, fn), fi)

def short(p):
    s = T.show(p)
    return s if len(s) < 160 else s[:160] + "..."

def error(c, prog, fi, name, mod, order, p, lab, hs):
    """what the formulas make of the first signal they are not exact for"""
    what = "%s, %s, error coefficients" % (name, lab)
    css = [[T.ZERO] * (p + 1) + [T.ONE]]
    d = num(fact(p + 1))
    def fn(ip):
        v = call_df(prog, ip, fi, mod, order, history(prog, hs, T.ZERO, css, p + 1), True)
        new, slope = poly_at(css[0], h), slope_at(css[0], h)
        c1, c0, g = v[0], mat_of(v[1]), mat_of(v[3]) if v[3] is not None else None
        if not isinstance(c1, Poly) or c0 is None or g is None: raise Unsupported("get_df gives %r, %r, %r" % (v[0], v[1], v[3]))
        ex = (slope - c0.vals[0]) / c1 - new
        ep = g.vals[0] - new
        if not isinstance(v[2], Poly) or not isinstance(v[4], Poly): return [("error", "%s: error coefficients" % name, False, "they are %s and %s" % (v[2], v[4]))]
        x, q = v[2] * d, v[4] * d
        ok = T.equal(x, ex) and T.equal(q, ep) or T.equal(-x, ex) and T.equal(-q, ep)
        return [("error", "%s: error coefficients" % name, ok, "the solution is off by %s, the prediction by %s; the coefficients say %s and %s" % (short(ex), short(ep), short(x), short(q)))]
    collect(c, "error", what, go(prog, fn), fi)

def collect(c, rule, what, runs, fi):
    for r in runs:
        if r.outcome == "unsupported": c.undecided(rule, what, r.error); continue
        if r.outcome == "raise": c.fail(rule, "%s: ends in %s" % (what, r.error.name), "%s" % r.error, fi.where); continue
        c.analysed(*r.ip.inlined)
        for ru, t, ok, msg in r.value: c.check(ok, ru, t, "%s: %s" % (what, msg), fi.where)

def coefficients(c, prog):
    fi = prog.func("implicit_euler.get_df_coeff")
    a, b = sym("a"), sym("b")
    def fn(ip):
        v = ip.call_function(fi, [h], {})
        c0, c1 = v if isinstance(v, tuple) else v.items
        g = c0 * (a + b * h) + c1 * a
        return [("exact", "backward Euler: constant coefficients", T.equal(g, b), "c0 x(n+1) + c1 x(n) is %s for x = a + b t" % short(g))]
    collect(c, "exact", "constant coefficients", go(prog, fn), fi)

# ---------------------------------------------------------------------------------- steady state
def mat(tag, r, k=None): return Mat((r, k) if k else (r,), [sym("%s%d%s" % (tag, i, "_%d" % j if k else "")) for i in range(r) for j in range(k or 1)])
def mv(m, v):
    n = len(v)
    return [sum((m.vals[i * n + j] * v[j] for j in range(n)), T.ZERO) for i in range(len(m.vals) // n)]
def add_(a, b): return [x + y for x, y in zip(a, b)]
def nocirc(prog, ip): return Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list([], N)}, opaque=True)
CIRC = {"circuit.Circuit.get_nodes_number": lambda ip, a, k, n: num(3)}

def flat(v):
    m = mat_of(v) if not isinstance(v, Mat) else v
    return None if m is None else list(m.vals)
def same(a, b): return a is not None and len(a) == len(b) and all(T.equal(x, y) for x, y in zip(a, b))
def sh(v): return "[%s]" % ", ".join(short(x) for x in v) if v is not None else "?"

def shooting(c, prog):
    fs, fv = prog.func("shooting._build_static_MAass_and_MBass"), prog.func("shooting._get_variable_MAass_and_Tass")
    for n in (1, 2):
        M, D, x1, x0 = mat("M", n, n), mat("D", n, n), mat("x", n), mat("w", n)
        def fn(ip):
            out = []
            v = ip.call_function(fs, [M, D, h], {})
            ma, mb = [flat(q) for q in (v if isinstance(v, tuple) else v.items)]
            j, t = [flat(q) for q in ip.call_function(fv, [nocirc(prog, ip), x1, x0, M, D, h, num(n)], {})]
            # on a ramp: x0 = a, x1 = a + b h
            a, b = [sym("a%d" % i) for i in range(n)], [sym("b%d" % i) for i in range(n)]
            sub = {("sym", "x%d" % i): a[i] + b[i] * h for i in range(n)}
            sub.update({("sym", "w%d" % i): a[i] for i in range(n)})
            want = add_(mv(M, [a[i] + b[i] * h for i in range(n)]), mv(D, b))
            got = [T.subst(q, lambda z: sub.get(z)) for q in t]
            out.append(("steady", "shooting: equations on a ramp", same(got, want), "the residual of a ramp is %s, the equations give %s" % (sh(got), sh(want))))
            dj = [T.diff(t[i], ("sym", "x%d" % k)) for i in range(n) for k in range(n)]
            out.append(("steady", "shooting: matrix of the new point", same([p + q for p, q in zip(ma, j)], dj), "the matrix is %s, the residual's derivative %s" % (sh(ma), sh(dj))))
            dw = [T.diff(t[i], ("sym", "w%d" % k)) for i in range(n) for k in range(n)]
            out.append(("steady", "shooting: matrix of the previous point", same(mb, dw), "the matrix is %s, the residual's derivative %s" % (sh(mb), sh(dw))))
            return out
        collect(c, "steady", "shooting, %d unknowns" % n, go(prog, fn, summaries=CIRC), fs)

def closed(c, prog):
    """the updates of all points solve the linearized periodic system"""
    fn_, fx = prog.func("shooting._compute_dxN"), prog.func("shooting._compute_dx")
    for n, points in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 2)):
        mas = [mat("A%d_" % k, n, n) for k in range(points)]
        mb = mat("B", n, n)
        ts = [mat("T%d_" % k, n) for k in range(points)]
        if n == 2:
            # diagonal matrices and one general one keep the algebra small
            mas = [Mat((2, 2), [m.vals[0], T.ZERO, T.ZERO, m.vals[3]]) for m in mas]
        def fn(ip):
            L = lambda l: ip.new_list(list(l), N)
            last = ip.call_function(fn_, [L(mas), mb, L(ts), num(n), num(points)], {})
            prev, dx = last, []
            for k in range(points - 1):
                prev = ip.call_function(fx, [mas[k], mb, ts[k], prev], {})
                dx.append(flat(prev))
            dx.append(flat(last))
            out = []
            for k in range(points):
                r = add_(add_(mv(mas[k], dx[k]), mv(mb, dx[k - 1])), list(ts[k].vals))
                out.append(("steady", "shooting: updates", all(T.is_zero(q) for q in r), "with %d points the update of point %d leaves %s" % (points, k, sh(r))))
            return out
        collect(c, "steady", "shooting updates, %d unknowns, %d points" % (n, points), go(prog, fn, unroll=10), fn_)

def brute(c, prog):
    fi = prog.func("bfpss._build_CMAT")
    for n, points in ((1, 2), (1, 3), (2, 3), (1, 5), (2, 4)):
        M, D = mat("M", n, n), mat("D", n, n)
        for sparse in (False, True):
            tick = Obj(None, "tick", {}, opaque=True)
            def fn(ip):
                v = ip.call_function(fi, [M, D, h, num(points), tick], {"n_of_var": num(n), "sparse": sparse, "verbose": T.ZERO})
                v = mat_of(v) if not isinstance(v, Mat) else v
                w = n * points
                if v is None or tuple(v.shape) != (w, w): raise Unsupported("CMAT is %r" % (v,))
                out = []
                a, b = [sym("a%d" % i) for i in range(n)], [sym("b%d" % i) for i in range(n)]
                # any samples at the other points, a ramp through points k-1 and k
                for k in range(points):
                    x = [[sym("x%d_%d" % (q, i)) for i in range(n)] for q in range(points)]
                    if k: x[k - 1], x[k] = a, [a[i] + b[i] * h for i in range(n)]
                    got = [sum((v.vals[(k * n + i) * w + q * n + j] * x[q][j] for q in range(points) for j in range(n)), T.ZERO) for i in range(n)]
                    if k:
                        want = add_(mv(M, x[k]), mv(D, b))
                        out.append(("steady", "brute force: equations on a ramp", same(got, want), "%d points: the equations of point %d on a ramp give %s, should give %s" % (points, k, sh(got), sh(want))))
                    else:
                        want = [p - q for p, q in zip(x[0], x[-1])]
                        out.append(("steady", "brute force: periodicity", same(got, want) or same([-q for q in got], want), "%d points: the first equations are %s" % (points, sh(got))))
                return out
            def matrix(ip, args, kw, nd):
                sh_ = [int(term(q).const()) for q in (args[0] if isinstance(args[0], tuple) else args[0].items)]
                return Mat(tuple(sh_), [T.ZERO] * (sh_[0] * sh_[1]))
            keep = lambda ip, args, kw, nd: args[0]
            s = {"scipy.sparse.lil_matrix": matrix, "scipy.sparse.coo_matrix": keep, "scipy.sparse.csc_matrix": keep, "scipy.sparse.csr_matrix": keep,
                 "ticker.ticker.reset": lambda *a: None, "ticker.ticker.step": lambda *a: None, "*.reset": lambda *a: None, "*.display": lambda *a: None, "*.step": lambda *a: None, "*.hide": lambda *a: None}
            collect(c, "steady", "brute force, %d unknowns, %d points%s" % (n, points, ", sparse" if sparse else ""), go(prog, fn, summaries=s, strict=False), fi)

METHODS = [("IMPLICIT_EULER", "implicit_euler", 1), ("TRAP", "trap", 1), ("trap", "trap", 1), (None, "trap", 1)] + [("GEAR%d" % k, "gear", k) for k in range(1, 7)] + [("gear3", "gear", 3)]

def methods(c, prog, method, mod, order):
    """which formula a transient settles on, once it has enough points"""
    from . import c22
    fi = prog.func("transient.transient_analysis")
    n = order + 4
    for control in (False, True):
        lab = "%s%s" % (method or "default method", ", step control" if control else "")
        cfg = {"module": mod, "history": (order, order), "may_fail": False, "apost": False}
        make = c22.harness(prog, cfg, n)
        def fn(ip):
            return ip.call_function(fi, [], {"circ": c22.circuit(prog, ip), "tstart": c22.TSTART, "tstep": c22.TSTEP, "tstop": c22.TSTOP, "method": method, "x0": Mat((1, 1), [sym("X_")]), "mna": Mat((1, 1), [sym("M")]),
                "N": Mat((1, 1), [sym("Nv")]), "D": Mat((1, 1), [sym("D")]), "use_step_control": control, "outfile": "f", "verbose": num(0)})
        best = None
        for r in explore(make, fn, 60, True):
            d = [e for e in r.ip.log if e[0] == "df"]
            if best is None or len(d) > len(best[0]): best = (d, r)
            for k, e in enumerate(d):
                if e[2] == "implicit_euler": continue
                if e[2] != mod or mod == "gear" and not (isinstance(e[6], Poly) and e[6].const() == order):
                    c.fail("method", "%s: formula used" % (method or "default method"), "%s uses %s%s" % (lab, e[2], " order %s" % (T.show(e[6]) if isinstance(e[6], Poly) else e[6]) if e[2] == "gear" else ""), fi.where)
                elif len(e[3]) < order: c.fail("method", "%s: points" % (method or "default method"), "%s: the formula is used with %d past points" % (lab, len(e[3])), fi.where)
        if best is None or len(best[0]) < order + 2: c.undecided("method", lab, "too few points were followed: %s" % (best[1].error if best else None)); continue
        last = best[0][-1]
        c.check(last[2] == mod, "method", "%s: formula used in the end" % (method or "default method"), "%s still uses %s after %d points" % (lab, last[2], len(best[0])), fi.where)
        c.analysed(*best[1].ip.inlined)

def run(c, prog):
    c.rule("method", "each method name selects its formula, used as soon as enough points are known", 12)
    c.rule("exact", "C1 x(n+1) + C0 is the derivative at the new point, for every step and past steps, of constants, ramps and signals up to the formula's order", 15)
    c.rule("prediction", "the predicted value is the signal's value at the new point, for signals up to the predictor's order", 15)
    c.rule("error", "the error coefficients returned are those of the formula and of its predictor", 8)
    c.rule("steady", "the steady-state analyses discretize with the same formula: exact on ramps, closed periodically, solved by the updates", 20)
    for f in FORMS: c.guard(f[0], formulas, c, prog, *f)
    for m in METHODS: c.guard("method %s" % m[0], methods, c, prog, *m)
    c.guard("coefficients", coefficients, c, prog)
    c.guard("shooting", shooting, c, prog)
    c.guard("shooting updates", closed, c, prog)
    c.guard("brute force", brute, c, prog)
