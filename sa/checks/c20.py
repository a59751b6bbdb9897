"""C20: the built-in waveforms compute the documented functions of time, region by region."""
import ast, itertools
from fractions import Fraction as F
from .. import terms as T
from ..interp import *
from ..terms import sym, atom, num, Poly
from ..parsing import go, same, show, member

BIG = F(10) ** 40
EPS = F(1, 10 ** 30)
PI = F(355, 113)

class NoValue(Exception): pass

def floor(x): return x.numerator // x.denominator

def ev(p, val):
    """the sign-deciding value of a linear expression in the region"""
    if isinstance(p, (int, F)): return F(p)
    if not isinstance(p, Poly): raise NoValue(p)
    s = F(0)
    for m, c in p.t.items():
        v = F(c)
        for a, e in m:
            x = ev_atom(a, val)
            if e.denominator != 1: raise NoValue(p)
            if x == 0 and e < 0: raise NoValue(p)
            v *= x ** int(e)
        s += v
    return s

def ev_atom(a, val):
    if a[0] == "sym" and a[1] in val: return val[a[1]]
    if "nonfinite" in repr(a) or a == ("sym", "inf"): return BIG
    if a[0] == "sym" and a[1] == "pi": return PI
    if a[0] == "num": return F(a[1])
    if a[0] == "call":
        f = str(a[1]).split(".")[-1]
        xs = [ev(x, val) for x in a[2:]]
        if f == "int": return F(floor(xs[0])) if xs[0] >= 0 else -F(floor(-xs[0]))
        if f == "floor": return F(floor(xs[0]))
        if f == "ceil": return -F(floor(-xs[0]))
        if f == "trunc": return F(floor(xs[0])) if xs[0] >= 0 else -F(floor(-xs[0]))
        if f == "floordiv" and xs[1]: return F(floor(xs[0] / xs[1]))
        if f in ("mod", "fmod", "remainder") and xs[1]: return xs[0] - xs[1] * floor(xs[0] / xs[1])
        if f in ("max", "amax", "maximum"): return max(xs)
        if f in ("min", "amin", "minimum"): return min(xs)
    raise NoValue(a)

def settle(p, val):
    """whole-number parts, maxima and minima are constants (or one of the operands) within a region"""
    if not isinstance(p, Poly): return p
    def f(a):
        if a[0] == "call" and isinstance(a[1], str):
            n = a[1].split(".")[-1]
            try:
                if n in ("int", "floor", "ceil", "trunc", "floordiv"): return num(ev_atom(a, val))
                if n in ("mod", "fmod", "remainder"):
                    x, y = settle(a[2], val), settle(a[3], val)
                    return x - y * num(floor(ev(x, val) / ev(y, val)))
                if n in ("max", "min", "maximum", "minimum", "amax", "amin"):
                    xs = [settle(x, val) for x in a[2:]]
                    return (max if "max" in n else min)(xs, key=lambda x: ev(x, val))
            except NoValue: return None
        return None
    return T.subst(p, f)

t = sym("t")
pi = sym("pi")
s = {k: sym(k) for k in "v1 v2 td tr pw tf per vo va freq theta phi td1 tau1 td2 tau2 fc mdi fs sa fm oc rt x0 x1 x2".split()}
two = num(2)

# for each function: regions in order; (value before/at/after, breakpoint that ends it or None)
def spec_pulse():
    v1, v2, td, tr, pw, tf = (s[k] for k in "v1 v2 td tr pw tf".split())
    def rise(u): return v1 + (v2 - v1) / tr * (u - td)
    def fall(u): return v2 + (v1 - v2) / tf * (u - td - tr - pw)
    return [(lambda u: v1, td), (rise, td + tr), (lambda u: v2, td + tr + pw), (fall, td + tr + pw + tf), (lambda u: v1, None)]
def spec_sin():
    vo, va, fr, td, th, ph = (s[k] for k in "vo va freq td theta phi".split())
    a = pi * ph / num(180)
    return [(lambda u: vo + va * T.sin(a), td), (lambda u: vo + va * T.exp(-th * (u - td)) * T.sin(two * pi * fr * (u - td) + a), None)]
def spec_exp():
    v1, v2, td1, tau1, td2, tau2 = (s[k] for k in "v1 v2 td1 tau1 td2 tau2".split())
    def a(u): return v1 + (v2 - v1) * (num(1) - T.exp(-(u - td1) / tau1))
    return [(lambda u: v1, td1), (a, td2), (lambda u: a(u) + (v1 - v2) * (num(1) - T.exp(-(u - td2) / tau2)), None)]
def spec_sffm():
    vo, va, fc, md, fs, td = (s[k] for k in "vo va fc mdi fs td".split())
    return [(lambda u: vo, td), (lambda u: vo + va * T.sin(two * pi * fc * (u - td) + md * T.sin(two * pi * fs * (u - td))), None)]
def spec_am():
    sa, oc, fm, fc, td = (s[k] for k in "sa oc fm fc td".split())
    return [(lambda u: num(0), td), (lambda u: sa * (oc + T.sin(two * pi * fm * (u - td))) * T.sin(two * pi * fc * (u - td)), None)]

SPEC = {
 "pulse": (spec_pulse, ["v1", "v2", "td", "tr", "pw", "tf", "per"]),
 "sin": (spec_sin, ["vo", "va", "freq", "td", "theta", "phi"]),
 "exp": (spec_exp, ["v1", "v2", "td1", "tau1", "td2", "tau2"]),
 "sffm": (spec_sffm, ["vo", "va", "fc", "mdi", "fs", "td"]),
 "am": (spec_am, ["sa", "fc", "fm", "oc", "td"]),
}
# orderings of the breakpoints: values that only decide which region an instant lies in
SETTINGS = {
 "pulse": [("generic", dict(td=1, tr=2, pw=3, tf=4, per=20)), ("no delay", dict(td=0, tr=2, pw=3, tf=4, per=20)), ("negative delay", dict(td=-1, tr=2, pw=3, tf=4, per=20)),
           ("instantaneous rise", dict(td=1, tr=0, pw=3, tf=4, per=20)), ("instantaneous fall", dict(td=1, tr=2, pw=3, tf=0, per=20)), ("no width", dict(td=1, tr=2, pw=0, tf=4, per=20)),
           ("full period", dict(td=1, tr=2, pw=3, tf=4, per=10)), ("short ramps", dict(td=F(1, 3), tr=F(1, 9), pw=5, tf=F(1, 7), per=11))],
 "sin": [("generic", dict(td=1)), ("no delay", dict(td=0))],
 "exp": [("generic", dict(td1=1, td2=3)), ("no delay", dict(td1=0, td2=3)), ("no fall", dict(td1=1, td2="inf")), ("fall at the rise", dict(td1=1, td2=1))],
 "sffm": [("generic", dict(td=1)), ("no delay", dict(td=0))],
 "am": [("generic", dict(td=1)), ("no delay", dict(td=0))],
}
DEFAULTS = {"sin": {"td": 0, "theta": 0, "phi": 0}, "pwl": {"repeat": False, "repeat_time": 0, "td": 0}}
SPECDEF = {"sin": {"td": 0, "theta": 0, "phi": 0}, "exp": {"td1": 0, "td2": "inf", "tau2": "inf"}, "pulse": {"td": 0}, "sffm": {"td": 0}, "am": {"td": 0}}

def run(c, prog):
    c.rule("waveform", "in every region of the time axis, and at its breakpoints, the value returned is the documented expression", 120)
    c.rule("defaults", "omitted optional parameters take the documented defaults", 12)
    c.rule("pure", "evaluating a waveform does not change it", 6)
    c.rule("source", "a time-dependent source has the value of its time function at that instant", 4)
    for f in sorted(SPEC): c.guard(f, waveform, c, prog, f)
    c.guard("pwl", pwl, c, prog)
    c.guard("defaults", defaults, c, prog)
    for k in ("V", "I"): c.guard(k + "Source", source, c, prog, k)

def decider(val):
    def decide(key):
        if key[0] in ("eq0", "lt0", "gt0") and isinstance(key[1], Poly):
            try: v = ev(key[1], val)
            except NoValue: return None
            return {"eq0": v == 0, "lt0": v < 0, "gt0": v > 0}[key[0]]
        if key[0] == "isnone": return False
        return None
    return decide

def evaluate(prog, cls, kw, time, val, summaries=None):
    ci = prog.cls("time_functions." + cls)
    n = ast.Pass(lineno=0)
    def fn(ip):
        o = ip.instantiate(ci, [], dict(kw), n)
        before = {k: tokey(v) for k, v in o.attrs.items()}
        r = ip.call(o, [time], {}, n)
        ip.changed = sorted(k for k in set(before) | set(o.attrs) if k not in o.attrs or k not in before or tokey(o.attrs[k]) != before[k])
        return r
    s = dict(summaries or {})
    return go(prog, fn, 16, summaries=s, options={"decide": decider(val), "split_max": True})

def points(bps, per=None):
    """instants: inside every region, at every breakpoint, just before and just after"""
    xs = sorted({b for b in bps if b < BIG})
    out = []
    lo = xs[0] if xs else F(0)
    if lo > 0: out.append(("before %d" % 0, lo / 2))
    for i, b in enumerate(xs):
        if b - EPS >= 0: out.append(("just before", b - EPS))
        out.append(("at", b))
        out.append(("just after", b + EPS))
        nx = xs[i + 1] if i + 1 < len(xs) else (b + 5 if per is None else (b + per) / 2)
        out.append(("after", (b + nx) / 2))
        out.append(("later", b + (nx - b) * F(7, 8)))
    if all(x != 0 for _, x in out): out.insert(0, ("at the start", F(0)))
    return out

def waveform(c, prog, name):
    spec, params = SPEC[name]
    regions = spec()
    ci = prog.cls("time_functions." + name)
    call = prog.find_method(ci, "__call__")
    where = call.where
    for label, setting in SETTINGS[name]:
        val = {k: (BIG if v == "inf" else F(v)) for k, v in setting.items()}
        eff = dict(val)
        if name == "pulse": eff["td"] = max(val["td"], F(0))
        kw = {}
        for p in params:
            kw[p] = s[p]
            if p in setting and F(0 if setting[p] == "inf" else setting[p]) == 0 and setting[p] != "inf": kw[p] = num(0)
            if setting.get(p) == "inf": kw[p] = sym("inf")
        zero = {k for k, v in kw.items() if isinstance(v, Poly) and v.is_zero()}
        neg = name == "pulse" and val["td"] < 0
        def fix(p):
            """the documented expression for this setting"""
            return T.subst(p, lambda a: num(0) if a[0] == "sym" and (a[1] in zero or (neg and a[1] == "td")) else None)
        periods = (0, 1, 3) if name == "pulse" else (0,)
        bps = [ev(b, eff) for f, b in regions if b is not None]
        for k in periods:
            off = val.get("per", F(0)) * k
            for what, x in points([b for b in bps if not (k and b >= val["per"])], val.get("per")):
                if name == "pulse" and x >= val["per"]: continue
                if name == "pulse" and k and x < EPS: pass
                # the regions this instant belongs to (two at a breakpoint)
                cand = []
                lo = None
                for f, b in regions:
                    hi = None if b is None else ev(b, eff)
                    if (lo is None or x >= lo) and (hi is None or x <= hi):
                        if not (lo is not None and hi is not None and lo == hi): cand.append((f, lo, hi))
                    lo = hi if hi is not None else lo
                at = [b for f, b in regions if b is not None and ev(b, eff) == x and ev(b, eff) < BIG]
                v2 = dict(val); v2["t"] = x + off
                shift = s["per"] * num(k) if name == "pulse" else num(0)
                time = (fix(at[0]) if at else t)
                time_arg = time + shift if at else (num(0) if x + off == 0 else t)
                u = time if at else (time_arg - shift)
                runs = evaluate(prog, name, kw, time_arg, v2)
                cons = "%s, %s: %s %s%s" % (name, label, what, region_name(regions, eff, x), " (period %d)" % (k + 1) if k else "")
                for r in runs:
                    c.analysed(*r.ip.inlined)
                    if r.outcome == "raise": c.fail("waveform", cons, "raises %s" % r.error, where); continue
                    if r.outcome != "return": c.undecided("waveform", cons, r.error); continue
                    if not isinstance(r.value, (Poly, int, float)): c.undecided("waveform", cons, "not a number: %s" % show(r.value)); continue
                    try: got = settle(P(r.value), v2)
                    except (NoValue, ZeroDivisionError) as e: c.undecided("waveform", cons, str(e)); continue
                    want = []
                    for f, lo, hi in cand:
                        try: want.append(fix(f(u)))
                        except ZeroDivisionError: pass
                    ok = any(T.equal(got, w) for w in want)
                    c.check(ok, "waveform", cons, "the value is %s, documented is %s" % (show(got)[:160], " or ".join(show(w)[:160] for w in want)), where)
                    c.check(not r.ip.changed, "pure", name + ".__call__", "changes %s" % ", ".join(r.ip.changed), where)
    # no time given: the initial value
    runs = evaluate(prog, name, {p: s[p] for p in params}, None, {k: F(v) if v != "inf" else BIG for k, v in SETTINGS[name][0][1].items()})
    for r in runs:
        if r.outcome == "raise": c.fail("waveform", name + ": without an instant", "raises %s" % r.error, where); continue
        if r.outcome != "return": c.undecided("waveform", name + ": without an instant", r.error); continue
        v0 = {k: F(v) if v != "inf" else BIG for k, v in SETTINGS[name][0][1].items()}
        c.check(T.equal(settle(P(r.value), v0), regions[0][0](num(0))), "waveform", name + ": without an instant", "the value is %s" % show(r.value), where)

def region_name(regions, val, x):
    i = 0
    for f, b in regions:
        if b is None or ev(b, val) >= x: break
        i += 1
    return "breakpoint %d" % (i + 1)

def pwl(c, prog):
    ci = prog.cls("time_functions.pwl")
    call = prog.find_method(ci, "__call__")
    where = call.where
    base = dict(x0=F(1), x1=F(2), x2=F(5))
    xs = (s["x0"], s["x1"], s["x2"]); ys = (sym("y0"), sym("y1"), sym("y2"))
    made = []
    def spline(ip, args, kw, n):
        names = dict(zip(("x", "y", "w", "bbox", "k"), args)); names.update(kw)
        made.append(names)
        return Obj(None, "interpolation", {}, opaque=True)
    summ = {"scipy.interpolate.InterpolatedUnivariateSpline": spline, "scipy.interpolate.UnivariateSpline": spline}
    T0 = base["x2"]
    cases = []
    for td in (F(0), F(3)):
        for rep, rt in ((False, None), (True, F(0)), (True, F(2)), (True, F(5))):
            for x in (F(1), F(1) + EPS, F(2), F(3), F(5) - EPS, F(5), F(5) + EPS, F(6), F(8) - EPS, F(8), F(8) + EPS, F(9), F(11), F(13), F(101, 5)):
                cases.append((td, rep, rt, x))
    for td, rep, rt, x in cases:
        val = dict(base); val["td"] = td; val["t"] = x + td
        if rep: val["rt"] = rt
        kw = {"x": xs, "y": ys, "repeat": rep, "td": s["td"] if td else num(0)}
        if rep: kw["repeat_time"] = num(0) if rt == 0 else (s["x2"] if rt == T0 else s["rt"])
        del made[:]
        what = "pwl%s%s: t-td=%s" % (", delayed" if td else "", ", repeated from %s" % {F(0): "the start", F(2): "the middle", F(5): "the end"}[rt] if rep else "",
                                     "x" if x not in (1, 2, 5) else "breakpoint")
        # documented: inside the table the interpolation; after it, when repeated, the repetition restarts at repeat_time
        tr = t - (s["td"] if td else num(0))
        if not rep:
            if x > T0: continue
            want = tr
        elif x <= T0: want = tr
        else:
            r0 = F(0) if rt == T0 else rt
            k = floor((x - T0) / (T0 - r0))
            rts = num(0) if rt in (F(0), T0) else s["rt"]
            want = tr - s["x2"] - (s["x2"] - rts) * num(k) + rts
        for r in evaluate(prog, "pwl", kw, t, val, summ):
            c.analysed(*r.ip.inlined)
            if r.outcome == "raise": c.fail("waveform", what, "raises %s" % r.error, where); continue
            if r.outcome != "return": c.undecided("waveform", what, r.error); continue
            a = r.value.atom() if isinstance(r.value, Poly) else None
            if not made or not a or a[0] != "call" or "interpolation" not in repr(a[2]): c.undecided("waveform", what, "value is %s" % show(r.value)[:100]); continue
            m = made[0]
            k = m.get("k")
            c.check(same_seq(m.get("x"), xs) and same_seq(m.get("y"), ys) and isinstance(k, Poly) and k.const() == 1, "waveform", "pwl: linear interpolation of the given points",
                    "interpolation of x=%s y=%s of order %s" % (show(m.get("x")), show(m.get("y")), show(k)), where)
            try: got = settle(a[3], val) if isinstance(a[3], Poly) else P(a[3])
            except NoValue as e: c.undecided("waveform", what, e); continue
            ok = T.equal(got, want)
            if not ok and rep and x > T0:
                # at the end of a repetition the last point may be used instead of the first
                ok = ev(got, val) == T0 and ev(want, val) == r0
            c.check(ok, "waveform", what, "the table is read at %s instead of %s" % (show(got), show(want)), where)
            c.check(not r.ip.changed, "pure", "pwl.__call__", "changes %s" % ", ".join(r.ip.changed), where)
    # before the delay: the value at the beginning of the signal
    val = dict(base); val["td"] = F(3)
    for x in (F(0), F(1), F(3) - EPS):
        val["t"] = x
        del made[:]
        for r in evaluate(prog, "pwl", {"x": xs, "y": ys, "td": s["td"]}, t, val, summ):
            if r.outcome != "return": c.undecided("waveform", "pwl: before its delay", r.error) if r.outcome != "raise" else c.fail("waveform", "pwl: before its delay", "raises %s" % r.error, where); continue
            a = r.value.atom() if isinstance(r.value, Poly) else None
            if not a or a[0] != "call" or "interpolation" not in repr(a[2]): c.undecided("waveform", "pwl: before its delay", show(r.value)); continue
            c.check(P(a[3]).is_zero() or T.equal(P(a[3]), s["x0"]), "waveform", "pwl: before its delay", "the table is read at %s instead of its beginning" % show(a[3]), where)

def same_seq(v, xs):
    its = v.items if isinstance(v, PList) else v
    return isinstance(its, (tuple, list)) and len(its) == len(xs) and all(same(a, b) for a, b in zip(its, xs))

def is_default(v, d):
    if d == "inf": return "inf" in show(v) or "nonfinite" in show(v)
    if isinstance(d, bool): return v is d
    return isinstance(v, (int, float, Poly)) and not isinstance(v, bool) and same(v, P(d))

def defaults(c, prog):
    for f, ds in sorted(DEFAULTS.items()):
        ci = prog.cls("time_functions." + f)
        init = prog.find_method(ci, "__init__")
        a = init.node.args
        names = [x.arg for x in a.args]
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, d in ds.items():
            if p not in dflt: c.fail("defaults", "%s(%s)" % (f, p), "has no default", init.where); continue
            ip = Interp(prog, (), opts={})
            try: v = ip.ev(dflt[p], Env({}, init.module))
            except Exception as e: c.undecided("defaults", "%s(%s)" % (f, p), e); continue
            c.check(is_default(v, d), "defaults", "%s(%s)" % (f, p), "defaults to %s instead of %s" % (show(v), d), init.where)
    # of the netlist form
    m = prog.modules[prog.pkg + ".time_functions"]
    def fn(ip): return ip.from_res(prog.lookup(m, "time_fun_specs"), "time_functions.time_fun_specs")
    for r in go(prog, fn, 2):
        d = r.value
        if not isinstance(d, PDict): c.undecided("defaults", "netlist defaults", "the table cannot be read"); continue
        for f, ds in sorted(SPECDEF.items()):
            toks = d.items.get(f)
            toks = toks.items.get("tokens") if isinstance(toks, PDict) else None
            toks = toks.items if isinstance(toks, PList) else toks
            if toks is None: c.undecided("defaults", f, "no such entry"); continue
            seen = {}
            for x in toks:
                if isinstance(x, PDict): seen[x.items.get("dest")] = x.items
            for p, v in ds.items():
                if p not in seen: c.fail("defaults", "netlist %s: %s" % (f, p), "the field is not accepted", "ahkab/time_functions.py"); continue
                c.check(seen[p].get("needed") is False and is_default(seen[p].get("default"), v), "defaults", "netlist %s: %s" % (f, p),
                        "defaults to %s instead of %s" % (show(seen[p].get("default")), v), "ahkab/time_functions.py")
            for p, x in seen.items():
                if p not in ds: c.check(x.get("needed") is True, "defaults", "netlist %s: %s is required" % (f, p), "it may be left out", "ahkab/time_functions.py")

def source(c, prog, k):
    ci = prog.cls("components.sources.%sSource.%sSource" % (k, k))
    meth = prog.find_method(ci, k)
    n = ast.Pass(lineno=0)
    fun = Obj(None, "waveform", {}, opaque=True)
    for dc in (None, sym("DC")):
        for time in (sym("t"), None):
            def fn(ip):
                o = ip.instantiate(ci, ["x1", num(1), num(2)], {"dc_value": dc}, n)
                o.attrs["is_timedependent"] = True
                o.attrs["_time_function"] = fun
                return ip.call_function(meth, [time], {}, self_=o)
            for r in go(prog, fn, 8, options={"decide": lambda key: False if key[0] in ("eq0", "isnone") else None}):
                what = "%sSource %s DC value, %s" % (k, "with" if dc is not None else "without", "at an instant" if time is not None else "static analysis")
                if r.outcome != "return": c.undecided("source", what, r.error) if r.outcome != "raise" else c.fail("source", what, "raises %s" % r.error, meth.where); continue
                if time is None and dc is not None: ok = same(r.value, dc)
                else:
                    a = r.value.atom() if isinstance(r.value, Poly) else None
                    ok = bool(a) and a[0] == "call" and "waveform" in repr(a[2]) and (len(a) > 3 and (same(a[3], time) if time is not None else True))
                c.check(ok, "source", what, "the value is %s" % show(r.value), meth.where)
                c.analysed(*r.ip.inlined)
