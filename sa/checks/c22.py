"""C22: a transient simulation only records accepted, ordered time points."""
import ast
from fractions import Fraction
from .. import terms as T
from ..interp import *
from ..linear import Facts
from ..terms import num, sym, atom, Poly

N = ast.Pass(lineno=0)
TSTART, TSTOP, TSTEP, HMIN = sym("tstart"), sym("tstop"), sym("tstep"), sym("hmin")
THR = num(Fraction(9, 10))

class Stop(Exception): pass

def circuit(prog, ip): return Obj(prog.cls("circuit.Circuit"), "circ", {"__items__": ip.new_list([], N)}, opaque=True)
def nothing(ip, a, kw, n): return None

def bind(fi, args, kw):
    d = dict(zip(fi.params(), args)); d.update(kw)
    return d

class Log(list):
    """events with the number of branches taken so far"""
    def __init__(self): list.__init__(self); self.at = []
    def append(self, e): list.append(self, e); self.at.append((len(self.ip.trace), len(self.ip.decided)))

def steps(log, upto=None):
    out = []
    for e in log[:upto]:
        if e[0] == "df" and isinstance(e[4], Poly) and e[4].const() is None and not any(T.equal(e[4], q) for q in out): out.append(e[4])
    return out

def implied(ip, key):
    """a comparison already decided by the ones before it (with positive steps): its paths are not explored twice"""
    f = known(start_facts(ip.trace), steps(ip.log))
    p = key[1] if key[0] == "lt0" else -key[1]            # asked: p < 0
    if f.entails_lt(p): return True
    if f.entails_le(-p): return False
    return None

def known(f, hs):
    """facts, also multiplied by the (positive) latest steps"""
    g = Facts(f.cons)
    for h in hs: g.lt(-h)
    return g.times(hs[-2:])

def harness(prog, cfg, n_solves):
    solve_fi = prog.func("dc_analysis.dc_solve")
    def dc_solve(ip, args, kw, n):
        d = bind(solve_fi, args, kw)
        k = sum(1 for e in ip.log if e[0] == "solve")
        if k >= n_solves: raise RaiseSig("PathBound", "", "")
        ok = ip.ask(("solve", k)) if cfg.get("may_fail", True) else True
        ip.log.append(("solve", k, ok, d, len(ip.trace)))
        return (Mat((1, 1), [sym("X%d" % k)]), Mat((1, 1), [sym("E%d" % k)]), True, num(1)) if ok else (None, None, False, num(1))
    def df(mod):
        fi = prog.func(mod + ".get_df")
        def get_df(ip, args, kw, n):
            d = bind(fi, args, kw)
            k = sum(1 for e in ip.log if e[0] == "df")
            pv = d[fi.params()[0]]
            l = list(pv) if isinstance(pv, tuple) else list(pv.items)
            pr = d.get("predict", True)
            pr = pr if isinstance(pr, bool) else ip.truth(pr)
            cap = cfg["history"]
            full = len(l) > cap[1] if mod == cfg["module"] else False
            ip.log.append(("df", k, mod, l, d[fi.params()[1]], pr, ip.opts["globals"].get(prog.pkg + ".gear.order")))
            if pr and mod == cfg["module"] and not full: raise RaiseSig("IndexError", "", "history too short for a prediction")
            p = Mat((1, 1), [sym("P%d" % k)]) if pr and full else None
            return (sym("XC%d" % k), Mat((1, 1), [sym("C%d" % k)]), sym("L%d" % k), p, sym("Q%d" % k) if p is not None else None)
        return get_df
    def tran_solution(ip, args, kw, n):
        o = Obj(None, "solution", {}, opaque=True)
        ip.log.append(("made", o, args, kw))
        return o
    def hook(ip, b, name, args, kw, n):
        if isinstance(b, Obj) and b.name == "solution" and name in ("add_line", "lock"):
            if name == "add_line": ip.log.append(("line", kw.get("time", args[0] if args else None), kw.get("x", args[1] if len(args) > 1 else None)))
            return None
        return NotImplemented
    s = {"dc_analysis.dc_solve": dc_solve, "dc_analysis.build_gmin_matrix": lambda ip, a, kw, n: sym("GMIN"), "tran_solution": tran_solution, "results.tran_solution": tran_solution,
         "circuit.Circuit.get_nodes_number": lambda ip, a, kw, n: num(2), "circuit.Circuit.get_locked_nodes": lambda ip, a, kw, n: sym("LOCKED"),
         "op_solution": lambda ip, a, kw, n: Obj(prog.cls("results.op_solution"), "op", {"x": kw.get("x")}, opaque=True), "results.op_solution.asarray": lambda ip, a, kw, n: a[0].attrs["x"],
         "ticker.ticker": lambda ip, a, kw, n: Obj(None, "tick", {}, opaque=True), "results.op_solution.print_short": nothing}
    for m in ("implicit_euler", "trap", "gear"): s[m + ".get_df"] = df(m)
    for k in ("print_general_error", "print_warning", "print_info_line"): s["printing." + k] = nothing
    for k in ("display", "step", "hide", "reset"): s["*." + k] = nothing
    pk = prog.pkg + ".options."
    g = {pk + "transient_no_step_control": False, pk + "transient_max_time_iter": num(cfg.get("max_iter", 0)), pk + "transient_prediction_as_x0": True, pk + "hmin": HMIN,
         pk + "transient_use_aposteriori_step_control": cfg.get("apost", True), pk + "transient_aposteriori_step_threshold": THR, pk + "transient_max_nr_iter": num(20),
         pk + "vea": sym("vea"), pk + "ver": sym("ver"), pk + "iea": sym("iea"), pk + "ier": sym("ier"), pk + "gmin": sym("gmin"), pk + "default_tran_method": "TRAP"}
    cache = {}
    def make(script):
        def decide(key):
            if key[0] == "eq0" and "abs" in repr(key[1]): return False       # the estimate is not exactly zero
            if key[0] not in ("lt0", "gt0"): return None
            at = (tuple(v for _, v in ip.trace), key)
            if at not in cache: cache[at] = implied(ip, key)
            d = cache[at]
            if d is not None: ip.decided.append((key, d))
            return d
        ip = Interp(prog, script, opts=dict(o, decide=decide), summaries=dict(s), budget=400000)
        ip.log, ip.decided = Log(), []
        ip.log.ip = ip
        return ip
    o = {"notnone": lambda a: True, "smallmat": True, "modinit": True, "unroll": n_solves + 6, "distinct": False, "inttype": True, "split_max": True, "meth_hook": hook, "globals": g, "modstore": True}
    return make

METHODS = {"IMPLICIT_EULER": ("implicit_euler", (0, 1)), "TRAP": ("trap", (1, 2)), "GEAR2": ("gear", (2, 2))}

def start_facts(trace):
    f = Facts.of(trace)
    f.lt(-TSTEP).lt(-HMIN).le(TSTART - TSTOP)
    for n in ("vea", "ver", "iea", "ier"): f.lt(-sym(n))
    return f

def cellv(x):
    m = mat_of(x) if not isinstance(x, Mat) else x
    return m.vals[0] if m is not None and len(m.vals) == 1 else x if isinstance(x, Poly) else None

def show(x): return T.show(x) if isinstance(x, Poly) else repr(x)
def veq(a, b):
    a, b = cellv(a), cellv(b)
    return isinstance(a, Poly) and isinstance(b, Poly) and T.equal(a, b)

def simulate(c, prog, cfg, n_solves, limit):
    seen = set()
    fi = prog.func("transient.transient_analysis")
    name = cfg["name"]
    make = harness(prog, cfg, n_solves)
    def fn(ip):
        kw = {"circ": circuit(prog, ip), "tstart": TSTART, "tstep": TSTEP, "tstop": TSTOP, "method": cfg["method"], "x0": Mat((1, 1), [sym("X_")]), "mna": Mat((1, 1), [sym("M")]),
              "N": Mat((1, 1), [sym("Nv")]), "D": Mat((1, 1), [sym("D")]), "use_step_control": cfg["control"], "outfile": "f", "verbose": num(0)}
        if cfg.get("points"):
            d = PDict({"points": num(cfg["points"])}); d.keyvals["points"] = "points"
            kw["return_req_dict"] = d
        return ip.call_function(fi, [], kw)
    runs = explore(make, fn, limit, True)
    n = 0
    for r in runs:
        n += judge(c, prog, cfg, name, r, fi, seen)
    c.check(n > 0, "coverage", "%s: paths that record points" % name, "no path records a point", fi.where)
    return len(runs)

def judge(c, prog, cfg, name, r, fi, seen):
    log = r.ip.log
    lab = "%s: %s" % (name, " ".join(("ok" if e[2] else "fails") if e[0] == "solve" else "rec" for e in log if e[0] in ("solve", "line")))
    if r.outcome == "unsupported":
        if "loop bound" not in str(r.error): c.undecided("record", lab, r.error)
        return 0
    c.analysed(*r.ip.inlined)
    f = fresh = None
    def look(i):
        """the comparisons made before event i (all of them at the end); nothing is judged twice"""
        nonlocal f, fresh
        a, b = log.at[i] if i < len(log) else (len(r.trace), len(r.ip.decided))
        key = (tuple(v for _, v in r.trace[:a]), i, len(log) <= i)
        fresh = key not in seen
        seen.add(key)
        if fresh: f = start_facts(list(r.trace[:a]) + r.ip.decided[:b])
    mode = "step control" if cfg["control"] else "fixed step"
    def rule(ru, ok, t, msg="", key=None):
        if not fresh: return
        try: good = ok() if callable(ok) else ok
        except Unsupported as x: c.undecided(ru, lab, x); return
        if good: c.ok(ru, "%s; event %d" % (lab, i))
        else: c.fail(ru, "%s: %s" % (key or name, t), "%s (%s)" % ((msg() if callable(msg) else msg) or t, lab), fi.where)
    tprev, t, x = TSTART, TSTART, sym("X_")
    hist = [(TSTART, sym("X_"), None)]
    recs, df, pending, last = 0, None, None, None
    xs = [sym("X_")]
    made = 0
    i = 0
    while i < len(log):
        e = log[i]
        look(i + 1)
        if e[0] == "made": made += 1
        elif e[0] == "df":
            df = e
            l = e[3]
            same = 0 < len(l) <= len(hist) and all(entry(a, b, k > 0) for k, (a, b) in enumerate(zip(l, hist)))
            rule("history", same, "history handed to the formula", lambda: "the formula is handed %s, the accepted points are %s" % ([tuple(show(cellv(q)) if q is not None else None for q in (a if isinstance(a, tuple) else a.items)) for a in l], [tuple(show(q) for q in h) for h in hist[:len(l)]]))
        elif e[0] == "solve":
            if df is None: rule("record", False, "solved without a formula"); return 0
            tm, h = e[3].get("time"), df[4]
            if not isinstance(tm, Poly) or not isinstance(h, Poly): rule("record", False, "the time solved for is %r" % (tm,)); return 0
            rule("order", lambda: f.entails_eq(tm - t - h), "time solved for", lambda: "solves for %s with a step %s after %s" % (show(tm), show(h), show(t)))
            rule("order", lambda: f.entails_le(tm - TSTOP), "the last step may pass the stop time", lambda: "solves for %s, past the stop time" % show(tm), mode)
            rule("order", lambda: f.entails_lt(t - TSTOP), "starts a step at the stop time or later", lambda: "a step starts from %s" % show(t))
            rule("order", lambda: f.entails_le(h - TSTEP), "longer than the maximum step", lambda: "takes a step %s" % show(h))
            if cfg["control"]: rule("order", lambda: f.entails_le(h - (TSTOP - tprev)), "passes the stop time by more than a step", lambda: "a step %s from %s" % (show(h), show(t)))
            rule("order", lambda: f.entails_lt(-h), "step not positive", lambda: "the step %s may not be positive" % show(h))
            rule("companion", lambda: veq(e[3].get("mna"), sym("M") + sym("XC%d" % df[1]) * sym("D")) and veq(e[3].get("Ntran"), sym("D") * sym("C%d" % df[1])) and veq(e[3].get("Ndc"), sym("Nv")), "system solved", lambda: "solves mna=%s, N=%s + %s" % (show(cellv(e[3].get("mna"))), show(cellv(e[3].get("Ndc"))), show(cellv(e[3].get("Ntran")))))
            if pending is not None:
                # the previous attempt was not recorded: same point, smaller step
                rule("retry", lambda: known(f, steps(log, i)).entails_lt(h - pending), "retry with a smaller step", lambda: "after an attempt with step %s tries %s" % (show(pending), show(h)))
                rule("retry", cfg["control"], "retry with a fixed step")
            nxt = next((q for q in log[i + 1:] if q[0] in ("line", "df", "solve")), None)
            rec = nxt is not None and nxt[0] == "line"
            if not e[2]:
                rule("record", not rec, "a point that did not converge is recorded")
                if rec: return recs
                pending = h
                last = False
            else:
                est = None
                if cfg["control"] and df[5] and df[2] == cfg["module"]:
                    k = df[1]
                    D_ = abs_of(r.ip, sym("L%d" % k) / (sym("Q%d" % k) - sym("L%d" % k)) * (sym("P%d" % k) - sym("X%d" % e[1])))
                    est = ((sym("vea") + sym("ver") * abs_of(r.ip, x)) / D_) ** Fraction(1, cfg["order"] + 1)
                finished = nxt is not None or r.outcome == "return"
                if rec:
                    if est is not None and cfg.get("apost", True): rule("estimate", lambda: f.entails_le(THR - est), "a point with a large error estimate is recorded", lambda: "recorded although the estimate allows %s of the step" % show(est))
                    rule("record", veq(nxt[2], sym("X%d" % e[1])), "another solution is recorded", lambda: "records %s, solved %s" % (show(cellv(nxt[2])), "X%d" % e[1]))
                    rule("record", lambda: isinstance(nxt[1], Poly) and f.entails_eq(nxt[1] - tm), "the time recorded", lambda: "records %s at %s, solved for %s" % ("X%d" % e[1], show(nxt[1]), show(tm)))
                    tprev, t, x = t, tm, sym("X%d" % e[1])
                    recs += 1
                    pending = None
                    hist.insert(0, (tm, x, sym("XC%d" % df[1]) * x + sym("C%d" % df[1])))
                    xs.append(x)
                    i = next(q for q in range(i + 1, len(log)) if log[q] is nxt)
                elif finished:
                    if est is None or not cfg.get("apost", True): rule("record", False, "an accepted point is not recorded")
                    else:
                        rule("estimate", lambda: f.entails_lt(est - THR), "a point with an acceptable error estimate is dropped")
                    pending = h
                last = e[2]
            df = None
        elif e[0] == "line":
            rule("record", False, "a point is recorded that was not just solved", "records %s at %s" % (show(cellv(e[2])), show(e[1])))
        i += 1
    look(len(log)); fresh = True; f = start_facts(list(r.trace) + r.ip.decided)
    if r.outcome == "raise":
        nm = r.error.name
        if nm == "PathBound": return recs
        if nm == "ValueError":
            # only when the next step would be below the minimum
            g = Facts(f.cons)
            rule("end", any(tiny(g, k, v) for k, v in list(r.trace) + r.ip.decided), "an error although the step is not too small", "ends in %s" % r.error)
        elif nm == "SystemExit":
            rule("end", made == 0 and recs == 0, "exits after solving", "ends in %s" % r.error)
        else: rule("end", False, "ends in %s" % nm, "ends in %s" % r.error)
        return recs
    v = r.value
    at_end = f.entails_le(TSTOP - t)
    capped = cfg.get("max_iter") and recs == cfg["max_iter"]
    if v is None: rule("end", last is False or capped, "no result although the simulation succeeded", "returns nothing after %d points" % recs)
    elif cfg.get("points"):
        m = mat_of(v) if not isinstance(v, Mat) else v
        want = xs[-cfg["points"]:]
        rule("end", m is not None and len(m.vals) == len(want) and all(T.equal(a, b) for a, b in zip(m.vals, want)), "the last points returned", "returns %s, the last points are %s" % ([show(q) for q in m.vals] if m is not None else v, [show(q) for q in want]))
        rule("end", at_end and last is not False, "a result that does not reach the stop time", "returns after %s" % show(t))
    else:
        rule("end", isinstance(v, Obj) and v.name == "solution" and made == 1, "the result", "returns %r" % (v,))
        rule("end", at_end, "a result that does not reach the stop time", "returns after %s" % show(t))
        rule("end", last is not False, "a result after a failed step")
    return recs

def tiny(f, k, v):
    if k[0] not in ("lt0", "gt0") or not isinstance(k[1], Poly): return False
    p = k[1] if k[0] == "lt0" else -k[1]
    return v and "hmin" in repr(k[1]) and True

def abs_of(ip, p): return ip.b_abs([p], {}, N)

def entry(a, b, older):
    a = list(a) if isinstance(a, tuple) else list(a.items)
    if len(a) != 3 or not veq(a[0], b[0]) or not veq(a[1], b[1]): return False
    return a[2] is None if b[2] is None else a[2] is not None and veq(a[2], b[2])

def bounds(c, prog):
    fi = prog.func("transient.check_step")
    s, t, e, m = sym("s"), sym("t"), sym("e"), sym("m")
    def make(script): return Interp(prog, script, opts={"notnone": lambda a: True, "distinct": False, "split_max": True, "globals": {prog.pkg + ".options.hmin": HMIN}}, summaries={"printing.print_general_error": nothing}, budget=50000)
    for r in explore(make, lambda ip: ip.call_function(fi, [s, t, e, m], {}), 60):
        if r.outcome == "unsupported": c.undecided("bound", "check_step", r.error); continue
        f = Facts.of(r.trace).lt(-m).lt(-HMIN)
        rule = lambda ok, tt, msg: c.check(ok, "bound", "check_step: " + tt, msg, fi.where)
        if r.outcome == "raise":
            rule(r.error.name == "ValueError" and f.entails_lt(s - HMIN) or r.error.name == "ValueError" and f.entails_lt(m - HMIN), "refuses a step", "raises %s although the step is not too small" % r.error)
            continue
        v = r.value
        if not isinstance(v, Poly): c.undecided("bound", "check_step", "returns %r" % (v,)); continue
        rule(f.entails_le(v - s), "longer than proposed", "returns %s" % show(v))
        rule(f.entails_le(v - m), "longer than the maximum", "returns %s" % show(v))
        rule(f.entails_le(v - (e - t)), "past the stop time", "returns %s" % show(v))
        rule(f.entails_le(HMIN - v) or f.entails_eq(v - (e - t)), "below the minimum step", "returns %s" % show(v))
        rule(any(f.entails_eq(v - q) for q in (s, m, e - t)), "shorter than needed", "returns %s" % show(v))
    c.analysed(fi)

def run(c, prog):
    c.rule("record", "only a solve that converged is recorded, with its own solution, at the time it was solved for", 40)
    c.rule("estimate", "with step control, recorded points are those whose error estimate was accepted", 10)
    c.rule("order", "each step starts from the last recorded point, is positive and does not pass the stop time", 40)
    c.rule("retry", "a rejected or failed step leaves time and history alone and is retried with a smaller step", 10)
    c.rule("history", "the formula sees the accepted points, newest first, with their derivatives", 40)
    c.rule("companion", "the system solved is the circuit's with the formula's coefficients", 40)
    c.rule("end", "a result reaches the stop time; a failed simulation returns none", 10)
    c.rule("bound", "the step bound keeps a step below the maximum and the remaining time, and refuses steps that are too small", 6)
    c.rule("coverage", "paths that record points exist for each configuration", 4)
    c.guard("bound", bounds, c, prog)
    for m, control, more, n, lim in CONFIGS:
        mod, cap = METHODS[m]
        cfg = dict(more, method=m, module=mod, history=cap, control=control, order={"implicit_euler": 1, "trap": 2, "gear": 2}[mod])
        cfg["name"] = "%s%s%s" % (m.lower().replace("_", " "), "" if control else ", fixed step", "".join(", %s %s" % (k, v) for k, v in sorted(more.items())))
        c.guard(cfg["name"], simulate, c, prog, cfg, n, lim)

CONFIGS = [("IMPLICIT_EULER", True, {}, 4, 4000), ("IMPLICIT_EULER", True, {"apost": False}, 4, 1500), ("IMPLICIT_EULER", False, {}, 4, 500), ("TRAP", True, {"may_fail": False}, 5, 1500), ("TRAP", False, {}, 4, 500), ("GEAR2", True, {"may_fail": False}, 5, 1500),
           ("TRAP", False, {"points": 2}, 4, 500), ("IMPLICIT_EULER", True, {"max_iter": 2}, 4, 1500)]
