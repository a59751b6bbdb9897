"""C13: every accepted parameter reaches the component or analysis it configures."""
import ast, itertools
from .. import terms as T
from ..interp import *
from ..parsing import *
from ..program import dotted
from fractions import Fraction
from ..terms import sym, atom, num, Poly

# letter: (parser function, mandatory fields after the id [(meaning, kind)], optional keyword fields {label: (meaning, kind)})
# kinds: node, num, name, model
ELEMENTS = {
 "resistor": ("r", [("n1", "node"), ("n2", "node"), ("value", "num")], {}),
 "capacitor": ("c", [("n1", "node"), ("n2", "node"), ("value", "num")], {"ic": ("ic", "num")}),
 "inductor": ("l", [("n1", "node"), ("n2", "node"), ("value", "num")], {"ic": ("ic", "num")}),
 "vsource": ("v", [("n1", "node"), ("n2", "node")], {"vdc": ("dc_value", "num"), "vac": ("ac", "num")}),
 "isource": ("i", [("n1", "node"), ("n2", "node")], {"idc": ("dc_value", "num"), "iac": ("ac", "num")}),
 "diode": ("d", [("n1", "node"), ("n2", "node"), ("model", "model:diode.diode_model")],
           {"area": ("device.AREA", "num"), "t": ("device.T", "num"), "ic": ("ic", "num"), "off": ("off", "bool")}),
 "mos (ekv)": ("m", [("n1", "node"), ("ng", "node"), ("n2", "node"), ("nb", "node"), ("ekv_model", "model:ekv.ekv_mos_model")],
           {"w": ("device.W", "num"), "l": ("device.L", "num"), "m": ("device.M", "num"), "n": ("device.N", "num")}),
 "mos (mosq)": ("m", [("n1", "node"), ("ng", "node"), ("n2", "node"), ("nb", "node"), ("mosq_model", "model:mosq.mosq_mos_model")],
           {"w": ("device.W", "num"), "l": ("device.L", "num"), "m": ("device.M", "num"), "n": ("device.N", "num")}),
 "vcvs": ("e", [("n1", "node"), ("n2", "node"), ("sn1", "node"), ("sn2", "node"), ("alpha", "num")], {}),
 "vccs": ("g", [("n1", "node"), ("n2", "node"), ("sn1", "node"), ("sn2", "node"), ("alpha", "num")], {}),
 "ccvs": ("h", [("n1", "node"), ("n2", "node"), ("source_id", "name"), ("alpha", "num")], {}),
 "cccs": ("f", [("n1", "node"), ("n2", "node"), ("source_id", "name"), ("alpha", "num")], {}),
 "switch": ("s", [("n1", "node"), ("n2", "node"), ("sn1", "node"), ("sn2", "node"), ("model", "model:switch.vswitch_model")], {}),
}
REQUIRED = {"vsource": ["vdc"], "isource": ["idc"], "mos (ekv)": ["w", "l"], "mos (mosq)": ["w", "l"]}

# time functions: fields in the documented order; the optional ones and their documented defaults
TIMEFUN = {
 "sin": (["vo", "va", "freq", "td", "theta", "phase"], {"td": 0, "theta": 0, "phase": 0}, {"phase": "phi"}),
 "exp": (["v1", "v2", "td1", "tau1", "td2", "tau2"], {"td1": 0, "td2": "inf", "tau2": "inf"}, {}),
 "pulse": (["v1", "v2", "td", "tr", "tf", "pw", "per"], {"td": 0}, {}),
 "sffm": (["vo", "va", "fc", "mdi", "fs", "td"], {"td": 0}, {}),
 "am": (["sa", "oc", "fm", "fc", "td"], {"td": 0}, {}),
}
CURRENT = {"vo": "io", "va": "ia", "v1": "i1", "v2": "i2"}
# model parameters and the documented defaults
MODELS = {
 "ekv": ("ekv.ekv_mos_model", ["TNOM", "COX", "GAMMA", "NSUB", "PHI", "VTO", "KP", "TOX", "VFB", "U0", "TCV", "BEX", "XJ", "LAMBDA"], {}),
 "mosq": ("mosq.mosq_mos_model", ["TNOM", "COX", "GAMMA", "NSUB", "PHI", "VTO", "KP", "TOX", "VFB", "U0", "TCV", "BEX", "LAMBDA", "AKP", "AVT"], {}),
 "diode": ("diode.diode_model", ["IS", "N", "NBV", "ISR", "NR", "RS", "CJ0", "M", "VJ", "FC", "CP", "TT", "BV", "IBV", "IKF", "KF", "AF", "FFE", "TEMP", "XTI", "EG", "TBV", "TRS", "TTT1", "TTT2", "TM1", "TM2"],
           {"IS": 1e-14, "N": 1, "ISR": 0, "NR": 2, "RS": 0}),
 "sw": ("switch.vswitch_model", ["VT", "VH", "RON", "ROFF"], {"VT": 0, "VH": 0, "RON": 1}),
}
# parameters a temperature update legitimately mixes in
MIX = {"VTO": {"TCV", "TNOM"}, "KP": {"TNOM", "BEX"}, "PHI": {"TNOM"}, "EG": {"TEMP"}, "IS": {"TEMP", "XTI", "N", "EG"}, "BV": {"TEMP", "TBV"}, "RS": {"TEMP", "TRS"}}

# analyses: fields in the documented order (None: keyword only) -> argument of the analysis function
ANALYSES = {
 "op": ([], {"guess": ("guess", "bool"), "ic_label": ("x0", "name")}, []),
 "dc": (["source", "start", "stop", "step"], {"type": ("sweep_type", "name")}, ["source", "start", "stop", "step"]),
 "tran": (["tstep", "tstop"], {"tstart": ("tstart", "num"), "method": ("method", "name")}, ["tstep", "tstop"]),
 "ac": (["type", "nsteps", "start", "stop"], {}, ["nsteps", "start", "stop"]),
 "pss": (["period"], {"points": ("points", "num"), "step": ("step", "num"), "method": ("method", "name"), "autonomous": ("autonomous", "bool")}, ["period"]),
 "symbolic": ([], {"tf": ("source", "name"), "ac": ("ac_enable", "bool"), "r0s": ("r0s", "bool")}, []),
 "pz": (["output", "input", "shift"], {}, []),
}
ALIAS = {("ac", "type"): "sweep_type", ("ac", "nsteps"): "points", ("pz", "output"): "output_port", ("pz", "input"): "input_source"}
NAMES = {("dc", "source"), ("ac", "type"), ("pz", "output"), ("pz", "input")}
FFT = {"start": ("start", "num"), "stop": ("stop", "num"), "from": ("from", "num"), "to": ("to", "num"), "np": ("np", "num"), "format": ("uformat", "name"),
       "window": ("window", "name"), "alpha": ("alpha", "num"), "freq": ("freq", "num"), "fmin": ("fmin", "num"), "fmax": ("fmax", "num")}
FFT_DEFAULTS = {"np": 1024, "alpha": 3}

def run(c, prog):
    c.rule("element line", "each field of an element line reaches the constructed element under its own meaning, in every accepted order and subset of the optional fields", 60)
    c.rule("time function", "each field of a time function reaches the constructed function under its own meaning, in positional and keyword form; omitted ones take the documented defaults", 40)
    c.rule("model", "each parameter of a model card, or of add_model, reaches the attribute of the same name of the model", 60)
    c.rule("construction", "each argument of the circuit's construction methods reaches the element under its own meaning", 40)
    c.rule("analysis line", "each field of an analysis line reaches the argument of the analysis it is documented for, in positional and keyword form", 25)
    c.rule("analysis call", "each argument of a new_...() call is handed to the analysis under the same name; the analysis accepts and reads it", 30)
    c.rule("post-processing", "each field of a post-processing directive reaches the argument of the function it is documented for", 10)
    for name in sorted(ELEMENTS): c.guard(name, element, c, prog, name)
    c.guard("diode off", bare_off, c, prog)
    c.guard("coupling", coupling, c, prog)
    for t in sorted(TIMEFUN):
        c.guard(t, timefun, c, prog, t)
    for m in sorted(MODELS): c.guard("model " + m, model, c, prog, m)
    c.guard("add", construction, c, prog)
    for a in sorted(ANALYSES): c.guard("." + a, analysis_line, c, prog, a)
    c.guard("new", analysis_call, c, prog)
    c.guard("used", used, c, prog)
    c.guard("postproc", postproc, c, prog)

# ---------------------------------------------------------------------------------- helpers
class Fields(object):
    """hands out distinguishable texts"""
    def __init__(self): self.n = 1000
    def text(self, kind, meaning):
        self.n += 1
        if kind == "num": return str(self.n)
        if kind == "bool": return "1"
        return "%s%d" % (meaning.replace(".", "").replace("_", ""), self.n)

def want(kind, tok):
    if kind == "num": return value(tok)
    if kind == "node": return atom("node", tok)
    if kind == "bool": return True
    return tok

def model_obj(prog, kind, label):
    return Obj(prog.cls(kind.split(":")[1]), "model " + label, {"name": label}, opaque=True)

def zero_field(r):
    """the path assumes that a given number is zero: nothing can be told apart there"""
    for key, v in r.trace:
        if v and key[0] == "eq0" and isinstance(key[1], Poly) and key[1].atom() and key[1].atom()[0] == "field": return True
        if not v and key[0] == "nonzero" and isinstance(key[1], Poly) and key[1].atom() and key[1].atom()[0] == "field": return True
    return False

IGNORED_RAISES = ("NetlistParseError", "CircuitError", "ValueError")

def judge(c, rule, what, runs, expected, where, get, derive=None):
    """expected: {path: (value, label)}"""
    done = [r for r in runs if r.outcome == "return" and not zero_field(r)]
    if not done:
        bad = [r for r in runs if r.outcome == "raise"]
        if bad: c.fail(rule, "%s: accepted" % what, "every path ends in %s" % bad[0].error, where)
        else: c.undecided(rule, what, runs[0].error)
        return
    for path, (v, label) in sorted(expected.items()):
        verdict = None
        for r in done:
            o = get(r)
            try: got = member(r.ip, o, path) if path else o
            except (RaiseSig, AttributeError, Unsupported) as e:
                verdict = "nothing (%s)" % e; break
            if derive and path in derive:
                if not derive[path](r, got): verdict = show(got); break
            elif not same(got, v): verdict = show(got); break
        c.check(verdict is None, rule, "%s: %s" % (what, label), "%s is %s, the field was %s" % (path, verdict, show(v)), where)

def angle_of(v):
    """the magnitude and phase of an excitation are those of the given number"""
    def f(r, got): return got is not None and nums(got) == nums(v)
    return f

# ---------------------------------------------------------------------------------- elements
def subsets(opt, req):
    names = sorted(opt)
    out = []
    free = [x for x in names if x not in req]
    if len(free) <= 4:
        for k in range(len(free) + 1):
            for s in itertools.combinations(free, k): out.append(sorted(set(s) | set(req)))
    seen = []
    for s in out:
        seen.append(s)
        if len(s) > 1: seen.append(list(reversed(s)))
    return seen

def parser_call(prog, ip, fi, line, models, elements=()):
    cc = circ(prog, ip)
    args = {}
    for i, p in enumerate(fi.params()):
        if i == 0: args[p] = line
        elif i == 1: args[p] = cc
        elif p == "models":
            d = PDict()
            for k, v in models.items(): d.items[k] = v; d.keyvals[k] = k
            args[p] = d
        elif p == "elements": args[p] = ip.new_list(list(elements), ast.Pass(lineno=0))
    return args

def dispatch(prog, ip, line, models, elements=()):
    """the elements the parser makes of one line, through its own dispatch on the first letter"""
    fi = prog.func("netlist_parser.main_netlist_parser")
    n = ast.Pass(lineno=0)
    d = PDict()
    for k, v in models.items(): d.items[k] = v; d.keyvals[k] = k
    lines = ip.new_list([(line, num(1))], n)
    cc = circ(prog, ip)
    r = ip.call_function(fi, [cc, lines, PDict(), d])
    return r

def element(c, prog, name):
    letter, fixed, opt = ELEMENTS[name]
    fi = prog.func("netlist_parser.main_netlist_parser")
    req = REQUIRED.get(name, [])
    for sub in subsets(opt, req):
        F = Fields()
        toks = [letter + "part"]
        exp, models, derive = {"part_id": (toks[0], "id")}, {}, {}
        for m, kind in fixed:
            t = F.text(kind, m)
            toks.append(t)
            exp[m] = (want(kind, t), m)
            if kind.startswith("model:"): models[t] = kind
        for l in sub:
            m, kind = opt[l]
            t = F.text(kind, m)
            if name in ("vsource", "isource"): toks.append("type=%s" % l)
            toks.append("%s=%s" % (l, t))
            if m == "ac":
                exp["abs_ac"], exp["arg_ac"] = (value(t), l + " (magnitude)"), (value(t), l + " (phase)")
                derive["abs_ac"] = derive["arg_ac"] = angle_of(value(t))
            elif kind == "num" and m in ("device.M", "device.N"):
                exp[m] = (value(t), l)
                derive[m] = angle_of(value(t))
            else: exp[m] = (want(kind, t), l)
        line = " ".join(toks)
        def fn(ip):
            objs = {k: model_obj(prog, v, k) for k, v in models.items()}
            ip.models = objs
            return dispatch(prog, ip, line, objs)
        runs = go(prog, fn, 40)
        for r in runs:
            for p, (v, l) in list(exp.items()):
                if isinstance(v, str) and v in models: derive[p] = lambda r, got: isinstance(got, Obj) and got.name == "model " + exp[p][0] if False else (isinstance(got, Obj) and got in r.ip.models.values())
        def get(r):
            x = r.value
            return x.items[0] if isinstance(x, PList) and x.items else x
        judge(c, "element line", "%s%s" % (name, (" with " + " ".join(sub)) if sub else ""), runs, exp, fi.where, get, derive)
        for r in runs: c.analysed(*r.ip.inlined)
        # what is not given stays at its documented neutral value
        for l in sorted(set(opt) - set(sub)):
            m, kind = opt[l]
            for r in runs:
                if r.outcome != "return": continue
                try: got = member(r.ip, get(r), {"ac": "abs_ac"}.get(m, m))
                except (RaiseSig, AttributeError): continue
                c.check(not nums(got), "element line", "%s without %s: %s does not come from another field" % (name, l, m), show(got), fi.where)

def bare_off(c, prog):
    fi = prog.func("netlist_parser.main_netlist_parser")
    for line, w in (("dpart na nb mylabel off", True), ("dpart na nb mylabel off=0", False), ("dpart na nb mylabel off=no", False), ("dpart na nb mylabel off=yes", True), ("dpart na nb mylabel", False)):
        def fn(ip): return dispatch(prog, ip, line, {"mylabel": model_obj(prog, "model:diode.diode_model", "mylabel")})
        get = lambda r: r.value.items[0] if isinstance(r.value, PList) and r.value.items else r.value
        judge(c, "element line", "diode, " + " ".join(line.split()[4:] or ["no options"]), go(prog, fn, 40), {"off": (w, "off")}, fi.where, get)

def inductors(prog):
    a = Obj(prog.cls("components.Inductor.Inductor"), "La", {"part_id": "la", "value": sym("LA")}, opaque=True)
    b = Obj(prog.cls("components.Inductor.Inductor"), "Lb", {"part_id": "lb", "value": sym("LB")}, opaque=True)
    return a, b

def coupling_ok(c, prog, rule, what, runs, pair, k, where):
    done = [r for r in runs if r.outcome == "return"]
    if not done:
        c.fail(rule, "%s: accepted" % what, "every path ends in %s" % (runs[0].error,), where) if runs[0].outcome == "raise" else c.undecided(rule, what, runs[0].error)
        return
    for r in done:
        o = r.ip.el
        if not isinstance(o, Obj): c.fail(rule, "%s: element" % what, "no element is made", where); continue
        g = lambda p: member(r.ip, o, p)
        c.check(same(g("K"), k), rule, "%s: coupling factor" % what, show(g("K")), where)
        c.check(sorted([g("L1"), g("L2")], key=str) == sorted(pair), rule, "%s: coupled inductors" % what, "%s, %s" % (g("L1"), g("L2")), where)
        M = g("M")
        ok = T.equal(term(M) * term(M), term(k) * term(k) * sym("LA") * sym("LB"))
        c.check(ok, rule, "%s: mutual inductance" % what, show(M), where)
        for i in r.ip.ls:
            d = i.attrs.get("coupling_devices")
            c.check(isinstance(d, PList) and any(x is o for x in d.items), rule, "%s: both inductors know the coupling" % what, "%s does not" % i.name, where)

def coupling(c, prog):
    fi = prog.func("netlist_parser.parse_elem_inductor_coupling")
    for form in ("0.101", "k=0.101"):
        for a, b in (("la", "lb"), ("lb", "la")):
            line = "kpart %s %s %s" % (a, b, form)
            def fn(ip):
                ip.ls = inductors(prog)
                for x in ip.ls: x.attrs["coupling_devices"] = ip.new_list([], ast.Pass(lineno=0))
                args = parser_call(prog, ip, fi, line, {}, ip.ls)
                return ip.call_function(fi, [], args)
            runs = go(prog, fn)
            for r in runs: r.ip.el = r.value.items[0] if r.outcome == 'return' and isinstance(r.value, PList) and r.value.items else None
            coupling_ok(c, prog, "element line", "coupling %s" % form.split("0")[0], runs, (a, b), value("0.101"), fi.where)
    fi = prog.func("circuit.Circuit.add_inductor_coupling")
    def fn(ip):
        ip.ls = inductors(prog)
        for x in ip.ls: x.attrs["coupling_devices"] = ip.new_list([], ast.Pass(lineno=0))
        cc = circ(prog, ip, ip.ls)
        return ip.call_function(fi, ["kpart", "la", "lb", value("0.101")], self_=cc)
    runs = go(prog, fn)
    for r in runs: r.ip.el = (added(r.ip) + [None])[0] if r.outcome == 'return' else None
    coupling_ok(c, prog, "construction", "add_inductor_coupling", runs, ("la", "lb"), value("0.101"), fi.where)

# ---------------------------------------------------------------------------------- time functions
def defaults_ok(d, got):
    if d == "inf": return "inf" in show(got) or "nonfinite" in show(got)
    return got is not None and same(got, P(d))

def timefun(c, prog, t):
    order, dflt, attr = TIMEFUN[t]
    for src, wrap in (("vsource", "v"), ("isource", "i")):
        fi = prog.func("netlist_parser.parse_elem_" + src)
        forms = []
        for miss in [()] + [tuple(order[k:]) for k in range(1, len(order)) if all(x in dflt for x in order[k:])]:
            forms.append(("positional", [x for x in order if x not in miss]))
        ks = [x for x in order if x not in dflt]
        forms += [("keyword", list(order)), ("keyword", list(reversed(order)))]
        for x in order:
            if x in dflt: forms.append(("keyword", [y for y in order if y != x]))
        if src == "isource": forms.append(("current names", list(order)))
        if src == "isource": forms = forms[:2] + [f for f in forms if f[0] == "keyword"][:1] + forms[-1:]
        for form, given in forms:
            F = Fields()
            toks, exp = [wrap + "part", "na", "nb", "type=" + t], {}
            vals = {}
            for x in given:
                k = F.text("num", x)
                vals[x] = value(k)
                toks.append(k if form == "positional" else "%s=%s" % (CURRENT.get(x, x) if form == "current names" else x, k))
            line = " ".join(toks)
            what = "%s %s (%s)%s" % (src, t, form, "" if len(given) == len(order) else " without " + " ".join(x for x in order if x not in given))
            def fn(ip): return ip.call_function(fi, [], parser_call(prog, ip, fi, line, {}))
            runs = go(prog, fn)
            exp = {"_time_function." + attr.get(x, x): (vals[x], x) for x in given}
            get = lambda r: r.value.items[0] if isinstance(r.value, PList) and r.value.items else r.value
            derive = {}
            if t == "pulse" and "td" in given: derive["_time_function.td"] = lambda r, got: nums(got) <= nums(vals["td"]) 
            judge(c, "time function", what, runs, exp, fi.where, get, derive)
            for r in runs:
                c.analysed(*r.ip.inlined)
                if r.outcome != "return": continue
                o = get(r)
                c.check(member(r.ip, o, "is_timedependent") is True, "time function", what + ": the source is time-dependent", "", fi.where)
                for x in order:
                    if x in given: continue
                    try: got = member(r.ip, o, "_time_function." + attr.get(x, x))
                    except (RaiseSig, AttributeError) as e: got = None
                    c.check(defaults_ok(dflt[x], got), "time function", "%s: default of %s" % (what, x), "%s instead of %s" % (show(got), dflt[x]), fi.where)
        # a DC and an AC part may accompany it
        F = Fields()
        toks = [wrap + "part", "na", "nb", "type=%sdc" % wrap, "%sdc=71" % wrap, "type=%sac" % wrap, "%sac=72" % wrap, "type=" + t] + ["%s=%s" % (x, F.text("num", x)) for x in order]
        line = " ".join(toks)
        def fn(ip): return ip.call_function(fi, [], parser_call(prog, ip, fi, line, {}))
        runs = go(prog, fn)
        get = lambda r: r.value.items[0] if isinstance(r.value, PList) and r.value.items else r.value
        judge(c, "time function", "%s %s with DC and AC parts" % (src, t), runs, {"dc_value": (value("71"), "DC part"), "abs_ac": (value("72"), "AC part"), "is_timedependent": (True, "time part")}, fi.where, get,
              {"abs_ac": angle_of(value("72"))})

# ---------------------------------------------------------------------------------- models
def model(c, prog, m):
    cls, params, dflt = MODELS[m]
    ci = prog.cls(cls)
    init = prog.find_method(ci, "__init__")
    fi = prog.func("netlist_parser.parse_models")
    adder = prog.func("circuit.Circuit.add_model")
    own = set(init.params())
    mos = m in ("ekv", "mosq")
    def judge_all(what, runs, get, vals, where, name):
        done = [r for r in runs if r.outcome == "return"]
        if not done:
            c.fail("model", what + ": accepted", "every path ends in %s" % runs[0].error, where) if runs[0].outcome == "raise" else c.undecided("model", what, runs[0].error)
            return
        for r in done:
            o = get(r)
            if not isinstance(o, Obj): c.fail("model", what, "no model is made", where); continue
            c.check(member(r.ip, o, "name") == name, "model", what + ": name", show(member(r.ip, o, "name")), where)
            for p, tok in vals.items():
                try: got = member(r.ip, o, p)
                except (RaiseSig, AttributeError): c.fail("model", "%s: %s" % (what, p), "the model has no such attribute", where); continue
                dep = nums(got)
                allowed = {tok} | {vals[q] for q in MIX.get(p, ()) if q in vals}
                c.check(tok in dep and dep <= allowed, "model", "%s: %s" % (what, p), "%s depends on %s" % (show(got)[:80], sorted(q for q in vals if vals[q] in dep)), where)
            c.analysed(*r.ip.inlined)
    F = Fields()
    vals = {p: F.text("num", p) for p in params}
    extra = " type=n" if mos else ""
    summ = {"ekv_mos_model.set_device_temperature": None}
    line = ".model %s mymodel%s %s" % (m, extra, " ".join("%s=%s" % (p.lower(), vals[p]) for p in params))
    def fn(ip): return ip.call_function(fi, [ip.new_list([(line, num(3))], ast.Pass(lineno=0))])
    runs = go(prog, fn, 12)
    judge_all(".model %s" % m, runs, lambda r: r.value.items.get("mymodel") if isinstance(r.value, PDict) else None, vals, fi.where, "mymodel")
    for p in params:                                    # each one alone: the others at their defaults
        one = ".model %s mymodel%s %s=%s" % (m, extra, p.lower(), vals[p])
        def fn1(ip, one=one): return ip.call_function(fi, [ip.new_list([(one, num(3))], ast.Pass(lineno=0))])
        judge_all(".model %s with %s only" % (m, p), go(prog, fn1, 12, options={"raise_args": True}), lambda r: r.value.items.get("mymodel") if isinstance(r.value, PDict) else None, {p: vals[p]}, fi.where, "mymodel")
    if m == "sw":
        line2 = ".model sw mymodel von=11 voff=12"
        def fn2(ip): return ip.call_function(fi, [ip.new_list([(line2, num(3))], ast.Pass(lineno=0))])
        for r in go(prog, fn2, 12):
            if r.outcome != "return": c.fail("model", ".model sw VON VOFF: accepted", str(r.error), fi.where) if r.outcome == "raise" else c.undecided("model", ".model sw VON VOFF", r.error); continue
            o = r.value.items.get("mymodel")
            von, voff = value("11"), value("12")
            vt = (von - voff) / num(2) + voff
            c.check(same(member(r.ip, o, "VT"), vt), "model", ".model sw VON VOFF: VT", show(member(r.ip, o, "VT")), fi.where)
            c.check(same(member(r.ip, o, "VH"), vt * P(0.001)), "model", ".model sw VON VOFF: VH", show(member(r.ip, o, "VH")), fi.where)
    # type
    if mos:
        for ty, s in (("n", 1), ("p", -1)):
            line3 = ".model %s mymodel type=%s vto=77" % (m, ty)
            def fn3(ip): return ip.call_function(fi, [ip.new_list([(line3, num(3))], ast.Pass(lineno=0))])
            rs = go(prog, fn3, 12)
            done = [r for r in rs if r.outcome == "return"]
            if not done: c.fail("model", ".model %s type=%s: accepted" % (m, ty), str(rs[0].error), fi.where); continue
            for r in done:
                got = member(r.ip, r.value.items.get("mymodel"), "NPMOS")
                c.check(same(got, num(s)), "model", ".model %s type=%s" % (m, ty), "polarity %s" % show(got), fi.where)
    # add_model
    def fn4(ip):
        d = PDict()
        for p in params: d.items[p] = value(vals[p]); d.keyvals[p] = p
        if mos: d.items["TYPE"] = "n"; d.keyvals["TYPE"] = "TYPE"
        md = PDict()
        cc = circ(prog, ip, models=md)
        ip.md = cc
        return ip.call_function(adder, [m, "mymodel", d], self_=cc)
    runs = go(prog, fn4, 12)
    judge_all("add_model %s" % m, runs, lambda r: r.ip.md.attrs["models"].items.get("mymodel"), vals, adder.where, "mymodel")
    # documented defaults
    if dflt:
        line5 = ".model %s mymodel" % m
        def fn5(ip): return ip.call_function(fi, [ip.new_list([(line5, num(3))], ast.Pass(lineno=0))])
        for r in go(prog, fn5, 12):
            if r.outcome != "return": c.undecided("model", "defaults of " + m, r.error); continue
            for p, v in dflt.items():
                got = member(r.ip, r.value.items.get("mymodel"), p)
                c.check(same(got, P(v)), "model", "%s: default of %s" % (m, p), show(got), fi.where)

# ---------------------------------------------------------------------------------- construction calls
ADD = {
 "add_resistor": {"part_id": "part_id", "n1": "n1", "n2": "n2", "value": "value"},
 "add_capacitor": {"part_id": "part_id", "n1": "n1", "n2": "n2", "value": "value", "ic": "ic"},
 "add_inductor": {"part_id": "part_id", "n1": "n1", "n2": "n2", "value": "value", "ic": "ic"},
 "add_vsource": {"part_id": "part_id", "n1": "n1", "n2": "n2", "dc_value": "dc_value", "ac_value": "abs_ac", "function": "_time_function"},
 "add_isource": {"part_id": "part_id", "n1": "n1", "n2": "n2", "dc_value": "dc_value", "ac_value": "abs_ac", "function": "_time_function"},
 "add_diode": {"part_id": "part_id", "n1": "n1", "n2": "n2", "model_label": "model", "Area": "device.AREA", "T": "device.T", "ic": "ic", "off": "off"},
 "add_mos": {"part_id": "part_id", "nd": "n1", "ng": "ng", "ns": "n2", "nb": "nb", "w": "device.W", "l": "device.L", "model_label": "MODEL", "m": "device.M", "n": "device.N"},
 "add_cccs": {"part_id": "part_id", "n1": "n1", "n2": "n2", "source_id": "source_id", "value": "alpha"},
 "add_ccvs": {"part_id": "part_id", "n1": "n1", "n2": "n2", "source_id": "source_id", "value": "alpha"},
 "add_vcvs": {"part_id": "part_id", "n1": "n1", "n2": "n2", "sn1": "sn1", "sn2": "sn2", "value": "alpha"},
 "add_vccs": {"part_id": "part_id", "n1": "n1", "n2": "n2", "sn1": "sn1", "sn2": "sn2", "value": "alpha"},
 "add_switch": {"part_id": "part_id", "n1": "n1", "n2": "n2", "sn1": "sn1", "sn2": "sn2", "ic": "device.is_on", "model_label": "model"},
}
NODES = {"n1", "n2", "sn1", "sn2", "nd", "ng", "ns", "nb"}
LOOSE = {"device.M", "device.N", "abs_ac"}
MODEL_OF = {"add_diode": ["diode.diode_model"], "add_mos": ["ekv.ekv_mos_model", "mosq.mosq_mos_model"], "add_switch": ["switch.vswitch_model"]}

def construction(c, prog):
    for meth in sorted(ADD):
        fi = prog.func("circuit.Circuit." + meth)
        where = fi.where
        table = ADD[meth]
        for unknown in sorted(set(fi.params()) - {"self", "models"} - set(table)):
            c.undecided("construction", "%s(%s)" % (meth, unknown), "argument without documented meaning")
        for mk in MODEL_OF.get(meth, [None]):
            for via in (("argument", "circuit") if mk else ("",)):
                given = {}
                def fn(ip):
                    given.clear()
                    for p in fi.params():
                        if p not in table: continue
                        if p == "part_id": given[p] = "xpart"
                        elif p in NODES: given[p] = "node_" + p
                        elif p in ("model_label",): given[p] = "mlabel"
                        elif p in ("source_id",): given[p] = "vctrl"
                        elif p == "off": given[p] = True
                        elif meth == "add_switch" and p == "ic": given[p] = True
                        elif p == "function": given[p] = Obj(None, "timefunction", {}, opaque=True)
                        else: given[p] = value("p_" + p)
                    kw = dict(given)
                    md = PDict()
                    if mk:
                        ip.mo = Obj(prog.cls(mk), "model", {"name": "mlabel"}, opaque=True)
                        md.items["mlabel"] = ip.mo; md.keyvals["mlabel"] = "mlabel"
                    other = PDict()
                    cc = circ(prog, ip, models=md if via == "circuit" else other)
                    if via == "argument": kw["models"] = md
                    return ip.call_function(fi, [], kw, self_=cc)
                runs = go(prog, fn, 24)
                what = meth + ((" (%s)" % mk.split(".")[0]) if mk else "") + ((" models from the " + via) if via else "")
                exp, derive = {}, {}
                for p, path in table.items():
                    if p not in given: continue
                    if path == "MODEL": path = "ekv_model" if mk.startswith("ekv") else "mosq_model"
                    v = given[p]
                    if p in NODES: v = atom("node", v)
                    exp[path] = (v, p)
                    if p == "model_label": derive[path] = lambda r, got: got is r.ip.mo
                    if path in LOOSE: derive[path] = angle_of(v)
                    if p == "function": derive[path] = lambda r, got: isinstance(got, Obj) and got.name == "timefunction"
                if "function" in given: exp["is_timedependent"] = (True, "function makes it time-dependent")
                judge(c, "construction", what, runs, exp, where, lambda r: (added(r.ip) + [None])[0], derive)
                for r in runs: c.analysed(*r.ip.inlined)

# ---------------------------------------------------------------------------------- analyses
def table_of(prog, ip):
    """the functions the analyses are dispatched to"""
    return ip.from_res(prog.lookup(prog.module("ahkab"), "analysis"), "ahkab.analysis")

TARGET = {"op": "dc_analysis.op_analysis", "dc": "dc_analysis.dc_analysis", "tran": "transient.transient_analysis", "ac": "ac.ac_analysis",
          "symbolic": "symbolic.symbolic_analysis", "pz": "pz.calculate_singularities", "pss": "shooting.shooting_analysis"}

def analysis_line(c, prog, a):
    order, kws, req = ANALYSES[a]
    fi = prog.func("netlist_parser.parse_single_analysis")
    target = prog.func(TARGET[a])
    accepts = set(target.params()) | ({"method"} if a == "pss" else set())
    dest = lambda l: ALIAS.get((a, l), l)
    kind = lambda l: "name" if (a, l) in NAMES else "num"
    forms = []
    for k in range(len(req) if a != "ac" else len(order), len(order) + 1): forms.append(("positional", order[:k], []))
    allk = list(order) + sorted(kws)
    forms.append(("keyword", allk, None))
    forms.append(("keyword", list(reversed(allk)), None))
    for l in sorted(kws):
        if a == "pss": forms.append(("mixed", list(order), ["points", l] if l != "points" else [l]))
        else: forms.append(("mixed", list(order), [l]))
    if a == "ac": forms.append(("keyword", ["nsteps", "start", "stop"], None))
    for form, pos, extra in forms:
        F = Fields()
        toks, exp = ["." + a], {}
        for l in pos:
            kd = kws[l][1] if l in kws else kind(l)
            d = kws[l][0] if l in kws else dest(l)
            t = F.text(kd, l)
            toks.append(t if form != "keyword" else "%s=%s" % (l, t))
            exp[d] = (want(kd, t), l)
        for l in extra or ():
            d, kd = kws[l]
            t = F.text(kd, l)
            toks.append("%s=%s" % (l, t)); exp[d] = (want(kd, t), l)
        if a == "tran" and "x0" in exp: del exp["x0"]
        line = " ".join(toks)
        what = ".%s %s %s" % (a, form, " ".join(t.split("=")[0] if "=" in t else "_" for t in toks[1:]))
        def fn(ip): return ip.call_function(fi, [line])
        runs = go(prog, fn)
        done = [r for r in runs if r.outcome == "return"]
        if not done:
            c.fail("analysis line", what + ": accepted", "every path ends in %s" % runs[0].error, fi.where) if runs[0].outcome == "raise" else c.undecided("analysis line", what, runs[0].error)
            continue
        for r in done:
            c.analysed(*r.ip.inlined)
            d = r.value
            if not isinstance(d, PDict): c.undecided("analysis line", what, "the directive is not a dictionary"); continue
            c.check(d.items.get("type") == a, "analysis line", what + ": type", show(d.items.get("type")), fi.where)
            for k, (v, l) in exp.items():
                c.check(k in d.items and same(d.items[k], v), "analysis line", "%s: %s" % (what, l), "%s is %s" % (k, show(d.items.get(k))), fi.where)
            for k, v in d.items.items():
                if k == "type": continue
                c.check(k in accepts, "analysis line", ".%s: %s accepts %s" % (a, target.name, k), "unknown argument", fi.where)
                if k not in exp: c.check(not nums(v) and not (isinstance(v, str) and any(v == w for w, _ in exp.values())), "analysis line", "%s: %s does not come from another field" % (what, k), show(v), fi.where)
    if a == "tran":
        for u, x0 in (("0", None), ("1", "op"), ("2", "op+ic"), ("3", "mylabel")):
            for form in (".tran 5 6 %s", ".tran 5 6 uic=%s", ".tran uic=%s tstop=6 tstep=5"):
                line = (form % u) + (" ic_label=mylabel" if u == "3" else "")
                def fn(ip): return ip.call_function(fi, [line])
                s = {"netlist_parser.convert_units": lambda ip, args, kw, n: num(int(args[0])) if isinstance(args[0], str) and args[0].isdigit() else to_number(ip, args, kw, n)}
                for r in go(prog, fn, summaries=s):
                    if r.outcome != "return": c.fail("analysis line", line + ": accepted", str(r.error), fi.where) if r.outcome == "raise" else c.undecided("analysis line", line, r.error); continue
                    got = r.value.items.get("x0")
                    c.check(got == x0, "analysis line", ".tran %s starts from %s" % ("uic=%s" % u if "uic" in form else "with a third field " + u, x0), show(got), fi.where)
    if a == "op":
        pass

NEW = {"new_op": "op", "new_dc": "dc", "new_tran": "tran", "new_ac": "ac", "new_pss": "pss", "new_pz": "pz", "new_symbolic": "symbolic"}

def analysis_call(c, prog):
    for f, a in sorted(NEW.items()):
        fi = prog.func("ahkab." + f)
        target = prog.func(TARGET[a])
        accepts = set(target.params()) | ({"method"} if a == "pss" else set())
        for given_out in (True, False):
            def fn(ip):
                kw = {}
                for p in fi.params():
                    if p == "outfile":
                        if given_out: kw[p] = "myfile"
                    elif p in ("source", "method", "sweep_type", "input_source", "output_port"): kw[p] = "text_" + p
                    elif p == "points" and a == "dc": kw[p] = num(5)       # becomes the step between the points
                    else: kw[p] = value("p_" + p)
                return ip.call_function(fi, [], kw)
            runs = go(prog, fn, summaries={"tempfile.NamedTemporaryFile": lambda ip, args, kw, n: Obj(None, "tmp", {"name": "tmpname"}, opaque=True)})
            done = [r for r in runs if r.outcome == "return"]
            if not done:
                c.fail("analysis call", f + ": accepted", "every path ends in %s" % runs[0].error, fi.where) if runs[0].outcome == "raise" else c.undecided("analysis call", f, runs[0].error)
                continue
            for r in done:
                c.analysed(*r.ip.inlined)
                d = r.value
                if not isinstance(d, PDict): c.undecided("analysis call", f, "not a dictionary"); continue
                c.check(d.items.get("type") == a, "analysis call", f + ": type", show(d.items.get("type")), fi.where)
                for p in fi.params():
                    v = value("p_" + p)
                    if p in ("source", "method", "sweep_type", "input_source", "output_port"): v = "text_" + p
                    if p == "points" and a == "dc":
                        p2, v = "step", (value("p_stop") - value("p_start")) / num(4)
                        got = d.items.get("step")
                        # (which of the two goes with which sweep type is a matter of the grid: C24)
                        log = (value("p_stop") / value("p_start")) ** Fraction(1, 4)
                        c.check(isinstance(got, Poly) and (T.equal(got, v) or T.equal(got, log)), "analysis call", "%s(points)" % f, "step is %s" % show(got), fi.where)
                        continue
                    got = d.items.get(p)
                    if p == "outfile":
                        if given_out:
                            s = got if isinstance(got, str) else ""
                            c.check(s == "myfile" or s.startswith("myfile."), "analysis call", "%s(outfile)" % f, show(got), fi.where)
                        continue
                    c.check(p in d.items and same(got, v), "analysis call", "%s(%s)" % (f, p), "%s is %s" % (p, show(got)), fi.where)
                for k in d.items:
                    if k == "type": continue
                    c.check(k in accepts, "analysis call", "%s: %s accepts %s" % (f, target.name, k), "unknown argument", fi.where)
    # the periodic steady state analysis hands everything but the method to the algorithm
    fi = prog.func("pss.pss_analysis")
    for m, g in (("shooting", "shooting.shooting_analysis"), ("brute-force", "bfpss.bfpss")):
        keys = ["period", "step", "points", "autonomous", "x0", "outfile", "verbose"]
        got = []
        def rec(ip, args, kw, n): got.append((args, dict(kw))); return None
        def fn(ip):
            kw = {k: value("p_" + k) for k in keys}; kw["method"] = m
            return ip.call_function(fi, [sym("circ")], kw)
        both = {"shooting.shooting_analysis": lambda ip, args, kw, n: rec(ip, args, kw, n) if g.startswith("shoot") else None, "bfpss.bfpss": lambda ip, args, kw, n: rec(ip, args, kw, n) if g.startswith("bf") else None}
        runs = go(prog, fn, summaries=both, options={"globals": option_texts(prog)})
        ok = len(got) == 1 and all(same(got[0][1].get(k), value("p_" + k)) for k in keys) and "method" not in got[0][1]
        c.check(ok, "analysis call", "pss_analysis %s: arguments" % m, "hands over %s" % (sorted(got[0][1]) if got else "nothing",), fi.where)
        tf = prog.func(g)
        for k in keys: c.check(k in tf.params(), "analysis call", "%s accepts %s" % (g, k), "unknown argument", tf.where)
    # run() hands the analysis object over
    fi = prog.func("ahkab.run")
    for a in sorted(TARGET):
        got = []
        tq = TARGET[a] if a != "pss" else "pss.pss_analysis"
        def rec(ip, args, kw, n): got.append((list(args), dict(kw))); return Obj(None, "result", {}, opaque=True)
        def fn(ip):
            d = PDict()
            for k, v in (("type", a), ("p1", value("1")), ("p2", value("2"))): d.items[k] = v; d.keyvals[k] = k
            return ip.call_function(fi, [sym("circ"), ip.new_list([d], ast.Pass(lineno=0))])
        runs = go(prog, fn, summaries={tq: rec, "ahkab._handle_netlist_ics": quiet, "ahkab.icmodified_x0": quiet})
        done = [r for r in runs if r.outcome == "return"]
        if not done or not got: c.undecided("analysis call", "run " + a, runs[0].error); continue
        args, kw = got[0]
        c.check(len(args) == 1 and set(kw) == {"p1", "p2"} and all(same(kw["p" + x], value(x)) for x in "12"), "analysis call", "run(): arguments of the %s analysis" % a, "called with %s" % sorted(kw), fi.where)
        for r in done:
            ok = isinstance(r.value, PDict) and isinstance(r.value.items.get(a), Obj) and r.value.items[a].name == "result"
            c.check(ok, "analysis call", "run(): result of the %s analysis" % a, "not returned under its type", fi.where)
            c.analysed(*r.ip.inlined)

def option_texts(prog):
    """the options that are plain texts in options.py"""
    out = {}
    m = prog.modules[prog.pkg + ".options"]
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
            for t in st.targets:
                if isinstance(t, ast.Name): out["%s.%s" % (m.name, t.id)] = st.value.value
    return out

# arguments documented as not supported, or internal to the solver
UNSUPPORTED = {("shooting.shooting_analysis", "autonomous"), ("bfpss.bfpss", "autonomous"), ("dc_analysis.mdn_solver", "vector_norm"), ("pz.calculate_poles", "verbose")}

def used(c, prog):
    """arguments of the user-level functions that nothing reads"""
    quals = sorted(set(TARGET.values()) | {"bfpss.bfpss", "pz.calculate_poles", "fourier.fourier", "fourier.spicefft", "dc_analysis.dc_solve", "dc_analysis.mdn_solver"} | {"ahkab." + f for f in NEW} | {"circuit.Circuit." + m for m in ADD})
    for q in quals:
        fi = prog.func(q)
        loads = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for p in fi.params():
            if p == "self" or (q, p) in UNSUPPORTED: continue
            c.check(p in loads, "analysis call", "%s reads its argument %s" % (q, p), "the argument is never used", fi.where)
        c.analysed(fi)

# ---------------------------------------------------------------------------------- post-processing
def postproc(c, prog):
    fi = prog.func("netlist_parser.parse_postproc")
    def parse(line):
        def fn(ip): return ip.call_function(fi, [circ(prog, ip), ip.new_list([(line, num(1))], ast.Pass(lineno=0))])
        return go(prog, fn, summaries={"plotting._split_netlist_label": lambda ip, args, kw, n: (("label:" + args[0].strip(), None),) if isinstance(args[0], str) else NotImplemented})
    target = prog.func("fourier.spicefft")
    for sub in [sorted(FFT)] + [[k] for k in sorted(FFT)] + [list(reversed(sorted(FFT)))]:
        F = Fields()
        toks, exp = [".fft", "v(1)"], {}
        for l in sub:
            d, kd = FFT[l]
            t = F.text(kd, l)
            toks.append("%s=%s" % (l, t)); exp[d] = (want(kd, t), l)
        what = ".fft" + (" " + sub[0] if len(sub) == 1 else " with every field")
        for r in parse(" ".join(toks)):
            c.analysed(*r.ip.inlined)
            if r.outcome != "return": c.fail("post-processing", what + ": accepted", str(r.error), fi.where) if r.outcome == "raise" else c.undecided("post-processing", what, r.error); continue
            d = r.value.items[0] if isinstance(r.value, PList) and r.value.items else None
            if not isinstance(d, PDict): c.undecided("post-processing", what, "not a dictionary"); continue
            c.check(d.items.get("type") == "fft", "post-processing", what + ": type", show(d.items.get("type")), fi.where)
            for k, (v, l) in exp.items():
                c.check(k in d.items and same(d.items[k], v), "post-processing", "%s: %s" % (what, l), "%s is %s" % (k, show(d.items.get(k))), fi.where)
            for k, v in d.items.items():
                if k in FFT_DEFAULTS and k not in exp: c.check(same(v, P(FFT_DEFAULTS[k])), "post-processing", ".fft: default of %s" % k, show(v), fi.where)
                elif k not in exp and k != "label": c.check(not nums(v), "post-processing", "%s: %s does not come from another field" % (what, k), show(v), fi.where)
    for r in parse(".four 77 v(1) i(v2)"):
        if r.outcome != "return": c.undecided("post-processing", ".four", r.error); continue
        d = r.value.items[0]
        c.check(same(d.items.get("fund"), value("77")), "post-processing", ".four: fundamental", show(d.items.get("fund")), fi.where)
        v = d.items.get("variables")
        vs = v.items if isinstance(v, PList) else v
        c.check(isinstance(vs, (tuple, list)) and len(vs) == 2, "post-processing", ".four: variables", show(v), fi.where)
    # process_postproc hands them over
    pi = prog.func("ahkab.process_postproc")
    keys = [d for d, k in FFT.values()] + ["label"]
    got = []
    def rec(ip, args, kw, n): got.append((list(args), dict(kw))); return (sym("f"), sym("F"), sym("THD"))
    def fn(ip):
        d = PDict()
        for k in ["type"] + keys:
            d.items[k] = "fft" if k == "type" else value("p_" + k); d.keyvals[k] = k
        res = PDict(); res.items["tran"] = sym("tranresult"); res.keyvals["tran"] = "tran"
        return ip.call_function(pi, [ip.new_list([d], ast.Pass(lineno=0)), "title", res, "out"])
    runs = go(prog, fn, summaries={"fourier.spicefft": rec, "printing.print_spicefft": quiet, "plotting.show_plots": quiet})
    if not got: c.undecided("post-processing", "process_postproc .fft", runs[0].error)
    else:
        kw = got[0][1]
        names = dict(zip(target.params(), got[0][0]))
        names.update(kw)
        c.check(same(names.get("tran_results"), sym("tranresult")), "post-processing", "process_postproc: .fft works on the transient results", show(names.get("tran_results")), pi.where)
        for k in keys: c.check(same(names.get(k), value("p_" + k)), "post-processing", "process_postproc: .fft %s" % k, show(names.get(k)), pi.where)
    got = []
    def fn(ip):
        d = PDict()
        for k, v in (("type", "four"), ("fund", value("77")), ("variables", ("va", "vb"))): d.items[k] = v; d.keyvals[k] = k
        res = PDict(); res.items["tran"] = sym("tranresult"); res.keyvals["tran"] = "tran"
        return ip.call_function(pi, [ip.new_list([d], ast.Pass(lineno=0)), "title", res, "out"])
    runs = go(prog, fn, summaries={"fourier.fourier": rec, "printing.print_fourier": quiet})
    f4 = prog.func("fourier.fourier")
    if not got: c.undecided("post-processing", "process_postproc .four", runs[0].error)
    else:
        for (args, kw), v in zip(got, ("va", "vb")):
            names = dict(zip(f4.params(), args)); names.update(kw)
            ok = names.get("label") == v and same(names.get("tran_results"), sym("tranresult")) and same(names.get("fund"), value("77"))
            c.check(ok, "post-processing", "process_postproc: .four", "called with %s" % {k: show(x) for k, x in names.items()}, pi.where)
    # the fields are read by the transform under the same names
    strs = {n.value for n in ast.walk(target.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)} | set(target.params())
    body = strs
    for k, (d, kd) in sorted(FFT.items()):
        if d == "uformat": continue
        c.check(d in body, "post-processing", "spicefft reads %s" % d, "never read", target.where)
    # .ic
    ii = prog.func("netlist_parser.parse_ics")
    def fn(ip): return ip.call_function(ii, [ip.new_list([(".ic name=lab v(1)=81 i(v2)=82", num(1))], ast.Pass(lineno=0))])
    for r in go(prog, fn):
        if r.outcome != "return": c.undecided("post-processing", ".ic", r.error); continue
        d = r.value.items[0] if isinstance(r.value, PList) and r.value.items else None
        inner = d.items.get("lab") if isinstance(d, PDict) else None
        ok = isinstance(inner, PDict) and same(inner.items.get("v(1)"), value("81")) and same(inner.items.get("i(v2)"), value("82")) and len(inner.items) == 2
        c.check(ok, "post-processing", ".ic: values by name", show(d), ii.where)
