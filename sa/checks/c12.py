"""C12: the netlist line an element prints, read back by the parser, gives the same element."""
import ast, itertools, re
from fractions import Fraction
from .. import terms as T
from ..interp import *
from ..parsing import go, same, show, added
from .. import parsing
from ..terms import sym, atom, num, Poly
from .c13 import dispatch, model_obj

N = ast.Pass(lineno=0)
# class: (letter, constructor arguments [(name, kind)], optional arguments [(name, kind)], class of the model)
ELEMENTS = {
 "components.Resistor.Resistor": ("r", "n1 n2 value:num", "", None),
 "components.Capacitor.Capacitor": ("c", "n1 n2 value:num", "ic:num", None),
 "components.Inductor.Inductor": ("l", "n1 n2 value:num", "ic:num", None),
 "components.sources.EVSource.EVSource": ("e", "n1 n2 sn1 sn2 value:num", "", None),
 "components.sources.GISource.GISource": ("g", "n1 n2 sn1 sn2 value:num", "", None),
 "components.sources.HVSource.HVSource": ("h", "n1 n2 source_id:name value:num", "", None),
 "components.sources.FISource.FISource": ("f", "n1 n2 source_id:name value:num", "", None),
 "diode.diode": ("d", "n1 n2 model:model", "AREA:num T:num ic:num off:bool", "diode.diode_model"),
 "mosq.mosq_device": ("m", "nd ng ns nb W:num L:num model:model", "M:num N:num", "mosq.mosq_mos_model"),
 "ekv.ekv_device": ("m", "nd ng ns nb W:num L:num model:model", "M:num N:num", "ekv.ekv_mos_model"),
 "switch.switch_device": ("s", "n1 n2 sn1 sn2 model:model", "", "switch.vswitch_model"),
}
SOURCES = {"components.sources.VSource.VSource": ("v", "voltage"), "components.sources.ISource.ISource": ("i", "current")}
# run-time state, caches and derived containers: not part of what a netlist line says
STATE = {"opdict", "coupling_devices", "last_vd", "dc_guess", "mckey", "mc_enabled", "is_on"}
FUNCTIONS = {"pulse": "v1 v2 td tr pw tf per", "sin": "vo va freq td theta phi", "exp": "v1 v2 td1 tau1 td2 tau2", "sffm": "vo va fc mdi fs td", "am": "sa fc fm oc td"}
INFINITE = {("exp", "td2"), ("exp", "tau2")}

def run(c, prog):
    c.rule("element line", "the line an element prints, read by the parser of its letter, gives an element of the same class with the same nodes and the same values of every parameter", 60)
    c.rule("waveform line", "a source with a time function prints a line from which the parser rebuilds the same time function", 16)
    c.rule("circuit", "printing a circuit gives each element's own line, with the circuit's node names", 3)
    for k in sorted(ELEMENTS): c.guard(k, element, c, prog, k)
    c.guard("coupling", coupling, c, prog)
    for k in sorted(SOURCES):
        c.guard(k, source, c, prog, k)
        for f in sorted(time_functions(prog)): c.guard("%s %s" % (k, f), waveform, c, prog, k, f)
    c.guard("circuit", whole, c, prog)

def time_functions(prog):
    """the waveform classes of the time function module"""
    m = prog.modules["ahkab.time_functions"]
    return {k.name: k for k in prog.classes.values() if k.module is m and prog.find_method(k, "__call__") is not None}

# ---------------------------------------------------------------------------------- text <-> value
LOSSY = re.compile(r"[-#0 +]*[0-9]*(?:\.([0-9]+))?([a-zA-Z])$")
def text(ip, spec, x):
    """the text of a value: numbers become tokens that the parser's number conversion maps back"""
    if isinstance(x, str): return x
    if x is None or isinstance(x, bool): return str(x)
    m = LOSSY.match(spec or "s")
    if m is None: raise Unsupported("format %s" % spec)
    prec, conv = (int(m.group(1)) if m.group(1) else None), m.group(2)
    if isinstance(x, Obj):
        if x.cls is not None and conv in "sr":
            f = ip.prog.find_method(x.cls, "__str__")
            if f is not None: return ip.call_function(f, [], self_=x)
        return "<%s>" % x.name
    if not isinstance(x, Poly): return "<value>"
    if x == sym("inf") or "nonfinite" in repr(x): return "inf"
    if not hasattr(ip, "toks"): ip.toks = {}
    k = x.const()
    ok = conv in "sr" or (conv in "gG" and (prec is None or prec >= 6)) or (conv in "eE" and (prec is None or prec >= 5))
    if k is not None and not ok and conv in "di" and k.denominator == 1: ok = True
    if not ok: x = atom("rounded", spec, tokey(x))
    for t, v in ip.toks.items():
        if v == x: return t
    t = "%dq" % (7000 + len(ip.toks))
    ip.toks[t] = x
    return t

def number(ip, args, kw, n):
    x = args[0] if args else list(kw.values())[0]
    if not isinstance(x, str): return x
    if x in getattr(ip, "toks", {}): return ip.toks[x]
    try: return P(float(x)) if x.lower() not in ("inf", "nan", "-inf", "+inf", "infinity") else (_ for _ in ()).throw(ValueError())
    except ValueError: pass
    raise RaiseSig("NetlistParseError" if not x else "ValueError", ip.where(n), "not a number: %s" % x)

def magnitude(ip, args, kw, n, name=None):
    x = args[0]
    if isinstance(x, Poly):
        f, _ = split(x)
        return f
    return x
def angle(ip, args, kw, n, name=None):
    x = args[0]
    return split(x)[1] if isinstance(x, Poly) else num(0)
def split(x):
    """(magnitude, phase) of a monomial with phasor factors; given magnitudes are not negative"""
    if len(x.t) == 1:
        (m, k), = x.t.items()
        mag, ph = num(k), num(0)
        for a, e in m:
            if a[0] == "phasor":
                ph = ph + a[1] * num(e)
            elif a[0] == "polar": mag, ph = mag * a[1] ** e, ph + a[2] * num(e)
            else: mag = mag * Poly({((a, e),): 1})
        return mag, ph
    return atom("call", "abs", x), atom("call", "angle", x)
def cexp(ip, args, kw, n, name=None):
    x = args[0]
    j = sym("j")
    for unit in (P(1j), j):
        q = term(x) / unit
        if not any(a == unit.atom() for a in T.atoms(q)): return atom("phasor", q)
    return T.exp(term(x))

SUMM = {"netlist_parser.convert_units": number, "numpy.abs": magnitude, "numpy.absolute": magnitude, "numpy.angle": angle, "cmath.exp": cexp, "numpy.exp": cexp,
        "cmath.rect": lambda ip, a, kw, n, name=None: term(a[0]) * atom("phasor", term(a[1])), "cmath.phase": angle,
        "math.isinf": lambda ip, a, kw, n, name=None: isinstance(a[0], Poly) and (a[0] == sym("inf") or "nonfinite" in repr(a[0])),
        "numpy.isinf": lambda ip, a, kw, n, name=None: isinstance(a[0], Poly) and (a[0] == sym("inf") or "nonfinite" in repr(a[0])),
        "numpy.isfinite": lambda ip, a, kw, n, name=None: not (isinstance(a[0], Poly) and (a[0] == sym("inf") or "nonfinite" in repr(a[0])))}
def runs_of(prog, fn, limit=48): return go(prog, fn, limit, summaries=SUMM, options={"text": text, "decide": decide})

def decide(key):
    """an AC excitation that is given is not zero"""
    if key[0] in ("eq0", "nonzero") and isinstance(key[1], Poly):
        a = key[1].atom()
        if key[1] == sym("p_mag") or (a and a[0] == "polar") or (len(key[1].t) == 1 and any(x[0] in ("phasor", "polar") for m in key[1].t for x, e in m)): return key[0] == "nonzero"
    return None

def nodes_dict(names):
    d = PDict()
    for n in names:
        d.items[tokey(atom("node", n))] = n; d.keyvals[tokey(atom("node", n))] = atom("node", n)
        d.items[n] = atom("node", n); d.keyvals[n] = n
    return d

def field(name, kind, models):
    if kind == "node": return atom("node", "n" + name)
    if kind == "num": return sym("p_" + name)
    if kind == "bool": return True
    if kind == "name": return "vctrl"
    if kind == "model": return models["mylabel"]

def spec(txt):
    out = []
    for t in txt.split():
        k, _, kind = t.partition(":")
        out.append((k, kind or "node"))
    return out

# ---------------------------------------------------------------------------------- comparison
def zeros(r):
    """what the path assumes to be zero"""
    out = {}
    for key, v in r.trace:
        if ((key[0] == "eq0" and v) or (key[0] == "nonzero" and not v)) and isinstance(key[1], Poly) and key[1].atom(): out[key[1].atom()] = num(0)
    return out

def differences(a, b, path="", depth=0, z={}):
    """attributes in which two elements differ"""
    out = []
    for k in sorted(a.attrs):
        if k in STATE: continue
        x = a.attrs[k]
        p = path + k
        if k not in b.attrs: out.append((p, show(x), "nothing")); continue
        y = b.attrs[k]
        if k in ("part_id", "source_id", "L1", "L2") and isinstance(x, str) and isinstance(y, str):
            if x.lower() != y.lower(): out.append((p, x, y))
        elif isinstance(x, Obj) and isinstance(y, Obj) and x is not y and samecls(x, y) and not x.opaque and depth < 3: out += differences(x, y, p + ".", depth + 1, z)
        elif isinstance(x, (Poly, str, bool, Obj)) or x is None:
            if x is None and isinstance(y, Poly) and y.is_zero(): continue
            if z and isinstance(x, Poly) and isinstance(y, Poly): x, y = (T.subst(q, lambda a: z.get(a)) for q in (x, y))
            if not same(x, y): out.append((p, show(x), show(y)))
        elif isinstance(x, tuple):
            if tokey(x) != tokey(y): out.append((p, show(x), show(y)))
    return out

def samecls(a, b):
    """(classes defined within a function are new at each call)"""
    return a.cls is b.cls or (a.cls is not None and b.cls is not None and a.cls.where == b.cls.where)

def made(v):
    if isinstance(v, PList) and not v.per and v.items: return v.items
    return []

def zero_given(r):
    for key, v in r.trace:
        if key[0] == "eq0" and v and isinstance(key[1], Poly) and key[1].atom() and key[1].atom()[0] == "sym" and key[1].atom()[1].startswith("p_"): return key[1].atom()[1][2:]
    return None

def roundtrip(c, rule, what, prog, build, names, elements=None, models=None, where=None):
    """build(ip) -> element; the line it prints is parsed again"""
    def fn(ip):
        ms = {k: model_obj(prog, "model:" + v, k) for k, v in (models or {}).items()}
        ip.stage = "construction"
        e = build(ip, ms)
        ip.first = e
        ip.stage = "printing"
        m = prog.find_method(e.cls, "get_netlist_elem_line")
        if m is None: raise RaiseSig("AttributeError", "", "get_netlist_elem_line")
        line = ip.call_function(m, [nodes_dict(names)], self_=e)
        ip.line = line
        if not isinstance(line, str): raise Unsupported("the line is not a text: %s" % show(line))
        ip.stage = "parsing"
        return dispatch_in(prog, ip, line.strip().lower(), ms, elements)
    n = 0
    for r in runs_of(prog, fn):
        c.analysed(*r.ip.inlined)
        stage = getattr(r.ip, "stage", "construction")
        if r.outcome == "raise" and stage == "construction": continue
        tag = what
        z = zero_given(r)
        if r.outcome == "unsupported": c.undecided(rule, tag, r.error); continue
        n += 1
        if r.outcome == "raise":
            if z == "value" and stage == "parsing" and what.startswith("Resistor"): continue
            c.fail(rule, "%s: readable" % tag, "%s the line %s ends in %s" % (stage, pretty(r), r.error), where or ""); continue
        es = made(r.value)
        if not c.check(len(es) == 1, rule, "%s: one element" % tag, "the line %s gives %d elements" % (pretty(r), len(es)), where or ""): continue
        e, f = r.ip.first, es[0]
        if not c.check(isinstance(f, Obj) and samecls(f, e), rule, "%s: same class" % tag, "the line %s gives a %s" % (pretty(r), f.cls.name if isinstance(f, Obj) and f.cls is not None else show(f)), where or ""): continue
        ds = differences(e, f, z=zeros(r))
        for p, x, y in ds: c.fail(rule, "%s: %s" % (tag, p), "the line %s gives %s, the element has %s" % (pretty(r), y, x), where or "")
        if not ds: c.check(True, rule, tag, "", where or "")
    if not n: c.undecided(rule, what, "no path prints a line")

def pretty(r):
    line = getattr(r.ip, "line", None)
    if not isinstance(line, str): return repr(line)
    for t, v in getattr(r.ip, "toks", {}).items(): line = line.replace(t, "<" + show(v).replace("p_", "") + ">")
    return '"%s"' % line.strip()

def dispatch_in(prog, ip, line, models, elements):
    if elements is None: return dispatch(prog, ip, line, models)
    fi = prog.func("netlist_parser.parse_elem_inductor_coupling")
    return ip.call_function(fi, [line, parsing.circ(prog, ip, elements(ip)), ip.new_list(list(elements(ip)), N)])

# ---------------------------------------------------------------------------------- the elements
def element(c, prog, name):
    letter, req, opt, mk = ELEMENTS[name]
    ci = prog.cls(name)
    line = prog.find_method(ci, "get_netlist_elem_line")
    where = line.where if line is not None else ""
    opts = spec(opt)
    for k in range(len(opts) + 1):
        for sub in itertools.combinations(opts, k):
            args = spec(req) + list(sub)
            names = ["n" + a for a, kind in args if kind == "node"]
            def build(ip, ms):
                kw = {a: field(a, kind, ms) for a, kind in args}
                kw["part_id"] = letter + "part"
                return ip.instantiate(ci, [], kw, N)
            roundtrip(c, "element line", "%s%s" % (name.split(".")[-1], "".join(" with " + a for a, _ in sub)), prog, build, names, None, {"mylabel": mk} if mk else None, where)

def coupling(c, prog):
    ci = prog.cls("components.Inductor.InductorCoupling")
    L = prog.cls("components.Inductor.Inductor")
    def coils(ip):
        if not hasattr(ip, "coils"):
            ip.coils = [Obj(L, x, {"part_id": x, "value": sym("V" + x), "coupling_devices": ip.new_list([], N)}, opaque=True) for x in ("la", "lb")]
        return ip.coils
    where = prog.find_method(ci, "get_netlist_elem_line").where
    for x, y in (("la", "lb"), ("lb", "la")):
        def build(ip, ms):
            M = (sym("Vla") * sym("Vlb")) ** Fraction(1, 2) * sym("p_K")
            return ip.instantiate(ci, [], {"part_id": "kpart", "L1": x, "L2": y, "K": sym("p_K"), "M": M}, N)
        roundtrip(c, "element line", "InductorCoupling %s-%s" % (x, y), prog, build, [], coils, None, where)

def source_args(letter, dc, ac, phase):
    kw = {"part_id": letter + "part", "n1": atom("node", "nn1"), "n2": atom("node", "nn2"), "dc_value": sym("p_dc") if dc else None}
    if ac: kw["ac_value"] = atom("polar", sym("p_mag"), sym("p_arg")) if phase else sym("p_mag")
    return kw

def source(c, prog, name):
    letter, _ = SOURCES[name]
    ci = prog.cls(name)
    where = prog.find_method(ci, "get_netlist_elem_line").where
    for ac, phase in ((False, False), (True, False), (True, True)):
        def build(ip, ms): return ip.instantiate(ci, [], source_args(letter, True, ac, phase), N)
        roundtrip(c, "element line", "%s dc%s%s" % (name.split(".")[-1], " ac" * ac, " with phase" * phase), prog, build, ["nn1", "nn2"], None, None, where)

def waveform(c, prog, name, f):
    letter, stype = SOURCES[name]
    ci, fc = prog.cls(name), time_functions(prog)[f]
    line = prog.find_method(fc, "__str__")
    where = line.where if line is not None else ""
    if f in FUNCTIONS: params = FUNCTIONS[f].split()
    else: params = []
    inf = [p for p in params if (f, p) in INFINITE]
    for dc, ac in ((True, True), (False, False), (True, False), (False, True)):
        for infinite in [()] + ([tuple(inf)] + [(p,) for p in inf] if inf else []):
            for T_ in ("V", "I") if letter == "i" else ("V",):
                def build(ip, ms):
                    if f == "pwl":
                        pts = lambda s: (num(0), sym("p_%s1" % s), sym("p_%s2" % s))
                        t = ip.instantiate(fc, [], {"x": pts("x"), "y": pts("y")}, N)
                    else: t = ip.instantiate(fc, [], {p: sym("nonfinite") if p in infinite else sym("p_" + p) for p in params}, N)
                    t.attrs["_type"] = T_
                    e = ip.instantiate(ci, [], source_args(letter, dc, ac, True), N)
                    e.attrs["is_timedependent"] = True
                    e.attrs["_time_function"] = t
                    ip.wave = t
                    return e
                what = "%s %s%s%s%s%s" % (name.split(".")[-1], f, " dc" * dc, " ac" * ac, "".join(" infinite " + p for p in infinite), " (voltage labels)" if letter == "i" and T_ == "V" else "")
                if f == "pwl": what = "%s pwl" % name.split(".")[-1]
                roundtrip_wave(c, what, prog, build, where)

def roundtrip_wave(c, what, prog, build, where):
    # the _type of the waveform only selects the labels
    STATE.add("_type")
    try: roundtrip(c, "waveform line", what, prog, build, ["nn1", "nn2"], None, None, where)
    finally: STATE.discard("_type")

# ---------------------------------------------------------------------------------- the circuit
def whole(c, prog):
    fi = prog.func("circuit.Circuit.__str__")
    def fn(ip):
        R, V = prog.cls("components.Resistor.Resistor"), prog.cls("components.sources.EVSource.EVSource")
        a = ip.instantiate(R, [], {"part_id": "rpart", "n1": atom("node", "na"), "n2": atom("node", "nb"), "value": sym("p_r")}, N)
        b = ip.instantiate(V, [], {"part_id": "epart", "n1": atom("node", "nb"), "n2": atom("node", "na"), "sn1": atom("node", "na"), "sn2": atom("node", "nb"), "value": sym("p_e")}, N)
        cc = parsing.circ(prog, ip, [a, b], title="Some title", nodes_dict=nodes_dict(["na", "nb"]))
        ip.lines = [ip.call_function(prog.find_method(x.cls, "get_netlist_elem_line"), [nodes_dict(["na", "nb"])], self_=x) for x in (a, b)]
        return ip.call_function(fi, [], self_=cc)
    for r in runs_of(prog, fn):
        c.analysed(*r.ip.inlined)
        if r.outcome != "return" or not isinstance(r.value, str): c.undecided("circuit", "printing", r.error or show(r.value)); continue
        got = [l.strip() for l in r.value.split("\n") if l.strip()]
        c.check(got and got[0].startswith("*") or (got and got[0] not in [l.strip() for l in r.ip.lines] and not got[0].startswith(".")), "circuit", "title line", "the first line is %s" % (got or [""])[0], fi.where)
        body = [l for l in got[1:] if not l.startswith("*") and l.lower() != ".end"]
        for l, k in zip(r.ip.lines, ("resistor", "vcvs")):
            c.check(body.count(l.strip()) == 1, "circuit", "the line of the %s" % k, "is printed %d times" % body.count(l.strip()), fi.where)
        c.check(len(body) == len(r.ip.lines), "circuit", "nothing else", "%d lines for %d elements" % (len(body), len(r.ip.lines)), fi.where)
