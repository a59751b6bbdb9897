"""C25: every element honours the interface the analyses rely on; no undefined names."""
import ast, itertools
from .. import program, terms as T, names, iface, calls, elements, devices
from ..interp import *
from ..program import AnalysisBroken, ClassInfo
from ..terms import Poly, num, sym, atom

SKIP = ("py3compat",)          # the place where names of both Python versions are looked up
TESTS = ("testing",)
LETTERS = {"Resistor": "r", "Capacitor": "c", "Inductor": "l", "InductorCoupling": "k", "VSource": "v", "ISource": "i", "EVSource": "e", "GISource": "g",
           "HVSource": "h", "FISource": "f", "diode": "d", "mosq_device": "m", "ekv_device": "m", "switch_device": "s", "TunnelJunction": "t"}
MODEL = {"diode": "diode.diode_model", "mosq_device": "mosq.mosq_mos_model", "ekv_device": "ekv.ekv_mos_model", "switch_device": "switch.vswitch_model",
         "TunnelJunction": "components.TunnelJunction.TunnelJunctionModel"}

def run(c, prog):
    c.rule("names", "every name that is read is defined: names in scopes, attributes of modules, classes and instances of known class", 2500)
    c.rule("calls", "calls of the package's functions and classes fit their parameters", 400)
    c.rule("interface", "every attribute and method used on elements exists, with fitting parameters, in each class that reaches the use", 600)
    c.rule("ports", "output and driving ports are pairs of the element's own nodes", 50)
    c.rule("guess", "starting guesses: none, or one value per port", 40)
    c.rule("initial", "initial conditions are stored as given", 20)
    c.rule("report", "operating point information has as many names as values", 10)
    c.guard("names", scopes, c, prog)
    c.guard("references", refs, c, prog)
    c.guard("interface", uses, c, prog)
    c.guard("shapes", shapes, c, prog)

# ---------------------------------------------------------------- names
def endless(prog):
    """names of the package's functions that always end in an exception or in leaving the program"""
    leave = {"sys.exit", "os._exit", "os.abort", "exit", "quit"}
    out = set()
    def stops(body):
        for s in body:
            if isinstance(s, ast.Raise): return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                d = program.dotted(s.value.func) or ""
                if d in leave or d.split(".")[-1] in out: return True
            if isinstance(s, ast.If) and s.orelse and stops(s.body) and stops(s.orelse): return True
            if isinstance(s, ast.With) and stops(s.body): return True
            if any(isinstance(x, (ast.Return, ast.Yield)) for x in ast.walk(s)): return False
        return False
    by = {}
    for f in prog.functions.values(): by.setdefault(f.node.name, []).append(f)
    while True:
        new = {n for n, fs in by.items() if n not in out and all(stops(f.node.body) for f in fs)}
        if not new: return leave, out
        out |= new

def scopes(c, prog):
    leave, quits = endless(prog)
    for m in prog.modules.values():
        if m.name.split(".")[-1] in SKIP: continue
        seen, bad = [0], []
        names.Reads(prog, m, lambda k, w, n, l: bad.append((k, w or "module level", n, l)), seen).module()
        for k, w, n, l in bad:
            why = "is not defined" if k == "name" else "only exists in Python 2"
            c.fail("names", "%s.%s: %s" % (m.name, w, n), "the name %s read in %s %s" % (n, w, why), "%s:%d" % (m.rel, l))
        for i in range(seen[0] - len(bad)): c.ok("names", m.name)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out = []
                f = names.Flow(n, lambda x, l: out.append((x, l)))
                f.run()
                for x, l in out: c.fail("names", "%s.%s: %s" % (m.name, n.name, x), "the local %s of %s is read where nothing has bound it" % (x, n.name), "%s:%d" % (m.rel, l))
                more = set()
                never = lambda call: (program.dotted(call.func) or "") in leave or (program.dotted(call.func) or "").split(".")[-1] in quits
                if not names.Worlds(n, lambda x, l: more.add((x, l)), never).run(): c.undecided("names", "%s.%s" % (m.name, n.name), "too many paths"); continue
                c.ok("names", "paths of %s" % n.name)
                for x, l in sorted(more - set(out), key=lambda q: q[1]):
                    if any(x == y for y, _ in out): continue
                    c.fail("names", "%s.%s: %s" % (m.name, n.name, x), "the local %s of %s is read on a path on which nothing has bound it" % (x, n.name), "%s:%d" % (m.rel, l))
    for f in prog.functions.values(): c.analysed(f)

def refs(c, prog):
    sh = {}
    bad = []
    R = calls.Refs(prog, lambda *a: bad.append(a + (R.m.rel,)), sh)
    for m in prog.modules.values():
        if m.name.split(".")[-1] in SKIP + TESTS: continue
        R.module(m)
    subs = {}
    for k in prog.classes.values():
        for b in prog.mro(k)[1:]: subs.setdefault(b, set()).add(k)
    n = 0
    for k in prog.classes.values():
        if k.module.name.split(".")[-1] in SKIP + TESTS: continue
        n += calls.self_uses(prog, k, sh, lambda r, what, where, why, rel, l: bad.append((r, what, where, why, l, rel)), subs)
    for rule, what, where, why, line, rel in bad: c.fail(rule, "%s: %s" % (where, what), "%s, used in %s" % (why, where), "%s:%d" % (rel, line))
    nb = {r: sum(b[0] == r for b in bad) for r in ("names", "calls")}
    for i in range(R.n["module"] + R.n["instance"] + n - nb["names"]): c.ok("names", "attribute")
    for i in range(R.n["call"] - nb["calls"]): c.ok("calls", "call")
    uni = calls.universe(prog)
    if uni is None: c.undecided("names", "attributes of other values", "the interpreter of the package is not there to be asked")
    else:
        for a, us in sorted(R.some.items()):
            for w, rel, l, text in us:
                if a in uni or w.split(".")[0] == "plotting": c.ok("names", "attribute of some value"); continue   # figures are not among the known objects
                c.fail("names", "%s: .%s" % (w, a), "%s: nothing in the package or the libraries it uses has an attribute %s" % (text, a), "%s:%d" % (rel, l))
    x = calls.externals(R.ext)
    if x is None: c.undecided("names", "installed libraries", "the interpreter of the package is not there to be asked"); return
    for q, v in sorted(x.items()):
        w, rel, l = R.ext[q]
        if v is True: c.ok("names", q)
        elif v is False: c.fail("names", "%s: %s" % (w, q), "%s does not exist in the installed library" % q, "%s:%d" % (rel, l))
        else: c.undecided("names", q, "cannot be looked up")

# ---------------------------------------------------------------- uses of elements
def classes(prog):
    return [prog.cls(s.qual) for s in elements.SPECS]

def uses(c, prog):
    cl = classes(prog)
    seen = {}
    def report(kind, cls, attr, fn, why, where): seen.setdefault((kind, cls, attr, fn, why), where)
    u = iface.Uses(prog, cl, report)
    u.letters = {k: {v} for k, v in LETTERS.items()}
    for f in list(prog.functions.values()): u.function(f)
    for (kind, cls, attr, fn, why), where in seen.items():
        c.fail("interface", "%s: %s.%s" % (fn, cls, attr), "%s uses %s of %s elements, which %s" % (fn, attr, cls, why), where)
    for i in range(u.n - len(seen)): c.ok("interface", "use")
    c.analysed(*u.visited)

# ---------------------------------------------------------------- shapes
def options_of(init):
    """what an optional argument may be given: None stands for leaving it out"""
    out = {}
    for p, d in init.defaults().items():
        if p in ("self",): continue
        if isinstance(d, ast.Constant) and isinstance(d.value, bool): out[p] = [None, True, False]
        elif p == "ic": out[p] = [None, sym("ic"), num(0)]
        else: out[p] = [None, sym("opt:" + p)]
    return out

def seq(v):
    if isinstance(v, tuple): return list(v)
    if isinstance(v, PList) and v.length is None and not v.per: return list(v.items)
    if isinstance(v, PList): return list(v.items)
    return None

def pairs(v, nodes):
    """why a value is not a sequence of pairs of the element's nodes"""
    s = seq(v)
    if s is None: return "is %s, not a sequence of ports" % show(v)
    for p in s:
        q = seq(p)
        if q is None or len(q) != 2: return "holds %s, which is not a pair of nodes" % show(p)
        for n in q:
            if not isinstance(n, Poly) or not any(T.equal(n, m) for m in nodes): return "holds the port %s, %s is not a node of the element" % (show(p), show(n))
    return None

def show(v):
    if isinstance(v, Poly): return T.show(v).replace("node:", "")
    if isinstance(v, tuple): return "(" + ", ".join(show(x) for x in v) + ")"
    if isinstance(v, PList): return "[" + ", ".join(show(x) for x in v.items) + "]"
    return str(v)

POS = elements.POSITIVE | {("sym", x) for x in ("value", "alpha", "W", "L")}

def build(prog, spec, ci, init, kw, then, limit=300):
    def make(script):
        return Interp(prog, script, phase=1, victims=[], positive=POS, opts={"distinct": elements.DISTINCT, "lenient_dict": True, "copy_obj": True, "split_max": True,
                      "notnone": lambda a: True}, summaries={"math.isnan": lambda ip, a, k, n: ip.ask(("isnan", tokey(a[0]))), "math.isinf": lambda ip, a, k, n: ip.ask(("isinf", tokey(a[0]))),
                      "scipy.optimize.newton": devices.newton})
    def go(ip):
        x = Obj(ci, "elem")
        k = dict(kw)
        if spec.name in MODEL and "model" in k: k["model"] = Obj(prog.cls(MODEL[spec.name]), "model", {}, opaque=True)
        ip.call_function(init, [], k, self_=x)
        ip.built = True
        return then(ip, x)
    return explore(make, go, limit, True)

BAD = ("AttributeError", "IndexError", "TypeError", "KeyError", "NameError", "UnboundLocalError")
def wrong(r):
    """an outcome that shows the element and its user disagree about shapes"""
    return r.outcome == "raise" and (r.error.name in BAD or "unpack" in str(r.error))

def shapes(c, prog):
    for spec in elements.SPECS:
        c.guard("shapes of " + spec.name, shape_of, c, prog, spec)

def shape_of(c, prog, spec):
    ci = prog.cls(spec.qual)
    init = prog.find_method(ci, "__init__")
    if init is None: raise AnalysisBroken("%s has no __init__" % spec.qual)
    c.analysed(init)
    name = spec.name
    opt = options_of(init)
    base = {}
    nodes = {t: elements.node_sym(i) for i, t in enumerate(spec.terminals)}
    for p in init.params()[1:]:
        if p in nodes: base[p] = nodes[p]
        elif p in spec.params: base[p] = spec.params[p]
        elif p == "part_id": base[p] = elements.ID
        elif p == "model": base[p] = Obj(None, "model", opaque=True)
        elif p not in opt: base[p] = sym("param:" + p)
    for t in spec.terminals:
        if t not in init.params(): raise AnalysisBroken("%s has no parameter %s" % (spec.qual, t))
    ps = [p for p in opt if p not in base]
    sets = [opt[p] for p in ps]
    combos = list(itertools.product(*sets)) if len(ps) <= 6 else [tuple(None for _ in ps)] + [tuple(v if q == p else None for q in ps) for p in ps for v in opt[p] if v is not None]
    # a required value may also be left open as None where the class allows for it
    extra = [{}]
    if spec.name in ("VSource", "ISource"): extra.append({"dc_value": None})
    mine = list(nodes.values())
    for combo in combos:
        for e in extra:
            kw = dict(base)
            kw.update({p: v for p, v in zip(ps, combo) if v is not None})
            kw.update(e)
            label = ", ".join("%s%s" % (p, "" if isinstance(v, Poly) and v.const() is None else "=%s" % show(v)) for p, v in list(zip(ps, combo)) + list(e.items()) if v is not None or p in e) or "no options"
            one(c, prog, spec, ci, init, kw, label, mine, LETTERS[spec.name] != "m" or label == "no options")

def one(c, prog, spec, ci, init, kw, label, mine, report):
    name = spec.name
    def then(ip, x):
        out = {"attrs": dict(x.attrs), "absent": set(x.absent)}
        out["nonlinear"] = x.attrs.get("is_nonlinear")
        out["out"] = out["drive"] = None
        m = prog.find_method(ci, "get_output_ports")
        if m is not None:
            out["out"] = ip.call_function(m, [], {}, self_=x)
            d = prog.find_method(ci, "get_drive_ports")
            s = seq(out["out"])
            if d is not None and s is not None: out["drive"] = [ip.call_function(d, [num(k)], {}, self_=x) for k in range(len(s))]
        return out
    for r in build(prog, spec, ci, init, kw, then):
        if r.outcome == "unsupported": c.undecided("ports", "%s(%s)" % (name, label), r.error); continue
        if wrong(r) or (r.outcome == "raise" and getattr(r.ip, "built", False)):
            c.fail("ports", "%s: %s" % (name, r.error.name), "building a %s with %s, or asking it for its ports, ends in %s" % (name, label, r.error), init.where); continue
        if r.outcome != "return": continue
        o = r.value
        a = o["attrs"]
        nl = o["nonlinear"]
        if nl not in (True, False):
            c.fail("ports", "%s: is_nonlinear" % name, "%s(%s) has is_nonlinear %s" % (name, label, show(nl)), init.where); continue
        nport = None
        if nl:
            why = pairs(a.get("ports"), mine) if "ports" in a else "is missing"
            c.check(not why, "ports", "%s.ports" % name, "%s(%s): ports %s" % (name, label, why), init.where)
            nport = len(seq(a["ports"])) if not why else None
            if not why and nport == 0: c.fail("ports", "%s.ports" % name, "%s(%s) has no ports" % (name, label), init.where)
            why = pairs(o["out"], mine)
            if not why and not seq(o["out"]): why = "is empty: the element would not enter the equations"
            c.check(not why, "ports", "%s.get_output_ports" % name, "%s(%s): get_output_ports() %s" % (name, label, why), init.where)
            for k, d in enumerate(o["drive"] or []):
                why = pairs(d, mine)
                if not why and not seq(d): why = "is empty"
                c.check(not why, "ports", "%s.get_drive_ports" % name, "%s(%s): get_drive_ports(%d) %s" % (name, label, k, why), init.where)
        elif spec.terminals:
            for t in ("n1", "n2"):
                c.check(isinstance(a.get(t), Poly) and any(T.equal(a[t], m) for m in mine), "ports", "%s.%s" % (name, t), "%s(%s): %s is %s, not a node of the element" % (name, label, t, show(a.get(t))), init.where)
        if "dc_guess" in a and a["dc_guess"] is not None:
            s = seq(a["dc_guess"])
            want = nport if nl else 1
            if isinstance(a["dc_guess"], Poly) and s is None: why = "is the number %s, users index it by port" % show(a["dc_guess"])
            elif s is None: why = "is %s" % show(a["dc_guess"])
            elif want is not None and len(s) != want: why = "has %d values for %d ports" % (len(s), want)
            else:
                why = next(("holds %s" % show(v) for v in s if not isinstance(v, Poly)), None)
            c.check(not why, "guess", "%s.dc_guess" % name, "%s(%s): dc_guess %s" % (name, label, why), init.where)
        else: c.ok("guess", "%s: none" % name)
        if "ic" in init.params() and not isinstance(kw.get("ic"), bool) and (name != "switch_device"):
            given = kw.get("ic")
            have = a.get("ic")
            if given is None:
                good = have is None or (kw.get("off") is True and isinstance(have, Poly) and have.is_zero())
                c.check(good, "initial", "%s.ic" % name, "%s(%s): no initial condition is given, %s is stored" % (name, label, show(have)), init.where)
            else: c.check(isinstance(have, Poly) and T.equal(have, given), "initial", "%s.ic" % name, "%s(%s): the initial condition %s is stored as %s" % (name, label, show(given), show(have)), init.where)
        if name == "switch_device" and "ic" in init.params():
            pass
    # report with vectors of the lengths the ports announce
    if report: evaluate(c, prog, spec, ci, init, kw, label)

def evaluate(c, prog, spec, ci, init, kw, label):
    name = spec.name
    info = prog.find_method(ci, "get_op_info")
    def vectors(ip, x):
        nl = x.attrs.get("is_nonlinear")
        if nl:
            outs = seq(ip.call_function(prog.find_method(ci, "get_output_ports"), [], {}, self_=x)) or []
            vs = []
            for k in range(len(outs)):
                ds = seq(ip.call_function(prog.find_method(ci, "get_drive_ports"), [num(k)], {}, self_=x)) or []
                vs.append([sym("v%d" % j) for j in range(len(ds))])
            return vs
        return [[sym("v0")]]
    def plist(v): return PList(list(v), "v")
    if info is not None:
        def then(ip, x):
            vs = vectors(ip, x)
            args = [PList([plist(v) for v in vs], "ports_v")] if x.attrs.get("is_nonlinear") else [(tuple(vs[0]),)]
            if spec.vde: args.append(sym("current"))
            return ip.call_function(info, args, {}, self_=x)
        for r in build(prog, spec, ci, init, kw, then, 60):
            if r.outcome == "unsupported": c.undecided("report", "%s.get_op_info(%s)" % (name, label), r.error); continue
            if wrong(r): c.fail("report", "%s.get_op_info: %s" % (name, r.error.name), "the operating point information of %s(%s) ends in %s" % (name, label, r.error), info.where); continue
            if r.outcome != "return": continue
            v = seq(r.value)
            if v is None or len(v) != 2: c.fail("report", "%s.get_op_info" % name, "%s(%s): returns %s, not (names, values)" % (name, label, show(r.value)), info.where); continue
            h, d = seq(v[0]), seq(v[1])
            if (v[0] is None or h == []) and d is not None and d and LETTERS.get(name) == "m" and all(seq(x) is not None for x in d):
                c.check(len({len(seq(x)) for x in d}) == 1, "report", "%s.get_op_info" % name, "%s(%s): rows of %s values" % (name, label, sorted({len(seq(x)) for x in d})), info.where)
                c.analysed(info); continue
            if h is None or d is None: c.undecided("report", "%s.get_op_info(%s)" % (name, label), "names or values are not tracked: %s" % show(r.value)[:100]); continue
            c.check(matches(h, d), "report", "%s.get_op_info" % name, "%s(%s): %d names, %d values" % (name, label, len(h), len(d)), info.where)
            c.analysed(info)

def matches(h, d):
    if d and all(seq(x) is not None for x in d): return all(len(seq(x)) == len(seq(d[0])) for x in d) and (not h or not isinstance(h[0], str) or len(h) == len(seq(d[0])))
    return len(h) == len(d)
