"""Symbolic evaluation of the built-in non-linear devices: every path of every evaluation method."""
from . import terms as T
from .interp import *
from .program import AnalysisBroken
from .terms import sym, atom, num, Poly

def _flat(x):
    if isinstance(x, tuple): return [z for y in x for z in _flat(y)]
    return [x]

def newton(ip, args, kw, n):
    """a root finder: the result depends on the equation, not on where the search starts"""
    f = args[0]
    rest = [a for i, a in enumerate(args) if i >= 2] + [v for k, v in sorted(kw.items()) if k in ("args",)]
    name = f.fi.qualname if isinstance(f, FuncVal) else repr(f)
    who = f.self_.name if isinstance(f, FuncVal) and isinstance(f.self_, Obj) else ""
    ip.events.append(("newton", name, tokey(args[1]) if len(args) > 1 else None))
    return atom("root", name, who, *[tokey(a) for a in rest])

class Device(object):
    def __init__(self, prog, elem, model, mattr, free=("device",)):
        self.prog, self.ci, self.mi, self.mattr = prog, prog.cls(elem), prog.cls(model), mattr
    def objects(self):
        m = Obj(self.mi, "model", {}, opaque=True)
        d = Obj(None, "dev", {}, opaque=True)
        e = Obj(self.ci, "elem", {"device": d, self.mattr: m, "model": m}, opaque=True)
        if self.mattr != "model": del e.attrs["model"]
        return e, d, m

def options_of(positive=(), **k):
    o = {"notnone": lambda a: True, "lenient_dict": True, "copy_obj": True, "split_max": True}
    o.update(k)
    return o

def runs(prog, dev, call, positive=(), limit=400, facts=None, summaries=None, prep=None, truncate=False):
    """call(ip, elem, dev, model) -> value"""
    keep = {}
    def make(script):
        s = {"scipy.optimize.newton": newton, "math.isnan": lambda ip, a, kw, n: ip.ask(("isnan", tokey(a[0]))),
             "math.isinf": lambda ip, a, kw, n: ip.ask(("isinf", tokey(a[0])))}
        s.update(summaries or {})
        ip = Interp(prog, script, phase=1, victims=[], positive=set(positive), opts=options_of(), facts=dict(facts or {}), summaries=s)
        return ip
    def go(ip):
        e, d, m = dev.objects()
        ip.devs = (e, d, m)
        if prep: prep(ip, e, d, m)
        return call(ip, e, d, m)
    return explore(make, go, limit, truncate)
