"""Drives the netlist parser with lines made of distinguishable fields: names stay text, numbers become symbols."""
from . import terms as T
from .interp import *
from .terms import sym, atom, num, Poly

NUMERIC = "0123456789+-."

def value(tok):
    """the number a field stands for"""
    return atom("field", tok)

def to_number(ip, args, kw, n):
    x = args[0] if args else list(kw.values())[0]
    if isinstance(x, str):
        if x and x[0] in NUMERIC: return value(x)
        raise RaiseSig("NetlistParseError" if not x else "ValueError", ip.where(n), "not a number: %s" % x)
    return x

def node(ip, args, kw, n):
    x = args[-1] if args else list(kw.values())[0]
    return atom("node", x) if isinstance(x, str) else atom("node", tokey(x))

def quiet(ip, args, kw, n): return None

BASE = {"netlist_parser.convert_units": to_number, "circuit.Circuit.add_node": node, "circuit._circuit_wrapper.add_node": node,
        "printing.print_general_error": quiet, "printing.print_parse_error": quiet, "printing.print_warning": quiet}

def opts(**k):
    o = {"notnone": lambda a: True, "lenient_dict": False, "copy_obj": True, "split_max": True, "distinct": False, "unroll": 30, "modinit": True}
    o.update(k)
    return o

def not_zero(key):
    """a number given in the netlist is not zero, not negative, ... unless a test says otherwise"""
    return None

def go(prog, fn, limit=64, summaries=None, options=None, truncate=True):
    """fn(ip) -> value; every path"""
    def make(script):
        s = dict(BASE); s.update(summaries or {})
        ip = Interp(prog, script, opts=opts(**(options or {})), summaries=s, budget=200000)
        return ip
    return explore(make, fn, limit, truncate)

def circ(prog, ip, items=(), **attrs):
    a = {"__items__": ip.new_list(list(items), ast.Pass(lineno=0))}
    a.update(attrs)
    ip.start = len(list(items))
    ip.cc = Obj(prog.cls("circuit.Circuit"), "circ", a, opaque=True)
    return ip.cc

def added(ip):
    """the elements appended to the circuit"""
    return list(ip.cc.attrs["__items__"].items[ip.start:])

def nums(t):
    """names of the fields a value depends on"""
    out = set()
    def rec(x):
        if isinstance(x, Poly):
            for a in T.atoms(x): rec(a)
        elif isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == "field" and isinstance(x[1], str): out.add(x[1])
            for y in x: rec(y)
        elif isinstance(x, Obj): pass
        elif isinstance(x, PList):
            for y in x.items: rec(y)
    rec(t if not isinstance(t, (int, float)) else None)
    return out

def member(ip, o, path):
    """value of an attribute path of a constructed object"""
    n = ast.Pass(lineno=0)
    for p in path.split("."): o = ip.getattr(o, p, n)
    return o

def same(a, b):
    if isinstance(a, (str, bool)) or a is None or isinstance(b, (str, bool)) or b is None:
        if isinstance(a, bool) and isinstance(b, Poly): return b == num(int(a))
        if isinstance(b, bool) and isinstance(a, Poly): return a == num(int(b))
        return type(a) == type(b) and a == b
    if isinstance(a, Obj) or isinstance(b, Obj): return a is b
    try: return T.equal(P(a) if isinstance(a, (int, float)) else term(a), P(b) if isinstance(b, (int, float)) else term(b))
    except Exception: return tokey(a) == tokey(b)

def show(v):
    if isinstance(v, Poly): return T.show(v)
    return repr(v)
