"""Flow-sensitive value-numbering data-flow analysis of Python function bodies.

Each function is analysed over an abstract state that maps variables to value numbers
(terms.Poly) or abstract objects (arrays with a cell map, lists, instances with an attribute
map).  Calls to program functions are analysed in line.  A branch whose condition is not decided
by the state partitions the analysis on that predicate; the driver visits every class of the
partition.  Loops are summarised by their body on one generic item: variables written in a loop
are generalised at its head, and scalars that advance by a constant per item are recognised as
induction variables (see loop_info).  No part of the analysed program is executed.
"""
import ast
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, num, atom, sym
from .program import FuncInfo, ClassInfo, Module, AnalysisBroken, dotted

class Unsupported(Exception): pass
class ContinueSig(Exception): pass
class BreakSig(Exception): pass
class ReturnSig(Exception):
    def __init__(self, v): self.v = v
class RaiseSig(Exception):
    def __init__(self, name, where, value=None): self.name, self.where, self.value = name, where, value
    def __str__(self): return "%s at %s" % (self.name, self.where)
class Budget(Exception): pass

# ---------------------------------------------------------------------------- values
class Obj(object):
    """abstract instance. cls None: opaque interface object (unknown class)"""
    _n = 0
    def __init__(self, cls, name, attrs=None, opaque=False):
        self.cls, self.name, self.attrs, self.opaque = cls, name, dict(attrs or {}), opaque
        self.absent = set()
    def term(self): return atom("obj", self.name)
    def __repr__(self): return "<obj %s>" % self.name

class Circ(Obj):
    """the generic circuit"""

class EList(object):
    """comprehension over the circuit: the generic element is a member iff present"""
    def __init__(self, key, present, value, elem, depth): 
        self.key, self.present, self.value, self.elem, self.depth = key, present, value, elem, depth

class Arr(object):
    def __init__(self, name, shape, zero, kind="np"):
        self.name, self.shape, self.zero, self.kind = name, list(shape), zero, kind
        self.cells = {}
        self.log = []      # (index, value, where, loopctx)
        self.reads = []
    def term(self): return atom("arr", self.name)
    def base(self, idx): return atom("cell", self.name, *idx)
    def __repr__(self): return "<arr %s>" % self.name

class PList(object):
    def __init__(self, items=None, name=None):
        self.items = list(items or [])
        self.per = []      # (loopkey, [values]) appended by loops
        self.length = None # Poly when symbolic
        self.name = name
        self.born = 0
    def __repr__(self): return "<list %r per %r>" % (self.items, self.per)

class PDict(object):
    def __init__(self, items=None):
        self.items = dict(items or {})   # key -> value, keys hashable (tokey)
        self.keyvals = {}
        self.unknown = []                # writes with undecided keys
    def __repr__(self): return "<dict %r>" % (self.items,)

class IterVal(object):
    """an iterator over known items"""
    def __init__(self, it): self.it = it

class FuncVal(object):
    def __init__(self, fi, self_=None, env=None, node=None, module=None):
        self.fi, self.self_, self.env = fi, self_, env
    def __repr__(self): return "<fv %s>" % self.fi.qualname

class LamVal(object):
    def __init__(self, node, env, module): self.node, self.env, self.module = node, env, module

class ClassVal(object):
    def __init__(self, ci): self.ci = ci
    def __repr__(self): return "<cv %s>" % self.ci.name

class ModVal(object):
    def __init__(self, name): self.name = name
    def __repr__(self): return "<mod %s>" % self.name

class Ext(object):
    def __init__(self, name): self.name = name
    def __repr__(self): return "<ext %s>" % self.name

class RangeVal(object):
    def __init__(self, a, b, c): self.a, self.b, self.c = a, b, c

class EnumVal(object):
    def __init__(self, coll, start): self.coll, self.start = coll, start

class Mat(object):
    """array of concrete shape holding value numbers (row major)"""
    def __init__(self, shape, vals): self.shape, self.vals = tuple(shape), list(vals)
    def nest(self):
        v = tuple(self.vals)
        for n in reversed(self.shape[1:]): v = tuple(v[i:i + n] for i in range(0, len(v), n))
        return v
    def term(self): return atom("call", "array", ("tuple",) + tuple(tokey(x) for x in self.nest()))
    def rows(self):
        if len(self.shape) == 1: return list(self.vals)
        k = len(self.vals) // self.shape[0] if self.shape[0] else 0
        return [Mat(self.shape[1:], self.vals[i * k:(i + 1) * k]) for i in range(self.shape[0])]
    def __repr__(self): return "<mat %s>" % (self.nest(),)

class CmpMat(object):
    """elementwise comparison, decided element by element when it is asked for"""
    def __init__(self, shape, items): self.shape, self.items = tuple(shape), list(items)
    def all(self): return all(f() for f in self.items)
    def any(self): return any(f() for f in self.items)

def mat_of(x):
    """nested concrete sequences of numbers -> Mat, else None"""
    if isinstance(x, Mat): return x
    if isinstance(x, PList):
        if x.per or x.length is not None: return None
        x = tuple(x.items)
    if not isinstance(x, tuple): return None
    if all(isinstance(y, Poly) or isinstance(y, bool) for y in x): return Mat((len(x),), [term(y) for y in x])
    ms = [mat_of(y) for y in x]
    if any(m is None for m in ms) or len({m.shape for m in ms}) != 1: return None
    return Mat((len(ms),) + ms[0].shape, [v for m in ms for v in m.vals])

class SliceV(object):
    def __init__(self, a, b, c): self.a, self.b, self.c = a, b, c
    def key(self): return ("slice", tokey(self.a), tokey(self.b), tokey(self.c))

class BoundMeth(object):
    """method of a non-program object"""
    def __init__(self, base, name): self.base, self.name = base, name

def tokey(v):
    if isinstance(v, (Poly, str)): return v
    if v is None: return ("None",)
    if isinstance(v, bool): return ("bool", v)
    if isinstance(v, tuple): return ("tuple",) + tuple(tokey(x) for x in v)
    if isinstance(v, (Obj, Arr, Mat)): return v.term()
    if isinstance(v, PList): 
        if v.per or v.length is not None: return ("list*", tuple(tokey(x) for x in v.items), tuple((k, tuple(tokey(y) for y in vs)) for k, vs in v.per))
        return ("list",) + tuple(tokey(x) for x in v.items)
    if isinstance(v, PDict): return ("dict",) + tuple(sorted(((repr(k), tokey(x)) for k, x in v.items.items()), key=repr))
    if isinstance(v, FuncVal): return ("fn", v.fi.qualname)
    if isinstance(v, ClassVal): return ("cls", v.ci.name)
    if isinstance(v, (ModVal, Ext)): return ("ext", v.name)
    if isinstance(v, SliceV): return v.key()
    if isinstance(v, RangeVal): return ("range", tokey(v.a), tokey(v.b), tokey(v.c))
    if isinstance(v, EnumVal): return ("enum", tokey(v.coll))
    if isinstance(v, EList): return ("elist", v.key)
    if isinstance(v, LamVal): return ("lambda", id(v.node))
    if isinstance(v, BoundMeth): return ("meth", tokey(v.base), v.name)
    if isinstance(v, bytes): return ("bytes", v)
    raise Unsupported("no key for %r" % (v,))

def term(v):
    if isinstance(v, Poly): return v
    if isinstance(v, bool): return num(int(v))
    if isinstance(v, (Obj, Arr, Mat)): return v.term()
    return atom("val", tokey(v))

# modules whose functions only talk to the user
QUIET_MODULES = ("ahkab.printing", "ahkab.ticker", "ahkab.py3compat")

class Env(object):
    def __init__(self, vars, module, parent=None):
        self.v, self.module, self.parent = vars, module, parent

class Interp(object):
    def __init__(self, prog, script=(), phase=1, loop_info=None, victims=(), facts=None,
                 positive=(), opaque=(), summaries=None, max_depth=14, budget=60000, opts=None):
        self.prog, self.script, self.phase = prog, list(script), phase
        self.trace = []            # (condition key, value) in order asked
        self.asked = {}
        self.loop_info = loop_info if loop_info is not None else {}
        self.loop_rec = {}         # (loopkey, var) -> delta observed for this element class
        self.victims = list(victims)
        self.facts = dict(facts or {})
        self.positive = set(positive)   # atoms known > 0
        self.opaque = set(opaque)
        self.summaries = dict(summaries or {})
        self.handling = []               # exceptions being handled
        self.max_depth, self.budget = max_depth, budget
        self.stack = []
        self.loops = []            # active loop contexts
        self.frames = []
        self.arrays = []
        self.lists = []
        self.calls = []            # every call resolved to program functions (qualname, where)
        self.events = []           # attribute writes, raises, opaque writes
        self.n_arr = 0
        self.opts = opts or {}
        self.unknown_writes = []
        self.attr_errors = []
        self.inlined = set()
        self.elem_depth = 0
        self.loop_order = []

    # ---- facts ---------------------------------------------------------------------
    def ask(self, key):
        if key in self.facts: return self.facts[key]
        if "decide" in self.opts:
            d = self.opts["decide"](key)
            if d is not None: return d
        if len(self.trace) < len(self.script): val = self.script[len(self.trace)]
        else: val = True
        self.trace.append((key, val))
        self.facts[key] = val
        return val

    def nonzero(self, p):
        """p is known to be != 0"""
        c = p.const()
        if c is not None: return c != 0
        if len(p.t) == 1:
            (m, c), = p.t.items()
            return all(a in self.positive or a[0] in ("exp", "num") or self.facts.get(("eq0", Poly({((a, Fraction(1)),): Fraction(1)}))) is False for a, e in m)
        s = self.sign(p)
        return s in (1, -1)

    def sign(self, p):
        """1: >0, -1: <0, 0: ==0, None unknown (uses atoms known positive)"""
        c = p.const()
        if c is not None: return (c > 0) - (c < 0)
        pos = neg = False
        for m, c in p.t.items():
            if not all(a in self.positive or a[0] == "exp" or (a[0] == "num" and a[1] > 0) for a, e in m): return None
            if c > 0: pos = True
            else: neg = True
        if pos and not neg: return 1
        if neg and not pos: return -1
        return None

    def eq0(self, p):
        if p.is_zero(): return True
        if self.nonzero(p): return False
        if p.const() is not None: return False
        lead, prim = p.primitive()
        a = prim.atom()
        if a and a[0] == "len" and self.opts.get("nonempty", True): return False
        if self.opts.get("distinct") and self.distinct_diff(prim): return False
        return self.ask(("eq0", prim))

    def distinct_diff(self, p):
        """p is the difference of two values known to be distinct (node numbers, element names)"""
        if len(p.t) != 2: return False
        ms = list(p.t.items())
        if {ms[0][1], ms[1][1]} != {Fraction(1), Fraction(-1)}: return False
        out = []
        for m, c in ms:
            if len(m) != 1 or m[0][1] != 1: return False
            a = strip_case(Poly({m: Fraction(1)})).atom()
            out.append(a)
        d = self.opts["distinct"]
        return out[0] in d and out[1] in d and out[0] != out[1]

    def lt0(self, p):
        c = p.const()
        if c is not None: return c < 0
        s = self.sign(p)
        if s is not None: return s < 0
        lead, prim = p.primitive()
        # relate to the zero test when it was already decided
        if self.facts.get(("eq0", prim)) is True: return False
        if lead > 0: return self.ask(("lt0", prim))
        # p < 0  <=>  prim > 0  <=> not (prim < 0) and prim != 0
        if self.facts.get(("lt0", prim)) is True: return False
        if self.facts.get(("eq0", prim)) is False and ("lt0", prim) in self.facts: return not self.facts[("lt0", prim)]
        return self.ask(("gt0", prim)) if ("gt0", prim) in self.facts or ("lt0", prim) not in self.facts else self.ask(("gt0", prim))

    def truth(self, v, where=""):
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, Poly):
            c = v.const()
            if c is not None: return c != 0
            if self.facts.get(("isnone", v)) is True: return False
            a = v.atom()
            if a and a[0] in ("cond",): return self.ask(("truth", v))
            return not self.eq0(v)
        if isinstance(v, (str, bytes)): return len(v) > 0
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, PList):
            if v.items: return True
            if not v.per and v.length is None: return False
            return self.ask(("truth", atom("val", tokey(v))))
        if isinstance(v, PDict):
            if v.items: return True
            return False if not v.unknown else self.ask(("truth", atom("val", tokey(v))))
        if isinstance(v, EList): return True
        if isinstance(v, CmpMat):
            if len(v.items) == 1: return v.items[0]()
            raise RaiseSig("ValueError", where, "truth of an array")
        if isinstance(v, Obj):
            if v.cls is not None:
                m = self.prog.find_method(v.cls, "__len__") or self.prog.find_method(v.cls, "__bool__")
                if m: return self.ask(("truth", v.term()))
            return True
        return True

    # ---- entry ---------------------------------------------------------------------
    def call_function(self, fi, args=(), kwargs=None, self_=None, env=None):
        kwargs = dict(kwargs or {})
        node = fi.node
        if len(self.stack) > self.max_depth: raise Unsupported("depth at %s" % fi.qualname)
        if sum(1 for s in self.stack if s is fi) > 2: raise Unsupported("recursion in %s" % fi.qualname)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if self_ is not None and not any(d == "staticmethod" for d in fi.decorators):
            args = [self_] + args
        for n, v in zip(names, args): vals[n] = v
        extra = args[len(names):]
        if a.vararg: vals[a.vararg.arg] = tuple(extra)
        elif extra: raise RaiseSig("TypeError", fi.where, "too many arguments for %s" % fi.qualname)
        kwn = [x.arg for x in a.kwonlyargs]
        left = {}
        for k, v in kwargs.items():
            if k in names or k in kwn:
                if k in vals: raise RaiseSig("TypeError", fi.where, "multiple values for argument %s" % k)
                vals[k] = v
            else: left[k] = v
        if a.kwarg:
            d = PDict()
            for k, v in left.items(): d.items[k] = v
            vals[a.kwarg.arg] = d
        elif left: raise RaiseSig("TypeError", fi.where, "%s got unexpected argument %s" % (fi.qualname, ", ".join(sorted(left))))
        denv = Env({}, fi.module)
        for n, dn in fi.defaults().items():
            if n not in vals:
                vals[n] = self.ev(dn, denv)
        for n in names + kwn:
            if n not in vals: raise RaiseSig("TypeError", fi.where, "%s missing argument %s" % (fi.qualname, n))
        e = Env(vals, fi.module, env)
        self.stack.append(fi)
        self.frames.append(e)
        self.inlined.add(fi.qualname)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        try:
            if is_gen:
                if not self.opts.get("iters"): raise Unsupported("generator %s" % fi.qualname)
                return self.collect_gen(node.body, e)
            self.block(node.body, e)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.stack.pop()
            self.frames.pop()

    # ---- statements ----------------------------------------------------------------
    def where(self, node):
        m = self.frames[-1].module if self.frames else None
        return "%s:%d" % (m.rel if m else "?", getattr(node, "lineno", 0))

    def block(self, body, e):
        for s in body: self.stmt(s, e)

    def stmt(self, s, e):
        self.budget -= 1
        if self.budget <= 0: raise Budget("analysis budget exhausted at %s" % self.where(s))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported("%s at %s" % (type(s).__name__, self.where(s)))
        return m(s, e)

    def s_Pass(self, s, e): pass
    def s_Global(self, s, e):
        e.v.setdefault("__globals__", set()).update(s.names)
    def s_Nonlocal(self, s, e): pass
    def s_Expr(self, s, e):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, e)
    def s_Assert(self, s, e):
        pass
    def s_Delete(self, s, e):
        for t in s.targets:
            if isinstance(t, ast.Name): e.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, e)
                if isinstance(b, PDict):
                    b.items.pop(tokey(self.ev(t.slice, e)), None)
                elif isinstance(b, PList): b.length = b.length or atom("len*", self.fresh("del"))
    def s_Return(self, s, e):
        raise ReturnSig(self.ev(s.value, e) if s.value is not None else None)
    def s_Continue(self, s, e): raise ContinueSig()
    def s_Break(self, s, e): raise BreakSig()
    def s_Raise(self, s, e):
        name = "?"
        if s.exc is None:
            if self.handling: raise RaiseSig(*self.handling[-1])
            name = "re-raise"
        else:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = (dotted(x) or "?").split(".")[-1]
            if self.opts.get("raise_args") and isinstance(s.exc, ast.Call):      # making the message may itself fail
                for a in list(s.exc.args) + [k.value for k in s.exc.keywords]:
                    try: self.ev(a, e)
                    except Unsupported: pass
        raise RaiseSig(name, self.where(s))
    def s_Import(self, s, e):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else nm
            e.v[nm] = ModVal(full) if full in self.prog.modules else Ext(full)
    def s_ImportFrom(self, s, e):
        base = self.prog.rel_base(e.module, s.level, s.module)
        for a in s.names:
            sub = base + "." + a.name
            if sub in self.prog.modules: e.v[a.asname or a.name] = ModVal(sub)
            elif base in self.prog.modules:
                r = self.prog.lookup(self.prog.modules[base], a.name)
                e.v[a.asname or a.name] = self.from_res(r, base + "." + a.name)
            else: e.v[a.asname or a.name] = Ext(base + "." + a.name)
    def s_FunctionDef(self, s, e):
        fi = FuncInfo(s.name, s, e.module)
        fi.qualname = "%s.<local>.%s" % (e.module.name, s.name)
        e.v[s.name] = FuncVal(fi, env=e)
    def s_ClassDef(self, s, e):
        ci = ClassInfo(s.name, s, e.module)
        for b in s.body:
            if isinstance(b, ast.FunctionDef): ci.methods[b.name] = FuncInfo(b.name, b, e.module, ci)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name): ci.attrs[t.id] = b.value
        e.v[s.name] = ClassVal(ci)

    def s_Assign(self, s, e):
        v = self.ev(s.value, e)
        for t in s.targets: self.assign(t, v, e, s)
    def s_AnnAssign(self, s, e):
        if s.value is not None: self.assign(s.target, self.ev(s.value, e), e, s)
    def s_AugAssign(self, s, e):
        ld = ast.copy_location(load_of(s.target), s.target)
        old = self.ev(ld, e)
        if isinstance(old, PList) and isinstance(s.op, ast.Add):
            self.list_extend(old, self.ev(s.value, e), s)
            return
        r = self.ev(s.value, e)
        if isinstance(old, Obj) and isinstance(s.op, ast.Add) and isinstance(old.attrs.get("__items__"), PList) \
                and (old.cls is None or self.prog.find_method(old.cls, "__iadd__") is None):
            self.list_extend(old.attrs["__items__"], r, s)
            return
        v = self.binop(s.op, old, r, s)
        if isinstance(old, Arr) and isinstance(s.target, (ast.Name, ast.Attribute)):
            # whole-array in-place update
            self.write(old, ("all",), v, s)
            return
        self.assign(s.target, v, e, s)

    def assign(self, t, v, e, s):
        if isinstance(t, ast.Name):
            if t.id in e.v.get("__globals__", ()):
                self.events.append(("globalwrite", e.module.name, t.id, v, self.where(s)))
                self.keep_global(e.module.name + "." + t.id, v)
                return
            e.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star: raise Unsupported("starred assignment")
            items = self.unpack(v, n, s)
            for x, y in zip(t.elts, items): self.assign(x, y, e, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, e)
            self.set_attr(b, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, e)
            i = self.index(t.slice, e)
            if isinstance(b, Arr) and self.fancy(i) is not None:
                pts = self.fancy(i)
                vals = v.vals if isinstance(v, Mat) else [v] * len(pts)
                if len(vals) != len(pts): raise RaiseSig("ValueError", self.where(s), "shape mismatch")
                for pt, x in zip(pts, vals): self.write(b, pt, x, s)
            elif isinstance(b, Arr): self.write(b, i, v, s)
            elif isinstance(b, Mat) and self.mat_index(b, i) is not None:
                for q, x in zip(self.mat_index(b, i)[1], v.vals if isinstance(v, Mat) else [v] * len(b.vals)): b.vals[q] = term(x)
            elif isinstance(b, PList):
                k = i[0].const() if len(i) == 1 and isinstance(i[0], Poly) else None
                if k is not None and not b.per and -len(b.items) <= k < len(b.items): b.items[int(k)] = v
                else: 
                    self.unknown_writes.append((tokey(b), i, self.where(s)))
                    b.per.append(("store", (tuple(tokey(x) for x in i), v)))
            elif isinstance(b, PDict):
                k = i[0] if len(i) == 1 else tuple(i)
                b.items[tokey(k)] = v
                b.keyvals[tokey(k)] = k
            else:
                self.events.append(("store", tokey(b), tuple(tokey(x) for x in i), v, self.where(s)))
        else: raise Unsupported("assign to %s" % type(t).__name__)

    def fancy(self, idx):
        """arr[(rows, cols)] with concrete equal-length sequences -> list of points"""
        if len(idx) == 1 and isinstance(idx[0], tuple): idx = idx[0]
        seqs = []
        for x in idx:
            if isinstance(x, PList) and not x.per and x.length is None: x = tuple(x.items)
            if isinstance(x, Mat) and len(x.shape) == 1: x = tuple(x.vals)
            if not isinstance(x, tuple) or not all(isinstance(y, Poly) for y in x): return None
            seqs.append(x)
        if not seqs: return [] if self.opts.get("fancy") else None
        if len({len(x) for x in seqs}) != 1: return None
        return list(zip(*seqs))

    def mat_index(self, m, idx):
        """concrete basic indexing of a Mat -> (shape, flat positions)"""
        if len(idx) == 1 and isinstance(idx[0], tuple): idx = idx[0]
        if len(idx) > len(m.shape): return None
        pos, shape = [0], []
        for d, n in enumerate(m.shape):
            i = idx[d] if d < len(idx) else SliceV(None, None, None)
            if isinstance(i, SliceV):
                try:
                    f = lambda x: None if x is None else int(x.const())
                    ks = list(range(n))[slice(f(i.a), f(i.b), f(i.c))]
                except (TypeError, AttributeError): return None
                shape.append(len(ks))
            elif isinstance(i, Poly) and i.const() is not None:
                k = int(i.const())
                if not -n <= k < n: return None
                ks = [k % n]
            elif self.opts.get("smallmat") and isinstance(i, (PList, Mat)) and mat_of(i) is not None and sum(isinstance(q, (PList, Mat)) for q in idx) == 1:
                vs = [v.const() for v in mat_of(i).vals]
                if None in vs: return None
                ks = [int(v) % n for v in vs]
                shape.append(len(ks))
            else: return None
            pos = [p * n + k for p in pos for k in ks]
        return shape, pos

    def mat_binop(self, op, a, b, n):
        sa, sb = (a.shape if isinstance(a, Mat) else ()), (b.shape if isinstance(b, Mat) else ())
        if isinstance(op, ast.MatMult): return self.mat_dot(a, b)
        if sa == sb or not sa or not sb:
            sh = sa or sb
            k = len((a if sa else b).vals)
            va = a.vals if sa else [a] * k
            vb = b.vals if sb else [b] * k
            return Mat(sh, [self.binop(op, x, y, n) for x, y in zip(va, vb)])
        return None
    def mat_compare(self, op, l, r, n):
        sl, sr = (l.shape if isinstance(l, Mat) else None), (r.shape if isinstance(r, Mat) else None)
        if sl and sr and sl != sr: return None
        k = len((l if sl is not None else r).vals)
        vl = l.vals if sl is not None else [l] * k
        vr = r.vals if sr is not None else [r] * k
        if not all(isinstance(x, (Poly, bool)) for x in vl + vr): return None
        f = lambda a, b: (lambda: self.compare(op, a, b, n))
        return CmpMat(sl if sl is not None else sr, [f(a, b) for a, b in zip(vl, vr)])

    def mat_dot(self, a, b):
        if not (isinstance(a, Mat) and isinstance(b, Mat)): return None
        if len(a.shape) == 2 and len(b.shape) == 2 and a.shape[1] == b.shape[0]:
            (p, q), r = a.shape, b.shape[1]
            return Mat((p, r), [sum((a.vals[i * q + k] * b.vals[k * r + j] for k in range(q)), T.ZERO) for i in range(p) for j in range(r)])
        if len(a.shape) == 2 and len(b.shape) == 1 and a.shape[1] == b.shape[0]:
            (p, q) = a.shape
            return Mat((p,), [sum((a.vals[i * q + k] * b.vals[k] for k in range(q)), T.ZERO) for i in range(p)])
        return None

    def set_attr(self, b, name, v, s):
        if isinstance(b, Obj):
            if b.cls is not None:
                st = self.prog.find_setter(b.cls, name)
                if st is not None:
                    self.call_function(st, [v], self_=b)
                    return
            b.attrs[name] = v
            b.absent.discard(name)
            self.events.append(("attrwrite" if not getattr(b, "is_copy", False) else "copywrite", b.name, name, v, self.where(s)))
        elif isinstance(b, ModVal):
            self.events.append(("globalwrite", b.name, name, v, self.where(s)))
            self.keep_global(b.name + "." + name, v)
        else:
            self.events.append(("attrwrite", tokey(b), name, v, self.where(s)))

    def keep_global(self, full, v):
        """what is stored in a module is seen by what runs afterwards (only when asked for)"""
        if self.opts.get("modstore"): self.opts = dict(self.opts, globals=dict(self.opts.get("globals", {}), **{full: v}))

    def unpack(self, v, n, s):
        if isinstance(v, tuple) or (isinstance(v, PList) and not v.per and v.length is None):
            it = list(v) if isinstance(v, tuple) else v.items
            if len(it) != n: raise RaiseSig("ValueError", self.where(s), "unpack")
            return it
        if isinstance(v, Arr) and False: pass
        return [self.getitem(v, (num(i),), s) for i in range(n)]

    # ---- branches ------------------------------------------------------------------
    def s_If(self, s, e):
        if output_only(s.body) and output_only(s.orelse):
            return
        try:
            c = self.truth(self.ev(s.test, e))
        except Unsupported:
            raise
        self.block(s.body if c else s.orelse, e)

    def s_Try(self, s, e):
        try:
            try:
                self.block(s.body, e)
            except RaiseSig as r:
                for h in s.handlers:
                    if self.handler_matches(h, r, e):
                        if h.name: e.v[h.name] = atom("exc", r.name, r.where)
                        self.handling.append((r.name, r.where))
                        try: self.block(h.body, e)
                        finally: self.handling.pop()
                        break
                else: raise
            else:
                self.block(s.orelse, e)
        finally:
            self.block(s.finalbody, e)

    def handler_matches(self, h, r, e=None):
        if h.type is None: return True
        from .excflow import Flow
        fl = self.prog.__dict__.get("_excflow") or self.prog.__dict__.setdefault("_excflow", Flow(self.prog))
        class At(object): pass
        at = At(); at.module = e.module if e is not None else None
        ts = fl.types(h.type, at) if at.module is not None else []
        ts = set(ts or ()) | {(dotted(t) or "").split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
        alias = {"IOError": "OSError", "EnvironmentError": "OSError"}
        ts |= {alias[t] for t in ts if t in alias}
        mine = {r.name, alias.get(r.name, r.name)} | set(EXC_BASES.get(r.name, ())) | set(fl.mro(alias.get(r.name, r.name)))
        return bool(mine & ts) or bool(ts & {"Exception", "BaseException"})

    def s_With(self, s, e):
        for it in s.items:
            v = self.ev(it.context_expr, e)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, e, s)
        self.block(s.body, e)

    # ---- loops ---------------------------------------------------------------------
    def loop_key(self, s, e):
        return "%s:%s" % (e.module.rel, "/".join([f.name for f in self.stack]) + "@%d" % s.lineno)

    def generalise(self, key, names, e):
        """at a loop head: replace loop-written scalars/array shapes/list lengths"""
        saved = []
        elem = key.startswith("E|")
        for n in sorted(names):
            v = e.v.get(n)
            if isinstance(v, Poly):
                e.v[n] = self.head_value(key, n, v)
                saved.append(("var", n, v, e.v[n]))
        for a in list(self.arrays):
            if a.kind == "param": continue
            for d in range(len(a.shape)):
                v = a.shape[d]
                nm = "shape:%s:%d" % (a.name, d)
                if elem:
                    a.shape[d] = self.head_value(key, nm, v)
                    saved.append(("shape", (a, d), v, a.shape[d]))
        return saved

    def head_value(self, key, n, init):
        if self.phase == 2:
            info = self.loop_info.get((key, n))
            if info is not None and info != "irregular":
                v = init
                for d, S in info:
                    v = v + num(d) * self.cnt(S)
                return v
        return atom("lv", key, n)

    def cnt(self, S):
        """number of earlier elements whose class is in S"""
        dp = self.elem_depth
        return atom("cnt", S) if dp <= 0 else atom("cnt", S, dp)

    def after_loop(self, key, saved, e, ran=True):
        for kind, n, init, head in saved:
            if kind == "var":
                end = e.v.get(n)
                nm = n
            else:
                end = n[0].shape[n[1]]
                nm = "shape:%s:%d" % (n[0].name, n[1])
            info = self.loop_info.get((key, nm)) if self.phase == 2 else None
            delta = None
            if isinstance(end, Poly):
                d = (end - head).const()
                if d is not None: delta = d
                elif isinstance(key, str) and key.startswith("E|") and isinstance(head, Poly): self.events.append(("accum", key, nm, end - head, head))
            rec = self.loop_rec.setdefault((key, nm), set())
            rec.add(delta if delta is not None else "irregular")
            if self.phase == 2 and info is not None and info != "irregular":
                new = init
                for d, S in info: new = new + num(d) * atom("tot", S)
            elif isinstance(end, Poly):
                new = atom("lvend", key, nm) if kind == "shape" or not (delta == 0 and self.phase == 1 and False) else init
            else: new = end
            if kind == "var": e.v[n] = new
            else: n[0].shape[n[1]] = new

    # ---- iterators (opts "iters")
    def collect_gen(self, body, e):
        """the values a generator yields, computed in one go"""
        out = []
        e.yields = out
        try: self.block(body, e)
        except ReturnSig: pass
        return IterVal(iter(out))

    def e_Yield(self, n, e):
        out = getattr(e, "yields", None)
        if out is None: raise Unsupported("yield at %s" % self.where(n))
        if len(out) > (self.opts.get("unroll") or 60): raise Unsupported("loop bound")
        out.append(self.ev(n.value, e) if n.value is not None else None)
        return None

    def e_YieldFrom(self, n, e):
        out = getattr(e, "yields", None)
        v = self.ev(n.value, e)
        if out is None: raise Unsupported("yield at %s" % self.where(n))
        out.extend(list(self.iterate(v, n)))
        return None

    def iterate(self, x, n):
        """the items of an iterable, one by one"""
        x = unlist(x)
        if isinstance(x, IterVal):
            for v in x.it: yield v
            return
        if isinstance(x, tuple): seq = list(x)
        elif isinstance(x, PList) and not x.per and x.length is None: seq = x.items
        elif isinstance(x, Mat): seq = x.rows()
        elif isinstance(x, str): seq = list(x)
        elif isinstance(x, RangeVal) and None not in (x.a.const(), x.b.const(), x.c.const()): seq = [num(i) for i in range(int(x.a.const()), int(x.b.const()), int(x.c.const()))]
        elif isinstance(x, Obj) and x.cls is not None:
            mi = self.prog.find_method(x.cls, "__iter__")
            if mi is None: raise Unsupported("iteration over %r" % (x,))
            it = self.call_function(mi, [], {}, self_=x)
            if not (isinstance(it, Obj) and it.cls is not None and self.prog.find_method(it.cls, "__next__") is not None):
                for v in self.iterate(it, n): yield v
                return
            mn = self.prog.find_method(it.cls, "__next__")
            for _ in range(self.opts.get("unroll") or 60):
                try: v = self.call_function(mn, [], {}, self_=it)
                except RaiseSig as q:
                    if q.name == "StopIteration": return
                    raise
                yield v
            raise Unsupported("loop bound")
        else: raise Unsupported("iteration over %r" % (x,))
        for v in seq: yield v

    def is_iter(self, x): return isinstance(x, IterVal) or isinstance(x, Obj) and x.cls is not None and "__items__" not in x.attrs and self.prog.find_method(x.cls, "__iter__") is not None

    def s_For(self, s, e):
        it = self.ev(s.iter, e)
        self.run_for(s, it, e)

    def run_for(self, s, it, e):
        # transparent wrappers
        it = unlist(it)
        if self.opts.get("iters"):
            if isinstance(it, EnumVal) and self.is_iter(it.coll):
                start = it.start
                return self.unroll(s, ((start + num(i), x) for i, x in enumerate(self.iterate(it.coll, s))), e)
            if self.is_iter(it): return self.unroll(s, self.iterate(it, s), e)
        if isinstance(it, EnumVal): it = EnumVal(unlist(it.coll), it.start)
        if isinstance(it, Mat): return self.unroll(s, it.rows(), e)
        if isinstance(it, tuple): return self.unroll(s, list(it), e)
        if isinstance(it, PList) and not it.per and it.length is None: return self.unroll(s, list(it.items), e)
        if isinstance(it, PDict) and not it.unknown: return self.unroll(s, [it.keyvals.get(k, k) for k in it.items], e)
        if isinstance(it, str): return self.unroll(s, list(it), e)
        if isinstance(it, RangeVal):
            a, b, c = it.a.const(), it.b.const(), it.c.const()
            if None not in (a, b, c) and c != 0 and abs((b - a) / c) <= 40:
                return self.unroll(s, [num(x) for x in range(int(a), int(b), int(c))], e)
        enum = None
        if isinstance(it, EnumVal):
            enum = it.start
            it = it.coll
            if isinstance(it, tuple) or (isinstance(it, PList) and not it.per and it.length is None):
                items = list(it) if isinstance(it, tuple) else it.items
                return self.unroll(s, [(enum + num(i), x) for i, x in enumerate(items)], e)
        # loops over the circuit
        if isinstance(it, Circ) or (isinstance(it, RangeVal) and it.b.atom() == ("len", "circ") and it.a.is_zero()):
            dp = self.elem_depth
            if dp >= len(self.victims): raise Unsupported("nested element loop at %s" % self.where(s))
            v = self.victims[dp]
            pos = atom("pos", dp)
            item = v if isinstance(it, Circ) else pos
            if enum is not None: item = (enum + pos, v)
            return self.elem_loop(s, item, True, e)
        if isinstance(it, EList):
            item = it.value
            if enum is not None: item = (enum + self.list_pos(it), it.value)
            return self.elem_loop(s, item, it.present, e)
        if isinstance(it, PList):
            # list filled by an element loop: iterate over its members for the generic element
            return self.sym_list_loop(s, it, enum, e)
        return self.generic_loop(s, it, enum, e)

    def list_pos(self, el):
        if self.phase == 2:
            info = self.loop_info.get((el.key, "__present__"))
            if info is not None and info != "irregular":
                v = T.ZERO
                for d, S in info: v = v + num(d) * (atom("cnt", S) if not el.depth else atom("cnt", S, el.depth))
                return v
        return atom("lv", el.key, "__present__")

    def unroll(self, s, items, e):
        broke = False
        for x in items:
            self.assign(s.target, x, e, s)
            try: self.block(s.body, e)
            except ContinueSig: continue
            except BreakSig:
                broke = True
                break
        if not broke: self.block(s.orelse, e)

    def elem_loop(self, s, item, present, e):
        key = "E|" + self.loop_key(s, e)
        if key not in self.loop_order: self.loop_order.append(key)
        names = stored_names(s.body)
        saved = self.generalise(key, names, e)
        marks = [(l, len(l.items), len(l.per)) for l in self.lists]
        self.elem_depth += 1
        self.loops.append(key)
        broke = False
        try:
            if present:
                self.assign(s.target, item, e, s)
                try: self.block(s.body, e)
                except ContinueSig: pass
                except BreakSig: broke = True
                except ReturnSig:
                    self.events.append(("elem-loop-break", key, self.where(s)))
                    raise
        finally:
            self.elem_depth -= 1
            self.loops.pop()
        self.list_marks(marks, key)
        if broke:
            # the search ends at the generic element: names keep the values of its iteration
            self.events.append(("elem-loop-break", key, self.where(s)))
            return
        self.after_loop(key, saved, e)
        self.block(s.orelse, e)

    def list_marks(self, marks, key):
        for l, n, m in marks:
            if l.length is not None and len(l.items) == n: pass
            new = l.items[n:]
            del l.items[n:]
            # element loops: remember what the generic element appended
            l.per.append((key, tuple(new)))
            self.loop_rec.setdefault((key, "list:%s" % l.name), set()).add(Fraction(len(new)))
        for l, n, m in marks:
            # drop empty records of loops that never touched the list
            l.per = [(k, v) for k, v in l.per if v != () or k != key or self.touched(l, key)]

    def touched(self, l, key):
        info = self.loop_info.get((key, "list:%s" % l.name))
        return bool(info)

    def sym_list_loop(self, s, l, enum, e):
        vals = list(l.items)
        for k, vs in l.per:
            if isinstance(vs, tuple) and isinstance(k, str) and k.startswith("E|"): vals += list(vs)
            else: return self.generic_loop(s, l, enum, e)
        if enum is not None: return self.generic_loop(s, l, enum, e)
        key = "E|" + self.loop_key(s, e)
        names = stored_names(s.body)
        saved = self.generalise(key, names, e)
        self.elem_depth += 1
        self.loops.append(key)
        try:
            for v in vals:
                self.assign(s.target, v, e, s)
                try: self.block(s.body, e)
                except ContinueSig: pass
                except BreakSig: break
        finally:
            self.elem_depth -= 1
            self.loops.pop()
        self.after_loop(key, saved, e)
        self.block(s.orelse, e)

    def generic_loop(self, s, it, enum, e):
        key = "G|" + self.loop_key(s, e)
        names = stored_names(s.body)
        depth = sum(1 for k in self.loops if isinstance(k, str) and k.startswith("G|"))
        if isinstance(it, RangeVal):
            lb = it.b.atom()
            if lb and lb[0] == "len" and it.a.is_zero() and it.c == T.ONE:
                idx = atom("idx", lb[1])
                coll = lb[1]
            else:
                idx = atom("idx", ("range", it.a, it.b, it.c))
                coll = ("range", it.a, it.b, it.c)
            if any(k == ("IDX", idx) for k in self.loops): idx = atom("idx", coll, depth)
            item = idx
        else:
            coll = tokey(it)
            idx = atom("idx", coll)
            if ("IDX", idx) in self.loops: idx = atom("idx", coll, depth)
            item = self.getitem(it, (idx,), s)
            if enum is not None: item = (enum + idx, item)
        saved = self.generalise(key, names, e)
        marks = [(l, len(l.items)) for l in self.lists]
        self.loops.append(key)
        self.loops.append(("IDX", idx))
        try:
            self.assign(s.target, item, e, s)
            try: self.block(s.body, e)
            except ContinueSig: pass
            except BreakSig: self.events.append(("loop-break", key, self.where(s)))
        finally:
            self.loops.pop()
            self.loops.pop()
        for l, n in marks:
            new = l.items[n:]
            if new:
                del l.items[n:]
                l.per.append((("map", coll, idx), tuple(new)))
        self.after_loop(key, saved, e)
        self.block(s.orelse, e)

    def while_unrolled(self, s, e, bound):
        """loops over a small finite state are followed step by step; beyond the bound the path is cut"""
        for _ in range(bound):
            if not self.truth(self.ev(s.test, e)):
                self.block(s.orelse, e)
                return
            try: self.block(s.body, e)
            except ContinueSig: pass
            except BreakSig: return
        raise Unsupported("loop bound")

    def s_While(self, s, e):
        if self.opts.get("unroll"): return self.while_unrolled(s, e, self.opts["unroll"])
        key = "W|" + self.loop_key(s, e)
        names = stored_names(s.body)
        c0 = None
        try:
            v = self.ev(s.test, e)
            if v is False: 
                self.block(s.orelse, e)
                return
        except Unsupported: pass
        saved = self.generalise(key, names, e)
        self.loops.append(key)
        try:
            try: self.block(s.body, e)
            except ContinueSig: pass
            except BreakSig: pass
        finally: self.loops.pop()
        self.after_loop(key, saved, e)

    # ---- lists ---------------------------------------------------------------------
    def new_list(self, items, node):
        l = PList(items, name="%s@%s" % ("list", self.where(node) + (":%d" % getattr(node, "col_offset", 0))))
        l.born = len(self.loops)
        self.lists.append(l)
        return l

    def list_extend(self, l, v, s):
        if isinstance(v, tuple): l.items.extend(v)
        elif isinstance(v, PList) and not v.per and v.length is None: l.items.extend(v.items)
        elif isinstance(v, PList):
            l.items.extend(v.items); l.per.extend(v.per)
        elif isinstance(v, EList):
            l.per.append((v.key, (v.value,) if v.present else ()))
        else: l.per.append((("ext", tokey(v)), (v,)))

    def fresh(self, why):
        self.n_arr += 1
        return "%s%d" % (why, self.n_arr)

    # ---- arrays --------------------------------------------------------------------
    def new_arr(self, shape, zero, kind="np", name=None):
        a = Arr(name or self.fresh("A"), shape, zero, kind)
        self.arrays.append(a)
        return a

    def norm_idx(self, a, idx):
        out = []
        for i in idx:
            if isinstance(i, (Poly,)): out.append(i)
            elif isinstance(i, bool): out.append(num(int(i)))
            else: out.append(tokey(i))
        return tuple(out)

    def write(self, a, idx, v, s):
        k = self.norm_idx(a, idx)
        a.cells[k] = v
        a.log.append((k, v, self.where(s), tuple(self.loops), "set"))

    def read(self, a, idx, s):
        k = self.norm_idx(a, idx)
        if k in a.cells: return a.cells[k]
        a.reads.append((k, self.where(s)))
        if len(k) == 1 and isinstance(k[0], tuple) and k[0] and k[0][0] == "tuple": pass
        return a.base(k)

    # ---- expressions ---------------------------------------------------------------
    def ev(self, n, e):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None: raise Unsupported("%s at %s" % (type(n).__name__, self.where(n)))
        return m(n, e)

    def e_Constant(self, n, e):
        v = n.value
        if v is None or isinstance(v, (bool, str, bytes)): return v
        if isinstance(v, (int, float, complex)): return P(v)
        if v is Ellipsis: return atom("ellipsis")
        raise Unsupported("constant %r" % (v,))
    def e_JoinedStr(self, n, e):
        parts = []
        if self.opts.get("text"):
            for v in n.values:
                if isinstance(v, ast.Constant): parts.append(v.value); continue
                spec = ""
                if v.format_spec is not None: spec = self.e_JoinedStr(v.format_spec, e)
                parts.append(self.opts["text"](self, spec or "s", self.ev(v.value, e)))
            return "".join(parts)
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else: parts.append(tokey(self.ev(v.value, e)))
        return atom("fmt", tuple(parts))
    def e_Name(self, n, e):
        x = e
        while x is not None:
            if n.id in x.v: return x.v[n.id]
            x = x.parent
        r = self.prog.lookup(e.module, n.id)
        if r is not None: return self.from_res(r, e.module.name + "." + n.id)
        if n.id in BUILTINS: return Ext("builtins." + n.id)
        if n.id == "__name__": return e.module.name
        raise RaiseSig("NameError", self.where(n), n.id)

    def from_res(self, r, full):
        if isinstance(r, FuncInfo): return FuncVal(r)
        if isinstance(r, ClassInfo): return ClassVal(r)
        if r is None: return Ext(full)
        if r[0] == "mod": return ModVal(r[1]) if r[1] in self.prog.modules else Ext(r[1])
        if r[0] == "ext": return Ext(r[1])
        if r[0] == "var":
            exprs, mod = r[1], r[2]
            nm = full.split(".")[-1]
            if exprs and exprs[0] is not None:
                # an imported variable may carry another name here
                for st in mod.tree.body:
                    if isinstance(st, ast.Assign) and st.value is exprs[0] and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name): nm = st.targets[0].id
            fixed = self.opts.get("globals", {})
            if (mod.name + "." + nm) in fixed: return fixed[mod.name + "." + nm]
            if mod.name.endswith("py3compat"):
                # the interpreter in use is Python 3
                if nm == "string_types": return (Ext("builtins.str"),)
                if nm == "text_type": return Ext("builtins.str")
                if nm == "range_type": return Ext("builtins.range")
            if mod.name.endswith(".options") or len(exprs) != 1 or exprs[0] is None:
                return atom("glob", mod.name + "." + nm)
            if self.reassigned(mod, nm): return atom("glob", mod.name + "." + nm)
            ex = exprs[0]
            if self.opts.get("modinit") and isinstance(ex, (ast.Dict, ast.List, ast.Tuple)):
                v = self.module_value(mod, nm)
                if v is not None: return v
            try:
                if isinstance(ex, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Attribute, ast.Name, ast.Call, ast.Lambda, ast.Tuple)):
                    if isinstance(ex, ast.Call) and not self.foldable(ex): return atom("glob", mod.name + "." + nm)
                    return self.ev(ex, Env({}, mod))
                if isinstance(ex, (ast.List, ast.Dict)) and self.opts.get("fold_globals"):
                    return self.ev(ex, Env({}, mod))
            except (Unsupported, RaiseSig): pass
            return atom("glob", mod.name + "." + nm)
        raise Unsupported("resolve %s" % full)

    def module_value(self, mod, nm):
        """a table built by the statements of the module's own body"""
        cache = self.__dict__.setdefault("_modvals", {})
        k = (mod.name, nm)
        if k in cache: return cache[k]
        cache[k] = None
        e = Env({}, mod)
        for s in mod.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global)): continue
            if isinstance(s, ast.Assign) and not any(isinstance(t, ast.Name) and t.id == nm for t in s.targets) and not any(isinstance(x, ast.Name) and x.id == nm for t in s.targets for x in ast.walk(t)): continue
            if not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s)): continue
            try: self.stmt(s, e)
            except (Unsupported, RaiseSig): return None
        cache[k] = e.v.get(nm)
        return cache[k]

    def foldable(self, ex):
        return (dotted(ex.func) or "") in ("float", "int", "abs", "np.sqrt", "math.sqrt", "sqrt")

    def reassigned(self, mod, nm):
        c = self.prog.__dict__.setdefault("_reass", {})
        k = (mod.name, nm)
        if k not in c:
            short = mod.name.split(".")[-1]
            hit = False
            init = mod.ns.get(nm)
            init = init[1][0] if isinstance(init, tuple) and init[0] == "var" and len(init[1]) == 1 else None
            same = set()
            for m in self.prog.modules.values():
                for x in m.tree.body:       # at import time, to the value it already has
                    if isinstance(x, ast.Assign) and isinstance(init, ast.Constant) and isinstance(x.value, ast.Constant) and x.value.value == init.value: same |= {id(t) for t in x.targets}
                for x in ast.walk(m.tree):
                    if id(x) in same: continue
                    if isinstance(x, ast.Global) and nm in x.names and m is mod: hit = True
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == nm and \
                       isinstance(x.value, ast.Name) and x.value.id == short: hit = True
            c[k] = hit
        return c[k]

    def e_Tuple(self, n, e): return tuple(self.ev(x, e) for x in self.elts(n, e)) if not any(isinstance(x, ast.Starred) for x in n.elts) else tuple(self.starred(n.elts, e))
    def elts(self, n, e): return n.elts
    def starred(self, elts, e):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, e)
                if isinstance(v, tuple): out.extend(v)
                elif isinstance(v, PList) and not v.per: out.extend(v.items)
                else: raise Unsupported("star of unknown")
            else: out.append(self.ev(x, e))
        return out
    def e_List(self, n, e): return self.new_list(self.starred(n.elts, e), n)
    def e_Set(self, n, e): return self.new_list([self.ev(x, e) for x in n.elts], n)
    def e_Dict(self, n, e):
        d = PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, e)
                if isinstance(x, PDict):
                    d.items.update(x.items); d.keyvals.update(x.keyvals)
                else: d.unknown.append(tokey(x))
                continue
            kk = self.ev(k, e)
            d.items[tokey(kk)] = self.ev(v, e)
            d.keyvals[tokey(kk)] = kk
        return d
    def e_Lambda(self, n, e): return LamVal(n, e, e.module)
    def e_IfExp(self, n, e):
        return self.ev(n.body if self.truth(self.ev(n.test, e)) else n.orelse, e)
    def e_BoolOp(self, n, e):
        v = None
        for x in n.values:
            v = self.ev(x, e)
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t: return v if not isinstance(v, Poly) or v.const() is not None else False
            if isinstance(n.op, ast.Or) and t: return v
        return v
    def e_UnaryOp(self, n, e):
        v = self.ev(n.operand, e)
        if isinstance(n.op, ast.Not): return not self.truth(v)
        if isinstance(n.op, ast.USub): return Mat(v.shape, [-term(x) for x in v.vals]) if isinstance(v, Mat) else -term(v)
        if isinstance(n.op, ast.Invert) and isinstance(v, CmpMat): return CmpMat(v.shape, [(lambda f=f: not f()) for f in v.items])
        if isinstance(n.op, ast.UAdd): return term(v)
        return atom("call", "invert", tokey(v))
    def e_BinOp(self, n, e):
        return self.binop(n.op, self.ev(n.left, e), self.ev(n.right, e), n)

    def binop(self, op, a, b, n):
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a, CmpMat) and isinstance(b, CmpMat) and a.shape == b.shape:
            g = (lambda x, y: (lambda: x() and y())) if isinstance(op, ast.BitAnd) else (lambda x, y: (lambda: x() or y()))
            return CmpMat(a.shape, [g(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(op, ast.Mod) and (isinstance(a, str) or (isinstance(a, Poly) and a.atom() and a.atom()[0] in ("fmt", "cat"))):
            return self.fmt(a, b)
        if (a is None or b is None) and self.opts.get("raise_args"): raise RaiseSig("TypeError", self.where(n), "None in arithmetic")
        if isinstance(op, ast.Add):
            if self.opts.get("raise_args"):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, str) and (y is None or isinstance(y, (bool, tuple, PList)) or (isinstance(y, Poly) and y.const() is not None)):
                        raise RaiseSig("TypeError", self.where(n))
            if isinstance(a, (str,)) or isinstance(b, str): return self.cat(a, b)
            if isinstance(a, Poly) and a.atom() and a.atom()[0] in ("cat", "fmt"): return self.cat(a, b)
            if isinstance(b, Poly) and b.atom() and b.atom()[0] in ("cat", "fmt"): return self.cat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, PList) or isinstance(b, PList):
                r = self.new_list([], n)
                self.list_extend(r, a, n); self.list_extend(r, b, n)
                return r
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (tuple, PList)) and isinstance(y, Poly):
                    c = y.const()
                    if c is not None and c.denominator == 1 and c <= 64:
                        if isinstance(x, tuple): return x * int(c)
                        if not x.per and x.length is None: return self.new_list(x.items * int(c), n)
                    return atom("call", "repeat", tokey(x), tokey(y))
                if isinstance(x, str) and isinstance(y, Poly) and y.const() is not None: return x * int(y.const())
                if isinstance(x, (str, tuple)) and isinstance(y, bool): return x * int(y)
        if isinstance(a, Mat) or isinstance(b, Mat):
            r = self.mat_binop(op, a, b, n) if all(isinstance(x, (Mat, Poly, bool)) for x in (a, b)) else None
            if r is not None: return r
        ta, tb = term(a), term(b)
        if isinstance(op, ast.Add): return ta + tb
        if isinstance(op, ast.Sub): return ta - tb
        if isinstance(op, ast.Mult): return ta * tb
        if isinstance(op, ast.Div):
            if tb.is_zero(): raise RaiseSig("ZeroDivisionError", self.where(n))
            return ta / tb
        if isinstance(op, ast.Pow):
            c = tb.const()
            if c is not None: return ta ** c
            return T.exp(tb * T.log(ta))
        if isinstance(op, ast.FloorDiv):
            ca, cb = ta.const(), tb.const()
            if ca is not None and cb: return num(ca // cb)
            return atom("call", "floordiv", ta, tb)
        if isinstance(op, ast.Mod):
            ca, cb = ta.const(), tb.const()
            if ca is not None and cb: return num(ca % cb)
            return atom("call", "mod", ta, tb)
        return atom("call", type(op).__name__, ta, tb)

    def fmt(self, a, b):
        if self.opts.get("text") and isinstance(b, (PDict, dict)) and isinstance(a, str):
            import re
            def one(mm):
                if mm.group(0) == "%%": return "%"
                d = b.items if isinstance(b, PDict) else b
                k = mm.group(1)
                if k not in d: raise RaiseSig("KeyError", "format", k)
                return self.opts["text"](self, mm.group(2), d[k])
            return re.sub(r"%%|%\(([^)]*)\)([-#0 +]*[0-9]*(?:\.[0-9]+)?[a-zA-Z])", one, a)
        args = list(b) if isinstance(b, tuple) else [b]
        if self.opts.get("text") and isinstance(a, str):
            import re
            left = list(args)
            def one(mm):
                if mm.group(0) == "%%": return "%"
                if not left: raise RaiseSig("TypeError", "format", "not enough arguments for format string")
                return self.opts["text"](self, mm.group(1), left.pop(0))
            r = re.sub(r"%%|%([-#0 +]*[0-9]*(?:\.[0-9]+)?[a-zA-Z])", one, a)
            if left: raise RaiseSig("TypeError", "format", "not all arguments converted during string formatting")
            return r
        if isinstance(a, str) and all(isinstance(x, (str, bool)) or x is None or (isinstance(x, Poly) and x.const() is not None) for x in args):
            try:
                return a % tuple((int(x.const()) if x.const().denominator == 1 else float(x.const())) if isinstance(x, Poly) else x for x in args)
            except (TypeError, ValueError) as x:
                if self.opts.get("raise_args"): raise RaiseSig(type(x).__name__, "format", str(x))
        if isinstance(a, str):
            import re
            parts, pos, k = [], 0, 0
            ok = True
            for mm in re.finditer(r"%(%|[-#0 +]*[0-9]*(?:\.[0-9]+)?[a-zA-Z])", a):
                if mm.start() > pos: parts.append(a[pos:mm.start()])
                if mm.group(1) == "%": parts.append("%")
                else:
                    if k >= len(args): ok = False; break
                    x = args[k]; k += 1
                    if mm.group(1) == "s" and isinstance(x, str): parts.append(x)
                    elif mm.group(1) == "s" and isinstance(x, Poly) and x.atom() and x.atom()[0] == "cat": parts.extend(x.atom()[1])
                    else: parts.append(("%", mm.group(1), tokey(x)))
                pos = mm.end()
            if pos < len(a): parts.append(a[pos:])
            if ok and k == len(args): return self.mkcat(parts)
        return atom("fmt", tokey(a), tokey(b))

    def cat(self, a, b):
        def parts(x):
            if isinstance(x, str): return [x]
            at = x.atom() if isinstance(x, Poly) else None
            if at and at[0] == "cat": return list(at[1])
            return [("%", "s", tokey(x))]
        return self.mkcat(parts(a) + parts(b))
    def mkcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p
                else: out.append(p)
            else: out.append(p)
        if not out: return ""
        if len(out) == 1 and isinstance(out[0], str): return out[0]
        return atom("cat", tuple(out))

    def e_Compare(self, n, e):
        l = self.ev(n.left, e)
        res = True
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn, e)
            c = self.compare(op, l, r, n)
            if isinstance(c, CmpMat) and len(n.ops) == 1: return c
            if not (self.truth(c) if isinstance(c, CmpMat) else c): return False
            l = r
        return True

    def compare(self, op, l, r, n):
        if isinstance(op, (ast.Is, ast.IsNot)) or (isinstance(op, (ast.Eq, ast.NotEq)) and (l is None or r is None)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            return self.same(l, r) != neg
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if self.opts.get("smallmat") and (isinstance(l, Mat) or isinstance(r, Mat)):
                r_ = self.mat_compare(op, l, r, n)
                if r_ is not None: return r_
            return self.equal(l, r) != isinstance(op, ast.NotEq)
        if isinstance(op, (ast.In, ast.NotIn)):
            return self.contains(l, r) != isinstance(op, ast.NotIn)
        if isinstance(l, Mat) or isinstance(r, Mat):
            r_ = self.mat_compare(op, l, r, n)
            if r_ is not None: return r_
        tl, tr = term(l), term(r)
        if isinstance(op, ast.Lt): return self.lt0(tl - tr)
        if isinstance(op, ast.Gt): return self.lt0(tr - tl)
        if isinstance(op, ast.LtE): return not self.lt0(tr - tl)
        if isinstance(op, ast.GtE): return not self.lt0(tl - tr)
        raise Unsupported("compare")

    def same(self, l, r):
        if l is None and r is None: return True
        if r is None or l is None:
            x = l if r is None else r
            if isinstance(x, Poly):
                if x.const() is not None or x.is_zero(): return False
                if len(x.t) != 1 or x.atom() is None: return False
                a = x.atom()
                if a[0] in ("arr", "obj", "cat", "fmt", "idx", "pos", "exp", "len", "cnt", "tot", "call:new"): return False
                if a in self.positive: return False
                if self.opts.get("notnone") and self.opts["notnone"](a): return False
                return self.ask(("isnone", x))
            return False
        if isinstance(l, bool) and isinstance(r, bool): return l == r
        if isinstance(l, (Obj, Arr, PList, PDict, Mat)) or isinstance(r, (Obj, Arr, PList, PDict)): return l is r
        return self.equal(l, r)

    def equal(self, l, r):
        if isinstance(l, str) and isinstance(r, str): return l == r
        if isinstance(l, str) and isinstance(r, Ext) or isinstance(r, str) and isinstance(l, Ext): return False
        if isinstance(l, PDict) and isinstance(r, PDict) and not l.unknown and not r.unknown:
            if l is r: return True
            return set(l.items) == set(r.items) and all(self.equal(v, r.items[k]) for k, v in l.items.items())
        if isinstance(l, bool) and isinstance(r, bool): return l == r
        if isinstance(l, Poly) and isinstance(r, Poly): 
            return self.eq0(l - r)
        if isinstance(l, bool) or isinstance(r, bool):
            if isinstance(l, Poly) or isinstance(r, Poly):
                x, b = (l, r) if isinstance(r, bool) else (r, l)
                return self.truth(x) == b
        if isinstance(l, Obj) and isinstance(r, Obj): return l is r
        if isinstance(l, (ClassVal, Ext)) and isinstance(r, (ClassVal, Ext)): return tokey(l) == tokey(r)
        if isinstance(l, tuple) and isinstance(r, tuple):
            if len(l) != len(r): return False
            return all(self.equal(x, y) for x, y in zip(l, r))
        if (l is None) != (r is None):
            return self.same(l, r)
        kl, kr = tokey(l), tokey(r)
        if kl == kr: return True
        if isinstance(l, str) != isinstance(r, str):
            x = r if isinstance(l, str) else l
            c = l if isinstance(l, str) else r
            if isinstance(x, (PList, tuple, PDict, Obj, Arr, ClassVal)): return False
            if isinstance(x, Poly) and x.const() is not None: return False
            # one fact per (value, constant); distinct constants exclude each other
            for (k, v) in list(self.facts.items()):
                if k[0] == "eqs" and k[1] == x and v is True and k[2] != c: return False
            return self.ask(("eqs", term(x), c))
        a, b = sorted((kl, kr), key=repr)
        return self.ask(("eq", a, b))

    def contains(self, x, c):
        c = unlist(c)
        if isinstance(c, (tuple, PList)) and not (isinstance(c, PList) and (c.per or c.length is not None)):
            its = c if isinstance(c, tuple) else c.items
            for y in its:
                if self.equal(x, y): return True
            return False
        if isinstance(c, str) and isinstance(x, str): return x in c
        if isinstance(c, PDict) and not c.unknown:
            k = tokey(x)
            if k in c.items: return True
            if isinstance(x, str) or (isinstance(x, Poly) and x.const() is not None):
                if all(isinstance(y, (str, int, Fraction)) or (isinstance(y, Poly) and y.const() is not None) for y in c.items): return False
            if not c.items: return False
        if isinstance(c, Obj) and c.cls is not None and not c.opaque:
            m = self.prog.find_method(c.cls, "__contains__")
            if m is not None: return self.truth(self.call_function(m, [x], self_=c))
        return self.ask(("in", tokey(x), tokey(c)))

    def e_Attribute(self, n, e):
        return self.getattr(self.ev(n.value, e), n.attr, n)

    def getattr(self, b, name, n, default=AttributeError):
        if isinstance(b, FuncVal) and name == "__name__": return b.fi.name
        if isinstance(b, ModVal):
            r = self.prog.lookup(self.prog.modules[b.name], name)
            if r is None:
                if b.name.endswith(".options"): return atom("glob", b.name + "." + name)
                raise RaiseSig("AttributeError", self.where(n), "%s.%s" % (b.name, name))
            return self.from_res(r, b.name + "." + name)
        if isinstance(b, Ext):
            nm = b.name + "." + name
            if name == "pi": return sym("pi")
            if nm in EXT_CONST: return EXT_CONST[nm]
            return Ext(nm)
        if isinstance(b, Obj): return self.obj_attr(b, name, n, default)
        if isinstance(b, ClassVal):
            if name == "__name__": return b.ci.name
            m = self.prog.find_method(b.ci, name)
            if m: return FuncVal(m)
            a = self.prog.find_class_attr(b.ci, name)
            if a: return self.ev(a[0], Env({}, a[1].module))
            return atom("attr", atom("val", tokey(b)), name)
        if isinstance(b, Arr):
            if name == "shape": return tuple(b.shape)
            if name in ("T",): return atom("attr", b.term(), "T")
            return BoundMeth(b, name)
        if isinstance(b, Mat):
            if name == "shape": return tuple(num(x) for x in b.shape)
            if name == "size": return num(len(b.vals))
            if name == "T":
                if len(b.shape) == 2: return Mat((b.shape[1], b.shape[0]), [b.vals[i * b.shape[1] + j] for j in range(b.shape[1]) for i in range(b.shape[0])])
                return b
            return BoundMeth(b, name)
        if isinstance(b, str) and not hasattr(b, name): raise RaiseSig("AttributeError", self.where(n), "str.%s" % name)
        if isinstance(b, (PList, PDict, tuple, str, EList)): return BoundMeth(b, name)
        if isinstance(b, Poly):
            return atom("attr", b, name) if not self.opts.get("attr_hook") else (self.opts["attr_hook"](self, b, name, n) or atom("attr", b, name))
        if b is None:
            raise RaiseSig("AttributeError", self.where(n), "None.%s" % name)
        return atom("attr", term(b), name)

    def decorated(self, m, n):
        """what the decorators written in the program make of a function"""
        f = FuncVal(m)
        for d in reversed(m.node.decorator_list):
            t = d.func if isinstance(d, ast.Call) else d
            nm = dotted(t)
            r = self.prog.lookup(m.module, nm.split(".")[0]) if nm else None
            if isinstance(d, ast.Call) or not isinstance(r, FuncInfo) or "." in nm: continue
            f = self.call_function(r, [f])
            if not isinstance(f, FuncVal): return None
        return f if f.fi is not m else None

    def obj_attr(self, b, name, n, default=AttributeError):
        if name in b.attrs: return b.attrs[name]
        if b.cls is not None:
            m = self.prog.find_method(b.cls, name)
            if m is not None:
                if "property" in m.decorators: return self.call_function(m, [], self_=b)
                if self.prog.unbinding(m): return FuncVal(m)
                if self.opts.get("decorate") and m.node.decorator_list:
                    f = self.decorated(m, n)
                    if f is not None: return f if f.self_ is not None else FuncVal(f.fi, self_=b, env=f.env)
                return FuncVal(m, self_=b)
            a = self.prog.find_class_attr(b.cls, name)
            if a is not None: return self.ev(a[0], Env({}, a[1].module))
        if name == "__class__": return ClassVal(b.cls) if b.cls is not None else atom("attr", b.term(), name)
        if isinstance(b, Circ): return BoundMeth(b, name)
        if name in b.absent or (b.cls is not None and not b.opaque and not self.has_ext_base(b.cls)):
            if default is not AttributeError: return default
            self.attr_errors.append((b.name, name, self.where(n)))
            raise RaiseSig("AttributeError", self.where(n), "%s.%s" % (b.name, name))
        return atom("attr", b.term(), name)

    def has_ext_base(self, c):
        for k in self.prog.mro(c):
            for x in k.bases:
                if isinstance(x, tuple) and x[1] not in ("object", None): return True
        return False

    def has_attr(self, b, name):
        if isinstance(b, Obj):
            if name in b.attrs: return True
            if name in b.absent: return False
            if b.cls is not None:
                if self.prog.find_method(b.cls, name) or self.prog.find_class_attr(b.cls, name): return True
                if not b.opaque: return False
            return self.ask(("hasattr", b.term(), name))
        if isinstance(b, Arr): return name in ("shape", "dot", "copy")
        if isinstance(b, Mat): return name in ("shape", "dot", "copy", "T", "reshape", "size", "ndim", "max", "min", "sum", "flatten", "squeeze")
        if isinstance(b, (PList, tuple, str, PDict)) or b is None: return hasattr([] if isinstance(b, PList) else (() if isinstance(b, tuple) else ("" if isinstance(b, str) else ({} if b is not None else None))), name)
        if isinstance(b, Poly): return self.ask(("hasattr", b, name))
        return self.ask(("hasattr", term(b), name))

    def index(self, sl, e):
        if isinstance(sl, ast.Tuple): return tuple(self.ix(x, e) for x in sl.elts)
        return (self.ix(sl, e),)
    def ix(self, x, e):
        if isinstance(x, ast.Slice):
            return SliceV(*(self.ev(y, e) if y is not None else None for y in (x.lower, x.upper, x.step)))
        return self.ev(x, e)
    def e_Slice(self, n, e): return self.ix(n, e)
    def e_Starred(self, n, e): raise Unsupported("star")

    def e_Subscript(self, n, e):
        b = self.ev(n.value, e)
        return self.getitem(b, self.index(n.slice, e), n)

    def getitem(self, b, idx, n):
        b = unlist(b)
        if isinstance(b, Mat):
            r = self.mat_index(b, idx)
            if r is not None:
                return b.vals[r[1][0]] if not r[0] and len(r[1]) == 1 else Mat(r[0], [b.vals[q] for q in r[1]])
            b = b.term()
        if isinstance(b, Arr):
            pts = self.fancy(idx)
            if pts is not None: return Mat((len(pts),), [term(self.read(b, pt, n)) for pt in pts])
            if len(idx) == 1 and isinstance(idx[0], tuple): idx = idx[0]
            return self.read(b, idx, n)
        if len(idx) == 1:
            i = idx[0]
            if isinstance(b, (tuple, str)) or (isinstance(b, PList) and not b.per and b.length is None):
                its = b if isinstance(b, (tuple, str)) else b.items
                if isinstance(i, Poly) and i.const() is not None:
                    c = int(i.const())
                    if -len(its) <= c < len(its): return its[c]
                    raise RaiseSig("IndexError", self.where(n))
                if isinstance(i, SliceV):
                    try:
                        f = lambda x: None if x is None else int(x.const())
                        r = its[slice(f(i.a), f(i.b), f(i.c))]
                        return r if isinstance(b, (tuple, str)) else self.new_list(r, n)
                    except (TypeError, AttributeError): pass
                if isinstance(its, (tuple, list)) and len(its) == 1 and isinstance(i, Poly):
                    pass
            if isinstance(b, PList) and b.per and isinstance(i, Poly):
                c = i.const()
                if c is not None and 0 <= c < len(b.items) : return b.items[int(c)]
                # list built by one append per iteration of a loop over the same collection
                a = i.atom()
                if not b.items and len(b.per) == 1 and isinstance(b.per[0][0], tuple) and b.per[0][0][0] == "map" and len(b.per[0][1]) == 1:
                    if a and b.per[0][0][2].atom() == a: return b.per[0][1][0]
            if isinstance(b, PDict):
                k = tokey(i)
                if k in b.items: return b.items[k]
                if not b.unknown and isinstance(i, str) and not self.opts.get("lenient_dict"): raise RaiseSig("KeyError", self.where(n), i)
                return atom("sub", atom("val", tokey(b)), k)
            if isinstance(b, Circ):
                a = i.atom() if isinstance(i, Poly) else None
                if a and a[0] == "pos": return self.victims[a[1]]
                return atom("sub", b.term(), tokey(i))
            if isinstance(b, EList):
                return atom("sub", atom("val", tokey(b)), tokey(i))
            if isinstance(b, Obj) and b.cls is not None:
                m = self.prog.find_method(b.cls, "__getitem__")
                if m is not None: return self.call_function(m, [i], self_=b)
        return atom("sub", term(b), *[tokey(x) for x in idx])

    # ---- comprehensions ------------------------------------------------------------
    def e_ListComp(self, n, e): return self.comp(n, e)
    def e_GeneratorExp(self, n, e): return self.comp(n, e)
    def e_SetComp(self, n, e): return self.comp(n, e)
    def concrete(self, it):
        """the entries of an iterable that is known entry by entry"""
        it = unlist(it)
        if isinstance(it, (tuple, str)): return list(it)
        if isinstance(it, PList) and not it.per and it.length is None: return list(it.items)
        if isinstance(it, PDict) and not it.unknown: return [it.keyvals.get(k, k) for k in it.items]
        if isinstance(it, EnumVal):
            xs = self.concrete(it.coll)
            return None if xs is None else [(it.start + num(i), x) for i, x in enumerate(xs)]
        if isinstance(it, RangeVal):
            a, b, c = it.a.const(), it.b.const(), it.c.const()
            if None not in (a, b, c) and c != 0 and abs((b - a) / c) <= 40: return [num(x) for x in range(int(a), int(b), int(c))]
        return None
    def comp(self, n, e):
        if len(n.generators) > 1:
            out = []
            def rec(i, ee):
                if i == len(n.generators):
                    out.append(self.ev(n.elt, ee)); return True
                g = n.generators[i]
                xs = self.concrete(self.ev(g.iter, ee))
                if xs is None: return False
                for x in xs:
                    e2 = Env({}, e.module, ee)
                    self.assign(g.target, x, e2, n)
                    if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                        if not rec(i + 1, e2): return False
                return True
            if rec(0, e): return self.new_list(out, n)
        if len(n.generators) == 1:
            g = n.generators[0]
            it = unlist(self.ev(g.iter, e))
            if isinstance(it, EnumVal): it = EnumVal(unlist(it.coll), it.start)
            ee = Env({}, e.module, e)
            if isinstance(it, (tuple, str)) or (isinstance(it, PList) and not it.per and it.length is None):
                out = []
                for x in (it if not isinstance(it, PList) else it.items):
                    self.assign(g.target, x, ee, n)
                    if all(self.truth(self.ev(c, ee)) for c in g.ifs): out.append(self.ev(n.elt, ee))
                return self.new_list(out, n)
            if isinstance(it, (Circ, EList)):
                key = "C|%s:%s@%d:%d" % (e.module.rel, "/".join(f.name for f in self.stack), n.lineno, n.col_offset)
                dp = self.elem_depth
                if isinstance(it, Circ):
                    if dp >= len(self.victims): raise Unsupported("nested element comprehension")
                    x, present = self.victims[dp], True
                else: x, present = it.value, it.present
                val = None
                if present:
                    self.elem_depth += 1
                    try:
                        self.assign(g.target, x, ee, n)
                        present = all(self.truth(self.ev(c, ee)) for c in g.ifs)
                        if present: val = self.ev(n.elt, ee)
                    finally: self.elem_depth -= 1
                self.loop_rec.setdefault((key, "__present__"), set()).add(Fraction(1 if present else 0))
                return EList(key, present, val, x, dp)
            if isinstance(it, EnumVal) and isinstance(it.coll, (tuple, PList)) and not getattr(it.coll, "per", None):
                out = []
                for i, x in enumerate(it.coll if isinstance(it.coll, tuple) else it.coll.items):
                    self.assign(g.target, (it.start + num(i), x), ee, n)
                    if all(self.truth(self.ev(c, ee)) for c in g.ifs): out.append(self.ev(n.elt, ee))
                return self.new_list(out, n)
            if isinstance(it, RangeVal):
                a, b, c = it.a.const(), it.b.const(), it.c.const()
                if None not in (a, b, c) and c != 0 and abs((b - a) / c) <= 40:
                    out = []
                    for x in range(int(a), int(b), int(c)):
                        self.assign(g.target, num(x), ee, n)
                        if all(self.truth(self.ev(q, ee)) for q in g.ifs): out.append(self.ev(n.elt, ee))
                    return self.new_list(out, n)
            # generic collection
            if isinstance(it, RangeVal):
                lb = it.b.atom()
                coll = lb[1] if lb and lb[0] == "len" and it.a.is_zero() and it.c == T.ONE else tokey(it)
                idx = atom("idx", coll)
                item = idx
            elif isinstance(it, EnumVal):
                coll = tokey(it.coll); idx = atom("idx", coll)
                item = (it.start + idx, self.getitem(it.coll, (idx,), n))
            else:
                coll = tokey(it)
                idx = atom("idx", coll)
                item = self.getitem(it, (idx,), n)
            self.assign(g.target, item, ee, n)
            conds = []
            if g.ifs:
                return atom("filter", coll, idx, tuple(ast.dump(c) for c in g.ifs), id(n))
            v = self.ev(n.elt, ee)
            l = self.new_list([], n)
            l.per.append((("map", coll, idx), (v,)))
            return l
        return atom("comp", id(n))
    def e_DictComp(self, n, e):
        return atom("dictcomp", id(n))

    # ---- calls ---------------------------------------------------------------------
    def e_Call(self, n, e):
        f = self.ev(n.func, e) if not isinstance(n.func, ast.Attribute) else None
        if f is None:
            base = self.ev(n.func.value, e)
            q = None
            if isinstance(base, ModVal) and base.name in QUIET_MODULES and base.name[len(self.prog.pkg) + 1:] + "." + n.func.attr not in self.opts.get("loud", ()):
                for a in n.args: 
                    try: self.ev(a, e)
                    except (Unsupported, RaiseSig): pass
                return atom("call", base.name + "." + n.func.attr)
            args, kw = None, None
            if isinstance(base, Ext) or isinstance(base, ModVal):
                f = self.getattr(base, n.func.attr, n)
            elif isinstance(base, (Obj,)) and not isinstance(base, Circ):
                if "__items__" in base.attrs and self.prog.find_method(base.cls, n.func.attr) is None and n.func.attr in dir([]):
                    f = BoundMeth(base.attrs["__items__"], n.func.attr)
                else: f = self.obj_attr(base, n.func.attr, n)
                if isinstance(f, Poly) and f.atom() and f.atom()[0] == "attr" and f.atom()[1] == base.term():
                    f = BoundMeth(base, n.func.attr)
            elif isinstance(base, Ext): f = Ext(base.name + "." + n.func.attr)
            elif isinstance(base, ClassVal):
                f = self.getattr(base, n.func.attr, n)
            elif isinstance(base, SuperVal):
                m = None
                for k in self.prog.mro(base.cls)[1:]:
                    if n.func.attr in k.methods: m = k.methods[n.func.attr]; break
                f = FuncVal(m, self_=base.obj) if m else BoundMeth(unlist(base.obj), n.func.attr)
            else: f = BoundMeth(base, n.func.attr)
        try:
            args = self.starred(n.args, e)
        except Unsupported:
            args = [self.ev(a.value if isinstance(a, ast.Starred) else a, e) for a in n.args]
            kw = {k.arg: self.ev(k.value, e) for k in n.keywords if k.arg}
            return atom("call", repr(tokey(f)), "*", *[tokey(a) for a in args])
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, e)
            if k.arg is None:
                if isinstance(v, PDict) and not v.unknown:
                    for kk, vv in v.items.items(): kw[kk] = vv
                else: kw["**"] = v
            else: kw[k.arg] = v
        return self.call(f, args, kw, n, e)

    def call(self, f, args, kw, n, e=None):
        if isinstance(f, FuncVal):
            fi = f.fi
            self.calls.append((fi.qualname, self.where(n), args, kw))
            short = fi.qualname[len(self.prog.pkg) + 1:] if fi.qualname.startswith(self.prog.pkg + ".") else fi.qualname
            for k in (short, "*." + fi.name):
                if k in self.summaries:
                    r = self.summaries[k](self, ([f.self_] if f.self_ is not None else []) + list(args), kw, n)
                    if r is not NotImplemented: return r
            if short in self.opaque or fi.name in self.opaque or fi.module.name in QUIET_MODULES or "**" in kw:
                return self.opaque_call(short, ([f.self_] if f.self_ is not None else []) + list(args), kw, n, fi=fi)
            try:
                return self.call_function(fi, args, kw, self_=f.self_, env=f.env)
            except Unsupported as u:
                if self.opts.get("strict"): raise
                return self.opaque_call(short, ([f.self_] if f.self_ is not None else []) + list(args), kw, n, why=str(u), fi=fi)
        if isinstance(f, LamVal):
            a = f.node.args
            names = [x.arg for x in a.args]
            vals = dict(zip(names, args)); vals.update(kw)
            ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for k, d in ds.items():
                if k not in vals: vals[k] = self.ev(d, f.env)
            if any(x not in vals for x in names): raise RaiseSig("TypeError", self.where(n), "lambda arity")
            return self.ev(f.node.body, Env(vals, f.module, f.env))
        if isinstance(f, ClassVal): return self.instantiate(f.ci, args, kw, n)
        if isinstance(f, Ext): return self.ext_call(f.name, args, kw, n)
        if isinstance(f, BoundMeth): return self.meth_call(f.base, f.name, args, kw, n)
        if isinstance(f, Obj):
            if f.cls is not None:
                m = self.prog.find_method(f.cls, "__call__")
                if m: return self.call_function(m, args, kw, self_=f)
            return self.opaque_call("()", [f] + list(args), kw, n)
        if isinstance(f, Poly):
            a = f.atom()
            if a and a[0] == "attr": return self.meth_call(a[1], a[2], args, kw, n)
            return self.opaque_call(f, args, kw, n)
        return self.opaque_call(repr(f), args, kw, n)

    def opaque_call(self, name, args, kw, n, why=None, fi=None):
        ks = [tokey(a) for a in args] + [("kw", k, tokey(v)) for k, v in sorted(kw.items())]
        named = list(zip(fi.params(), args)) + list(kw.items()) if fi is not None else [(None, a) for a in list(args) + list(kw.values())]
        for pn, a in named:
            if isinstance(a, Arr) and pn is not None:
                from .effects import writes_param
                if not writes_param(self.prog, fi, pn): continue
            if isinstance(a, Arr): self.unknown_writes.append((a.name, "passed to %s" % (name,), self.where(n), why))
        self.events.append(("opaque", name if isinstance(name, str) else repr(name), tuple(ks), self.where(n), why))
        return atom("call", name, *ks)

    def instantiate(self, ci, args, kw, n):
        for k in (ci.name, "new " + ci.name):
            if k in self.summaries:
                return self.summaries[k](self, list(args), kw, n)
        o = Obj(ci, "%s@%s" % (ci.name, self.where(n)))
        if any(isinstance(b, tuple) and b[1] in ("Exception", "ValueError") for k in self.prog.mro(ci) for b in k.bases):
            return o
        if ci.name in self.opaque:
            o.opaque = True
            self.events.append(("new", ci.name, tuple(tokey(a) for a in args), dict((k, v) for k, v in kw.items()), self.where(n)))
            return o
        m = self.prog.find_method(ci, "__init__")
        if m is not None:
            self.calls.append((m.qualname, self.where(n), args, kw))
            self.call_function(m, args, kw, self_=o)
        return o

    def meth_call(self, b, name, args, kw, n):
        if isinstance(b, (PList, PDict, tuple, str, Mat)) and not kw:
            if name == "__getitem__" and len(args) == 1: return self.getitem(b, list(args), n)
            if name == "__contains__" and len(args) == 1: return self.contains(args[0], b)
            if name == "__len__" and not args: return self.b_len([b], {}, n)
        if isinstance(b, str) and name == "format" and self.opts.get("text"):
            import string
            out, k = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(b):
                out.append(lit)
                if fld is None: continue
                if fld == "": fld = str(k); k += 1
                if fld.isdigit():
                    if int(fld) >= len(args): raise RaiseSig("IndexError", self.where(n), "format")
                    v = args[int(fld)]
                elif fld in kw: v = kw[fld]
                elif fld.split(".")[0].split("[")[0] not in kw: raise RaiseSig("KeyError", self.where(n), fld)
                else: raise Unsupported("format field %s at %s" % (fld, self.where(n)))
                out.append(self.opts["text"](self, spec or "s", v))
            return "".join(out)
        if isinstance(b, str) and name in FOLD_STR and not kw:
            cs = [int(a.const()) if isinstance(a, Poly) and a.const() is not None else a for a in args]
            if all(isinstance(a, (str, int)) or a is None for a in cs):
                try: r = getattr(b, name)(*cs)
                except (ValueError, TypeError) as x: raise RaiseSig(type(x).__name__, self.where(n), str(x))
                return num(r) if isinstance(r, int) and not isinstance(r, bool) else r
        if isinstance(b, Circ):
            k = "circ." + name
            if k in self.summaries: return self.summaries[k](self, args, kw, n)
            if name in CIRC_SUMM: return CIRC_SUMM[name](self, b, args, kw, n)
            return self.opaque_call("circ." + name, args, kw, n)
        if isinstance(b, bool) and name in ("any", "all", "item"): return b
        if isinstance(b, CmpMat) and name in ("any", "all"): return b.any() if name == "any" else b.all()
        if isinstance(b, Mat):
            if name in ("flatten", "ravel") or (name == "reshape" and len(args) == 1 and isinstance(args[0], Poly) and args[0].const() == -1):
                return Mat((len(b.vals),), b.vals)
            if name in ("copy", "astype"): return Mat(b.shape, b.vals)
            if name == "tolist" and not b.shape: return b.vals[0]
            if name == "tolist":
                f = lambda m: self.new_list([f(x) if isinstance(x, Mat) else x for x in m.rows()], n)
                return f(b)
            if name == "dot":
                r = self.mat_dot(b, args[0])
                if r is not None: return r
            if name == "transpose" and not args: return self.getattr(b, "T", n)
            if self.opts.get("smallmat"):
                r = self.mat_meth(b, name, args, kw, n)
                if r is not NotImplemented: return r
            if name == "sum" and not args and not kw: return sum(b.vals, T.ZERO)
            b = b.term()
        if isinstance(b, PList):
            if name == "append":
                b.items.append(args[0]); return None
            if name == "extend":
                self.list_extend(b, args[0], n); return None
            if name == "insert":
                k = args[0].const() if isinstance(args[0], Poly) else None
                if k is not None and not b.per: b.items.insert(int(k), args[1]); return None
                b.items.append(args[1]); b.length = atom("len*", self.fresh("ins")); return None
            if name == "remove" and not b.per and b.length is None:
                for i, y in enumerate(b.items):
                    if y is args[0] or self.equal(y, args[0]):
                        del b.items[i]; return None
                raise RaiseSig("ValueError", self.where(n), "list.remove")
            if name == "index":
                if not b.per and b.length is None:
                    for i, y in enumerate(b.items):
                        if y is args[0] or self.equal(y, args[0]): return num(i)
                    raise RaiseSig("ValueError", self.where(n), "list.index")
                return self.list_index(b, args[0], n)
            if name == "reverse" and not b.per:
                b.items.reverse(); return None
            if name == "pop" and not b.per and b.items:
                if not args: return b.items.pop()
                c = args[0].const() if isinstance(args[0], Poly) else None
                if c is not None: return b.items.pop(int(c))
            if name == "copy": return self.new_list(list(b.items), n)
            if name in ("sort", "remove", "pop", "clear", "reverse"):
                b.per.append(((name,), tuple(args)))
                return atom("call", "list." + name, *[tokey(a) for a in args])
            return self.opaque_call("list." + name, [b] + list(args), kw, n)
        if isinstance(b, EList):
            if name == "index": return self.list_pos(b) if args and (args[0] is b.value or self.eqv(args[0], b.value)) else atom("call", ".index", tokey(b), *[tokey(a) for a in args])
            return self.opaque_call("list." + name, [b] + list(args), kw, n)
        if isinstance(b, PDict):
            if name == "get":
                k = tokey(args[0])
                if k in b.items: return b.items[k]
                if not b.unknown: return args[1] if len(args) > 1 else None
            if name == "update":
                if args and isinstance(args[0], PDict):
                    b.items.update(args[0].items); b.keyvals.update(args[0].keyvals)
                elif args: b.unknown.append(tokey(args[0]))
                for k, v in kw.items(): b.items[k] = v
                return None
            if name == "items" and not b.unknown:
                return self.new_list([(b.keyvals.get(k, k), v) for k, v in b.items.items()], n)
            if name == "keys" and not b.unknown: return self.new_list([b.keyvals.get(k, k) for k in b.items], n)
            if name == "values" and not b.unknown: return self.new_list(list(b.items.values()), n)
            if name == "pop" and args:
                k = tokey(args[0])
                if k in b.items: return b.items.pop(k)
                if len(args) > 1: return args[1]
                if not b.unknown and all(isinstance(y, (str, int, Fraction)) or (isinstance(y, Poly) and y.const() is not None) for y in list(b.items) + [k]):
                    raise RaiseSig("KeyError", self.where(n), "pop")
            if name == "clear" and not args:
                b.items.clear(); b.keyvals.clear(); del b.unknown[:]
                return None
            if name == "setdefault" and args and not b.unknown:
                k = tokey(args[0])
                if k not in b.items:
                    b.items[k] = args[1] if len(args) > 1 else None
                    b.keyvals[k] = args[0]
                return b.items[k]
            if name == "copy":
                d = PDict(b.items); d.keyvals = dict(b.keyvals); d.unknown = list(b.unknown); return d
            return atom("call", "dict." + name, tokey(b), *[tokey(a) for a in args])
        if isinstance(b, str) and all(isinstance(a, str) for a in args) and name in ("upper", "lower", "strip", "startswith", "endswith", "replace", "split", "find", "lstrip", "rstrip", "title", "capitalize", "isdigit"):
            r = getattr(b, name)(*args)
            if isinstance(r, list): return self.new_list(r, n)
            return P(r) if isinstance(r, int) and not isinstance(r, bool) else r
        if isinstance(b, str) and name == "join" and len(args) == 1 and isinstance(args[0], (PList, tuple)) and not getattr(args[0], "per", None):
            its = args[0].items if isinstance(args[0], PList) else args[0]
            r = ""
            for i, x in enumerate(its): r = self.cat(self.cat(r, b) if i else r, x)
            return r
        if isinstance(b, str) and name == "format" and not kw:
            return atom("fmt", b, tuple(tokey(a) for a in args))
        if isinstance(b, Arr):
            if name == "row_insert" or name == "col_insert":
                d = 0 if name == "row_insert" else 1
                z = args[1]
                if isinstance(z, Arr) and z.zero and not z.cells and args[0] == b.shape[d]:
                    b.shape[d] = b.shape[d] + z.shape[d]
                    return b
                return self.opaque_call("." + name, [b] + list(args), kw, n)
            if name in ("copy", "squeeze", "reshape", "tolist", "dot", "max", "min", "any", "all", "ravel", "flatten", "transpose", "sum", "astype", "toarray", "todense", "tocsc", "tocsr", "tocoo"):
                return atom("call", "." + name, b.term(), *[tokey(a) for a in args])
            if name == "fill":
                self.write(b, ("all",), args[0], n); return None
            return self.opaque_call("." + name, [b] + list(args), kw, n)
        if isinstance(b, Obj) and "__pattern__" in b.attrs:
            r = self.re_apply(b, name, args, n)
            if r is not NotImplemented: return r
        if isinstance(b, Obj) and "__match__" in b.attrs:
            m = b.attrs["__match__"]
            if name == "group":
                g = [int(a.const()) if isinstance(a, Poly) and a.const() is not None else a for a in args]
                if all(isinstance(x, (int, str)) for x in g): return m.group(*g)
            if name == "groups": return m.groups()
        if isinstance(b, Poly) and name in ("upper", "lower"):
            a = b.atom()
            if a and a[0] == "call" and a[1] in (".upper", ".lower"): b = a[2]
            return atom("call", "." + name, b)
        if isinstance(b, Poly) and name == "reshape": pass
        t = b if isinstance(b, Poly) else term(b)
        self.events.append(("meth", t, name, tuple(tokey(a) for a in args), self.where(n)))
        hook = self.opts.get("meth_hook")
        if hook is not None:
            r = hook(self, b, name, args, kw, n)
            if r is not NotImplemented: return r
        for a in list(args) + list(kw.values()):
            if isinstance(a, Arr) and isinstance(b, Obj): self.unknown_writes.append((a.name, "passed to method %s" % name, self.where(n)))
        return atom("call", "." + name, t, *([tokey(a) for a in args] + [("kw", k, tokey(v)) for k, v in sorted(kw.items())]))

    def mat_meth(self, b, name, args, kw, n):
        if name == "reshape":
            d = list(args[0]) if len(args) == 1 and isinstance(args[0], tuple) else list(args)
            if d and all(isinstance(x, Poly) and x.const() is not None for x in d):
                d = [int(x.const()) for x in d]
                k = 1
                for x in d: k *= x if x != -1 else 1
                d = [x if x != -1 else (len(b.vals) // k if k else 0) for x in d]
                return Mat(d, b.vals)
        if name == "squeeze": return Mat([x for x in b.shape if x != 1], b.vals)
        if name == "view" and len(args) == 1 and isinstance(args[0], Ext) and "float" in args[0].name and b.shape:
            return Mat(b.shape[:-1] + (2 * b.shape[-1],), [q for v in b.vals for q in (atom("call", "real", tokey(v)), atom("call", "imag", tokey(v)))])
        if name in ("max", "min") and not args and not kw: return self.minmax(name, [b], n)
        if name in ("any", "all") and not args and not kw:
            return (any if name == "any" else all)(self.truth(v) for v in b.vals)
        if name == "fill":
            b.vals[:] = [args[0]] * len(b.vals)
            return None
        if name in ("item",) and len(b.vals) == 1: return b.vals[0]
        if name in ("todense", "toarray", "tocsc", "tocsr", "tocoo"): return b
        return NotImplemented

    def eqv(self, a, b):
        try: return tokey(a) == tokey(b)
        except Unsupported: return False

    def list_index(self, l, x, n):
        # position of the generic element's own entry in a list filled by one element loop
        for k, vs in l.per:
            if isinstance(k, str) and k.startswith("E|") and any(self.eqv(v, x) for v in vs):
                if self.phase == 2:
                    info = self.loop_info.get((k, "list:%s" % l.name))
                    if info is not None and info != "irregular":
                        v = num(len(l.items))
                        for d, S in info: v = v + num(d) * atom("cnt", S)
                        return v
                return num(len(l.items)) + atom("lv", k, "list:%s" % l.name)
        return atom("call", "list.index", tokey(l), tokey(x))

    def list_len(self, l):
        if not l.per and l.length is None: return num(len(l.items))
        if l.length is not None: return l.length
        tot = num(len(l.items))
        for k, vs in l.per:
            if isinstance(k, str) and k.startswith("E|"):
                info = self.loop_info.get((k, "list:%s" % l.name)) if self.phase == 2 else None
                if info is not None and info != "irregular":
                    for d, S in info: tot = tot + num(d) * atom("tot", S)
                else: tot = tot + atom("lvend", k, "list:%s" % l.name)
            elif isinstance(k, tuple) and k[0] == "map" and len(vs) == 1: tot = tot + atom("len", k[1])
            else: return atom("len", tokey(l))
        return tot

    # ---- external functions --------------------------------------------------------
    def ext_call(self, name, args, kw, n):
        if name in self.summaries: return self.summaries[name](self, args, kw, n)
        short = name.split(".")[-1]
        if name.startswith("builtins."):
            if self.opts.get("iters") and args:
                if short == "iter" and not self.is_iter(args[0]): return IterVal(self.iterate(args[0], n))
                if short == "iter":
                    if isinstance(args[0], IterVal): return args[0]
                    return self.call_function(self.prog.find_method(args[0].cls, "__iter__"), [], {}, self_=args[0])
                if short == "next":
                    x = args[0]
                    try:
                        if isinstance(x, IterVal): return next(x.it)
                        if isinstance(x, Obj) and x.cls is not None and self.prog.find_method(x.cls, "__next__"): return self.call_function(self.prog.find_method(x.cls, "__next__"), [], {}, self_=x)
                    except StopIteration: q = RaiseSig("StopIteration", self.where(n))
                    except RaiseSig as q2: q = q2
                    else: raise Unsupported("next of %r" % (x,))
                    if q.name == "StopIteration" and len(args) > 1: return args[1]
                    raise q
                if short in ("list", "tuple", "zip", "sum", "min", "max", "sorted", "set", "map", "filter", "reversed"):
                    args = [self.new_list(list(self.iterate(a, n)), n) if self.is_iter(a) else a for a in args]
            m = getattr(self, "b_" + short, None)
            if m is not None: return m(args, kw, n)
            return atom("call", short, *[tokey(a) for a in args])
        m = getattr(self, "x_" + short, None)
        root = name.split(".")[0]
        if m is not None and root in ("numpy", "math", "scipy", "sympy", "cmath", "np"):
            r = m(args, kw, n, name)
            if r is not NotImplemented: return r
        if root == "re" and args and isinstance(args[0], str):
            r = self.regex(short, args, kw, n)
            if r is not NotImplemented: return r
        if name in ("sys.exit", "os._exit", "exit"): raise RaiseSig("SystemExit", self.where(n))
        if name in ("copy.copy", "copy.deepcopy") and args:
            a = args[0]
            if isinstance(a, PList): return self.new_list(list(a.items), n)
            if isinstance(a, PDict):
                d = PDict(a.items); d.keyvals = dict(a.keyvals); return d
            if isinstance(a, (Poly, tuple, str)) or a is None: return a
            if isinstance(a, Obj) and self.opts.get("copy_obj"):
                o = Obj(a.cls, a.name, dict(a.attrs), opaque=a.opaque)
                o.absent |= set(a.absent)
                o.is_copy = True
                return o
            return atom("call", name, tokey(a))
        return self.opaque_ext(name, args, kw, n)

    RE_FLAGS = {"IGNORECASE": 2, "I": 2, "DOTALL": 16, "S": 16, "MULTILINE": 8, "M": 8, "VERBOSE": 64, "X": 64, "ASCII": 256, "UNICODE": 32}
    def regex(self, short, args, kw, n):
        """constant pattern applied to constant text"""
        if short == "compile":
            fl = 0
            f = args[1] if len(args) > 1 else kw.get("flags", T.ZERO)
            for a in (T.atoms(term(f)) if f is not None else ()):
                nm = a[1].split(".")[-1] if a[0] in ("val", "ext", "sym", "glob") and isinstance(a[1], str) else None
                if nm is None and a[0] == "val": nm = repr(a[1])
                for k, v in self.RE_FLAGS.items():
                    if nm == k or (isinstance(nm, str) and nm.rstrip("')").endswith("re." + k)): fl |= v
            o = Obj(None, "regex", {"__pattern__": args[0], "__flags__": fl}, opaque=True)
            return o
        if len(args) > 1 and isinstance(args[1], str):
            o = self.regex("compile", [args[0]] + list(args[2:3]), kw, n)
            return self.re_apply(o, short, args[1:2], n)
        return NotImplemented
    def re_apply(self, o, name, args, n):
        import re
        try: rx = re.compile(o.attrs["__pattern__"], o.attrs["__flags__"])
        except re.error: raise RaiseSig("re.error", self.where(n))
        t = args[0] if args else None
        if not isinstance(t, str) or name not in ("search", "match", "fullmatch", "findall", "split"): return NotImplemented
        r = getattr(rx, name)(t)
        if name in ("findall", "split"): return self.new_list(list(r), n)
        if r is None: return None
        return Obj(None, "rematch", {"__match__": r}, opaque=True)

    def opaque_ext(self, name, args, kw, n):
        return atom("call", name, *([tokey(a) for a in args] + [("kw", k, tokey(v)) for k, v in sorted(kw.items())]))

    # builtins
    def b_slice(self, a, kw, n):
        if len(a) == 1: return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
    def b_len(self, a, kw, n):
        x = unlist(a[0])
        if isinstance(x, Circ): return atom("len", "circ")
        if isinstance(x, Mat) and x.shape: return num(x.shape[0])
        if isinstance(x, (tuple, str)): return num(len(x))
        if isinstance(x, PList): return self.list_len(x)
        if isinstance(x, PDict) and not x.unknown: return num(len(x.items))
        if isinstance(x, EList):
            if self.phase == 2:
                info = self.loop_info.get((x.key, "__present__"))
                if info is not None and info != "irregular":
                    v = T.ZERO
                    for d, S in info: v = v + num(d) * atom("tot", S)
                    return v
            return atom("lvend", x.key, "__present__")
        if isinstance(x, Arr): return x.shape[0]
        if isinstance(x, Mat): return num(x.shape[0])
        return atom("len", tokey(x))
    def b_range(self, a, kw, n):
        a = [term(x) for x in a]
        if len(a) == 1: return RangeVal(T.ZERO, a[0], T.ONE)
        if len(a) == 2: return RangeVal(a[0], a[1], T.ONE)
        return RangeVal(a[0], a[1], a[2])
    def b_enumerate(self, a, kw, n):
        return EnumVal(a[0], term(a[1] if len(a) > 1 else kw.get("start", T.ZERO)))
    def b_iter(self, a, kw, n): return a[0]
    def b_list(self, a, kw, n):
        if not a: return self.new_list([], n)
        x = unlist(a[0])
        if isinstance(x, tuple): return self.new_list(list(x), n)
        if isinstance(x, PList):
            l = self.new_list(list(x.items), n)
            l.per, l.length = list(x.per), x.length
            return l
        if isinstance(x, (Circ, EList)): return x
        if isinstance(x, RangeVal):
            q, b, c = x.a.const(), x.b.const(), x.c.const()
            if None not in (q, b, c) and c and abs((b - q) / c) < 200: return self.new_list([num(i) for i in range(int(q), int(b), int(c))], n)
        if isinstance(x, PDict) and not x.unknown: return self.new_list([x.keyvals.get(k, k) for k in x.items], n)
        if isinstance(x, EnumVal) and isinstance(x.coll, (tuple,)): return self.new_list([(x.start + num(i), y) for i, y in enumerate(x.coll)], n)
        return atom("call", "list", tokey(x))
    def b_tuple(self, a, kw, n):
        if not a: return ()
        x = a[0]
        if isinstance(x, tuple): return x
        if isinstance(x, PList) and not x.per and x.length is None: return tuple(x.items)
        if isinstance(x, (Circ, EList)): return x
        return atom("call", "tuple", tokey(x))
    def b_zip(self, a, kw, n):
        seqs = []
        for x in a:
            if isinstance(x, Mat): x = tuple(x.rows())
            if isinstance(x, tuple): seqs.append(list(x))
            elif isinstance(x, PList) and not x.per and x.length is None: seqs.append(x.items)
            elif isinstance(x, (RangeVal, Obj, EnumVal)) and self.concrete(x) is not None: seqs.append(self.concrete(x))
            else: return atom("call", "zip", *[tokey(y) for y in a])
        return self.new_list([tuple(t) for t in zip(*seqs)], n)
    def b_isinstance(self, a, kw, n):
        x, c = a
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if self.isinst(x, k): return True
        return False
    def isinst(self, x, k):
        if isinstance(k, ClassVal):
            if isinstance(x, Obj) and x.cls is not None: 
                if k.ci in self.prog.mro(x.cls): return True
                return False
            if isinstance(x, Obj) and x.opaque: return self.ask(("isinstance", x.term(), k.ci.name)) if not self.opts.get("opaque_isinstance_false") else False
            if isinstance(x, Poly):
                a = x.atom()
                if a is None: return False
                if a[0] in ("idx", "pos", "cnt", "tot", "cell", "len"): return False
                return self.ask(("isinstance", x, k.ci.name))
            return False
        if isinstance(k, Ext):
            nm = k.name.split(".")[-1]
            if isinstance(x, str): return nm in ("str", "unicode", "basestring", "object")
            if isinstance(x, PList): return nm in ("list", "object", "Iterable", "Sequence")
            if isinstance(x, tuple): return nm in ("tuple", "object", "Iterable", "Sequence")
            if isinstance(x, PDict): return nm in ("dict", "object", "Mapping")
            if isinstance(x, bool): return nm in ("bool", "int", "object")
            if x is None: return nm in ("NoneType", "object")
            if isinstance(x, Obj): return nm == "object"
            if isinstance(x, Arr): return nm == "ndarray"
            if isinstance(x, Poly): return self.ask(("isinstance", x, nm))
        if isinstance(x, Poly): return self.ask(("isinstance", x, repr(tokey(k))))
        return False
    def b_hasattr(self, a, kw, n): return self.has_attr(a[0], a[1]) if isinstance(a[1], str) else self.ask(("hasattr", term(a[0]), tokey(a[1])))
    def b_getattr(self, a, kw, n):
        if isinstance(a[1], str):
            if len(a) > 2:
                if isinstance(a[0], Obj) and not self.has_attr(a[0], a[1]): return a[2]
            return self.getattr(a[0], a[1], n)
        return atom("call", "getattr", *[tokey(x) for x in a])
    def b_setattr(self, a, kw, n):
        if isinstance(a[1], str): self.set_attr(a[0], a[1], a[2], n); return None
        self.events.append(("attrwrite", tokey(a[0]), "?", a[2], self.where(n)))
    def b_type(self, a, kw, n):
        x = a[0]
        if isinstance(x, str): return Ext("builtins.str")
        if isinstance(x, Poly) and x.atom() and x.atom()[0] == "field": return Ext("builtins.float")
        if isinstance(x, PList): return Ext("builtins.list")
        if isinstance(x, tuple): return Ext("builtins.tuple")
        if isinstance(x, PDict): return Ext("builtins.dict")
        if isinstance(x, bool): return Ext("builtins.bool")
        if isinstance(x, Obj) and x.cls is not None: return ClassVal(x.cls)
        if isinstance(x, Poly) and self.is_text(x): return Ext("builtins.str")
        if x is None: return Ext("builtins.NoneType")
        if self.opts.get("inttype") and isinstance(x, Poly) and x.const() is not None: return Ext("builtins.int" if x.const() == int(x.const()) else "builtins.float")
        return atom("call", "type", tokey(x))
    def is_text(self, x):
        """identifiers and what is derived from them are strings"""
        a = strip_case(x).atom()
        return a is not None and a[0] == "sym" and a[1].startswith("id:")
    def b_abs(self, a, kw, n):
        if isinstance(a[0], Mat): return Mat(a[0].shape, [self.b_abs([v], kw, n) for v in a[0].vals])
        x = term(a[0])
        c = x.const()
        if c is not None: return num(abs(c))
        s = self.sign(x)
        if s is not None: return x if s >= 0 else -x
        if x.key()[0][1] < 0: x = -x
        return atom("call", "abs", x)
    def minmax(self, name, a, n):
        if len(a) == 1 and isinstance(a[0], Mat): a = a[0].vals
        if len(a) == 1 and isinstance(a[0], (tuple, PList)) and not getattr(a[0], "per", None): a = list(a[0]) if isinstance(a[0], tuple) else a[0].items
        ts = [term(x) for x in a]
        if ts and all(t.const() is not None for t in ts): return num((min if name == "min" else max)(t.const() for t in ts))
        if self.opts.get("split_max") and len(ts) == 2:
            less = self.lt0(ts[0] - ts[1])
            return ts[0] if less == (name == "min") else ts[1]
        return atom("call", name, *sorted(ts, key=repr))
    def b_min(self, a, kw, n): return self.minmax("min", a, n)
    def b_max(self, a, kw, n): return self.minmax("max", a, n)
    def b_float(self, a, kw, n):
        if not a: return T.ZERO
        x = a[0]
        if isinstance(x, Poly):
            at = x.atom()
            if self.opts.get("str_float") : return atom("call", "float", x)
            return x
        if isinstance(x, str):
            try: return P(float(x))
            except ValueError: raise RaiseSig("ValueError", self.where(n))
        return term(x)
    def b_int(self, a, kw, n):
        x = a[0] if a else T.ZERO
        if isinstance(x, bool): return num(int(x))
        if isinstance(x, Poly):
            c = x.const()
            if c is not None: return num(int(c))
            at = x.atom()
            if at and at[0] in ("len", "idx", "pos", "cnt", "tot"): return x
            if at and at[0] == "call" and at[1] in ("int", "floor", "ceil", "round"): return x
            return atom("call", "int", x)
        if isinstance(x, str):
            try: return num(int(x))
            except ValueError: raise RaiseSig("ValueError", self.where(n))
        return atom("call", "int", tokey(x))
    def b_str(self, a, kw, n):
        if not a: return ""
        x = a[0]
        if isinstance(x, str): return x
        if isinstance(x, Obj) and x.cls is not None:
            m = self.prog.find_method(x.cls, "__str__")
            if m: return self.call_function(m, [], self_=x)
        if isinstance(x, Poly) and x.atom() and x.atom()[0] in ("cat", "fmt"): return x
        if self.opts.get("text"): return self.opts["text"](self, "s", x)
        return atom("call", "str", tokey(x))
    def b_repr(self, a, kw, n):
        if self.opts.get("text") and not isinstance(a[0], (str, Obj)): return self.opts["text"](self, "r", a[0])
        return atom("call", "repr", tokey(a[0]))
    def b_bool(self, a, kw, n): return self.truth(a[0])
    def b_print(self, a, kw, n): return None
    def b_dict(self, a, kw, n):
        d = PDict()
        if a:
            if isinstance(a[0], PDict): d.items.update(a[0].items); d.keyvals.update(a[0].keyvals)
            elif isinstance(a[0], PList) and not a[0].per:
                for t in a[0].items:
                    if isinstance(t, tuple) and len(t) == 2: d.items[tokey(t[0])] = t[1]; d.keyvals[tokey(t[0])] = t[0]
            else: d.unknown.append(tokey(a[0]))
        for k, v in kw.items(): d.items[k] = v
        return d
    def b_set(self, a, kw, n):
        if not a: return self.new_list([], n)
        if self.opts.get("sets"):
            xs = self.concrete(a[0])
            if xs is not None and all(isinstance(x, str) or (isinstance(x, Poly) and x.const() is not None) for x in xs):
                out = []
                for x in xs:
                    if not any(tokey(x) == tokey(y) for y in out): out.append(x)
                return self.new_list(out, n)
        return atom("call", "set", tokey(a[0]))
    def b_sorted(self, a, kw, n):
        xs = self.concrete(a[0]) if isinstance(a[0], (tuple, PList, PDict)) else None
        if xs is not None and not kw and (all(isinstance(x, str) for x in xs) or all(isinstance(x, Poly) and x.const() is not None for x in xs)):
            return self.new_list(sorted(xs, key=lambda x: x if isinstance(x, str) else x.const()), n)
        return atom("call", "sorted", tokey(a[0]), *[("kw", k, tokey(v)) for k, v in sorted(kw.items())])
    def b_reversed(self, a, kw, n):
        if isinstance(a[0], PList) and not a[0].per: return self.new_list(list(reversed(a[0].items)), n)
        if isinstance(a[0], tuple): return tuple(reversed(a[0]))
        return atom("call", "reversed", tokey(a[0]))
    def b_map(self, a, kw, n):
        if len(a) == 2 and isinstance(a[1], Obj) and "__items__" in a[1].attrs: a = [a[0], unlist(a[1])]
        if len(a) == 2 and isinstance(a[1], (tuple, PList)) and not getattr(a[1], "per", None):
            return self.new_list([self.call(a[0], [x], {}, n) for x in (a[1] if isinstance(a[1], tuple) else a[1].items)], n)
        return atom("call", "map", *[tokey(x) for x in a])
    def b_filter(self, a, kw, n):
        xs = self.concrete(a[1]) if isinstance(a[1], (tuple, PList, Obj)) else None
        if xs is not None:
            return self.new_list([x for x in xs if self.truth(self.call(a[0], [x], {}, n) if a[0] is not None else x)], n)
        if isinstance(a[1], (Circ, EList)):
            key = "C|filter:%s@%d:%d" % ("/".join(f.name for f in self.stack), n.lineno, n.col_offset)
            dp = self.elem_depth
            if isinstance(a[1], Circ): x, present = self.victims[dp], True
            else: x, present = a[1].value, a[1].present
            if present:
                self.elem_depth += 1
                try: present = self.truth(self.call(a[0], [x], {}, n)) if a[0] is not None else self.truth(x)
                finally: self.elem_depth -= 1
            self.loop_rec.setdefault((key, "__present__"), set()).add(Fraction(1 if present else 0))
            return EList(key, present, x if present else None, x, dp)
        return atom("call", "filter", *[tokey(x) for x in a])
    def b_sum(self, a, kw, n):
        x = a[0]
        if isinstance(x, (tuple, PList)) and not getattr(x, "per", None):
            r = T.ZERO
            for y in (x if isinstance(x, tuple) else x.items): r = r + term(y)
            return r
        if isinstance(x, EList) and isinstance(x.value, Poly) and x.value == T.ONE: return self.b_len([x], {}, n)
        return atom("call", "sum", *[tokey(y) for y in a])
    def b_any(self, a, kw, n):
        x = a[0]
        if isinstance(x, PList) and not x.per: return any(self.truth(y) for y in x.items)
        return atom("cond", "any", tokey(x))
    def b_all(self, a, kw, n):
        x = a[0]
        if isinstance(x, PList) and not x.per: return all(self.truth(y) for y in x.items)
        return atom("cond", "all", tokey(x))
    def b_super(self, a, kw, n):
        fi = self.stack[-1]
        e = self.frames[-1]
        ps = fi.params()
        return SuperVal(fi.cls, e.v.get(ps[0]) if ps else None)
    def b_complex(self, a, kw, n):
        if len(a) == 1 and isinstance(a[0], str):
            return P(complex(a[0]))
        if len(a) == 2: return term(a[0]) + T.J * term(a[1])
        return term(a[0])
    def b_pow(self, a, kw, n): return self.binop(ast.Pow(), a[0], a[1], n)
    def b_round(self, a, kw, n): return atom("call", "round", *[tokey(x) for x in a])

    # numpy-like
    def shape_of(self, v):
        if isinstance(v, (tuple, PList)): return [term(x) for x in (v if isinstance(v, tuple) else v.items)]
        if isinstance(v, Poly) and v.atom() and v.atom()[0] == "attr" and v.atom()[2] == "shape":
            return [atom("sub", v, num(0)), atom("sub", v, num(1))]
        return [term(v)]
    def x_zeros(self, a, kw, n, name):
        if not a: a = [kw.get("shape")]
        if name.startswith("sympy"):
            sh = [term(x) for x in a]
            if len(sh) == 1: sh = sh * 2
            return self.new_arr(sh, True, "sympy")
        sh = self.shape_of(a[0])
        if self.const_shape(sh) is not None:
            d = self.const_shape(sh)
            return Mat(d, [T.ZERO] * self.prod(d))
        return self.new_arr(sh, True)
    x_empty = x_zeros
    def prod(self, d):
        k = 1
        for x in d: k *= x
        return k
    def const_shape(self, sh):
        if not self.opts.get("smallmat"): return None
        d = [x.const() for x in sh]
        if None in d or self.prod([int(x) for x in d]) > 100: return None
        return [int(x) for x in d]
    def x_zeros_like(self, a, kw, n, name):
        if isinstance(a[0], Mat): return Mat(a[0].shape, [T.ZERO] * len(a[0].vals))
        return NotImplemented
    def x_arange(self, a, kw, n, name):
        c = [x.const() if isinstance(x, Poly) else None for x in a]
        if not self.opts.get("smallmat") or None in c: return NotImplemented
        lo, hi, st = (0, c[0], 1) if len(c) == 1 else (c[0], c[1], 1) if len(c) == 2 else c
        out = []
        while (lo < hi if st > 0 else lo > hi) and len(out) < 100:
            out.append(num(lo)); lo += st
        return Mat((len(out),), out)
    def x_allclose(self, a, kw, n, name):
        if not self.opts.get("smallmat"): return NotImplemented
        d = dict(zip(("a", "b", "rtol", "atol"), a)); d.update(kw)
        x, y = d["a"], d["b"]
        rt, at = d.get("rtol", num(Fraction(1, 10 ** 5))), d.get("atol", num(Fraction(1, 10 ** 8)))
        if not isinstance(x, Mat) and not isinstance(y, Mat): xs, ys = [x], [y]
        else:
            k = len((x if isinstance(x, Mat) else y).vals)
            xs = x.vals if isinstance(x, Mat) else [x] * k
            ys = y.vals if isinstance(y, Mat) else [y] * k
            if len(xs) != len(ys): return NotImplemented
        for p, q in zip(xs, ys):
            if self.lt0(term(at) + term(rt) * self.b_abs([term(q)], {}, n) - self.b_abs([term(p) - term(q)], {}, n)): return False
        return True
    def x_all(self, a, kw, n, name):
        if isinstance(a[0], CmpMat): return a[0].all()
        if isinstance(a[0], Mat): return all(self.truth(v) for v in a[0].vals)
        if isinstance(a[0], bool): return a[0]
        return NotImplemented
    def x_any(self, a, kw, n, name):
        if isinstance(a[0], CmpMat): return a[0].any()
        if isinstance(a[0], Mat): return any(self.truth(v) for v in a[0].vals)
        if isinstance(a[0], bool): return a[0]
        return NotImplemented
    def x_logical_and(self, a, kw, n, name):
        if isinstance(a[0], CmpMat) and isinstance(a[1], CmpMat): return self.binop(ast.BitAnd(), a[0], a[1], n)
        if all(isinstance(x, bool) for x in a[:2]): return a[0] and a[1]
        return NotImplemented
    def x_logical_or(self, a, kw, n, name):
        if isinstance(a[0], CmpMat) and isinstance(a[1], CmpMat): return self.binop(ast.BitOr(), a[0], a[1], n)
        if all(isinstance(x, bool) for x in a[:2]): return a[0] or a[1]
        return NotImplemented
    def x_max(self, a, kw, n, name): return self.minmax("max", a, n) if isinstance(a[0], Mat) else NotImplemented
    x_amax = x_max
    def x_min(self, a, kw, n, name): return self.minmax("min", a, n) if isinstance(a[0], Mat) else NotImplemented
    x_amin = x_min
    def x_eye(self, a, kw, n, name):
        d = self.const_shape([term(a[0])])
        if d is not None: return Mat((d[0], d[0]), [T.ONE if i == j else T.ZERO for i in range(d[0]) for j in range(d[0])])
        x = self.new_arr([term(a[0])] * 2, False, "eye")
        return x
    def x_ones(self, a, kw, n, name):
        d = self.const_shape(self.shape_of(a[0]))
        if d is not None: return Mat(d, [T.ONE] * self.prod(d))
        return atom("call", "ones", tokey(a[0]))
    def x_lil_matrix(self, a, kw, n, name): 
        if isinstance(a[0], tuple): return self.new_arr(self.shape_of(a[0]), True)
        return atom("call", "lil_matrix", tokey(a[0]))
    def x_concatenate(self, a, kw, n, name):
        seq = a[0]
        its = list(seq) if isinstance(seq, tuple) else (seq.items if isinstance(seq, PList) and not seq.per else None)
        ax = a[1] if len(a) > 1 else kw.get("axis", T.ZERO)
        if its and all(isinstance(x, Mat) for x in its) and isinstance(ax, Poly) and ax.const() is not None:
            d = int(ax.const())
            if len({x.shape[:d] + x.shape[d + 1:] for x in its}) == 1 and d < len(its[0].shape):
                if d == 0: return Mat((sum(x.shape[0] for x in its),) + its[0].shape[1:], [v for x in its for v in x.vals])
                if d == 1 and len(its[0].shape) == 2:
                    return Mat((its[0].shape[0], sum(x.shape[1] for x in its)), [v for i in range(its[0].shape[0]) for x in its for v in x.vals[i * x.shape[1]:(i + 1) * x.shape[1]]])
        if its and len(its) == 2 and isinstance(its[0], Arr) and isinstance(its[1], Arr) and its[1].zero and not its[1].cells and isinstance(ax, Poly) and ax.const() is not None:
            d = int(ax.const())
            if d < len(its[0].shape) and d < len(its[1].shape):
                # the other dimension must agree
                for o in range(len(its[0].shape)):
                    if o != d and o < len(its[1].shape) and its[0].shape[o] != its[1].shape[o]:
                        self.events.append(("shape-mismatch", self.where(n), T.show(its[0].shape[o]), T.show(its[1].shape[o])))
                its[0].shape[d] = its[0].shape[d] + its[1].shape[d]
                return its[0]
        return NotImplemented
    def x_vstack(self, a, kw, n, name): return self.x_concatenate([a[0], T.ZERO], {}, n, name)
    def x_hstack(self, a, kw, n, name): return self.x_concatenate([a[0], T.ONE], {}, n, name)
    def x_array(self, a, kw, n, name): 
        x = a[0]
        m = mat_of(x)
        if m is not None: return Mat(m.shape, m.vals)
        if isinstance(x, (Poly, Arr)): return x
        return atom("call", "array", tokey(x))
    x_asarray = x_array
    def x_delete(self, a, kw, n, name):
        m, ix = mat_of(a[0]), a[1]
        ax = a[2] if len(a) > 2 else kw.get("axis")
        if m is None or not isinstance(ax, Poly): return NotImplemented
        if isinstance(ix, PList) and not ix.per: ix = tuple(ix.items)
        if isinstance(ix, Poly): ix = (ix,)
        if not isinstance(ix, tuple) or not all(isinstance(y, Poly) and y.const() is not None for y in ix): return NotImplemented
        d = int(ax.const())
        if not -len(m.shape) <= d < len(m.shape): raise RaiseSig("AxisError", self.where(n))
        d %= len(m.shape)
        drop = {int(y.const()) % m.shape[d] for y in ix}
        keep = [k for k in range(m.shape[d]) if k not in drop]
        sl = Mat((m.shape[d],), [num(k) for k in range(m.shape[d])])
        inner = 1
        for q in m.shape[d + 1:]: inner *= q
        vals = [v for j, v in enumerate(m.vals) if (j // inner) % m.shape[d] in keep]
        return Mat(m.shape[:d] + (len(keep),) + m.shape[d + 1:], vals)
    def x_dot(self, a, kw, n, name):
        if self.opts.get("smallmat") and len(a) == 2 and isinstance(a[0], Mat) != isinstance(a[1], Mat) and any(isinstance(x, Poly) for x in a): return self.binop(ast.Mult(), a[0], a[1], n)
        r = self.mat_dot(a[0], a[1]) if len(a) == 2 else None
        return r if r is not None else NotImplemented
    x_matmul = x_dot
    def x_transpose(self, a, kw, n, name):
        return self.getattr(a[0], "T", n) if isinstance(a[0], Mat) else NotImplemented
    def x_exp(self, a, kw, n, name): return T.exp(term(a[0]))
    def x_log(self, a, kw, n, name): return T.log(term(a[0]))
    def x_linspace(self, a, kw, n, name):
        if not self.opts.get("iters") or set(kw) - {"num", "endpoint", "dtype"}: return NotImplemented
        pts = kw.get("num", a[2] if len(a) > 2 else num(50))
        c = pts.const() if isinstance(pts, Poly) else None
        if c is None or c != int(c) or not 0 < c <= 200: raise Unsupported("linspace of %r points" % (pts,))
        end = kw.get("endpoint", a[3] if len(a) > 3 else True)
        if not isinstance(end, bool): raise Unsupported("linspace endpoint %r" % (end,))
        k = int(c)
        d = num(max(k - 1, 1) if end else k)
        x, y = term(a[0]), term(a[1])
        return Mat((k,), [x + (y - x) * num(i) / d for i in range(k)])
    def x_logspace(self, a, kw, n, name):
        base = kw.pop("base", num(10)) if kw else num(10)
        m = self.x_linspace(a, kw, n, name)
        if m is NotImplemented: return m
        return Mat(m.shape, [T.exp(v * T.log(term(base))) for v in m.vals])
    def x_geomspace(self, a, kw, n, name):
        m = self.x_linspace([T.log(term(a[0])), T.log(term(a[1]))] + list(a[2:]), kw, n, name)
        if m is NotImplemented: return m
        return Mat(m.shape, [T.exp(v) for v in m.vals])
    def x_log10(self, a, kw, n, name): return T.log(term(a[0])) / T.log(num(10))
    def x_sqrt(self, a, kw, n, name): return term(a[0]) ** Fraction(1, 2)
    def x_sin(self, a, kw, n, name): return T.sin(term(a[0]))
    def x_cos(self, a, kw, n, name): return T.cos(term(a[0]))
    def x_tanh(self, a, kw, n, name): return T.tanh(term(a[0]))
    def x_cosh(self, a, kw, n, name): return T.cosh(term(a[0]))
    def x_sinh(self, a, kw, n, name): return T.sinh(term(a[0]))
    def x_power(self, a, kw, n, name): return self.binop(ast.Pow(), a[0], a[1], n)
    x_pow = x_power
    def x_abs(self, a, kw, n, name): return self.b_abs(a, kw, n)
    x_fabs = x_abs
    x_absolute = x_abs
    def x_multiply(self, a, kw, n, name): return self.binop(ast.Mult(), a[0], a[1], n) if isinstance(a[0], Mat) or isinstance(a[1], Mat) else term(a[0]) * term(a[1])
    def x_divide(self, a, kw, n, name): return self.binop(ast.Div(), a[0], a[1], n) if isinstance(a[0], Mat) or isinstance(a[1], Mat) else term(a[0]) / term(a[1])
    def x_add(self, a, kw, n, name): return self.binop(ast.Add(), a[0], a[1], n) if isinstance(a[0], Mat) or isinstance(a[1], Mat) else term(a[0]) + term(a[1])
    def x_subtract(self, a, kw, n, name): return self.binop(ast.Sub(), a[0], a[1], n) if isinstance(a[0], Mat) or isinstance(a[1], Mat) else term(a[0]) - term(a[1])
    def x_negative(self, a, kw, n, name): return Mat(a[0].shape, [-v for v in a[0].vals]) if isinstance(a[0], Mat) else -term(a[0])
    def x_square(self, a, kw, n, name): return term(a[0]) ** 2
    def x_complex(self, a, kw, n, name): return self.b_complex(a, kw, n)
    x_complex_ = x_complex
    def x_float64(self, a, kw, n, name): return term(a[0])
    x_float_ = x_float64
    def x_int64(self, a, kw, n, name): return self.b_int(a, kw, n)
    def x_maximum(self, a, kw, n, name): return self.minmax("max", a, n)
    def x_minimum(self, a, kw, n, name): return self.minmax("min", a, n)
    def x_radians(self, a, kw, n, name): return term(a[0]) * sym("pi") / num(180)
    x_deg2rad = x_radians
    def x_degrees(self, a, kw, n, name): return term(a[0]) * num(180) / sym("pi")
    x_rad2deg = x_degrees

FOLD_STR = {"count", "find", "rfind", "index", "rindex", "startswith", "endswith", "replace", "isalpha", "isdigit", "isalnum", "isspace", "isupper", "islower",
            "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "swapcase", "zfill", "ljust", "rjust", "center"}
class SuperVal(object):
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

EXT_CONST = {"numpy.e": T.exp(T.ONE), "math.e": T.exp(T.ONE), "numpy.inf": sym("inf"), "numpy.nan": sym("nan")}
EXC_BASES = {"IndexError": ("LookupError",), "KeyError": ("LookupError",), "ZeroDivisionError": ("ArithmeticError",),
             "OverflowError": ("ArithmeticError",), "FileNotFoundError": ("OSError", "IOError"),
             "IOError": ("OSError", "EnvironmentError"), "OSError": ("IOError", "EnvironmentError"), "UnicodeDecodeError": ("ValueError",)}
BUILTINS = set(dir(__import__("builtins"))) | {"unicode", "basestring", "xrange", "raw_input", "long", "unichr"}

def _circ_nodes(ip, b, a, kw, n): return sym("NV")
def _circ_vde_index(ip, b, a, kw, n):
    x = a[0] if a else kw.get("elem_or_id")
    if isinstance(x, Obj): x = x.attrs.get("part_id", x.term())
    return atom("vde", tokey(strip_case(x)))
def _circ_nonlin(ip, b, a, kw, n): return atom("cond", "circ.is_nonlinear")
CIRC_SUMM = {"get_nodes_number": _circ_nodes, "find_vde_index": _circ_vde_index, "is_nonlinear": _circ_nonlin}

def unlist(x):
    """instances of list subclasses stand for their item list"""
    if isinstance(x, Obj) and "__items__" in x.attrs: return x.attrs["__items__"]
    return x

def strip_case(x):
    if isinstance(x, Poly):
        a = x.atom()
        if a and a[0] == "call" and a[1] in (".upper", ".lower"): return a[2]
    return x

def load_of(t):
    if isinstance(t, ast.Name): return ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    if isinstance(t, ast.Attribute): return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    if isinstance(t, ast.Subscript): return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    raise Unsupported("augassign target")

def walk_own(node):
    """nodes of a function body without nested functions"""
    todo = list(node.body)
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo.append(c)

def stored_names(body):
    s = set()
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): s.add(x.id)
    return s

OUT_ROOTS = ("print", "printing", "tick", "sys.stdout", "sys.stderr", "flte", "logging", "warnings")
def output_only(body):
    for s in body:
        if isinstance(s, ast.Pass): continue
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): continue
            if isinstance(s.value, ast.Call):
                d = dotted(s.value.func) or ""
                if d == "print" or d.split(".")[0] in OUT_ROOTS or d.endswith(".print_short") : continue
            return False
        if isinstance(s, ast.If):
            if output_only(s.body) and output_only(s.orelse): continue
            return False
        if isinstance(s, ast.For):
            if output_only(s.body) and output_only(s.orelse): continue
            return False
        return False
    return True

# -------------------------------------------------------------------------------- driver
class Run(object):
    __slots__ = ("ip", "outcome", "value", "trace", "error")

def explore(make, run, limit=600, truncate=False):
    """visits every class of the predicate partition. make(script)->Interp ; run(ip)->value"""
    todo = [[]]
    out = []
    while todo:
        script = todo.pop()
        ip = make(script)
        r = Run()
        r.ip, r.error, r.value = ip, None, None
        try:
            r.value = run(ip)
            r.outcome = "return"
        except ReturnSig as x:
            r.outcome, r.value = "return", x.v
        except RaiseSig as x:
            r.outcome, r.error = "raise", x
        except (Unsupported, Budget) as x:
            r.outcome, r.error = "unsupported", x
        r.trace = ip.trace
        out.append(r)
        if len(out) >= limit and truncate and todo: break
        if len(out) > limit: raise AnalysisBroken("partition too large (%d classes)" % len(out))
        for i in range(len(script), len(ip.trace)):
            todo.append([v for _, v in ip.trace[:i]] + [not ip.trace[i][1]])
    return out
