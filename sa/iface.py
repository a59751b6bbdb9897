"""What the code that handles elements asks of each element class.

Every function is walked once per element class for the variables that hold elements of the circuit; conditions that the
class decides (isinstance, hasattr, constant attributes, class predicates) select the branch, others are followed both ways.
Each attribute read and method call that is reached is an obligation of the class."""
import ast
from .program import FuncInfo, ClassInfo, dotted

UNKNOWN = object()
OBJ = set(dir(object))

def self_stores(fn):
    """attributes a method stores on its first parameter, with the stored expressions"""
    ps = fn.params()
    if not ps: return
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == ps[0]: yield n.attr, n

class Shape(object):
    """attributes of a class's instances: always there after construction / set later by some method / never"""
    def __init__(self, prog, ci):
        self.prog, self.ci = prog, ci
        self.mro = prog.mro(ci)
        self.open = any(isinstance(b, tuple) and b[1] not in ("object", "list", "dict") for k in self.mro for b in k.bases) or prog.find_method(ci, "__getattr__") is not None
        self.bases = set()
        for k in self.mro:
            for b in k.bases:
                if isinstance(b, tuple) and b[1] in ("list", "dict"): self.bases |= set(dir({"list": list, "dict": dict}[b[1]]))
        self.static = set(OBJ) | self.bases
        for k in self.mro: self.static |= set(k.methods) | set(k.attrs) | set(k.setters)
        self.init, self.later, self.values = set(), set(), {}
        m = prog.find_method(ci, "__init__")
        if m: self._init(m, set())
        for k in self.mro:
            for f in k.methods.values():
                for a, _ in self_stores(f): self.later.add(a)
            for f in k.setters.values():
                for a, _ in self_stores(f): self.later.add(a)
        self.later -= self.init

    def _init(self, fn, seen):
        if fn.qualname in seen: return
        seen.add(fn.qualname)
        me = fn.params()[0] if fn.params() else "self"
        par = {}
        for n in ast.walk(fn.node):
            for c in ast.iter_child_nodes(n): par[c] = n
        must = self._always(fn.node.body, me)[0] or set()
        for a, n in self_stores(fn):
            (self.init if a in must else self.later).add(a)
            p = par.get(n)
            v = UNKNOWN
            if isinstance(p, ast.Assign) and isinstance(p.value, ast.Constant) and n in p.targets: v = p.value.value
            self.values.setdefault(a, []).append(v)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    b = n.func.value
                    if isinstance(b, ast.Name) and b.id == me:
                        f = self.prog.find_method(self.ci, n.func.attr)
                        if f: self._init(f, seen)
                    elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                        for k in self.mro[self.mro.index(fn.cls) + 1 if fn.cls in self.mro else 1:]:
                            if n.func.attr in k.methods:
                                self._init(k.methods[n.func.attr], seen); self._super_args(k.methods[n.func.attr], n); break
                    else:
                        d = dotted(b)
                        r = self.prog.resolve_dotted(fn.module, d) if d else None
                        if isinstance(r, ClassInfo) and n.func.attr in r.methods and r in self.mro: self._init(r.methods[n.func.attr], seen)
                elif isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant): self.init.add(n.args[1].value)

    def _super_args(self, f, call): pass

    def _always(self, body, me):
        """(attributes stored on every path that gets through, whether some path does)"""
        got = set()
        for s in body:
            if isinstance(s, (ast.Return, ast.Raise)): return (got, isinstance(s, ast.Return)) if isinstance(s, ast.Return) else (None, False)
            if isinstance(s, ast.If):
                a, b = self._always(s.body, me), self._always(s.orelse, me)
                if a[0] is None and b[0] is None: return None, False
                got |= b[0] if a[0] is None else a[0] if b[0] is None else a[0] & b[0]
                continue
            if isinstance(s, ast.Try):
                x = self._always(s.body, me)
                hs = [self._always(h.body, me) for h in s.handlers]
                r = x[0]
                for h in hs:
                    if h[0] is not None: r = h[0] if r is None else r & h[0]
                if r is None: return None, False
                f = self._always(s.finalbody, me)
                got |= r | (f[0] or set())
                continue
            if isinstance(s, (ast.For, ast.While)): continue
            if isinstance(s, ast.With):
                r = self._always(s.body, me)
                if r[0] is None: return None, False
                got |= r[0]; continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): continue
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me: got.add(n.attr)
        return got, True

    def has(self, a): return a in self.static or a in self.init
    def maybe(self, a): return a in self.later
    def const(self, a):
        """value of an attribute every instance shares"""
        if a in self.init or a in self.later:
            vs = self.values.get(a, [])
            if a in self.later or not vs or any(v is UNKNOWN for v in vs) or len(set(map(repr, vs))) != 1: return UNKNOWN
            if a in self.prog.externally_written_attrs(): return UNKNOWN
            return vs[0]
        r = self.prog.find_class_attr(self.ci, a)
        if r and isinstance(r[0], ast.Constant) and a not in self.prog.externally_written_attrs(): return r[0].value
        return UNKNOWN

    def member(self, a):
        if a in self.init or a in self.later: return None
        for k in self.mro:
            if a in k.methods: return k.methods[a]
            if a in k.attrs or a in k.setters: return None
        return None

def is_prop(f): return any(d in ("property",) or (d or "").endswith(".setter") or (d or "").endswith("cached_property") for d in f.decorators)

def bind_error(f, call, bound=True):
    """why a call does not fit a function's parameters, or None"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords): return None
    if f.decorators and not all(d in ("staticmethod", "classmethod") for d in f.decorators): return None
    a = f.node.args
    ps = f.params()
    if "staticmethod" in f.decorators: bound = False
    if bound: ps = ps[1:]
    n = len(call.args)
    if n > len(ps) and a.vararg is None: return "takes %d argument%s, is given %d" % (len(ps), "" if len(ps) == 1 else "s", n)
    given = set(ps[:n])
    for k in call.keywords:
        if k.arg in given: return "is given %s twice" % k.arg
        if k.arg not in ps and k.arg not in f.kwonly() and a.kwarg is None: return "has no parameter %s" % k.arg
        given.add(k.arg)
    miss = [p for p in ps + f.kwonly() if p not in given and p not in f.defaults()]
    return "is not given %s" % ", ".join(miss) if miss else None

def tri_not(x): return UNKNOWN if x is UNKNOWN else not x

class Uses(object):
    def __init__(self, prog, classes, report, circuits=("circ",)):
        self.prog, self.classes, self.report = prog, classes, report
        self.circ_cls = prog.cls("circuit.Circuit")
        self.shapes = {c: Shape(prog, c) for c in classes}
        self.done = set()
        self.n = 0
        self.visited = set()
        self.pred = {}

    # ---- which expressions are circuits / elements
    def is_circ(self, fn, n):
        if isinstance(n, ast.Name):
            if n.id == "self" or (fn.params() and n.id == fn.params()[0] and fn.cls is not None): return fn.cls is self.circ_cls
            return n.id in ("circ", "circuit_instance", "mc") or n.id in self.circ_names(fn)
        if isinstance(n, ast.Attribute): return n.attr == "circ"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "reversed", "iter") and len(n.args) == 1: return self.is_circ(fn, n.args[0])
        if isinstance(n, ast.Call) and dotted(n.func) in ("copy.copy", "copy.deepcopy") and len(n.args) == 1: return self.is_circ(fn, n.args[0])
        return False

    def circ_names(self, fn):
        k = ("circ", fn.qualname)
        if k not in self.pred:
            out = set()
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                    d = dotted(n.value.func)
                    r = self.prog.resolve_dotted(fn.module, d) if d else None
                    if r is self.circ_cls: out.add(n.targets[0].id)
            self.pred[k] = out
        return self.pred[k]

    def element_of(self, fn, n):
        """the expression is an element of a circuit"""
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice) and self.is_circ(fn, n.value): return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get_elem_by_name", "find_vde") and self.is_circ(fn, n.func.value): return True
        return False

    def vars_of(self, fn):
        """names (or expressions) that hold an element somewhere in the function"""
        out = set()
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                t = self.loop_var(fn, n)
                if t: out.add(t)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.element_of(fn, n.value): out.add(n.targets[0].id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Subscript) and self.element_of(fn, n.value): out.add(ast.unparse(n.value))
            elif isinstance(n, ast.Call):
                for a in n.args:
                    if isinstance(a, ast.Subscript) and self.element_of(fn, a): out.add(ast.unparse(a))
        return out

    def loop_var(self, fn, n):
        it, t = n.iter, n.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and self.is_circ(fn, it.args[0]):
            if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Name): return t.elts[1].id
            return None
        if self.is_circ(fn, it) and isinstance(t, ast.Name): return t.id
        if isinstance(it, ast.Name) and isinstance(t, ast.Name) and self.lists(fn).get(it.id): return t.id
        return None

    def lists(self, fn):
        """locals that only ever hold lists of elements picked from a circuit: their comprehensions"""
        k = ("lists", fn.qualname if hasattr(fn, "qualname") else id(fn))
        if k in self.pred: return self.pred[k]
        self.pred[k] = out = {}
        if not hasattr(fn, "node"): return out
        bad = set(fn.params())
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.ListComp) and len(v.generators) == 1 and isinstance(v.elt, ast.Name) and isinstance(v.generators[0].target, ast.Name) \
                   and v.elt.id == v.generators[0].target.id and self.is_circ(fn, v.generators[0].iter):
                    out.setdefault(n.targets[0].id, []).append(v.generators[0]); continue
                bad.add(n.targets[0].id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): bad.add(("s", n.id))
        for x in list(out):
            stores = sum(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == x for n in ast.walk(fn.node))
            if x in bad or stores != len(out[x]): del out[x]
        return out

    # ---- walking
    def function(self, fn):
        for v in sorted(self.vars_of(fn)):
            for c in self.classes: self.walk(fn, {}, v, c)

    def walk(self, fn, bound, var, c):
        """walk fn with `var` an element of class c wherever the function makes it one"""
        k = (fn.qualname, tuple(sorted(bound)), var, c.name)
        if k in self.done: return
        self.done.add(k)
        if fn.qualname not in self.visited: self.visited.add(fn.qualname)
        w = Walk(self, fn, var, c, set(bound))
        w.block(fn.node.body)

    def into(self, fn, param, c):
        """a call hands an element to parameter `param` of fn"""
        k = (fn.qualname, "param", param, c.name)
        if k in self.done: return
        self.done.add(k)
        w = Walk(self, fn, param, c, {param})
        w.block(fn.node.body)

    def predicate(self, fn, param, c):
        """result of a package function that only looks at the class of its argument"""
        k = ("pred", fn.qualname, param, c.name)
        if k in self.pred: return self.pred[k]
        self.pred[k] = UNKNOWN
        w = Walk(self, fn, param, c, {param}, quiet=True)
        r = w.returns(fn.node.body)
        self.pred[k] = r
        return r

    def need(self, fn, c, attr, where, call=None, guarded=False):
        s = self.shapes[c]
        self.n += 1
        if s.open or guarded: return
        name = fn.qualname.replace(self.prog.pkg + ".", "", 1)
        if not s.has(attr):
            if attr in self.prog.externally_written_attrs() and s.maybe(attr): return
            if s.maybe(attr): self.report("interface", c.name, attr, name, "is only there after one of its methods has run", where)
            elif attr in self.prog.externally_written_attrs() and self.set_by_owner(attr): return
            else: self.report("interface", c.name, attr, name, "is not defined", where)
            return
        f = s.member(attr)
        if call is not None and f is not None and not is_prop(f):
            e = bind_error(f, call)
            if e: self.report("call", c.name, attr + "()", name, e, where)
        elif call is None and f is not None and not is_prop(f): pass

    def set_by_owner(self, attr):
        return False

class Walk(object):
    def __init__(self, uses, fn, var, c, bound, quiet=False):
        self.u, self.fn, self.var, self.c, self.quiet = uses, fn, var, c, quiet
        self.on = var in bound or any(ch in var for ch in "[(")     # the variable holds the element now
        self.me = var in bound
        self.guards = 0
        self.had = set()
        self.known = {}             # conditions settled by the branch control came through

    # three-valued conditions; expressions are visited for their uses
    def is_var(self, n):
        if isinstance(n, ast.Name): return self.on and n.id == self.var
        if isinstance(n, (ast.Subscript, ast.Call)) and ("[" in self.var or "(" in self.var): return ast.unparse(n) == self.var
        return False

    def classes_of(self, n):
        if isinstance(n, (ast.Tuple, ast.List)):
            out = []
            for e in n.elts:
                r = self.classes_of(e)
                if r is None: return None
                out += r
            return out
        d = dotted(n)
        r = self.u.prog.resolve_dotted(self.fn.module, d) if d else None
        if isinstance(r, ClassInfo): return [r]
        if isinstance(r, tuple) and r[0] == "var" and len(r[1]) == 1 and isinstance(r[1][0], (ast.Tuple, ast.List, ast.Name, ast.Attribute)): 
            w = Walk(self.u, self.fn, self.var, self.c, set(), True)
            class F: module = r[2]
            w.fn = F
            return w.classes_of(r[1][0])
        return None

    def cond(self, n):
        """truth of a condition for this class; visits it"""
        t = self.cond_(n)
        if t is UNKNOWN and self.known:
            k = self.known.get(ast.unparse(n))
            if k is not None: return k
        return t

    def forget(self, nodes):
        """assignments in these nodes end what was known about the names they bind"""
        if not self.known: return
        ns = set()
        for b in nodes:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): ns.add(x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store): ns.add(x.attr)
        for k in list(self.known):
            if {x.id for x in ast.walk(ast.parse(k, mode="eval")) if isinstance(x, ast.Name)} & ns or {x.attr for x in ast.walk(ast.parse(k, mode="eval")) if isinstance(x, ast.Attribute)} & ns: del self.known[k]

    def cond_(self, n):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            res = isand
            before = set(self.had)
            for v in n.values:
                t = self.cond(v)
                if t is not UNKNOWN and bool(t) != isand:
                    if not isand: self.had = before
                    return (not isand) if res is not UNKNOWN else (not isand)
                if t is UNKNOWN: res = UNKNOWN
            if not isand: self.had = before
            return res
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            before = set(self.had)
            r = tri_not(self.cond(n.operand))
            self.had = before
            return r
        if isinstance(n, ast.Constant): return bool(n.value)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and self.is_var(n.args[0]):
                cs = self.classes_of(n.args[1])
                if cs is None: return UNKNOWN
                return any(k in self.u.prog.mro(self.c) for k in cs)
            if isinstance(n.func, ast.Name) and n.func.id == "hasattr" and len(n.args) == 2 and self.is_var(n.args[0]) and isinstance(n.args[1], ast.Constant):
                s = self.u.shapes[self.c]
                a = n.args[1].value
                if s.has(a) : return True
                if s.maybe(a) or s.open or a in self.u.prog.externally_written_attrs(): self.had.add(a); return UNKNOWN
                return False
            fi, p = self.callee(n)
            if fi is not None:
                self.visit(n)
                return self.u.predicate(fi, p, self.c)
        if isinstance(n, ast.Attribute) and self.is_var(n.value):
            self.visit(n)
            v = self.u.shapes[self.c].const(n.attr)
            return UNKNOWN if v is UNKNOWN else bool(v)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, op, r = n.left, n.ops[0], n.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "type" and len(l.args) == 1 and self.is_var(l.args[0]) and isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot, ast.In, ast.NotIn)):
                cs = self.classes_of(r)
                if cs is None: return UNKNOWN
                y = self.c in cs
                return y if isinstance(op, (ast.Eq, ast.Is, ast.In)) else not y
            self.visit(n)
            if isinstance(l, ast.Attribute) and self.is_var(l.value) and isinstance(r, ast.Constant):
                v = self.u.shapes[self.c].const(l.attr)
                if v is not UNKNOWN:
                    if isinstance(op, (ast.Eq, ast.Is)): return v == r.value and (v is None) == (r.value is None)
                    if isinstance(op, (ast.NotEq, ast.IsNot)): return not (v == r.value and (v is None) == (r.value is None))
            return self.letter(n)
        self.visit(n)
        return UNKNOWN

    def letter(self, n):
        """comparisons of the first letter of the id with constants: letters are tied to classes"""
        l, op, r = n.left, n.ops[0], n.comparators[0]
        t = l
        while True:
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("lower", "upper") and not t.args: t = t.func.value
            elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == 0: t = t.value
            else: break
        if t is l or not (isinstance(t, ast.Attribute) and t.attr == "part_id" and self.is_var(t.value)): return UNKNOWN
        lets = self.u.letters.get(self.c.name) if hasattr(self.u, "letters") else None
        if lets is None: return UNKNOWN
        if isinstance(r, ast.Constant) and isinstance(r.value, str) and isinstance(op, (ast.Eq, ast.NotEq)):
            y = r.value.lower() in lets
            return y if isinstance(op, ast.Eq) else not y
        vals = [e.value for e in r.elts if isinstance(e, ast.Constant)] if isinstance(r, (ast.Tuple, ast.List, ast.Set)) else list(r.value) if isinstance(r, ast.Constant) and isinstance(r.value, str) else None
        if vals is not None and isinstance(op, (ast.In, ast.NotIn)):
            y = any(str(v).lower() in lets for v in vals)
            return y if isinstance(op, ast.In) else not y
        return UNKNOWN

    def callee(self, n):
        """(package function, parameter) when the element itself is an argument"""
        d = dotted(n.func)
        if not d or d.startswith("self."): 
            if d and self.fn.cls is not None and d.count(".") == 1:
                f = self.u.prog.find_method(self.fn.cls, d.split(".")[1])
                return self._param(f, n, True) if f else (None, None)
            return None, None
        r = self.u.prog.resolve_dotted(self.fn.module, d)
        if not isinstance(r, FuncInfo):
            if isinstance(n.func, ast.Attribute) and self.u.is_circ(self.fn, n.func.value):
                f = self.u.prog.find_method(self.u.circ_cls, n.func.attr)
                return self._param(f, n, True) if f else (None, None)
            return None, None
        return self._param(r, n, False)

    def _param(self, f, n, bound):
        ps = f.params()[1 if bound else 0:]
        for i, a in enumerate(n.args):
            if self.is_var(a) and i < len(ps): return f, ps[i]
        for k in n.keywords:
            if k.arg and self.is_var(k.value) and k.arg in ps: return f, k.arg
        return None, None

    def visit(self, n):
        """uses in an expression"""
        if n is None: return
        if isinstance(n, (ast.BoolOp,)): self.cond(n); return
        if isinstance(n, ast.IfExp):
            t = self.cond(n.test)
            if t is UNKNOWN or t: self.visit(n.body)
            if t is UNKNOWN or not t: self.visit(n.orelse)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            on = self.on
            go = True
            for g in n.generators:
                self.visit(g.iter)
                if self.u.loop_var(self.fn, g) == self.var: self.on = True
                elif any(isinstance(x, ast.Name) and x.id == self.var for x in ast.walk(g.target)): self.on = False
                for i in g.ifs:
                    t = self.cond(i)
                    if t is not UNKNOWN and not t: go = False; break
                if not go: break
            if go:
                for f in ("elt", "key", "value"):
                    if hasattr(n, f): self.visit(getattr(n, f))
            self.on = on
            return
        if isinstance(n, ast.Lambda):
            if self.var not in [a.arg for a in n.args.args]: self.visit(n.body)
            return
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "type", "id", "str", "repr"):
                for a in n.args: self.visit(a)
                return
            if isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 and self.is_var(n.args[0]):
                if len(n.args) == 2 and isinstance(n.args[1], ast.Constant): self.use(n.args[1].value, n, None)
                for a in n.args[2:]: self.visit(a)
                return
            if isinstance(n.func, ast.Attribute) and self.is_var(n.func.value): self.use(n.func.attr, n.func, n)
            else: self.visit(n.func)
            for a in n.args: self.visit(a.value if isinstance(a, ast.Starred) else a)
            for k in n.keywords: self.visit(k.value)
            fi, p = self.callee(n)
            if fi is not None and not self.quiet: self.u.into(fi, p, self.c)
            return
        if isinstance(n, ast.Attribute):
            if self.is_var(n.value):
                if isinstance(n.ctx, ast.Load): self.use(n.attr, n, None)
                return
            self.visit(n.value)
            return
        for k in ast.iter_child_nodes(n): self.visit(k)

    def use(self, attr, n, call):
        if self.quiet: return
        self.u.need(self.fn, self.c, attr, "%s:%d" % (self.fn.module.rel, n.lineno), call, bool(self.guards) or attr in self.had)

    # statements: True when control does not go on
    def block(self, body):
        for s in body:
            if self.stmt(s): return True
        return False

    def stmt(self, s):
        k = type(s).__name__
        if k in ("FunctionDef", "AsyncFunctionDef", "ClassDef"): 
            if k != "ClassDef" and self.var not in [a.arg for a in s.args.args]:
                self.block(s.body)
            return False
        if k in ("Return", "Raise"):
            for c in ast.iter_child_nodes(s): self.visit(c)
            return True
        if k in ("Break", "Continue"): return True
        if k == "Assert":
            before = set(self.had)
            t = self.cond(s.test)
            return t is not UNKNOWN and not t
        if k == "If":
            before = set(self.had)
            t = self.cond(s.test)
            if t is not UNKNOWN:
                r = self.block(s.body if t else s.orelse)
                self.had = before
                return r
            on = self.on
            text = ast.unparse(s.test)
            k0 = dict(self.known)
            self.known = dict(k0); self.known[text] = True
            a = self.block(s.body)
            ka, self.known = self.known, dict(k0)
            on1, self.on = self.on, on
            self.had = before
            self.known[text] = False
            b = self.block(s.orelse)
            kb = self.known
            self.known = kb if a else ka if b else {k: v for k, v in ka.items() if kb.get(k) == v}
            self.on = self.on and on1 if not (a or b) else (on1 if b else self.on)
            return a and b and bool(s.orelse)
        if k in ("For", "AsyncFor"):
            self.visit(s.iter)
            on = self.on
            self.forget([s])
            k0 = dict(self.known)
            go = True
            if self.u.loop_var(self.fn, s) == self.var:
                self.on = True
                go = self.in_list(s.iter)
            elif any(isinstance(x, ast.Name) and x.id == self.var for x in ast.walk(s.target)): self.on = False
            if go: self.block(s.body)
            self.known = k0
            self.on = on and self.on
            self.block(s.orelse)
            return False
        if k == "While":
            self.forget([s])
            k0 = dict(self.known)
            t = self.cond(s.test)
            if t is UNKNOWN or t: self.block(s.body)
            self.known = k0
            self.block(s.orelse)
            return False
        if k == "Try":
            att = any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("AttributeError", "Exception", "TypeError") for x in ast.walk(h.type)) for h in s.handlers)
            self.guards += att
            a = self.block(s.body)
            self.guards -= att
            if not a: self.block(s.orelse)
            hs = [self.block(h.body) for h in s.handlers]
            f = self.block(s.finalbody)
            return f or (a and all(hs) and bool(hs))
        if k in ("With", "AsyncWith"):
            for i in s.items: self.visit(i.context_expr)
            return self.block(s.body)
        if k == "Assign":
            self.visit(s.value)
            self.forget(s.targets)
            for t in s.targets:
                if isinstance(t, ast.Name) and t.id == self.var: self.on = self.u.element_of(self.fn, s.value) or self.is_var(s.value)
                elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == self.var for x in ast.walk(t)): self.on = False
                elif not isinstance(t, ast.Name): self.visit(t)
            return False
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr): self.visit(c)
            elif isinstance(c, ast.stmt): self.stmt(c)
        self.forget([s])
        return False

    def in_list(self, it):
        """whether elements of this class can be in the list the loop runs over"""
        if not isinstance(it, ast.Name): return True
        lists = self.u.lists(self.fn).get(it.id)
        if not lists: return True
        for g in lists:
            w = Walk(self.u, self.fn, g.target.id, self.c, {g.target.id}, quiet=True)
            if not any((lambda t: t is not UNKNOWN and not t)(w.cond(i)) for i in g.ifs): return True
        return False

    def returns(self, body):
        """three-valued result of a function body, UNKNOWN when it depends on more than the class"""
        out = self._ret(body)
        return UNKNOWN if out is None else out

    def _ret(self, body):
        """value returned for certain, UNKNOWN, or None when control falls through"""
        for s in body:
            if isinstance(s, ast.Return): return self.cond(s.value) if s.value is not None else False
            if isinstance(s, ast.If):
                t = self.cond(s.test)
                if t is UNKNOWN:
                    if any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(s)): return UNKNOWN
                    continue
                r = self._ret(s.body if t else s.orelse)
                if r is not None: return r
                continue
            if isinstance(s, ast.Try):
                r = self._ret(s.body)
                if r is not None: return UNKNOWN
                continue
            if any(isinstance(x, ast.Return) for x in ast.walk(s)): return UNKNOWN
            if isinstance(s, ast.Raise): return UNKNOWN
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == self.var for t in s.targets for x in ast.walk(t)): return UNKNOWN
        return None
