"""References through dotted names: attributes of modules and of instances exist, calls fit the parameters of what they call."""
import ast, json, os, subprocess
from .program import FuncInfo, ClassInfo, dotted
from . import names
from .names import SCOPES, COMPS, bound, outer_parts, body_of
from .iface import Shape, bind_error, is_prop

VENV = "/opt/venv/bin/python"

def module_members(prog, m):
    b, known = names.module_names(prog, m)
    b = set(b) | set(m.ns) | {q[len(m.name) + 1:].split(".")[0] for q in prog.modules if q.startswith(m.name + ".")}
    b |= {"__name__", "__file__", "__doc__", "__dict__", "__package__", "__path__", "__version__" if "__version__" in b else "__name__"}
    return b, known

def module_writes(prog):
    """attributes stored on modules from anywhere: (module, attribute)"""
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                d = dotted(n.value)
                r = prog.resolve_dotted(m, d) if d else None
                if isinstance(r, tuple) and r[0] == "mod": out.add((r[1], n.attr))
    return out

class Refs(object):
    """walks every scope of a module; what a dotted name means is decided only when its first name is not bound in the scopes around it"""
    def __init__(self, prog, report, shapes):
        self.prog, self.report, self.shapes = prog, report, shapes
        self.members, self.writes = {}, module_writes(prog)
        self.n = {"module": 0, "call": 0, "instance": 0, "self": 0}
        self.ext = {}                                          # dotted external name -> where
        self.some = {}                                         # attributes of values of unknown kind: name -> first uses
        self.nsome = 0

    def mem(self, q):
        if q not in self.members: self.members[q] = module_members(self.prog, self.prog.modules[q])
        return self.members[q]

    def shape(self, c):
        if c not in self.shapes: self.shapes[c] = Shape(self.prog, c)
        return self.shapes[c]

    def module(self, m):
        self.m = m
        self.scope(m.tree, set(), "", {}, None)

    def scope(self, node, local, where, types, cls):
        mod = node is self.m.tree
        mine, gl = (set(), set()) if mod else bound(node)
        local = (set(local) | mine) - gl
        types = {k: v for k, v in types.items() if k not in mine}
        if not mod:
            imp = {}
            for n in names.own_nodes(node):                    # imports inside a function keep their meaning
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names: imp.setdefault((a.asname or a.name).split(".")[0], []).append(n)
            types.update(self.instances(node, mine, local))
        own = cls
        def walk(n, extra, guarded):
            if isinstance(n, SCOPES):
                for p in outer_parts(n): walk(p, extra, guarded)
                w, k = where, own
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): w = (where + "." if where else "") + n.name
                elif isinstance(n, ast.ClassDef):
                    w = (where + "." if where else "") + n.name
                    k = self.prog.classes.get(self.m.name + "." + n.name) if mod else None
                # names of a class body are not seen by its methods
                base = set(local) if not isinstance(node, ast.ClassDef) else set(local) - mine
                self.scope(n, base | extra, w, types, k)
                return
            if isinstance(n, COMPS):
                e = set(extra)
                for g in n.generators:
                    walk(g.iter, e, guarded)
                    e |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for i in g.ifs: walk(i, e, guarded)
                for f in ("elt", "key", "value"):
                    if hasattr(n, f): walk(getattr(n, f), e, guarded)
                return
            if isinstance(n, ast.Try):
                g = set(guarded)
                for h in n.handlers:
                    ts = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else (h.type.elts if h.type is not None else [ast.Name("BaseException")])
                    g |= {dotted(t) or "?" for t in ts}
                for b in n.body: walk(b, extra, g)
                for h in n.handlers:
                    for b in h.body: walk(b, extra, guarded)
                for b in n.orelse + n.finalbody: walk(b, extra, guarded)
                return
            if isinstance(n, ast.Call): self.call(n, local | extra, where, types, extra, guarded, own)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(n, local | extra, where, types, extra, guarded, own)
            for k in ast.iter_child_nodes(n): walk(k, extra, guarded)
        for b in (body_of(node) if not mod else node.body): walk(b, set(), frozenset())

    def instances(self, node, mine, local):
        """locals that only ever hold instances of one package class (or None)"""
        cand, bad = {}, set(names.arg_names(node)) if not isinstance(node, ast.ClassDef) else set(mine)
        for n in names.own_nodes(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v, nm = n.value, n.targets[0].id
                if isinstance(v, ast.Constant) and v.value is None: continue
                if isinstance(v, ast.Call):
                    d = dotted(v.func)
                    r = self.prog.resolve_dotted(self.m, d) if d and d.split(".")[0] not in local else None
                    if isinstance(r, ClassInfo): cand.setdefault(nm, set()).add(r); continue
                bad.add(nm)
            elif isinstance(n, (ast.For, ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.With, ast.ExceptHandler, ast.Assign, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.Delete)):
                for x in [n] if not isinstance(n, ast.With) else n.items:
                    tg = [getattr(x, "target", None), getattr(x, "optional_vars", None)] + list(getattr(x, "targets", []))
                    for t in tg:
                        if t is not None: bad |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)): bad.add(n.name)
                if isinstance(n, (ast.Import, ast.ImportFrom)): bad |= {(a.asname or a.name).split(".")[0] for a in n.names}
                if isinstance(n, ast.ExceptHandler) and n.name: bad.add(n.name)
        # nested scopes may rebind through nonlocal; comprehensions have their own
        out = {}
        for nm, cs in cand.items():
            if nm in bad or len(cs) != 1: continue
            out[nm] = next(iter(cs))
        stores = {}
        for n in names.own_nodes(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): stores.setdefault(n.value.id, set()).add(n.attr)
        return {k: (c, stores.get(k, set())) for k, c in out.items()}

    # ---- judging
    def where(self, w): return self.m.name.split(".", 1)[-1] + ("." + w if w else "")

    def resolve(self, n, local):
        d = dotted(n)
        if d is None or d.split(".")[0] in local: return None, d
        return self.prog.resolve_dotted(self.m, d), d

    def attribute(self, n, local, where, types, extra, guarded, cls):
        if guarded & {"AttributeError", "Exception", "BaseException", "NameError", "ImportError"}: return
        b = n.value
        r, d = self.resolve(b, local)
        if isinstance(r, tuple) and r[0] == "mod":
            self.n["module"] += 1
            mem, known = self.mem(r[1])
            if n.attr not in mem and known and (r[1], n.attr) not in self.writes:
                self.report("names", "%s.%s" % (r[1].split(".", 1)[-1], n.attr), self.where(where), "module %s has no %s" % (r[1], n.attr), n.lineno)
            return
        if isinstance(r, tuple) and r[0] == "ext":
            self.ext.setdefault(r[1] + "." + n.attr, (self.where(where), self.m.rel, n.lineno))
            return
        if isinstance(r, ClassInfo):
            self.n["module"] += 1
            s = self.shape(r)
            if not (s.has(n.attr) or s.open or s.maybe(n.attr)) or (n.attr in s.init and n.attr not in s.static):
                if n.attr not in self.prog.externally_written_attrs() and not hasattr(type, n.attr):
                    self.report("names", "%s.%s" % (r.name, n.attr), self.where(where), "class %s has no %s" % (r.name, n.attr), n.lineno)
            return
        if isinstance(b, ast.Name) and cls is not None and b.id in ("self", "cls"): return     # judged class by class
        if not (isinstance(b, ast.Name) and b.id in types and b.id not in extra):
            self.nsome += 1
            self.some.setdefault(n.attr, []).append((self.where(where), self.m.rel, n.lineno, ast.unparse(n)[:60]))
            return
        if isinstance(b, ast.Name) and b.id in types and b.id not in extra:
            c, st = types[b.id]
            self.n["instance"] += 1
            s = self.shape(c)
            if not (s.open or s.has(n.attr) or s.maybe(n.attr) or n.attr in st or n.attr in self.prog.externally_written_attrs()):
                self.report("names", "%s.%s" % (c.name, n.attr), self.where(where), "%s objects have no %s" % (c.name, n.attr), n.lineno)

    def call(self, n, local, where, types, extra, guarded, cls):
        if guarded & {"TypeError", "Exception", "BaseException"}: return
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in types and n.func.value.id not in extra:
            c, st = types[n.func.value.id]
            f = self.shape(c).member(n.func.attr)
            if f is not None and not is_prop(f) and n.func.attr not in st:
                self.n["call"] += 1
                e = bind_error(f, n)
                if e: self.report("calls", "%s.%s()" % (c.name, n.func.attr), self.where(where), "%s.%s %s" % (c.name, n.func.attr, e), n.lineno)
            return
        r, d = self.resolve(n.func, local)
        if isinstance(r, FuncInfo):
            self.n["call"] += 1
            unbound = r.cls is not None
            e = bind_error(r, n, bound="classmethod" in r.decorators if unbound else False)
            if e and not (unbound and "staticmethod" in r.decorators and not bind_error(r, n, bound=False)):
                self.report("calls", "%s()" % r.qualname.split(".", 1)[-1], self.where(where), "%s %s" % (r.qualname, e), n.lineno)
        elif isinstance(r, ClassInfo):
            s = self.shape(r)
            i = self.prog.find_method(r, "__init__")
            if i is not None:
                self.n["call"] += 1
                e = bind_error(i, n)
                if e: self.report("calls", "%s()" % r.name, self.where(where), "the constructor of %s %s" % (r.name, e), n.lineno)
            elif not s.open and (n.args or n.keywords) and not s.bases:
                self.report("calls", "%s()" % r.name, self.where(where), "%s takes no arguments" % r.name, n.lineno)

def self_uses(prog, c, shapes, report, subs):
    """reads of attributes and calls of methods through the first parameter, in every method an instance of c runs"""
    n = 0
    s = shapes.setdefault(c, Shape(prog, c))
    ext = prog.externally_written_attrs()
    meths = {}
    for k in reversed(s.mro):
        for f in k.methods.values(): meths[f.name] = f
        for f in k.setters.values(): meths[f.name + "="] = f
    for f in meths.values():
        if "staticmethod" in f.decorators or "classmethod" in f.decorators or not f.params(): continue
        me = f.params()[0]
        if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)): continue
        name = "%s.%s" % (c.name, f.name)
        guards = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (x.func.id == "hasattr" and len(x.args) == 2 or x.func.id == "getattr" and len(x.args) == 3) and isinstance(x.args[1], ast.Constant): guards.add(x.args[1].value)
            if isinstance(x, ast.Try):
                for h in x.handlers:
                    ts = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else (h.type.elts if h.type is not None else [ast.Name("BaseException")])
                    if {dotted(t) for t in ts} & {"AttributeError", "Exception", "BaseException"}:
                        for y in x.body:
                            for z in ast.walk(y):
                                if isinstance(z, ast.Attribute): guards.add(z.attr)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                n += 1
                if s.open or s.has(x.attr) or s.maybe(x.attr) or x.attr in ext or x.attr in guards: continue
                if any((shapes.setdefault(k, Shape(prog, k)).has(x.attr) or shapes[k].maybe(x.attr)) for k in subs.get(c, ())): continue
                report("names", "self.%s" % x.attr, "%s.%s" % (f.module.name.split(".", 1)[-1], name), "%s objects have no %s" % (c.name, x.attr), f.module.rel, x.lineno)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == me:
                g = s.member(x.func.attr)
                if g is None or is_prop(g): continue
                n += 1
                e = bind_error(g, x)
                if e and not subs.get(c): report("calls", "self.%s()" % x.func.attr, "%s.%s" % (f.module.name.split(".", 1)[-1], name), "%s %s" % (g.qualname, e), f.module.rel, x.lineno)
    return n

def externals(ext):
    """names of installed libraries that do not exist: {dotted: reason}; None when the libraries cannot be asked"""
    prog = """
import sys, json, importlib, warnings
warnings.simplefilter("ignore")
def has(q):
    ps = q.split(".")
    for i in range(len(ps), 0, -1):
        try: o = importlib.import_module(".".join(ps[:i]))
        except ImportError: continue
        except Exception: return None
        for p in ps[i:]:
            if isinstance(o, type(sys)):
                try: o = getattr(o, p)
                except AttributeError: return False
            else: return True if hasattr(o, p) else None
        return True
    return None
print(json.dumps({q: has(q) for q in json.load(sys.stdin)}))
"""
    if not os.path.exists(VENV): return None
    try:
        p = subprocess.run([VENV, "-I", "-W", "ignore", "-c", prog], input=json.dumps(sorted(ext)), capture_output=True, text=True, timeout=120, cwd="/")
        return json.loads(p.stdout)
    except Exception: return None

def universe(prog):
    """every attribute name some object of the program or of the libraries it uses may have; None when the libraries cannot be asked"""
    uni = {"setter", "getter", "deleter"}
    for m in prog.modules.values():
        uni |= {k for k in m.ns if k != "*"}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): uni.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                uni.add(n.name)
                if isinstance(n, ast.ClassDef):
                    for b in n.body:
                        if isinstance(b, ast.Assign): uni |= {x.id for t in b.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name): uni.add(b.target.id)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant): uni.add(n.args[1].value)
                for k in n.keywords:
                    if k.arg == "dest" and isinstance(k.value, ast.Constant): uni.add(k.value.value)
                    elif k.arg: pass
    code = """
import json, io, optparse, sys, warnings, collections, re, time
warnings.simplefilter("ignore")
import numpy, scipy, scipy.sparse, scipy.interpolate, scipy.optimize, sympy
s = set()
for o in (int, float, complex, str, bytes, list, tuple, dict, set, frozenset, io.StringIO, io.BytesIO, io.TextIOWrapper, type, OSError("x"), SyntaxError, UnicodeError, SystemExit, object,
          collections.OrderedDict, collections.deque, collections.Counter, collections.namedtuple("x", "y"), re.compile("a"), re.match("a", "a"), numpy.ndarray, numpy.float64, numpy.matrix, numpy, numpy.linalg, numpy.finfo(float),
          numpy.ufunc, numpy.random, scipy.interpolate.InterpolatedUnivariateSpline, scipy.sparse.coo_matrix, scipy.sparse.csr_matrix, scipy.sparse.csc_matrix,
          scipy.sparse.lil_matrix, scipy.optimize.OptimizeResult, sympy, sympy.Symbol, sympy.Expr, sympy.Matrix, sympy.Poly, optparse.OptionParser, optparse.Values, sys, time,
          lambda: 0, (x for x in ()), sys.stdout): s |= set(dir(o))
print(json.dumps(sorted(s)))
"""
    if not os.path.exists(VENV): return None
    try:
        p = subprocess.run([VENV, "-I", "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=120, cwd="/")
        return uni | set(json.loads(p.stdout))
    except Exception: return None
