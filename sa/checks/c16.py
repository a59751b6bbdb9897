"""C16: cached and repeated device evaluations depend only on their arguments and the state of their arguments."""
import ast
from .. import terms as T
from ..devices import Device, runs
from ..interp import *
from ..program import FuncInfo, ClassInfo, AnalysisBroken, dotted
from ..terms import sym, atom, num, Poly

DEVS = [("diode.diode", "diode.diode_model", "model", 1), ("components.TunnelJunction.TunnelJunction", "components.TunnelJunction.TunnelJunctionModel", "model", 1),
        ("switch.switch_device", "switch.vswitch_model", "model", 2), ("mosq.mosq_device", "mosq.mosq_mos_model", "mosq_model", 3),
        ("ekv.ekv_device", "ekv.ekv_mos_model", "ekv_model", 3)]
EVAL = ("i", "g", "istamp", "gstamp")
def ismall(ip, a, kw, n):
    """the normalized current solves an equation in its first argument; the others are tolerance and starting point"""
    return atom("root", "get_ismall", tokey(a[1] if len(a) > 1 else kw.get("vsmall")))
ROOTS = {"*.get_ismall": ismall}
HYSTERESIS = {("dev", "is_on")}
MUTATORS = {"append", "update", "setdefault", "extend", "insert", "add"}

def run(c, prog):
    c.rule("key", "the key under which an evaluation is cached contains every argument, the whole state of the model and the device, and every simulator option the evaluation reads", 8)
    c.rule("same-key", "a cached value is stored under the key it is looked up with, and is the value of this very call", 1)
    c.rule("stateless", "no result of an evaluation contains the value an earlier evaluation left in the device, the model or a module (the hysteresis of a switch excepted)", 20)
    c.rule("shared-model", "an evaluation never leaves another parameter or temperature in a model that other devices share", 5)
    c.guard("key", keys, c, prog)
    for d in DEVS: c.guard(d[0], stateless, c, prog, *d)

# -- which functions does an evaluation reach ---------------------------------------------
def reach(prog, roots):
    """program functions reachable from roots: direct calls, and methods by name on self.model / self / model"""
    seen, todo = {}, list(roots)
    byname = {}
    for f in prog.functions.values():
        if f.cls is not None: byname.setdefault(f.name, []).append(f)
    while todo:
        f = todo.pop()
        if f.qualname in seen: continue
        seen[f.qualname] = f
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                r = prog.resolve_dotted(f.module, d) if d else None
                if isinstance(r, FuncInfo): todo.append(r)
                elif isinstance(n.func, ast.Attribute):
                    same = [g for g in byname.get(n.func.attr, []) if g.module is f.module]
                    todo += same
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                # methods passed as values (to a root finder)
                todo += [g for g in byname.get(n.attr, []) if g.module is f.module and g.cls is not None and f.cls is not None]
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = prog.lookup(f.module, n.id)
                if isinstance(r, FuncInfo): todo.append(r)
    return seen

# -- caching decorators --------------------------------------------------------------------
def keys(c, prog):
    opts = prog.modules.get(prog.pkg + ".options")
    settings = {k for k, v in opts.ns.items() if isinstance(v, tuple) and v[0] == "var"} if opts else set()
    cached = 0
    analysed = {}
    for f in list(prog.functions.values()):
        for d in f.decorators:
            r = prog.resolve_dotted(f.module, d) if d else None
            ext = r[1] if isinstance(r, tuple) and r[0] == "ext" else None
            if ext in ("functools.lru_cache", "functools.cache", "functools.cached_property"):
                reads = attr_reads(prog, f)
                if f.cls is not None or len(f.params()) > 1:
                    c.check(not reads, "key", "%s cached by %s" % (f.qualname, ext), "the key compares model and device by identity, but the evaluation reads %s" % ", ".join(sorted(reads)[:6]), f.where)
                continue
            if not isinstance(r, FuncInfo): continue
            if r.qualname not in analysed: analysed[r.qualname] = decorator(c, prog, r)
            cov = analysed[r.qualname]
            if cov is None: continue
            cached += 1
            c.analysed(f, r)
            lab = f.qualname
            if cov == "unknown":
                c.undecided("key", lab, "the key of %s is not understood" % r.qualname); continue
            reached = reach(prog, [f])
            reads = set()
            for g in reached.values():
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        b = prog.resolve_dotted(g.module, dotted(n.value)) if dotted(n.value) else None
                        if b == ("mod", prog.pkg + ".options") and n.attr in settings: reads.add(n.attr)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                        b = g.module.ns.get(n.id)
                        if isinstance(b, tuple) and b[0] == "from" and b[1] == prog.pkg + ".options": reads.add(b[2])
            for o in sorted(reads):
                c.check(o in cov.options, "key", "%s: options.%s" % (lab, o), "the evaluation reads options.%s, which is not part of the key built in %s: a later change of the option returns the old value" % (o, r.qualname), f.where)
            c.check(cov.args, "key", lab + ": arguments", "not every argument is part of the key built in %s%s" % (r.qualname, cov.why()), f.where)
            st = attr_reads(prog, f)
            if st: c.check(cov.state, "key", lab + ": state of model and device", "the evaluation reads %s, whose change the key built in %s does not notice%s" % (", ".join(sorted(st)[:6]), r.qualname, cov.why()), f.where)
            for x in sorted(cov.excluded):
                # an attribute left out of the key must not influence the result: decided on the results by `stateless`
                if x in st: EXCLUDED.setdefault(x, set()).add(f)
    if not cached: c.ok("key", "no caching decorator in use")
    for q, cov in analysed.items():
        if cov not in (None, "unknown"):
            c.check(cov.same, "same-key", q, "looked up with %s" % cov.mismatch, prog.functions[q].where)

EXCLUDED = {}

def attr_reads(prog, f):
    """attributes read from the parameters of f (transitively within its module)"""
    out = set()
    for g in reach(prog, [f]).values():
        if g.module is not f.module: continue
        ps = set(g.params())
        meths = set(g.cls.methods) if g.cls else set()
        local = {t.id for n in ast.walk(g.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ps and n.attr not in meths: out.add(n.attr)
    return out

class Cov(object):
    def __init__(self): self.args = self.state = False; self.options, self.excluded, self.notes = set(), set(), []; self.same, self.mismatch = True, ""
    def why(self): return (" (" + "; ".join(self.notes) + ")") if self.notes else ""

def decorator(c, prog, d):
    """d(f) caches f: analyse the key. None: does not cache. 'unknown': caches, key not understood"""
    if not d.params(): return None
    fn = d.params()[0]
    inner = [n for n in ast.walk(d.node) if isinstance(n, ast.FunctionDef) and n is not d.node and
             any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == fn for x in ast.walk(n))]
    if not inner: return None
    g = inner[0]
    lookups, stores = [], []
    par = {}
    for n in ast.walk(g):
        for ch in ast.iter_child_nodes(n): par[ch] = n
    selfname = None
    for k in ast.walk(d.node):
        if isinstance(k, ast.ClassDef) and g in k.body: selfname = g.args.args[0].arg if g.args.args else None
    caches = {t.id for n in ast.walk(d.node) if isinstance(n, ast.Assign) and not inside(par, n, g) for t in n.targets if isinstance(t, ast.Name)}
    is_cache = lambda e: isinstance(e, ast.Name) and (e.id == selfname or e.id in caches) or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == selfname
    for n in ast.walk(g):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and is_cache(n.comparators[0]): lookups.append(n.left)
        elif isinstance(n, ast.Subscript) and is_cache(n.value): (stores if isinstance(n.ctx, ast.Store) else lookups).append(n.slice)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ("get", "pop") and is_cache(n.func.value) and n.args: lookups.append(n.args[0])
            if n.func.attr == "setdefault" and is_cache(n.func.value): lookups.append(n.args[0]); stores.append(n.args[0])
            if n.func.attr == "__getitem__" and len(n.args) == 2 and is_cache(n.args[0]): lookups.append(n.args[1])
            elif n.func.attr == "__getitem__" and len(n.args) == 1: lookups.append(n.args[0])
            if n.func.attr == "__setitem__" and n.args: stores.append(n.args[-2])
    if not lookups or not stores: return None
    env = {}
    for n in ast.walk(g):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): env[t.id] = None if t.id in env else n.value
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            env[n.target.id] = ast.BinOp(env[n.target.id], n.op, n.value) if env.get(n.target.id) is not None else None
    va = g.args.vararg.arg if g.args.vararg else None
    pos = [a.arg for a in g.args.args if a.arg != selfname]
    kwa = g.args.kwarg.arg if g.args.kwarg else None
    cov = Cov()
    res = [expand(k, env) for k in lookups + stores]
    if any(r is None for r in res): return "unknown"
    dumps = {ast.dump(r) for r in res}
    if len(dumps) > 1: cov.same, cov.mismatch = False, " / ".join(sorted({ast.unparse(r) for r in res}))
    k = Key(prog, d, g, va, pos, kwa, cov)
    for r in res[:1]:
        if not k.visit(r): return "unknown"
    want = set(pos) | ({va} if va else set()) | ({kwa} if kwa else set())
    cov.args = want <= k.have
    cov.state = k.stated >= ({va} if va else set(pos))
    return cov

def inside(par, n, g):
    while n in par:
        n = par[n]
        if n is g: return True
    return n is g

def expand(e, env, depth=0):
    if depth > 8: return None
    class X(ast.NodeTransformer):
        bad = False
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in env:
                v = env[n.id]
                if v is None: X.bad = True; return n
                r = expand(v, {a: b for a, b in env.items() if a != n.id}, depth + 1)
                if r is None: X.bad = True; return n
                return r
            return n
    import copy
    X.bad = False
    r = X().visit(copy.deepcopy(e))
    return None if X.bad else r

LOSSY = {"round", "str", "repr", "int", "hash", "len", "id", "abs", "bool", "float32", "type", "min", "max", "sum"}

class Key(object):
    """which of the arguments, of their state, of the options a key expression distinguishes"""
    def __init__(self, prog, d, g, va, pos, kwa, cov):
        self.prog, self.d, self.va, self.pos, self.kwa, self.cov = prog, d, va, pos, kwa, cov
        self.have, self.stated = set(), set()
    def note(self, s):
        if s not in self.cov.notes: self.cov.notes.append(s)
    def visit(self, e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add): return self.visit(e.left) and self.visit(e.right)
        if isinstance(e, (ast.Tuple, ast.List)): return all([self.visit(x) for x in e.elts])
        if isinstance(e, ast.Starred): return self.visit(e.value)
        if isinstance(e, ast.Name):
            if e.id in (self.va, self.kwa) or e.id in self.pos: self.have.add(e.id)
            return True
        if isinstance(e, ast.Constant): return True
        if isinstance(e, ast.Attribute):
            b = self.prog.resolve_dotted(self.d.module, dotted(e.value)) if dotted(e.value) else None
            if b == ("mod", self.prog.pkg + ".options"): self.cov.options.add(e.attr); return True
            r = self.prog.resolve_dotted(self.d.module, dotted(e)) if dotted(e) else None
            return True
        if isinstance(e, ast.Subscript):
            self.note("only %s of the arguments is in the key" % ast.unparse(e)); return True
        if isinstance(e, ast.Call):
            fn = dotted(e.func)
            last = fn.split(".")[-1] if fn else (e.func.attr if isinstance(e.func, ast.Attribute) else None)
            if last in ("tuple", "list", "frozenset", "sorted"): return all([self.visit(a) for a in e.args])
            if last == "items": return self.visit(e.func.value)
            if last == "map" and len(e.args) == 2: return self.per_arg(e.args[0], None, e.args[1])
            if last in LOSSY: self.note("%s loses part of the value" % ast.unparse(e)); return True
            r = self.prog.resolve_dotted(self.d.module, fn) if fn else None
            if isinstance(r, FuncInfo):
                whole = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
                if len(whole) == 1 and isinstance(whole[0], ast.Name) and whole[0].id == self.va:
                    # a helper that builds (part of) the key from the arguments
                    return self.helper(r, e)
                return False
            return False
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            if len(e.generators) != 1: return False
            gen = e.generators[0]
            if gen.ifs: self.note("arguments are left out by a condition"); return True
            return self.per_arg(e.elt, gen.target, gen.iter)
        return False
    def helper(self, r, e):
        """key part computed by a function of the whole argument tuple: inline single-expression functions"""
        rets = [n for n in ast.walk(r.node) if isinstance(n, ast.Return) and n.value is not None]
        if len(rets) != 1: return False
        p = r.node.args.vararg.arg if r.node.args.vararg else (r.params()[0] if r.params() else None)
        env = {}
        for n in ast.walk(r.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): env[t.id] = None if t.id in env else n.value
        x = expand(rets[0].value, env)
        if x is None: return False
        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                if n.id == p: return ast.Name(self.va, ast.Load())
                return n
        return self.visit(R().visit(x))
    def per_arg(self, elt, target, it):
        """elt for each element of it"""
        whole = isinstance(it, ast.Name) and it.id == self.va
        names = {it.id} if whole else ({x.id for x in it.elts if isinstance(x, ast.Name)} if isinstance(it, (ast.Tuple, ast.List)) else None)
        if names is None:
            self.note("only %s of the arguments" % ast.unparse(it)); return True
        v = target.id if isinstance(target, ast.Name) else None
        if isinstance(elt, ast.Name) and elt.id == v:
            self.have |= names; return True
        if isinstance(elt, (ast.Tuple, ast.List)): return all([self.per_arg(x, target, it) for x in elt.elts])
        st = self.state_of(elt, v)
        if st is None: return False
        if st: self.stated |= names
        return True
    def state_of(self, e, v):
        """does e distinguish every state of the object v? (None: not understood)"""
        if target_is(e, v) is None and isinstance(e, ast.Name): pass
        fn = None
        if isinstance(e, ast.Call):
            fn = dotted(e.func)
            r = self.prog.resolve_dotted(self.d.module, fn) if fn else None
            if isinstance(r, FuncInfo) and (len(e.args) == 1): return self.state_func(r)
            if fn in ("tuple", "frozenset", "sorted", "list") and e.args: return self.state_of(e.args[0], v)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "items": return is_dict_of(e.func.value, v)
            if fn and fn.split(".")[-1] in LOSSY: self.note("%s does not notice changes" % ast.unparse(e)); return False
            return None
        if isinstance(e, ast.Name):      # the function given to map
            r = self.prog.resolve_dotted(self.d.module, e.id)
            if isinstance(r, FuncInfo): return self.state_func(r)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) and len(e.generators) == 1:
            return self.comp_state(e, v)
        return None
    def comp_state(self, e, v):
        gen = e.generators[0]
        src = gen.iter
        if isinstance(src, ast.Call) and dotted(src.func) in ("sorted", "list", "tuple"): src = src.args[0]
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "items": src = src.func.value
        if not is_dict_of(src, v): return None
        for cnd in gen.ifs:
            if not self.filter(cnd, negate=True): return None
        return self.lossless(e.elt)
    def filter(self, cnd, negate):
        """names skipped: `k == 'x'` leads to a skip, or `k != 'x'` is required"""
        if isinstance(cnd, ast.BoolOp): return all([self.filter(x, negate) for x in cnd.values])
        if isinstance(cnd, ast.UnaryOp) and isinstance(cnd.op, ast.Not): return self.filter(cnd.operand, not negate)
        if isinstance(cnd, ast.Compare) and len(cnd.ops) == 1:
            o, r = cnd.ops[0], cnd.comparators[0]
            neg = isinstance(o, (ast.NotEq, ast.NotIn))
            if neg != negate:
                self.note("only some attributes are in the key"); self.cov.excluded.add("*"); return False
            try: val = ast.literal_eval(r)
            except Exception: return False
            self.cov.excluded |= {val} if isinstance(val, str) else set(val)
            return True
        if isinstance(cnd, ast.Call) and isinstance(cnd.func, ast.Attribute) and cnd.func.attr == "startswith":
            self.note("attributes are left out by prefix"); return False
        return False
    def lossless(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                l = (dotted(n.func) or "").split(".")[-1] or getattr(n.func, "attr", "")
                if l in LOSSY: self.note("%s loses part of the value" % ast.unparse(n)); return False
            if isinstance(n, ast.Subscript): self.note("%s loses part of the value" % ast.unparse(n)); return False
        return True
    def state_func(self, r):
        """a helper that returns the state of one object"""
        p = r.params()[0]
        rets = [n for n in ast.walk(r.node) if isinstance(n, ast.Return)]
        loops = [n for n in ast.walk(r.node) if isinstance(n, ast.For)]
        if loops:
            l = loops[0]
            src = l.iter
            if isinstance(src, ast.Call) and dotted(src.func) in ("sorted", "list", "tuple"): src = src.args[0]
            if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "items": src = src.func.value
            al = {t.id: n.value for n in ast.walk(r.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
            if isinstance(src, ast.Name) and src.id in al: src = al[src.id]
            if not is_dict_of(src, p): return None
            for n in ast.walk(l):
                if isinstance(n, ast.If) and any(isinstance(b, ast.Continue) for b in n.body):
                    if not self.filter(n.test, negate=False): return None
                elif isinstance(n, (ast.Break,)): self.note("not all attributes are in the key"); return False
            adds = [n for n in ast.walk(l) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add")]
            if not adds: return None
            val = l.target.elts[1].id if isinstance(l.target, ast.Tuple) and len(l.target.elts) == 2 and isinstance(l.target.elts[1], ast.Name) else None
            for a in adds:
                if val is not None and not any(isinstance(x, ast.Name) and x.id == val for x in ast.walk(a)):
                    src_ok = any(isinstance(x, ast.Call) and dotted(x.func) == "getattr" for x in ast.walk(a))
                    if not src_ok: self.note("the values of the attributes are not in the key"); return False
                if not self.lossless(a.args[0]): return False
            for n in ast.walk(l):
                if isinstance(n, ast.Assign) and not self.lossless(n.value): return False
            return True
        if len(rets) == 1 and rets[0].value is not None: return self.state_of(rets[0].value, p)
        return None

def target_is(e, v): return True if isinstance(e, ast.Name) and e.id == v else None

def is_dict_of(e, v):
    """v.__dict__, vars(v), getattr(v, '__dict__', {})"""
    if isinstance(e, ast.Attribute) and e.attr == "__dict__" and isinstance(e.value, ast.Name) and e.value.id == v: return True
    if isinstance(e, ast.Call):
        f = dotted(e.func)
        if f == "vars" and isinstance(e.args[0], ast.Name) and e.args[0].id == v: return True
        if f == "getattr" and len(e.args) >= 2 and isinstance(e.args[0], ast.Name) and e.args[0].id == v and isinstance(e.args[1], ast.Constant) and e.args[1].value == "__dict__": return True
    if isinstance(e, ast.BoolOp): return any(is_dict_of(x, v) for x in e.values)
    if isinstance(e, ast.IfExp): return is_dict_of(e.body, v) or is_dict_of(e.orelse, v)
    return False

# -- results do not depend on what earlier evaluations left behind --------------------------
def stored_containers(prog, roots):
    """attribute names, and module-level names, whose contents evaluation code changes"""
    attrs, globs = set(), set()
    for f in reach(prog, roots).values():
        loc = set(f.params()) | {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(f.node):
            b = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store): b = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: b = n.func.value
            if isinstance(b, ast.Attribute): attrs.add(b.attr)
            elif isinstance(b, ast.Name) and b.id not in loc:
                v = f.module.ns.get(b.id)
                if isinstance(v, tuple) and v[0] == "var": globs.add((f, b.id))
            elif isinstance(b, ast.Name) and b.id in f.defaults() and isinstance(f.defaults()[b.id], (ast.Dict, ast.List, ast.Call)): globs.add((f, b.id))
            if isinstance(n, ast.Global): globs |= {(f, x) for x in n.names}
    return attrs, globs

def stateless(c, prog, el, mo, at, nports):
    dev = Device(prog, el, mo, at)
    V = tuple(sym("v%d" % k) for k in range(nports))
    name = dev.ci.name
    calls = []
    for m in EVAL:
        f = prog.find_method(dev.ci, m)
        if f is None: continue
        c.analysed(f)
        if m == "i": calls.append((m, f, [num(0), V], {}))
        elif m == "g": calls += [("g[%d]" % p, f, [num(0), V, num(p)], {}) for p in range(nports)]
        else: calls.append((m, f, [V], {"reduced": False}))
    roots = [x[1] for x in calls]
    cattrs, globs = stored_containers(prog, roots)
    cattrs -= {"opdict"}
    for f, g in sorted(globs, key=lambda x: (x[0].qualname, x[1])):
        loads = [n for h in reach(prog, roots).values() for n in ast.walk(h.node) if isinstance(n, ast.Name) and n.id == g and isinstance(n.ctx, ast.Load) and h.module is f.module]
        c.fail("stateless", "%s: module-level %s" % (f.qualname, g), "evaluation code of %s stores into the module-level %s and reads it back: what one evaluation left influences another" % (name, g), f.where)
    wrote, out = {}, []
    for lab, f, a, kw in calls:
        try: rs = runs(prog, dev, lambda ip, e, d, m: ip.call_function(f, list(a), dict(kw), self_=e), limit=40 if at == "ekv_model" else 400, summaries=ROOTS, truncate=True)
        except AnalysisBroken as x:
            c.undecided("stateless", "%s.%s" % (name, lab), x); continue
        if len(rs) >= (40 if at == "ekv_model" else 400): c.undecided("stateless", "%s.%s" % (name, lab), "more than %d paths: the rest is not analysed" % len(rs))
        for r in rs:
            for ev in r.ip.events:
                if ev[0] == "attrwrite" and isinstance(ev[1], str): wrote.setdefault((ev[1], ev[2]), (f, ev[3], ev[4]))
            out.append((lab, f, r))
    und = 0
    for lab, f, r in out:
        if r.outcome == "unsupported": und += 1; continue
        if r.outcome != "return": continue
        bad = set()
        for a in T.atoms(flat(r.value)):
            if a[0] == "attr" and isinstance(a[1], Poly):
                o = a[1].atom()
                who = o[1] if o and o[0] == "obj" else None
                if (who, a[2]) in wrote and (who, a[2]) not in HYSTERESIS: bad.add("%s.%s" % (who, a[2]))
                if who and a[2] in cattrs: bad.add("%s.%s" % (who, a[2]))
                if who and a[2] in EXCLUDED: bad.add("%s.%s (not part of the key)" % (who, a[2]))
        for b in sorted(bad): c.fail("stateless", "%s.%s: %s" % (name, lab, b), "the value of %s before the evaluation, which evaluations change, enters the result" % b, f.where)
        if not bad: c.ok("stateless", "%s.%s" % (name, lab))
    if und: c.undecided("stateless", name, "%d paths not analysed" % und)
    # parameters of a shared model
    for (who, attr), (f, v, w) in sorted(wrote.items()):
        if who != "model": continue
        # harmless when no result contains its previous value: re-established by every evaluation before use
        used = any(a[0] == "attr" and a[2] == attr and isinstance(a[1], Poly) and a[1].atom() and a[1].atom()[:2] == ("obj", "model") for lab, g, r in out if r.outcome == "return" for a in T.atoms(flat(r.value)) | {b for k, x in r.trace for y in k[1:] if isinstance(y, Poly) for b in T.atoms(y)})
        c.check(not used, "shared-model", "%s: model.%s" % (name, attr), "an evaluation writes model.%s at %s, and evaluations depend on its previous value: devices sharing the model influence each other" % (attr, w), f.where)
    c.ok("shared-model", name)

def flat(v):
    if isinstance(v, Mat): return tuple(v.vals)
    if isinstance(v, tuple): return tuple(flat(x) for x in v)
    if isinstance(v, PList): return tuple(flat(x) for x in v.items)
    if isinstance(v, (Poly, str)): return v
    try: return tokey(v)
    except Exception: return ()
