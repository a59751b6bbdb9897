"""Exception effects: which exception types may leave a function, and where they come from.

Sources of exceptions: explicit raises, float()/int()/math.sqrt() of text, subscripts of split text whose
length is not established on the way there, look-ups of text in dictionaries without a membership test,
unpacking of split text, keyword-splat calls with text keys, encoding errors of reads, and what callees let
through.  try/except is followed: a handler absorbs what its types cover, a bare raise lets it through."""
import ast, builtins
from .program import FuncInfo, ClassInfo, dotted
from .interp import walk_own

class Exc(object):
    __slots__ = ("name", "origin", "where")
    def __init__(self, name, origin, where): self.name, self.origin, self.where = name, origin, where
    def __hash__(self): return hash((self.name, self.origin))
    def __eq__(self, o): return (self.name, self.origin) == (o.name, o.origin)
    def __repr__(self): return "%s from %s" % (self.name, self.origin)

def txt(n, k=70):
    s = ast.unparse(n) if n is not None else ""
    s = " ".join(s.split())
    return s if len(s) <= k else s[:k] + "..."

class Flow(object):
    def __init__(self, prog, text_modules=("ahkab.netlist_parser",)):
        self.prog, self.text = prog, set(text_modules)
        self.memo, self.busy = {}, set()
        self.nsites = 0
        self.calls = 0

    # ---------------------------------------------------------------- exception classes
    def mro(self, name):
        """names of the class and its bases"""
        short = name.split(".")[-1]
        b = getattr(builtins, short, None)
        if isinstance(b, type) and issubclass(b, BaseException): return [c.__name__ for c in b.__mro__]
        for c in self.prog.classes.values():
            if c.name == short:
                out = [short]
                for x in c.node.bases:
                    d = dotted(x)
                    if d: out += self.mro(d)
                return out
        if short in ("LinAlgError",): return [short, "ValueError", "Exception", "BaseException"]
        return [short, "Exception", "BaseException"]

    def types(self, n, fi):
        """names a handler's type expression stands for (None: anything)"""
        if n is None: return None
        if isinstance(n, ast.Tuple):
            out = []
            for x in n.elts:
                t = self.types(x, fi)
                out += t or []
            return out
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return (self.types(n.left, fi) or []) + (self.types(n.right, fi) or [])
        d = dotted(n)
        if d:
            v = self.prog.resolve_dotted(fi.module, d)
            if isinstance(v, tuple) and v[0] == "var" and v[1] and v[1][-1] is not None: return self.types(v[1][-1], fi)
            short = d.split(".")[-1]
            return [{"IOError": "OSError", "EnvironmentError": "OSError"}.get(short, short)]
        return []

    def catches(self, types, exc):
        return types is None or any(t in self.mro(exc.name) for t in types)

    # ---------------------------------------------------------------- functions
    def escapes(self, fi):
        if fi.qualname in self.memo: return self.memo[fi.qualname]
        if fi.qualname in self.busy: return set()
        self.busy.add(fi.qualname)
        try:
            r = Walker(self, fi).block(fi.node.body, {})
        finally: self.busy.discard(fi.qualname)
        if not self.busy: self.memo[fi.qualname] = r
        else: self.memo.setdefault(fi.qualname, r)
        return r

class Walker(object):
    def __init__(self, flow, fi):
        self.flow, self.fi, self.prog = flow, fi, flow.prog
        self.texty = fi.module.name in flow.text
        self.lists, self.splits, self.dicts, self.strs = set(), set(), set(), set()
        self.tests = set()           # names whose membership is tested somewhere
        self.funs = {}               # local name -> functions it may stand for
        self.taint = set(fi.params()) if self.texty else set()
        if "self" in self.taint: self.taint.discard("self")
        for n in walk_own(fi.node):
            if isinstance(n, ast.Compare):
                for op, r in zip(n.ops, n.comparators):
                    if isinstance(op, (ast.In, ast.NotIn)): self.tests.add(txt(r))
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v, t = n.value, n.targets[0].id
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "split": self.splits.add(t)
                if isinstance(v, ast.Dict): self.funs[t] = [self.callee(x) for x in v.values]
                if isinstance(v, ast.Lambda): self.funs[t] = [v]
        if self.texty:
            for _ in range(3):
                for n in walk_own(fi.node):
                    if isinstance(n, ast.Assign) and self.tainted(n.value):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): self.taint.add(x.id)
                    if isinstance(n, ast.For) and self.tainted(n.iter):
                        for x in ast.walk(n.target):
                            if isinstance(x, ast.Name): self.taint.add(x.id)
        self.words = set()           # loop variables over split text: never empty
        for n in walk_own(fi.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                b = n.iter
                while isinstance(b, ast.Subscript): b = b.value
                if (isinstance(b, ast.Name) and b.id in self.splits) or (isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "split" and not b.args): self.words.add(n.target.id)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id in self.splits and not isinstance(n.value.slice, ast.Slice):
                for t in n.targets:
                    if isinstance(t, ast.Name): self.words.add(t.id)

    def tainted(self, n):
        return any(isinstance(x, ast.Name) and x.id in self.taint for x in ast.walk(n)) or any(isinstance(x, ast.Attribute) and x.attr in ("readline", "read", "stdin") for x in ast.walk(n))

    def where(self, n): return "%s:%d" % (self.fi.module.rel, getattr(n, "lineno", self.fi.node.lineno))
    def exc(self, name, n, what=None):
        self.flow.nsites += 1
        return Exc(name, "%s: %s" % (self.fi.qualname.replace("ahkab.", "", 1), what or txt(n)), self.where(n))

    def callee(self, n):
        if isinstance(n, ast.Lambda): return n
        d = dotted(n)
        v = self.prog.resolve_dotted(self.fi.module, d) if d else None
        return v if isinstance(v, (FuncInfo, ClassInfo)) else None

    # ---------------------------------------------------------------- statements
    def block(self, body, env, caught=None):
        out = set()
        for s in body:
            out |= self.stmt(s, env, caught)
        return out

    def stmt(self, s, env, caught):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): return set()
        if isinstance(s, ast.Raise):
            out = self.expr(s.exc, env) if isinstance(s.exc, ast.Call) else set()
            if s.exc is None or (isinstance(s.exc, ast.Name) and caught and s.exc.id == caught[0]):
                return out | (caught[1] if caught else set())
            d = dotted(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
            v = self.prog.resolve_dotted(self.fi.module, d) if d else None
            if isinstance(v, FuncInfo): return out | {self.exc("Exception", s)}
            out.add(self.exc((d or "Exception").split(".")[-1], s, "raise " + (d or "?") + ("" if not isinstance(s.exc, ast.Call) or not s.exc.args else "(%s)" % txt(s.exc.args[0], 40))))
            return out
        if isinstance(s, ast.Try):
            inner = self.block(s.body, dict(env), caught)
            out, got = set(), [set() for h in s.handlers]
            for e in inner:
                for i, h in enumerate(s.handlers):
                    if self.flow.catches(self.flow.types(h.type, self.fi), e):
                        got[i].add(e); break
                else: out.add(e)
            for i, h in enumerate(s.handlers):
                if got[i] or not inner: out |= self.block(h.body, dict(env), (h.name, got[i]))
            out |= self.block(s.orelse, dict(env), caught)
            out |= self.block(s.finalbody, dict(env), caught)
            return out
        if isinstance(s, ast.If):
            out = self.expr(s.test, env)
            a, b = dict(env), dict(env)
            self.assume(s.test, True, a); self.assume(s.test, False, b)
            out |= self.block(s.body, a, caught)
            out |= self.block(s.orelse, b, caught)
            if leaves(s.body): env.clear(); env.update(b)
            elif s.orelse and leaves(s.orelse): env.clear(); env.update(a)
            else:
                for k in list(env): env[k] = min(a.get(k, 0), b.get(k, 0))
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            out = self.expr(s.iter, env)
            e2 = dict(env)
            if isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and dotted(s.iter.func) == "range":
                hi = s.iter.args[-1] if len(s.iter.args) < 3 else s.iter.args[1]
                self.ranges = dict(getattr(self, "ranges", {}))
                self.ranges[s.target.id] = txt(hi)
            out |= self.block(s.body, e2, caught)
            out |= self.block(s.orelse, dict(env), caught)
            self.forget(s.body, env)
            return out
        if isinstance(s, ast.While):
            self.forget(s.body, env)
            out = self.expr(s.test, env)
            a = dict(env)
            self.assume(s.test, True, a)
            out |= self.block(s.body, a, caught)
            out |= self.block(s.orelse, dict(env), caught)
            return out
        if isinstance(s, ast.With):
            out = set()
            for i in s.items: out |= self.expr(i.context_expr, env)
            return out | self.block(s.body, env, caught)
        if isinstance(s, ast.Assert):
            return self.expr(s.test, env) | ({self.exc("AssertionError", s)} if self.texty else set())
        if isinstance(s, ast.Assign):
            out = self.expr(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and self.texty and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("split", "rsplit"):
                    if not self.split_guarded(s.value): out.add(self.exc("ValueError", s, "unpacking " + txt(s.value)))
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, ast.Attribute) and s.value.attr == "args" and caught and not self.one_arg(caught[1], len(t.elts)):
                    out.add(self.exc("ValueError", s, "unpacking " + txt(s.value)))
                if isinstance(t, ast.Subscript): out |= self.expr(t.value, env) | self.expr(t.slice, env)
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): env.pop(x.id, None)
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "split": env[t.id] = 1
            return out
        out = set()
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr): out |= self.expr(n, env)
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add):
            a, b = self.kind(s.target), self.kind(s.value)
            if a and b and a != b and (a, b) not in (("list", "tuple"), ("list", "str"), ("list", "dict")): out.add(self.exc("TypeError", s, "%s += %s: %s" % (a, b, txt(s, 50))))
        return out

    def one_arg(self, excs, k):
        """every raise of these exceptions in the package passes k arguments"""
        names = {e.name for e in excs}
        if not names: return True
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    d = dotted(n.exc.func if isinstance(n.exc, ast.Call) else n.exc)
                    if d and d.split(".")[-1] in names:
                        if not isinstance(n.exc, ast.Call) or len(n.exc.args) != k: return False
        return all(any(c.name == x for c in self.prog.classes.values()) for x in names)

    def split_guarded(self, call):
        """a helper that counts the separator was consulted in this function"""
        src = txt(call.func.value).replace(".strip()", "")
        for n in walk_own(self.fi.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "count" and txt(n.func.value).startswith(src): return True
                g = self.callee(n.func)
                if isinstance(g, FuncInfo) and n.args and txt(n.args[0]) == src and any(isinstance(x, ast.Attribute) and x.attr == "count" for x in ast.walk(g.node)): return True
        return False

    def forget(self, body, env):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): env.pop(x.id, None)

    # ---------------------------------------------------------------- conditions
    def assume(self, c, truth, env):
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not): return self.assume(c.operand, not truth, env)
        if isinstance(c, ast.BoolOp):
            if isinstance(c.op, ast.And) == truth:
                for v in c.values: self.assume(v, truth, env)
            return
        if isinstance(c, ast.Name) and truth: env[c.id] = max(env.get(c.id, 0), 1)
        k = self.lenof(c)
        if k and truth: env[k] = max(env.get(k, 0), 1)
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            l, r, op = c.left, c.comparators[0], c.ops[0]
            if self.lenof(l) is None and self.lenof(r) is not None:
                l, r = r, l
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
            k = self.lenof(l)
            if k is None or not isinstance(r, ast.Constant) or not isinstance(r.value, int): return
            v = r.value
            if not truth: op = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(op), ast.Is)()
            lo = {ast.Gt: v + 1, ast.GtE: v, ast.Eq: v}.get(type(op))
            if isinstance(op, ast.NotEq) and v == 0: lo = 1
            if lo is not None: env[k] = max(env.get(k, 0), lo)

    def lenof(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.Name): return n.args[0].id
        return None

    # ---------------------------------------------------------------- expressions
    def kind(self, n, depth=0):
        """str, list, tuple, dict, num or none where the text of the program settles it"""
        if depth > 6 or n is None: return None
        k = lambda x: self.kind(x, depth + 1)
        if isinstance(n, ast.Constant):
            v = n.value
            return "str" if isinstance(v, str) else "none" if v is None else "num" if isinstance(v, (int, float, complex)) else "bytes" if isinstance(v, bytes) else None
        if isinstance(n, ast.JoinedStr): return "str"
        if isinstance(n, (ast.List, ast.ListComp)): return "list"
        if isinstance(n, ast.Tuple): return "tuple"
        if isinstance(n, (ast.Dict, ast.DictComp)): return "dict"
        if isinstance(n, ast.BinOp):
            a, b = k(n.left), k(n.right)
            if isinstance(n.op, ast.Mod) and a == "str": return "str"
            if isinstance(n.op, ast.Mult) and "num" in (a, b) and (set((a, b)) & {"str", "list", "tuple"}): return a if b == "num" else b
            if isinstance(n.op, ast.Add):      # with an operand of unknown kind: either it is the same or the sum has no value
                return a if a == b else a or b if None in (a, b) and "num" not in (a, b) else None
            return "num" if a == b == "num" else None
        if isinstance(n, ast.IfExp):
            a, b = k(n.body), k(n.orelse)
            return a if a == b else None
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if isinstance(n.func, ast.Name) and n.func.id not in self.local_names():
                r = {"str": "str", "repr": "str", "list": "list", "sorted": "list", "len": "num", "int": "num", "float": "num", "abs": None, "tuple": "tuple", "dict": "dict", "chr": "str", "ord": "num"}.get(d)
                if r and self.prog.resolve_dotted(self.fi.module, d) is None: return r
            if isinstance(n.func, ast.Attribute):
                m = n.func.attr
                if m in ("split", "rsplit", "splitlines", "readlines"): return "list"
                if m in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "join", "title", "capitalize", "readline"): return "str"
            return None
        if isinstance(n, ast.Name): return self.name_kind(n.id, depth)
        if isinstance(n, ast.Attribute): return self.attr_kind(n.attr, depth)
        return None

    def local_names(self):
        if not hasattr(self, "_ln"): self._ln = set(self.fi.params()) | {x.id for x in walk_own(self.fi.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return self._ln

    def name_kind(self, name, depth):
        if name in self.fi.params() or name not in self.local_names(): return None
        out, stores = set(), 0
        for x in walk_own(self.fi.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
                stores += 1
                # what keeps the kind it has: x = x + ...
                if isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add) and isinstance(x.value.left, ast.Name) and x.value.left.id == name: continue
                out.add(self.kind(x.value, depth + 1))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name: stores += 1
            elif isinstance(x, ast.For) and isinstance(x.target, ast.Name) and x.target.id == name:
                stores += 1
                out.add("str" if self.kind(x.iter, depth + 1) == "str" or (isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr in ("split", "rsplit", "splitlines", "readlines")) else
                        "num" if isinstance(x.iter, ast.Call) and dotted(x.iter.func) == "range" else None)
        total = sum(1 for x in walk_own(self.fi.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)))
        return out.pop() if len(out) == 1 and stores == total else None

    def attr_kind(self, attr, depth):
        """every assignment of this attribute in the package has the same kind"""
        memo = self.flow.__dict__.setdefault("attrs", {})
        if attr in memo: return memo[attr]
        memo[attr] = None
        out = set()
        for ci in self.prog.classes.values():
            if attr in ci.methods: out.add(None)
            for m in ci.methods.values():
                w = None
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store): break
                else: continue
                w = Walker(self.flow, m)
                for x in walk_own(m.node):
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in x.targets):
                        v = x.value
                        if isinstance(v, ast.Name) and m.name == "__init__" and v.id in m.params() and not any(isinstance(y, ast.Name) and y.id == v.id and isinstance(y.ctx, ast.Store) for y in walk_own(m.node)):
                            out |= self.arg_kinds(ci, m, v.id, depth)
                        else: out.add(w.kind(v, depth + 1))
                    elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and isinstance(x.target, ast.Attribute) and x.target.attr == attr: out.add(None)
        for mod in self.prog.modules.values():        # assigned from outside
            for x in ast.walk(mod.tree):
                if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self"): out.add(None)
        memo[attr] = out.pop() if len(out) == 1 else None
        return memo[attr]

    def arg_kinds(self, ci, init, param, depth):
        """kinds of the values given for a parameter of a constructor"""
        ps = init.params()
        at = ps.index(param) - 1
        d = init.node.args.defaults
        out, sites = set(), 0
        names = [a.arg for a in init.node.args.args]
        for f in self.prog.functions.values():
            for x in walk_own(f.node):
                if not isinstance(x, ast.Call) or (dotted(x.func) or "").split(".")[-1] != ci.name: continue
                if self.prog.resolve_dotted(f.module, dotted(x.func)) is not ci: return {None}
                if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords): return {None}
                v = x.args[at] if at < len(x.args) else next((k.value for k in x.keywords if k.arg == param), None)
                sites += 1
                out.add(Walker(self.flow, f).kind(v, depth + 1) if v is not None else None)
        return out if sites else {None}

    def operands(self, n):
        """an operator that its operands do not support"""
        if isinstance(n.op, ast.Add):
            a, b = self.kind(n.left), self.kind(n.right)
            if a and b and a != b: return {self.exc("TypeError", n, "%s + %s: %s" % (a, b, txt(n, 50)))}
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            import re
            specs = [x for x in re.findall(r"%(?:\([^)]*\))?[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?([a-zA-Z%])", n.left.value) if x != "%"]
            if "%(" in n.left.value or "*" in n.left.value: return set()
            if isinstance(n.right, ast.Tuple):
                if any(isinstance(x, ast.Starred) for x in n.right.elts): return set()
                if len(specs) != len(n.right.elts): return {self.exc("TypeError", n, "%d values for %d fields: %s" % (len(n.right.elts), len(specs), txt(n, 50)))}
                vals = n.right.elts
            else:
                k = self.kind(n.right)
                if k is None or k in ("tuple", "dict"): return set()
                if len(specs) != 1: return {self.exc("TypeError", n, "1 value for %d fields: %s" % (len(specs), txt(n, 50)))}
                vals = [n.right]
            for q, v in zip(specs, vals):
                k = self.kind(v)
                if q in "dioxXeEfFgG" and k in ("str", "list", "tuple", "dict", "none"): return {self.exc("TypeError", n, "%%%s of a %s: %s" % (q, k, txt(n, 50)))}
        return set()

    def expr(self, n, env):
        if n is None: return set()
        if isinstance(n, ast.BoolOp):
            out, e = set(), dict(env)
            for v in n.values:
                out |= self.expr(v, e)
                self.assume(v, isinstance(n.op, ast.And), e)
            return out
        if isinstance(n, ast.IfExp):
            a, b = dict(env), dict(env)
            self.assume(n.test, True, a); self.assume(n.test, False, b)
            return self.expr(n.test, env) | self.expr(n.body, a) | self.expr(n.orelse, b)
        if isinstance(n, ast.Lambda): return set()
        out = set()
        if isinstance(n, ast.Call):
            out |= self.call(n, env)
            for x in n.args: out |= self.expr(x.value if isinstance(x, ast.Starred) else x, env)
            for k in n.keywords: out |= self.expr(k.value, env)
            if isinstance(n.func, ast.Attribute): out |= self.expr(n.func.value, env)
            elif not isinstance(n.func, ast.Name): out |= self.expr(n.func, env)
            return out
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load): out |= self.sub(n, env)
        if isinstance(n, ast.BinOp): out |= self.operands(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr): out |= self.expr(c, env)
            elif isinstance(c, ast.comprehension):
                out |= self.expr(c.iter, env)
                for x in c.ifs: out |= self.expr(x, env)
        return out

    def sub(self, n, env):
        if not self.texty or isinstance(n.slice, ast.Slice): return set()
        b = n.value
        if isinstance(b, ast.Name):
            if b.id in self.splits or b.id in self.taint:
                i = n.slice
                k = None
                if isinstance(i, ast.Constant) and isinstance(i.value, int): k = i.value
                if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant): k = -i.operand.value
                if k is not None:
                    need = k + 1 if k >= 0 else -k
                    if env.get(b.id, 0) >= need or (b.id in self.words and need == 1): return set()
                    if b.id in self.splits: return {self.exc("IndexError", n)}
                    if b.id in self.words or not self.istext(b.id): return set()
                    return {self.exc("IndexError", n)} if need > 1 or not self.nonblank(b.id) else set()
                if isinstance(i, ast.Name) and getattr(self, "ranges", {}).get(i.id, "").replace(" ", "") == "len(%s)" % b.id: return set()
                if isinstance(i, ast.BinOp) and isinstance(i.op, ast.Add):       # X[i + k] for i in range(len(X[k:])) or range(len(X) - k)
                    v, q = (i.left, i.right) if isinstance(i.left, ast.Name) else (i.right, i.left)
                    if isinstance(v, ast.Name) and isinstance(q, ast.Constant) and getattr(self, "ranges", {}).get(v.id, "").replace(" ", "") in ("len(%s[%s:])" % (b.id, q.value), "len(%s)-%s" % (b.id, q.value)): return set()
                if b.id in self.splits: return {self.exc("IndexError", n)}
                if isinstance(i, ast.Constant) and isinstance(i.value, str): return set()
                if self.tainted(i) and txt(b) not in self.tests and b.id not in getattr(self, "nolookup", ()): return {self.exc("KeyError", n)}
            return set()
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ("split", "rsplit") and self.tainted(b.func.value):
            i = n.slice
            if isinstance(i, ast.Constant) and i.value == 0: return set()
            if isinstance(i, ast.UnaryOp) and isinstance(i.operand, ast.Constant) and i.operand.value == 1: return set()
            return set() if b.args and self.split_guarded(b) else {self.exc("IndexError", n)}
        if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id in self.splits: return set()   # a word's first character
        if isinstance(b, ast.Name) or isinstance(b, ast.Attribute):
            if self.tainted(n.slice) and txt(b) not in self.tests and not isinstance(n.slice, ast.Constant): return {self.exc("KeyError", n)}
        return set()

    def istext(self, name): return name in ("line", "token", "aline", "text")
    def nonblank(self, name): return True    # lines are stripped and blank ones dropped before they are kept

    def call(self, n, env):
        flow = self.flow
        flow.calls += 1
        out = set()
        d = dotted(n.func)
        if self.texty and d in ("float", "int", "complex") and n.args and self.tainted(n.args[0]): out.add(self.exc("ValueError", n))
        if self.texty and d in ("math.sqrt", "math.log") and n.args: out.add(self.exc("ValueError", n))
        if self.texty and d == "open" and n.args:
            a = n.args[0]
            plain = isinstance(a, ast.Name) and a.id in self.fi.params() and not any(isinstance(x, ast.Name) and x.id == a.id and isinstance(x.ctx, ast.Store) for x in walk_own(self.fi.node))
            if not plain: out.add(self.exc("OSError", n))
        if self.texty and isinstance(n.func, ast.Attribute) and n.func.attr in ("readline", "read", "readlines"): out.add(self.exc("UnicodeDecodeError", n))
        if self.texty and isinstance(n.func, ast.Attribute) and n.func.attr == "index" and n.args and self.tainted(n.args[0]) and isinstance(n.func.value, ast.Name) and n.func.value.id in self.splits: out.add(self.exc("ValueError", n))
        if d in ("sys.exit", "exit", "quit") : out.add(self.exc("SystemExit", n))
        if self.texty and any(k.arg is None for k in n.keywords): out.add(self.exc("TypeError", n))
        if self.texty and d == "getattr" and len(n.args) == 2 and self.tainted(n.args[1]): out.add(self.exc("AttributeError", n))
        if self.texty and d in ("imp.find_module", "imp.load_module", "importlib.import_module", "__import__"): out.add(self.exc("ImportError", n))
        targets = []
        if isinstance(n.func, ast.Subscript):
            b = n.func.value
            if isinstance(b, ast.Name) and b.id in self.funs: targets += self.funs[b.id]
            elif isinstance(b, ast.Name):
                v = self.prog.lookup(self.fi.module, b.id)
                if isinstance(v, tuple) and v[0] == "var":
                    for x in v[1]:
                        if isinstance(x, ast.Dict): targets += [self.callee(y) for y in x.values]
        elif isinstance(n.func, ast.Name) and n.func.id in self.funs: targets += self.funs[n.func.id]
        elif isinstance(n.func, ast.Name) and n.func.id in self.local_funs(): targets += self.local_funs()[n.func.id]
        else: targets.append(self.callee(n.func))
        for t in targets:
            if isinstance(t, ast.Lambda): out |= self.expr(t.body, {})
            elif isinstance(t, FuncInfo): out |= flow.escapes(t)
            elif isinstance(t, ClassInfo):
                m = self.prog.find_method(t, "__init__")
                if m is not None: out |= flow.escapes(m)
        if not targets or targets == [None]:
            # a method of an object built by the package: everything of that name in the element / circuit classes
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("add_node",):
                for c in self.prog.classes.values():
                    m = c.methods.get(n.func.attr)
                    if m is not None and c.module.name.endswith("circuit"): out |= flow.escapes(m)
        return out

    def local_funs(self):
        """names bound to functions taken out of a local or module table"""
        if not hasattr(self, "_lf"):
            self._lf = {}
            for n in walk_own(self.fi.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    b = v.value if isinstance(v, ast.Subscript) else (v.func.value if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "get" else None)
                    if isinstance(b, ast.Name) and b.id in self.funs: self._lf[n.targets[0].id] = self.funs[b.id]
        return self._lf

def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break))
