"""Names: every name a function reads is bound somewhere that can reach the read."""
import ast, builtins
from .program import FuncInfo, ClassInfo

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__class__", "__spec__", "__loader__", "WindowsError",
    "unicode", "long", "basestring", "xrange", "raw_input", "unichr", "reduce", "file", "cmp", "execfile", "reload", "buffer", "intern"}
PY2 = {"unicode", "long", "basestring", "xrange", "raw_input", "unichr", "reduce", "file", "cmp", "execfile", "reload", "buffer", "intern"}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)

def own_nodes(node):
    """nodes of a scope, without those of the scopes inside it"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, SCOPES) else body_of(node)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPES):
            todo += outer_parts(n)
            continue
        todo += list(ast.iter_child_nodes(n))

def body_of(n): return [n.body] if isinstance(n, ast.Lambda) else list(n.body)
def outer_parts(n):
    """the parts of a nested scope evaluated outside of it"""
    out = list(getattr(n, "decorator_list", []))
    if isinstance(n, ast.ClassDef): return out + list(n.bases) + [k.value for k in n.keywords]
    a = n.args
    return out + list(a.defaults) + [d for d in a.kw_defaults if d is not None]

def arg_names(n):
    a = n.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]

def bound(node):
    """names a scope binds itself; names it declares global / nonlocal"""
    b, g = set(), set()
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)): b |= set(arg_names(node))
    comp = set()
    for n in own_nodes(node):
        if isinstance(n, COMPS):
            for x in ast.walk(n):
                if isinstance(x, ast.comprehension):
                    comp |= {id(y) for y in ast.walk(x.target)}
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp: b.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): b.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: b.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name: b.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)): g |= set(n.names)
        elif hasattr(ast, "MatchAs") and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: b.add(n.name)
    return b - g, g

def module_names(prog, m, seen=()):
    """(names the module binds, whether all of them are known)"""
    b, _ = bound(m.tree)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global): b |= set(n.names)
    known = True
    for base in m.ns.get("*", []):
        if base in prog.modules and base not in seen:
            x, k = module_names(prog, prog.modules[base], seen + (m.name,))
            b |= {q for q in x if not q.startswith("_")}
            known = known and k
        elif base not in prog.modules: known = False
    return b, known

class Reads(object):
    """every read of a name, resolved through the scopes around it"""
    def __init__(self, prog, m, report, seen):
        self.prog, self.m, self.report, self.seen = prog, m, report, seen
        self.names, self.known = module_names(prog, m)
        self.names |= {q[len(m.name) + 1:].split(".")[0] for q in prog.modules if q.startswith(m.name + ".")}
        self.guard = set()

    def module(self): self.scope(self.m.tree, [], None)

    def scope(self, node, outer, where):
        if node is self.m.tree: mine, gl = set(self.names), set()
        else: mine, gl = bound(node)
        cls = isinstance(node, ast.ClassDef)
        inner = [s for s in outer if not s[1]] + [(mine, cls, gl)]
        vis = [s for s in outer if not s[1]] + [(mine, False, gl)]
        def walk(n, extra, guarded):
            if isinstance(n, SCOPES):
                for p in outer_parts(n): walk(p, extra, guarded)
                w = where
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): w = (where + "." if where else "") + n.name
                elif isinstance(n, ast.ClassDef): w = (where + "." if where else "") + n.name
                self.scope(n, inner + ([(extra, False, set())] if extra else []), w)
                return
            if isinstance(n, COMPS):
                e = set(extra)
                for g in n.generators:
                    walk(g.iter, e, guarded)
                    e |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for i in g.ifs: walk(i, e, guarded)
                for f in ("elt", "key", "value"):
                    if hasattr(n, f): walk(getattr(n, f), e, guarded)
                return
            if isinstance(n, ast.Try):
                names = set()
                for h in n.handlers:
                    for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts) if h.type is not None else [ast.Name("Exception")]:
                        if isinstance(x, ast.Name) and x.id in ("NameError", "Exception", "BaseException"): names.add(x.id)
                for b in n.body: walk(b, extra, guarded or "NameError" in names)
                for h in n.handlers:
                    if h.type is not None: walk(h.type, extra, guarded)
                    for b in h.body: walk(b, extra, guarded)
                for b in n.orelse + n.finalbody: walk(b, extra, guarded)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.seen[0] += 1
                ok = n.id in extra or n.id in BUILTIN or any(n.id in s[0] for s in vis) or n.id in self.names
                if not ok and self.known and not guarded: self.report("name", where, n.id, n.lineno)
                elif ok and n.id in PY2 and not guarded and not (n.id in extra or any(n.id in s[0] for s in vis) or n.id in self.names): self.report("py2", where, n.id, n.lineno)
            for k in ast.iter_child_nodes(n): walk(k, extra, guarded)
        for b in (body_of(node) if node is not self.m.tree else node.body): walk(b, set(), False)

class Bottom(Exception): pass

class Flow(object):
    """names that may be bound at a point; a read of a local that no path binds is reported.
    With `strict`, reports reads some path leaves unbound instead (used to look around, not to judge)"""
    def __init__(self, node, report, strict=False):
        self.report, self.strict = report, strict
        self.locals, _ = bound(node)
        self.node = node
        self.reads = 0

    def run(self):
        st = set(arg_names(self.node))
        self.loops, self.handlers = [], []
        self.block(body_of(self.node) if not isinstance(self.node, ast.Lambda) else [ast.Expr(self.node.body)], st)

    def join(self, *ss):
        ss = [s for s in ss if s is not None]
        if not ss: return None
        r = set(ss[0])
        for s in ss[1:]: r = (r & s) if self.strict else (r | s)
        return r

    def block(self, body, st):
        for s in body:
            if st is None: return None
            st = self.stmt(s, st)
        return st

    def assigned(self, nodes):
        out = set()
        for b in nodes:
            for n in [b] + list(own_nodes(b)) if not isinstance(b, SCOPES) else [b]:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names: out.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        return out

    def expr(self, n, st):
        if n is None: return
        def walk(x, extra):
            if isinstance(x, SCOPES):
                for p in outer_parts(x): walk(p, extra)
                return
            if isinstance(x, COMPS):
                e = set(extra)
                for g in x.generators:
                    walk(g.iter, e)
                    e |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                    for i in g.ifs: walk(i, e)
                for f in ("elt", "key", "value"):
                    if hasattr(x, f): walk(getattr(x, f), e)
                return
            if isinstance(x, ast.NamedExpr):
                walk(x.value, extra); st.add(x.target.id); return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.locals:
                self.reads += 1
                if x.id not in st and x.id not in extra: self.report(x.id, x.lineno)
            for k in ast.iter_child_nodes(x): walk(k, extra)
        walk(n, set())

    def bind(self, t, st):
        if isinstance(t, ast.Name): st.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: self.bind(e, st)
        elif isinstance(t, ast.Starred): self.bind(t.value, st)
        else: self.expr(t, st)

    def stmt(self, s, st):
        st = set(st)
        k = type(s).__name__
        if k == "Assign":
            self.expr(s.value, st)
            for t in s.targets: self.bind(t, st)
        elif k == "AugAssign":
            self.expr(s.value, st)
            t = s.target
            if isinstance(t, ast.Name): self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            else: self.expr(t, st)
        elif k == "AnnAssign":
            self.expr(s.value, st)
            if s.value is not None: self.bind(s.target, st)
        elif k in ("FunctionDef", "AsyncFunctionDef", "ClassDef"):
            for p in outer_parts(s): self.expr(p, st)
            st.add(s.name)
        elif k in ("Import", "ImportFrom"):
            for a in s.names: st.add((a.asname or a.name).split(".")[0])
        elif k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st.discard(t.id)
                else: self.expr(t, st)
        elif k in ("Return", "Raise"):
            for c in ast.iter_child_nodes(s): self.expr(c, st)
            return None
        elif k == "If":
            self.expr(s.test, st)
            c = s.test.value if isinstance(s.test, ast.Constant) else None
            a = self.block(s.body, set(st)) if c is None or c else None
            b = self.block(s.orelse, set(st)) if c is None or not c else None
            return self.join(a, b)
        elif k in ("For", "AsyncFor", "While"):
            if k != "While": self.expr(s.iter, st)
            again = set(st) if self.strict else st | self.assigned(s.body)
            if k == "While": self.expr(s.test, again)
            ins = set(again)
            if k != "While": self.bind(s.target, ins)
            self.loops.append([])
            end = self.block(s.body, ins)
            brk = self.loops.pop()
            forever = k == "While" and isinstance(s.test, ast.Constant) and s.test.value
            outs = [] if forever else [self.block(s.orelse, self.join(st, end) if not self.strict else set(st)) if s.orelse else (self.join(st, end) if not self.strict else set(st))]
            return self.join(*(outs + brk))
        elif k in ("Break", "Continue"):
            if self.loops and k == "Break": self.loops[-1].append(set(st))
            return None
        elif k == "Try":
            before = set(st)
            body = self.block(s.body, set(st))
            may = before | (self.assigned(s.body) if not self.strict else set())
            outs = [self.block(s.orelse, body) if body is not None and s.orelse else body]
            for h in s.handlers:
                hs = set(may)
                self.expr(h.type, hs)
                if h.name: hs.add(h.name)
                r = self.block(h.body, hs)
                if r is not None and h.name: r.discard(h.name)
                outs.append(r)
            out = self.join(*outs)
            if s.finalbody:
                fin = self.block(s.finalbody, set(may) | (out or set()) if not self.strict else set(may))
                if out is None or fin is None: return None
                return out | self.assigned(s.finalbody)
            return out
        elif k in ("With", "AsyncWith"):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None: self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        elif k == "Expr":
            self.expr(s.value, st)
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "sys" and s.value.func.attr == "exit": return None
        elif k == "Match": return st | self.assigned([s])
        else:
            for c in ast.iter_child_nodes(s): self.expr(c, st)
        return st

class TooMany(Exception): pass

class Worlds(object):
    """reads of locals on the paths through a function, which are told apart by the conditions they went through: a path that
    takes the same condition both ways is not followed. Loops over sequences run at least once, chains of conditions without an
    else are complete, calls of functions that never return end the path."""
    CAP = 160

    def __init__(self, node, report, noreturn=lambda call: False):
        self.node, self.report, self.noreturn = node, report, noreturn
        self.locals, _ = bound(node)
        for n in own_nodes(node):                              # what a conditional import brings in is not judged
            if isinstance(n, (ast.Import, ast.ImportFrom)): self.locals -= {(a.asname or a.name).split(".")[0] for a in n.names}
        self.quiet = 0

    def run(self):
        if isinstance(self.node, ast.Lambda): return
        self.loops = []
        try: self.block(body_of(self.node), [(frozenset(arg_names(self.node)), frozenset())])
        except TooMany: return False
        return True

    def norm(self, ws):
        ws = list(dict.fromkeys(ws))
        if len(ws) > 12:                                       # worlds that differ only in what they know: keep the weakest
            out = []
            by = {}
            for b, k in ws: by.setdefault(b, []).append(k)
            for b, ks in by.items():
                if len(ks) > 6: out.append((b, frozenset.intersection(*ks)))
                else: out += [(b, k) for k in ks]
            ws = out
        if len(ws) > self.CAP: raise TooMany()
        return ws

    def block(self, body, ws):
        for s in body:
            if not ws: return []
            ws = self.norm(self.stmt(s, ws))
        return ws

    def reads(self, n, ws):
        if n is None: return
        def walk(x, extra):
            if isinstance(x, SCOPES):
                for p in outer_parts(x): walk(p, extra)
                return
            if isinstance(x, COMPS):
                e = set(extra)
                for g in x.generators:
                    walk(g.iter, e)
                    e |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                    for i in g.ifs: walk(i, e)
                for f in ("elt", "key", "value"):
                    if hasattr(x, f): walk(getattr(x, f), e)
                return
            if isinstance(x, ast.BoolOp) or isinstance(x, ast.IfExp):
                # what is evaluated only under a condition is judged under it
                walk(x.values[0] if isinstance(x, ast.BoolOp) else x.test, extra)
                cur = ws
                if isinstance(x, ast.IfExp):
                    for part, v in ((x.body, True), (x.orelse, False)): self.reads_in(part, self.assume(cur, x.test, v), extra)
                else:
                    for a, b in zip(x.values, x.values[1:]):
                        cur = self.assume(cur, a, isinstance(x.op, ast.And))
                        self.reads_in(b, cur, extra)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.locals and x.id not in extra:
                if any(x.id not in b for b, k in ws): self.report(x.id, x.lineno)
            for k in ast.iter_child_nodes(x): walk(k, extra)
        walk(n, set())

    def reads_in(self, n, ws, extra):
        keep = self.locals
        self.locals = keep - set(extra)
        self.reads(n, ws)
        self.locals = keep

    def assume(self, ws, test, v):
        """worlds in which the test has the value"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.assume(ws, test.operand, not v)
        if isinstance(test, ast.Constant): return ws if bool(test.value) == v else []
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == v:
                for t in test.values: ws = self.assume(ws, t, v)
                return ws
            out, rest = [], ws                                 # some operand decides
            for t in test.values:
                out += self.assume(rest, t, v)
                rest = self.assume(rest, t, not v)
            return self.norm(out)
        k, v = self.key(test, v)
        out = []
        for b, known in ws:
            if (k, not v) in known: continue
            if isinstance(k, tuple) and v and any(x[0][0] == k[0] and x[1] and x[0] != k for x in known if isinstance(x[0], tuple)): continue
            out.append((b, known | {(k, v)}))
        return out

    def key(self, t, v):
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}
            o = type(t.ops[0])
            if o in neg: t, v = ast.Compare(t.left, [neg[o]()], t.comparators), not v
            if isinstance(t.ops[0], (ast.Eq, ast.Is)) and isinstance(t.comparators[0], ast.Constant): return (ast.unparse(t.left), repr(t.comparators[0].value)), v
        return ast.unparse(t), v

    def store(self, ws, names_, attrs=()):
        names_ = set(names_)
        if not names_ and not attrs: return ws
        out = []
        for b, k in ws:
            if k:
                k = frozenset(x for x in k if not self.mentions(x[0], names_, attrs))
            out.append((b | (names_ & self.locals), k))
        return out

    _m = {}
    def mentions(self, k, ns, attrs):
        key = k
        if key not in self._m:
            t = ast.parse(k[0] if isinstance(k, tuple) else k, mode="eval")
            self._m[key] = ({x.id for x in ast.walk(t) if isinstance(x, ast.Name)}, {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)})
        a, b = self._m[key]
        return bool(a & ns or b & set(attrs))

    def stored(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}, {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}

    def stmt(self, s, ws):
        k = type(s).__name__
        if k == "Assign":
            self.reads(s.value, ws)
            for t in s.targets:
                if not isinstance(t, ast.Name): self.reads(t, ws)
                n, a = self.stored(t)
                root = {x.value.id for x in ast.walk(t) if isinstance(x, (ast.Subscript,)) and isinstance(x.value, ast.Name)}
                ws = self.store(ws, n, a)
                if root: ws = [(b, frozenset(x for x in kn if not self.mentions(x[0], root, ()))) for b, kn in ws]
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                nm, c = s.targets[0].id, s.value.value
                f = {(nm, bool(c))} | {((nm, repr(c)), True)}
                ws = [(b, kn | f) for b, kn in ws]
            return ws
        if k == "AugAssign":
            self.reads(s.value, ws)
            if isinstance(s.target, ast.Name): self.reads(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), ws)
            else: self.reads(s.target, ws)
            return self.store(ws, *self.stored(s.target))
        if k == "AnnAssign":
            self.reads(s.value, ws)
            return self.store(ws, *self.stored(s.target)) if s.value is not None else ws
        if k in ("FunctionDef", "AsyncFunctionDef", "ClassDef"):
            for p in outer_parts(s): self.reads(p, ws)
            return self.store(ws, {s.name})
        if k in ("Import", "ImportFrom"): return self.store(ws, {(a.asname or a.name).split(".")[0] for a in s.names})
        if k == "Delete":
            out = []
            ns = {t.id for t in s.targets if isinstance(t, ast.Name)}
            return [(b - ns, kn) for b, kn in ws]
        if k in ("Return", "Raise"):
            for c in ast.iter_child_nodes(s): self.reads(c, ws)
            return []
        if k == "Assert":
            self.reads(s.test, ws)
            return self.assume(ws, s.test, True)
        if k == "If":
            # a chain of conditions without an else leaves nothing out
            chain, cur = [s], s
            while len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If): cur = cur.orelse[0]; chain.append(cur)
            out, rest = [], ws
            for c in chain:
                self.reads(c.test, rest)
                a = self.assume(rest, c.test, True)
                rest = self.norm(self.assume(rest, c.test, False))
                out += self.block(c.body, self.norm(a)) if a else []
            if cur.orelse: out += self.block(cur.orelse, rest)
            elif len(chain) == 1:
                # several tests of one thing against constants are complete like a chain
                names_ = set()
                for b in s.body: names_ |= self.assigned(b)
                k = self.key(s.test, False)
                for b, kn in rest:
                    if isinstance(k[0], tuple) and not k[1] and sum(1 for q, v in kn if isinstance(q, tuple) and q[0] == k[0][0] and not v) >= 2: b = b | (names_ & self.locals)
                    out.append((b, kn))
            else:
                # kept with everything bound that some branch binds
                names_ = set()
                for c in chain:
                    for b in c.body: names_ |= self.assigned(b)
                out += [(b | (names_ & self.locals), kn) for b, kn in rest]
            return out
        if k in ("For", "AsyncFor", "While"):
            self.reads(s.iter if k != "While" else None, ws)
            n, a = set(), set()
            for b in s.body + ([s.target] if k != "While" else []):
                x, y = self.stored(b) if not isinstance(b, SCOPES) else (set(), set())
                n |= x; a |= y
            forget = lambda w: [(b, frozenset(q for q in kn if not self.mentions(q[0], n, a))) for b, kn in w]
            if k == "While":
                self.reads(s.test, ws)
                entry = self.assume(ws, s.test, True)
                first = forget(entry) if False else entry
            else:
                first = self.store(ws, *self.stored(s.target))
                d = s.iter.func.id if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) else None
                t = s.target if d == "range" and (len(s.iter.args) == 1 or isinstance(s.iter.args[0], ast.Constant) and s.iter.args[0].value == 0) else \
                    s.target.elts[0] if d == "enumerate" and len(s.iter.args) == 1 and not s.iter.keywords and isinstance(s.target, ast.Tuple) and s.target.elts else None
                if isinstance(t, ast.Name): first = [(b, kn | {((t.id, "0"), True), (t.id, False)}) for b, kn in first]
            self.loops.append(([], []))
            end = self.block(s.body, self.norm(first)) if first else []
            brk, cont = self.loops.pop()
            forever = k == "While" and isinstance(s.test, ast.Constant) and s.test.value
            after = self.norm(end + cont)
            # further turns start with what every turn binds: what is unbound on the first turn only is judged there
            outs = list(brk)
            if k == "While":
                if not forever: outs += self.assume(forget(after), s.test, False) if after else []
                if not forever: outs += self.assume(ws, s.test, False) if not first or not self.always(s.test, ws) else []
            else: outs += forget(after) if after or brk else forget(first)
            got = set()                                        # some turn of the loop takes each of its branches
            for b in s.body: got |= self.assigned(b)
            outs = self.norm([(b | (got & self.locals), kn) for b, kn in outs])
            return self.block(s.orelse, outs) if s.orelse else outs
        if k in ("Break", "Continue"):
            if self.loops: self.loops[-1][0 if k == "Break" else 1].extend(ws)
            return []
        if k == "Try":
            body = self.block(s.body, ws)
            ns, at = set(), set()
            for b in s.body: ns |= self.assigned(b)
            outs = self.block(s.orelse, body) if s.orelse else body
            for h in s.handlers:
                # the handler is taken where the first statement of the body failed at the earliest
                hs = [(b, frozenset(q for q in kn if not self.mentions(q[0], ns, ()))) for b, kn in ws]
                if h.name: hs = self.store(hs, {h.name})
                if len(s.body) > 1 or not self.simple(s.body[0]): hs = [(b | (ns & self.locals), kn) for b, kn in hs]
                outs = outs + self.block(h.body, hs)
            if s.finalbody:
                return self.block(s.finalbody, self.norm(outs)) if outs else (self.block(s.finalbody, [(b | (ns & self.locals), kn) for b, kn in ws]) and [])
            return outs
        if k in ("With", "AsyncWith"):
            for i in s.items:
                self.reads(i.context_expr, ws)
                if i.optional_vars is not None: ws = self.store(ws, *self.stored(i.optional_vars))
            return self.block(s.body, ws)
        if k == "Expr":
            self.reads(s.value, ws)
            for x in ast.walk(s.value):
                if isinstance(x, ast.NamedExpr): ws = self.store(ws, {x.target.id})
            if isinstance(s.value, ast.Call) and self.noreturn(s.value): return []
            return ws
        if k == "Match":
            return [(b | (self.assigned(s) & self.locals), kn) for b, kn in ws]
        for c in ast.iter_child_nodes(s): self.reads(c, ws)
        return ws

    def always(self, test, ws):
        """the condition of the loop holds when it is reached"""
        return True                                            # loops run at least once

    def simple(self, b): return isinstance(b, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return))

    def assigned(self, n):
        if isinstance(n, SCOPES): return {n.name} if hasattr(n, "name") else set()
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
               {(a.asname or a.name).split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
