"""Where values come from and what is written through them: flow-sensitive, interprocedural.

Every expression is given a set of tags:
  ("CIRC", f) the caller's circuit        ("ELEM", f) an element (or a part of one)   ("MODEL", f) a device model
  ("NODES", f) the node table              ("MODELS", f) the table of models            ("OPTS", f) the options module
  ("ARG:name", f) data handed in by the caller
f is the first attribute followed from the object ('' for the object itself).
("C", tag) is a fresh container holding such values.  No tag: created by the analysed code."""
import ast
from .program import FuncInfo, ClassInfo, dotted, AnalysisBroken

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "fill",
       "popitem", "add", "discard", "resize", "put", "itemset", "setflags", "__setitem__", "__delitem__", "move_to_end", "appendleft", "popleft"}
SHALLOW = {"copy.copy", "list", "dict", "tuple", "set", "sorted", "reversed", "frozenset"}
DEEP = {"copy.deepcopy"}
SAME = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.squeeze", "iter", "next", "enumerate", "zip", "filter", "map", "vars"}
EMPTY = frozenset()

class Effect(object):
    def __init__(self, tag, attr, fi, line, node, kind, stack, val=frozenset(), protected=False):
        self.tag, self.attr, self.fi, self.line, self.node, self.kind, self.stack = tag, attr, fi, line, node, kind, stack
        self.val, self.protected = val, protected
    def key(self): return (self.tag, self.attr, self.fi.qualname, self.kind, self.restoring, self.protected)
    @property
    def restoring(self):
        """the value written is the one read from this very attribute before anything was written to it"""
        want = ("OPTSV", self.attr) if self.tag[0] == "OPTS" else (self.tag[0], self.attr)
        vals = {t[1] if t[0] == "C" else t for t in self.val}
        return bool(vals) and vals <= {want} and self.kind in ("assign", "setattr")
    def guarded(self):
        return Effect(self.tag, self.attr, self.fi, self.line, self.node, self.kind, self.stack, self.val, True)
    @property
    def where(self): return "%s:%d" % (self.fi.module.rel, self.line)

class Origins(object):
    def __init__(self, prog, elem_classes, model_classes, circ_class):
        self.prog = prog
        self.elem_classes, self.model_classes, self.circ_class = elem_classes, model_classes, circ_class
        self.memo = {}
        self.active = []
        self.effects = {}
        self.fields = {}          # (class, attr) -> tags stored in objects the program creates
        self.fields_changed = False
        self.functions = set()
        self.dirty, self.must = set(), None
        self.other = {}
        special = set(elem_classes) | set(model_classes) | {circ_class}
        for c in prog.classes.values():
            if c in special: continue
            for m, f in c.methods.items(): self.other.setdefault(m, []).append(f)

    # ---- tags
    def part(self, tags, attr=None):
        """tags of an attribute / item of something tagged"""
        out = set()
        for t in tags:
            if t[0] == "C":
                if attr is None: out.add(t[1]); out.add(t)
                continue
            k, f = t
            if k == "CIRC":
                if attr is None: out.add(("ELEM", ""))
                elif attr == "nodes_dict": out.add(("NODES", ""))
                elif attr == "models": out.add(("MODELS", ""))
                else: out.add(("CIRC", f or attr))
            elif k == "MODELS":
                if attr is None: out.add(("MODEL", ""))
            elif k == "NODES": pass
            elif k == "OPTS":
                if attr is not None and (k, attr) not in self.dirty: out.add(("OPTSV", attr))
            elif k == "OPTSV": out.add(t)
            elif k == "ELEM" and attr and "model" in attr.lower() : out.add(("MODEL", ""))
            elif attr is None: out.add(t)
            elif attr == "device": out.add(t)
            elif (k, attr) in self.dirty and not f: pass
            else: out.add((k, f or attr))
        return frozenset(out)

    def write(self, tags, attr, node, kind, val=EMPTY):
        fi = self.active[-1][0]
        for t in tags:
            if t[0] in ("C", "OPTSV"): continue
            e = Effect(t, attr, fi, node.lineno, node, kind, tuple(f.qualname for f, _ in self.active), val)
            self.cur.setdefault(e.key(), e)
            if not t[1] and not e.restoring: self.dirty.add((t[0], attr))
            if e.restoring and self.must is not None: self.must.add((t[0], attr))

    # ---- functions
    def call(self, fi, args):
        """args: {param: tags}; returns tags of the result, records effects"""
        key = (fi.qualname, tuple(sorted((k, v) for k, v in args.items() if v)))
        if any(k == key for _, k in self.active) or len(self.active) > 25: return EMPTY
        if key in self.memo and self.must is None:
            r, eff = self.memo[key]
            for k, e in eff.items():
                self.cur.setdefault(k, e)
                if not e.tag[1] and not e.restoring and not e.protected: self.dirty.add((e.tag[0], e.attr))
            return r
        saved = getattr(self, "cur", None)
        self.cur = {}
        self.active.append((fi, key))
        self.functions.add(fi)
        try:
            env = {p: args.get(p, EMPTY) for p in fi.params() + fi.kwonly()}
            for x in (fi.node.args.vararg, fi.node.args.kwarg):
                if x is not None: env[x.arg] = args.get(x.arg, EMPTY)
            fr = Frame(self, fi, env)
            fr.block(fi.node.body)
            r = frozenset(fr.ret)
        finally:
            self.active.pop()
        eff = self.cur
        if self.must is None: self.memo[key] = (r, eff)
        self.cur = saved if saved is not None else {}
        for k, e in eff.items(): self.cur.setdefault(k, e)
        return r

    def entry(self, fi, args):
        self.cur = {}
        self.dirty, self.must = set(), None
        self.call(fi, args)
        for k, e in self.cur.items(): self.effects.setdefault(k, (e, fi))
        return self.cur

    def bind(self, fi, self_tags, args, kw, star=EMPTY):
        ps = fi.params()
        out = {}
        if self_tags is not None and ps and fi.cls is not None and "staticmethod" not in fi.decorators:
            out[ps[0]] = self_tags; ps = ps[1:]
        for p, a in zip(ps, args): out[p] = a
        if fi.node.args.vararg is not None and len(args) > len(ps):
            out[fi.node.args.vararg.arg] = frozenset(("C", t) if t[0] != "C" else t for a in args[len(ps):] for t in a)
        names = set(fi.params()) | set(fi.kwonly())
        for k, v in kw.items():
            if k in names: out[k] = v
            elif fi.node.args.kwarg is not None: out[fi.node.args.kwarg.arg] = out.get(fi.node.args.kwarg.arg, EMPTY) | frozenset(("C", t) if t[0] != "C" else t for t in v)
        if star:
            inner = self.part(star)
            for p in ps:
                if p not in out: out[p] = inner
        return out

class Frame(object):
    def __init__(self, o, fi, env):
        self.o, self.fi, self.env, self.ret = o, fi, env, set()

    # ---- statements (flow-sensitive, loops to a fixpoint)
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Try): self.s_Try(s, body[i + 1:])
            else: self.stmt(s)
    def restores(self, body):
        """the (kind, attribute) pairs certainly restored by these statements, from values saved beforehand"""
        o = self.o
        saved = (o.cur, o.must, set(o.dirty), dict(self.env), set(self.ret))
        o.cur, o.must = {}, set()
        try:
            self.block(body)
            return set(o.must)
        finally:
            o.cur, o.must, o.dirty, self.env, self.ret = saved
    def protected(self, pairs, fn):
        """run fn; what it writes to these attributes is undone afterwards"""
        o = self.o
        outer = o.cur
        o.cur = {}
        try: fn()
        finally: inner, o.cur = o.cur, outer
        for k, e in inner.items():
            if (e.tag[0], e.attr) in pairs: e = e.guarded()
            o.cur.setdefault(e.key(), e)
        o.dirty -= pairs
    def join(self, a, b):
        out = dict(a)
        for k, v in b.items(): out[k] = out.get(k, EMPTY) | v
        return out
    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m: m(s)
    def s_Expr(self, s): self.ev(s.value)
    def s_Return(self, s):
        if s.value is not None: self.ret |= self.ev(s.value)
    def s_Assign(self, s):
        if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
           len(s.value.elts) == len(s.targets[0].elts) and not any(isinstance(x, ast.Starred) for x in s.value.elts):
            vs = [self.ev(x) for x in s.value.elts]
            for t, v in zip(s.targets[0].elts, vs): self.assign(t, v, s)
            return
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v, s)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value), s)
    def s_AugAssign(self, s):
        v = self.ev(s.value)
        if isinstance(s.target, ast.Name) and self.is_global(s.target.id):
            self.o.global_store(self.fi.module, s.target.id, v)
        elif isinstance(s.target, ast.Name):
            base = self.env.get(s.target.id, EMPTY)
            # in-place on a list/array the caller owns
            self.o.write([t for t in base if t[0] in ("CIRC", "NODES", "MODELS") and not t[1]] + [t for t in base if t[0].startswith("ARG")], "", s, "augmented")
            self.env[s.target.id] = base | frozenset(t for t in v if t[0] == "C")
        else: self.assign(s.target, v, s)
    def is_global(self, name):
        return any(isinstance(g, ast.Global) and name in g.names for g in ast.walk(self.fi.node))
    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            if self.is_global(t.id): self.o.global_store(self.fi.module, t.id, v)
            else: self.env[t.id] = v
            if any(isinstance(g, ast.Global) and t.id in g.names for g in ast.walk(self.fi.node)) and self.fi.module.name.endswith(".options"):
                self.o.write({("OPTS", "")}, t.id, s, "assign")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.assign(x, self.o.part(v) | v, s)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.o.write(b, t.attr, s, "assign", v)
            if isinstance(t.value, ast.Name) and t.value.id == "self" and self.fi.cls is not None and not b:
                self.o.field_store(self.fi.cls, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.o.write(b, attr_of(t.value), s, "assign")
            if isinstance(t.value, ast.Name): self.env[t.value.id] = self.env.get(t.value.id, EMPTY) | frozenset(x if x[0] == "C" else ("C", x) for x in v)
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Attribute): self.o.write(self.ev(t.value), t.attr, s, "delete")
            elif isinstance(t, ast.Subscript): self.o.write(self.ev(t.value), attr_of(t.value), s, "delete")
            elif isinstance(t, ast.Name): self.env[t.id] = EMPTY
    def s_If(self, s):
        self.ev(s.test)
        e0 = dict(self.env)
        m0 = self.o.must
        if m0 is not None: self.o.must = set()
        self.block(s.body)
        m1 = self.o.must
        if m0 is not None: self.o.must = set()
        e1 = None if ends(s.body) else self.env
        self.env = dict(e0)
        self.block(s.orelse)
        e2 = None if s.orelse and ends(s.orelse) else self.env
        if m0 is not None: self.o.must = m0 | (m1 & self.o.must)
        self.env = self.join(e1, e2) if e1 is not None and e2 is not None else (e1 if e1 is not None else e2 if e2 is not None else e0)
    def loop(self, s, head):
        outer = getattr(self, "jumps", None)
        for _ in range(6):
            before = dict(self.env)
            self.jumps = []
            head()
            self.block(s.body)
            self.env = self.join(before, self.env)
            for e in self.jumps: self.env = self.join(self.env, e)
            if self.env == before: break
        self.jumps = outer
        self.block(s.orelse)
    def s_Break(self, s):
        if getattr(self, "jumps", None) is not None: self.jumps.append(dict(self.env))
    s_Continue = s_Break
    def s_For(self, s):
        it = self.ev(s.iter)
        self.loop(s, lambda: self.assign(s.target, self.o.part(it), s))
    def s_While(self, s): self.loop(s, lambda: self.ev(s.test))
    def s_With(self, s):
        pairs = set()
        for i in s.items:
            pairs |= self.manager(i.context_expr)
            v = self.ev(i.context_expr)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, s)
        if pairs: self.protected(pairs, lambda: self.block(s.body))
        else: self.block(s.body)
    s_AsyncWith = s_With
    def manager(self, e):
        """what a context manager written as a generator restores around its yield"""
        if not isinstance(e, ast.Call): return set()
        d = dotted(e.func)
        fi = self.o.prog.resolve_dotted(self.fi.module, d) if d and d.split(".")[0] not in self.env else None
        if not isinstance(fi, FuncInfo) or not any(x and x.endswith("contextmanager") for x in fi.decorators): return set()
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        env = {p: EMPTY for p in fi.params() + fi.kwonly()}
        env.update(self.o.bind(fi, None, args, kw))
        fr = Frame(self.o, fi, env)
        self.o.active.append((fi, None))
        cur, dirty = self.o.cur, set(self.o.dirty)
        self.o.cur = {}
        out = set()
        try:
            for st in fi.node.body:
                if isinstance(st, ast.Try) and any(isinstance(x, ast.Yield) for b in st.body for x in ast.walk(b)):
                    out |= fr.restores(st.finalbody)
                fr.block([st])
        finally:
            self.o.active.pop()
            self.o.cur, self.o.dirty = cur, dirty
        return out
    def s_Try(self, s, rest=()):
        pairs = self.restores(s.finalbody) if s.finalbody else set()
        if not s.finalbody:
            for h in s.handlers:
                if (h.type is None or dotted(h.type) == "BaseException") and h.body and isinstance(h.body[-1], ast.Raise) and \
                   not any(isinstance(x, ast.Return) for b in s.body for x in ast.walk(b)):
                    pairs |= self.restores(h.body) & self.restores(list(s.orelse) + list(rest))
        if pairs: self.protected(pairs, lambda: self.try_(s))
        else: self.try_(s)
        self.block(s.finalbody)
    def try_(self, s):
        e0 = dict(self.env)
        self.block(s.body)
        mid = self.join(e0, self.env)
        self.block(s.orelse)
        out = None if ends(s.body) else self.env
        for h in s.handlers:
            self.env = dict(mid)
            if h.name: self.env[h.name] = EMPTY
            self.block(h.body)
            if not ends(h.body): out = self.join(out, self.env) if out is not None else self.env
        self.env = out if out is not None else mid
    def s_FunctionDef(self, s):
        env = dict(self.env)
        f = Frame(self.o, self.fi, env)
        for p in s.args.args: f.env[p.arg] = EMPTY
        f.block(s.body)
    def s_Raise(self, s):
        if s.exc is not None: self.ev(s.exc)
    def s_Assert(self, s): self.ev(s.test)

    # ---- expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m: return m(n)
        out = set()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr): out |= self.ev(c)
        return EMPTY if isinstance(n, (ast.BinOp, ast.Compare, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue)) else frozenset(out)
    def e_Constant(self, n): return EMPTY
    def e_Name(self, n):
        if n.id in self.env: return self.env[n.id]
        r = self.o.prog.lookup(self.fi.module, n.id)
        if isinstance(r, tuple) and r[0] == "var": return self.o.fields.get(("global", r[2].name + "." + n.id), EMPTY)
        if isinstance(r, tuple) and r[0] == "mod" and r[1].endswith((".options", ".constants")): return frozenset({("OPTS", r[1].split(".")[-1])})
        return EMPTY
    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        # list concatenation builds a fresh list of the same things
        return frozenset(t for t in a | b if t[0] == "C")
    def e_BoolOp(self, n): return frozenset().union(*[self.ev(v) for v in n.values])
    def e_IfExp(self, n):
        self.ev(n.test)
        return self.ev(n.body) | self.ev(n.orelse)
    def e_Attribute(self, n):
        b = self.ev(n.value)
        if not b:
            d = dotted(n)
            if d and d.split(".")[0] not in self.env:
                r = self.o.prog.resolve_dotted(self.fi.module, d)
                if isinstance(r, tuple) and r[0] == "mod" and r[1].endswith((".options", ".constants")): return frozenset({("OPTS", r[1].split(".")[-1])})
            if isinstance(n.value, ast.Name) and n.value.id == "self" and self.fi.cls is not None: return self.o.field_load(self.fi.cls, n.attr)
            return EMPTY
        # a property runs its getter; its value is a part of the object
        return self.o.part(b, n.attr)
    def e_Subscript(self, n):
        b = self.ev(n.value)
        self.ev(n.slice)
        if isinstance(n.slice, ast.Slice): return frozenset(("C", t) if t[0] != "C" else t for t in (self.o.part(b) if any(t[0] in ("CIRC",) for t in b) else b)) if any(t[0] != "ELEM" for t in b) else b
        return self.o.part(b)
    def display(self, elts):
        out = set()
        for x in elts:
            v = self.ev(x.value if isinstance(x, ast.Starred) else x)
            out |= {t if t[0] == "C" else ("C", t) for t in v}
        return frozenset(out)
    def e_List(self, n): return self.display(n.elts)
    e_Tuple = e_List
    e_Set = e_List
    def e_Dict(self, n): return self.display([v for v in n.values])
    def comp(self, n, elts):
        saved = dict(self.env)
        for g in n.generators:
            self.assign(g.target, self.o.part(self.ev(g.iter)), n)
            for c in g.ifs: self.ev(c)
        r = self.display(elts)
        self.env = saved
        return r
    def e_ListComp(self, n): return self.comp(n, [n.elt])
    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp
    def e_DictComp(self, n): return self.comp(n, [n.key, n.value])
    def e_Lambda(self, n):
        f = Frame(self.o, self.fi, dict(self.env))
        for p in n.args.args: f.env[p.arg] = EMPTY
        f.ev(n.body)
        return EMPTY
    def e_Yield(self, n):
        if n.value is not None: self.ret |= {t if t[0] == "C" else ("C", t) for t in self.ev(n.value)}
        return EMPTY
    def e_NamedExpr(self, n):
        v = self.ev(n.value); self.env[n.target.id] = v
        return v

    def e_Call(self, n):
        o = self.o
        args, star = [], EMPTY
        for a in n.args:
            if isinstance(a, ast.Starred): star |= self.ev(a.value)
            else: args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg: kw[k.arg] = self.ev(k.value)
            else: star |= self.ev(k.value)
        d = dotted(n.func)
        target = None
        if d and d.split(".")[0] not in self.env: target = o.prog.resolve_dotted(self.fi.module, d)
        self.callbacks(n, args, kw)
        if isinstance(target, FuncInfo) and (target.cls is None or "staticmethod" in target.decorators):
            return o.call(target, o.bind(target, None, args, kw, star))
        if isinstance(target, FuncInfo):      # Class.method(obj, ...)
            return o.call(target, o.bind(target, args[0] if args else EMPTY, args[1:], kw, star))
        if isinstance(target, ClassInfo):
            m = o.prog.find_method(target, "__init__")
            if m is not None: o.call(m, o.bind(m, EMPTY, args, kw, star))
            allv = frozenset().union(EMPTY, *args, *kw.values())
            if target in o.elem_classes or target in o.model_classes: return EMPTY
            return EMPTY
        full = target[1] if isinstance(target, tuple) and target[0] == "ext" else d
        if isinstance(n.func, ast.Name) and full in ("setattr", "delattr"):
            nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else "?"
            o.write(args[0] if args else EMPTY, nm, n, "setattr", args[2] if len(args) > 2 else EMPTY); return EMPTY
        if full == "getattr" and args:
            nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else "?"
            return o.part(args[0], nm)
        if "out" in kw: o.write(kw["out"], "", n, "out=")
        if full in DEEP: return EMPTY
        if full in SHALLOW:
            a = args[0] if args else EMPTY
            out = set()
            for t in a:
                if t[0] == "C": out.add(t)
                elif t[0] == "CIRC": out.add(("C", ("ELEM", "")))
                elif t[0] == "MODELS": out.add(("C", ("MODEL", "")))
                elif t[0] in ("ELEM", "MODEL"): out.add(("C", t))
                elif t[0].startswith("ARG"): out.add(("C", t))
            return frozenset(out)
        if full in SAME: return frozenset(t for a in args for t in a)
        if full in ("numpy.fill_diagonal", "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "random.shuffle", "numpy.random.shuffle"):
            o.write(args[0] if args else EMPTY, "", n, full)
            return EMPTY
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value)
            name = n.func.attr
            if isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == "super" and self.fi.cls is not None:
                for b in o.prog.mro(self.fi.cls)[1:]:
                    if name in b.methods: return o.call(b.methods[name], o.bind(b.methods[name], self.env.get(self.fi.params()[0], EMPTY), args, kw, star))
                return EMPTY
            out = set()
            done = False
            for t in recv:
                cands = self.candidates(t, name)
                for f in cands:
                    done = True
                    a = args
                    # a method whose decorator does not bind: the object is passed explicitly
                    st = frozenset({t})
                    if o.prog.unbinding(f): st, a = (args[0] if args else EMPTY), args[1:]
                    out |= o.call(f, o.bind(f, st, a, kw, star))
                if not cands and name in MUT:
                    o.write([t], attr_of(n.func.value), n, "." + name)
                if t[0] != "C" and not cands and name in ("values", "items", "get", "pop", "__iter__", "keys", "__getitem__"): out |= o.part([t])
                if t[0] == "C" and name in ("pop", "get", "values", "items", "popleft"): out |= {t, t[1]}
                if not cands and name == "copy" and t[0] != "C": out |= {("C", t)}
                if not cands and t[0].startswith("ARG") and name in ("asarray", "reshape", "view", "T", "ravel", "squeeze"): out.add(t)
            if not recv or all(t[0] == "C" for t in recv):
                if name in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id in self.env:
                    # a local container receives values
                    vs = frozenset().union(EMPTY, *args)
                    self.env[n.func.value.id] = self.env[n.func.value.id] | frozenset(x if x[0] == "C" else ("C", x) for x in vs)
                elif name in MUT and isinstance(n.func.value, ast.Name):
                    r = o.prog.lookup(self.fi.module, n.func.value.id)
                    if isinstance(r, tuple) and r[0] == "var":
                        vs = frozenset().union(EMPTY, *args)
                        o.global_store(r[2], n.func.value.id, frozenset(x if x[0] == "C" else ("C", x) for x in vs))
                if isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and self.fi.cls is not None:
                    f = o.prog.find_method(self.fi.cls, name)
                    if f is not None: return o.call(f, o.bind(f, EMPTY, args, kw, star))
                if name not in MUT and (any(args) or any(kw.values())):
                    for f in o.other.get(name, []):
                        out |= o.call(f, o.bind(f, EMPTY, args, kw, star))
            return frozenset(out)
        return EMPTY

    def candidates(self, t, name):
        o = self.o
        if t[0] == "C" or (t[1] and t[0] != "OPTS"): return []
        if t[0] == "CIRC":
            f = o.prog.find_method(o.circ_class, name)
            return [f] if f else []
        cs = {"ELEM": o.elem_classes, "MODEL": o.model_classes}.get(t[0], [])
        out = []
        # inside a method of a class, self is an instance of that class
        if self.fi.cls in cs and self.fi.params() and self.env.get(self.fi.params()[0]) == frozenset({t}):
            f = o.prog.find_method(self.fi.cls, name)
            if f is not None: return [f]
        for c in cs:
            f = o.prog.find_method(c, name)
            if f is not None and f not in out: out.append(f)
        return out

    def callbacks(self, n, args, kw):
        """bound methods and functions passed on may be called with the values passed alongside"""
        vals = frozenset().union(EMPTY, *args, *kw.values())
        inner = vals | self.o.part([t for t in vals if t[0] == "C"])
        for a in list(n.args) + [k.value for k in n.keywords]:
            if isinstance(a, ast.Attribute):
                recv = self.ev(a.value)
                for t in recv:
                    for f in self.candidates(t, a.attr):
                        if "property" in f.decorators: continue
                        ps = f.params()[1:]
                        self.o.call(f, dict({f.params()[0]: frozenset({t})}, **{p: inner for p in ps}))

def attr_of(n):
    """first attribute named in the target expression"""
    while isinstance(n, ast.Subscript): n = n.value
    return n.attr if isinstance(n, ast.Attribute) else ""

def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

def field_store(self, cls, attr, v):
    k = (cls.name, attr)
    old = self.fields.get(k, EMPTY)
    if not v <= old:
        self.fields[k] = old | v
        self.fields_changed = True
def field_load(self, cls, attr):
    out = EMPTY
    for c in self.prog.mro(cls): out = out | self.fields.get((c.name, attr), EMPTY)
    return out
def global_store(self, module, name, v):
    k = ("global", module.name + "." + name)
    old = self.fields.get(k, EMPTY)
    if not v <= old:
        self.fields[k] = old | v
        self.fields_changed = True
Origins.global_store = global_store
Origins.field_store, Origins.field_load = field_store, field_load
