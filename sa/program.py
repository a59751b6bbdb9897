"""Parses and resolves the analysed program: modules, imports, classes, functions, constants."""
import ast, os, hashlib

class AnalysisBroken(Exception):
    """an anchor vanished or a construct cannot be analysed: neither pass nor violation"""

class FuncInfo(object):
    def __init__(self, name, node, module, cls=None, outer=None):
        self.name, self.node, self.module, self.cls, self.outer = name, node, module, cls, outer
        self.qualname = "%s.%s%s" % (module.name, (cls.name + ".") if cls else "", name)
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, "decorator_list", [])]
    @property
    def where(self): return "%s:%d" % (self.module.rel, self.node.lineno)
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]
    def kwonly(self): return [x.arg for x in self.node.args.kwonlyargs]
    def defaults(self):
        a = self.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        for k, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None: d[k.arg] = v
        return d
    def __repr__(self): return "<func %s>" % self.qualname

class ClassInfo(object):
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods, self.setters, self.attrs, self.bases = {}, {}, {}, []
    @property
    def where(self): return "%s:%d" % (self.module.rel, self.node.lineno)
    def __repr__(self): return "<class %s.%s>" % (self.module.name, self.name)

class Module(object):
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.ns = {}
    def __repr__(self): return "<module %s>" % self.name

def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr); n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return ".".join(reversed(parts))
    return None

class Program(object):
    def __init__(self, root="/repo", pkg="ahkab"):
        self.root, self.pkg = root, pkg
        self.modules, self.classes, self.functions = {}, {}, {}
        self.digest = hashlib.sha256()
        base = os.path.join(root, pkg)
        if not os.path.isdir(base): raise AnalysisBroken("no package at %s" % base)
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".py"): continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = f == "__init__.py"
                if is_pkg: name = name[:-len(".__init__")]
                src = open(p, "rb").read()
                self.digest.update(rel.encode() + b"\0" + src)
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisBroken("%s does not parse: %s" % (rel, e))
                self.modules[name] = Module(name, p, rel, tree, is_pkg)
        for m in self.modules.values(): self._collect(m)
        for c in list(self.classes.values()): self._bases(c)

    def _collect(self, m):
        def scan(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(s.name, s, m)
                    m.ns[s.name] = f
                    self.functions[f.qualname] = f
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(s.name, s, m)
                    m.ns[s.name] = c
                    self.classes[m.name + "." + s.name] = c
                    for b in s.body:
                        if isinstance(b, ast.FunctionDef):
                            f = FuncInfo(b.name, b, m, c)
                            if any(d and d.endswith(".setter") for d in f.decorators):
                                c.setters[b.name] = f
                            else:
                                c.methods[b.name] = f
                            self.functions[f.qualname + ("@setter" if b.name in c.setters and c.setters[b.name] is f else "")] = f
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name): c.attrs[t.id] = b.value
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.ns[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    base = self.rel_base(m, s.level, s.module)
                    for a in s.names:
                        if a.name == "*":
                            m.ns.setdefault("*", []).append(base)
                        else:
                            m.ns[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                if isinstance(t, ast.Name):
                                    prev = m.ns.get(n.id)
                                    if isinstance(prev, tuple) and prev[0] == "var": m.ns[n.id] = ("var", prev[1] + [s.value])
                                    else: m.ns[n.id] = ("var", [s.value])
                                else:
                                    m.ns[n.id] = ("var", [None])
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.ns[s.target.id] = ("var", [s.value])
                elif isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                    scan(s.body)
                    scan(getattr(s, "orelse", []) or [])
                    for h in getattr(s, "handlers", []): scan(h.body)
                    scan(getattr(s, "finalbody", []) or [])
        scan(m.tree.body)

    def rel_base(self, m, level, module):
        if not level: return module
        parts = m.name.split(".")
        if not m.is_pkg: parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))

    def lookup(self, m, name, _seen=None):
        """resolve a module-level name: FuncInfo | ClassInfo | ('mod', fullname) | ('ext', dotted)
        | ('var', [exprs], module) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen: return None
        _seen.add((m.name, name))
        v = m.ns.get(name)
        if v is None:
            for base in m.ns.get("*", []):
                if base in self.modules:
                    r = self.lookup(self.modules[base], name, _seen)
                    if r is not None: return r
            sub = m.name + "." + name
            if sub in self.modules: return ("mod", sub)
            return None
        if isinstance(v, (FuncInfo, ClassInfo)): return v
        if v[0] == "mod": return v if v[1] in self.modules else ("ext", v[1])
        if v[0] == "var": return ("var", v[1], m)
        if v[0] == "from":
            base, nm = v[1], v[2]
            if base in self.modules:
                sub = base + "." + nm
                r = None
                if nm in self.modules[base].ns or "*" in self.modules[base].ns:
                    r = self.lookup(self.modules[base], nm, _seen)
                if r is not None: return r
                if sub in self.modules: return ("mod", sub)
                return self.lookup(self.modules[base], nm, _seen)
            return ("ext", base + "." + nm)
        return None

    def resolve_dotted(self, m, name):
        parts = name.split(".")
        cur = self.lookup(m, parts[0])
        for p in parts[1:]:
            if cur is None: return None
            if isinstance(cur, tuple) and cur[0] == "mod":
                cur = self.lookup(self.modules[cur[1]], p)
            elif isinstance(cur, tuple) and cur[0] == "ext":
                cur = ("ext", cur[1] + "." + p)
            elif isinstance(cur, ClassInfo):
                cur = self.find_method(cur, p)
            else: return None
        return cur

    def _bases(self, c):
        for b in c.node.bases:
            d = dotted(b)
            r = self.resolve_dotted(c.module, d) if d else None
            if isinstance(r, ClassInfo): c.bases.append(r)
            else: c.bases.append(("ext", d))

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, ClassInfo):
                for x in self.mro(b):
                    if x not in out: out.append(x)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods: return k.methods[name]
        return None
    def unbinding(self, m):
        """the method is replaced by a decorator of the program whose result is not a function
        (a bound method of another object): attribute access does not bind self"""
        for d in m.decorators:
            r = self.resolve_dotted(m.module, d) if d else None
            if isinstance(r, FuncInfo):
                own = {x.name for x in ast.walk(r.node) if isinstance(x, ast.FunctionDef) and x is not r.node and x in r.node.body}
                rets = [x.value for x in ast.walk(r.node) if isinstance(x, ast.Return) and x in r.node.body]
                if rets and not any(isinstance(v, ast.Name) and v.id in own for v in rets) and not any(isinstance(v, ast.Lambda) for v in rets): return True
            elif isinstance(r, ClassInfo) and self.find_method(r, "__get__") is None: return True
        return False
    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters: return k.setters[name]
        return None
    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs: return k.attrs[name], k
        return None

    def func(self, qual):
        """qual like 'dc_analysis.dc_solve' or 'circuit.Circuit.add_node'"""
        f = self.functions.get(self.pkg + "." + qual)
        if f is None:
            # follow re-exports / renames by import
            parts = qual.split(".")
            m = self.modules.get(self.pkg + "." + parts[0])
            if m is not None:
                r = self.resolve_dotted(m, ".".join(parts[1:]))
                if isinstance(r, FuncInfo): return r
            raise AnalysisBroken("anchor function %s not found" % qual)
        return f
    def has_func(self, qual):
        try: return self.func(qual)
        except AnalysisBroken: return None
    def cls(self, qual):
        c = self.classes.get(self.pkg + "." + qual)
        if c is None:
            parts = qual.split(".")
            for i in range(len(parts) - 1, 0, -1):
                m = self.modules.get(self.pkg + "." + ".".join(parts[:i]))
                if m is not None:
                    r = self.resolve_dotted(m, ".".join(parts[i:]))
                    if isinstance(r, ClassInfo): return r
            raise AnalysisBroken("anchor class %s not found" % qual)
        return c

    def externally_written_attrs(self):
        """attribute names stored through something other than `self` anywhere in the program"""
        if not hasattr(self, "_ext_written"):
            s = set()
            for m in self.modules.values():
                if m.name.endswith(".testing"): continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        if not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                            s.add(n.attr)
            self._ext_written = s
        return self._ext_written

_cache = {}
def load(root=None):
    root = root or os.environ.get("AHKAB_ROOT", "/repo")
    if root not in _cache: _cache[root] = Program(root)
    return _cache[root]
