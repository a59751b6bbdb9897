"""Typestate of files and of print settings: a path-sensitive dataflow over the syntax tree.

Each function is walked statement by statement; every call, subscript of unknown data or raise is also a
way out.  A state holds which files are open, what the variables hold (as far as files, constants and the
function's own inputs are concerned) and the comparisons made so far; states that agree about the files are
merged.  Helpers that get or return files are walked in line, generator-based context managers around the
body of their `with`."""
import ast
from .program import FuncInfo, ClassInfo, dotted
from .interp import walk_own
from .excflow import Flow, txt

CREATE = {"open", "io.open", "builtins.open", "codecs.open", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile", "gzip.open", "bz2.open", "lzma.open", "os.fdopen", "os.open", "os.popen",
          "urllib.request.urlopen", "urllib.urlopen", "zipfile.ZipFile", "tarfile.open", "file", "shelve.open"}
SAFE = {"print", "len", "str", "repr", "isinstance", "type", "list", "dict", "tuple", "set", "bool", "id", "hasattr", "callable", "object", "super", "sorted", "os.path.join", "os.path.split", "os.path.isabs", "atexit.register", "warnings.warn", "warn",
        "numpy.get_printoptions", "copy.copy", "time.time", "time.clock", "globals", "locals", "vars", "iter", "zip", "map", "range", "enumerate"}
SAFE_METH = {"append", "strip", "lower", "upper", "startswith", "endswith", "format", "keys", "items", "values", "rstrip", "lstrip", "copy", "update", "extend", "setdefault"}
U = ("u",)
MAXST = 200

class Undecided(Exception): pass

class St(object):
    __slots__ = ("env", "open", "facts", "heap", "po", "owner")
    def __init__(self, env=None, open_=frozenset(), facts=None, heap=None, po="orig"):
        self.env, self.open, self.facts, self.heap, self.po = env or {}, open_, facts or {}, heap or {}, po
    def copy(self):
        return St(dict(self.env), self.open, dict(self.facts), dict(self.heap), self.po)
    def key(self):
        hs = tuple(sorted((k, v) for k, v in self.env.items() if held(v)))
        near = self.open or any(v[0] == "std" for v in self.env.values())
        eqs = () if not near else frozenset(k for k, v in self.facts.items() if v and k[0] == "eq" and any(x[0] == "s" and not x[1].startswith(("v ", "phi ")) for x in k[1:]))
        return (self.open, hs, tuple(sorted((k, v) for k, v in self.heap.items())), self.po, eqs)

def held(v):
    return v[0] in ("t", "std", "closing", "po", "none", "bag", "io") or v[0] == "tup" and any(held(x) for x in v[1])

def tokens(v, st, seen=()):
    if v[0] in ("t", "closing"): return {v[1]}
    if v[0] == "tup": return set().union(*[tokens(x, st, seen) for x in v[1]]) if v[1] else set()
    if v[0] == "bag" and v[1] not in seen: return set().union(*[tokens(x, st, seen + (v[1],)) for x in st.heap.get(v[1], ())]) if st.heap.get(v[1]) else set()
    return set()

def join(states):
    """states that agree about files and settings become one"""
    out = {}
    for s in states:
        k = s.key()
        o = out.get(k)
        if o is None: out[k] = s; continue
        env, new = {}, set()
        for n in set(o.env) | set(s.env):
            a, b = o.env.get(n), s.env.get(n)
            if a == b: env[n] = a
            elif n.startswith("\0"): env[n] = U
            else: env[n] = ("s", "phi " + n); new.add(env[n])
        m = St(env, o.open, {q: v for q, v in o.facts.items() if s.facts.get(q, None) == v}, o.heap, o.po)
        for x in new: forget(m, x, [n for n in env if env[n] == x and o.env.get(n) == s.env.get(n)])
        out[k] = m
    return list(out.values())

def mentions(k, x): return k == x or isinstance(k, tuple) and any(mentions(y, x) for y in k)

def forget(st, x, names=None):
    """a variable holds something new: what was known about its name's symbol is gone"""
    for q in [q for q in st.facts if mentions(q, x)]: del st.facts[q]
    for n, v in list(st.env.items()):
        if (names is None or n in names) and v[0] != "env" and mentions(v, x): st.env[n] = U

class Out(object):
    def __init__(self): self.normal, self.ret, self.exc, self.brk, self.cont = [], [], [], [], []
    def add(self, o, normal=True):
        if normal: self.normal += o.normal
        self.ret += o.ret; self.exc += o.exc; self.brk += o.brk; self.cont += o.cont
    def squeeze(self):
        self.normal, self.brk, self.cont = join(self.normal), join(self.brk), join(self.cont)
        ex = {}
        for s, n in self.exc: ex.setdefault(n, []).append(s)
        self.exc = [(s, n) for n, l in ex.items() for s in join(l)]
        rt = {}
        for s, v in self.ret: rt.setdefault(v, []).append(s)
        self.ret = [(s, v) for v, l in rt.items() for s in join(l)]
        return self

class Engine(object):
    def __init__(self, prog, report):
        self.prog, self.flow, self.report = prog, Flow(prog), report
        self.memo_ret = {}
        self.sites = set()
        self.closes = set()
        self.seen = set()

    def ext(self, fi, n):
        """external dotted name a function expression stands for"""
        d = dotted(n)
        if not d: return None
        head = d.split(".")[0]
        for sc in self.scopes(fi):
            for x in walk_own(sc.node):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    r = self.alias(x, head)
                    if r: return r + d[len(head):]
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == head and x.id not in () and not isinstance(n, ast.Attribute): return None
        if head in fi.params(): return None
        for x in fi.module.tree.body:
            for y in ast.walk(x) if isinstance(x, (ast.Try, ast.If)) else (x,):
                if isinstance(y, (ast.Import, ast.ImportFrom)):
                    r = self.alias(y, head)
                    if r: return r + d[len(head):]
        v = self.prog.resolve_dotted(fi.module, d)
        if v is not None and not (isinstance(v, tuple) and v[0] == "ext"): return None
        if isinstance(v, tuple) and v[0] == "ext" and isinstance(v[1], str): return v[1]
        return d

    def scopes(self, fi):
        return [fi] if isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else []

    def alias(self, x, head):
        if isinstance(x, ast.Import):
            for a in x.names:
                if (a.asname or a.name.split(".")[0]) == head: return a.name if a.asname else head
        elif x.level == 0:
            for a in x.names:
                if (a.asname or a.name) == head: return "%s.%s" % (x.module, a.name)
        return None

    def callee(self, fi, f):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and fi.cls is not None:
            m = self.prog.find_method(fi.cls, f.attr)
            if m is not None: return m
        d = dotted(f)
        if not d or d.split(".")[0] in fi.params(): return None
        v = self.prog.resolve_dotted(fi.module, d)
        return v if isinstance(v, (FuncInfo, ClassInfo)) else None

    def is_cm(self, fi): return any((dotted(d) or "").split(".")[-1] == "contextmanager" for d in fi.node.decorator_list)

    def creates(self, fi):
        return [n for n in walk_own(fi.node) if isinstance(n, ast.Call) and self.ext(fi, n.func) in CREATE]

    def returns_handle(self, fi, busy=()):
        q = fi.qualname
        if q in self.memo_ret: return self.memo_ret[q]
        if q in busy: return False
        r = False
        if not self.is_cm(fi):
            names, changed = set(), True
            def src(e):
                if isinstance(e, ast.Name): return e.id in names
                if isinstance(e, (ast.Tuple, ast.List)): return any(src(x) for x in e.elts)
                if isinstance(e, ast.IfExp): return src(e.body) or src(e.orelse)
                if isinstance(e, ast.BoolOp): return any(src(x) for x in e.values)
                if isinstance(e, ast.Call):
                    if self.ext(fi, e.func) in CREATE: return True
                    c = self.callee(fi, e.func)
                    if isinstance(c, FuncInfo): return self.returns_handle(c, busy + (q,))
                    if c is None and isinstance(e.func, ast.Name): return any(src(a) for a in e.args)
                return False
            while changed:
                changed = False
                for n in walk_own(fi.node):
                    if isinstance(n, ast.Assign) and src(n.value):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and x.id not in names: names.add(x.id); changed = True
            r = any(isinstance(n, ast.Return) and n.value is not None and src(n.value) for n in walk_own(fi.node))
        if not busy: self.memo_ret[q] = r
        return r

    def roots(self):
        out = []
        for fi in self.prog.functions.values():
            hit = False
            for n in walk_own(fi.node):
                if isinstance(n, ast.Call):
                    e = self.ext(fi, n.func)
                    if e in CREATE or e in ("numpy.set_printoptions", "numpy.core.arrayprint.set_printoptions"): hit = True
                    c = self.callee(fi, n.func)
                    if isinstance(c, FuncInfo) and (self.returns_handle(c) or self.is_cm(c)): hit = True
            if hit: out.append(fi)
        return sorted(out, key=lambda f: f.qualname)

    def analyse(self, fi):
        """walks one function on its own"""
        st = St({p: ("s", p) for p in fi.params() + fi.kwonly()})
        a = fi.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None: st.env[x.arg] = ("s", x.arg)
        w = Walker(self, fi)
        if self.is_cm(fi):
            def body(s, v):
                o = Out()
                o.normal.append(s.copy()); o.exc.append((s.copy(), None))
                return o
            w.yielders.append(body)
        out = w.block(fi.node.body, [st])
        n = 0
        for s in out.normal: self.leaks(fi, s, None, "at the end"); n += 1
        for s, v in out.ret: self.leaks(fi, s, v, "on return"); n += 1
        for s, e in out.exc: self.leaks(fi, s, None, "when an error occurs" if e != "SystemExit" else "on exit", e); n += 1
        return n

    def leaks(self, fi, s, v, how, exc=None):
        keep = tokens(v, s) if v is not None else set()
        for t in sorted(s.open - keep, key=repr): self.report("files", t, fi, how)
        if s.po != "orig": self.report("settings", s.po, fi, how)

class Walker(object):
    def __init__(self, eng, fi, depth=0, yielders=None):
        self.eng, self.fi, self.depth = eng, fi, depth
        self.yielders = yielders if yielders is not None else []
        self.handling = []

    # ------------------------------------------------------------ statements
    def block(self, body, states):
        out = Out()
        cur = list(states)
        for s in body:
            if not cur: break
            o = Out()
            for st in cur: o.add(self.stmt(s, st))
            o.squeeze()
            if len(o.normal) > MAXST: raise Undecided("too many states")
            out.add(o, False)
            cur = o.normal
        out.normal = cur
        return out.squeeze()

    def stmt(self, s, st):
        out = Out()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            if isinstance(s, ast.Import) or isinstance(s, ast.ImportFrom):
                out.exc.append((st.copy(), "ImportError"))
            out.normal.append(st)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)): self.do_yield(s.value, st, out)
            else: out.normal += [a for a, v in self.ev(s.value, st, out)]
        elif isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Yield):
                self.do_yield(s.value, st, out)
                return out
            for a, v in self.ev(s.value, st, out):
                for t in s.targets: a = self.assign(t, v, a, out)
                out.normal.append(a)
        elif isinstance(s, ast.AnnAssign):
            if s.value is None: out.normal.append(st)
            else:
                for a, v in self.ev(s.value, st, out): out.normal.append(self.assign(s.target, v, a, out))
        elif isinstance(s, ast.AugAssign):
            for a, v in self.ev(s.value, st, out):
                if isinstance(s.target, ast.Name):
                    old = a.env.get(s.target.id, U)
                    if old[0] == "bag":
                        new = set(a.heap.get(old[1], ()))
                        if v[0] == "bag": new |= a.heap.get(v[1], frozenset())
                        elif v[0] == "tup": new |= set(v[1])
                        a.heap[old[1]] = frozenset(new)
                    else: a = self.assign(s.target, U, a, out)
                else: a = self.assign(s.target, U, a, out)
                out.normal.append(a)
        elif isinstance(s, ast.Return):
            if s.value is None: out.ret.append((st, ("none",)))
            else: out.ret += self.ev(s.value, st, out)
        elif isinstance(s, ast.Raise):
            for a, v in (self.ev(s.exc, st, out) if isinstance(s.exc, ast.Call) and s.exc.args else [(st, U)]):
                name = None
                if s.exc is not None:
                    d = dotted(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
                    v = self.eng.prog.resolve_dotted(self.fi.module, d) if d else None
                    if d and d.split(".")[0] not in a.env and not isinstance(v, FuncInfo): name = d.split(".")[-1]
                elif self.handling: name = self.handling[-1]
                out.exc.append((a, name))
        elif isinstance(s, ast.Assert):
            for a, b in self.test(s.test, st, out):
                if b: out.normal.append(a)
                else: out.exc.append((a, "AssertionError"))
        elif isinstance(s, ast.If):
            for a, b in self.test(s.test, st, out): out.add(self.block(s.body if b else s.orelse, [a]))
        elif isinstance(s, ast.While): self.loop(s, st, out)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            for a, v in self.ev(s.iter, st, out): self.loop(s, a, out, v)
        elif isinstance(s, (ast.With, ast.AsyncWith)): out.add(self.with_(s.items, s.body, st))
        elif isinstance(s, ast.Try): self.try_(s, st, out)
        elif isinstance(s, ast.Break): out.brk.append(st)
        elif isinstance(s, ast.Continue): out.cont.append(st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name): st.env.pop(t.id, None)
                else: out.exc.append((st.copy(), None))
            out.normal.append(st)
        else: raise Undecided(type(s).__name__)
        return out

    def loop(self, s, st, out, it=None):
        todo, done, after = [st], {}, []
        n = 0
        while todo:
            cur = todo.pop()
            k = cur.key()
            if k in done:
                m = join([done[k], cur])
                if len(m) == 1 and m[0].env == done[k].env and m[0].facts == done[k].facts: continue
                cur = m[0]
            done[k] = cur.copy()
            n += 1
            if n > 4 * MAXST: raise Undecided("loop does not settle")
            o = Out()
            if isinstance(s, ast.While):
                for a, b in self.test(s.test, cur.copy(), out):
                    if b: o.add(self.block(s.body, [a]))
                    else: after.append(a)
            else:
                after.append(cur.copy())
                a = cur.copy()
                out.exc.append((a.copy(), None)) if not (isinstance(s.iter, ast.Call) and dotted(s.iter.func) in ("range", "enumerate", "zip", "range_type", "xrange", "sorted")) and not (it is not None and it[0] in ("tup", "bag", "s", "c")) else None
                v = U
                if it is not None and it[0] in ("tup", "bag"):
                    els = list(it[1]) if it[0] == "tup" else sorted(a.heap.get(it[1], ()))
                    for e in els or [U]:
                        b = self.assign(s.target, e, a.copy(), out)
                        o.add(self.block(s.body, [b]))
                else:
                    a = self.assign(s.target, v, a, out)
                    o.add(self.block(s.body, [a]))
            o.squeeze()
            out.ret += o.ret; out.exc += o.exc
            out.normal += o.brk
            todo += o.normal + o.cont
        if s.orelse: out.add(self.block(s.orelse, join(after)))
        else: out.normal += after
        out.squeeze()

    def try_(self, s, st, out):
        inner = self.block(s.body, [st])
        res = Out()
        res.ret, res.brk, res.cont = inner.ret, inner.brk, inner.cont
        if s.orelse: res.add(self.block(s.orelse, inner.normal))
        else: res.normal += inner.normal
        for a, name in inner.exc:
            rest = True
            for h in s.handlers:
                types = self.eng.flow.types(h.type, self.fi)
                if name is None:
                    may, must = True, types is None or any(t in ("Exception", "BaseException") for t in types)
                else:
                    may = must = types is None or any(t in self.eng.flow.mro(name) for t in types)
                if may:
                    b = a.copy()
                    if h.name: b.env[h.name] = U
                    self.handling.append(name)
                    try: res.add(self.block(h.body, [b]))
                    finally: self.handling.pop()
                if must: rest = False; break
            if rest: res.exc.append((a, name))
        res.squeeze()
        if s.finalbody:
            fin = Out()
            for a in res.normal: fin.add(self.block(s.finalbody, [a]))
            for lst, put in ((res.brk, "brk"), (res.cont, "cont")):
                for a in lst:
                    o = self.block(s.finalbody, [a]); getattr(fin, put).extend(o.normal); fin.add(o, False)
            for a, v in res.ret:
                o = self.block(s.finalbody, [a]); fin.ret += [(b, v) for b in o.normal]; fin.add(o, False)
            for a, nm in res.exc:
                o = self.block(s.finalbody, [a]); fin.exc += [(b, nm) for b in o.normal]; fin.add(o, False)
            res = fin.squeeze()
        out.add(res)

    def with_(self, items, body, st):
        if not items: return self.block(body, [st])
        i, rest = items[0], items[1:]
        out = Out()
        if isinstance(i.context_expr, ast.Call):
            c = self.eng.callee(self.fi, i.context_expr.func)
            if isinstance(c, FuncInfo) and self.eng.is_cm(c):
                for a, args, kw in self.args(i.context_expr, st, out):
                    outer = a.env
                    sub = Walker(self.eng, c, self.depth + 1)
                    env = self.bind(c, args, kw)
                    results = Out()
                    def run_body(s, v, outer=outer, env=env):
                        b = s.copy(); inner_env = b.env; b.env = dict(outer)
                        if i.optional_vars is not None: b = self.assign(i.optional_vars, v, b, results)
                        o = self.with_(rest, body, b)
                        back = Out()
                        for x in o.normal: y = x.copy(); self.keep = x.env; y.env = dict(inner_env); y.env["\0outer"] = ("env", freeze(x.env)); back.normal.append(y)
                        for x, n in o.exc: y = x.copy(); y.env = dict(inner_env); y.env["\0outer"] = ("env", freeze(x.env)); back.exc.append((y, n))
                        for kind in ("ret", "brk", "cont"):
                            for x in getattr(o, kind):
                                y = (x[0] if kind == "ret" else x).copy()
                                e = freeze(y.env); y.env = dict(inner_env); y.env["\0outer"] = ("env", e); y.env["\0leave"] = ("leave", kind, x[1] if kind == "ret" else None); back.normal.append(y)
                        return back
                    sub.yielders.append(run_body)
                    a.env = env
                    o = sub.block(c.node.body, [a])
                    def restore(s):
                        e = s.env.get("\0outer"); lv = s.env.get("\0leave")
                        s.env = dict(e[1]) if e else dict(outer)
                        return lv
                    for s in o.normal + [x for x, v in o.ret]:
                        lv = restore(s)
                        if lv is None: out.normal.append(s)
                        elif lv[1] == "ret": out.ret.append((s, lv[2]))
                        else: getattr(out, lv[1]).append(s)
                    for s, n in o.exc: restore(s); out.exc.append((s, n))
                    out.exc += results.exc
                return out
        for a, v in self.ev(i.context_expr, st, out):
            if i.optional_vars is not None: a = self.assign(i.optional_vars, v if v[0] != "closing" else ("t", v[1]), a, out)
            o = self.with_(rest, body, a)
            if v[0] in ("t", "closing"):
                t = v[1]
                def shut(x):
                    x.open = x.open - {t}
                    self.eng.closes.add((self.fi.qualname, txt(i.context_expr)))
                for x in o.normal + o.brk + o.cont + [p for p, q in o.ret] + [p for p, q in o.exc]: shut(x)
            out.add(o)
        return out.squeeze()

    def do_yield(self, n, st, out):
        vals = self.ev(n.value, st, out) if n.value is not None else [(st, ("none",))]
        for a, v in vals:
            if self.yielders: out.add(self.yielders[-1](a, v))
            else:
                # an ordinary generator: it may be left for good here
                out.exc.append((a.copy(), None)); out.normal.append(a)

    def assign(self, t, v, st, out):
        if isinstance(t, ast.Name):
            if v == U:
                v = ("s", "v %s.%s" % (self.fi.name, t.id))
                forget(st, v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == "tup" and len(v[1]) == len(t.elts) else None
            for k, x in enumerate(t.elts): st = self.assign(x.value if isinstance(x, ast.Starred) else x, vs[k] if vs else U, st, out)
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value, st, out)
            bags = [x for x in r if x[1][0] == "bag"]
            a, b = (bags or r)[0]
            st = a
            if b[0] == "bag": st.heap[b[1]] = st.heap.get(b[1], frozenset()) | {v} if held(v) else st.heap.get(b[1], frozenset())
            elif b[0] == "s" and not b[1].startswith("self"): st.open = st.open - tokens(v, st)     # handed over through an argument
            elif tokens(v, st) and isinstance(t.value, ast.Subscript) and self.ev(t.value.value, st.copy(), Out())[0][1][0] == "bag":
                bid = self.ev(t.value.value, st.copy(), Out())[0][1][1]
                st.heap[bid] = st.heap.get(bid, frozenset()) | {("tup", (v,))}
            elif b[0] == "tup": pass
            elif tokens(v, st): self.escape(v, st)
        elif isinstance(t, ast.Attribute):
            if tokens(v, st): self.escape(v, st)
        return st

    def escape(self, v, st):
        raise Undecided("a file is stored in an object")

    # ------------------------------------------------------------ tests
    def test(self, n, st, out):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): return [(a, not b) for a, b in self.test(n.operand, st, out)]
        if isinstance(n, ast.BoolOp):
            res, cur = [], [st]
            stop = isinstance(n.op, ast.Or)
            for x in n.values:
                nxt = []
                for a in cur:
                    for b, t in self.test(x, a, out):
                        if t == stop: res.append((b, stop))
                        else: nxt.append(b)
                cur = nxt
            return res + [(a, not stop) for a in cur]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            res = []
            for a, l in self.ev(n.left, st, out):
                for b, r in self.ev(n.comparators[0], a, out): res += self.decide(b, self.compare(n.ops[0], l, r))
            return res
        return [x for a, v in self.ev(n, st, out) for x in self.decide(a, self.truth(v))]

    def truth(self, v):
        if v[0] == "c": return bool(v[1])
        if v[0] == "none": return False
        if v[0] in ("t", "std", "io", "closing"): return True
        if v[0] == "cond": return v
        if v[0] in ("s", "g"): return ("cond", ("bool", v), True)
        return None

    def compare(self, op, l, r):
        """True/False, ("cond", key, polarity) or None"""
        pos = isinstance(op, (ast.Is, ast.Eq))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if l[0] == "c" and r[0] == "c": return (l[1] == r[1]) == pos
            for a, b in ((l, r), (r, l)):
                if b == ("none",):
                    if a == ("none",): return pos
                    if a[0] in ("t", "std", "io", "closing", "c", "tup", "bag"): return not pos
                if a[0] in ("t", "io") and b[0] in ("c", "std", "g"): return not pos
            if l == r and l[0] in ("s", "g", "std", "t"): return pos
            if all(x[0] in ("s", "g", "c", "none", "std") for x in (l, r)): return ("cond", ("eq",) + tuple(sorted((l, r), key=repr)), pos)
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            if r[0] == "tup" and l[0] in ("s", "g", "c"): return ("cond", ("in", l, r), isinstance(op, ast.In)) if not (l[0] == "c" and all(x[0] == "c" for x in r[1])) else (l in r[1]) == isinstance(op, ast.In)
            return None
        if l[0] in ("s", "g", "c") and r[0] in ("s", "g", "c"): return ("cond", (type(op).__name__, l, r), True)
        return None

    def decide(self, st, c):
        if c is True or c is False: return [(st, c)]
        if c is None: return [(st.copy(), True), (st, False)]
        key, pol = c[1], c[2]
        if key in st.facts: return [(st, st.facts[key] == pol)]
        if key[0] == "in":
            # equal to one of them, or different from each
            res = []
            for x in key[2][1]:
                k = self.compare(ast.Eq(), key[1], x)
                if k is True: return [(st, pol)]
                if isinstance(k, tuple) and st.facts.get(k[1]): return [(st, pol)]
            no = st.copy(); no.facts[key] = False
            for x in key[2][1]:
                k = self.compare(ast.Eq(), key[1], x)
                if isinstance(k, tuple):
                    no.facts[k[1]] = False
                    if k[1] in st.facts: continue
                    y = st.copy(); y.facts[key] = True; self.learn(y, k[1], True); res.append((y, pol))
            return res + [(no, not pol)]
        a, b = st.copy(), st
        self.learn(a, key, True)
        b.facts[key] = False
        return [(a, pol), (b, not pol)]

    def learn(self, st, key, v):
        st.facts[key] = v
        if key[0] == "eq":
            # equal to one constant: different from those it was compared with elsewhere
            l, r = key[1], key[2]
            c, x = (l, r) if l[0] == "c" else (r, l) if r[0] == "c" else (None, None)
            if c is not None and x[0] == "s":
                for n, q in list(st.env.items()):
                    if q == x: st.env[n] = c

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, out):
        if isinstance(n, ast.Constant): return [(st, ("none",) if n.value is None else ("c", n.value))]
        if isinstance(n, ast.Name):
            if n.id in st.env: return [(st, st.env[n.id])]
            if n.id in ("True", "False", "None"): return [(st, ("c", n.id == "True"))]
            e = self.eng.ext(self.fi, n)
            if e: return [(st, std(e) or glob(e))]
            return [(st, glob(self.fi.module.name + "." + n.id))]
        if isinstance(n, ast.Attribute):
            res = []
            for a, b in self.ev(n.value, st, out):
                if b[0] == "g":
                    e = b[1] + "." + n.attr
                    res.append((a, std(e) or glob(e)))
                elif b[0] == "std": res.append((a, b if n.attr == "buffer" else U))
                elif b[0] == "s": res.append((a, ("s", b[1] + "." + n.attr)))
                else: res.append((a, U))
            return res
        if isinstance(n, ast.Call): return self.call(n, st, out)
        if isinstance(n, ast.Tuple) or isinstance(n, ast.List):
            res = [(st, ())]
            for x in n.elts:
                res = [(b, vs + (v,)) for a, vs in res for b, v in self.ev(x.value if isinstance(x, ast.Starred) else x, a, out)]
            if isinstance(n, ast.Tuple): return [(a, ("tup", vs)) for a, vs in res]
            bid = "%s:%d:%d" % (self.fi.qualname, n.lineno, n.col_offset)
            ro = []
            for a, vs in res:
                if any(held(v) for v in vs): a.heap[bid] = frozenset(vs); ro.append((a, ("bag", bid)))
                else: a.heap[bid] = frozenset(); ro.append((a, ("bag", bid)))
            return ro
        if isinstance(n, ast.IfExp):
            return [x for a, b in self.test(n.test, st, out) for x in self.ev(n.body if b else n.orelse, a, out)]
        if isinstance(n, ast.BoolOp):
            if any(isinstance(x, ast.Call) for v in n.values for x in ast.walk(v)) or all(isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp)) for v in n.values):
                return [(a, ("c", b)) for a, b in self.test(n, st, out)]
            res, cur = [], [st]
            stop = isinstance(n.op, ast.Or)
            for k, x in enumerate(n.values):
                nxt = []
                for a in cur:
                    for b, v in self.ev(x, a, out):
                        if k == len(n.values) - 1: res.append((b, v)); continue
                        for d, t in self.decide(b, self.truth(v)):
                            if t == stop: res.append((d, v))
                            else: nxt.append(d)
                cur = nxt
            return res
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not): return [(a, ("c", b)) for a, b in self.test(n, st, out)] if not pure(n.operand) else [(a, self.neg(v)) for a, v in self.ev(n.operand, st, out)]
            return [(a, U) for a, v in self.ev(n.operand, st, out)]
        if isinstance(n, ast.Compare):
            if len(n.ops) == 1:
                res = []
                for a, l in self.ev(n.left, st, out):
                    for b, r in self.ev(n.comparators[0], a, out):
                        c = self.compare(n.ops[0], l, r)
                        res.append((b, ("c", c) if isinstance(c, bool) else c if c is not None else U))
                return res
            return [(self.all([n.left] + n.comparators, st, out), U)]
        if isinstance(n, ast.Subscript):
            res = []
            for a, b in self.ev(n.value, st, out):
                for a2, i in (self.ev(n.slice, a, out) if not isinstance(n.slice, ast.Slice) else [(a, U)]):
                    if b[0] == "tup" and i[0] == "c" and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]): res.append((a2, b[1][i[1]]))
                    elif b[0] == "bag": res += self.pick(a2, b[1])
                    elif b[0] in ("s", "g") and i[0] in ("c", "s"):
                        if ("sub", b, i) not in a2.facts: out.exc.append((a2.copy(), None))
                        a2.facts[("sub", b, i)] = True; res.append((a2, ("s", "%s[%r]" % (b[1], i[1])) if b[0] == "s" else U))
                    else:
                        pair = isinstance(n.value, ast.Call) and self.eng.ext(self.fi, n.value.func) in ("os.path.split", "os.path.splitext") and i in (("c", 0), ("c", 1))
                        if not pair: out.exc.append((a2.copy(), None))
                        res.append((a2, U))
            return res
        if isinstance(n, ast.Lambda): return [(st, U)]
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(n)): out.exc.append((st.copy(), None))
            return [(st, U)]
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            o = Out()
            self.do_yield(n, st, o)
            out.exc += o.exc
            return [(a, U) for a in o.normal]
        if isinstance(n, ast.NamedExpr):
            return [(self.assign(n.target, v, a, out), v) for a, v in self.ev(n.value, st, out)]
        kids = [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
        if isinstance(n, ast.FormattedValue) or isinstance(n, ast.JoinedStr): kids = [x.value if isinstance(x, ast.FormattedValue) else x for x in kids]
        if isinstance(n, ast.BinOp):
            res = []
            for a, l in self.ev(n.left, st, out):
                for b, r in self.ev(n.right, a, out):
                    if isinstance(n.op, ast.Add) and l[0] == "bag" and r[0] in ("bag", "tup"):
                        bid = "%s:%d:%d" % (self.fi.qualname, n.lineno, n.col_offset)
                        b.heap[bid] = b.heap.get(l[1], frozenset()) | (b.heap.get(r[1], frozenset()) if r[0] == "bag" else frozenset(r[1]))
                        res.append((b, ("bag", bid)))
                    else: res.append((b, U))
            return res
        return [(self.all(kids, st, out), U)]

    def neg(self, v):
        if v[0] == "c": return ("c", not v[1])
        if v[0] == "none": return ("c", True)
        if v[0] == "cond": return ("cond", v[1], not v[2])
        t = self.truth(v)
        if isinstance(t, bool): return ("c", not t)
        return ("cond", t[1], not t[2]) if t is not None else U

    def all(self, kids, st, out):
        for x in kids:
            r = self.ev(x, st, out)
            if not r: raise Undecided("an expression with no value")
            st = r[0][0]
        return st

    def pick(self, st, bid):
        """an element of a list of files: the one that is open, if any is"""
        els = st.heap.get(bid, frozenset())
        op = [e for e in els if tokens(e, st) & st.open]
        if op: return [(st.copy(), e) for e in sorted(op)]
        els = [e for e in els if held(e)]
        if els: return [(st.copy(), e) for e in sorted(els)]
        return [(st, U)]

    def args(self, n, st, out):
        res = [(st, [], {})]
        for x in n.args:
            y = x.value if isinstance(x, ast.Starred) else x
            res = [(b, p + [v], k) for a, p, k in res for b, v in self.ev(y, a, out)]
        for x in n.keywords:
            res = [(b, p, dict(k, **{x.arg or "**": v})) for a, p, k in res for b, v in self.ev(x.value, a, out)]
        return res

    def bind(self, fi, args, kw, self_=None):
        ps = fi.params()
        env = {}
        if self_ is not None and ps and ps[0] in ("self", "cls"):
            env[ps[0]] = self_; ps = ps[1:]
        for p, v in zip(ps, args): env[p] = v
        d = fi.defaults()
        for p in ps + fi.kwonly():
            if p in kw: env[p] = kw[p]
            elif p not in env:
                dv = d.get(p) if isinstance(d, dict) else None
                env[p] = (("none",) if dv.value is None else ("c", dv.value)) if isinstance(dv, ast.Constant) else U
        a = fi.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None: env[x.arg] = U
        return env

    def call(self, n, st, out):
        e = self.eng.ext(self.fi, n.func)
        f = n.func
        # methods of files
        if isinstance(f, ast.Attribute) and e is None or isinstance(f, ast.Attribute) and isinstance(f.value, (ast.Name, ast.Call, ast.Subscript, ast.Attribute)):
            res, rest = [], []
            if not (isinstance(f.value, ast.Name) and f.value.id not in st.env):
                for a, b in self.ev(f.value, st, out):
                    if b[0] in ("t", "std", "bag", "closing"):
                        for c, args, kw in self.args(n, a, out): res.append(self.method(n, f.attr, b, args, c, out))
                    else: rest.append((a, b))
                if res and not rest: return res
                if res: return res + [(a, U) for a, b in rest]
                if rest: st = rest[0][0]
        res = []
        c = self.eng.callee(self.fi, n.func)
        for a, args, kw in self.args(n, st, out):
            vals = args + list(kw.values())
            if e in CREATE:
                out.exc.append((a.copy(), "OSError"))
                res.append((a, self.create(n, a)))
            elif e in ("numpy.get_printoptions",): res.append((a, ("po", a.po)))
            elif e in ("numpy.set_printoptions",):
                v = kw.get("**")
                if not (v is not None and v[0] == "po"): out.exc.append((a.copy(), None))
                if v is not None and v[0] == "po" and not args and len(kw) == 1: a.po = v[1]
                else: a.po = "%s: %s" % (self.fi.qualname, txt(n))
                self.eng.sites.add((self.fi.qualname, txt(n)))
                res.append((a, U))
            elif e in ("sys.exit", "exit", "quit", "os._exit"): out.exc.append((a, "SystemExit"))
            elif e in ("contextlib.closing",) and args and args[0][0] == "t": res.append((a, ("closing", args[0][1])))
            elif e in ("io.StringIO", "io.BytesIO", "StringIO.StringIO", "StringIO") or (dotted(f) or "").split(".")[-1] in ("StringIO", "BytesIO"): res.append((a, ("io",)))
            elif e in ("os.close",) and args and args[0][0] == "t": a.open = a.open - {args[0][1]}; res.append((a, U))
            elif isinstance(c, FuncInfo) and (any(tokens(v, a) or v[0] in ("std",) for v in vals) or self.eng.returns_handle(c)):
                res += self.inline(n, c, args, kw, a, out)
            elif isinstance(c, ClassInfo) and any(tokens(v, a) & a.open for v in vals): raise Undecided("a file is handed to %s" % c.name)
            elif e in SAFE or isinstance(c, FuncInfo) and c.module.name.endswith(".printing") and c.name in ("print_warning", "print_general_error", "print_info_line", "print_parse_error"): res.append((a, U))
            elif isinstance(f, ast.Attribute) and f.attr in SAFE_METH: res.append((a, U))
            else:
                out.exc.append((a.copy(), None))
                hs = [v for v in vals if v[0] == "t"]
                if len(hs) == 1 and c is None and (e is None or e.startswith(("codecs.", "io."))): res.append((a, hs[0]))     # a wrapper around the file
                else: res.append((a, U))
        return res

    def create(self, n, st):
        t = "%s: %s" % (self.fi.qualname, txt(n))
        self.eng.sites.add((self.fi.qualname, txt(n)))
        if t in st.open:
            # the file opened here before is still open: it stays so, whatever refers to it
            old = t + " (earlier)"
            def sub(v):
                if v == ("t", t): return ("t", old)
                if v == ("closing", t): return ("closing", old)
                if v[0] == "tup": return ("tup", tuple(sub(x) for x in v[1]))
                return v
            st.env = {k: sub(v) for k, v in st.env.items()}
            st.heap = {k: frozenset(sub(x) for x in v) for k, v in st.heap.items()}
            st.open = st.open | {old}
        st.open = st.open | {t}
        return ("t", t)

    def method(self, n, name, b, args, st, out):
        if b[0] == "bag":
            if name in ("append", "insert", "add", "extend") and args:
                v = args[-1]
                new = set(st.heap.get(b[1], ()))
                new |= set(st.heap.get(v[1], ())) if name == "extend" and v[0] == "bag" else {v}
                st.heap[b[1]] = frozenset(x for x in new if held(x))
                return st, U
            if name == "pop":
                p = self.pick(st, b[1])
                return p[0]
            if name not in SAFE_METH: out.exc.append((st.copy(), None))
            return st, U
        if name == "close":
            if b[0] == "std": self.eng.report("standard", b[1], self.fi, "closed"); return st, U
            st.open = st.open - {b[1]}
            self.eng.closes.add((self.fi.qualname, txt(n)))
            out.exc.append((st.copy(), "OSError"))
            return st, U
        if name in ("flush", "tell", "seek", "fileno", "isatty"): out.exc.append((st.copy(), "OSError"))
        else: out.exc.append((st.copy(), None))
        return st, (b if name in ("__enter__",) else U)

    def inline(self, n, fi, args, kw, st, out):
        if self.depth > 6 or fi is self.fi: raise Undecided("deep or recursive call")
        w = Walker(self.eng, fi, self.depth + 1)
        outer = st.env
        st.env = self.bind(fi, args, kw, ("s", txt(n.func.value)) if isinstance(n.func, ast.Attribute) else None)
        before = st.open
        o = w.block(fi.node.body, [st])
        res = []
        for s, v in [(s, ("none",)) for s in o.normal] + o.ret:
            s.env = dict(outer)
            res.append((s, v))
        for s, e in o.exc:
            s.env = dict(outer)
            out.exc.append((s, e))
        # what the callee left open on its way out is reported there, once
        for s, e in o.exc:
            s.open = frozenset(t for t in s.open if t in before or not t.startswith(fi.qualname + ":"))
        return res

def std(e):
    if e in ("sys.stdout", "sys.stderr", "sys.stdin", "sys.__stdout__", "sys.stdout.buffer"): return ("std", e.split(".")[1].strip("_"))
    return None

def glob(e):
    """the interpreter in use is Python 3"""
    if e.endswith("py3compat.PY2"): return ("c", False)
    if e.endswith("py3compat.PY3"): return ("c", True)
    return ("g", e)

def pure(n): return not any(isinstance(x, (ast.Call, ast.Subscript, ast.BoolOp)) for x in ast.walk(n))

def freeze(env): return tuple(sorted(env.items()))
