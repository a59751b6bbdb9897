"""Which parameters a function may write through (stores, augmented stores, mutating method calls)."""
import ast
from .program import FuncInfo, ClassInfo, dotted
from .interp import walk_own

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "fill",
            "popitem", "add", "discard", "resize", "put", "itemset", "partition", "setflags", "__setitem__", "__delitem__"}

def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)): n = n.value
    return n.id if isinstance(n, ast.Name) else None

def aliases(fi, names):
    """local names that may refer to (part of) the objects bound to `names`"""
    al = set(names)
    changed = True
    while changed:
        changed = False
        for n in walk_own(fi.node):
            tg = None
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)) and root(n.value) in al: tg = n.targets
            elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.IfExp, ast.BoolOp)):
                vs = [n.value.body, n.value.orelse] if isinstance(n.value, ast.IfExp) else n.value.values
                if any(isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) and root(v) in al for v in vs): tg = n.targets
            elif isinstance(n, ast.For) and root(n.iter) in al: tg = [n.target]
            for t in tg or []:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in al:
                        al.add(x.id); changed = True
    return al

def writes_param(prog, fi, pname, _seen=None):
    """(may write, where) : some store in fi or in what it calls goes through parameter pname"""
    _seen = _seen or set()
    if (fi.qualname, pname) in _seen: return None
    _seen.add((fi.qualname, pname))
    al = aliases(fi, [pname])
    for n in walk_own(fi.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and root(n) in al:
            return "%s:%d" % (fi.module.rel, n.lineno)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in al:
            return "%s:%d" % (fi.module.rel, n.lineno)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and root(n.func.value) in al:
                return "%s:%d" % (fi.module.rel, n.lineno)
            d = dotted(n.func)
            callee = prog.resolve_dotted(fi.module, d) if d else None
            if isinstance(callee, ClassInfo): callee = prog.find_method(callee, "__init__")
            if isinstance(callee, FuncInfo):
                ps = callee.params()
                off = 1 if callee.cls is not None and "staticmethod" not in callee.decorators else 0
                for i, a in enumerate(n.args):
                    if isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)) and root(a) in al and i + off < len(ps):
                        w = writes_param(prog, callee, ps[i + off], _seen)
                        if w: return w
                for k in n.keywords:
                    if k.arg and isinstance(k.value, (ast.Name, ast.Attribute)) and root(k.value) in al:
                        w = writes_param(prog, callee, k.arg, _seen)
                        if w: return w
    return None
