"""C15: subcircuit instances are isolated copies wired only through their ports."""
import ast, itertools
from .. import terms as T
from ..interp import *
from ..parsing import *
from ..terms import num, atom, Poly

# ---------------------------------------------------------------------------------- a netlist file made of given lines
class TextFile(object):
    def __init__(self, lines): self.lines, self.pos, self.closed = list(lines), 0, False

def file_hook(ip, b, name, args, kw, n):
    f = b.attrs.get("__text__") if isinstance(b, Obj) else None
    if f is None: return NotImplemented
    if name == "readline":
        if f.pos < len(f.lines):
            f.pos += 1
            return f.lines[f.pos - 1] + "\n"
        return ""
    if name == "tell": return num(f.pos)
    if name == "seek":
        p = args[0].const() if isinstance(args[0], Poly) else args[0]
        f.pos = int(p); return None
    if name == "close": f.closed = True; return None
    if name in ("readlines",):
        out = [x + "\n" for x in f.lines[f.pos:]]
        f.pos = len(f.lines)
        return ip.new_list(out, n)
    if name == "read":
        out = "".join(x + "\n" for x in f.lines[f.pos:])
        f.pos = len(f.lines)
        return out
    return NotImplemented

def parse_file(prog, ip, files, main="main.ckt"):
    """the circuit and what else the parser makes of a netlist file"""
    def opened(ip, args, kw, n):
        if args[0] not in files: raise RaiseSig("IOError", ip.where(n), "no file %s" % (args[0],))
        return Obj(None, "file %s" % args[0], {"__text__": TextFile(files[args[0]])}, opaque=True)
    def newcirc(ip, args, kw, n): return circ(prog, ip)
    ip.summaries.update({"builtins.open": opened, "open": opened, "Circuit": newcirc})
    fi = prog.func("netlist_parser.parse_circuit")
    r = ip.call_function(fi, [main])
    return r.items if isinstance(r, PList) else list(r)

def read(prog, lines, models=()):
    def fn(ip):
        ip.summaries.pop("circuit._circuit_wrapper.add_node", None)
        objs = {k: model_obj(prog, v, k) for k, v in dict(models).items()}
        d = PDict()
        for k, v in objs.items(): d.items[k] = v; d.keyvals[k] = k
        ip.models = objs
        def pm(ip, args, kw, n): return d
        ip.summaries["netlist_parser.parse_models"] = pm
        ip.opts["meth_hook"] = file_hook
        out = parse_file(prog, ip, {"main.ckt": ["title"] + list(lines)})
        ip.directives = out[1]
        c = out[0]
        return list(c.attrs["__items__"].items)
    return go(prog, fn, 40)

def model_obj(prog, kind, label):
    return Obj(prog.cls(kind), "model " + label, {"name": label}, opaque=True)

MODELS = {"dm": "diode.diode_model", "mm": "ekv.ekv_mos_model", "sm": "switch.vswitch_model"}
NODE_ATTRS = ("n1", "n2", "ng", "nb", "sn1", "sn2", "ports")
REF_ATTRS = ("source_id", "L1", "L2")

# ---------------------------------------------------------------------------------- the documented expansion
class Sub(object):
    """.subckt name ports / body lines: (id, nodes, references, rest)"""
    def __init__(self, name, ports, body): self.name, self.ports, self.body = name, ports, body
    def lines(self, text): return [".subckt %s %s" % (self.name, " ".join(self.ports))] + [text(x) for x in self.body] + [".ends"]

class E(object):
    def __init__(self, id, nodes, rest="", refs=()): self.id, self.nodes, self.rest, self.refs = id, list(nodes), rest, list(refs)
    def text(self): return " ".join([self.id] + self.nodes + self.refs + ([self.rest] if self.rest else []))

class X(object):
    def __init__(self, id, name, ports, order=None, comment=""): self.id, self.name, self.ports, self.order, self.comment = id, name, ports, order, comment
    def text(self):
        toks = ["%s=%s" % p for p in self.ports]
        n = "name=%s" % self.name
        k = self.order if self.order is not None else 0
        toks.insert(k, n)
        return " ".join([self.id] + toks) + (" " + self.comment if self.comment else "")

def expand(subs, body, path, wires):
    """[(path, E, [node])] — node: ("top", name) or ("local", path, name)"""
    out = []
    def node(x):
        if x == "0": return ("top", "0")
        if wires is None: return ("top", x)
        return wires[x] if x in wires else ("local", path, x)
    for e in body:
        if isinstance(e, E): out.append((path, e, [node(x) for x in e.nodes]))
        else:
            s = subs[e.name]
            out += expand(subs, s.body, path + (e.id,), {p: node(v) for p, v in e.ports})
    return out

def got_nodes(o):
    out = []
    for a in NODE_ATTRS[:-1]:
        v = o.attrs.get(a)
        if v is not None: out.append((a, v.atom()[1] if isinstance(v, Poly) and v.atom() and v.atom()[0] == "node" else show(v)))
    return out

NODE_ORDER = {"m": ("n1", "ng", "n2", "nb"), 4: ("n1", "n2", "sn1", "sn2"), 2: ("n1", "n2"), 0: ()}

def node_values(e, o):
    order = NODE_ORDER["m"] if e.id[0] == "m" else NODE_ORDER[len(e.nodes)]
    d = dict(got_nodes(o))
    return [d.get(a) for a in order]

def facts(o, depth=0):
    """what an element is, apart from its name, its nodes and its references"""
    if not isinstance(o, Obj): return None if isinstance(o, (PList, PDict)) else o
    if depth > 3: return None
    return (o.cls.name if o.cls else o.name, {k: facts(v, depth + 1) for k, v in o.attrs.items()
            if k not in NODE_ATTRS + REF_ATTRS + ("part_id",) and not k.startswith("__")})

def same_facts(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[1], dict):
        if a[0] != b[0] or not isinstance(b[1], dict): return False
        return set(a[1]) == set(b[1]) and all(same_facts(a[1][k], b[1][k]) for k in a[1])
    return same(a, b)

def alone(prog, cache, e, siblings):
    """the same line outside of any subcircuit"""
    extra = [x.text() for r in e.refs if r[0] == "l" for x in siblings if x.id == r]
    key = e.text()
    if (key, tuple(extra)) not in cache:
        runs = [r for r in read(prog, extra + [key], MODELS) if r.outcome == "return"]
        cache[key, tuple(extra)] = facts(runs[0].value[-1]) if runs and runs[0].value else None
    return cache[key, tuple(extra)]

class Mismatch(Exception):
    def __init__(self, clause, msg): self.clause, self.msg = clause, msg

def assign(exp, got, tops):
    """one-to-one between the documented elements and the parsed ones; natural order first"""
    fwd, inv = {}, {}
    def bind(n, v, undo):
        if n[0] == "top": return v == n[1]
        if n in fwd: return fwd[n] == v
        if v in inv or v in tops or v is None: return False
        fwd[n] = v; inv[v] = n; undo.append((n, v))
        return True
    used = [None] * len(exp)
    taken = set()
    def rec(i):
        if i == len(exp): return True
        p, e, nodes = exp[i]
        order = [i] + [j for j in range(len(got)) if j != i]
        for j in order:
            if j in taken or j >= len(got): continue
            o = got[j]
            if str(o.attrs.get("part_id"))[:1] != e.id[0]: continue
            undo, ok = [], True
            vals = node_values(e, o)
            for n, v in zip(nodes, vals):
                if not bind(n, v, undo): ok = False; break
            if ok and len(vals) == len(nodes):
                taken.add(j); used[i] = j
                if rec(i + 1): return True
                taken.discard(j)
            for n, v in undo: del fwd[n]; del inv[v]
        return False
    return list(used) if rec(0) else None

def first_difference(exp, got, tops):
    fwd, inv = {}, {}
    for (p, e, nodes), o in zip(exp, got):
        who = "%s of instance %s" % (e.id, "/".join(p)) if p else e.id
        if str(o.attrs.get("part_id"))[:1] != e.id[0]: return "elements", "%s became %s" % (who, o.attrs.get("part_id"))
        for n, v, name in zip(nodes, node_values(e, o), e.nodes):
            if n[0] == "top":
                if v != n[1]: return "nodes", "node %s of %s is %s, it should be the circuit's node %s" % (name, who, v, n[1])
            elif n in fwd:
                if fwd[n] != v: return "nodes", "node %s of %s is %s here and %s elsewhere in the same instance" % (name, who, v, fwd[n])
            elif v in inv: return "nodes", "node %s of %s is %s, shared with node %s of instance %s" % (name, who, v, inv[v][2], "/".join(inv[v][1]))
            elif v in tops: return "nodes", "node %s of %s is %s, a node of the calling circuit" % (name, who, v)
            else: fwd[n] = v; inv[v] = n
    return "nodes", "no one-to-one correspondence between the body's elements and the result"

CLAUSES = ("elements", "nodes", "names", "references", "values")

def verify(prog, cache, subs, top, r):
    """clause -> message, for one path of the parser"""
    bad = {}
    got = r.value
    exp = expand(subs, top, (), None)
    tops = {"0"}
    for e in top:
        if isinstance(e, E): tops |= set(e.nodes)
        else: tops |= set(v for _, v in e.ports)
    if len(got) != len(exp):
        bad["elements"] = "%d elements instead of %d: %s" % (len(got), len(exp), ", ".join(str(o.attrs.get("part_id")) for o in got))
        return bad
    m = assign(exp, got, tops)
    if m is None:
        cl, msg = first_difference(exp, got, tops)
        bad[cl] = msg
        m = list(range(len(exp)))
    ids = {}
    for i, (p, e, nodes) in enumerate(exp):
        o = got[m[i]]
        pid = o.attrs.get("part_id")
        if not isinstance(pid, str): bad["names"] = "the name of %s of %s is %s" % (e.id, p, show(pid)); continue
        if pid.lower() in ids: bad["names"] = "two elements are called %s: %s and %s" % (pid, ids[pid.lower()], p + (e.id,))
        ids[pid.lower()] = p + (e.id,)
        if not p and pid != e.id: bad["names"] = "%s, outside of any subcircuit, is renamed to %s" % (e.id, pid)
        if pid[0] != e.id[0]: bad["names"] = "%s of %s is called %s: the first letter gives its kind" % (e.id, p, pid)
    by = {(p, e.id): got[m[i]] for i, (p, e, nodes) in enumerate(exp)}
    for i, (p, e, nodes) in enumerate(exp):
        o = got[m[i]]
        if e.refs:
            want = [by[(p, x)].attrs.get("part_id") for x in e.refs]
            have = [o.attrs.get(a) for a in REF_ATTRS if o.attrs.get(a) is not None]
            if sorted(map(str, want)) != sorted(map(str, have)):
                bad["references"] = "%s of instance %s refers to %s, it should be %s" % (e.id, "/".join(p) or "(top)", ", ".join(map(str, have)), ", ".join(map(str, want)))
            if e.id[0] == "k":
                for x in e.refs:
                    d = by[(p, x)].attrs.get("coupling_devices")
                    if not (isinstance(d, PList) and any(y is o for y in d.items)):
                        bad["references"] = "inductor %s of instance %s does not know the coupling %s of its own instance" % (x, "/".join(p) or "(top)", e.id)
        for x in [y for (q, z, _), y in zip(exp, [got[k] for k in m]) if z is e and q != p]:
            shared = [a for a in ("device", "_time_function", "coupling_devices") if a in o.attrs and isinstance(o.attrs[a], (Obj, PList)) and x.attrs.get(a) is o.attrs[a]]
            if x is o: bad["elements"] = "%s is one object in two instances" % e.id
            elif shared: bad["values"] = "%s shares its %s between two instances" % (e.id, shared[0])
        f = alone(prog, cache, e, [y for q, y, _ in exp if q == p])
        if f is not None:
            g = facts(o)
            if not same_facts(f, g):
                diff = [k for k in set(f[1]) | set(g[1]) if not same_facts(f[1].get(k), g[1].get(k))]
                bad["values"] = "%s in instance %s differs from the same line outside of it: %s" % (e.id, "/".join(p) or "(top)", ", ".join("%s = %s instead of %s" % (k, show(g[1].get(k)), show(f[1].get(k))) for k in diff[:2]) or "%s instead of %s" % (g[0], f[0]))
    return bad

# ---------------------------------------------------------------------------------- scenarios
ONE = Sub("amp", ["in", "out"], [E("r1", ["in", "mid"], "11"), E("c1", ["mid", "0"], "12 ic=13"), E("l1", ["mid", "out"], "14")])
KINDS = Sub("all", ["a", "b"], [
    E("r1", ["a", "m"], "21"), E("c1", ["m", "b"], "22"), E("l1", ["m", "k"], "23"), E("l2", ["k", "0"], "24"), E("k1", [], "0.25", ["l1", "l2"]),
    E("v1", ["m", "q"], "type=vdc vdc=26"), E("i1", ["q", "0"], "type=idc idc=27"), E("v2", ["b", "q2"], "type=vdc vdc=28 type=sin 29 30 31"), E("r2", ["q2", "0"], "32"),
    E("e1", ["e", "0", "a", "m"], "33"), E("g1", ["m", "b", "e", "0"], "34"), E("h1", ["h", "0"], "35", ["v1"]), E("f1", ["m", "h"], "36", ["v1"]),
    E("d1", ["a", "m"], "dm area=37"), E("m1", ["a", "m", "b", "0"], "mm w=38 l=39"), E("s1", ["a", "q", "m", "0"], "sm")])
FIRSTREF = Sub("fwd", ["a"], [E("f1", ["a", "0"], "41", ["v1"]), E("v1", ["a", "n"], "type=vdc vdc=42"), E("r1", ["n", "0"], "43"), E("h1", ["o", "a"], "44", ["v1"]), E("r2", ["o", "0"], "45")])
INNER = Sub("inner", ["p", "q"], [E("r1", ["p", "m"], "51"), E("r2", ["m", "q"], "52"), E("v1", ["m", "w"], "type=vdc vdc=53"), E("f1", ["w", "0"], "54", ["v1"])])
OUTER = Sub("outer", ["p", "q"], [E("r1", ["p", "m"], "61"), X("x1", "inner", [("p", "m"), ("q", "q")]), X("x2", "inner", [("p", "q"), ("q", "n")]), E("v1", ["n", "0"], "type=vdc vdc=62"), E("h1", ["m", "0"], "63", ["v1"])])
WIRE = Sub("wire", ["a", "b", "c"], [E("r1", ["a", "b"], "71"), E("r2", ["b", "c"], "72")])
PAIR = Sub("pair", ["a", "b"], [E("l1", ["a", "0"], "81"), E("l2", ["b", "0"], "82"), E("l3", ["a", "b"], "83"), E("k1", [], "0.84", ["l1", "l2"]), E("k2", [], "k=0.85", ["l3", "l1"])])
ALIKE = Sub("alike", ["1", "11"], [E("r1", ["1", "01"], "91"), E("r11", ["01", "00"], "92"), E("r111", ["00", "11"], "93"), E("r2", ["111", "0a"], "94"), E("c1", ["0a", "0"], "95"), E("r3", ["111", "1"], "96")])

def S(*subs): return {s.name: s for s in subs}

SCENARIOS = [
 ("one instance", S(ONE), [E("v1", ["a", "0"], "type=vdc vdc=1"), X("x1", "amp", [("in", "a"), ("out", "b")])]),
 ("two instances", S(ONE), [X("x1", "amp", [("in", "a"), ("out", "b")]), X("x2", "amp", [("in", "b"), ("out", "c")])]),
 ("ports given in another order", S(ONE), [X("x1", "amp", [("out", "b"), ("in", "a")]), X("x2", "amp", [("out", "c"), ("in", "b")])]),
 ("name given last, with a comment", S(ONE), [X("x1", "amp", [("in", "a"), ("out", "b")], order=2, comment="* an amplifier")]),
 ("a port on ground", S(ONE), [X("x1", "amp", [("in", "a"), ("out", "0")]), X("x2", "amp", [("in", "0"), ("out", "a")])]),
 ("both ports on one node", S(WIRE), [X("x1", "wire", [("a", "n"), ("b", "n"), ("c", "k")]), X("x2", "wire", [("a", "k"), ("b", "0"), ("c", "n")])]),
 ("caller's nodes called like the ports", S(WIRE), [X("x1", "wire", [("a", "b"), ("b", "c"), ("c", "a")]), E("r9", ["a", "c"], "2"), X("x2", "wire", [("a", "a"), ("b", "b"), ("c", "c")])]),
 ("caller's nodes called like internal nodes", S(ONE), [E("r1", ["mid", "0"], "3"), X("x1", "amp", [("in", "mid"), ("out", "b")]), X("x2", "amp", [("in", "b"), ("out", "c")]), E("l1", ["mid", "c"], "4")]),
 ("every kind of element, two instances", S(KINDS), [X("x1", "all", [("a", "a"), ("b", "b")]), X("x2", "all", [("a", "b"), ("b", "a")])]),
 ("same names inside and outside", S(FIRSTREF, PAIR), [E("v1", ["a", "0"], "type=vdc vdc=5"), X("x1", "fwd", [("a", "a")]), E("f1", ["b", "0"], "6", ["v1"]), X("x2", "fwd", [("a", "b")]), E("l1", ["a", "0"], "7"), E("l2", ["b", "0"], "8"), E("k1", [], "0.9", ["l1", "l2"]), X("x3", "pair", [("a", "a"), ("b", "b")])]),
 ("coupled inductors in two instances", S(PAIR), [X("x1", "pair", [("a", "a"), ("b", "b")]), X("x2", "pair", [("a", "c"), ("b", "a")])]),
 ("subcircuits inside a subcircuit", S(INNER, OUTER), [X("x1", "outer", [("p", "a"), ("q", "b")]), X("x2", "inner", [("p", "b"), ("q", "a")]), X("x3", "outer", [("p", "b"), ("q", "0")])]),
 ("inner subcircuit defined after the outer one", S(OUTER, INNER), [X("x1", "outer", [("p", "m"), ("q", "n")])]),
 ("node names that look alike", S(ALIKE), [E("r1", ["01", "1"], "2"), X("x1", "alike", [("1", "1"), ("11", "11")]), X("x11", "alike", [("1", "01"), ("11", "0")])]),
 ("different subcircuits with the same internals", S(INNER, ONE), [X("x1", "inner", [("p", "a"), ("q", "b")]), X("x2", "amp", [("in", "a"), ("out", "b")]), E("r1", ["m", "mid"], "9")]),
]

def netlist(subs, top, where):
    lines = []
    defs = []
    for s in subs.values(): defs += s.lines(lambda x: x.text())
    body = [x.text() for x in top]
    if where == "before": return defs + body
    if where == "after": return body + defs + [".op"]
    return body[:1] + defs + body[1:]

REJECTED = [
 ("a port left unconnected", ["x1 name=amp in=a"], "unconnected"),
 ("an unknown port", ["x1 name=amp in=a out=b foo=c"], "unknown port"),
 ("an unknown subcircuit", ["x1 name=nosuch in=a out=b"], "unknown name"),
]

def run(c, prog):
    c.rule("expansion", "the elements of an instance are those of the body, once each, with the body's values, ports wired to the caller's nodes, ground kept, every other node and every name unique to the instance, references inside the body following the renaming", 60)
    c.rule("calls", "a call that leaves a port open, names an unknown port or an unknown subcircuit is refused", 3)
    fi = prog.func("netlist_parser.parse_sub_instance")
    cache = {}
    for name, subs, top in SCENARIOS:
        for where in ("before", "after", "between"):
            if where == "between" and len(top) < 2: continue
            c.guard(name, scenario, c, prog, cache, "%s, defined %s" % (name, {"before": "first", "after": "last", "between": "between the calls"}[where]), subs, top, netlist(subs, top, where), fi)
    for name, lines, why in REJECTED:
        runs = read(prog, ONE.lines(lambda x: x.text()) + ["v1 a 0 type=vdc vdc=1"] + lines, MODELS)
        for r in runs:
            if r.outcome == "unsupported": c.undecided("calls", name, r.error)
            else: c.check(r.outcome == "raise", "calls", name, "the call is accepted", fi.where)

def scenario(c, prog, cache, what, subs, top, lines, fi):
    runs = read(prog, lines, MODELS)
    for r in runs: c.analysed(*r.ip.inlined)
    done = [r for r in runs if r.outcome == "return"]
    if not done:
        if runs[0].outcome == "raise": c.fail("expansion", what + ": accepted", "every path ends in %s" % (runs[0].error,), fi.where)
        else: c.undecided("expansion", what, runs[0].error)
        return
    bad = {}
    for r in done:
        for k, m in verify(prog, cache, subs, top, r).items(): bad.setdefault(k, m)
    for cl in CLAUSES:
        c.check(cl not in bad, "expansion", "%s: %s" % (what, cl), bad.get(cl, ""), fi.where)
