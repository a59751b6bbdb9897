"""C17: node and element bookkeeping stays consistent through every edit."""
import ast, itertools
from .. import terms as T
from ..interp import *
from ..parsing import show
from ..terms import num, sym, atom, Poly

N = ast.Pass(lineno=0)

# ---------------------------------------------------------------------------------- a real circuit object, driven through its own methods
def start(prog, ip):
    """an empty circuit, as the constructor leaves it"""
    ci = prog.cls("circuit.Circuit")
    o = Obj(ci, "circ", {"__items__": ip.new_list([], N)})
    m = prog.find_method(ci, "__init__")
    ip.call_function(m, ["title"], {}, self_=o)
    return o

def call(ip, o, meth, *args, **kw):
    f = ip.obj_attr(o, meth, N)
    return ip.call_function(f.fi, list(args), kw, self_=f.self_, env=f.env)

def table(o):
    """the node table as python values; None if it holds something undecided"""
    d = o.attrs.get("nodes_dict")
    if not isinstance(d, PDict) or d.unknown: return None
    out = {}
    for k, v in d.items.items():
        k = d.keyvals.get(k, k)
        f = lambda x: int(x.const()) if isinstance(x, Poly) and x.const() is not None else x
        k = f(k)
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "num": k = int(k[1])
        out[k] = f(v)
    return out

def items(o): return list(o.attrs["__items__"].items)

def consistent(t):
    """one-to-one between names and numbers; ground is 0 and nothing else is"""
    if t is None: return "the node table is undecided"
    names = [k for k in t if isinstance(k, str)]
    ints = [k for k in t if not isinstance(k, str)]
    for k in names:
        if t[k] not in t: return "node %s has number %s, which is not in the table" % (k, t[k])
        if t[t[k]] != k: return "node %s has number %s, which belongs to %s" % (k, t[k], t[t[k]])
        if isinstance(t[k], (str, bool)) or not isinstance(t[k], int): return "the number of node %s is %r" % (k, t[k])
    for k in ints:
        if t[k] not in t or t[t[k]] != k: return "number %s belongs to %s, which has another one" % (k, t[k])
    if len(names) != len(ints): return "%d names for %d numbers" % (len(names), len(ints))
    if ("0" in t) != (0 in t) or ("0" in t and t["0"] != 0): return "ground is not node 0"
    return None

def contiguous(t):
    ints = sorted(k for k in t if not isinstance(k, str))
    first = 0 if 0 in t else 1
    want = list(range(first, first + len(ints)))
    return None if ints == want else "the node numbers are %s" % ints

TERMINALS = ("n1", "n2", "ng", "nb", "sn1", "sn2")
def terminals(e):
    out = []
    for a in TERMINALS:
        v = e.attrs.get(a) if isinstance(e, Obj) else None
        if v is not None: out.append((a, int(v.const()) if isinstance(v, Poly) and v.const() is not None else v))
    p = e.attrs.get("ports") if isinstance(e, Obj) else None
    if isinstance(p, (tuple, list)):
        for q in p:
            for v in q: out.append(("ports", int(v.const()) if isinstance(v, Poly) and v.const() is not None else v))
    return out

def known_nodes(o):
    t = table(o)
    for e in items(o):
        for a, v in terminals(e):
            if isinstance(v, (Obj, PList)) or v not in t: return "%s of %s is %s, not a node of the circuit" % (a, e.attrs.get("part_id"), show(v) if isinstance(v, Poly) else v)
    return None

def text(ip, spec, x):
    if isinstance(x, str): return x
    if isinstance(x, Poly) and x.const() is not None and x.const().denominator == 1: return str(int(x.const()))
    return "<%s>" % show(x)

def go(prog, fn, limit=48, **o):
    opts = {"notnone": lambda a: True, "copy_obj": True, "decorate": True, "inttype": True, "sets": True, "text": text, "unroll": 60, "distinct": False, "modinit": True, "split_max": True}
    opts.update(o)
    def quiet(ip, args, kw, n): return None
    def make(script):
        return Interp(prog, script, opts=opts, summaries={"printing.print_info_line": quiet, "printing.print_warning": quiet, "printing.print_general_error": quiet}, budget=400000)
    return explore(make, fn, limit, True)

def attempt(ip, f):
    """the value of a call, or the exception it ends in"""
    try: return ("ok", f())
    except RaiseSig as e: return ("raise", e.name)

# ---------------------------------------------------------------------------------- elements
MK = {"diode.diode_model": "dm", "ekv.ekv_mos_model": "em", "mosq.mosq_mos_model": "mm", "switch.vswitch_model": "sm"}
# kind: (method, letter, node arguments in order, other arguments, attribute of each node)
KINDS = {
 "resistor": ("add_resistor", "R", ["n1", "n2"], {"value": "v"}, {}),
 "capacitor": ("add_capacitor", "C", ["n1", "n2"], {"value": "v"}, {}),
 "inductor": ("add_inductor", "L", ["n1", "n2"], {"value": "v"}, {}),
 "vsource": ("add_vsource", "V", ["n1", "n2"], {"dc_value": "v"}, {}),
 "isource": ("add_isource", "I", ["n1", "n2"], {"dc_value": "v"}, {}),
 "cccs": ("add_cccs", "F", ["n1", "n2"], {"source_id": "vx", "value": "v"}, {}),
 "ccvs": ("add_ccvs", "H", ["n1", "n2"], {"source_id": "vx", "value": "v"}, {}),
 "vcvs": ("add_vcvs", "E", ["n1", "n2", "sn1", "sn2"], {"value": "v"}, {}),
 "vccs": ("add_vccs", "G", ["n1", "n2", "sn1", "sn2"], {"value": "v"}, {}),
 "diode": ("add_diode", "D", ["n1", "n2"], {"model_label": "dm"}, {}),
 "mos (ekv)": ("add_mos", "M", ["nd", "ng", "ns", "nb"], {"w": "v", "l": "v", "model_label": "em"}, {"nd": "n1", "ns": "n2"}),
 "mos (mosq)": ("add_mos", "M", ["nd", "ng", "ns", "nb"], {"w": "v", "l": "v", "model_label": "mm"}, {"nd": "n1", "ns": "n2"}),
 "switch": ("add_switch", "S", ["n1", "n2", "sn1", "sn2"], {"ic": None, "model_label": "sm"}, {}),
}
ARITY = {k: len(v[2]) for k, v in KINDS.items()}

def models(prog, ip, o):
    d = o.attrs["models"]
    for q, lab in MK.items():
        if q.split(".")[1] not in [c.name for c in prog.classes.values()]: continue
        attrs = {"name": lab}
        d.items[lab] = Obj(prog.cls(q), "model " + lab, attrs, opaque=True)
        d.keyvals[lab] = lab

def add(ip, o, kind, pid, nodes, **over):
    meth, letter, nn, other, _ = KINDS[kind]
    kw = dict(zip(nn, nodes))
    for k, v in other.items():
        if v == "v": v = {"w": sym("W"), "l": sym("L")}.get(k, sym("val_" + pid))
        kw[k] = v
    kw.update(over)
    return call(ip, o, meth, pid, **kw)

def done(c, rule, what, runs, where):
    ok = [r for r in runs if r.outcome == "return"]
    if not ok:
        if runs and runs[0].outcome == "raise": c.fail(rule, what + ": possible", "every path ends in %s" % runs[0].error, where)
        else: c.undecided(rule, what, runs[0].error if runs else "no path")
    return ok

# ---------------------------------------------------------------------------------- A. the node table
MENU = [("add_node", "0"), ("add_node", "a"), ("add_node", "b"), ("add_node", "A"), ("add_node", "1"), ("add_node", "00"),
        ("create_node", "0"), ("create_node", "a"), ("create_node", "c"), ("new_internal_node", None)]

def sequences():
    for k in (1, 2, 3):
        for s in itertools.product(MENU, repeat=k): yield s
    yield (("add_node", "a"), ("add_node", "b"), ("new_internal_node", None), ("add_node", "0"), ("add_node", "c"), ("new_internal_node", None), ("create_node", "d"), ("add_node", "a"))
    yield (("add_node", "0"), ("new_internal_node", None), ("new_internal_node", None), ("new_internal_node", None), ("add_node", "2"), ("add_node", "1"))
    yield (("add_node", "INT0"), ("new_internal_node", None), ("add_node", "0"), ("new_internal_node", None))
    yield (("add_node", "3"), ("add_node", "2"), ("add_node", "1"), ("add_node", "0"), ("create_node", "4"))

def node_table(c, prog):
    fi = prog.func("circuit.Circuit.add_node")
    bad, count = {}, {}
    for seq in sequences():
        def fn(ip):
            o = start(prog, ip)
            log = []
            for meth, name in seq:
                before = table(o)
                r = attempt(ip, lambda: call(ip, o, meth, *([name] if name is not None else [])))
                log.append((meth, name, before, r, table(o)))
            log.append(("get_nodes_number", None, table(o), attempt(ip, lambda: call(ip, o, "get_nodes_number")), table(o)))
            return log
        for r in go(prog, fn):
            if r.outcome != "return": c.undecided("node table", "->".join(m for m, _ in seq), r.error); continue
            c.analysed(*r.ip.inlined)
            for k, msg in judge_nodes(r.value):
                count[k] = count.get(k, 0) + 1
                if msg and k not in bad: bad[k] = "after %s: %s" % (", ".join("%s(%s)" % (m, n or "") for m, n in seq), msg)
    for k in sorted(count): c.check(k not in bad, "node table", k, bad.get(k, ""), fi.where)

def val(x): return int(x.const()) if isinstance(x, Poly) and x.const() is not None else x

def judge_nodes(log):
    made = set()
    for meth, name, before, (how, v), after in log:
        yield "%s: names and numbers map one-to-one" % meth, consistent(after)
        if after is None or before is None: continue
        yield "%s: numbers are 0 to N-1" % meth, contiguous(after)
        grown = set(k for k in after if isinstance(k, str)) - set(k for k in before if isinstance(k, str))
        lost = [k for k in before if after.get(k) != before[k]]
        yield "%s: nodes already there keep their number" % meth, "%s changed" % lost if lost else None
        if meth == "get_nodes_number":
            yield "get_nodes_number: counts the nodes", None if how == "ok" and val(v) == len(after) // 2 else "%s for %d nodes" % (val(v), len(after) // 2)
        elif meth == "add_node":
            yield "add_node: accepts every name", None if how == "ok" else "raises %s" % v
            if how == "ok":
                yield "add_node: the node is in the table", None if name in after else "%s is not there" % name
                yield "add_node: returns the node's number", None if val(v) == after.get(name) else "returns %s for %s" % (val(v), name)
                yield "add_node: adds nothing else", None if grown <= {name} else "also %s" % (grown - {name})
        elif meth == "create_node":
            if name in before:
                yield "create_node: refuses an existing node", None if how == "raise" and after == before else "%s %s" % (how, v)
            else:
                yield "create_node: adds the node and returns its name", None if how == "ok" and grown == {name} and v == name else "%s %s, new nodes %s" % (how, v, sorted(grown))
        elif meth == "new_internal_node":
            yield "new_internal_node: adds a new node and returns its name", None if how == "raise" and after == before and any("INT" in str(k) for k in before) else None if how == "ok" and len(grown) == 1 and v in grown and v not in before else "%s %s, new nodes %s" % (how, v, sorted(grown))

def node_types(c, prog):
    for meth in ("add_node", "create_node"):
        fi = prog.func("circuit.Circuit." + meth)
        for what, bad in (("a number", num(5)), ("nothing", None)):
            def fn(ip):
                o = start(prog, ip)
                call(ip, o, "add_node", "a")
                before = table(o)
                return attempt(ip, lambda: call(ip, o, meth, bad)), before, table(o)
            for r in go(prog, fn):
                if r.outcome != "return": c.undecided("rejection", "%s(%s)" % (meth, what), r.error); continue
                (how, v), b, a = r.value
                c.check(how == "raise" and a == b, "rejection", "%s refuses %s as a name" % (meth, what), "%s, the nodes go from %s to %s" % (how, b, a), fi.where)

def node_names(c, prog):
    for meth, back in (("ext_node_to_int", False), ("int_node_to_ext", True)):
        fi = prog.func("circuit.Circuit." + meth)
        def fn(ip):
            o = start(prog, ip)
            for x in ("b", "0", "a", "A"): call(ip, o, "add_node", x)
            t = table(o)
            out = []
            for x in ("b", "0", "a", "A"):
                q = num(t[x]) if back else x
                out.append((x, t[x], attempt(ip, lambda: call(ip, o, meth, q))))
            return out
        for r in go(prog, fn):
            if r.outcome != "return": c.undecided("lookup", meth, r.error); continue
            for x, i, (how, v) in r.value:
                c.check(how == "ok" and val(v) == (x if back else i), "lookup", "%s of node %s" % (meth, x), "%s %s" % (how, val(v)), fi.where)

# ---------------------------------------------------------------------------------- B. additions
LAYOUTS = [("new nodes", lambda k: ["w", "x", "y", "z"][:k]), ("existing nodes", lambda k: ["b", "a", "b", "a"][:k]), ("one node", lambda k: ["w"] * k),
           ("ground and a new node", lambda k: ["0", "w", "0", "w"][:k]), ("new and existing nodes", lambda k: ["a", "w", "x", "b"][:k])]

def additions(c, prog, kind):
    meth, letter, nn, other, attr = KINDS[kind]
    fi = prog.func("circuit.Circuit." + meth)
    for lname, lay in LAYOUTS:
        nodes = lay(len(nn))
        for pre in (("0", "a", "b"), ("a", "b")):
            what = "%s on %s%s" % (kind, lname, "" if pre[0] == "0" else ", ground not yet there")
            def fn(ip):
                o = start(prog, ip)
                models(prog, ip, o)
                for x in pre: call(ip, o, "add_node", x)
                call(ip, o, "add_resistor", "R0", n1="a", n2="b", value=sym("r0"))
                before, its = table(o), items(o)
                how = attempt(ip, lambda: add(ip, o, kind, letter + "new", nodes))
                return how, before, its, table(o), items(o), consistent(table(o)), contiguous(table(o)), known_nodes(o)
            runs = go(prog, fn)
            okpaths = 0
            for r in runs:
                if r.outcome != "return":
                    if r.outcome == "unsupported": c.undecided("addition", what, r.error)
                    continue
                (how, v), b, its, a, now, con, cont, kn = r.value
                c.analysed(*r.ip.inlined)
                if how == "raise":
                    c.check(a == b and len(its) == len(now) and all(x is y for x, y in zip(its, now)), "rejection", "%s: leaves the circuit unchanged when it fails" % kind,
                            "%s is raised; nodes %s, elements %d -> %d" % (v, sorted(set(map(str, a)) - set(map(str, b))), len(its), len(now)), fi.where)
                    continue
                okpaths += 1
                c.check(con is None and cont is None, "addition", what + ": node table", con or cont, fi.where)
                c.check(kn is None, "addition", what + ": terminals are known nodes", kn, fi.where)
                names = set(k for k in a if isinstance(k, str))
                c.check(names == set(k for k in b if isinstance(k, str)) | set(nodes), "addition", what + ": exactly its nodes are added", "nodes %s" % sorted(names), fi.where)
                c.check(len(now) == len(its) + 1 and all(x is y for x, y in zip(its, now)), "addition", what + ": one element is appended", "%d elements instead of %d" % (len(now), len(its) + 1), fi.where)
                if len(now) != len(its) + 1: continue
                e = now[-1]
                for p, x in zip(nn, nodes):
                    t = e.attrs.get(attr.get(p, p)) if isinstance(e, Obj) else None
                    c.check(val(t) == a.get(x), "addition", "%s: %s is the node given" % (what, p), "%s instead of %s (%s)" % (show(t), a.get(x), x), fi.where)
            c.check(okpaths > 0, "addition", what + ": possible", "every path fails", fi.where) if not any(r.outcome == "unsupported" for r in runs) else None

def rejections(c, prog, kind):
    meth, letter, nn, other, attr = KINDS[kind]
    fi = prog.func("circuit.Circuit." + meth)
    cases = []
    for i, p in enumerate(nn): cases.append(("%s is not a name" % p, i, {}))
    if kind in ("resistor", "capacitor"): cases.append(("zero value", None, {"value": num(0)}))
    if "model_label" in other:
        cases.append(("unknown model", None, {"model_label": "nosuch"}))
        if kind.startswith("mos"): cases.append(("model of another kind", None, {"model_label": "dm"}))
    for what, i, over in cases:
        def fn(ip):
            o = start(prog, ip)
            models(prog, ip, o)
            call(ip, o, "add_node", "0"); call(ip, o, "add_node", "a")
            call(ip, o, "add_resistor", "R0", n1="a", n2="0", value=sym("r0"))
            before, its = table(o), items(o)
            nodes = ["w", "x", "y", "z"][:len(nn)]
            if i is not None: nodes[i] = num(7)
            how = attempt(ip, lambda: add(ip, o, kind, letter + "new", nodes, **over))
            return how, before, its, table(o), items(o), consistent(table(o))
        runs = go(prog, fn)
        for r in runs:
            if r.outcome != "return":
                if r.outcome == "unsupported": c.undecided("rejection", "%s: %s" % (kind, what), r.error)
                continue
            (how, v), b, its, a, now, con = r.value
            if how == "ok":
                c.fail("rejection", "%s: %s is refused" % (kind, what), "the element is accepted", fi.where); continue
            c.check(a == b and con is None, "rejection", "%s: %s adds no node" % (kind, what), "nodes left behind: %s" % sorted(k for k in (a or {}) if k not in b and isinstance(k, str)), fi.where)
            c.check(len(its) == len(now), "rejection", "%s: %s adds no element" % (kind, what), "%d elements instead of %d" % (len(now), len(its)), fi.where)

def coupling_rejections(c, prog):
    fi = prog.func("circuit.Circuit.add_inductor_coupling")
    for what, l1, l2 in (("unknown second inductor", "L1", "L9"), ("unknown first inductor", "L9", "L2"), ("one inductor twice", "L1", "L1"), ("an element that is not an inductor", "L1", "R1")):
        def fn(ip):
            o = start(prog, ip)
            for p in ("L1", "L2"): add(ip, o, "inductor", p, ["a", "0"])
            add(ip, o, "resistor", "R1", ["a", "0"])
            before = table(o), [len(e.attrs["coupling_devices"].items) for e in items(o)[:2]], len(items(o))
            how = attempt(ip, lambda: call(ip, o, "add_inductor_coupling", "K1", l1, l2, sym("k")))
            return how, before, (table(o), [len(e.attrs["coupling_devices"].items) for e in items(o)[:2]], len(items(o)))
        for r in go(prog, fn):
            if r.outcome != "return":
                if r.outcome == "unsupported": c.undecided("rejection", what, r.error)
                continue
            (how, v), b, a = r.value
            c.check(how == "raise" and a == b, "rejection", "coupling with %s" % what, "%s, elements %d -> %d, couplings %s -> %s" % (how, b[2], a[2], b[1], a[1]), fi.where)

# ---------------------------------------------------------------------------------- C. removal
def removal(c, prog, kind):
    fi = prog.func("circuit.Circuit.remove_elem")
    letter, k = KINDS[kind][1], ARITY[kind]
    private = ["w", "x", "y", "z"][:k]
    for other in sorted(KINDS):
        ol, ok = KINDS[other][1], ARITY[other]
        onodes = ["a", "b", "c", "d"][:ok]
        for share in (None,) + tuple(range(ok)):
            nodes = list(private)
            if share is not None: nodes[share % k] = onodes[share]
            what = "%s next to a %s%s" % (kind, other, "" if share is None else ", sharing its node %d" % (share + 1))
            def fn(ip):
                o = start(prog, ip)
                models(prog, ip, o)
                add(ip, o, other, ol + "keep", onodes[:-1] + (["0"] if share != ok - 1 else [onodes[-1]]))
                add(ip, o, kind, letter + "gone", nodes)
                add(ip, o, "resistor", "Rgnd", ["a", "0"])
                keep = [e for e in items(o) if e.attrs.get("part_id") != letter + "gone"]
                b = table(o)
                how = attempt(ip, lambda: call(ip, o, "remove_elem", (letter + "gone").lower()))
                a = table(o)
                con, kn, its = consistent(a), known_nodes(o), items(o)
                if how[0] == "ok":
                    for x in ("new1", "new2", "new3"): call(ip, o, "add_node", x)
                return how, b, a, keep, its, con, kn, consistent(table(o)), table(o)
            runs = go(prog, fn)
            good = 0
            for r in runs:
                if r.outcome != "return":
                    if r.outcome == "unsupported": c.undecided("removal", what, r.error)
                    continue
                (how, v), b, a, keep, its, con, kn, con2, t2 = r.value
                good += 1
                c.analysed(*r.ip.inlined)
                if how == "raise": c.fail("removal", what + ": possible", "raises %s" % v, fi.where); continue
                c.check(len(its) == len(keep) and all(x is y for x, y in zip(its, keep)), "removal", what + ": the other elements stay", "%s" % [e.attrs.get("part_id") for e in its], fi.where)
                c.check(con is None, "removal", what + ": names and numbers map one-to-one", con, fi.where)
                c.check(kn is None, "removal", what + ": terminals are known nodes", kn, fi.where)
                used = set(onodes[:-1] + (["0"] if share != ok - 1 else [onodes[-1]])) | {"a", "0"}
                names = set(x for x in a if isinstance(x, str))
                c.check(not (used - names), "removal", what + ": nodes in use stay", "%s is gone" % sorted(used - names), fi.where)
                c.check(not (names - used), "removal", what + ": nodes no longer in use go", "%s is left" % sorted(names - used), fi.where)
                c.check(con2 is None and all(x in t2 for x in ("new1", "new2", "new3")), "removal", what + ": nodes added afterwards get numbers of their own", con2 or "a node is missing", fi.where)
            if not good and not any(r.outcome == "unsupported" for r in runs): c.fail("removal", what + ": possible", "every path fails", fi.where)

def removal_numbers(c, prog):
    fi = prog.func("circuit.Circuit.remove_elem")
    def fn(ip):
        o = start(prog, ip)
        add(ip, o, "resistor", "R1", ["0", "a"]); add(ip, o, "resistor", "R2", ["a", "b"]); add(ip, o, "resistor", "R3", ["a", "c"]); add(ip, o, "resistor", "R4", ["c", "0"])
        call(ip, o, "remove_elem", "R2")
        return table(o)
    for r in done(c, "removal", "node numbers after a removal", go(prog, fn), fi.where):
        m = contiguous(r.value)
        c.check(m is None, "removal", "remove_elem: node numbers stay 0 to N-1", m, fi.where)

def removal_forms(c, prog):
    fi = prog.func("circuit.Circuit.remove_elem")
    for kind in sorted(KINDS):
        def fn(ip):
            o = start(prog, ip)
            models(prog, ip, o)
            add(ip, o, "resistor", "R1", ["a", "b"])
            add(ip, o, kind, KINDS[kind][1] + "x", ["a", "0", "0", "b"][:ARITY[kind]])
            call(ip, o, "remove_elem", KINDS[kind][1] + "x")
            return table(o)
        for r in done(c, "removal", "grounded " + kind, go(prog, fn), fi.where):
            c.check(r.value.get("0") == 0 and consistent(r.value) is None and set(r.value) == {"a", "b", "0", r.value["a"], r.value["b"], 0}, "removal", "%s: ground stays" % kind, str(r.value), fi.where)
    for form in ("name", "lower-case name", "upper-case name", "element"):
        def fn(ip):
            o = start(prog, ip)
            for i in (1, 2, 3): add(ip, o, "resistor", "Rx%d" % i, ["a", "0"])
            e = items(o)[1]
            call(ip, o, "remove_elem", {"name": "Rx2", "lower-case name": "rx2", "upper-case name": "RX2", "element": e}[form])
            return [x.attrs["part_id"] for x in items(o)], table(o)
        for r in done(c, "removal", "by " + form, go(prog, fn), fi.where):
            c.check(r.value[0] == ["Rx1", "Rx3"] and set(r.value[1]) == {"a", "0", 0, 1}, "removal", "by " + form, "%s are left" % (r.value[0],), fi.where)
    def fn(ip):
        o = start(prog, ip)
        add(ip, o, "resistor", "R1", ["a", "0"])
        b = table(o)
        how = attempt(ip, lambda: call(ip, o, "remove_elem", "R9"))
        return how, b == table(o), len(items(o))
    for r in done(c, "removal", "of an unknown name", go(prog, fn), fi.where):
        c.check(r.value == (("raise", "ValueError"), True, 1), "removal", "an unknown name is refused", str(r.value), fi.where)
    for order in (("K1",), ("R1", "K1"), ("R1",), ("K1", "K2"), ("K2",)):
        def fn(ip):
            o = start(prog, ip)
            for p, x in (("L1", "a"), ("L2", "b"), ("L3", "c")): add(ip, o, "inductor", p, [x, "0"])
            add(ip, o, "resistor", "R1", ["a", "b"])
            call(ip, o, "add_inductor_coupling", "K1", "L1", "L2", sym("k1"))
            call(ip, o, "add_inductor_coupling", "K2", "L1", "L3", sym("k2"))
            for x in order: call(ip, o, "remove_elem", x)
            left = {e.attrs["part_id"]: e for e in items(o)}
            return {p: sorted(d.attrs["part_id"] for d in left[p].attrs["coupling_devices"].items) for p in ("L1", "L2", "L3")}, sorted(left)
        want = {"L1": ["K1", "K2"], "L2": ["K1"], "L3": ["K2"]}
        want = {k: [x for x in v if x not in order] for k, v in want.items()}
        for r in done(c, "removal", "couplings", go(prog, fn), fi.where):
            c.check(r.value[0] == want, "removal", "couplings known to the inductors after removing %s" % ", ".join(order), str(r.value[0]), fi.where)

# ---------------------------------------------------------------------------------- D. lookups
VDE = {"vsource", "vcvs", "ccvs", "inductor"}

def everything(prog, ip):
    o = start(prog, ip)
    models(prog, ip, o)
    order = ["resistor", "vsource", "diode", "inductor", "isource", "vcvs", "capacitor", "vccs", "ccvs", "mos (ekv)", "cccs", "inductor", "switch", "mos (mosq)", "vsource"]
    pids = []
    for i, k in enumerate(order):
        pid = "%sx%d" % (KINDS[k][1], i)
        add(ip, o, k, pid, ["a", "b", "c", "0"][:ARITY[k]])
        pids.append((pid, k))
    call(ip, o, "add_inductor_coupling", "Kx", "Lx3", "Lx11", sym("k"))
    return o, pids

def lookups(c, prog):
    where = prog.func("circuit.Circuit.get_elem_by_name").where
    def fn(ip):
        o, pids = everything(prog, ip)
        out = []
        its = items(o)
        n = int(val(call(ip, o, "get_nodes_number")))
        vde = 0
        for (pid, k), e in zip(pids, its):
            for form, q in (("as given", pid), ("lower case", pid.lower()), ("upper case", pid.upper())):
                h = attempt(ip, lambda: call(ip, o, "get_elem_by_name", q))
                out.append(("get_elem_by_name, %s, %s" % (k, form), h[0] == "ok" and h[1] is e, "%s %s" % (h[0], getattr(h[1], "attrs", {}).get("part_id", h[1]))))
                h = attempt(ip, lambda: call(ip, o, "find_vde_index", q))
                if k in VDE: out.append(("find_vde_index, %s, %s" % (pid, form), h[0] == "ok" and val(h[1]) == vde, "%s %s instead of %d" % (h[0], val(h[1]), vde)))
                else: out.append(("find_vde_index, %s, %s" % (k, form), h[0] == "raise", "%s has index %s, it has no current of its own" % (k, val(h[1]))))
            h = attempt(ip, lambda: call(ip, o, "find_vde_index", e))
            if k in VDE:
                out.append(("find_vde_index, %s, the element" % pid, h[0] == "ok" and val(h[1]) == vde, "%s %s instead of %d" % (h[0], val(h[1]), vde)))
                h = attempt(ip, lambda: call(ip, o, "find_vde", num(n - 1 + vde)))
                out.append(("find_vde, %s" % pid, h[0] == "ok" and h[1] is e, "%s %s" % (h[0], getattr(h[1], "attrs", {}).get("part_id", h[1]))))
                vde += 1
        h = attempt(ip, lambda: call(ip, o, "find_vde", num(n - 1 + vde)))
        out.append(("find_vde beyond the last one", h[0] == "raise", "%s %s" % (h[0], getattr(h[1], "attrs", {}).get("part_id", h[1]))))
        h = attempt(ip, lambda: call(ip, o, "get_elem_by_name", "nosuch"))
        out.append(("get_elem_by_name, unknown name", h == ("raise", "ValueError"), str(h)))
        h = attempt(ip, lambda: call(ip, o, "find_vde_index", "nosuch"))
        out.append(("find_vde_index, unknown name", h == ("raise", "ValueError"), str(h)))
        return out
    runs = [r for r in done(c, "lookup", "lookups", go(prog, fn, 60), where)]
    for r in runs:
        c.analysed(*r.ip.inlined)
        for what, ok, msg in r.value: c.check(ok, "lookup", what, msg, where)
    # names that differ only in case are duplicates everywhere
    where = prog.func("circuit.Circuit.has_duplicate_elem").where
    for what, pids, dup in (("different names", ("R1", "R2", "R11", "RA"), False), ("the same name twice", ("R1", "R2", "R1"), True), ("names that differ in case", ("Ra", "R2", "RA"), True), ("names that differ in case of the first letter", ("ra", "Rb", "Ra"), True)):
        def fn(ip):
            o = start(prog, ip)
            for p in pids: add(ip, o, "resistor", p, ["a", "0"])
            v = call(ip, o, "has_duplicate_elem")
            return ip.truth(v) if not isinstance(v, bool) else v
        for r in done(c, "lookup", "duplicates", go(prog, fn), where):
            c.check(r.value is dup, "lookup", "has_duplicate_elem: %s" % what, "says %s" % r.value, where)
    where = prog.func("circuit.Circuit.add_inductor_coupling").where
    for l1, l2 in (("La", "Lb"), ("la", "lb"), ("LA", "LB"), ("LB", "la")):
        def fn(ip):
            o = start(prog, ip)
            add(ip, o, "inductor", "La", ["a", "0"]); add(ip, o, "resistor", "Rl", ["a", "b"]); add(ip, o, "inductor", "Lb", ["b", "0"])
            h = attempt(ip, lambda: call(ip, o, "add_inductor_coupling", "K1", l1, l2, sym("k")))
            its = items(o)
            k = its[-1]
            return h, k.attrs.get("part_id"), [any(x is k for x in e.attrs["coupling_devices"].items) for e in (its[0], its[2])]
        for r in done(c, "lookup", "coupled inductors", go(prog, fn), where):
            c.check(r.value[0][0] == "ok" and r.value[1] == "K1" and r.value[2] == [True, True], "lookup", "inductors La and Lb coupled as %s and %s" % (l1, l2), "%s, known to the inductors: %s" % (r.value[0], r.value[2]), where)

def run(c, prog):
    c.rule("node table", "after any short sequence of node operations names and numbers map one-to-one, numbers are 0 to N-1 with ground as 0, nodes keep their number", 10)
    c.rule("addition", "an accepted element is appended once, wired to the nodes given, which are in the table", 300)
    c.rule("rejection", "a refused addition leaves nodes and elements as they were", 50)
    c.rule("removal", "removing an element takes away exactly it and the nodes nobody else uses; the table stays one-to-one", 500)
    c.rule("lookup", "lookups by name ignore case and find the element; indices of voltage-defined elements count those before; duplicates ignore case", 80)
    c.guard("node table", node_table, c, prog)
    c.guard("node types", node_types, c, prog)
    c.guard("node names", node_names, c, prog)
    for k in sorted(KINDS):
        c.guard("addition " + k, additions, c, prog, k)
        c.guard("rejection " + k, rejections, c, prog, k)
        c.guard("removal " + k, removal, c, prog, k)
    c.guard("coupling rejections", coupling_rejections, c, prog)
    c.guard("removal numbers", removal_numbers, c, prog)
    c.guard("removal forms", removal_forms, c, prog)
    c.guard("lookups", lookups, c, prog)
