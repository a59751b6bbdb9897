"""C14: each command-line option sets the setting it documents, and nothing else."""
import ast
from fractions import Fraction
from .. import terms as T
from ..interp import *
from ..parsing import go, show
from ..program import dotted
from ..terms import sym, atom, num, Poly

N = ast.Pass(lineno=0)
# documented switches: spellings -> (setting, kind)
SWITCHES = {
 ("-v", "--verbose"): (":verbose", "int"), ("-p", "--print"): ("ahkab._print", "flag"), ("-o", "--outfile"): (":outfile", "str"),
 ("--dc-guess",): ("options.dc_use_guess", "guess"), ("-t", "--tran-method"): ("options.default_tran_method", "method"),
 ("--t-fixed-step",): ("options.transient_no_step_control", "flag"),
 ("--v-absolute-tolerance",): ("options.vea", "float"), ("--v-relative-tolerance",): ("options.ver", "float"),
 ("--i-absolute-tolerance",): ("options.iea", "float"), ("--i-relative-tolerance",): ("options.ier", "float"),
 ("--h-min",): ("options.hmin", "float"), ("--dc-max-nr",): ("options.dc_max_nr_iter", "int"), ("--t-max-nr",): ("options.transient_max_nr_iter", "int"),
 ("--t-max-time",): ("options.transient_max_time_iter", "int"), ("--s-max-nr",): ("options.shooting_max_nr_iter", "int"),
 ("--gmin",): ("options.gmin", "float"), ("--cmin",): ("options.cmin", "float"),
}
METHODS = ["implicit_euler", "trap", "gear2", "gear3", "gear4", "gear5", "gear6"]
SETTINGS = sorted(s.split(".")[1] for s, k in SWITCHES.values() if s.startswith("options."))
# where each setting has to be looked at while an analysis runs
CONSUMERS = {"vea": ["utilities"], "ver": ["utilities"], "iea": ["utilities"], "ier": ["utilities"], "hmin": ["transient"], "dc_max_nr_iter": ["dc_analysis"],
             "transient_max_nr_iter": ["transient"], "transient_max_time_iter": ["transient"], "shooting_max_nr_iter": ["shooting"], "gmin": ["dc_analysis", "transient", "ac"],
             "cmin": ["transient", "ac"], "dc_use_guess": ["dc_analysis"], "default_tran_method": ["transient"], "transient_no_step_control": ["transient"]}
ZERO_DISABLES = ["transient_max_time_iter", "shooting_max_nr_iter"]

def run(c, prog):
    c.rule("switch", "giving a documented command-line switch sets exactly the documented setting, converted; everything else keeps its default", 60)
    c.rule("files", "the given netlist, output file and verbosity are the ones used by the simulation and its analyses", 12)
    c.rule("in force", "the settings are read when the analyses run, not when the modules are imported; the analyses consult them", 20)
    c.rule("limit", "an iteration limit set to zero is no limit", 2)
    c.guard("switches", switches, c, prog)
    c.guard("main", main, c, prog)
    c.guard("in force", in_force, c, prog)
    c.guard("guess", guess, c, prog)
    for s in ZERO_DISABLES: c.guard(s, limit, c, prog, s)

def literal(prog, mod, name):
    """the default value of a setting"""
    m = prog.modules["ahkab." + mod]
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            try: v = ast.literal_eval(st.value)
            except ValueError: return None
            return P(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
    return None

# ---------------------------------------------------------------------------------- optparse
class Cli(object):
    """stands for the option parser: given maps a switch to its argument (or None for a flag)"""
    def __init__(self, given, rest):
        self.given, self.rest, self.known, self.unknown = given, rest, [], set(given)
    def make(self, ip, a, k, n, name=None):
        ip.cli = Obj(None, "optionparser", {}, opaque=True)
        return ip.cli
    def add(self, ip, a, k, n, name=None):
        names = [x for x in a if isinstance(x, str) and x]
        dest = k.get("dest")
        if dest is None: dest = ([x for x in names if x.startswith("--")] + names)[0].lstrip("-").replace("-", "_")
        self.known.append((names, dest, k.get("action", "store"), k.get("type", "string"), k.get("default")))
        return None
    def defaults(self, ip, a, k, n, name=None):
        for d, v in k.items():
            self.known = [(x, y, z, t, v if y == d else w) for x, y, z, t, w in self.known]
        return None
    def parse(self, ip, a, k, n, name=None):
        vals = {}
        for names, dest, action, typ, default in self.known: vals.setdefault(dest, default)
        for names, dest, action, typ, default in self.known:
            for s in names:
                if s in self.given:
                    self.unknown.discard(s)
                    v = self.given[s]
                    if action == "store_true": v = True
                    elif action == "store_false": v = False
                    elif action != "store": raise Unsupported("option action %s" % (action,))
                    elif typ in ("float", "int", "long"):
                        try: v = P(float(v)) if typ == "float" else num(int(v, 0))
                        except ValueError: raise RaiseSig("SystemExit", ip.where(n), "not a number")
                    elif typ == "choice" or typ == "string" or not isinstance(typ, str): pass
                    vals[dest] = v
        if self.unknown: raise RaiseSig("SystemExit", ip.where(n), "no such option")
        o = Obj(None, "values", vals)
        return (o, ip.new_list(list(self.rest), N))

def cli_run(prog, given, rest=("net.cir",)):
    fi = prog.func("__main__._cli")
    out = []
    def make(script):
        cli = Cli(given, rest)
        def started(ip, a, k, n):
            ip.started = (list(a), dict(k), len(ip.events))
            return PDict()
        summ = {"optparse.OptionParser": cli.make, "ahkab.main": started,
                "utilities.check_file": lambda ip, a, k, n: True}
        def hook(ip, b, name, a, k, n):
            if b is not getattr(ip, "cli", 0): return NotImplemented
            return {"add_option": cli.add, "set_defaults": cli.defaults, "parse_args": cli.parse}.get(name, lambda *x: None)(ip, a, k, n)
        return Interp(prog, script, opts={"distinct": False, "notnone": lambda a: True, "unroll": 30, "meth_hook": hook}, summaries=summ, budget=100000)
    return fi, explore(make, lambda ip: ip.call_function(fi, []), 16)

def settings(r, upto):
    """what the run assigned, before the simulation starts"""
    out = {}
    for e in r.ip.events[:upto]:
        if e[0] == "globalwrite": out["%s.%s" % (e[1].replace("ahkab.", "", 1), e[2])] = e[3]
    return out

def main_args(prog, r):
    a, k, n = r.ip.started
    ps = prog.func("ahkab.main").params()
    d = dict(zip(ps, a)); d.update(k)
    return d

def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, Poly) and a.const() is not None: a = bool(a.const()) if a.const() in (0, 1) else a
        return a is b
    if isinstance(a, Poly) and isinstance(b, Poly): return a == b
    return type(a) == type(b) and a == b

def same_default(prog, name, v):
    mod, nm = name.split(".")
    d = literal(prog, mod, nm)
    if isinstance(v, Poly) and v.atom() and v.atom()[0] == "glob" and v.atom()[1] == "ahkab." + name: return True
    if isinstance(d, str) and isinstance(v, str): return d.upper() == v.upper()
    return d is not None and eq(d, v)

def switches(c, prog):
    scenarios = [("no switch", {}, {}, None)]
    for names, (setting, kind) in sorted(SWITCHES.items()):
        for s in names:
            if kind == "float": cases = [("0.03125", P(0.03125)), ("5e-3", P(5e-3)), ("0", num(0)), ("2", num(2))]
            elif kind == "int": cases = [("31", num(31)), ("0", num(0))] if setting != ":verbose" else [("0", num(0)), ("5", num(5))]
            elif kind == "flag": cases = [(None, True)]
            elif kind == "str": cases = [("some/Out", "some/Out")]
            elif kind == "guess": cases = [("none", False), ("guess", True)]
            elif kind == "method": cases = [(m, m.upper()) for m in METHODS]
            for text, v in cases: scenarios.append(("%s%s" % (s, "" if text is None else " " + text), {s: text}, {setting: v}, None))
            if kind == "int" and setting != ":verbose": scenarios.append(("%s 31.75" % s, {s: "31.75"}, {setting: "integral"}, "may fail"))
    for what, given, exp, may_fail in scenarios:
        fi, runs = cli_run(prog, given)
        seen = False
        for r in runs:
            c.analysed(*r.ip.inlined)
            if r.outcome == "unsupported": c.undecided("switch", what, r.error); continue
            if not hasattr(r.ip, "started"):
                if may_fail: seen = True; continue
                c.fail("switch", what, "the simulation is not started: %s" % r.error, fi.where); seen = True
                continue
            seen = True
            got = settings(r, r.ip.started[2])
            late = set(settings(r, len(r.ip.events))) - set(got)
            args = main_args(prog, r)
            for setting, v in exp.items():
                if setting.startswith(":"): g = args.get(setting[1:])
                else: g = got.get(setting, "unset (assigned too late)" if setting in late else None)
                if g is None and not setting.startswith(":"):
                    # not assigned: fine if the requested value is the default one
                    ok = v != "integral" and same_default(prog, setting, v)
                    g = "left alone"
                elif v == "integral": ok = isinstance(g, Poly) and g.const() is not None and g.const().denominator == 1
                elif isinstance(v, str) and setting.endswith("default_tran_method"): ok = isinstance(g, str) and g == v
                else: ok = eq(v, g)
                c.check(ok, "switch", "%s: %s" % (what, setting.lstrip(":")), "is %s, documented %s" % (show(g), show(v)), fi.where)
            others = [k for k in sorted(got) if k not in exp and k != "options.cli" and not same_default(prog, k, got[k])]
            for k in others: c.fail("switch", "%s: leaves %s alone" % (what, k), "it becomes %s" % show(got[k]), fi.where)
            if not others: c.check(True, "switch", "%s: nothing else" % what, "", fi.where)
            if ":outfile" not in exp: c.check(args.get("outfile", "stdout") == "stdout", "switch", "%s: results on the standard output by default" % what, show(args.get("outfile")), fi.where)
            if ":verbose" not in exp: c.check(eq(args.get("verbose", num(3)), num(3)), "switch", "%s: verbosity 3 by default" % what, show(args.get("verbose")), fi.where)
            c.check(args.get("filename") == "net.cir", "files", "%s: the netlist given is simulated" % what, show(args.get("filename")), fi.where)
            c.check(eq(got.get("options.cli"), True), "switch", "%s: command-line mode" % what, show(got.get("options.cli")), fi.where)
        if not seen: c.undecided("switch", what, "no path")
    fi, runs = cli_run(prog, {}, ("-",))
    for r in runs:
        if r.outcome == "unsupported": c.undecided("files", "stdin", r.error); continue
        ok = hasattr(r.ip, "started") and main_args(prog, r).get("filename") in ("-", None)
        c.check(ok, "files", "a dash means the standard input", r.error or "", fi.where)
    for rest in ((), ("a.cir", "b.cir")):
        fi, runs = cli_run(prog, {}, rest)
        for r in runs:
            if r.outcome == "unsupported": c.undecided("files", "%d files" % len(rest), r.error); continue
            c.check(not hasattr(r.ip, "started"), "files", "%d netlists are refused" % len(rest), "the simulation starts", fi.where)

# ---------------------------------------------------------------------------------- main
def main(c, prog):
    fi = prog.func("ahkab.main")
    for outfile in ("stdout", "Some/Out"):
        for an_kw, what in (({}, "unset"), ({"outfile": None, "verbose": None}, "None")):
            for fname in ("net.cir", "-", None):
                def make(script):
                    def parse(ip, a, k, n):
                        ps = prog.func("netlist_parser.parse_circuit").params()
                        d = dict(zip(ps, a)); d.update(k)
                        ip.parsed = d
                        return (Obj(prog.cls("circuit.Circuit"), "circ", {"title": "T", "__items__": ip.new_list([], N), "models": PDict()}, opaque=True), ip.new_list([], N), ip.new_list([], N))
                    def analyses(ip, a, k, n):
                        out = []
                        for t in ("op", "tran"):
                            d = PDict()
                            for kk, v in list(an_kw.items()) + [("type", t)]: d.items[kk] = v; d.keyvals[kk] = kk
                            out.append(d)
                        return ip.new_list(out, N)
                    def run_(ip, a, k, n):
                        ip.ran = getattr(ip, "ran", [])
                        x = a[1] if len(a) > 1 else k.get("an_list")
                        for d in (x.items if isinstance(x, PList) else [x]): ip.ran.append(dict(d.items))
                        r = PDict()
                        r.items["op"] = sym("result"); r.keyvals["op"] = "op"
                        return r
                    def postlist(ip, a, k, n): return ip.new_list([PDict()], N)
                    def post(ip, a, k, n):
                        ps = prog.func("ahkab.process_postproc").params()
                        d = dict(zip(ps, a)); d.update(k)
                        ip.post = d
                        return None
                    summ = {"netlist_parser.parse_circuit": parse, "netlist_parser.parse_analysis": analyses, "ahkab.run": run_, "netlist_parser.parse_postproc": postlist, "ahkab.process_postproc": post,
                            "utilities.check_circuit": lambda ip, a, k, n: (True, ""), "netlist_parser.parse_ics": lambda ip, a, k, n: ip.new_list([], N), "ahkab._handle_netlist_ics": lambda ip, a, k, n: None,
                            "printing.print_info_line": lambda ip, a, k, n: None, "printing.print_analysis": lambda ip, a, k, n: None}
                    return Interp(prog, script, opts={"distinct": False, "notnone": lambda a: True, "unroll": 30, "text": lambda ip, s, x: show(x)}, summaries=summ, budget=100000)
                label = "%s to %s, analysis fields %s" % (fname, outfile, what)
                for r in explore(make, lambda ip: ip.call_function(fi, [], {"filename": fname, "outfile": outfile, "verbose": num(5)}), 24):
                    c.analysed(*r.ip.inlined)
                    if r.outcome == "unsupported": c.undecided("files", label, r.error); continue
                    ip = r.ip
                    if not c.check(r.outcome == "return", "files", "%s: runs" % label, str(r.error), fi.where): continue
                    d = getattr(ip, "parsed", {})
                    stdin = fname in ("-", None)
                    c.check(d.get("filename") == fname and bool(d.get("read_netlist_from_stdin", False)) == stdin, "files", "%s: the netlist is read from there" % label, "reads %s, standard input: %s" % (d.get("filename"), show(d.get("read_netlist_from_stdin", False))), fi.where)
                    ran = getattr(ip, "ran", [])
                    c.check([x.get("type") for x in ran] == ["op", "tran"], "files", "%s: every analysis is run, in order" % label, show([x.get("type") for x in ran]), fi.where)
                    for x in ran:
                        w = "stdout" if outfile == "stdout" else outfile + "." + str(x.get("type"))
                        c.check(x.get("outfile") == w, "files", "%s: output of the %s analysis" % (label, x.get("type")), "goes to %s instead of %s" % (show(x.get("outfile")), w), fi.where)
                        c.check(eq(x.get("verbose"), num(5)), "files", "%s: verbosity of the %s analysis" % (label, x.get("type")), show(x.get("verbose")), fi.where)
                    p = getattr(ip, "post", None)
                    c.check(p is not None and outfile in p.values(), "files", "%s: output of the post-processing" % label, "not done" if p is None else "goes to %s" % show(p.get("outfilename")), fi.where)

# ---------------------------------------------------------------------------------- settings in force
def function_nodes(m):
    """(node, name, body nodes) of the functions; and the nodes evaluated at import"""
    fns, imp = [], []
    def walk(n, fn):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                a = ch.args
                for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None] + (list(ch.decorator_list) if not isinstance(ch, ast.Lambda) else []):
                    (fns if fn else imp).append((d, fn)); walk_expr(d, fn)
                for b in (ch.body if isinstance(ch.body, list) else [ch.body]):
                    fns.append((b, getattr(ch, "name", "lambda"))); walk_expr(b, getattr(ch, "name", "lambda"))
            else:
                (fns if fn else imp).append((ch, fn))
                walk(ch, fn)
    def walk_expr(n, fn): walk(n, fn)
    walk(m.tree, None)
    return fns, imp

def option_read(prog, m, n):
    """name of the setting a node reads"""
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
        r = prog.lookup(m, n.value.id)
        if r is not None and isinstance(r, tuple) and r[0] == "mod" and r[1] == "ahkab.options": return n.attr
        if r is None and n.value.id == "options": return n.attr
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and dotted(n) and dotted(n).startswith("ahkab.options."): return n.attr
    return None

def in_force(c, prog):
    reads = {s: {} for s in SETTINGS}
    for mn, m in sorted(prog.modules.items()):
        if mn in ("ahkab.options", "ahkab.__main__") or ".testing" in mn: continue
        fns, imp = function_nodes(m)
        for n, fn in fns:
            s = option_read(prog, m, n)
            if s in reads: reads[s].setdefault(mn, []).append((fn, n.lineno))
        for n, fn in imp:
            s = option_read(prog, m, n)
            if s in reads:
                if s == "dc_use_guess": continue      # a proposed default: op_analysis has the last word (rule below)
                c.fail("in force", "%s is not captured at import in %s" % (s, mn), "line %d keeps the value the setting has when the module is loaded" % n.lineno, "%s:%d" % (m.rel, n.lineno))
            if isinstance(n, ast.ImportFrom) and (n.module or "").split(".")[-1] == "options":
                for al in n.names:
                    if al.name in reads or al.name == "*":
                        c.fail("in force", "%s is not copied into %s" % (al.name, mn), "line %d binds a copy" % n.lineno, "%s:%d" % (m.rel, n.lineno))
    for s in SETTINGS:
        for w in CONSUMERS[s]:
            c.check("ahkab." + w in reads[s], "in force", "%s consults %s" % (w, s), "no function of the module reads options.%s" % s, prog.modules["ahkab." + w].rel)
        c.check(True, "in force", "%s: %d reads while running" % (s, sum(len(v) for v in reads[s].values())), "", "")

def guess(c, prog):
    """with the starting guess disabled no guess is computed, whatever the analysis asks for"""
    fi = prog.func("dc_analysis.op_analysis")
    for enabled in (True, False):
        for asked in (True, False):
            def make(script):
                def g(ip, a, k, n): ip.guessed = True; return atom("guess")
                def solve(ip, a, k, n):
                    raise RaiseSig("Reached", ip.where(n))
                summ = {"dc_guess.get_dc_guess": g, "dc_analysis.dc_solve": solve, "dc_analysis.generate_mna_and_N": lambda ip, a, k, n: (atom("mna"), atom("N")),
                        "utilities.remove_row_and_col": lambda ip, a, k, n: atom("mna_r"), "utilities.remove_row": lambda ip, a, k, n: atom("N_r"), "dc_analysis.build_gmin_matrix": lambda ip, a, k, n: atom("G"),
                        "printing.print_info_line": lambda ip, a, k, n: None}
                return Interp(prog, script, opts={"globals": {"ahkab.options.dc_use_guess": enabled}, "distinct": False, "notnone": lambda a: True}, summaries=summ, budget=60000)
            for r in explore(make, lambda ip: ip.call_function(fi, [], {"circ": Obj(prog.cls("circuit.Circuit"), "circ", {}, opaque=True), "x0": None, "guess": asked, "outfile": "f", "verbose": num(0)}), 16):
                c.analysed(*r.ip.inlined)
                what = "guess %s, analysis asks %s" % ("enabled" if enabled else "disabled", asked)
                if r.outcome == "unsupported" or (r.outcome == "raise" and r.error.name != "Reached"): c.undecided("in force", what, str(r.error)); continue
                did = getattr(r.ip, "guessed", False)
                c.check(did == (enabled and asked), "in force", what, "a guess is %scomputed" % ("" if did else "not "), fi.where)

# ---------------------------------------------------------------------------------- limits
def fold(prog, m, n, setting):
    """truth of a test when the setting is 0: True, False or None"""
    def val(x):
        if option_read(prog, m, x) == setting: return 0
        if isinstance(x, ast.Constant): return x.value
        raise KeyError
    if isinstance(n, ast.BoolOp):
        vs = [fold(prog, m, x, setting) for x in n.values]
        if isinstance(n.op, ast.And): return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        v = fold(prog, m, n.operand, setting)
        return None if v is None else not v
    try:
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = val(n.left), val(n.comparators[0])
            f = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}.get(type(n.ops[0]))
            return None if f is None else bool(f())
        return bool(val(n))
    except (KeyError, TypeError): return None

def leaves(st):
    """a statement that ends the loop or the function"""
    return any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in ast.walk(st))

def limit(c, prog, setting):
    found = 0
    for mn, m in sorted(prog.modules.items()):
        if mn in ("ahkab.options", "ahkab.__main__") or ".testing" in mn: continue
        for fn in [x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)]:
            for st in ast.walk(fn):
                if isinstance(st, ast.If) and any(option_read(prog, m, x) == setting for x in ast.walk(st.test)):
                    where = "%s:%d" % (m.rel, st.lineno)
                    v = fold(prog, m, st.test, setting)
                    stops, goes = any(leaves(x) for x in st.body), any(leaves(x) for x in st.orelse)
                    if not stops and not goes: continue
                    found += 1
                    # a guard around the real test: judged where the test is
                    c.check(not (stops and v is not False) and not (goes and v is not True), "limit", "%s = 0 never stops %s" % (setting, fn.name), "with the limit at 0 the test can still end the iterations", where)
                elif isinstance(st, ast.While) and any(option_read(prog, m, x) == setting for x in ast.walk(st.test)):
                    found += 1
                    v = fold(prog, m, st.test, setting)
                    c.check(v is not False, "limit", "%s = 0 never stops %s" % (setting, fn.name), "with the limit at 0 the loop is not entered", "%s:%d" % (m.rel, st.lineno))
    if not found: c.undecided("limit", setting, "no test of the limit found")
