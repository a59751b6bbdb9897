"""C11: whatever is wrong with a netlist is reported as a netlist parse error."""
import ast, re
from ..excflow import Flow
from ..interp import *
from ..interp import walk_own
from ..malformed import LINES, OTHERS, wrong
from ..parsing import go, value
from .c15 import parse_file, file_hook

NUMBER = re.compile(r"^[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?(meg|[tgkmunpf])?$", re.I)
ENTRIES = ("parse_circuit", "parse_ics", "parse_analysis", "parse_postproc")
OK = "NetlistParseError"

def run(c, prog):
    c.rule("escape", "no exception other than the netlist parse error leaves an entry point of the parser, from any source reachable from it", 80)
    c.rule("accounted", "the parse error is raised by the parser (the analysis sees the raises it is about)", 20)
    c.rule("line", "interpreted on a line of each kind with a field missing, surplus or of another form, with arbitrary numbers, the parser returns or raises the netlist parse error on every path", 900)
    c.guard("escape", escape, c, prog)
    c.guard("lines", lines, c, prog)

def escape(c, prog):
    flow = Flow(prog)
    total = 0
    for e in ENTRIES:
        fi = prog.func("netlist_parser." + e)
        n0 = flow.nsites
        out = flow.escapes(fi)
        bad = [x for x in out if OK not in flow.mro(x.name)]
        for x in bad: c.fail("escape", "%s lets %s through (%s)" % (e, x.name, x.origin), "origin at %s" % x.where, fi.where)
        for i in range(flow.nsites - n0 - len(bad)): c.ok("escape", "%s: site" % e)
        c.analysed(fi)
    n = 0
    for q, ex in flow.memo.items():
        c.analysed(q)
        for x in ex:
            if x.name == OK: c.ok("accounted", x.origin)

def lines(c, prog):
    flow = Flow(prog)
    for kind in sorted(LINES):
        around, line = LINES[kind]
        for what, text in wrong(line): one(c, prog, flow, kind, what, list(around) + [text])
    for what in sorted(OTHERS): one(c, prog, flow, "netlist", what, OTHERS[what])

def one(c, prog, flow, kind, what, text):
    cu = prog.func("netlist_parser.convert_units")
    lab = "%s%s" % (kind, ": " + what if what else "")
    def fn(ip):
        def number(ip, args, kw, n):
            """a well-formed number is an arbitrary one; for any other text the conversion of the parser is interpreted"""
            x = args[0] if args else list(kw.values())[0]
            if isinstance(x, str) and NUMBER.match(x): return value(x)
            return ip.call_function(cu, [x])
        ip.summaries["netlist_parser.convert_units"] = number
        ip.summaries.pop("circuit._circuit_wrapper.add_node", None)
        ip.opts["meth_hook"] = file_hook
        out = parse_file(prog, ip, {"main.ckt": ["title"] + text})
        n = ast.Pass(lineno=0)
        circ, directives, post = out
        ip.call_function(prog.func("netlist_parser.parse_ics"), [directives])
        ip.call_function(prog.func("netlist_parser.parse_analysis"), [circ, directives])
        ip.call_function(prog.func("netlist_parser.parse_postproc"), [circ, post])
        return None
    for r in go(prog, fn, 16, options={"raise_args": True}):
        if r.outcome == "unsupported": c.undecided("line", lab, r.error); continue
        if r.outcome == "return": c.ok("line", lab); continue
        good = OK in flow.mro(r.error.name)
        c.check(good, "line", lab if good else "%s ends in %s" % (lab, r.error.name), "%r ends in %s" % (text[-1], r.error), prog.func("netlist_parser.parse_circuit").where)
        for q in r.ip.inlined: c.analysed(q)
