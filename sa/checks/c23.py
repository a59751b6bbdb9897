"""C23: files and print settings are released on every way out."""
from ..resources import Engine, Undecided

def run(c, prog):
    c.rule("files", "a file opened by a function is closed on every way out of it, or handed to its caller", 10)
    c.rule("settings", "changed print settings are put back on every way out", 1)
    c.rule("standard", "the standard streams are not closed", 5)
    bad = {}
    def report(kind, what, fi, how): bad.setdefault((kind, fi.qualname, what), set()).add(how)
    eng = Engine(prog, report)
    roots = eng.roots()
    und = {}
    for fi in roots:
        def one(fi=fi):
            try: n = eng.analyse(fi)
            except Undecided as x: und[fi.qualname] = str(x); return
            c.analysed(fi)
        c.guard("files", one)
    for fi in roots:
        q = fi.qualname
        for kind, msg in (("files", "left open"), ("settings", "left changed"), ("standard", "closed")):
            mine = [(k, v) for k, v in bad.items() if k[0] == kind and k[1] == q]
            for k, v in mine: c.fail(kind, "%s: %s" % (short(q), short(k[2])), "%s: %s %s %s" % (short(q), short(k[2]), msg, " and ".join(sorted(v))), fi.where)
            if mine: continue
            if q in und: c.undecided(kind, short(q), und[q])
            elif kind != "settings" or any(s[0] == q and "printoptions" in s[1] for s in eng.sites): c.ok(kind, short(q))
    # reports in helpers that were walked as part of their callers
    for (kind, q, what), v in sorted(bad.items(), key=repr):
        if q not in {f.qualname for f in roots}: c.fail(kind, "%s: %s" % (short(q), short(what)), "%s: %s %s" % (short(q), short(what), " and ".join(sorted(v))), "")

def short(q): return q.replace("ahkab.", "", 1)
