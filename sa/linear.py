"""Linear consequences of the comparisons made along a path (Fourier-Motzkin elimination over exact rationals)."""
from fractions import Fraction
from . import terms as T
from .terms import Poly

class Facts(object):
    """constraints p <= 0 (strict: p < 0)"""
    def __init__(self, cons=()): self.cons = list(cons)
    def lt(self, p): self.cons.append((p, True)); return self
    def le(self, p): self.cons.append((p, False)); return self
    def eq(self, p): self.le(p); self.le(-p); return self

    @staticmethod
    def of(trace):
        f = Facts()
        for k, v in trace:
            if not isinstance(k, tuple) or len(k) < 2 or not isinstance(k[1], Poly): continue
            p = k[1]
            if k[0] == "lt0": f.lt(p) if v else f.le(-p)
            elif k[0] == "gt0": f.lt(-p) if v else f.le(p)
            elif k[0] == "eq0" and v: f.eq(p)
        return f

    def times(self, factors):
        """also multiplied by quantities known to be positive"""
        out = list(self.cons)
        for p, s in self.cons:
            for q in factors: out.append((p * q, s))
        return Facts(out)

    def infeasible(self, extra, limit=4000):
        names = {(): 0}
        def lin(p): return {names.setdefault(m, len(names)): x for m, x in p.t.items()}
        ex = [(lin(p), s) for p, s in extra]
        cons = ex + [(lin(p), s) for p, s in self.cons]
        # only what is connected with the goal
        want = {m for p, s in ex for m in p if m}
        pool, used = list(cons), []
        change = True
        while change:
            change = False
            rest = []
            for c in pool:
                if any(m in want for m in c[0]):
                    used.append(c); want |= {m for m in c[0] if m}; change = True
                else: rest.append(c)
            pool = rest
        cons = norm(used + [c for c in pool if not any(c[0].keys() - {0})])
        while True:
            if bad(cons): return True
            vs = {m for p, s in cons for m in p if m}
            if not vs: return False
            cost = lambda v: sum(1 for p, s in cons if p.get(v, 0) > 0) * sum(1 for p, s in cons if p.get(v, 0) < 0)
            v = min(sorted(vs), key=cost)
            up = [c for c in cons if c[0].get(v, 0) > 0]
            dn = [c for c in cons if c[0].get(v, 0) < 0]
            out = [c for c in cons if c[0].get(v, 0) == 0]
            for p, s in up:
                for q, t in dn:
                    a, b = p[v], -q[v]
                    r = {}
                    for m, x in p.items(): r[m] = r.get(m, 0) + x * b
                    for m, x in q.items(): r[m] = r.get(m, 0) + x * a
                    out.append(({m: x for m, x in r.items() if x != 0}, s or t))
            cons = norm(out)
            if len(cons) > limit: return False

    def entails_le(self, p):
        """p <= 0 follows"""
        if p.const() is not None and p.const() <= 0: return True
        return self.infeasible([(-p, True)])
    def entails_lt(self, p):
        if p.const() is not None and p.const() < 0: return True
        return self.infeasible([(-p, False)])
    def entails_eq(self, p): return T.is_zero(p) or self.entails_le(p) and self.entails_le(-p)
    def contradictory(self):
        return any(self.infeasible([c]) for c in self.cons)

def norm(cons):
    seen = {}
    for p, s in cons:
        vs = sorted(m for m in p if m)
        if not vs:
            c = p.get(0, Fraction(0))
            if c < 0 or c == 0 and not s: continue
            seen[("bad",)] = (p, s); continue
        k0 = abs(p[vs[0]])
        key = tuple((m, p[m] / k0) for m in vs)
        c = p.get(0, Fraction(0)) / k0
        o = seen.get(key)
        if o is None or c > o[2] or c == o[2] and s and not o[1]: seen[key] = ({**{m: x for m, x in key}, **({0: c} if c else {})}, s, c)
    return [(x[0], x[1]) for x in seen.values()]

def bad(cons):
    for p, s in cons:
        if all(m == 0 for m in p):
            c = p.get(0, Fraction(0))
            if c > 0 or c == 0 and s: return True
    return False
