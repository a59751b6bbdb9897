"""Value-number terms: sums of monomials over atoms with rational coefficients and exponents.

A Poly is the canonical name of a numeric (or opaque) value computed by the analysed program;
two expressions with the same canonical name denote the same value in every run.  Atoms are
hashable tuples (symbols, attribute loads, opaque calls, array cells ...).
"""
from fractions import Fraction

class Poly(object):
    __slots__ = ("t", "_h", "_k")
    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, c) for m, c in self.t.items()), key=lambda mc: repr(mc)))
        return self._k
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o):
        return not self == o
    def __repr__(self):
        return show(self)
    # -- queries
    def const(self):
        """the rational value if constant else None"""
        if not self.t: return Fraction(0)
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def is_zero(self): return not self.t
    def atom(self):
        """the single atom this is, if it is exactly one atom to the first power, else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
        return None
    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.t: return o
        if not o.t: return self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0: t.pop(m, None)
            else: t[m] = v
        return Poly(t)
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, k = mono_mul(m1, m2)
                v = t.get(m, 0) + c1 * c2 * k
                if v == 0: t.pop(m, None)
                else: t[m] = v
        return Poly(t)
    def __truediv__(self, o): return self * (P(o) ** -1)
    def __pow__(self, n):
        n = Fraction(n)
        if n == 0: return ONE
        if n == 1: return self
        c = self.const()
        if c is not None:
            if n.denominator == 1 and not (c == 0 and n < 0):
                return Poly({(): c ** int(n)}) if c ** int(n) != 0 else ZERO
            return numpow(c, n)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            mm, k = (), Fraction(1)
            for a, e in m:
                a2, e2 = a, e * n
                if a[0] == "exp":
                    a2, e2 = ("exp", a[1] * Poly({(): e2})), Fraction(1)
                x, kk = mono_mul(mm, ((a2, e2),))
                mm, k = x, k * kk
            base = Poly({mm: k})
            if c == 1: return base
            if n.denominator == 1: return base * Poly({(): c ** int(n)})
            return base * numpow(c, n)
        if n.denominator == 1 and 0 < n <= 8:
            r = ONE
            for _ in range(int(n)): r = r * self
            return r
        lead, prim = self.primitive()
        base = Poly({((("poly", prim), n),): Fraction(1)})
        if lead == 1: return base
        if n.denominator == 1: return base * Poly({(): lead ** int(n)})
        return base * numpow(lead, n)
    def primitive(self):
        k = self.key()
        lead = k[0][1]
        return lead, Poly({m: c / lead for m, c in self.t.items()})

_PW = {}
def numpow(c, n):
    """c ** n for a rational c and a fractional n, split into prime factors"""
    if (c, n) in _PW: return _PW[c, n]
    if c == 0 and n > 0: return ZERO
    if c <= 0: return Poly({((("num", c), n),): Fraction(1)})
    r = ONE
    for q, sg in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while q > 1 and f < 1000:
            e = 0
            while q % f == 0: q //= f; e += 1
            if e:
                ee = n * e * sg
                ip = ee.numerator // ee.denominator
                if ip: r = r * Poly({(): Fraction(f) ** ip})
                if ee - ip: r = r * Poly({((("num", Fraction(f)), ee - ip),): Fraction(1)})
            f += 1
        if q > 1: r = r * Poly({((("num", Fraction(q)), n * sg),): Fraction(1)})
    _PW[c, n] = r
    return r

def mono_mul(m1, m2):
    if not m1: return m2, 1
    if not m2: return m1, 1
    d = dict(m1)
    k = Fraction(1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # imaginary unit
    if ("j",) in d:
        e = d[("j",)]
        if e.denominator == 1:
            e = int(e) % 4
            d.pop(("j",))
            if e == 1: d[("j",)] = Fraction(1)
            elif e == 2: k = -k
            elif e == 3: d[("j",)] = Fraction(1); k = -k
    exps = [a for a in d if a[0] == "exp"]
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        tot = ZERO
        for a in exps:
            tot = tot + a[1] * Poly({(): d.pop(a)})
        if not tot.is_zero(): d[("exp", tot)] = Fraction(1)
    for a in [a for a in d if a[0] == "num"]:
        e = d[a]
        ip = e.numerator // e.denominator
        if ip and a[1] > 0:
            k = k * a[1] ** ip
            if e == ip: d.pop(a)
            else: d[a] = e - ip
        elif e.denominator == 1: k = k * a[1] ** int(d.pop(a))
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=repr)), k

def num(c):
    if isinstance(c, float):
        c = Fraction(repr(c)) if c == c and c not in (float("inf"), float("-inf")) else None
        if c is None: return Poly({((("sym", "nonfinite"), Fraction(1)),): Fraction(1)})
    c = Fraction(c)
    return Poly({(): c}) if c != 0 else Poly({})
ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
def atom(*a): return Poly({((tuple(a), Fraction(1)),): Fraction(1)})
def sym(name): return atom("sym", name)
J = Poly({((("j",), Fraction(1)),): Fraction(1)})
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return num(int(x))
    if isinstance(x, (int, float, Fraction)): return num(x)
    if isinstance(x, complex): return num(x.real) + J * num(x.imag)
    raise TypeError("not a term: %r" % (x,))

def exp(x):
    x = P(x)
    if x.is_zero(): return ONE
    return Poly({((("exp", x), Fraction(1)),): Fraction(1)})
def log(x):
    x = P(x)
    if x == ONE: return ZERO
    a = x.atom()
    if a and a[0] == "exp": return a[1]
    if len(x.t) == 1:
        (m, c), = x.t.items()
        ex = [q for q, e in m if q[0] == "exp" and e == 1]
        if len(ex) == 1:
            rest = Poly({tuple((q, e) for q, e in m if q != ex[0]): c})
            return ex[0][1] + log(rest)
    return atom("log", x)
def sin(x):
    x = P(x)
    if x.is_zero(): return ZERO
    if x.key()[0][1] < 0: return -atom("sin", -x)
    return atom("sin", x)
def cos(x):
    x = P(x)
    if x.is_zero(): return ONE
    if x.key()[0][1] < 0: return atom("cos", -x)
    return atom("cos", x)
def tanh(x):
    e = exp(P(x) * 2)
    return (e - ONE) / (e + ONE)
def cosh(x): return (exp(x) + exp(-P(x))) * num(Fraction(1, 2))
def sinh(x): return (exp(x) - exp(-P(x))) * num(Fraction(1, 2))

def is_zero(p, depth=0):
    """decides p == 0 for rational combinations of atoms, clearing denominators"""
    if depth > 60: return False
    if not p.t: return True
    # clear negative powers of composite atoms, expand positive integer ones
    worst = {}
    for m in p.t:
        for a, e in m:
            if a[0] == "poly":
                lo = worst.get(a, (0, 0))
                worst[a] = (min(lo[0], e), max(lo[1], e))
    for a, (lo, hi) in worst.items():
        # fractional classes are independent; handle integer parts
        if lo < 0:
            shift = Fraction(-(lo.numerator // lo.denominator))
        else:
            shift = Fraction(0)
        if shift == 0 and hi < 1: continue
        q = ZERO
        for m, c in p.t.items():
            d = dict(m); e = d.pop(a, Fraction(0)) + shift
            ip = e.numerator // e.denominator
            fp = e - ip
            rest = Poly({tuple(sorted(d.items(), key=repr)): c})
            if fp: rest = rest * Poly({((a, fp),): Fraction(1)})
            q = q + rest * _expand_pow(a[1], ip)
        return is_zero(q, depth + 1)
    return False

def _expand_pow(p, n):
    r = ONE
    for _ in range(int(n)): r = r * p
    return r

def equal(a, b): return is_zero(P(a) - P(b))

def subst(p, f):
    """rebuild p, replacing atom a by f(a) (a Poly) when that is not None"""
    r = ZERO
    for m, c in p.t.items():
        x = num(c)
        for a, e in m:
            y = f(a)
            if y is None:
                y = rebuild_atom(a, f)
            x = x * (y ** e)
        r = r + x
    return r

def sub_val(v, f):
    if isinstance(v, Poly): return subst(v, f)
    if isinstance(v, tuple): return tuple(sub_val(x, f) for x in v)
    return v

def rebuild_atom(a, f):
    if a[0] == "exp": return exp(subst(a[1], f))
    if a[0] == "log": return log(subst(a[1], f))
    if a[0] == "sin": return sin(subst(a[1], f))
    if a[0] == "cos": return cos(subst(a[1], f))
    if a[0] == "poly":
        return subst(a[1], f)
    n = tuple(sub_val(x, f) for x in a)
    return Poly({((n, Fraction(1)),): Fraction(1)})

def atoms(p, deep=True, acc=None):
    acc = set() if acc is None else acc
    def walk(v):
        if isinstance(v, Poly):
            for m in v.t:
                for a, e in m:
                    acc.add(a)
                    if deep: walk(a)
        elif isinstance(v, tuple):
            for x in v: walk(x)
    walk(p)
    return acc

def diff(p, var):
    """derivative of p with respect to atom var; None-safe only for known functions"""
    r = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = datom(a, var)
            if da.is_zero(): continue
            rest = list(m)
            rest[i] = None
            mono = num(c)
            for x in rest:
                if x is not None:
                    mono = mono * Poly({((x[0], x[1]),): Fraction(1)})
            if a[0] == "exp":
                mono = mono * Poly({((a, Fraction(1)),): Fraction(1)}) * da * num(e)
            else:
                base = a[1] if a[0] == "poly" else Poly({((a, Fraction(1)),): Fraction(1)})
                mono = mono * num(e) * ((base ** (e - 1)) if e != 1 else ONE) * da
            r = r + mono
    return r

class NotDifferentiable(Exception): pass

def datom(a, var):
    """derivative of the atom itself (for exp: derivative of the exponent)"""
    if a == var: return ONE
    k = a[0]
    if k == "exp": return diff(a[1], var)
    if k == "poly": return diff(a[1], var)
    if k == "log": return diff(a[1], var) / a[1]
    if k == "sin": return diff(a[1], var) * cos(a[1])
    if k == "cos": return -(diff(a[1], var) * sin(a[1]))
    if var in atoms_of_atom(a):
        raise NotDifferentiable(show_atom(a))
    return ZERO

def atoms_of_atom(a):
    acc = set()
    for x in a:
        if isinstance(x, (Poly, tuple)): atoms(x, True, acc)
    return acc

# -- printing -----------------------------------------------------------------------------
def show(v):
    if isinstance(v, Poly):
        if not v.t: return "0"
        out = []
        for m, c in v.key():
            s = "*".join(show_atom(a) + ("" if e == 1 else "^%s" % e) for a, e in m)
            cs = ("%s" % (c if c.denominator == 1 else (float(c) if c.denominator > 1000 else c)))
            if not s: out.append(cs)
            elif c == 1: out.append(s)
            elif c == -1: out.append("-" + s)
            else: out.append(cs + "*" + s)
        return " + ".join(out).replace("+ -", "- ")
    if isinstance(v, tuple): return "(" + ", ".join(show(x) for x in v) + ")"
    return str(v) if not isinstance(v, str) else repr(v)

def show_atom(a):
    k = a[0]
    if k == "sym": return str(a[1])
    if k == "attr": return "%s.%s" % (show(a[1]), a[2])
    if k == "sub": return "%s[%s]" % (show(a[1]), ", ".join(show(x) for x in a[2:]))
    if k == "call": return "%s(%s)" % (a[1] if isinstance(a[1], str) else show(a[1]), ", ".join(show(x) for x in a[2:]))
    if k == "poly": return "(%s)" % show(a[1])
    if k == "num": return "%s" % a[1]
    if k == "j": return "j"
    if k in ("exp", "log", "sin", "cos"): return "%s(%s)" % (k, show(a[1]))
    return "%s<%s>" % (k, ", ".join(show(x) for x in a[1:]))
