"""Normal forms: polynomials over atoms with rational coefficients, and their quotients."""
from fractions import Fraction

ONE = ()


def mono_mul(a, b):
    """product of two monomials; returns (monomial, rational factor)"""
    if not a: return b, 1
    if not b: return a, 1
    d = dict(a)
    for x, e in b: d[x] = d.get(x, 0) + e
    f = 1; out = []
    for x, e in d.items():
        if x == "I" and e > 1:
            f *= (-1) ** (e // 2); e %= 2
        elif type(x) is tuple and x[0] == "sqrt" and type(x[1]) is int and e > 1:
            f *= Fraction(x[1]) ** (e // 2); e %= 2
        if e: out.append((x, e))
    return tuple(sorted(out, key=lambda p: (str(p[0]), p[1]))), f


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None): self.t = t or {}

    @staticmethod
    def const(c): return Poly({ONE: Fraction(c)} if c else {})

    @staticmethod
    def atom(a): return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        if not o.t: return self
        if not self.t: return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n: d[m] = n
            else: d.pop(m, None)
        return Poly(d)

    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        if len(self.t) == 1 and ONE in self.t:
            c = self.t[ONE]
            return o if c == 1 else Poly({m: c * x for m, x in o.t.items()})
        if len(o.t) == 1 and ONE in o.t: return o * self
        d = {}
        for m, c in self.t.items():
            for k, e in o.t.items():
                x, f = mono_mul(m, k)
                n = d.get(x, 0) + c * e * f
                if n: d[x] = n
                else: d.pop(x, None)
        return Poly(d)

    def constant(self):
        if not self.t: return Fraction(0)
        if len(self.t) == 1 and ONE in self.t: return self.t[ONE]
        return None

    def atoms(self): return {a for m in self.t for a, _ in m}
    def key(self): return tuple(sorted(((m, c) for m, c in self.t.items()), key=str))
    def __eq__(self, o): return self.t == o.t
    def __hash__(self): return hash(frozenset(self.t.items()))

    def subs(self, f):
        """f(atom) -> Poly or None"""
        out = Poly()
        for m, c in self.t.items():
            x = Poly.const(c)
            for a, e in m:
                r = f(a)
                r = Poly.atom(a) if r is None else r
                for _ in range(e): x = x * r
            out = out + x
        return out

    def __str__(self):
        if not self.t: return "0"
        def nm(a): return a if isinstance(a, str) else "sqrt(%d)" % a[1] if a[0] == "sqrt" and isinstance(a[1], int) else name(a)
        return " + ".join("%s%s" % (c if c != 1 or not m else "", "*".join(nm(a) + ("^%d" % e if e > 1 else "") for a, e in m))
                          for m, c in sorted(self.t.items(), key=str))


def name(a):
    if isinstance(a, str): return a.split("@")[-1]
    if isinstance(a, tuple): return "%s(%s)" % (name(a[0]), ",".join(name(x) if isinstance(x, (str, tuple)) else str(x) for x in a[1:]))
    return str(a)


class Rat:
    __slots__ = ("n", "d")
    P1 = Poly.const(1)

    def __init__(self, n, d=None):
        d = Rat.P1 if d is None else d
        if d is not Rat.P1:
            c = d.constant()
            if c is not None and c != 1:
                n = Poly({m: x / c for m, x in n.t.items()}) if c else n
                d = Rat.P1 if c else d
            elif n.t and d.t:
                # cancel a common monomial
                g = None
                for m in list(n.t) + list(d.t):
                    mm = {a: e for a, e in m if not (a == "I" or type(a) is tuple and a[0] == "sqrt")}
                    g = mm if g is None else {a: min(e, mm[a]) for a, e in g.items() if a in mm}
                    if not g: break
                if g:
                    def red(p):
                        o = {}
                        for m, c in p.t.items():
                            o[tuple((a, e - g.get(a, 0)) for a, e in m if e - g.get(a, 0))] = c
                        return Poly(o)
                    n = red(n); d = red(d)
                    c = d.constant()
                    if c is not None and c: n = Poly({m: x / c for m, x in n.t.items()}); d = Rat.P1
            elif not n.t: d = Rat.P1
        self.n = n; self.d = d

    @staticmethod
    def const(c): return Rat(Poly.const(c))

    @staticmethod
    def atom(a): return Rat(Poly.atom(a))

    def __add__(self, o):
        if self.d == o.d: return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self): return Rat(-self.n, self.d)
    def __sub__(self, o): return self + (-o)
    def __mul__(self, o): return Rat(self.n * o.n, self.d * o.d if self.d is not Rat.P1 or o.d is not Rat.P1 else Rat.P1)

    def __truediv__(self, o):
        c = o.n.constant() if o.d is Rat.P1 else None
        if c: return Rat(Poly({m: x / c for m, x in self.n.t.items()}), self.d)
        return Rat(self.n * o.d, self.d * o.n)

    def zero(self): return not self.n.t
    def const_(self):
        return self.n.constant() if self.d is Rat.P1 else (self.n.constant() if not self.n.t else None)

    def same(self, o):
        if self.d == o.d: return self.n == o.n
        return (self.n * o.d - o.n * self.d).t == {}

    def key(self): return (self.n.key(), self.d.key())
    def __str__(self): return str(self.n) if self.d is Rat.P1 else "(%s)/(%s)" % (self.n, self.d)
