"""The functions of two, three and four squared masses are evaluated over the control-flow graph in a domain of equality
patterns: for each way the arguments can coincide, vanish and be ordered (set partitions, each class also in a nearly equal
variant) every number is kept as a quotient of polynomials in the class masses and their logarithms (value numbering), so
that a difference of coinciding masses is identically zero. Obligations per pattern: no divisor vanishes identically, no
logarithm of a vanishing mass is taken, a value computed from the masses is returned, and this value equals the limit of
the expression for distinct masses, i.e. the confluent divided difference of x*log(x/scale^2) (terms with the logarithm of
a zero mass left out), for every order of the arguments. Where the limit does not exist (three or more zeros) only the
independence of the order is required."""
from fractions import Fraction
from itertools import permutations, product
from core import CheckError
from poly import Rat, Poly
import vn

EXPLANATION = "Evaluates the mass functions on every pattern of equal, zero, nearly equal and distinct arguments in a rational-function domain."
FUNCS = (("fbase", 2), ("fbaseTri", 3), ("fbaseFour", 4))
SAMPLE = {"x1": 4096.0, "x2": 15625.0, "x3": 117649.0, "x4": 923521.0}
EPS = {"e1": 1.1e-10, "e2": 2.7e-10, "e3": 4.3e-10, "e4": 7.9e-10}


def patterns(n):
    """assignment of the arguments to classes 0 (zero), 1.. (ordered by size)"""
    for p in product(range(n + 1), repeat=n):
        if set(p) - {0} == set(range(1, max(p) + 1)): yield p


class Hook:
    def __init__(self): self.unknown = 0

    def at0(self, p):
        return p.subs(lambda a: Poly() if a in EPS else None)

    def num(self, p):
        import math
        t = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, e in m: x *= self.atom(a) ** e
            t += x
        return t

    def atom(self, a):
        import math
        if a in SAMPLE: return SAMPLE[a]
        if a in EPS: return EPS[a]
        if a == "scale" or a == "f@scale": return 246.22
        if isinstance(a, tuple) and a[0] == "L": return math.log(self.atom(a[1]))
        if isinstance(a, tuple) and a[0] == "sqrt" and isinstance(a[1], int): return math.sqrt(a[1])
        raise KeyError(a)

    def sign(self, a, b):
        d = a - b
        if d.zero(): return 0
        try:
            v = self.num(d.n) / self.num(d.d)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return None
        return 0 if v == 0 else 1 if v > 0 else -1

    def vanishes(self, r): return not self.at0(r.n).t

    def log(self, x):
        n, d = self.at0(x.n), self.at0(x.d)
        if not n.t or not d.t: return None
        if len(n.t) != 1 or len(d.t) != 1: return None
        out = Rat.const(0)
        for p, s in ((n, 1), (d, -1)):
            (m, c), = p.t.items()
            if c <= 0: return None
            if c != 1: out = out + Rat.const(s) * Rat.atom(("logc", str(c)))
            for a, e in m: out = out + Rat.const(s * e) * Rat.atom(("L", a))
        return out


def reference(cl):
    """confluent divided difference at the classes cl, None where it does not exist"""
    xs = sorted(cl); n = len(xs)
    if xs.count(0) >= 3: return None
    X = lambda c: Rat.const(0) if c == 0 else Rat.atom("x%d" % c)
    L = lambda c: Rat.const(0) if c == 0 else Rat.atom(("L", "x%d" % c)) - Rat.const(2) * Rat.atom(("L", "f@scale"))

    def der(c, k):
        x = X(c)
        if k == 0: return x * L(c)
        if k == 1: return L(c) + Rat.const(1)
        if k == 2: return Rat.const(Fraction(1, 2)) / x
        if k == 3: return Rat.const(Fraction(-1, 6)) / (x * x)

    def dd(i, j):
        if xs[i] == xs[j]: return der(xs[i], j - i)
        return (dd(i + 1, j) - dd(i, j - 1)) / (X(xs[j]) - X(xs[i]))
    return dd(0, n - 1)


def show(p, near):
    return "(" + ",".join("0" if c == 0 else "m%d%s" % (c, "'" if near and p.index(c) != i else "") for i, c in enumerate(p)) + ")"


def sub0(r, h):
    n, d = h.at0(r.n), h.at0(r.d)
    return Rat(n, d) if d.t else None


def run(db, rep):
    for name, n in FUNCS:
        Fs = [F for F in db.all() if F.n == name and len(F.params) == n and F.body is not None and "ClassPotentialOrigin" in F.file]
        if len(Fs) != 1: raise CheckError("anchor vanished: %s with %d masses" % (name, n))
        F = Fs[0]; seen = {}; divs = set(); said = set()
        for p in patterns(n):
            for near in ((False, True) if any(c and p.count(c) > 1 for c in p) else (False,)):
                h = Hook(); args = []; first = set(); e = 0
                for c in p:
                    a = Rat.const(0) if c == 0 else Rat.atom("x%d" % c)
                    if c and near and c in first: e += 1; a = a + Rat.atom("e%d" % e)
                    first.add(c); args.append(a)

                def make(ch):
                    r = vn.Run(db, F.cls, hook=h, choose=ch, steps=40000)
                    try: return r, r.call(F, list(args))
                    except vn.Thrown: return r, "throw"
                    except (vn.Abort, KeyError, RecursionError) as x: return r, "abort"
                outs, full = vn.outcomes(make, 16)
                sh = show(p, near)
                for r, v in outs:
                    rep.count("pattern_evaluations")
                    for ev in r.events[:r.sure]:
                        if ev[0] in ("div0", "log0") and (ev[0], id(ev[2])) not in said:
                            said.add((ev[0], id(ev[2])))
                            rep.bad("%s|%s" % (name, ev[0]), ev[1].loc(ev[2]), "%s%s %s" % (name, sh, "divides by a difference that vanishes for this pattern"
                                    if ev[0] == "div0" else "takes the logarithm of a mass that is zero for this pattern"))
                    if v == "abort" or r.undecided:
                        rep.count("undecided_patterns"); continue
                    rep.ok(); rep.count("patterns_without_vanishing_divisor")
                    if v == "throw":
                        rep.bad("%s|throw" % name, F.loc(), "%s%s throws instead of returning a value" % (name, sh)); continue
                    if any(ev[0] in ("div0", "log0") for ev in r.events): continue
                    if not isinstance(v, Rat):
                        rep.count("undecided_patterns"); continue
                    ref = reference(p)
                    v0 = sub0(v, h)
                    if v0 is None: continue
                    rep.ok(); rep.count("patterns_with_value_compared")
                    if ref is None:
                        k = tuple(sorted(p))
                        if k in seen and not seen[k][0].same(v0):
                            rep.bad("%s|order" % name, line(r, F), "%s depends on the order of its arguments: %s gives %s, %s gives %s" % (name, seen[k][1], text(seen[k][0]), sh, text(v0)))
                        seen.setdefault(k, (v0, sh))
                        continue
                    if not v0.same(ref):
                        rep.bad("%s|value" % name, line(r, F), "%s%s returns %s, which is not the limit %s of the expression for distinct masses" % (name, sh, text(v0), text(ref)))
    return


def text(r):
    s = str(r)
    return s if len(s) < 160 else s[:157] + "..."


def line(r, F): return F.loc(r.last) if r.last is not None else F.loc()
