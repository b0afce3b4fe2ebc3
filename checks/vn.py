"""Value numbering over normal forms: abstract interpretation of the control-flow graph in which a number is a quotient of
polynomials over the unknown inputs, a container is a table of such numbers, and own functions are entered. Conditions the
domain decides are followed; for the others both outcomes are considered, each consistently (see outcomes()). Anything
outside the domain becomes "unknown", and nothing is ever concluded from an unknown value."""
import sys
from fractions import Fraction
from core import kids, CALLS
from cfg import CFG
from poly import Rat, Poly
from initx import strip as _s

sys.setrecursionlimit(20000)
SCALAR = ("double", "float", "int", "long", "unsigned long", "unsigned int", "long double", "unsigned", "short", "char",
          "long long", "unsigned long long", "size_t", "std::size_t", "std::complex<double>", "complex<double>")
INTS = ("int", "long", "unsigned long", "unsigned int", "long long", "unsigned long long", "short", "unsigned short", "std::size_t", "size_t")
TOP = None


def bare(t):
    t = (t or "").replace("const ", "").strip()
    while t.endswith("&"): t = t[:-1].strip()
    if t.endswith(" const"): t = t[:-6]
    return t


class Abort(Exception): pass


class Thrown(Exception): pass


class Ref:
    __slots__ = ("b", "s")
    def __init__(self, b, s): self.b = b; self.s = s
    def __eq__(self, o): return isinstance(o, Ref) and (self.b, self.s) == (o.b, o.s)


class Iter:
    __slots__ = ("b", "s", "i")
    def __init__(self, b, s, i): self.b = b; self.s = s; self.i = i


class Lam:
    __slots__ = ("F", "fr", "this")
    def __init__(self, F, fr, this): self.F = F; self.fr = fr; self.this = this


class Cont:
    """cells: index tuple -> value; dims: prefix tuple -> size; dflt: value of untouched cells ("sym": an input)"""
    __slots__ = ("cells", "dims", "dflt", "sym", "dd")

    def __init__(self, dflt=TOP, sym=None):
        self.cells = {}; self.dims = {}; self.dflt = dflt; self.sym = sym; self.dd = {}

    def copy(self):
        c = Cont(self.dflt, self.sym); c.cells = dict(self.cells); c.dims = dict(self.dims); c.dd = dict(self.dd); return c

    def get(self, s):
        if s in self.cells: return self.cells[s]
        if self.sym is not None: return Rat.atom(self.sym + (s,) if isinstance(self.sym, tuple) else (self.sym, s)) if self.dflt is TOP else self.dflt
        return self.dflt

    def size(self, s):
        """size of the sub-container at prefix s, None if unknown"""
        if s in self.dims: return self.dims[s]
        return self.dd.get(len(s))

    def sub(self, s):
        n = len(s); c = Cont(self.dflt, None if self.sym is None else (self.sym if isinstance(self.sym, tuple) else (self.sym,)) + (("#",) + s,))
        if self.sym is not None: c.sym = ("sub", self.sym, s)
        c.cells = {k[n:]: v for k, v in self.cells.items() if k[:n] == s and len(k) > n}
        c.dims = {k[n:]: v for k, v in self.dims.items() if k[:n] == s}
        c.dd = {d - n: v for d, v in self.dd.items() if d >= n}
        return c

    def put(self, s, v):
        n = len(s)
        if isinstance(v, Cont):
            for k in [k for k in self.cells if k[:n] == s]: del self.cells[k]
            for k in [k for k in self.dims if k[:n] == s]: del self.dims[k]
            if self.fills(v) and v.dflt is not self.dflt or v.sym is not None:
                self.expand(s, v)
            for k, x in v.cells.items(): self.cells[s + k] = x
            for k, x in v.dims.items(): self.dims[s + k] = x
            if () not in v.dims and v.dd.get(0) is not None: self.dims[s] = v.dd[0]
        else:
            self.cells[s] = v

    def fills(self, v): return v.dflt is not TOP or v.sym is not None

    def expand(self, s, v, p=()):
        """write the untouched cells of v explicitly"""
        n = v.size(p)
        if n is None or n > 4096: return
        for i in range(n):
            q = p + (i,)
            if v.size(q) is not None: self.expand(s, v, q)
            elif q not in v.cells: self.cells[s + q] = v.get(q)


class Run:
    def __init__(self, db, dyn=None, state=None, hook=None, choose=(), steps=400000, depth=14):
        self.db = db; self.dyn = dyn; self.state = state if state is not None else {}
        self.hook = hook; self.choice = list(choose); self.taken = []; self.decided = {}
        self.steps = steps; self.depth = depth; self.nfr = 0; self.events = []; self.stack = []
        self.read = set(); self.wrote = set(); self.undecided = []; self.cells_read = set(); self.nstmt = 0
        self.chain = chain(db, dyn) if dyn else []
        self.last = None; self.sure = None; self.writes = {}; self.cur = None

    # ------------------------------------------------------------ decisions
    def decide(self, key, n):
        k = ("#", key) if key is not None else ("@", len(self.taken))
        if key is not None and k in self.decided: return self.decided[k]
        i = len(self.taken)
        v = self.choice[i] if i < len(self.choice) else True
        self.taken.append(v)
        if len(self.taken) > 40: raise Abort("too many undecided conditions")
        self.decided[k] = v
        if not self.undecided: self.sure = len(self.events)
        self.undecided.append((self.F, n, v))
        return v

    # ------------------------------------------------------------ functions
    def call(self, F, args=(), this=("this", ()), fr=None):
        """args: values or Ref"""
        if len(self.stack) > self.depth: raise Abort("depth")
        if F.body is None: raise Abort("no body")
        old = (getattr(self, "F", None), getattr(self, "fr", None), getattr(self, "this", None), getattr(self, "memo", None))
        if fr is None: self.nfr += 1; fr = self.nfr
        self.F = F; self.fr = fr; self.this = this; self.memo = {}
        self.stack.append(F)
        try:
            for p, a in zip(F.params, args):
                isref = p["t"].rstrip().endswith("&")
                if isinstance(a, Ref) and not isref: a = self.get(a.b, a.s)
                if isinstance(a, Cont) and not isref: a = a.copy()
                self.state[(fr, p["d"])] = a
            if F.d.get("ctor"): self.inits(F)
            return self.body(F)
        finally:
            self.stack.pop()
            self.F, self.fr, self.this, self.memo = old

    def inits(self, F):
        for i in F.d.get("inits", ()):
            init = i.get("init")
            if i.get("base") or i.get("delegating"):
                e = init
                while e is not None and e.get("k") not in CALLS: e = (e.get("c") or [None])[0]
                t = self.db.funcs.get(e.get("f")) if e else None
                if t is not None and t.body is not None and len(self.stack) < self.depth:
                    self.call(t, [self.arg(a, p) for a, p in zip(e.get("c", []), e.get("pt", []))], self.this)
            elif init is not None and (i.get("d") or i.get("field")):
                d = i.get("d") or i.get("field"); b, s = self.field(d)
                if core(init)["k"] == "CXXDefaultInitExpr":
                    f = self.fieldinfo(d); init = f.get("init") if f else None
                    if init is None: continue
                v = self.ev(init)
                if v is TOP and self.fieldinfo(d) is not None and not self.stateful(self.fieldinfo(d)["t"]) and bare(self.fieldinfo(d)["t"]) not in SCALAR + ("bool",): continue
                self.set(b, s, v)

    def field(self, d):
        b, s = self.this
        return (("this", d), ()) if b == "this" and not s else (b, s + (d,))

    def body(self, F):
        g = graph(F)
        if not g.ok: raise Abort("no cfg")
        b = g.entry; ret = TOP
        while True:
            B = g.blocks[b]
            for e in B.elems:
                self.steps -= 1
                if self.steps < 0: raise Abort("steps")
                k = e["k"]
                if k == "ReturnStmt":
                    if e.get("c") and e["c"][0] is not None:
                        ret = self.retval(F, e["c"][0])
                    return ret
                if k == "CXXThrowExpr": raise Thrown()
                self.elem(e)
            if b == g.exit: return ret
            if B.noret: raise Thrown()
            es = g.edges(b)
            if not es: return ret
            if len(es) == 1 or B.cond is None and B.tk != "SwitchStmt": b = es[0][0]; continue
            if B.tk == "SwitchStmt":
                v = self.num(self.ev(B.cond)); hit = None
                if v is None or v.const_() is None: raise Abort("switch")
                for s, c, p in es:
                    if p[0] == "case":
                        w = self.num(self.ev(p[1]))
                        if w is not None and w.same(v): hit = s
                if hit is None: hit = next((s for s, c, p in es if p[0] == "default"), None)
                if hit is None: raise Abort("switch")
                b = hit; continue
            if not isinstance(es[0][2], bool): raise Abort("branch")
            t = self.truth(B.cond)
            if t and B.tk == "CXXForRangeStmt" and B.term is not None and isinstance(B.term.get("var"), dict): self.decl(B.term["var"])
            nxt = [s for s, c, p in es if p == t]
            if not nxt: raise Abort("edge")
            b = nxt[0]

    def retval(self, F, n):
        rt = F.d.get("rt", "") or ""
        if rt.rstrip().endswith("&"):
            l = self.loc(n)
            if l is not None: return Ref(*l)
        v = self.ev(n)
        if isinstance(v, Ref): v = self.get(v.b, v.s)
        return v

    # ------------------------------------------------------------ elements with effects
    def elem(self, e):
        k = e["k"]
        if k == "DeclStmt":
            for v in e.get("decls", []) or []: self.decl(v)
        elif k in ("BinaryOperator",) and e.get("op") == "=" or k == "CompoundAssignOperator" or \
                k == "UnaryOperator" and e.get("op") in ("++", "--"):
            self.memo[id(e)] = self.eff(e)
        elif k in CALLS:
            if self.pure(e): return
            self.memo[id(e)] = self.callx(e)

    def decl(self, v):
        self.nstmt += 1
        key = (self.fr, v["d"]); t = v["t"]
        init = (v.get("c") or [None])[0]
        if v.get("static") or v.get("sl"): self.state[key] = TOP; return
        if t.rstrip().endswith("&"):
            l = self.loc(init) if init is not None else None
            if l is not None: self.state[key] = Ref(*l)
            else: self.state[key] = self.ev(init) if init is not None else TOP
            return
        if init is None:
            a = arr(t)
            if a is not None:
                c = Cont(); c.dims = {}; c.dd = dict(enumerate(a)); self.state[key] = c
            else:
                self.state.pop(key, None); self.state[key] = ("undef",) if bare(t) in SCALAR else TOP
            return
        x = self.ev(init)
        if t.rstrip().endswith("*"): x = self.decay(x, init)
        if isinstance(x, Ref): x = self.get(x.b, x.s) if not t.rstrip().endswith("*") else x
        if isinstance(x, Cont):
            x = x.copy()
            a = arr(t)
            if a is not None: x.dd.update(dict(enumerate(a))); x.dims = {}
        if x is TOP and self.stateful(t): x = Cont()
        if bare(t) in INTS: x = self.trunc(x)
        self.state[key] = x

    def decay(self, v, n):
        """an array used as a pointer to its first element"""
        if not isinstance(v, Cont): return v
        l = self.loc(n)
        return Iter(l[0], l[1], 0) if l is not None else v

    def stateful(self, t): return "vector<" in t or "Matrix<" in t or "array<" in t

    def trunc(self, x):
        v = self.num(x)
        if isinstance(x, bool): return x
        if v is None: return x if not isinstance(x, Rat) else TOP
        c = v.const_()
        if c is None: return v
        return Rat.const(int(c))

    def eff(self, e):
        self.nstmt += 1; self.cur = e
        k = e["k"]; op = e["op"]; tgt = e["c"][0]; l = self.loc(tgt)
        if k == "UnaryOperator":
            if l is None: return TOP
            o = self.get(*l)
            if isinstance(o, Iter):
                nv = Iter(o.b, o.s, o.i + (1 if op == "++" else -1)); self.set(l[0], l[1], nv)
                return o if e.get("post") else nv
            o = self.num(o)
            nv = TOP if o is None else (o + Rat.const(1) if op == "++" else o - Rat.const(1))
            self.set(l[0], l[1], nv)
            return o if e.get("post") else nv
        v = self.ev(e["c"][1])
        if isinstance(v, Ref) and not bare(tgt.get("t")).endswith("*"): v = self.get(v.b, v.s)
        if k == "CompoundAssignOperator":
            o = self.get(*l) if l is not None else TOP
            v = self.arith(op[:-1], o, v, e)
        if bare(tgt.get("t")) == "double" and len(self.stack) == 1: self.last = e
        if bare(tgt.get("t")) in INTS: v = self.trunc(v)
        elif bare(tgt.get("t")) == "bool" and v is not TOP and not isinstance(v, bool):
            x = self.num(v); c = x.const_() if x is not None else None
            v = TOP if c is None else c != 0
        if l is not None: self.set(l[0], l[1], v.copy() if isinstance(v, Cont) else v)
        return v

    # ------------------------------------------------------------ state
    def get(self, b, s=()):
        self.read.add(b)
        v = self.state.get(b, "?")
        if isinstance(v, str) and v == "?":
            v = self.initial(b)
            if isinstance(v, Cont): self.state[b] = v
        if isinstance(v, Ref): return self.get(v.b, v.s + s)
        if not s: return v
        if isinstance(v, Cont):
            if s in v.cells: return v.cells[s]
            if any(len(k) > len(s) and k[:len(s)] == s for k in v.cells) or v.size(s) is not None: return v.sub(s)
            self.cells_read.add((b, s))
            return v.get(s)
        return TOP

    def initial(self, b):
        """value of a location nothing has been assigned to yet"""
        h = self.hook.initial(self, b) if self.hook is not None and hasattr(self.hook, "initial") else "?"
        if not (isinstance(h, str) and h == "?"): return h
        if b[0] == "this":
            f = self.fieldinfo(b[1])
            if f is None: return TOP
            t = bare(f["t"])
            if t in SCALAR: return Rat.atom("f@" + f["n"])
            if t == "bool": return TOP
            return Cont(sym="f@" + f["n"])
        return TOP

    def fieldinfo(self, d):
        if not hasattr(self, "_fi"):
            self._fi = {}
            for c in self.chain:
                for r in self.db.rec_by_q.get(c, ())[:1]:
                    for f in r["fields"]: self._fi[f["d"]] = f
        return self._fi.get(d)

    def set(self, b, s, v):
        self.wrote.add(b)
        if isinstance(v, tuple) and v == ("undef",): v = TOP
        cur = self.state.get(b)
        if isinstance(cur, Ref): return self.set(cur.b, cur.s + s, v)
        if not s: self.state[b] = v; return
        if not isinstance(cur, Cont):
            cur = self.initial(b) if b not in self.state else Cont()
            if not isinstance(cur, Cont): cur = Cont()
            self.state[b] = cur
        self.bounds(cur, b, s)
        if b[0] == "this": self.writes[(b, s)] = (self.F, self.cur)
        cur.put(s, v)

    def bounds(self, c, b, s):
        for i, x in enumerate(s):
            if isinstance(x, int):
                n = c.size(s[:i])
                if n is not None and (x >= n or x < 0):
                    self.events.append(("index", self.F, getattr(self, "at", None), (b, s, i, x, n)))

    # ------------------------------------------------------------ locations
    def loc(self, n):
        while n is not None and n["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                                          "ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr") and n.get("c"):
            if n["k"] == "ImplicitCastExpr" and n.get("ck") in ("IntegralToFloating", "FloatingToIntegral"): return None
            n = n["c"][0]
        if n is None: return None
        k = n["k"]
        if k == "DeclRefExpr":
            if n.get("dk") in ("var", "parm"):
                b = (self.fr, n["d"])
                v = self.state.get(b)
                if isinstance(v, Ref): return (v.b, v.s)
                return (b, ())
            if n.get("dk") == "global": return (("g", n.get("d") or n.get("q")), ())
            return None
        if k == "MemberExpr":
            if n.get("dk") != "field": return None
            o = n["c"][0] if n.get("c") else None
            o = core(o)
            if o is None or o["k"] == "CXXThisExpr": return self.field(n["d"])
            l = self.loc(o)
            if l is None: return None
            v = self.state.get(l[0])
            if n.get("arrow"):
                v = self.get(*l)
                if isinstance(v, Ref): return (v.b, v.s + (n["d"],))
                return None
            return (l[0], l[1] + (n["d"],))
        if k == "ArraySubscriptExpr": return self.index(n["c"][0], [n["c"][1]], n)
        if k == "CXXOperatorCallExpr" and n.get("op") in ("[]", "()") and not self.own(n):
            return self.index(n["c"][0], n["c"][1:], n)
        if k == "CXXMemberCallExpr" and n.get("obj") is not None and not self.own(n):
            m = (n.get("q") or "").split("::")[-1]
            if m in ("at", "coeff", "coeffRef"): return self.index(n["obj"], n["c"], n)
            if m in ("front", "back"):
                l = self.loc(n["obj"])
                if l is None: return None
                if m == "front": return (l[0], l[1] + (0,))
                c = self.state.get(l[0]); sz = c.size(l[1]) if isinstance(c, Cont) else None
                return (l[0], l[1] + (sz - 1,)) if sz else None
        if k == "UnaryOperator" and n.get("op") == "*" or k == "CXXOperatorCallExpr" and n.get("op") == "*" and len(n["c"]) == 1:
            o = core(n["c"][0])
            if o["k"] == "CXXThisExpr": return self.this
            v = self.ev(n["c"][0])
            if isinstance(v, Iter): return (v.b, v.s + (v.i,))
            if isinstance(v, Ref): return (v.b, v.s)
            return None
        if k in ("UnaryOperator", "BinaryOperator", "CompoundAssignOperator") and n.get("op") in ("++", "--", "=", "+=", "-=", "*=", "/=") and not n.get("post"):
            return self.loc(n["c"][0])
        if k == "ConditionalOperator":
            return self.loc(n["c"][1] if self.truth(n["c"][0]) else n["c"][2])
        if k in CALLS:
            v = self.ev(n)
            if isinstance(v, Ref): return (v.b, v.s)
        return None

    def index(self, o, idx, n):
        l = self.loc(o)
        vals = []
        for a in idx:
            v = self.num(self.ev(a)); c = v.const_() if v is not None else None
            if c is None or c.denominator != 1: return None
            vals.append(int(c))
        if l is None: return None
        v = self.state.get(l[0])
        if isinstance(v, Ref): l = (v.b, v.s + l[1]); v = self.state.get(l[0])
        if isinstance(v, Iter) and not l[1]: return (v.b, v.s + (v.i + vals[0],) + tuple(vals[1:]))
        if isinstance(v, Cont):
            p = l[1]
            for x in vals:
                sz = v.size(p)
                if sz is not None and (x < 0 or x >= sz): self.events.append(("index", self.F, n, (l[0], p, x, sz)))
                p = p + (x,)
        return (l[0], l[1] + tuple(vals))

    # ------------------------------------------------------------ values
    def num(self, v):
        if isinstance(v, Ref): v = self.get(v.b, v.s)
        if isinstance(v, bool): return Rat.const(int(v))
        return v if isinstance(v, Rat) else None

    def own(self, n):
        f = n.get("f")
        if not f: return None
        t = self.db.funcs.get(f)
        if t is None and n.get("own"): t = self.db.funcs.get(f + "@" + self.F.file)
        if n.get("virt") and not n.get("qualified"):
            for x in self.chain:
                for c in self.db.resolve(f):
                    if c.cls == x and c.body is not None: return c
        return t if t is not None and t.body is not None else None

    def pure(self, e):
        """calls whose evaluation can wait until their value is needed"""
        if self.own(e) is not None: return False
        if e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return True
        if e["k"] == "CXXOperatorCallExpr":
            return e.get("op") not in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>")
        if e["k"] == "CXXMemberCallExpr":
            m = (e.get("q") or "").split("::")[-1]
            return bool(e.get("cm")) or m in ("at", "begin", "end", "front", "back", "size", "rows", "cols", "transpose", "coeff", "coeffRef", "data")
        q = (e.get("q") or "")
        if bare(e.get("t")) == "void" or any("iterator" in p for p in e.get("pt", [])) and q.split("::")[-1] not in ("accumulate", "distance", "next", "prev"): return False
        return not any(p.rstrip().endswith("&") and not p.startswith("const") and not p.rstrip().endswith("&&") for p in e.get("pt", [])) \
            or q.split("::")[-1] in ("min", "max", "move", "forward", "get", "begin", "end")

    def ev(self, n):
        if n is None: return TOP
        m = self.memo.get(id(n), "?")
        if not (isinstance(m, str) and m == "?"): return m
        k = n["k"]
        if k == "IntegerLiteral" or k == "CharacterLiteral": return Rat.const(int(n["v"]))
        if k == "FloatingLiteral": return Rat.const(Fraction(str(n["v"])))
        if k == "CXXBoolLiteralExpr": return bool(n["v"])
        if k == "StringLiteral": return ("str", n["v"])
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            v = self.ev(n["c"][0]) if n.get("c") else TOP
            ck = n.get("ck")
            if ck == "FloatingToIntegral" or ck == "IntegralCast" and isinstance(v, Rat): return self.trunc(v)
            if ck in ("IntegralToBoolean", "FloatingToBoolean"):
                x = self.num(v); c = x.const_() if x is not None else None
                return TOP if c is None else c != 0
            if isinstance(v, bool) and ck in ("IntegralToFloating", "IntegralCast"): return Rat.const(int(v))
            return v
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXDefaultArgExpr",
                 "CXXStdInitializerListExpr", "SubstNonTypeTemplateParmExpr", "ConstantExpr"):
            return self.ev(n["c"][0]) if n.get("c") else TOP
        if k == "InitListExpr":
            c = Cont(); xs = n.get("c", []) or []
            if len(xs) == 1 and not ("[" in n.get("t", "") or "vector" in n.get("t", "") or "initializer_list" in n.get("t", "") or "array" in n.get("t", "")):
                return self.ev(xs[0])
            if not xs and bare(n.get("t")) in SCALAR: return Rat.const(0)
            a = arr(n.get("t", ""))
            if a is not None: c.dflt = Rat.const(0); c.dd = dict(enumerate(a))
            else: c.dims[()] = len(xs)
            for i, x in enumerate(xs):
                if x is not None and x["k"] not in ("ImplicitValueInitExpr", "ArrayInitLoopExpr"): c.put((i,), self.val(x))
            return c
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"): return Rat.const(0) if bare(n.get("t")) in SCALAR else TOP
        if k == "DeclRefExpr":
            if n.get("dk") == "enumc": return ("enum", n["q"])
            if n.get("dk") == "global": return self.glob(n)
            if n.get("dk") in ("var", "parm"):
                return self.get((self.fr, n["d"]))
            return TOP
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            l = self.loc(n)
            return self.get(*l) if l is not None else TOP
        if k == "CXXThisExpr": return Ref(*self.this)
        if k == "UnaryOperator":
            op = n["op"]
            if op == "!": return not self.truth(n["c"][0])
            if op == "*":
                l = self.loc(n); return self.get(*l) if l is not None else TOP
            if op == "&":
                l = self.loc(n["c"][0]); return Ref(*l) if l is not None else TOP
            v = self.num(self.ev(n["c"][0]))
            if op == "-": return TOP if v is None else -v
            if op == "+": return v
            if op in ("++", "--"): return self.eff(n)
            return TOP
        if k == "BinaryOperator":
            op = n["op"]
            if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="): return self.cond(n)
            if op == "=": return self.eff(n)
            if op == ",": self.ev(n["c"][0]); return self.ev(n["c"][1])
            a, b = self.ev(n["c"][0]), self.ev(n["c"][1])
            if n.get("t", "").endswith("*"): a, b = self.decay(a, n["c"][0]), self.decay(b, n["c"][1])
            return self.arith(op, a, b, n)
        if k == "CompoundAssignOperator": return self.eff(n)
        if k == "ConditionalOperator":
            return self.ev(n["c"][1] if self.truth(n["c"][0]) else n["c"][2])
        if k == "LambdaExpr":
            F = self.db.funcs.get(n.get("f"))
            return Lam(F, self.fr, self.this) if F is not None else TOP
        if k in CALLS: return self.callx(n)
        return TOP

    def val(self, n):
        v = self.ev(n)
        return self.get(v.b, v.s) if isinstance(v, Ref) else v

    def glob(self, n):
        b = ("g", n.get("d") or n.get("q"))
        if b in self.state: return self.state[b]
        q = n.get("q") or ""
        if q.endswith("numbers::pi") or q == "M_PI": return Rat.atom("pi")
        gl = [x for x in self.db.globals.values() if x["q"] == q and x["const"]]
        if gl and gl[0]["v"].get("c") and gl[0]["v"]["c"][0]:
            return self.ev(gl[0]["v"]["c"][0])
        return TOP

    def arith(self, op, a, b, n):
        if isinstance(a, Ref): a = self.get(a.b, a.s)
        if isinstance(b, Ref): b = self.get(b.b, b.s)
        if isinstance(a, Iter) and op in ("+", "-"):
            x = self.num(b); c = x.const_() if x is not None else None
            if c is not None: return Iter(a.b, a.s, a.i + int(c) * (1 if op == "+" else -1))
            if isinstance(b, Iter) and op == "-": return Rat.const(a.i - b.i)
            return TOP
        if isinstance(a, tuple) and a and a[0] == "str" and op == "+" and isinstance(b, tuple) and b and b[0] == "str": return ("str", a[1] + b[1])
        if isinstance(a, Cont) or isinstance(b, Cont): return self.mat(op, a, b)
        a = self.num(a); b = self.num(b)
        if a is None or b is None: return TOP
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op in ("/", "%"):
            isint = bare(n.get("t")) in INTS
            if isint:
                x, y = a.const_(), b.const_()
                if x is None or y is None: return TOP
                if y == 0: self.events.append(("div0", self.F, n, None)); return TOP
                q = abs(int(x)) // abs(int(y)) * (1 if (x < 0) == (y < 0) else -1)
                return Rat.const(q if op == "/" else int(x) - q * int(y))
            if op == "%": return TOP
            if b.zero() or self.vanishes(b):
                self.events.append(("div0", self.F, n, None)); return TOP
            return a / b
        return TOP

    def vanishes(self, r):
        return self.hook.vanishes(r) if self.hook is not None and hasattr(self.hook, "vanishes") else False

    def mat(self, op, a, b):
        def dims(c):
            return c.size(()), (c.size((0,)) if c.size((0,)) is not None else None)
        if op in ("+", "-") and isinstance(a, Cont) and isinstance(b, Cont):
            o = Cont(); o.dims = dict(a.dims); o.dd = dict(a.dd)
            if a.dflt is not TOP and b.dflt is not TOP and a.sym is None and b.sym is None:
                o.dflt = a.dflt + b.dflt if op == "+" else a.dflt - b.dflt
            for k in set(a.cells) | set(b.cells):
                x, y = a.get(k), b.get(k)
                o.cells[k] = TOP if not isinstance(x, Rat) or not isinstance(y, Rat) else x + y if op == "+" else x - y
            return o
        if op in ("*", "/") and (isinstance(a, Rat) and op == "*" or isinstance(b, Rat)):
            c, x = (b, a) if isinstance(a, Rat) else (a, b)
            if not isinstance(c, Cont): return TOP
            o = Cont(); o.dims = dict(c.dims); o.dd = dict(c.dd)
            if op == "/" and x.zero(): return TOP
            f = (lambda v: TOP if not isinstance(v, Rat) else v * x if op == "*" else v / x)
            if c.sym is None: o.dflt = f(c.dflt)
            for k, v in c.cells.items(): o.cells[k] = f(v)
            return o
        if op == "*" and isinstance(a, Cont) and isinstance(b, Cont):
            n, m = dims(a); p, q = dims(b)
            if None in (n, m, p) or m != p: return TOP
            o = Cont(); o.dims[()] = n
            for i in range(n):
                for j in range(q or 1):
                    s = Rat.const(0)
                    for l in range(m):
                        x = a.get((i, l)); y = b.get((l, j) if q is not None else (l,))
                        if not isinstance(x, Rat) or not isinstance(y, Rat): s = TOP; break
                        if not x.zero() and not y.zero(): s = s + x * y
                    o.cells[(i, j) if q is not None else (i,)] = s
            if q is not None: o.dd[1] = q
            return o
        return TOP

    # ------------------------------------------------------------ truth
    def truth(self, n):
        v = self.cond(n)
        if isinstance(v, bool): return v
        x = self.num(v) if v is not TOP else None
        if x is not None:
            c = x.const_()
            if c is not None: return c != 0
            return self.decide(("nz", x.key()), n)
        return self.decide(self.name(n), n)

    def name(self, n):
        """a name for an undecided condition, stable while nothing it reads changes"""
        n = core(n)
        if n is not None and n["k"] in ("DeclRefExpr", "MemberExpr"):
            l = self.loc(n)
            return ("loc", l) if l is not None else None
        return None

    def cond(self, n):
        m = self.memo.get(id(n), "?")
        if not (isinstance(m, str) and m == "?"): return m
        x = n
        while x is not None and x["k"] in ("ParenExpr", "ExprWithCleanups") or x is not None and x["k"] == "ImplicitCastExpr" and x.get("ck") in ("LValueToRValue", "NoOp"):
            x = x["c"][0]
        if x is None: return TOP
        op = x.get("op")
        if x["k"] == "UnaryOperator" and op == "!": return not self.truth(x["c"][0])
        if x["k"] == "BinaryOperator" and op == "&&": return self.truth(x["c"][0]) and self.truth(x["c"][1])
        if x["k"] == "BinaryOperator" and op == "||": return self.truth(x["c"][0]) or self.truth(x["c"][1])
        if x["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and op in ("==", "!=", "<", ">", "<=", ">=") and len(x.get("c", [])) == 2 \
                and not (x["k"] in CALLS and self.own(x)):
            a, b = self.val(x["c"][0]), self.val(x["c"][1])
            return self.compare(op, a, b, x)
        return self.ev(x)

    def compare(self, op, a, b, n):
        if isinstance(a, Iter) and isinstance(b, Iter):
            return {"==": a.i == b.i, "!=": a.i != b.i, "<": a.i < b.i, ">": a.i > b.i, "<=": a.i <= b.i, ">=": a.i >= b.i}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ("enum", "str"):
            if op in ("==", "!="): return (a == b) == (op == "==")
        if isinstance(a, bool) and isinstance(b, bool) and op in ("==", "!="): return (a == b) == (op == "==")
        a = self.num(a); b = self.num(b)
        if a is None or b is None: return self.decide(None, n)
        d = a - b; c = d.const_()
        if c is not None:
            return {"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
        if op in ("==", "!=") and getattr(self.hook, "generic", False) and d.n.atoms() and all(isinstance(x, str) and x[:2] == "v@" for x in d.n.atoms()):
            return op == "!="
        if self.hook is not None and hasattr(self.hook, "sign"):
            s = self.hook.sign(a, b)
            if s is not None:
                return {"==": s == 0, "!=": s != 0, "<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op]
        neg = {"!=": "==", ">=": "<", ">": "<="}
        if op in neg: return not self.decide((neg[op], d.key()), n)
        return self.decide((op, d.key()), n)

    # ------------------------------------------------------------ calls
    def arg(self, a, pt):
        if pt.rstrip().endswith("&"):
            l = self.loc(a)
            if l is not None: return Ref(*l)
        v = self.ev(a)
        return self.decay(v, a) if pt.rstrip().endswith("*") else v

    def havoc(self, n):
        pts = n.get("pt", []); cs = n.get("c", [])
        off = len(cs) - len(pts) if n["k"] == "CXXOperatorCallExpr" else 0
        for i, a in enumerate(cs):
            if a is None: continue
            p = pts[i - off] if 0 <= i - off < len(pts) else ""
            if p.rstrip().endswith("&") and not p.startswith("const") and not p.rstrip().endswith("&&") or p.rstrip().endswith("*") and not p.startswith("const"):
                l = self.loc(a)
                if l is not None: self.set(l[0], l[1], TOP)
        if n["k"] == "CXXMemberCallExpr" and not n.get("cm") and n.get("obj") is not None:
            l = self.loc(n["obj"])
            if l is not None and l[0] != "this": self.set(l[0], l[1], TOP)

    def callx(self, n):
        self.at = n
        k = n["k"]; q = n.get("q") or ""; m = q.split("::")[-1]; cs = n.get("c", []) or []
        if self.hook is not None and hasattr(self.hook, "call"):
            r = self.hook.call(self, n)
            if r is not NotImplemented: return r
        F = self.own(n)
        if F is not None:
            if k == "CXXOperatorCallExpr" and n.get("op") == "()":
                o = self.ev(cs[0])
                if isinstance(o, Lam):
                    return self.call(F, [self.arg(a, p["t"]) for a, p in zip(cs[1:], F.params)], o.this, fr=self.lamframe(o, F))
                if F.d.get("lambda"):
                    return self.call(F, [self.arg(a, p["t"]) for a, p in zip(cs[1:], F.params)], self.this, fr=self.fr)
            this = self.this
            if k == "CXXMemberCallExpr":
                o = core(n.get("obj"))
                if o is not None and o["k"] != "CXXThisExpr":
                    l = self.loc(o)
                    if l is None:
                        v = self.ev(o); l = (v.b, v.s) if isinstance(v, Ref) else None
                    if l is None: self.havoc(n); return TOP
                    this = l
            elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                return TOP
            args = cs[1:] if k == "CXXOperatorCallExpr" and F.cls else cs
            if k == "CXXOperatorCallExpr" and F.cls:
                l = self.loc(cs[0])
                if l is None: return TOP
                this = l
            if F in self.stack and self.stack.count(F) > 6: raise Abort("recursion")
            vals = [self.arg(a, p["t"]) for a, p in zip(args, F.params)]
            while len(vals) < len(F.params): vals.append(TOP)
            return self.call(F, vals, this)
        if k == "CXXMemberCallExpr": return self.member(n, m)
        if k == "CXXOperatorCallExpr": return self.oper(n)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return self.construct(n, m)
        return self.func(n, m)

    def lamframe(self, o, F): return o.fr

    def func(self, n, m):
        cs = n.get("c", []) or []
        if m in ("min", "max") and len(cs) == 2:
            a, b = self.num(self.ev(cs[0])), self.num(self.ev(cs[1]))
            if a is None or b is None: return TOP
            lt = self.compare("<", b, a, n) if m == "min" else self.compare("<", a, b, n)
            return b if lt else a
        if m == "swap" and len(cs) == 2:
            x, y = self.loc(cs[0]), self.loc(cs[1])
            if x and y:
                a, b = self.get(*x), self.get(*y); self.set(x[0], x[1], b); self.set(y[0], y[1], a); return TOP
        if m in ("move", "forward", "as_const") and len(cs) == 1:
            l = self.loc(cs[0])
            return Ref(*l) if l is not None else self.ev(cs[0])
        if m == "to_string" and len(cs) == 1:
            v = self.num(self.ev(cs[0])); c = v.const_() if v is not None else None
            return ("str", str(int(c))) if c is not None and c.denominator == 1 else TOP
        if m in ("begin", "end", "cbegin", "cend") and len(cs) == 1: return self.iter(cs[0], m)
        if m == "accumulate" and len(cs) == 3:
            a, b, s = self.ev(cs[0]), self.ev(cs[1]), self.num(self.ev(cs[2]))
            if isinstance(a, Iter) and isinstance(b, Iter):
                for i in range(a.i, b.i):
                    v = self.num(self.get(a.b, a.s + (i,)))
                    s = None if s is None or v is None else s + v
                return s
            return TOP
        if m == "fill" and len(cs) == 3:
            a, b, v = self.ev(cs[0]), self.ev(cs[1]), self.val(cs[2])
            if isinstance(a, Iter) and isinstance(b, Iter):
                for i in range(a.i, b.i): self.set(a.b, a.s + (i,), v)
                return TOP
        if m == "sort" and len(cs) == 2:
            a, b = self.ev(cs[0]), self.ev(cs[1])
            if isinstance(a, Iter) and isinstance(b, Iter) and b.i - a.i <= 12:
                xs = [self.get(a.b, a.s + (i,)) for i in range(a.i, b.i)]
                if all(isinstance(x, Rat) for x in xs):
                    for i in range(1, len(xs)):
                        j = i
                        while j > 0 and self.compare("<", xs[j], xs[j - 1], n): xs[j], xs[j - 1] = xs[j - 1], xs[j]; j -= 1
                    for i, x in enumerate(xs): self.set(a.b, a.s + (a.i + i,), x)
                    return TOP
        if m in ("Zero", "Constant", "Identity", "Ones") and "Eigen" in (n.get("q") or ""):
            c = Cont(Rat.const(0) if m in ("Zero", "Identity") else Rat.const(1) if m == "Ones" else TOP)
            sz = [self.num(self.ev(a)) for a in cs]
            if m == "Constant" and sz: c.dflt = sz.pop() or TOP
            sz = [x.const_() if x is not None else None for x in sz]
            if sz and all(x is not None for x in sz):
                c.dims[()] = int(sz[0])
                if len(sz) > 1: c.dd[1] = int(sz[1])
                if m == "Identity":
                    for i in range(int(sz[0])): c.cells[(i, i)] = Rat.const(1)
            return c
        args = [self.val(a) for a in cs]
        if m in ("isnan", "isinf", "__builtin_isnan", "__builtin_isinf_sign"):
            return False if isinstance(args[0], Rat) else self.decide(None, n) if False else (TOP if args else TOP)
        if m == "isfinite": return True if args and isinstance(args[0], Rat) else TOP
        r = fun(self, m, [self.num(a) for a in args], n)
        if r is not NotImplemented: return r
        self.havoc(n)
        return TOP

    def iter(self, o, m):
        l = self.loc(o)
        if l is None: return TOP
        v = self.get(*l) if not isinstance(self.state.get(l[0]), Cont) else self.state[l[0]]
        c = self.state.get(l[0])
        if m.endswith("begin"): return Iter(l[0], l[1], 0)
        sz = c.size(l[1]) if isinstance(c, Cont) else None
        return Iter(l[0], l[1], sz) if sz is not None else TOP

    def member(self, n, m):
        cs = n.get("c", []) or []; o = n.get("obj")
        if m in ("begin", "end", "cbegin", "cend"): return self.iter(o, m)
        if m in ("at", "front", "back", "coeff", "coeffRef"):
            l = self.loc(n)
            return self.get(*l) if l is not None else TOP
        l = self.loc(o) if o is not None else None
        if m in ("size", "length", "rows", "cols", "empty"):
            v = self.get(*l) if l is not None else self.val(o)
            if isinstance(v, tuple) and v and v[0] == "str": return Rat.const(len(v[1])) if m != "empty" else not v[1]
            if not isinstance(v, Cont): return TOP
            s = v.size((0,)) if m == "cols" else v.size(())
            if s is None:
                h = self.hook.size(self, l) if self.hook is not None and hasattr(self.hook, "size") and l is not None else None
                if h is None: return TOP
                return h
            return s == 0 if m == "empty" else Rat.const(s)
        if m in ("push_back", "emplace_back") and l is not None:
            c = self.state.get(l[0])
            if not isinstance(c, Cont) and not l[1]:
                c = self.get(*l)
                c = Cont() if not isinstance(c, Cont) else c
                self.state[l[0]] = c
            self.wrote.add(l[0])
            v = self.val(cs[0]) if len(cs) == 1 else TOP
            if isinstance(c, Cont) and c.size(l[1]) is not None:
                i = c.size(l[1]); c.dims[l[1]] = i + 1; c.put(l[1] + (i,), v)
            elif isinstance(c, Cont): self.set(l[0], l[1], Cont())
            return TOP
        if m in ("resize", "assign", "clear", "setZero", "setConstant", "reserve", "fill", "setIdentity") and l is not None:
            if m == "reserve": return TOP
            if m == "assign" and isinstance(self.ev(cs[0]), Iter): self.set(l[0], l[1], Cont()); return TOP
            a = [self.num(self.ev(x)) for x in cs if x["k"] != "CXXDefaultArgExpr"]
            if m in ("setZero", "setConstant", "fill", "setIdentity"):
                c = self.get(*l)
                if isinstance(c, Cont) and m in ("setZero", "fill", "setConstant"):
                    d = Cont(Rat.const(0) if m == "setZero" else a[-1] if a else TOP); d.dims = dict(c.dims); d.dd = dict(c.dd)
                    self.set(l[0], l[1], d)
                else: self.set(l[0], l[1], Cont())
                return TOP
            if m == "clear": n0 = 0
            else: n0 = int(a[0].const_()) if a and a[0] is not None and a[0].const_() is not None else None
            old = self.get(*l)
            c = old.copy() if isinstance(old, Cont) and m == "resize" else Cont()
            if isinstance(old, Cont) and m == "resize" and old.sym is not None and n0 is not None and old.size(()) is None:
                c = Cont()      # contents before are unknown; values have to be assigned
            c.dims[()] = n0
            if n0 is None: c.dims.pop((), None)
            if m == "assign" and len(cs) > 1:
                v = self.val(cs[1])
                if isinstance(v, Cont):
                    c.dd = {d + 1: x for d, x in v.dd.items()}
                    if () in v.dims: c.dd[1] = v.dims[()]
                    c.dflt = v.dflt if not v.cells else TOP
                else: c.dflt = v
            if n0 is not None:
                for kk in [x for x in c.cells if x and isinstance(x[0], int) and x[0] >= n0]: del c.cells[kk]
            self.set(l[0], l[1], c)
            return TOP
        if m in ("transpose", "adjoint", "conjugate", "eval", "real", "imag", "norm", "squaredNorm", "trace", "dot"):
            v = self.get(*l) if l is not None else self.val(o)
            if isinstance(v, Rat):
                return fun(self, m, [v], n)
            if isinstance(v, Cont):
                if m == "eval": return v
                if m in ("transpose", "adjoint", "conjugate") and v.sym is None:
                    c = Cont(conj(v.dflt) if m != "transpose" else v.dflt)
                    a, b = v.size(()), v.size((0,))
                    if m == "conjugate": c.dims = dict(v.dims); c.dd = dict(v.dd)
                    else:
                        if b is not None: c.dims[()] = b
                        if a is not None: c.dd[1] = a
                    for kk, x in v.cells.items():
                        c.cells[kk if m == "conjugate" else kk[::-1]] = x if m == "transpose" else conj(x)
                    return c
            return TOP
        if m in ("append", "operator+=") and l is not None:
            a = self.get(*l); b = self.val(cs[0])
            self.set(l[0], l[1], self.arith("+", a, b, n)); return TOP
        if m == "str" or m == "c_str": return self.val(o)
        if m == "insert" and l is not None and len(cs) == 3:
            a, b, e = self.ev(cs[0]), self.ev(cs[1]), self.ev(cs[2])
            c = self.state.get(l[0])
            if isinstance(a, Iter) and isinstance(b, Iter) and isinstance(e, Iter) and isinstance(c, Cont) and c.size(l[1]) == a.i:
                for i in range(b.i, e.i):
                    j = c.size(l[1]); c.dims[l[1]] = j + 1; c.put(l[1] + (j,), self.get(b.b, b.s + (i,)))
                return TOP
        for a in cs: self.ev(a)
        self.havoc(n)
        return TOP

    def oper(self, n):
        op = n.get("op"); cs = n.get("c", []) or []
        if op in ("[]", "()"):
            l = self.loc(n)
            if l is None:
                for a in cs: self.ev(a)
                return TOP
            return self.get(*l)
        if op == "=":
            self.nstmt += 1; self.cur = n
            l = self.loc(cs[0]); v = self.val(cs[1])
            if l is None: return TOP
            if v is TOP and self.stateful(cs[0].get("t", "")): v = Cont()
            if isinstance(v, Cont) and arr_like(cs[0].get("t", "")): pass
            self.set(l[0], l[1], v.copy() if isinstance(v, Cont) else v)
            return Ref(*l)
        if op in ("+=", "-=", "*=", "/="):
            self.nstmt += 1
            l = self.loc(cs[0])
            if l is None: return TOP
            v = self.arith(op[:-1], self.get(*l), self.val(cs[1]), n)
            self.set(l[0], l[1], v); return Ref(*l)
        if op in ("++", "--"):
            l = self.loc(cs[0])
            if l is None: return TOP
            o = self.get(*l)
            if isinstance(o, Iter):
                nv = Iter(o.b, o.s, o.i + (1 if op == "++" else -1)); self.set(l[0], l[1], nv)
                return o if len(cs) > 1 else nv
            self.set(l[0], l[1], TOP); return TOP
        if op == "*" and len(cs) == 1:
            l = self.loc(n); return self.get(*l) if l is not None else TOP
        if op == "-" and len(cs) == 1:
            v = self.val(cs[0])
            if isinstance(v, Cont): return self.mat("*", Rat.const(-1), v)
            v = self.num(v); return TOP if v is None else -v
        if op in ("+", "-", "*", "/") and len(cs) == 2:
            return self.arith(op, self.ev(cs[0]), self.ev(cs[1]), n)
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(cs) == 2: return self.cond(n)
        if op == "<<" and len(cs) == 2: return TOP
        for a in cs: self.ev(a)
        self.havoc(n)
        return TOP

    def construct(self, n, m):
        t = bare(n.get("t")); cs = [a for a in n.get("c", []) or [] if a is not None and a["k"] != "CXXDefaultArgExpr"]
        if t in SCALAR:
            if not cs: return Rat.const(0)
            a = [self.num(self.ev(x)) for x in cs]
            if any(x is None for x in a): return TOP
            return a[0] if len(a) == 1 else a[0] + Rat.atom("I") * a[1]
        if t.startswith(("std::basic_string", "basic_string")) or t in ("std::string", "string"):
            return self.val(cs[0]) if len(cs) == 1 else ("str", "") if not cs else TOP
        if "vector<" in t or "Matrix<" in t or "array<" in t:
            if not cs:
                c = Cont()
                if "vector<" in t: c.dims[()] = 0
                return c
            x = self.val(cs[0])
            if len(cs) == 1 and isinstance(x, Cont): return x.copy()
            if isinstance(self.ev(cs[0]), Iter) and len(cs) >= 2:
                a, b = self.ev(cs[0]), self.ev(cs[1]); c = Cont()
                if isinstance(b, Iter):
                    c.dims[()] = b.i - a.i
                    for i in range(a.i, b.i): c.put((i - a.i,), self.get(a.b, a.s + (i,)))
                return c
            x = self.num(x); c = Cont(); k = x.const_() if x is not None else None
            if k is None: return c
            c.dims[()] = int(k)
            if "Matrix<" in t and len(cs) == 2:
                y = self.num(self.ev(cs[1])); y = y.const_() if y is not None else None
                if y is not None: c.dd[1] = int(y)
                return c
            if len(cs) == 2:
                v = self.val(cs[1])
                if isinstance(v, Cont):
                    c.dd = {d + 1: z for d, z in v.dd.items()}
                    if v.dims.get(()) is not None: c.dd[1] = v.dims[()]
                    if not v.cells and v.sym is None: c.dflt = v.dflt
                    else:
                        for i in range(int(k)): c.put((i,), v)
                else: c.dflt = v
            elif bare(t).count("vector<") == 1 and any(s in t for s in ("<double", "<int", "<unsigned", "<std::complex", "<long")): c.dflt = Rat.const(0)
            return c
        if len(cs) == 1: return self.val(cs[0])
        for a in cs: self.ev(a)
        return TOP


def arr_like(t): return False


def core(n):
    while n is not None and (n["k"].endswith("CastExpr") or n["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr")) and n.get("c"):
        n = n["c"][0]
    return n


def arr(t):
    """dimensions of a constant array type"""
    import re
    if "*" in t or "<" in t: return None
    d = re.findall(r"\[(\d+)\]", t)
    return [int(x) for x in d] if d else None


def conj(r):
    if not isinstance(r, Rat): return TOP
    def f(a): return -Poly.atom("I") if a == "I" else Poly.atom(("conj", a)) if isinstance(a, tuple) and a[0] == "cplx" else \
        a[1] and Poly.atom(a[1]) if isinstance(a, tuple) and a[0] == "conj" else None
    return Rat(r.n.subs(f), r.d.subs(f))


def isqrt(c):
    """sqrt of a non-negative rational as (rational, squarefree int)"""
    n, d = c.numerator * c.denominator, c.denominator
    out = 1; i = 2
    while i * i <= n and i < 10000:
        while n % (i * i) == 0: n //= i * i; out *= i
        i += 1
    return Fraction(out, d), n


def opaque(m, args): return Rat.atom((m,) + tuple(a.key() for a in args))


def fun(run, m, a, n):
    """mathematical functions"""
    if m not in ("abs", "fabs", "sqrt", "pow", "log", "exp", "sin", "cos", "tan", "atan", "asin", "acos", "atan2", "conj", "real", "imag",
                 "norm", "hypot", "cbrt", "floor", "ceil", "round", "log10", "log1p", "sinh", "cosh", "tanh", "conjugate", "pow<2>"): return NotImplemented
    if any(x is None for x in a): return TOP
    x = a[0]; c = x.const_()
    if m in ("abs", "fabs"):
        if c is not None: return Rat.const(abs(c))
        if run.hook is not None and hasattr(run.hook, "sign"):
            s = run.hook.sign(x, Rat.const(0))
            if s is not None: return x if s >= 0 else -x
        y = -x
        return opaque("abs", [min((x, y), key=lambda r: str(r.key()))])
    if m == "pow" and len(a) == 2:
        e = a[1].const_()
        if e is not None and e.denominator == 1 and abs(e) <= 12:
            if e < 0 and (x.zero() or run.vanishes(x)):
                run.events.append(("div0", run.F, n, None)); return TOP
            r = Rat.const(1)
            for _ in range(abs(int(e))): r = r * x
            return r if e >= 0 else Rat.const(1) / r
        if e == Fraction(1, 2): m = "sqrt"; a = [x]
        else: return opaque("pow", a)
    if m == "sqrt":
        if c is not None and c >= 0:
            f, s = isqrt(c)
            return Rat.const(f) if s == 1 or s == 0 else Rat.const(f) * Rat.atom(("sqrt", int(s)))
        return opaque("sqrt", a)
    if m == "log":
        if x.zero():
            run.events.append(("log0", run.F, n, None)); return TOP
        if c == 1: return Rat.const(0)
        if run.hook is not None and hasattr(run.hook, "log"):
            r = run.hook.log(x)
            if r is not None: return r
        return opaque("log", a)
    if m in ("conj", "conjugate"): return conj(x)
    if m in ("real", "imag"):
        y = conj(x)
        return (x + y) * Rat.const(Fraction(1, 2)) if m == "real" else (x - y) / (Rat.atom("I") * Rat.const(2))
    if m == "norm": return x * conj(x)
    if c == 0 and m in ("sin", "tan", "atan", "asin", "sinh", "tanh", "cbrt", "floor", "ceil", "round"): return Rat.const(0)
    if c == 0 and m in ("cos", "cosh", "exp"): return Rat.const(1)
    return opaque(m, a)


_G = {}


def graph(F):
    g = _G.get(id(F))
    if g is None: g = _G[id(F)] = CFG(F)
    return g


def chain(db, dyn):
    out = []; st = [dyn]
    while st:
        c = st.pop(0)
        if c in out: continue
        out.append(c)
        for r in db.rec_by_q.get(c, ())[:1]:
            for b in r["bases"]:
                if b not in db.rec_by_q:
                    b = next((q for q in db.rec_by_q if q.split("::")[-1] == b.split("::")[-1]), b)
                st.append(b)
    return out


def copystate(st): return {k: v.copy() if isinstance(v, Cont) else v for k, v in st.items()}


def outcomes(make, limit=64):
    """make(choices) -> Run after it ran (or raised). Enumerates the outcomes of undecided conditions.
    Returns (list of (run, result or exception)), complete?)"""
    out = []; todo = [()]
    while todo:
        if len(out) >= limit: return out, False
        ch = todo.pop()
        r, res = make(ch)
        out.append((r, res))
        for i in range(len(ch), len(r.taken)):
            todo.append(tuple(r.taken[:i]) + (not r.taken[i],))
    return out, True
