"""Shapes of tables: abstract interpretation of the functions that write a table. A state maps variables to values; streams and
strings are sequences of separators, line ends and cells (a cell carries only the words naming its value), vectors are sequences
of such values, sizes are instances of the declared numbers. Conditions that are not decided are followed both ways and equal
states are merged, so all combinations of outcomes are covered."""
import re, itertools
from core import CheckError, CALLS

SEP = ("sep",); NL = ("nl",)
LIMIT = 4000


class TooMany(Exception): pass


def words(s):
    s = re.sub(r"([a-z0-9])([A-Z][a-z])", r"\1 \2", s)
    out = set()
    for w in re.split(r"[^A-Za-z0-9]+", s):
        if w and not w.isdigit(): out.add(w.lower())
    return frozenset(out)


def cell(w): return ("c", frozenset(w))
def text(s):
    """string literal as items"""
    out = []
    for part in re.split(r"([\t\n])", s):
        if part == "\t": out.append(SEP)
        elif part == "\n": out.append(NL)
        elif part: out.append(("t", part))
    return ("S", tuple(out))


def opaque(*w): return ("o", frozenset().union(*[words(x) if isinstance(x, str) else x for x in w]) if w else frozenset())


def wordsof(v):
    if v is None: return frozenset()
    if isinstance(v, tuple) and v and v[0] == "o": return v[1]
    if isinstance(v, tuple) and v and v[0] == "S":
        out = set()
        for i in v[1]:
            if i[0] == "c": out |= i[1]
            elif i[0] == "t": out |= words(i[1])
        return frozenset(out)
    if isinstance(v, tuple) and v and v[0] == "V": return frozenset().union(*[wordsof(x) for x in v[1]]) if v[1] else frozenset()
    return frozenset()


def items(v):
    """what << writes"""
    if isinstance(v, bool) or isinstance(v, int): return (cell(()),)
    if v is None: return (cell(()),)
    if v[0] == "S": return v[1]
    if v[0] == "V":
        out = []
        for i, x in enumerate(v[1]):
            if i: out.append(SEP)
            out += items(x)
        return tuple(out)
    if v[0] == "o": return (cell(v[1]),)
    return (cell(()),)


def join(a, b):
    """string concatenation: neighbouring pieces of text belong to one cell"""
    if not a: return b
    if not b: return a
    x, y = a[-1], b[0]
    if x[0] in ("c", "t") and y[0] in ("c", "t"):
        w = lambda i: i[1] if i[0] == "c" else words(i[1])
        m = ("t", x[1] + y[1]) if x[0] == y[0] == "t" else cell(w(x) | w(y))
        return a[:-1] + (m,) + b[1:]
    return a + b


class State:
    __slots__ = ("env", "tables", "lines")
    def __init__(self, env=None, tables=(), lines=0): self.env = env or {}; self.tables = tables; self.lines = lines
    def copy(self): return State(dict(self.env), self.tables, self.lines)
    def key(self): return (frozenset((k, v) for k, v in self.env.items()), self.tables, self.lines)


class Shapes:
    """sizes: dict of the declared numbers; consts: values of members known for the program"""
    def __init__(self, db, F, sizes, consts=None, nlines=3):
        self.db = db; self.F = F; self.N = sizes; self.consts = consts or {}; self.nlines = nlines
        self.fr = 0; self.stack = []; self.nfr = 0; self.unknown = set(); self.steps = 0; self.busy = set()
        self.which = {}; self._fv = {}; self.line = 0

    # ------------------------------------------------------------ values by name
    def byname(self, n, args, obj):
        N = self.N
        vev = tuple(opaque("vev", "#%d" % i) for i in range(N["nVEV"]))
        vev = tuple(("o", frozenset(("vev%d" % i,))) for i in range(N["nVEV"]))
        ct = tuple(("o", frozenset(("ct%d" % i,))) for i in range(N["nParCT"]))
        if n == "addLegendCT": return ("V", tuple(("S", (cell(("ct%d" % i,)),)) for i in range(N["nParCT"])))
        if n == "addLegendVEV": return ("V", tuple(("S", (cell(("vev%d" % i,)),)) for i in range(N["nVEV"])))
        if n == "addLegendTemp":
            return ("V", tuple(("S", (cell(w),)) for w in (("tc",), ("vc",), ("vc", "tc", "ratio"))) + tuple(("S", (cell(("vev%d" % i,)),)) for i in range(N["nVEV"])))
        if n == "addLegendTripleCouplings":
            h = range(N["NHiggs"])
            return ("V", tuple(("S", (cell((t, "#%d#%d#%d" % (i, j, k))),)) for i in h for j in h if j >= i for k in h if k >= j for t in ("tree", "ct", "cw")))
        if n in ("get_nVEV", "get_nParCT", "get_NHiggs", "get_nPar"): return N[n[4:]]
        if n == "initModel" or n == "Minimize_gen_all" or n == "get_vevTreeMin" or n in ("EWMinimum", "point", "ConvertToVEVDim", "GetGlobalMinimum") or n.endswith("_vev"):
            if n == "initModel": return ("P", ("V", tuple(("o", frozenset(("par%d" % i,))) for i in range(N["nPar"]))), ("V", ct))
            w = words(n) if n.endswith("_vev") else frozenset()
            return ("V", tuple(("o", x[1] | w) for x in vev))
        if n == "MinimizeOrderVEV": return ("V", tuple(("o", frozenset(("field%d" % i,))) for i in range(N["NHiggs"])))
        if n in self.N:
            r = self.N[n]
            return r[max(0, self.line - 2) % len(r)] if isinstance(r, tuple) else r
        if n in self.consts: return self.consts[n]
        return NotImplemented

    # ------------------------------------------------------------ expressions: [(state, value)]
    def ev(self, st, n):
        self.steps += 1; self.line = st.lines
        if self.steps > 3000000: raise TooMany("steps")
        if n is None: return [(st, None)]
        k = n["k"]
        if k == "IntegerLiteral": return [(st, int(n["v"]))]
        if k == "CharacterLiteral":
            c = chr(int(n["v"])) if str(n["v"]).lstrip("-").isdigit() else str(n["v"])
            return [(st, text(c))]
        if k == "CXXBoolLiteralExpr": return [(st, bool(n["v"]))]
        if k == "StringLiteral": return [(st, text(n["v"]))]
        if k == "FloatingLiteral": return [(st, ("o", frozenset()))]
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "ExprWithCleanups",
                 "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXDefaultArgExpr", "CXXStdInitializerListExpr", "ConstantExpr", "CXXConstCastExpr"):
            return self.ev(st, n["c"][0]) if n.get("c") else [(st, None)]
        if k == "DeclRefExpr":
            if n.get("dk") in ("var", "parm"): return [(st, self.read(st, (self.fr, n["d"])) if (self.fr, n["d"]) in st.env else opaque(n.get("n", "")))]
            if n.get("dk") == "global":
                if n.get("n") == "sep": return [(st, ("S", (SEP,)))]
                return [(st, self.glob(n))]
            if n.get("n") in ("endl", "ends"): return [(st, ("S", (NL,)))]
            return [(st, opaque(n.get("n", "")))]
        if k == "MemberExpr": return self.member(st, n)
        if k == "UnaryOperator":
            op = n["op"]
            if op in ("++", "--"):
                l = self.lval(st, n["c"][0]); v = self.readl(st, l)
                nv = v + (1 if op == "++" else -1) if isinstance(v, int) and not isinstance(v, bool) else v
                self.write(st, l, nv); return [(st, v if n.get("post") else nv)]
            out = []
            for s, v in self.ev(st, n["c"][0]):
                if op == "!": out.append((s, None if not isinstance(v, (bool, int)) else not v))
                elif op == "-" and isinstance(v, int) and not isinstance(v, bool): out.append((s, -v))
                else: out.append((s, v))
            return out
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n["op"]
            if op == "=" or k == "CompoundAssignOperator":
                out = []
                for s, v in self.ev(st, n["c"][1]):
                    l = self.lval(s, n["c"][0])
                    if op != "=": v = self.arith(op[:-1], self.readl(s, l), v)
                    self.write(s, l, v); out.append((s, v))
                return out
            if op in ("&&", "||"):
                out = []
                for s, a in self.ev(st, n["c"][0]):
                    if isinstance(a, bool) and a == (op == "||"): out.append((s, a)); continue
                    for s2, b in self.ev(s, n["c"][1]):
                        if isinstance(a, bool): out.append((s2, b if isinstance(b, bool) else None))
                        else: out.append((s2, b if isinstance(b, bool) and b == (op == "||") else None))
                return out
            return [(s, self.arith(op, a, b)) for s, (a, b) in self.seq(st, n["c"])]
        if k == "ConditionalOperator":
            out = []
            for s, c in self.ev(st, n["c"][0]):
                if isinstance(c, bool): out += self.ev(s, n["c"][1 if c else 2]); continue
                a = self.ev(s.copy(), n["c"][1]); b = self.ev(s.copy(), n["c"][2])
                if len(a) == 1 and len(b) == 1 and all(x[0][1] is None or isinstance(x[0][1], (int, bool)) or x[0][1][0] == "o" for x in (a, b)):
                    out.append((a[0][0], ("o", wordsof(a[0][1]) | wordsof(b[0][1]))))
                else: out += a + b
            return out
        if k == "LambdaExpr": return [(st, ("L", n.get("f"), self.fr))]
        if k == "InitListExpr":
            return [(s, ("V", tuple(vs))) for s, vs in self.seq(st, n.get("c", []) or [])]
        if k == "ArraySubscriptExpr":
            l = self.lval(st, n); return [(st, self.readl(st, l))]
        if k in CALLS: return self.call(st, n)
        return [(st, ("o", frozenset()))]

    def seq(self, st, es):
        out = [(st, [])]
        for e in es:
            nx = []
            for s, vs in out:
                for s2, v in self.ev(s, e): nx.append((s2, vs + [v]))
            out = nx
            if len(out) > LIMIT: raise TooMany("values")
        return out

    def arith(self, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "S" and b[0] == "S":
            if op == "+": return ("S", join(a[1], b[1]))
            if op in ("==", "!="):
                x, y = a[1], b[1]
                if x == y and all(i[0] != "c" for i in x): return op == "=="
                if any(i in (SEP, NL) for i in x) != any(i in (SEP, NL) for i in y): return op != "=="
                if all(i[0] != "c" for i in x + y): return (x == y) == (op == "==")
                return None
        if op == "+" and (isinstance(a, tuple) and a[0] == "S" or isinstance(b, tuple) and b[0] == "S"):
            return ("S", join(items(a), items(b)))
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool) and op in ("==", "!="): return (a == b) == (op == "==")
            if op in ("==", "!=", "<", ">", "<=", ">="): return None
        if isinstance(a, int) and isinstance(b, int):
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/": return a // b if b else None
            if op == "%": return a % b if b else None
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if op in ("==", "!=", "<", ">", "<=", ">="): return None
        w = wordsof(a) | wordsof(b)
        if op == "/": w = w | {"ratio"}
        return ("o", w)

    # ------------------------------------------------------------ locations
    def lval(self, st, n):
        """(variable, path) or None"""
        while n is not None and n["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXStaticCastExpr") and n.get("c"): n = n["c"][0]
        if n is None: return None
        k = n["k"]
        if k == "DeclRefExpr" and n.get("dk") in ("var", "parm"):
            v = st.env.get((self.fr, n["d"]))
            if isinstance(v, tuple) and v and v[0] == "R": return v[1]
            return ((self.fr, n["d"]), ())
        if k == "UnaryOperator" and n.get("op") == "*" or k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and len(n["c"]) == 1:
            return self.lval(st, n["c"][0])
        o = i = None
        if k == "CXXOperatorCallExpr" and n.get("op") in ("[]", "()") and len(n["c"]) == 2: o, i = n["c"]
        elif k == "ArraySubscriptExpr": o, i = n["c"]
        elif k == "CXXMemberCallExpr" and n.get("obj") is not None:
            m = (n.get("q") or "").split("::")[-1]
            if m == "at" and len(n["c"]) == 1: o, i = n["obj"], n["c"][0]
            elif m in ("front", "back"):
                l = self.lval(st, n["obj"])
                if l is None: return None
                v = self.readl(st, l)
                if isinstance(v, tuple) and v[0] == "V" and v[1]: return (l[0], l[1] + (0 if m == "front" else len(v[1]) - 1,))
                return None
        if o is not None:
            l = self.lval(st, o)
            if l is None: return None
            r = self.ev(st, i)
            if len(r) != 1 or not isinstance(r[0][1], int): return None
            return (l[0], l[1] + (r[0][1],))
        if k == "MemberExpr" and n.get("c"):
            l = self.lval(st, n["c"][0])
            if l is None: return None
            return (l[0], l[1] + ("." + n["n"],))
        if k == "MemberExpr": return (("m", n["n"]), ())
        if k == "CXXOperatorCallExpr" and n.get("op") in ("<<", "=", "+="): return self.lval(st, n["c"][0])
        return None

    def read(self, st, key):
        v = st.env.get(key)
        if isinstance(v, tuple) and v and v[0] == "R": return self.readl(st, v[1])
        return v

    def readl(self, st, l):
        if l is None: return ("o", frozenset())
        v = st.env.get(l[0], ("o", frozenset()))
        if isinstance(v, tuple) and v and v[0] == "R":
            return self.readl(st, (v[1][0], v[1][1] + l[1]))
        for p in l[1]:
            if isinstance(p, int):
                if isinstance(v, tuple) and v and v[0] == "V": v = v[1][p] if 0 <= p < len(v[1]) else ("o", frozenset())
                elif isinstance(v, tuple) and v and v[0] == "D": v = dict(v[1]).get(p, v[2])
                elif isinstance(v, tuple) and v and v[0] == "o": pass
                else: v = ("o", frozenset())
            else:
                v = self.field(v, p[1:])
        return v

    def field(self, v, name):
        if isinstance(v, tuple) and v and v[0] == "P":
            return v[1] if name == "first" else v[2] if name == "second" else ("o", frozenset())
        if isinstance(v, tuple) and v and v[0] == "F":
            for k, x in v[1]:
                if k == name: return x
        r = self.byname(name, None, None)
        if r is not NotImplemented: return r
        r = self.assigned(name)
        if r is not None: return r
        return opaque(name)

    def write(self, st, l, v):
        if l is None: return
        key, path = l
        cur = st.env.get(key)
        if isinstance(cur, tuple) and cur and cur[0] == "R": return self.write(st, (cur[1][0], cur[1][1] + path), v)

        def put(c, p):
            if not p: return v
            h, t = p[0], p[1:]
            if isinstance(h, int):
                if isinstance(c, tuple) and c and c[0] == "V" and 0 <= h < len(c[1]):
                    return ("V", c[1][:h] + (put(c[1][h], t),) + c[1][h + 1:])
                if isinstance(c, tuple) and c and c[0] == "D":
                    d = dict(c[1]); d[h] = put(d.get(h, c[2]), t)
                    return ("D", tuple(sorted(d.items())), c[2])
                return c
            if isinstance(c, tuple) and c and c[0] == "P" and h in (".first", ".second"):
                return ("P", put(c[1], t) if h == ".first" else c[1], put(c[2], t) if h == ".second" else c[2])
            d = dict(c[1]) if isinstance(c, tuple) and c and c[0] == "F" else {}
            d[h[1:]] = put(d.get(h[1:], self.field(None, h[1:])), t)
            return ("F", tuple(sorted(d.items(), key=lambda x: x[0])))
        st.env[key] = put(cur if cur is not None else ("o", frozenset()), path)

    def glob(self, n):
        return opaque(n.get("n", ""))

    def assigned(self, name):
        """value of a member by the assignments to members of that name, the longest vector"""
        if not hasattr(self, "_as"):
            ix = self.db.__dict__.get("_label_members")
            self._as = dict(ix) if ix is not None else {}
        if "_label_members" not in self.db.__dict__:
            for F in self.db.all():
                if F.body is None or "/src/" not in "/" + F.file: continue
                for x in F.walk():
                    if x["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and x.get("op") == "=" and len(x.get("c", [])) == 2:
                        t = x["c"][0]
                        if t is not None and t["k"] == "MemberExpr" and "vector<std::basic_string" in (t.get("t") or ""):
                            self._as.setdefault(t["n"], []).append((F, x["c"][1]))
            self.db._label_members = dict(self._as)
        if name not in self._as or name in self.busy: return None
        if ("val", name, self.line) in self._as: return self._as[("val", name, self.line)]
        best = None; self.busy.add(name); line = self.line
        try:
            for F, e in self._as[name]:
                old = (self.F, self.fr); self.nfr += 1; self.F = F; self.fr = self.nfr
                try:
                    for s, v in self.ev(State(lines=line), e):
                        if isinstance(v, tuple) and v and v[0] == "V" and (best is None or len(v[1]) > len(best[1])): best = v
                finally: self.F, self.fr = old
        finally: self.busy.discard(name)
        self._as[("val", name, line)] = best; self.line = line
        return best

    def member(self, st, n):
        nm = n["n"]
        l = self.lval(st, n)
        if l is not None and (l[0] in st.env): return [(st, self.readl(st, l))]
        return [(st, self.field(None, nm))]

    # ------------------------------------------------------------ calls
    def call(self, st, n):
        k = n["k"]; q = n.get("q") or ""; m = q.split("::")[-1]; cs = [c for c in n.get("c", []) or []]
        if k == "CXXOperatorCallExpr":
            op = n.get("op")
            if op == "<<" and len(cs) == 2 and self.isstream(cs[0]):
                out = []
                for s, a in self.ev(st, cs[0]):
                    l = self.lval(s, cs[0])
                    for s2, v in self.ev(s, cs[1]):
                        t = (cs[1].get("t") or "")
                        if "_Setprecision" in t or "_Setw" in t or "ios_base" in t: out.append((s2, v)); continue
                        if l is not None:
                            cur = self.readl(s2, l)
                            cur = cur[1] if isinstance(cur, tuple) and cur and cur[0] == "S" else ()
                            self.write(s2, l, ("S", cur + self.shown(v, cs[1])))
                        out.append((s2, ("stream",)))
                return out
            if op == "=" and len(cs) == 2:
                out = []
                for s, v in self.ev(st, cs[1]):
                    self.write(s, self.lval(s, cs[0]), v); out.append((s, v))
                return out
            if op == "+=" and len(cs) == 2:
                out = []
                for s, v in self.ev(st, cs[1]):
                    l = self.lval(s, cs[0]); self.write(s, l, self.arith("+", self.readl(s, l), v)); out.append((s, v))
                return out
            if op in ("[]",):
                l = self.lval(st, n)
                if l is not None: return [(st, self.readl(st, l))]
                out = []
                for s, (a, i) in self.seq(st, cs): out.append((s, self.elem(a, i)))
                return out
            if op in ("*", "->") and len(cs) == 1: return self.ev(st, cs[0])
            if op == "()":
                r = []
                for s, vs in self.seq(st, cs[:1]):
                    if isinstance(vs[0], tuple) and vs[0] and vs[0][0] == "L":
                        F = self.db.funcs.get(vs[0][1])
                        if F is not None and F.body is not None: r += self.enter(s, F, cs[1:], n, fr=vs[0][2]); continue
                    r.append((s, ("o", frozenset())))
                return r
            if len(cs) == 2 and op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="):
                return [(s, self.arith(op, a, b)) for s, (a, b) in self.seq(st, cs)]
            if op == "!" and len(cs) == 1: return [(s, None) for s, v in self.ev(st, cs[0])]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return self.construct(st, n, cs)
        r = self.byname(m, cs, n.get("obj"))
        if r is not NotImplemented and not (k == "CXXMemberCallExpr" and m in ("size",)):
            out = []
            for s, vs in self.seq(st, cs):
                self.havoc(s, n, cs)
                out.append((s, r))
            return out
        if m == "getline" and len(cs) >= 2:
            out = []
            if st.lines < self.nlines:
                s = st.copy(); s.lines += 1
                self.write(s, self.lval(s, cs[1]), ("S", self.inline()))
                out.append((s, True))
            out.append((st, False))
            return out
        if k == "CXXMemberCallExpr" and not self.own(n): return self.std(st, n, m, cs)
        F = self.own(n)
        if F is not None and self.enterable(st, F, cs, n): return self.enter(st, F, cs, n)
        if m == "to_string" and len(cs) == 1:
            return [(s, ("S", (cell(wordsof(v)),)) if not isinstance(v, int) else text(str(v))) for s, v in self.ev(st, cs[0])]
        if m in ("move", "forward", "ref", "cref") and len(cs) == 1: return self.ev(st, cs[0])
        if m in ("max", "min") and len(cs) == 2:
            f = max if m == "max" else min
            return [(s, f(a, b) if isinstance(a, int) and isinstance(b, int) else opaque(wordsof(a) | wordsof(b))) for s, (a, b) in self.seq(st, cs)]
        if m == "count" and len(cs) == 3:
            o = cs[0].get("obj") if cs[0] is not None else None
            out = []
            for s, v in self.ev(st, o) if o is not None else [(st, None)]:
                for s2, x in self.ev(s, cs[2]):
                    if isinstance(v, tuple) and v and v[0] == "S" and x == ("S", (SEP,)): out.append((s2, sum(1 for i in v[1] if i == SEP)))
                    else: out.append((s2, ("o", frozenset())))
            return out
        out = []
        for s, vs in self.seq(st, cs + ([n["obj"]] if n.get("obj") is not None else [])):
            self.havoc(s, n, cs)
            w = set(words(m))
            if all(isinstance(v, int) and not isinstance(v, bool) for v in vs[:len(cs)]) and cs: w.add("".join("#%d" % v for v in vs[:len(cs)]))
            if m in ("max", "min", "abs", "fabs", "value_or", "vec_to_string"):
                for v in vs: w |= wordsof(v)
            if n.get("t", "").startswith("std::basic_string") or n.get("t", "") == "std::string": out.append((s, ("S", (cell(w),))))
            elif n.get("t", "") == "bool": out.append((s, None))
            else: out.append((s, ("o", frozenset(w))))
        return out

    def inline(self):
        out = []
        for i in range(self.N["nIn"]):
            if i: out.append(SEP)
            out.append(cell(("in%d" % i,)))
        return tuple(out)

    def elem(self, a, i):
        if isinstance(a, tuple) and a and a[0] == "V" and isinstance(i, int) and 0 <= i < len(a[1]): return a[1][i]
        if isinstance(a, tuple) and a and a[0] == "o": return a
        return ("o", frozenset())

    def isstream(self, n):
        t = n.get("t") or ""
        return "stream" in t

    def own(self, n):
        F = self.db.funcs.get(n.get("f"))
        return F if F is not None and F.body is not None else None

    def enterable(self, st, F, cs, n):
        if len(self.stack) > 6 or F in self.stack: return False
        rt = F.d.get("rt") or ""
        if "basic_string" in rt or "stringstream" in rt or rt in ("std::string",) or "ostream" in rt or "ofstream" in rt:
            return "operator<<" not in F.n and "/minimizer/" not in F.file and F.n not in ("vec_to_string",)
        return any("stream" in p["t"] or "vector<std::basic_string" in p["t"] and not p["t"].startswith("const") for p in F.params)

    def enter(self, st, F, cs, n, fr=None):
        out = []
        args = []
        caller = self.fr
        states = [(st, [])]
        for i, p in enumerate(F.params):
            a = cs[i] if i < len(cs) else None
            nx = []
            for s, vs in states:
                if a is None: nx.append((s, vs + [("o", words(p["n"]))])); continue
                l = self.lval(s, a) if p["t"].rstrip().endswith("&") and a is not None else None
                if l is not None and l[0] in s.env: nx.append((s, vs + [("R", l)])); continue
                for s2, v in self.ev(s, a): nx.append((s2, vs + [v]))
            states = nx
        for s, vs in states:
            if fr is None: self.nfr += 1; f = self.nfr
            else: f = fr
            old = (self.F, self.fr); self.F = F; self.fr = f; self.stack.append(F)
            try:
                for p, v in zip(F.params, vs): s.env[(f, p["d"])] = v
                for s2, sig in self.block([F.body], [s]):
                    if sig == "throw": continue
                    v = sig[1] if isinstance(sig, tuple) else None
                    if fr is None:
                        for kk in [kk for kk in s2.env if kk[0] == f]: del s2.env[kk]
                    out.append((s2, v))
            finally:
                self.stack.pop(); self.F, self.fr = old
        return out

    def havoc(self, st, n, cs):
        pts = n.get("pt", []) or []
        for a, p in zip(cs, pts):
            if a is None: continue
            if p.rstrip().endswith("&") and not p.startswith("const") and not p.rstrip().endswith("&&"):
                l = self.lval(st, a)
                if l is not None and l[0] in st.env and not self.isstream(a): self.write(st, l, opaque(a.get("n", "")))

    def std(self, st, n, m, cs):
        o = n.get("obj"); l = self.lval(st, o) if o is not None else None
        if m in ("push_back", "emplace_back", "append", "insert") and l is not None:
            out = []
            for s, vs in self.seq(st, cs):
                cur = self.readl(s, l)
                if m == "append": self.write(s, l, self.arith("+", cur, vs[0])); out.append((s, self.readl(s, l))); continue
                if m == "insert":
                    out.append((s, None))
                    new = self.slice(s, cs[1:]) if len(cs) == 3 else None
                    if isinstance(cur, tuple) and cur and cur[0] == "V" and new is not None: self.write(s, l, ("V", cur[1] + new))
                    elif isinstance(cur, tuple) and cur and cur[0] == "V": self.write(s, l, ("o", frozenset()))
                    continue
                if isinstance(cur, tuple) and cur and cur[0] == "V" and len(cs) == 1: self.write(s, l, ("V", cur[1] + (vs[0],)))
                out.append((s, None))
            return out
        if m in ("clear", "resize", "assign", "reserve") and l is not None:
            out = []
            for s, vs in self.seq(st, cs):
                cur = self.readl(s, l)
                if m == "clear": self.write(s, l, ("S", ()) if isinstance(cur, tuple) and cur and cur[0] == "S" else ("V", ()))
                elif m == "resize":
                    t = o.get("t") or ""
                    if isinstance(vs[0], int) and isinstance(cur, tuple) and cur and cur[0] == "V":
                        d = vs[1] if len(vs) > 1 else 0 if "vector<int" in t else ("S", ()) if "stream" in t or "basic_string" in t else ("o", frozenset())
                        self.write(s, l, ("V", cur[1][:vs[0]] + (d,) * (vs[0] - len(cur[1]))))
                    else: self.write(s, l, ("D", (), ("S", ()) if "stream" in t else ("o", frozenset())))
                elif m == "assign" and len(vs) == 2 and isinstance(vs[0], int): self.write(s, l, ("V", (vs[1],) * vs[0]))
                out.append((s, None))
            return out
        if m in ("size", "length", "empty") and o is not None:
            out = []
            for s, v in self.ev(st, o):
                if isinstance(v, tuple) and v and v[0] == "V": out.append((s, len(v[1]) if m != "empty" else not v[1]))
                else:
                    r = self.sizeof(s, o)
                    out.append((s, (r if m != "empty" else r == 0) if r is not None else None if m == "empty" else ("o", frozenset())))
            return out
        if m == "str" and not cs: return self.ev(st, o)
        if m == "str" and len(cs) == 1 and l is not None:
            out = []
            for s, v in self.ev(st, cs[0]): self.write(s, l, v); out.append((s, None))
            return out
        if m in ("at", "front", "back"):
            if l is not None and l[0] in st.env:
                l2 = self.lval(st, n)
                if l2 is not None: return [(st, self.readl(st, l2))]
            out = []
            for s, vs in self.seq(st, [o] + cs):
                i = vs[1] if m == "at" else 0 if m == "front" else -1
                if m == "back" and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == "V" and vs[0][1]: out.append((s, vs[0][1][-1]))
                else: out.append((s, self.elem(vs[0], i)))
            return out
        if m in ("close", "precision", "flush", "open", "setf", "width", "fill"):
            out = []
            for s, vs in self.seq(st, cs):
                if m in ("close", "open") and l is not None and "ofstream" in (o.get("t") or ""): self.finish(s, l[0] if not l[1] else None, m == "open")
                out.append((s, None))
            return out
        if m == "append" and l is None and o is not None and cs:
            return [(s, self.arith("+", vs[0], vs[1])) for s, vs in self.seq(st, [o, cs[0]])]
        if m == "operator bool" and o is not None and o["k"] in CALLS: return self.ev(st, o)
        if m in ("good", "is_open", "eof", "fail", "bad", "operator bool", "has_value"):
            return [(st, None)]
        if m in ("value_or", "value", "get", "c_str", "load"):
            return [(s, v) for s, v in self.ev(st, o)]
        if m in ("begin", "end", "cbegin", "cend"): return [(st, ("o", frozenset()))]
        out = []
        for s, vs in self.seq(st, cs + ([o] if o is not None else [])):
            self.havoc(s, n, cs)
            w = set(words(m))
            if cs and all(isinstance(v, int) and not isinstance(v, bool) for v in vs[:len(cs)]): w.add("".join("#%d" % v for v in vs[:len(cs)]))
            out.append((s, None if n.get("t", "") == "bool" else ("o", frozenset(w))))
        return out

    def sizeof(self, st, o):
        """declared number of elements of a vector that is a member: one number, or one per element of the vector holding it"""
        r = self.N.get((o.get("n") or "") + ".size")
        if not isinstance(r, tuple): return r
        x = o
        while x is not None:
            i = None
            if x["k"] == "CXXMemberCallExpr" and (x.get("q") or "").split("::")[-1] == "at": i, nx = x["c"][0], x.get("obj")
            elif x["k"] == "CXXOperatorCallExpr" and x.get("op") == "[]": nx, i = x["c"]
            elif x["k"] == "DeclRefExpr" and x.get("dk") == "var":
                j = self.which.get((self.fr, x["d"]))
                return r[j % len(r)] if j is not None else None
            else: nx = (x.get("c") or [None])[0]
            if i is not None:
                v = self.ev(st, i)
                if len(v) == 1 and isinstance(v[0][1], int): return r[v[0][1] % len(r)]
                return None
            x = nx
        return None

    def fieldvecs(self):
        """variables of the function handed to MinimizeOrderVEV: points of the field space, one number per field with a VEV"""
        if self.F not in self._fv:
            out = set()
            for x in self.F.walk():
                if x["k"] in CALLS and (x.get("q") or "").split("::")[-1] == "MinimizeOrderVEV":
                    for a in x.get("c", []) or []:
                        while a is not None and a["k"] != "DeclRefExpr" and a.get("c"): a = a["c"][0]
                        if a is not None and a["k"] == "DeclRefExpr": out.add(a.get("d"))
            self._fv[self.F] = out
        return self._fv[self.F]

    def shown(self, v, n):
        """items << writes for the expression n of value v"""
        if isinstance(v, tuple) and v and v[0] == "o" and "vector<" in (n.get("t") or ""):
            x = n
            while x["k"] != "DeclRefExpr" and x["k"] in ("ImplicitCastExpr", "ParenExpr") and x.get("c"): x = x["c"][0]
            if x["k"] == "DeclRefExpr" and x.get("d") in self.fieldvecs():
                return items(("V", tuple(("o", frozenset(("vev%d" % i,)) | v[1]) for i in range(self.N["nVEV"]))))
            return (("u", v[1]),)
        return items(v)

    def slice(self, st, es):
        """begin/end of one vector"""
        os = [e.get("obj") if e is not None and e["k"] == "CXXMemberCallExpr" else None for e in es]
        if None in os: return None
        r = self.ev(st, os[0])
        if len(r) == 1 and isinstance(r[0][1], tuple) and r[0][1] and r[0][1][0] == "V": return r[0][1][1]
        return None

    def finish(self, st, key, reopen=False):
        """a table is complete"""
        if key is None: return
        v = st.env.get(key)
        if isinstance(v, tuple) and v and v[0] == "S" and v[1]:
            st.tables = st.tables + ((key[1], v[1]),) if (key[1], v[1]) not in st.tables else st.tables
        if reopen or True: st.env[key] = ("S", ())

    def construct(self, st, n, cs):
        t = (n.get("t") or "").replace("const ", "").strip()
        args = [c for c in cs if c is not None and c["k"] != "CXXDefaultArgExpr"]
        if "ofstream" in t or "stringstream" in t or "ostringstream" in t:
            if "stringstream" in t and args:
                return [(s, v if isinstance(v, tuple) and v and v[0] == "S" else ("S", ())) for s, v in self.ev(st, args[0])]
            return [(s, ("S", ())) for s, vs in self.seq(st, args)]
        if t.startswith(("std::basic_string", "std::string")):
            if not args: return [(st, ("S", ()))]
            return [(s, v if isinstance(v, tuple) and v and v[0] == "S" else ("S", (cell(wordsof(v)),))) for s, v in self.ev(st, args[0])]
        if t.startswith("std::vector<"):
            if not args: return [(st, ("V", ()))]
            out = []
            for s, vs in self.seq(st, args):
                if isinstance(vs[0], int) and not isinstance(vs[0], bool):
                    d = vs[1] if len(vs) > 1 else 0 if t.startswith(("std::vector<int", "std::vector<unsigned", "std::vector<long")) else ("S", ()) if "stream" in t or t.startswith("std::vector<std::basic_string") else ("o", frozenset())
                    out.append((s, ("V", (d,) * max(0, vs[0]))))
                elif len(vs) == 2 and self.slice(s, args) is not None: out.append((s, ("V", self.slice(s, args))))
                elif "stream" in t and len(vs) == 1 and not (isinstance(vs[0], tuple) and vs[0] and vs[0][0] == "V"): out.append((s, ("D", (), ("S", ()))))
                else: out.append((s, vs[0]))
            return out
        if t.startswith("std::pair<") and len(args) == 2:
            return [(s, ("P", a, b)) for s, (a, b) in self.seq(st, args)]
        if len(args) == 1: return self.ev(st, args[0])
        return [(s, ("o", frozenset())) for s, vs in self.seq(st, args)]

    # ------------------------------------------------------------ statements: [(state, signal)]
    def block(self, stmts, states):
        live = [(s, None) for s in states]; done = []
        for x in stmts:
            nx = []
            for s, sig in live:
                for s2, g in self.stmt(x, s):
                    (nx if g is None else done).append((s2, g))
            live = self.merge(nx)
            if not live: break
        return self.merge(live + done)

    def merge(self, xs):
        if len(xs) < 2: return xs
        seen = set(); out = []
        for s, g in xs:
            k = (s.key(), g)
            if k in seen: continue
            seen.add(k); out.append((s, g))
        if len(out) > LIMIT: raise TooMany("states")
        return out

    def both(self, st, cond):
        """[(state, True/False)]"""
        out = []
        for s, v in self.ev(st, cond):
            if isinstance(v, bool): out.append((s, v))
            elif isinstance(v, int): out.append((s, v != 0))
            else: out.append((s.copy(), True)); out.append((s, False))
        return out

    def stmt(self, n, st):
        if n is None: return [(st, None)]
        k = n["k"]
        if k == "CompoundStmt": return self.block(n.get("c", []) or [], [st])
        if k == "DeclStmt":
            states = [st]
            for v in n.get("decls", []) or []:
                nx = []
                for s in states: nx += self.decl(s, v)
                states = nx
            return [(s, None) for s in states]
        if k == "IfStmt":
            out = []
            pre = self.block([x for x in (n.get("init"), n.get("cv")) if x], [st]) if n.get("init") or n.get("cv") else [(st, None)]
            for s0, _ in pre:
                for s, b in self.both(s0, n.get("cond")):
                    x = n.get("then") if b else n.get("else")
                    out += self.stmt(x, s) if x is not None else [(s, None)]
            return self.merge(out)
        if k in ("ForStmt", "WhileStmt", "DoStmt"): return self.loop(n, st)
        if k == "CXXForRangeStmt": return self.forrange(n, st)
        if k == "ReturnStmt":
            c = (n.get("c") or [None])[0]
            return [(s, ("ret", v)) for s, v in self.ev(st, c)]
        if k == "BreakStmt": return [(st, "break")]
        if k == "ContinueStmt": return [(st, "continue")]
        if k == "CXXThrowExpr": return [(st, "throw")]
        if k == "CXXTryStmt": return [(s, g) for s, g in self.stmt(n.get("body"), st) if g != "throw"]
        if k == "SwitchStmt":
            out = [(st.copy(), None)]
            body = (n.get("body") or {}).get("c", []) or []
            for i, x in enumerate(body):
                if x["k"] in ("CaseStmt", "DefaultStmt"):
                    for s, g in self.block(body[i:], [st.copy()]): out.append((s, None if g == "break" else g))
            return self.merge(out)
        if k in ("CaseStmt", "DefaultStmt"): return self.stmt(n.get("body"), st)
        if k in ("NullStmt",): return [(st, None)]
        if k == "ExprWithCleanups" and n.get("c") and n["c"][0]["k"] == "CXXThrowExpr": return [(st, "throw")]
        return [(s, None) for s, v in self.ev(st, n)]

    def decl(self, st, v):
        key = (self.fr, v["d"]); t = v["t"]; init = (v.get("c") or [None])[0]
        if "ofstream" in t and key in st.env: self.finish(st, key)
        if t.rstrip().endswith("&") and init is not None:
            l = self.lval(st, init)
            if l is not None and l[0] in st.env: st.env[key] = ("R", l); return [st]
        if init is None:
            st.env[key] = ("S", ()) if "stream" in t else 0 if False else ("o", words(v["n"])); return [st]
        out = []
        for s, x in self.ev(st, init):
            if x is None: x = ("o", frozenset())
            if isinstance(x, tuple) and x and x[0] == "o" and not x[1]: x = opaque(v["n"])
            if isinstance(x, tuple) and x and x[0] == "stream": x = ("S", ())
            s.env[key] = x; out.append(s)
        return out

    def loop(self, n, st):
        states = [st]
        if n.get("init") is not None: states = [s for s, g in self.stmt(n["init"], st)]
        out = []; guess = {}
        rounds = 0
        first = n["k"] == "DoStmt"
        live = [(s, 0) for s in states]       # (state, undecided rounds)
        while live:
            rounds += 1
            if rounds > 400: raise TooMany("loop")
            nx = []
            for s, und in live:
                cond = n.get("cond")
                if first or cond is None: br = [(s, True, False)]
                else:
                    br = []
                    for s1, v in self.ev(s, cond):
                        if isinstance(v, bool): br.append((s1, v, False))
                        elif isinstance(v, int): br.append((s1, v != 0, False))
                        else:
                            br.append((s1.copy(), False, True))
                            if und < 2: br.append((s1, True, True))
                for s1, b, u in br:
                    if not b: out.append((s1, None)); continue
                    for s2, g in self.stmt(n.get("body"), s1):
                        if g == "break": out.append((s2, None)); continue
                        if g not in (None, "continue"): out.append((s2, g)); continue
                        if n.get("inc") is not None:
                            for s3, _ in self.ev(s2, n["inc"]): nx.append((s3, und + u))
                        else: nx.append((s2, und + u))
            first = False
            seen = set(); live = []
            for s, u in nx:
                kk = (s.key(), u)
                if kk not in seen: seen.add(kk); live.append((s, u))
            if len(live) > LIMIT: raise TooMany("states")
            out = self.merge(out)
        return out

    def forrange(self, n, st):
        out = []
        key = (self.fr, n["var"]["d"])
        rng = n.get("range"); byref = n["var"]["t"].rstrip().endswith("&")
        for s, v in self.ev(st, rng):
            l = self.lval(s, rng)
            if isinstance(v, tuple) and v and v[0] in ("V", "S"):
                live = [s]
                xs = v[1] if v[0] == "V" else tuple(("S", (i,)) for i in v[1])
                for i, x in enumerate(xs):
                    nx = []
                    for s1 in live:
                        s1.env[key] = ("R", (l[0], l[1] + (i,))) if byref and l is not None and l[0] in s1.env and v[0] == "V" else x
                        for s2, g in self.stmt(n.get("body"), s1):
                            if g == "break": out.append((s2, None))
                            elif g not in (None, "continue"): out.append((s2, g))
                            else: nx.append((s2, None))
                    live = [a for a, _ in self.merge(nx)]
                out += [(s1, None) for s1 in live]
                continue
            r = self.sizeof(s, rng) if rng is not None else None
            live = [s]
            for i in range(r if r is not None else 2):
                self.which[key] = i
                if r is None: out += [(s1.copy(), None) for s1 in live]
                nx = []
                for s1 in live:
                    s1.env[key] = ("o", wordsof(v))
                    for s2, g in self.stmt(n.get("body"), s1):
                        if g == "break": out.append((s2, None))
                        elif g not in (None, "continue"): out.append((s2, g))
                        else: nx.append((s2, None))
                live = [a for a, _ in self.merge(nx)]
            out += [(s1, None) for s1 in live]
        return self.merge(out)

    # ------------------------------------------------------------ whole function
    def run(self):
        """set of complete tables: (stream declaration, items)"""
        self.nfr += 1; self.fr = self.nfr
        st = State()
        for p in self.F.params: st.env[(self.fr, p["d"])] = opaque(p["n"])
        tabs = set()
        for s, g in self.block([self.F.body], [st]):
            if g == "throw": continue
            for k, v in list(s.env.items()):
                if isinstance(v, tuple) and v and v[0] == "S" and k[0] == self.fr and k[1] in self.ofs(): self.finish(s, k)
            for t in s.tables: tabs.add(t)
        return tabs

    def ofs(self):
        if not hasattr(self, "_ofs"):
            self._ofs = set()
            for n in self.F.walk():
                for v in n.get("decls", []) or []:
                    if "ofstream" in v["t"]: self._ofs.add(v["d"])
        return self._ofs


def split(its, x):
    out = [[]]
    for i in its:
        if i == x: out.append([])
        else: out[-1].append(i)
    return out
