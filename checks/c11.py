"""Value-flow audit on the typed AST. Sources: integer quotients that are not exact by construction, real-to-integer
conversions other than through an explicit rounding function, text parsed as integer, integer-seeded accumulations of
reals, double-to-single conversions. Flow: through arithmetic, casts, conditionals, locals, fields, parameters, returns
and containers (flow-insensitive fixpoint over the program). Sink: any place where the value becomes (part of) a
real-valued quantity (integral-to-floating conversion, argument of a real-valued math function)."""
from core import walk, kids, CALLS

EXPLANATION = ("Every division, numeric conversion, parse and accumulation in the program database was inspected; each "
               "integer quotient / truncated real was followed through the program to see whether it becomes part of a "
               "real-valued quantity.")
ROUND = {"floor", "ceil", "round", "trunc", "lround", "llround", "rint", "nearbyint", "lrint", "llrint"}
INTS = {"int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "long long", "unsigned long long",
        "char", "unsigned char", "signed char"}
FLOATS = {"double", "long double", "float"}
PARSERS = {"stoi", "stol", "stoul", "atoi", "atol", "stoll", "stoull", "get_value"}
# integer members that hold a discrete label read from a real-valued parameter list (Yukawa type 1..4)
SELECTORS = {"Type"}
# exact by arithmetic: result * (n-i+1) is divisible by i in the binomial recurrence
EXACT = {"BSMPT::BounceActionInt::nChoosek|integer quotient"}
PASS = {"abs", "labs", "min", "max", "pow", "move", "forward", "get", "at", "operator[]", "front", "back", "fabs", "clamp"}


def base(t):
    t = (t or "").replace("const ", "").replace(" const", "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


def is_int(t): return base(t) in INTS
def is_flt(t): return base(t) in FLOATS


def const_int(n):
    if n is None: return None
    if n["k"] == "IntegerLiteral": return int(n["v"])
    if n["k"] == "UnaryOperator" and n["op"] in "+-":
        v = const_int(n["c"][0]); return None if v is None else (-v if n["op"] == "-" else v)
    if n["k"].endswith("CastExpr") and n.get("ck") in ("IntegralCast", "NoOp", None):
        return const_int(n["c"][0]) if n.get("c") else None
    if n["k"] == "BinaryOperator" and n["op"] in "+-*/":
        a, b = const_int(n["c"][0]), const_int(n["c"][1])
        if a is None or b is None: return None
        if n["op"] == "/": return a // b if b and a % b == 0 else None
        return a + b if n["op"] == "+" else a - b if n["op"] == "-" else a * b
    return None


def const_flt(n):
    if n["k"] in ("FloatingLiteral", "IntegerLiteral"): return float(n["v"])
    if n["k"] == "UnaryOperator" and n["op"] in "+-" and n.get("c"):
        v = const_flt(n["c"][0]); return None if v is None else (-v if n["op"] == "-" else v)
    if n["k"].endswith("CastExpr") and n.get("c"): return const_flt(n["c"][0])
    if n["k"] == "CallExpr" and n.get("q") == "std::pow" and len(n["c"]) == 2:
        a, b = const_flt(n["c"][0]), const_flt(n["c"][1])
        try:
            return None if a is None or b is None else a ** b
        except Exception:
            return None
    return None


def skip_casts(n):
    while n and (n["k"].endswith("CastExpr") or n["k"] in ("CXXFunctionalCastExpr", "CXXDefaultArgExpr")) and n.get("c"):
        n = n["c"][0]
    return n


def last(q): return (q or "").split("::")[-1].split("<")[0]


class Flow:
    def __init__(self, db, rep):
        self.db = db; self.rep = rep
        self.var = {}    # key -> {src: desc}
        self.ret = {}    # func id -> {src: desc}
        self.changed = True; self.hits = {}
        self.nsrc = {}
        self.intval = {}

    def integral_locals(self, F):
        """keys of real-typed locals (or local containers of reals) that only ever hold integer values"""
        r = self.root(F)
        if r in self.intval: return self.intval[r]
        good, bad = set(), set()
        R = self.db.funcs.get(r, F)
        for n in R.walk():
            if n["k"] == "VarDecl" and (is_flt(n["t"]) or base(n["t"]).startswith("std::vector<double")):
                init = (n.get("c") or [None])[0]
                if init is None or is_flt(n["t"]) and self.intexpr(init) or \
                        (not is_flt(n["t"]) and init["k"] in CALLS and (not init.get("c") or is_int(init["c"][0]["t"]))):
                    good.add(n["d"])
                else: bad.add(n["d"])
            elif n["k"] == "DeclRefExpr" and n.get("dk") in ("var", "parm") and (is_flt(n["t"]) or base(n["t"]).startswith("std::vector<double")):
                p = R.parent(n); x = n
                if p is not None and p["k"] == "CXXOperatorCallExpr" and p.get("op") == "[]" and p["c"][0] is n:
                    x = p; p = R.parent(p)
                if p is None: continue
                if p["k"] == "BinaryOperator" and p["op"] == "=" and p["c"][0] is x:
                    if not self.intexpr(p["c"][1]): bad.add(n["d"])
                elif p["k"] == "CompoundAssignOperator" and p["c"][0] is x: bad.add(n["d"])
                elif p["k"] == "UnaryOperator" and p["op"] == "&": bad.add(n["d"])
                elif p["k"] in CALLS and x.get("lv") and not (p.get("op") in ("[]",)):
                    # may be written through a reference
                    if not (p["k"] == "CXXMemberCallExpr" and p.get("obj") is x and p.get("cm")): 
                        i = next((i for i, c in enumerate(p.get("c", [])) if c is x), None)
                        off = 1 if p["k"] == "CXXOperatorCallExpr" and len(p.get("pt", [])) < len(p.get("c", [])) else 0
                        pt = p.get("pt", [])
                        if i is None or i - off >= len(pt) or i - off < 0 or ("&" in pt[i - off] and "const" not in pt[i - off]):
                            bad.add(n["d"])
        self.intval[r] = good - bad
        return self.intval[r]

    def intexpr(self, n):
        if n.get("ck") == "IntegralToFloating": return True
        if n["k"] == "FloatingLiteral": return float(n["v"]) == int(float(n["v"]))
        return False

    def scope(self, F):
        return not ("/asciiplotter/" in F.file)

    def add(self, table, key, s):
        if not s: return
        cur = table.setdefault(key, {})
        for k, v in s.items():
            if k not in cur:
                cur[k] = v; self.changed = True

    def vkey(self, F, n):
        """storage key of an lvalue-ish expression"""
        n = skip_casts(n)
        if n is None: return None
        if n["k"] == "DeclRefExpr":
            if n["dk"] in ("var", "parm"): return (self.root(F), n["d"])
            if n["dk"] in ("global",): return n["d"]
            return None
        if n["k"] == "MemberExpr" and n.get("dk") == "field": return n["d"]
        if n["k"] in ("CXXOperatorCallExpr",) and n.get("op") in ("[]", "()", "*"):
            return self.vkey(F, n["c"][0])
        if n["k"] == "CXXMemberCallExpr" and last(n.get("q")) in ("at", "front", "back", "data"):
            return self.vkey(F, n.get("obj")) if n.get("obj") else None
        if n["k"] == "ArraySubscriptExpr" or (n["k"] == "UnaryOperator" and n["op"] == "*"):
            return self.vkey(F, n["c"][0])
        return None

    def root(self, F):
        while F.owner is not None and F.d.get("lambda"): F = F.owner
        return F.id

    def src(self, F, n, what):
        k = "%s|%s" % (F.q, what)
        self.nsrc[(F.file, n.get("l"), what)] = 1
        return {(F.q, what, F.loc(n)): what}

    def ev(self, F, n, out):
        """taint of an expression of integer (or float for single precision) type"""
        k = n["k"]
        r = {}
        if k == "BinaryOperator":
            op = n["op"]
            a, b = n["c"][0], n["c"][1]
            if op == "=":
                s = self.ev(F, b, out)
                key = self.vkey(F, a)
                if key is not None: self.add(self.var, key, s)
                self.ev(F, a, out)
                return s
            ra = self.ev(F, a, out); rb = self.ev(F, b, out)
            if op == "/" and is_int(n["t"]) and const_int(n) is None:
                r.update(self.src(F, n, "integer quotient"))
            if op in ("+", "-", "*", "/", ",", "%", "<<", ">>", "&", "|", "^") and (is_int(n["t"]) or base(n["t"]) == "float"):
                if op == ",": r.update(rb)
                elif op in ("/", "%"): r.update(ra); r.update(rb)
                else: r.update(ra); r.update(rb)
            if op == "%": r = {}
            return r
        if k == "CompoundAssignOperator":
            a, b = n["c"][0], n["c"][1]
            s = self.ev(F, b, out); self.ev(F, a, out)
            if n["op"] == "/=" and is_int(a["t"]): s = {**s, **self.src(F, n, "integer quotient")}
            if is_int(a["t"]) and is_flt(b["t"]):
                # computed in real arithmetic and cut on assignment
                s = {**s, **self.src(F, n, "real cut to integer")}
            key = self.vkey(F, a)
            if key is not None and (is_int(a["t"]) or base(a["t"]) == "float"): self.add(self.var, key, s)
            return s
        if k == "UnaryOperator":
            s = self.ev(F, n["c"][0], out)
            return s if n["op"] in ("-", "+", "*", "++", "--") else {}
        if k == "ConditionalOperator":
            self.ev(F, n["c"][0], out)
            r.update(self.ev(F, n["c"][1], out)); r.update(self.ev(F, n["c"][2], out))
            return r
        if k.endswith("CastExpr"):
            if not n.get("c"): return {}
            s = self.ev(F, n["c"][0], out)
            ck = n.get("ck")
            if ck == "FloatingToIntegral":
                x = skip_casts(n["c"][0])
                cv = const_flt(n["c"][0])
                if x["k"] == "CallExpr" and last(x.get("q")) in ROUND: return {}
                if cv is not None and cv == int(cv): return {}
                key = self.vkey(F, x)
                if isinstance(key, tuple) and key[1] in self.integral_locals(F): return {}
                if x["k"] in ("DeclRefExpr", "CXXOperatorCallExpr", "MemberExpr") and self.selector(F, n): return {}
                return self.src(F, n, "real cut to integer")
            if ck == "IntegralToFloating":
                x = skip_casts(n["c"][0])
                if x["k"] in CALLS and is_int(x["t"]) and (last(x.get("q")) in PARSERS):
                    s = self.src(F, x, "text parsed as integer (%s)" % self.lhs(F, n))
                p = F.parent(n)
                if p is not None and p["k"] == "CallExpr" and last(p.get("q")) in ROUND:
                    pp = F.parent(p)
                    if pp is not None and pp.get("ck") == "FloatingToIntegral": return {}
                self.sink(F, n, s); return {}
            if ck == "FloatingCast" and base(n["t"]) == "float":
                cv = const_flt(n["c"][0])
                return self.src(F, n, "double shortened to float")
            if ck == "FloatingCast":
                self.sink(F, n, s); return {}
            if ck == "IntegralToBoolean" or ck == "FloatingToBoolean": return {}
            return s
        if k in ("DeclRefExpr", "MemberExpr"):
            for c in kids(n): self.ev(F, c, out)
            key = self.vkey(F, n)
            return dict(self.var.get(key, {})) if key is not None else {}
        if k in CALLS or k == "ArraySubscriptExpr":
            args = list(n.get("c", []))
            ss = [self.ev(F, a, out) for a in args if a]
            so = self.ev(F, n["obj"], out) if n.get("obj") else {}
            if n.get("fnexpr"): self.ev(F, n["fnexpr"], out)
            if k == "ArraySubscriptExpr": return ss[0] if ss else {}
            name = last(n.get("q"))
            q = n.get("q") or ""
            tgt = []
            if n.get("f"):
                tgt = self.db.resolve(n["f"]) if n.get("virt") else ([self.db.funcs[n["f"]]] if n["f"] in self.db.funcs else [])
            if n["k"] == "CXXOperatorCallExpr" and tgt and tgt[0].d.get("lambda"):
                # lambda call: arg 0 is the closure
                for T in tgt:
                    for p, s in zip(T.params, ss[1:]): self.add(self.var, (self.root(T), p["d"]), s)
                    r.update(self.ret.get(T.id, {}))
                return r
            if tgt:
                off = 1 if (k == "CXXOperatorCallExpr" and tgt[0].cls) else 0
                for T in tgt:
                    for p, s in zip(T.params, ss[off:]): self.add(self.var, (self.root(T), p["d"]), s)
                    r.update(self.ret.get(T.id, {}))
                if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return {}
                return r
            if name in ("accumulate", "inner_product", "reduce") and is_int(n["t"]) and n.get("pt") and \
                    any("double" in p for p in n["pt"][:2]):
                return self.src(F, n, "integer-seeded accumulation of reals")
            if is_flt(n["t"]) and q.startswith("std::") or (is_flt(n["t"]) and n["k"] == "CallExpr"):
                # math function of real result: integer-typed arguments become real inside
                p = F.parent(n)
                if name in ROUND and p is not None and p.get("ck") == "FloatingToIntegral": return {}
                for a, s in zip(args, ss):
                    if a and is_int(a["t"]): self.sink(F, a, s)
                return {}
            if k == "CXXOperatorCallExpr" and n.get("op") in ("=", "+=", "-=", "*=") and args:
                key = self.vkey(F, args[0])
                if key is not None and len(ss) > 1 and ("int" in args[0]["t"] or "long" in args[0]["t"] or "float" in args[0]["t"]):
                    self.add(self.var, key, ss[1])
                return ss[0]
            if k == "CXXMemberCallExpr" and name in ("push_back", "emplace_back", "insert", "assign", "resize", "push") and n.get("obj"):
                ot = n["obj"]["t"]
                if any("<%s," % i in ot for i in INTS | {"float"}) and name != "resize":
                    key = self.vkey(F, n["obj"])
                    if key is not None:
                        for s in ss: self.add(self.var, key, s)
                elif "<double" in ot and name in ("push_back", "emplace_back"):
                    for a, s in zip(args, ss):
                        if a and is_int(a["t"]): self.sink(F, a, s)
                return {}
            if name in PASS:
                for s in ss[:2 if name not in ("operator[]", "at") else 1]: r.update(s)
                r.update(so)
                return r
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if "initializer_list" in "".join(n.get("pt", [])) or len(args) == 1:
                    for s in ss: r.update(s)
                return r
            return r
        if k == "InitListExpr":
            for c in kids(n): r.update(self.ev(F, c, out))
            return r
        if k == "CXXStdInitializerListExpr":
            for c in kids(n): r.update(self.ev(F, c, out))
            return r
        if k == "LambdaExpr":
            for c in kids(n): self.ev(F, c, out)
            return {}
        # statements
        if k == "DeclStmt":
            for v in n.get("decls", []): self.decl(F, v, out)
            return {}
        if k == "VarDecl":
            self.decl(F, n, out); return {}
        if k == "ReturnStmt":
            for c in kids(n):
                s = self.ev(F, c, out)
                if is_int(F.d["rt"]) or base(F.d["rt"]) == "float" or "vector<int" in F.d["rt"]: self.add(self.ret, F.id, s)
            return {}
        for c in kids(n): self.ev(F, c, out)
        return {}

    def lhs(self, F, n):
        for a in F.ancestors(n):
            if a["k"] == "BinaryOperator" and a["op"] == "=":
                t = skip_casts(a["c"][0]); return t.get("n", "?")
            if a["k"] == "VarDecl": return a["n"]
        return "?"

    def selector(self, F, n):
        """the conversion stores a discrete label (exception table)"""
        p = F.parent(n)
        while p is not None and p["k"].endswith("CastExpr"): p = F.parent(p)
        if p is not None and p["k"] == "BinaryOperator" and p["op"] == "=":
            t = skip_casts(p["c"][0])
            return t["k"] == "MemberExpr" and t.get("q", "").split("::")[-1] in SELECTORS
        return False

    def decl(self, F, v, out):
        for c in v.get("c", []):
            if c:
                s = self.ev(F, c, out)
                t = base(v["t"])
                if is_int(t) or t == "float" or any("<%s," % i in t for i in INTS) or "initializer" in t:
                    self.add(self.var, (self.root(F), v["d"]), s)

    def sink(self, F, n, s):
        for (q, what, loc), w in s.items():
            if what.startswith("real cut") and False: continue
            self.hits.setdefault((q, what, loc), []).append((F.q, F.loc(n)))


def run(db, rep):
    fl = Flow(db, rep)
    fs = [F for F in db.all() if fl.scope(F) and not F.d.get("implicit")]
    rep.need(len(fs) > 300, "only %d functions" % len(fs))
    it = 0
    while fl.changed and it < 12:
        fl.changed = False; it += 1
        for F in fs:
            for i in F.d.get("inits", ()):
                if i.get("init"):
                    s = fl.ev(F, i["init"], None)
                    if i.get("d"): fl.add(fl.var, i["d"], s)
            if F.body: fl.ev(F, F.body, None)
    for (q, f, l), r in db.records.items():
        for fd in r["fields"]:
            if fd.get("init"):
                class X: pass
    ndiv = nconv = 0
    for F in fs:
        for n in F.walk():
            if n["k"] == "BinaryOperator" and n["op"] == "/": ndiv += 1
            if n.get("ck") in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast"): nconv += 1
    rep.count("functions", len(fs)); rep.count("divisions", ndiv); rep.count("numeric_conversions", nconv)
    rep.count("truncating_sources_followed", len(fl.nsrc))
    rep.need(ndiv > 500 and nconv > 500, "hardly any arithmetic found")
    rep.ok(ndiv + nconv)
    ordn = {}
    for (q, what, loc), where in sorted(fl.hits.items()):
        sq = q.split("<")[0]
        if "%s|%s" % (sq, what) in EXACT: continue
        rep.bad("%s|%s" % (sq, what), loc, "%s in %s becomes part of a real-valued quantity at %s" % (what, sq, where[0][1]))
    # storing reals in single precision
    for F in fs:
        for n in F.walk():
            if n["k"] == "VarDecl" and base(n["t"]) == "float":
                rep.bad("%s|float variable %s" % (F.q, n["n"]), F.loc(n), "real quantity kept in single precision")
        for p in F.params:
            if base(p["t"]) == "float":
                rep.bad("%s|float parameter %s" % (F.q, p["n"]), F.loc(), "real quantity passed in single precision")
        if base(F.d["rt"]) == "float":
            rep.bad("%s|float result" % F.q, F.loc(), "real quantity returned in single precision")
    for (q, f, l), r in db.records.items():
        if "/asciiplotter/" in f: continue
        for fd in r["fields"]:
            if base(fd["t"]) == "float" or "<float" in fd["t"]:
                rep.bad("%s|float member %s" % (q, fd["n"]), "%s:%d" % (f, fd["l"]), "real quantity kept in single precision")
