"""Command-line options of the programs: declared keys, read keys and where their values flow."""
from core import walk, kids, CALLS
from cfg import CFG, skip_casts, const_eval
from util import lit, programs, program_functions

PARSER = "BSMPT::parser"
GET = {PARSER + "::get_value", PARSER + "::get_value_as_string", PARSER + "::get_value_lower_string"}


def base_q(q): return (q or "").split("<")[0]


class Read:
    def __init__(s, key, F, node, site, siteF): s.key = key; s.F = F; s.node = node; s.site = site; s.siteF = siteF


class Program:
    def __init__(self, db, main):
        self.db = db; self.main = main
        self.funcs = program_functions(db, main)
        ids = {F.id for F in self.funcs}
        self.callers = {}
        for F in self.funcs:
            for n, tg in db.callees(F):
                for t in tg: self.callers.setdefault(t.id, []).append((F, n))
        self.declared = {}     # key -> (required, F, node)
        self.display = {}
        self.reads = []
        self.unknown = []
        self._collect()

    # ---------------------------------------------------------------- strings
    def strings(self, F, e, depth=0):
        """[(string, call context (F, node) or None)] an expression may be; None when not a constant"""
        e = skip_casts(e)
        v = lit(e)
        if isinstance(v, str): return [(v, None)]
        if e is None or depth > 5: return None
        while e["k"] in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr") and \
                [x for x in e.get("c", []) if x]:
            e = skip_casts(e["c"][0])
        v = lit(e)
        if isinstance(v, str): return [(v, None)]
        if e["k"] in CALLS and (e.get("q") or "").endswith("::to_lower"): return self.strings(F, e["c"][0], depth + 1)
        if e["k"] in ("DeclRefExpr", "MemberExpr") and e.get("dk") in ("var", "parm", "global"):
            d = e.get("d")
            for i, p in enumerate(F.params):
                if p["d"] == d:
                    out = []
                    for G, c in self.callers.get(F.id, ()):
                        if c["k"] not in CALLS: 
                            for H, c2 in self.lambda_calls(F): out += self._arg(H, c2, i + (1 if c2["k"] == "CXXOperatorCallExpr" else 0), depth) or []
                            continue
                        r = self._arg(G, c, i, depth)
                        if r is None: return None
                        out += r
                    return out or None
            X = F
            while X is not None:
                for n in X.walk():
                    if n["k"] == "VarDecl" and n["d"] == d and n.get("c") and n["c"][0]: return self.strings(X, n["c"][0], depth + 1)
                    if n["k"] == "CXXForRangeStmt" and n["var"]["d"] == d:
                        ss = [(m["v"], None) for m in walk(n["range"]) if m["k"] == "StringLiteral"]
                        r = skip_casts(n["range"])
                        if not ss and r["k"] == "DeclRefExpr":
                            for m in X.walk():
                                if m["k"] == "VarDecl" and m["d"] == r.get("d"): ss = [(y["v"], None) for y in walk(m) if y["k"] == "StringLiteral"]
                        return ss or None
                if X.d.get("lambda") and X.owner is not None:
                    for i, p in enumerate(X.owner.params):
                        if p["d"] == d: return self.strings(X.owner, e, depth + 1)
                X = X.owner if X.d.get("lambda") else None
            g = [x for x in self.db.globals.values() if x["q"] == e.get("q")]
            if g and g[0]["v"].get("c") and g[0]["v"]["c"][0]: return self.strings(F, g[0]["v"]["c"][0], depth + 1)
        return None

    def lambda_calls(self, L):
        out = []
        for F in self.funcs:
            for n in F.calls():
                if n.get("f") == L.id or (L.d.get("lambda") and n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()" and n.get("f") == L.id):
                    out.append((F, n))
        return out

    def _arg(self, G, c, i, depth):
        if c["k"] == "CXXOperatorCallExpr" and c.get("op") == "()": i += 1
        a = c.get("c", [])
        if i >= len(a): return None
        r = self.strings(G, a[i], depth + 1)
        return None if r is None else [(s, ctx or (G, c)) for s, ctx in r]

    def _collect(self):
        db = self.db
        todo = list(self.funcs); seen = {F.id for F in todo}
        while todo:
            F = todo.pop()
            for n in F.calls():
                q = base_q(n.get("q"))
                if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXMemberCallExpr") and n.get("f") in db.funcs:
                    t = db.funcs[n["f"]]
                    if t.cls == PARSER and (t.d.get("ctor") or t.n not in ("add_argument", "add_argument_only_display", "get_value")) and t.id not in seen \
                            and F.file == self.main.file:
                        seen.add(t.id); todo.append(t)
                if q == PARSER + "::add_argument":
                    a = n["c"]; ks = self.strings(F, a[0])
                    req = const_eval(a[-1], {})
                    if req is None: req = self.bool_arg(F, a[-1])
                    if ks is None: self.unknown.append((F, n)); continue
                    for k, ctx in ks:
                        rq = req
                        if rq is None and ctx: rq = self.ctx_bool(F, a[-1], ctx)
                        self.declared[k.lower()] = (rq, F, n)
                elif q == PARSER + "::add_argument_only_display":
                    ks = self.strings(F, n["c"][0])
                    for k, ctx in ks or (): self.display[k] = (F, n)
                elif q in GET:
                    if F.cls == PARSER: continue
                    ks = self.strings(F, n["c"][0])
                    if ks is None: self.unknown.append((F, n)); continue
                    for k, ctx in ks:
                        self.reads.append(Read(k.lower(), F, n, ctx[1] if ctx else n, ctx[0] if ctx else F))

    def bool_arg(self, F, a): return None

    def ctx_bool(self, F, a, ctx):
        a = skip_casts(a)
        if a["k"] == "DeclRefExpr":
            for i, p in enumerate(F.params):
                if p["d"] == a.get("d"):
                    c = ctx[1]["c"]; j = i + (1 if ctx[1]["k"] == "CXXOperatorCallExpr" else 0)
                    if j < len(c): return const_eval(c[j], {})
        return None

    # ---------------------------------------------------------------- flow
    def flows(self):
        """key -> set of sinks; field taint table. Sinks: ('param', function, name) ('field', struct, name) ('branch', function)
        ('out', function) ('libcall', function)"""
        db = self.db
        src = {}
        for r in self.reads:
            src.setdefault(id(r.node), {}).setdefault(None if r.site is r.node else id(r.site), set()).add(r.key)
        T = {}       # decl id (function-qualified for locals) -> keys
        RET = {}

        def vid(F, d):
            X = F
            while X.d.get("lambda") and X.owner is not None: X = X.owner
            return (X.id, d)

        def add(k, s):
            if s - T.get(k, set()):
                T.setdefault(k, set()).update(s); self.ch = True

        def keys(F, e):
            out = set()
            if e is None: return out
            st = [e]
            while st:
                n = st.pop()
                if id(n) in src:
                    for c, ks in src[id(n)].items():
                        if c is None: out |= ks
                    continue
                if n["k"] in CALLS:
                    for c_ in (id(n),):
                        for s in src.values():
                            if c_ in s: out |= s[c_]
                    tg = []
                    if n.get("f"): tg = db.resolve(n["f"]) or ([db.funcs[n["f"] + "@" + F.file]] if n["f"] + "@" + F.file in db.funcs else [])
                    loc = [t for t in tg if t.file == self.main.file]
                    if loc:
                        for t in loc: out |= RET.get(t.id, set())
                        if n.get("obj") is not None: st.append(n["obj"])
                        if n["k"] == "CXXConstructExpr" and any(t.d.get("ctor") for t in loc): continue
                        continue
                if n["k"] == "LambdaExpr": continue
                if n["k"] == "MemberExpr" and n.get("dk") == "field":
                    if n["d"] in T: out |= T[n["d"]]
                    elif n.get("c") and n["c"][0]: st.append(n["c"][0])
                    continue
                if n["k"] == "DeclRefExpr" and n.get("dk") in ("var", "parm"):
                    out |= T.get(vid(F, n["d"]), set()); continue
                st.extend(kids(n))
            return out

        def target(F, n):
            n = skip_casts(n)
            while n is not None:
                if n["k"] == "MemberExpr" and n.get("dk") == "field": return n["d"]
                if n["k"] == "DeclRefExpr" and n.get("dk") in ("var", "parm"): return vid(F, n["d"])
                if n["k"] in ("ArraySubscriptExpr", "UnaryOperator") or n["k"] == "CXXOperatorCallExpr": n = skip_casts(n["c"][0]); continue
                if n["k"] == "CXXMemberCallExpr": n = skip_casts(n.get("obj")); continue
                return None
            return None

        setfuncs = {F.cls for F in self.funcs if F.d.get("ctor")}
        self.ch = True
        rounds = 0
        while self.ch and rounds < 12:
            self.ch = False; rounds += 1
            for F in self.funcs:
                isopt = F.cls in setfuncs or any(p["t"].replace("const ", "").startswith(PARSER) for p in F.params)
                for i in F.d.get("inits", ()):
                    if i.get("init") and i.get("d"): add(i["d"], keys(F, i["init"]))
                for n in F.walk():
                    k = n["k"]
                    if k == "VarDecl" and n.get("c") and n["c"][0]: add(vid(F, n["d"]), keys(F, n["c"][0]))
                    elif k in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=" or k == "CompoundAssignOperator":
                        t = target(F, n["c"][0])
                        if t is not None:
                            s = keys(F, n["c"][1])
                            if isopt or F.d.get("lambda"):
                                p = n
                                for a in F.ancestors(n):
                                    if a["k"] == "IfStmt" and p is not a.get("cond"): s |= keys(F, a.get("cond")) | (keys(F, a["init"]) if a.get("init") else set())
                                    if a["k"] == "SwitchStmt": s |= keys(F, a.get("cond"))
                                    if a["k"] == "ConditionalOperator": s |= keys(F, a["c"][0])
                                    p = a
                            add(t, s)
                    elif k == "ReturnStmt" and n.get("c") and n["c"][0]:
                        s = keys(F, n["c"][0])
                        if isopt:
                            for a in F.ancestors(n):
                                if a["k"] == "IfStmt": s = s | keys(F, a.get("cond"))
                        if F.n not in ("main",) and s - RET.get(F.id, set()):
                            RET.setdefault(F.id, set()).update(s); self.ch = True
                    elif k in CALLS:
                        for t in (db.resolve(n["f"]) if n.get("f") else ()):
                            if t.file != self.main.file: continue
                            args = n.get("c", [])
                            if k == "CXXOperatorCallExpr" and n.get("op") == "()" and len(args) == len(t.params) + 1: args = args[1:]
                            for p, a in zip(t.params, args):
                                add(vid(t, p["d"]), keys(F, a))
                                if p["t"].endswith("&") and not p["t"].startswith("const "):
                                    tt = target(F, a)
                                    # value handed back through a reference parameter: keys per call site
                                    if tt is not None:
                                        s = set()
                                        for sx in src.values():
                                            if id(n) in sx: s |= sx[id(n)]
                                        if not s: s = T.get(vid(t, p["d"]), set()) if len(self.callers.get(t.id, ())) <= 1 else set()
                                        add(tt, s)
                        if k == "CXXMemberCallExpr" and (n.get("q") or "").split("::")[-1] in ("push_back", "emplace_back", "insert", "assign", "emplace"):
                            t = target(F, n.get("obj"))
                            if t is not None:
                                for a in n.get("c", []): add(t, keys(F, a))
                        if k == "CXXOperatorCallExpr" and n.get("op") in (">>", "+="):
                            t = target(F, n["c"][1] if n["op"] == ">>" else n["c"][0])
                            if t is not None: add(t, keys(F, n["c"][0] if n["op"] == ">>" else n["c"][1]))
        self.taint = T
        # sinks
        S = {}

        def sink(ks, s):
            for k in ks: S.setdefault(k, set()).add(s)
        for F in self.funcs:
            optfn = F.cls in setfuncs and F.cls is not None
            for n in F.walk():
                k = n["k"]
                if k in CALLS and n.get("own") and base_q(n.get("q")).split("::")[-1] not in ("get_value",) and not (n.get("q") or "").startswith(("BSMPT::Logger", PARSER)):
                    tg = db.resolve(n["f"]) if n.get("f") else []
                    dcl = tg[0].d if tg else db.decls.get(n.get("f"))
                    if tg and tg[0].file == self.main.file: continue
                    args = n.get("c", [])
                    if k == "CXXOperatorCallExpr": continue
                    for i, a in enumerate(args):
                        ks = keys(F, a)
                        if ks:
                            nm = dcl["params"][i]["n"] if dcl and i < len(dcl["params"]) else str(i)
                            sink(ks, ("param", n["q"], nm))
                elif k == "InitListExpr" and n.get("t", "") and n.get("c"):
                    rec = db.rec_by_q.get(n["t"].replace("const ", "").replace("struct ", "")) or db.rec_by_q.get("BSMPT::" + n["t"].replace("const ", ""))
                    if rec and rec[0]["file"] != self.main.file:
                        for f, a in zip(rec[0]["fields"], n["c"]):
                            if a is None: continue
                            ks = keys(F, a)
                            if ks: sink(ks, ("field", rec[0]["q"], f["n"]))
                elif k in ("BinaryOperator",) and n["op"] == "=" or (k == "CXXOperatorCallExpr" and n.get("op") == "="):
                    l = skip_casts(n["c"][0])
                    if l["k"] == "MemberExpr" and l.get("dk") == "field":
                        for (q, f, ln), r in db.records.items():
                            if f != self.main.file and any(x["d"] == l["d"] for x in r["fields"]):
                                sink(keys(F, n["c"][1]), ("field", q, l["n"]))
                elif k in CALLS and not n.get("own") and not optfn:
                    q = n.get("q") or ""
                    if k == "CXXOperatorCallExpr" and n.get("op") == "<<": sink(keys(F, n["c"][1]), ("out", F.n))
                    elif "fstream" in q or "fstream" in n.get("t", ""):
                        for a in n.get("c", []):
                            if a: sink(keys(F, a), ("file", n["t"] if "t" in n else q))
                    elif k == "CXXMemberCallExpr" and n.get("obj") is not None and "fstream" in n["obj"].get("t", ""):
                        for a in n.get("c", []):
                            if a: sink(keys(F, a), ("file", n["obj"]["t"]))
                    else:
                        for a in n.get("c", []):
                            if a: sink(keys(F, a), ("call", q.split("<")[0]))
                elif k in ("IfStmt", "WhileStmt", "ForStmt", "ConditionalOperator", "DoStmt", "SwitchStmt") and not optfn:
                    c = n.get("cond") if k != "ConditionalOperator" else n["c"][0]
                    if c: sink(keys(F, c), ("branch", F.n))
        return S
