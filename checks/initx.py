"""Definite-initialisation analysis of plain members and variables across calls.

Objects are named by (root, path): root = "this", ("p", i) a parameter, or ("v", id) a local variable; path = tuple of
field ids.  For every function a summary is computed: the plain members it certainly writes on every normal return
(must) and those it may read before it has written them (up).  Summaries are composed at calls."""
from core import walk, kids, CALLS, REPO
from cfg import skip_casts
from util import graph, pgraph

SC = ("bool", "int", "double", "float", "unsigned int", "unsigned long", "long", "char", "std::size_t", "size_t", "unsigned",
      "long double", "short", "unsigned char", "unsigned short", "long long", "unsigned long long", "signed char")
TOP = None


def strip(t):
    t = t.strip()
    while True:
        o = t
        for p in ("const ", "volatile ", "struct ", "class ", "enum "):
            if t.startswith(p): t = t[len(p):]
        for s in (" const", "const", "&", " "):
            if t.endswith(s): t = t[:-len(s)]
        if t == o: return t


class Init:
    def __init__(self, db, skip=lambda F: False):
        self.db = db
        self.funcs = [F for F in db.all() if F.body is not None and not F.d.get("implicit") and graph(db, F).ok and not skip(F)]
        self.enums = set(db.enums)
        self.recs = {}; self.dup = {}
        for q, rs in db.rec_by_q.items():
            rs = [r for r in rs if r["file"].startswith(REPO + "/")]
            if len(rs) == 1: self.recs[q] = rs[0]
            for r in rs[:0 if len(rs) == 1 else None]:
                self.recs[q + "@" + r["file"]] = r; self.dup.setdefault(q, set()).add(r["file"])
        self.short = {}
        for q in self.recs: self.short.setdefault(q.split("::")[-1], set()).add(q)
        self.ctors = {}
        for F in db.all():
            if F.d.get("ctor"): self.ctors.setdefault(self.clsof(F), []).append(F)
        self.must = {}; self.up = {}
        self.base_of = {}
        for q, r in self.recs.items(): self.base_of[q] = [self.rec(b, r["file"]) for b in r["bases"] if self.rec(b, r["file"])]
        self.infos = {}
        self.events = {}

    # ------------------------------------------------------------ types
    def clsof(self, F):
        return F.cls + "@" + F.file if F.cls in self.dup and F.file in self.dup[F.cls] else F.cls

    def rec(self, t, file=None):
        t = strip(t)
        if t in self.dup: return t + "@" + file if file in self.dup[t] else None
        if t in self.recs: return t
        s = self.short.get(t.split("::")[-1])
        if s and len(s) == 1 and "<" not in t: return next(iter(s))
        return None

    def scalar(self, t):
        t = t.strip()
        if t.endswith("&"): return False
        if t.endswith("*") or t.endswith("*const"): return True
        s = strip(t)
        return s in SC or s in self.enums or ("BSMPT::" + s) in self.enums

    def plain(self, q, depth=0):
        """paths of the plain members of record q (own, inherited, nested) -> (field name, has default value)"""
        key = ("plain", q)
        if key in self.infos: return self.infos[key]
        out = {}
        if depth < 5:
            for b in self.base_of.get(q, ()): out.update(self.plain(b, depth + 1))
            for f in self.recs[q]["fields"]:
                if self.scalar(f["t"]): out[(f["d"],)] = (f["n"], bool(f.get("init")))
                else:
                    s = self.rec(f["t"], self.recs[q]["file"])
                    if s and not f["t"].strip().endswith(("*", "&")):
                        dflt = f.get("init")
                        for p, (n, i) in self.plain(s, depth + 1).items():
                            out[(f["d"],) + p] = (f["n"] + "." + n, i)
        self.infos[key] = out
        return out

    def userctor(self, q):
        return [c for c in self.ctors.get(q, ()) if not c.d.get("implicit") and not c.d.get("defaulted")]

    # ------------------------------------------------------------ naming of objects
    def name(self, F, n, pidx):
        """(root, path) of an lvalue, or None"""
        n = skip_casts(n)
        if n is None: return ("this", ())
        k = n["k"]
        if k == "CXXThisExpr": return ("this", ())
        if k == "UnaryOperator" and n["op"] in ("*", "&"):
            r = self.name(F, n["c"][0], pidx)
            if r is None: return None
            if n["op"] == "*" and r[1] == () and r[0] == "this": return r
            if n["op"] == "*": return None if r[0] != "this" else r
            return r
        if k == "MemberExpr" and n.get("dk") == "field":
            b = self.name(F, n["c"][0], pidx) if n.get("c") and n["c"][0] else ("this", ())
            if b is None: return None
            if n.get("arrow") and b[0] != "this": return None
            if n.get("arrow") and b[1]: return None
            return (b[0], b[1] + (n["d"],))
        if k == "DeclRefExpr" and n.get("dk") == "parm" and n["d"] in pidx:
            return (("p", pidx[n["d"]]), ())
        if k == "DeclRefExpr" and n.get("dk") == "var":
            if n["d"] not in self.locals_of(F): return None
            return (("v", n["d"]), ())
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"): return self.name(F, n["c"][0], pidx)
        return None

    def locals_of(self, F):
        m = self.infos.get(("loc", F.id))
        if m is None:
            rng = {n["var"]["d"] for n in F.walk() if n["k"] == "CXXForRangeStmt"}
            m = {v["d"] for B in pgraph(self.db, F).blocks.values() for e in B.elems if e["k"] == "DeclStmt" for v in e.get("decls", [])
                 if v.get("k") == "VarDecl" and not v.get("static") and not v["t"].strip().endswith("&")} - rng
            self.infos[("loc", F.id)] = m
        return m

    def isref(self, t): return t.strip().endswith("&")

    # ------------------------------------------------------------ events of a function, in CFG order
    def block_events(self, F):
        if F.id in self.events: return self.events[F.id]
        g = pgraph(self.db, F)
        pidx = {p["d"]: i for i, p in enumerate(F.params) if "&" in p["t"] or True}
        refs = {}
        for n in F.walk():
            if n["k"] == "VarDecl" and n["t"].strip().endswith("&") and n.get("c") and n["c"][0]:
                refs[n["d"]] = n
        lhs = {}
        for n in F.walk():
            k = n["k"]
            if k == "BinaryOperator" and n["op"] == "=": lhs[id(self.core(n["c"][0]))] = "w"
            elif k == "UnaryOperator" and n["op"] == "&": lhs[id(self.core(n["c"][0]))] = "a"
            elif k == "VarDecl" and n["t"].strip().endswith("&") and n.get("c") and n["c"][0]: lhs[id(self.core(n["c"][0]))] = "r"
            elif k == "UnaryExprOrTypeTraitExpr":
                for x in walk(n): lhs[id(x)] = "a"
            elif k == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n["c"]) == 2: lhs[id(self.core(n["c"][1]))] = "a"
            if k in CALLS:
                pt = n.get("pt", []); args = n.get("c", [])
                off = len(args) - len(pt) if k == "CXXOperatorCallExpr" and len(args) > len(pt) else 0
                for i, a in enumerate(args):
                    if a is None or i < off: continue
                    j = i - off
                    t = pt[j].strip() if j < len(pt) else ""
                    if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                        lhs[id(self.core(a))] = "a"
        ev = {}
        for b, B in g.blocks.items():
            L = []
            for e in B.elems:
                k = e["k"]
                if k in ("MemberExpr", "DeclRefExpr"):
                    if k == "MemberExpr" and e.get("dk") != "field": continue
                    if k == "DeclRefExpr" and e.get("dk") not in ("var",): continue
                    use = lhs.get(id(e))
                    if use in ("w", "a", "r"): continue
                    if not self.scalar(e.get("t", "")): continue
                    nm = self.name(F, e, pidx)
                    if nm: L.append(("r", nm, e))
                elif k == "BinaryOperator" and e["op"] == "=":
                    nm = self.name(F, e["c"][0], pidx)
                    if nm: L.append(("w", nm, e))
                elif k == "CXXOperatorCallExpr" and e.get("op") == "=":
                    nm = self.name(F, e["c"][0], pidx)
                    s = self.name(F, e["c"][1], pidx)
                    if s and self.rec(e["c"][1].get("t", ""), F.file): L.append(("copy", s, e, nm))
                    if nm: L.append(("w", nm, e))
                elif k == "CXXOperatorCallExpr" and e.get("op") == ">>":
                    nm = self.name(F, e["c"][1], pidx)
                    if nm: L.append(("w", nm, e))
                elif k == "DeclStmt":
                    for v in e.get("decls", []):
                        if v.get("k") == "VarDecl": L.append(("decl", v, e))
                elif k == "UnaryOperator" and e["op"] == "&":
                    nm = self.name(F, e["c"][0], pidx)
                    if nm: L.append(("w", nm, e))          # address taken: may be filled through it
                elif k in CALLS:
                    L.append(("call", e))
                elif k == "LambdaExpr":
                    L.append(("lambda", e))
                elif k == "ReturnStmt" and e.get("c") and e["c"][0]:
                    x = e["c"][0]
                    y = skip_casts(x)
                    while y is not None and y["k"] in ("CXXConstructExpr", "ExprWithCleanups") and len(y.get("c", [])) == 1: y = skip_casts(y["c"][0])
                    if y is not None:
                        nm = self.name(F, y, pidx)
                        if nm and nm[0][0] == "v" and self.rec(y.get("t", ""), F.file): L.append(("copy", nm, e, None))
            ev[b] = L
        self.events[F.id] = (g, ev, pidx)
        return self.events[F.id]

    def core(self, n):
        n = skip_casts(n)
        while n is not None and n["k"] == "ParenExpr": n = skip_casts(n["c"][0])
        return n or {}

    # ------------------------------------------------------------ callee of a call on a concrete class
    def targets(self, n, dyn, onthis):
        if not n.get("f"): return []
        if n.get("virt") and not n.get("qualified"):
            ts = self.db.resolve(n["f"])
            if onthis and dyn:
                c = dyn; seen = set(); st = [dyn]
                while st:
                    c = st.pop(0)
                    if c in seen: continue
                    seen.add(c)
                    m = [t for t in ts if t.cls == c]
                    if m: return m
                    st += self.base_of.get(c, [])
            return ts
        F = self.db.funcs.get(n["f"])
        if F is None: return []
        return [F]

    def compose(self, F, n, t, dyn, pidx, W, up, sink=None):
        """effect of calling t at node n: returns set of written names"""
        key = (t.id, dyn if dyn is not None and t.cls is not None and self.onthis(F, n) and (t.id, dyn) in self.known else None)
        must = self.must.get(key, TOP); upx = self.up.get(key, {})
        m = {}
        k = n["k"]; args = n.get("c", []); off = 0
        if k == "CXXMemberCallExpr":
            m["this"] = self.name(F, n.get("obj"), pidx) if n.get("obj") is not None else ("this", ())
            if n.get("obj") is not None and n.get("arrow") and m["this"] and m["this"][0] != "this": m["this"] = None
        elif k == "CXXOperatorCallExpr" and t.cls and not t.d.get("lambda"):
            m["this"] = self.name(F, args[0], pidx) if args and args[0] else None; off = 1
        elif k == "CXXOperatorCallExpr": off = 1
        for i, a in enumerate(args[off:]):
            if a is None or i >= len(t.params): continue
            pt = t.params[i]["t"]
            a2 = skip_casts(a)
            while a2 is not None and a2["k"] == "CXXConstructExpr" and len(a2.get("c", [])) == 1: a2 = skip_casts(a2["c"][0])
            if self.isref(pt) or self.rec(pt, t.file): m[("p", i)] = self.name(F, a2, pidx) if a2 is not None else None
        for (root, path), src in upx.items():
            b = m.get(root)
            if b is None: continue
            nm = (b[0], b[1] + path)
            if not self.covered(nm, W): up.setdefault(nm, (n, src))
        out = set()
        if must is TOP: return TOP
        for root, path in must:
            if root != "this" and root[0] != "p": continue
            if root != "this" and not self.isref(t.params[root[1]]["t"]): continue
            b = m.get(root)
            if b is not None: out.add((b[0], b[1] + path))
        return out

    @staticmethod
    def covered(nm, W):
        root, path = nm
        return any((root, path[:i]) in W for i in range(len(path) + 1))

    # ------------------------------------------------------------ one pass over a function
    def run(self, F, dyn, W0=frozenset(), report=None):
        g, ev, pidx = self.block_events(F)
        up = {}
        IN = {g.entry: set(W0)}
        order = g.rpo(); ch = True
        outs = {}
        n_it = 0
        while ch and n_it < 30:
            ch = False; n_it += 1
            for b in order:
                if b not in IN: continue
                W = set(IN[b]); up_b = {}
                W = self.step(F, dyn, pidx, ev[b], W, up_b, None)
                outs[b] = W
                if W is TOP: continue
                for s, c, p in g.edges(b):
                    if s not in IN: IN[s] = set(W); ch = True
                    else:
                        j = IN[s] & W
                        if j != IN[s]: IN[s] = j; ch = True
        for b in order:
            if b in IN: self.step(F, dyn, pidx, ev[b], set(IN[b]), up, report)
        must = IN.get(g.exit)
        return (TOP if must is None else must), up

    def step(self, F, dyn, pidx, L, W, up, report):
        for e in L:
            if e[0] == "r":
                if not self.covered(e[1], W): up.setdefault(e[1], (e[2], None))
            elif e[0] == "w": W.add(e[1])
            elif e[0] == "copy":
                if report: report.copy(F, e[1], e[2], W)
            elif e[0] == "decl":
                v = e[1]; nm = (("v", v["d"]), ())
                W = {x for x in W if x[0] != nm[0]}
                w = self.decl(F, v, pidx, W)
                for p in w: W.add((nm[0], p))
            elif e[0] == "call":
                n = e[1]
                ts = self.targets(n, dyn, self.onthis(F, n))
                ts = [t for t in ts if graph(self.db, t).ok or t.d.get("implicit")]
                if ts:
                    rs = [self.compose(F, n, t, dyn, pidx, W, up) for t in ts if not t.d.get("ctor") or True]
                    rs2 = [r for r in rs if r is not TOP]
                    if rs2: W |= set.intersection(*map(set, rs2))
                    elif rs and F.id in [t.id for t in ts]: pass
                else:
                    # external function: non-const references and addresses are taken as written
                    pt = n.get("pt", []); args = n.get("c", [])
                    off = len(args) - len(pt) if n["k"] == "CXXOperatorCallExpr" and len(args) > len(pt) else 0
                    for i, a in enumerate(args):
                        if a is None or i < off: continue
                        j = i - off
                        t = pt[j].strip() if j < len(pt) else ""
                        nm = self.name(F, a, pidx)
                        if nm and t.endswith("&") and not t.endswith("&&") and not t.startswith("const "): W.add(nm)
                        elif nm and nm[0][0] == "v" and self.rec(skip_casts(a).get("t", ""), F.file) and report: report.copy(F, nm, n, W)
            elif e[0] == "lambda":
                t = self.db.funcs.get(e[1]["f"])
                if t is not None:
                    for (root, path), src in self.up.get((t.id, dyn if (t.id, dyn) in self.known else None), {}).items():
                        if root == "this" or root[0] == "v":
                            nm = (root, path)
                            if not self.covered(nm, W): up.setdefault(nm, (e[1], src))
        return W

    def onthis(self, F, n):
        if n["k"] != "CXXMemberCallExpr": return False
        o = n.get("obj")
        return o is None or skip_casts(o)["k"] == "CXXThisExpr"

    def decl(self, F, v, pidx, W):
        """paths of variable v that have a value after its declaration"""
        t = v["t"]
        init = v.get("c") and v["c"][0]
        if self.isref(t): return [()]
        if self.scalar(t): return [()] if init else []
        q = self.rec(t, F.file)
        if q is None: return [()]
        return self.construct(F, q, init)

    def construct(self, F, q, init):
        n = skip_casts(init) if init else None
        while n is not None and n["k"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr"): n = skip_casts(n["c"][0])
        if n is not None and n["k"] in ("InitListExpr", "CXXScalarValueInitExpr", "ImplicitValueInitExpr"): return [()]
        if n is not None and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [a for a in n.get("c", []) if a and a["k"] != "CXXDefaultArgExpr"]
            F2 = self.db.funcs.get(n.get("f"))
            if len(args) == 1 and self.rec(args[0].get("t", ""), F.file) == q: return [()]         # copy/move: judged at its source
            if n.get("zero") or n["k"] == "CXXTemporaryObjectExpr" and not args and not self.userctor(q): return [()]
            if F2 is None: return self.defaults(q)
            return self.ctor_written(F2)
        if n is None: return self.defaults(q)
        return [()]                                                   # result of a call: judged where it was made

    def defaults(self, q):
        """plain members with a value after implicit default construction"""
        out = []
        for b in self.base_of.get(q, ()): out += self.dflt_of(b)
        for f in self.recs[q]["fields"]:
            if self.scalar(f["t"]):
                if f.get("init"): out.append((f["d"],))
            else:
                s = self.rec(f["t"], self.recs[q]["file"])
                if s and not f["t"].strip().endswith(("*", "&")):
                    if f.get("init"): out.append((f["d"],))
                    else: out += [(f["d"],) + p for p in self.dflt_of(s)]
        return out

    def dflt_of(self, q):
        uc = [c for c in self.userctor(q) if all(p.get("hasdef") or p.get("dflt") for p in c.params)]
        if uc: return self.ctor_written(uc[0])
        return self.defaults(q)

    def ctor_written(self, C, depth=0):
        """paths of this with a value after constructor C"""
        if C.d.get("implicit") or C.d.get("defaulted") or C.body is None and not C.d.get("inits"):
            if len(C.params) >= 1: return [()]
            return self.defaults(self.clsof(C))
        key = ("ctor", C.id)
        if key in self.infos: return self.infos[key]
        self.infos[key] = []
        out = self.ctor_inits(C)
        r = self.must.get((C.id, C.cls if (C.id, C.cls) in self.known else None), TOP)
        if r is TOP: r, _ = self.run(C, C.cls, frozenset(("this", p) for p in out))
        if r is not TOP: out = out + [p for root, p in r if root == "this"]
        self.infos[key] = out
        return out

    def ctor_inits(self, C):
        out = []
        done = set()
        for i in C.d.get("inits", ()):
            d = i.get("d")
            if d is None:
                n = skip_casts(i.get("init")) if i.get("init") else None
                if n is not None and n.get("f"):
                    B = self.db.funcs.get(n["f"])
                    if B is not None and B.d.get("ctor"):
                        if B.cls == C.cls: return self.ctor_written(B)
                        out += self.ctor_written(B)
                    elif self.rec(n.get("t", ""), C.file): out += self.dflt_of(self.rec(n["t"], C.file))
                continue
            f = next((f for f in self.recs[self.clsof(C)]["fields"] if f["d"] == d), None) if self.clsof(C) in self.recs else None
            done.add(d)
            if f is None: continue
            if self.scalar(f["t"]):
                if i.get("init"): out.append((d,))
            else:
                s = self.rec(f["t"], C.file)
                if s: out += [(d,) + p if p else (d,) for p in self.construct(C, s, i.get("init"))]
                else: out.append((d,))
        for f in (self.recs.get(self.clsof(C)) or {"fields": []})["fields"]:
            if f["d"] in done: continue
            if self.scalar(f["t"]):
                if f.get("init"): out.append((f["d"],))
            else:
                s = self.rec(f["t"], C.file)
                if s and not f["t"].strip().endswith(("*", "&")): out += [(f["d"],) + p for p in self.dflt_of(s)]
        return out

    # ------------------------------------------------------------ fixpoint
    def solve(self, dyns=None):
        """dyns: {class: set of classes whose methods are analysed for objects of that class}"""
        work = []
        for F in self.funcs:
            if F.cls and not F.d.get("static"):
                for D in (dyns.get(F.cls) if dyns and F.cls in dyns else [F.cls]): work.append((F, D))
            work.append((F, None))
        self.known = {(F.id, D) for F, D in work}
        for rnd in range(12):
            ch = False
            self.infos = {k: v for k, v in self.infos.items() if k[0] != "ctor"}
            for F, D in work:
                W0 = frozenset()
                if F.d.get("ctor"): W0 = frozenset(("this", p) for p in self.ctor_inits(F))
                m, u = self.run(F, D, W0)
                k = (F.id, D)
                if k not in self.must or self.must[k] != m or set(self.up.get(k, {})) != set(u):
                    ch = True; self.must[k] = m; self.up[k] = u
            if not ch: break
        self.rounds = rnd + 1
        return self
