"""Freshness analysis: which parts of an object may still hold values computed before a given call.

Abstract interpretation over the control-flow graphs, own functions entered in the context of the concrete class. A cell is
(field, index pattern); a pattern component is a constant index or "*". State: the cells that may still hold (or be
computed from) old contents, constant values of plain fields, the local variables computed from old cells. Loops are taken
to run at least once, and a store through running indices to cover the cells of its pattern; exceptional exits are ignored."""
from core import walk, kids, CALLS
from cfg import skip_casts, const_eval, ccp_reach
from util import pgraph

KILL = ("assign", "clear", "setZero", "setConstant", "setIdentity", "setOnes", "fill", "operator=")
GROW = ("push_back", "emplace_back", "insert", "emplace", "append", "push", "operator+=")
SIZES = ("size", "empty", "capacity", "rows", "cols", "length", "max_size")
ALGO = {"fill": (0, 2), "fill_n": (0, 2), "copy": (2, 0), "copy_n": (2, 0), "transform": None, "iota": (0, 2), "generate": (0, 2)}
SUB = ("at", "front", "back", "data", "coeff", "coeffRef", "begin", "end", "row", "col", "operator[]", "operator()", "value", "get")
SCALARS = ("bool", "int", "double", "float", "unsigned int", "unsigned long", "long", "std::size_t", "size_t")


def core(n):
    n = skip_casts(n)
    while n is not None and n["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and n.get("c"):
        n = skip_casts(n["c"][0])
    return n


def covers(p, c):
    """does a store through pattern p cover cell pattern c?"""
    for i, x in enumerate(p):
        if x == "*": continue
        if i >= len(c) or c[i] != x: return False
    return True


def overlaps(p, c):
    for x, y in zip(p, c):
        if x != "*" and y != "*" and x != y: return False
    return True


class State:
    __slots__ = ("cells", "env", "loc")

    def __init__(self, cells=(), env=None, loc=()):
        self.cells = set(cells); self.env = dict(env or {}); self.loc = set(loc)

    def copy(self): return State(self.cells, self.env, self.loc)

    def join(self, o):
        ch = False
        if not o.cells <= self.cells: self.cells |= o.cells; ch = True
        if not o.loc <= self.loc: self.loc |= o.loc; ch = True
        for k in list(self.env):
            if k not in o.env or o.env[k] != self.env[k]: del self.env[k]; ch = True
        return ch

    def key(self): return (frozenset(self.cells), frozenset(self.env.items()))


class Fresh:
    def __init__(self, db, dyn, always=(), const=None):
        self.db = db; self.dyn = dyn; self.always = set(always); self.const = dict(const or {})
        self.chain = []; st = [dyn]
        while st:
            c = st.pop(0)
            if c in self.chain: continue
            self.chain.append(c)
            for r in db.rec_by_q.get(c, ())[:1]: st += [self.full(b) for b in r["bases"]]
        self.fields = {}
        for c in self.chain:
            for r in db.rec_by_q.get(c, ())[:1]:
                for f in r["fields"]: self.fields[f["d"]] = f
        self.setters = {}; self.memo = {}; self.active = set(); self.reads = None; self.nrun = set(); self.nstores = 0
        self.methods = [F for F in db.all() if F.cls in self.chain and F.body is not None and not F.d.get("lambda")]
        self.scan()

    def full(self, b):
        if b in self.db.rec_by_q: return b
        for q in self.db.rec_by_q:
            if q.split("::")[-1] == b.split("::")[-1]: return q
        return b

    def method(self, n, *types):
        """methods of that name as seen on the concrete class"""
        seen = set(); out = []
        for c in self.chain:
            for F in self.methods:
                if F.cls == c and F.n == n:
                    k = tuple(p["t"] for p in F.params)
                    if k not in seen: seen.add(k); out.append(F)
        return out

    def visible(self):
        seen = {}
        for c in self.chain:
            for F in self.methods:
                if F.cls == c: seen.setdefault((F.n, tuple(p["t"] for p in F.params), F.d.get("const")), F)
        return list(seen.values())

    def targets(self, n, F):
        f = n.get("f")
        if not f: return []
        if n["k"] == "CXXMemberCallExpr":
            o = n.get("obj")
            if o is not None:
                o = core(o)
                if o["k"] == "UnaryOperator" and o.get("op") == "*": o = core(o["c"][0])
                if o["k"] != "CXXThisExpr": return []
            ts = self.db.resolve(f) if n.get("virt") and not n.get("qualified") else [self.db.funcs[f]] if f in self.db.funcs else []
            for c in self.chain:
                m = [t for t in ts if t.cls == c]
                if m: return m[:1]
            return []
        if n["k"] != "CallExpr": return []
        t = self.db.funcs.get(f) or self.db.funcs.get(f + "@" + F.file)
        if t is None or t.body is None: return []
        if t.cls and t.cls not in self.chain: return []
        return [t]

    # ------------------------------------------------------------ which cells exist
    def scan(self):
        """cells ever written after construction, per field; fields handed out by reference"""
        self.written = {}
        self.rawwriters = {}
        for F in self.methods:
            if F.d.get("ctor") or F.d.get("dtor"): continue
            al = self.aliases(F)
            for n in self.live(F):
                for lv in self.stores_of(n, al, F):
                    if lv and lv[0] == "m" and lv[1] in self.fields:
                        self.written.setdefault(lv[1], set()).add(lv[2])
                        self.rawwriters.setdefault(lv[1], set()).add(F.id)
        self.cells = {(f, p) for f, ps in self.written.items() for p in ps}
        self.byf = {f: sorted(((f, p) for p in ps), key=str) for f, ps in self.written.items()}

    def live(self, F):
        """nodes of F that can run under the fixed field values"""
        g = pgraph(self.db, F)
        if not self.const or not g.ok: yield from F.walk(); return
        if not any(B.cond is not None and any(x.get("d") in self.const for x in walk(B.cond)) for B in g.blocks.values()):
            yield from F.walk(); return
        for b in ccp_reach(g, self.const, self.db)[0]:
            for e in g.blocks[b].elems:
                if e["k"] != "LambdaExpr": yield e
                else: yield from walk(e)

    def options(self):
        """flags that are never changed after construction and decide branches"""
        bools = {d for d, f in self.fields.items() if f["t"].replace("const ", "").strip() == "bool" and d not in self.written}
        out = set()
        for F in self.methods:
            g = pgraph(self.db, F)
            if not g.ok: continue
            for B in g.blocks.values():
                if B.cond is not None:
                    for x in walk(B.cond):
                        if x["k"] == "MemberExpr" and x.get("d") in bools: out.add(x["d"])
        return sorted(out)

    def sizes(self):
        """integer fields with one constant value for the lifetime of the object"""
        out = {}
        for c in self.chain:
            for F in self.methods:
                if F.cls != c or not F.d.get("ctor"): continue
                for n in F.walk():
                    if n["k"] == "BinaryOperator" and n["op"] == "=":
                        lv = self.lv(n["c"][0], {})
                        if lv and lv[0] == "m" and not lv[2] and lv[1] not in self.written:
                            out.setdefault(lv[1], []).append(const_eval(n["c"][1], {}, self.db))
        return {d: v[0] for d, v in out.items() if len(v) == 1 and isinstance(v[0], int)}

    def pvars(self, F):
        """variables of short constant loops whose value is compared inside the loop"""
        key = ("pv", F.id)
        if key in self.memo: return self.memo[key]
        out = []
        for n in F.walk():
            if n["k"] != "ForStmt" or not n.get("init") or not n.get("cond"): continue
            for v in n["init"].get("decls", []):
                a = v.get("c") and v["c"][0] and const_eval(v["c"][0], self.const, self.db)
                if not isinstance(a, int): continue
                c = n["cond"]
                if not any(x.get("d") == v["d"] for x in walk(c)): continue
                if const_eval(c, {**self.const, v["d"]: a}, self.db) is None: continue
                if const_eval(c, {**self.const, v["d"]: a + 64}, self.db) is not False and const_eval(c, {**self.const, v["d"]: a - 64}, self.db) is not False: continue
                body = n.get("body")
                if body is None: continue
                hit = False
                for x in walk(body):
                    if x["k"] in ("IfStmt", "SwitchStmt", "ConditionalOperator"):
                        t = x.get("cond") or (x["c"][0] if x.get("c") else None)
                        if t is not None and any(y.get("d") == v["d"] and y["k"] == "DeclRefExpr" for y in walk(t)): hit = True
                if hit: out.append(v["d"])
        self.memo[key] = out if len(out) <= 6 else []
        return self.memo[key]

    def stores_of(self, n, al, F):
        k = n["k"]; out = []
        if k == "BinaryOperator" and n["op"] == "=" or k == "CompoundAssignOperator": out.append(self.lv(n["c"][0], al))
        elif k == "UnaryOperator" and n["op"] in ("++", "--"): out.append(self.lv(n["c"][0], al))
        elif k == "CXXOperatorCallExpr" and n.get("op") in ("=", "+=", "-=", "*=", "/=", "<<", "++", "--") and n.get("c"):
            out.append(self.lv(n["c"][0], al))
        elif k == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n["c"]) == 2: out.append(self.lv(n["c"][1], al))
        elif k == "CXXMemberCallExpr" and n.get("obj") is not None and not n.get("cm") and \
                (n.get("q") or "").split("::")[-1] not in SUB + SIZES + ("resize", "reserve", "shrink_to_fit"):
            lv = self.lv(n["obj"], al)
            if lv and not self.targets(n, F): out.append(lv)
        if k in CALLS and k != "CXXOperatorCallExpr":
            pt = n.get("pt", [])
            q = (n.get("q") or "").split("::")[-1]
            if q in ALGO and n.get("c"):
                for a in n["c"]:
                    if a is not None: out.append(self.lv(a, al))
            for i, a in enumerate(n.get("c", [])):
                if a is None or i >= len(pt): continue
                t = pt[i].strip()
                if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "): out.append(self.lv(a, al))
        return [x for x in out if x]

    # ------------------------------------------------------------ lvalues
    def aliases(self, F):
        key = ("al", F.id)
        if key in self.memo: return self.memo[key]
        g = self.db.__dict__.setdefault("_fresh_al", {})
        if F.id in g: self.memo[key] = g[F.id]; return g[F.id]
        al = g[F.id] = {}
        for n in F.walk():
            if n["k"] == "VarDecl" and n["t"].strip().endswith("&") and not n["t"].strip().endswith("&&") and n.get("c") and n["c"][0]:
                al[n["d"]] = ("e", n["c"][0])
            elif n["k"] == "CXXForRangeStmt":
                v = n["var"]
                al[v["d"]] = ("r" if v["t"].strip().endswith("&") else "rv", n.get("range"))
        self.memo[key] = al
        return al

    def lv(self, n, al, depth=0):
        """('m', field, pattern) / ('v', id) / ('g', id) of an lvalue expression"""
        n = core(n)
        if n is None or depth > 12: return None
        k = n["k"]
        if k == "MemberExpr" and n.get("dk") == "field":
            b = core(n["c"][0]) if n.get("c") and n["c"][0] else None
            if b is not None and b["k"] == "UnaryOperator" and b.get("op") == "*": b = core(b["c"][0])
            if b is None or b["k"] == "CXXThisExpr":
                return ("m", n["d"], ()) if n["d"] in self.fields else None
            return self.lv(b, al, depth + 1)
        if k == "DeclRefExpr":
            if n.get("dk") in ("var", "parm"):
                a = al.get(n["d"])
                if a is None: return ("v", n["d"])
                if a[0] == "b": return a[1]
                if a[1] is None: return ("v", n["d"])
                r = self.lv(a[1], al, depth + 1)
                if a[0] == "rv": return ("v", n["d"])
                if r is None: return ("v", n["d"])
                if a[0] == "r" and r[0] == "m": return ("m", r[1], r[2] + ("*",))
                return r
            if n.get("dk") == "global": return ("g", n["d"])
            return None
        if k in ("CXXOperatorCallExpr", "ArraySubscriptExpr") and (k[0] == "A" or n.get("op") in ("[]", "()")):
            b = self.lv(n["c"][0], al, depth + 1)
            if b is None or b[0] != "m": return b
            ix = tuple(self.index(x) for x in n["c"][1:] if x is not None)
            return ("m", b[1], b[2] + ix)
        if k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and len(n["c"]) == 1: return self.lv(n["c"][0], al, depth + 1)
        if k == "UnaryOperator" and n.get("op") in ("*", "&"): return self.lv(n["c"][0], al, depth + 1)
        if k in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") in ("+", "-") and n.get("c"):
            return self.lv(n["c"][0], al, depth + 1) if depth else None      # iterator arithmetic
        if k == "CXXMemberCallExpr" and n.get("obj") is not None:
            q = (n.get("q") or "").split("::")[-1]
            if q in ("begin", "end", "cbegin", "cend", "data", "rbegin"): return self.lv(n["obj"], al, depth + 1)
            if q in SUB:
                b = self.lv(n["obj"], al, depth + 1)
                if b is None or b[0] != "m": return b
                ix = tuple(self.index(x) for x in n.get("c", []) if x is not None) if q not in ("front",) else (0,)
                if q == "back": ix = ("*",)
                return ("m", b[1], b[2] + ix)
        if k == "CallExpr" and (n.get("q") or "").startswith("std::") and (n.get("q") or "").split("::")[-1] in ("begin", "end") and n.get("c"):
            return self.lv(n["c"][0], al, depth + 1)
        if k == "CXXConstructExpr" and len([x for x in n.get("c", []) if x]) == 1 and depth: return self.lv(n["c"][0], al, depth + 1)
        return None

    def index(self, n):
        v = const_eval(core(n), {}, self.db)
        return v if isinstance(v, int) and not isinstance(v, bool) else "*"

    # ------------------------------------------------------------ reading
    def read(self, lv, st, F, n):
        if lv[0] == "m":
            f, p = lv[1], lv[2]
            if f in self.always: return (f, p)
            hit = [c for c in self.byf.get(f, ()) if c in st.cells]
            if not hit: return None
            own = self.written.get(f, ())
            exact = any(x != "*" for x in p)
            for c in hit:
                if not overlaps(p, c[1]): continue
                # a constant element that has its own cell is that cell only
                if exact and c[1] != p and p in own and (f, p) not in st.cells and len(c[1]) <= len(p) and all(x != "*" for x in p): continue
                if self.reads is not None: self.reads.setdefault(c, (F, n))
                return c
            return None
        if lv[0] == "v": return ("local", lv[1]) if lv[1] in st.loc else None
        if lv[0] == "g":
            c = ("g", lv[1])
            if c in st.cells:
                if self.reads is not None: self.reads.setdefault(c, (F, n))
                return c
        return None

    def taint(self, n, st, fr):
        """a cell with old contents the value of n may depend on, or None"""
        n = core(n)
        if n is None: return None
        k = n["k"]
        if k in ("MemberExpr", "DeclRefExpr", "ArraySubscriptExpr") or k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "UnaryOperator"):
            if k == "UnaryOperator" and n.get("op") not in ("*",): return self.taint(n["c"][0], st, fr)
            q = (n.get("q") or "").split("::")[-1] if k == "CXXMemberCallExpr" else ""
            if q in SIZES: return None
            if k == "CXXMemberCallExpr" and id(n) in fr["calls"]: return fr["calls"][id(n)]
            lv = self.lv(n, fr["al"])
            if lv is not None:
                if k == "DeclRefExpr" and lv[0] == "v":
                    a = fr["al"].get(n["d"])
                    if a and a[0] == "rv" and a[1] is not None: return self.taint(a[1], st, fr)
                    if a and a[0] == "e" and lv[1] == n["d"]: return self.taint(a[1], st, fr)
                t = self.read(lv, st, fr["F"], n)
                if t is None:
                    for x in self.subscripts(n):
                        t = self.taint(x, st, fr)
                        if t: break
                return t
            if k == "MemberExpr":
                if n.get("dk") != "field" or not n.get("c") or n["c"][0] is None: return None
                return self.taint(n["c"][0], st, fr)
            if k == "DeclRefExpr": return None
        if k in CALLS and id(n) in fr["calls"]: return fr["calls"][id(n)]
        if k in ("LambdaExpr", "CXXThisExpr", "UnaryExprOrTypeTraitExpr", "StringLiteral", "IntegerLiteral", "FloatingLiteral"): return None
        for x in kids(n):
            if x["k"].endswith("Stmt"): continue
            t = self.taint(x, st, fr)
            if t: return t
        return None

    def subscripts(self, n):
        while n is not None:
            n = core(n)
            if n["k"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr"):
                for x in n["c"][1:]:
                    if x is not None: yield x
                n = n["c"][0] if n.get("c") else None
            elif n["k"] == "CXXMemberCallExpr":
                for x in n.get("c", []):
                    if x is not None: yield x
                n = n.get("obj")
            else: return

    # ------------------------------------------------------------ writing
    def store(self, lv, t, st, kill):
        if lv is None: return
        self.nstores += 1
        if lv[0] == "m":
            f, p = lv[1], lv[2]
            if t:
                own = (f, p) in self.cells
                for c in self.byf.get(f, ()):
                    if (covers(p, c[1]) if own else overlaps(p, c[1])): st.cells.add(c)
            elif kill:
                for c in self.byf.get(f, ()):
                    if covers(p, c[1]): st.cells.discard(c)
        elif lv[0] == "v":
            if t: st.loc.add(lv[1])
            elif kill: st.loc.discard(lv[1])
        elif lv[0] == "g":
            if t: st.cells.add(("g", lv[1]))
            elif kill: st.cells.discard(("g", lv[1]))

    def setenv(self, lv, v, st):
        if lv and lv[0] == "m" and not lv[2] and self.fields[lv[1]]["t"].strip() in SCALARS:
            if v is None or isinstance(v, (tuple, str)): st.env.pop(lv[1], None)
            else: st.env[lv[1]] = v
        elif lv and lv[0] == "v":
            if v is None or isinstance(v, (tuple, str)): st.env.pop(lv[1], None)
            else: st.env[lv[1]] = v

    def elem(self, e, st, fr):
        k = e["k"]; al = fr["al"]; F = fr["F"]
        if k == "BinaryOperator" and e["op"] == "=":
            t = self.taint(e["c"][1], st, fr); lv = self.lv(e["c"][0], al)
            whole = lv and (lv[0] == "m" or core(e["c"][0])["k"] == "DeclRefExpr")
            self.store(lv, t, st, whole)
            self.setenv(lv, const_eval(e["c"][1], st.env, self.db), st)
        elif k == "CompoundAssignOperator":
            t = self.taint(e["c"][0], st, fr) or self.taint(e["c"][1], st, fr); lv = self.lv(e["c"][0], al)
            self.store(lv, t, st, False); self.setenv(lv, None, st)
        elif k == "UnaryOperator" and e["op"] in ("++", "--"):
            lv = self.lv(e["c"][0], al); o = st.env.get(lv[1]) if lv and lv[0] == "v" else None
            self.setenv(lv, o + (1 if e["op"] == "++" else -1) if isinstance(o, int) and not isinstance(o, bool) and lv[1] in fr["pv"] else None, st)
        elif k == "DeclStmt":
            for v in e.get("decls", []):
                if v.get("k") != "VarDecl": continue
                if v.get("static"): continue
                if v["d"] in al and al[v["d"]][0] != "rv": continue
                i = v.get("c") and v["c"][0]
                t = self.taint(i, st, fr) if i else None
                if v["d"] in al: t = self.taint(al[v["d"]][1], st, fr) if al[v["d"]][1] else t
                (st.loc.add if t else st.loc.discard)(v["d"])
                c = const_eval(i, st.env, self.db) if i else None
                if c is not None and not isinstance(c, (tuple, str)): st.env[v["d"]] = c
                else: st.env.pop(v["d"], None)
        elif k == "CXXOperatorCallExpr" and e.get("op") in ("=", "+=", "-=", "*=", "/=", "<<") and len(e["c"]) == 2:
            t = self.taint(e["c"][1], st, fr); lv = self.lv(e["c"][0], al)
            if e["op"] != "=": t = t or self.taint(e["c"][0], st, fr)
            if lv and (e["op"] != "<<" or lv[0] == "m"):
                self.store(lv, t, st, e["op"] == "=" and (lv[0] == "m" or core(e["c"][0])["k"] == "DeclRefExpr") or e["op"] == "<<" and lv[0] == "m")
            self.note(fr, e, t)
        elif k == "CXXOperatorCallExpr" and e.get("op") == ">>" and len(e["c"]) == 2:
            t = self.taint(e["c"][0], st, fr)
            self.store(self.lv(e["c"][1], al), t, st, True)
        elif k == "ReturnStmt":
            if e.get("c") and e["c"][0]:
                t = self.taint(e["c"][0], st, fr)
                if t and not fr["ret"]: fr["ret"] = (t, e)
        elif k == "LambdaExpr":
            L = self.db.funcs.get(e.get("f"))
            if L is not None and L.body is not None and L.id not in self.active:
                s2, r = self.run(L, st, fr)
                if s2 is not None: st.join(s2)
        elif k in CALLS:
            self.call(e, st, fr)

    def note(self, fr, e, t):
        if t or id(e) not in fr["calls"]: fr["calls"][id(e)] = t or fr["calls"].get(id(e))

    def call(self, e, st, fr):
        k = e["k"]; al = fr["al"]; args = [a for a in e.get("c", [])]
        ts = self.targets(e, fr["F"])
        if ts:
            T = ts[0]
            if T.id in self.active: return
            al2 = {}; loc = set(); env = {d: v for d, v in st.env.items() if d in self.fields}; back = []
            for i, a in enumerate(args):
                if i >= len(T.params) or a is None: continue
                p = T.params[i]; t = p["t"].strip(); lv = self.lv(a, al)
                ref = t.endswith("&") and not t.endswith("&&") or t.endswith("*")
                if ref and lv and lv[0] in ("m", "g"): al2[p["d"]] = ("b", lv); continue
                if self.taint(a, st, fr): loc.add(p["d"])
                if ref and lv and lv[0] == "v" and not t.startswith("const "): back.append((p["d"], lv[1]))
                c = const_eval(a, st.env, self.db)
                if c is not None and not isinstance(c, (tuple, str)): env[p["d"]] = c
            key = (T.id, frozenset(st.cells), frozenset(env.items()), frozenset(loc), tuple(sorted((d, x[1]) for d, x in al2.items())))
            if key in self.memo: out, ret, rd = self.memo[key]
            else:
                sv = self.reads; self.reads = {}
                out, ret = self.enter(T, State(st.cells, env, loc), al2)
                rd = self.reads; self.reads = sv
                self.memo[key] = (out, ret, rd)
            if self.reads is not None:
                for c, w in rd.items(): self.reads.setdefault(c, w)
            if out is not None:
                st.cells = set(out.cells)
                st.env = {**{d: v for d, v in st.env.items() if d not in self.fields}, **{d: v for d, v in out.env.items() if d in self.fields}}
                for d, x in back:
                    (st.loc.add if d in out.loc else st.loc.discard)(x)
                    st.env.pop(x, None)
                self.note(fr, e, ret)
            else: fr["dead"] = True
            return
        # library and foreign functions
        q = (e.get("q") or "").split("::")[-1]
        ta = None
        for a in args:
            if a is not None:
                ta = ta or self.taint(a, st, fr)
        if k == "CXXMemberCallExpr" and e.get("obj") is not None:
            lv = self.lv(e["obj"], al)
            if q in KILL: self.store(lv, ta, st, True)
            elif q == "swap" and args:
                to = self.taint(e["obj"], st, fr); self.store(lv, ta, st, True); self.store(self.lv(args[0], al), to, st, True)
            elif not e.get("cm") and ta: self.store(lv, ta, st, False)
            if q in SIZES or q in SUB and self.lv(e, al): pass
            else: self.note(fr, e, ta or self.taint(e["obj"], st, fr))
        elif k == "CXXOperatorCallExpr":
            if e.get("op") in ("[]", "()") and self.lv(e, al): pass
            else: self.note(fr, e, ta)
            return
        else: self.note(fr, e, ta)
        if q in ALGO and (e.get("q") or "").startswith("std::") and args:
            d = ALGO[q]
            if d is None: dst = args[-2] if len(args) >= 2 else None
            else: dst = args[d[0]] if d[0] < len(args) else None
            src = [a for a in args if a is not dst and not (q in ("fill", "iota", "generate") and a is args[1])]
            t = None
            for a in src:
                if a is not None: t = t or self.taint(a, st, fr)
            self.store(self.lv(dst, al) if dst is not None else None, t, st, True)
            return
        if q in ("swap", "move", "forward", "begin", "end"): return
        pt = e.get("pt", [])
        for i, a in enumerate(args):
            if a is None or i >= len(pt): continue
            t = pt[i].strip()
            if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                lv = self.lv(a, al)
                if ta: self.store(lv, ta, st, False)
                self.setenv(lv, None, st)

    # ------------------------------------------------------------ functions
    def enter(self, F, st, al=None):
        """(state at normal return or None, old cell the returned value may depend on)"""
        fr = {"F": F, "al": {**self.aliases(F), **(al or {})}, "calls": {}, "ret": None, "dead": False, "pv": self.pvars(F)}
        for d, v in self.const.items(): st.env.setdefault(d, v)
        self.nrun.add(F.id)
        self.active.add(F.id)
        try: out, _ = self.run(F, st, fr)
        finally: self.active.discard(F.id)
        return out, (fr["ret"][0] if fr["ret"] else None)

    def run(self, F, st0, fr):
        g = pgraph(self.db, F)
        if not g.ok: return st0, None
        dom = self.dom(F, g); LOOP = ("ForStmt", "WhileStmt", "CXXForRangeStmt")
        pv = fr["pv"]

        def part(st): return tuple(st.env.get(v) for v in pv)
        IN = {(g.entry, part(st0)): st0.copy()}; BACK = {}
        work = [(g.entry, part(st0))]; order = {b: i for i, b in enumerate(g.rpo())}; n = 0
        while work and n < 20000:
            work.sort(key=lambda x: order.get(x[0], 0)); b, pk = work.pop(0); n += 1
            B = g.blocks[b]; me = (b, pk)
            st = IN[me].copy() if me in IN else None
            if me in BACK:
                if st is None: st = BACK[me].copy()
                else: st.join(BACK[me])
            loop = B.tk in LOOP and any(b in dom.get(p, ()) for p in B.preds)
            out = self.flow(B, st, fr)
            if out is None: continue
            cv = const_eval(B.cond, out.env, self.db) if B.cond is not None else None
            if loop and pv and cv is not None: loop = False                       # unrolled
            edges = g.edges(b)
            if B.tk == "SwitchStmt" and cv is not None:
                hit = [x for x in edges if x[2][0] == "case" and const_eval(x[2][1], out.env, self.db) == cv]
                edges = hit or [x for x in edges if x[2][0] == "default"]
            for s, c, p in edges:
                if isinstance(p, bool) and cv is not None and not isinstance(cv, (tuple, str)) and bool(cv) != p and not loop: continue
                o = out
                if loop and p is False:
                    if me not in BACK: continue
                    o = self.flow(B, BACK[me].copy(), fr)
                    if o is None: continue
                elif isinstance(p, bool) and c is not None: o = self.refine(c, p, out, fr)
                t = (s, part(o))
                T = BACK if s in dom.get(b, ()) else IN
                if t in T: ch = T[t].join(o)
                else: T[t] = o.copy(); ch = True
                if ch and t not in work: work.append(t)
        res = None
        for (b, pk), st in IN.items():
            if b == g.exit:
                if res is None: res = st.copy()
                else: res.join(st)
        return res, None

    def flow(self, B, st, fr):
        for e in B.elems:
            self.elem(e, st, fr)
            if fr["dead"]: fr["dead"] = False; return None
        if B.cond is not None: self.taint(B.cond, st, fr)
        return st

    def refine(self, c, p, st, fr):
        c = core(c)
        while c is not None and c["k"] == "UnaryOperator" and c.get("op") == "!": c = core(c["c"][0]); p = not p
        lv = self.lv(c, fr["al"]) if c is not None and c.get("t", "").replace("const ", "") == "bool" and c["k"] in ("MemberExpr", "DeclRefExpr") else None
        if lv and (lv[0] == "v" or lv[0] == "m" and not lv[2]):
            o = st.copy(); o.env[lv[1]] = p; return o
        return st

    def dom(self, F, g):
        k = ("dom", F.id)
        if k not in self.memo: self.memo[k] = g.dominators()
        return self.memo[k]

    def name(self, c):
        if c[0] == "g": return c[1]
        f = self.fields.get(c[0]); n = f["n"] if f else str(c[0])
        return n + "".join("[%s]" % x for x in c[1])
