"""CFG utilities: blocks, conditions, conditional constant propagation, dataflow solver, guards."""
from core import walk, kids, CALLS


def skip_casts(n):
    while n and (n["k"].endswith("CastExpr") or n["k"] == "CXXDefaultArgExpr") and n.get("c"):
        n = n["c"][0]
    return n


def rightmost(n):
    while n is not None and n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
        n = n["c"][1]
    return n


class Block:
    __slots__ = ("id", "elems", "term", "tk", "cond", "succs", "preds", "label", "noret")


def implied(c, p):
    """[(condition, truth)] that hold when c has truth p"""
    out = [(c, p)]
    x = skip_casts(c)
    while x is not None and x["k"] == "ParenExpr": x = skip_casts(x["c"][0])
    if x is not None and x["k"] == "UnaryOperator" and x.get("op") == "!" and x.get("c"):
        y = skip_casts(x["c"][0])
        while y is not None and y["k"] == "ParenExpr": y = skip_casts(y["c"][0])
        if y is not None and y["k"] == "BinaryOperator" and y.get("op") in ("&&", "||"): out += implied(y, not p)
    if x is not None and x["k"] == "BinaryOperator" and (x.get("op") == "&&" and p or x.get("op") == "||" and not p):
        for a in x["c"]: out += implied(a, p)
    return out


def alternatives(c, p):
    """the ways c can have truth p: lists of (leaf condition, truth)"""
    x = skip_casts(c)
    while x is not None and x["k"] == "ParenExpr": x = skip_casts(x["c"][0])
    if x is not None and x["k"] == "UnaryOperator" and x.get("op") == "!" and x.get("c"):
        y = skip_casts(x["c"][0])
        while y is not None and y["k"] == "ParenExpr": y = skip_casts(y["c"][0])
        if y is not None and y["k"] == "BinaryOperator" and y.get("op") in ("&&", "||"): return alternatives(y, not p)
    if x is not None and x["k"] == "BinaryOperator" and x.get("op") in ("&&", "||"):
        a, b = x["c"]
        if (x["op"] == "&&") == p: return [l + r for l in alternatives(a, p) for r in alternatives(b, p)]
        return alternatives(a, p) + [l + r for l in alternatives(a, not p) for r in alternatives(b, p)]
    return [[(c, p)]]


class CFG:
    def __init__(self, F):
        self.F = F; F.index()
        g = F.d.get("cfg")
        self.ok = g is not None
        self.blocks = {}
        if not g: return
        for b in g["blocks"]:
            B = Block(); B.id = b["id"]
            B.elems = [F.nodes[i] for i in dict.fromkeys(b["e"]) if i in F.nodes]
            B.term = F.nodes.get(b.get("term")); B.tk = b.get("tk")
            c = F.nodes.get(b.get("cond"))
            B.cond = rightmost(c) if b.get("tk") != "SwitchStmt" else c
            if b.get("tk") != "SwitchStmt" and c is not None and B.cond is not c:
                # a condition whose parts were joined before the branch: the branch is on the whole condition
                own = {id(e) for e in B.elems}
                x = c
                while x is not None and x is not B.cond:
                    if x["k"] == "BinaryOperator" and x.get("op") in ("&&", "||") and id(x) in own: B.cond = x; break
                    x = x["c"][-1] if x.get("c") else None
            if B.tk == "BinaryOperator" and B.term is not None:
                B.cond = rightmost(B.term["c"][0])
            B.succs = b["s"]; B.preds = []; B.label = F.nodes.get(b.get("label")); B.noret = b.get("noret", False)
            self.blocks[B.id] = B
        # clang splits declarations of several variables; put one-variable statements where each is initialised
        multi = [n for n in F.walk() if n["k"] == "DeclStmt" and len(n.get("decls", [])) > 1]
        if multi:
            present = {id(e) for B in self.blocks.values() for e in B.elems}
            for n in multi:
                if id(n) in present: continue
                for v in n["decls"]:
                    x = v.get("c") and v["c"][0]
                    while x is not None and x:
                        w = next(((B, i) for B in self.blocks.values() for i, e in enumerate(B.elems) if e is x), None)
                        if w:
                            w[0].elems.insert(w[1] + 1, {"k": "DeclStmt", "decls": [v], "l": n.get("l"), "split": True}); break
                        x = x["c"][0] if x.get("c") and (x["k"].endswith("CastExpr") or len(x["c"]) == 1) else None
        self.entry = g["entry"]; self.exit = g["exit"]
        for B in self.blocks.values():
            for s in B.succs:
                if s is not None: self.blocks[s].preds.append(B.id)
        self._where = None
        # a throw ends in exit in clang's CFG: record those blocks
        self.throwing = {B.id for B in self.blocks.values()
                         if any(e["k"] == "CXXThrowExpr" for e in B.elems) or B.noret}

    def where(self, n):
        """(block id, position) of an AST node that is a CFG element (or the nearest enclosing element)"""
        if self._where is None:
            self._where = {}
            for B in self.blocks.values():
                for i, e in enumerate(B.elems):
                    self._where.setdefault(id(e), (B.id, i))
        x = n
        while x is not None:
            w = self._where.get(id(x))
            if w: return w
            x = self.F.parent(x)
        return None

    def edges(self, bid):
        """[(succ, cond node or None, polarity True/False/('case',node)/('default',))]"""
        B = self.blocks[bid]; out = []
        if B.tk == "SwitchStmt":
            for s in B.succs:
                if s is None: continue
                L = self.blocks[s].label
                if L is not None and L["k"] == "CaseStmt": out.append((s, B.cond, ("case", L["val"])))
                else: out.append((s, B.cond, ("default",)))
        elif B.tk in ("CXXTryStmt",):
            for s in B.succs:
                if s is not None: out.append((s, None, None))
        elif len(B.succs) == 2 and B.cond is not None:
            for i, s in enumerate(B.succs):
                if s is not None: out.append((s, B.cond, i == 0))
        else:
            for s in B.succs:
                if s is not None: out.append((s, None, None))
        return out

    def reach(self, start=None, cut=None, edge_ok=None):
        """blocks reachable from start; cut(bid)->True stops after block; edge_ok(bid,succ,cond,pol)"""
        st = [self.entry if start is None else start]; seen = set()
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if cut and cut(b): continue
            for s, c, p in self.edges(b):
                if edge_ok is None or edge_ok(b, s, c, p): st.append(s)
        return seen

    def dominators(self):
        ids = list(self.reach())
        dom = {b: set(ids) for b in ids}
        dom[self.entry] = {self.entry}
        ch = True
        order = self.rpo()
        while ch:
            ch = False
            for b in order:
                if b == self.entry: continue
                ps = [p for p in self.blocks[b].preds if p in dom]
                n = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if n != dom[b]: dom[b] = n; ch = True
        return dom

    def rpo(self):
        seen = set(); out = []
        st = [(self.entry, iter([s for s, _, _ in self.edges(self.entry)]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter([x for x, _, _ in self.edges(s)]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]

    def guards(self, kill=None):
        """must-facts at block entry: frozenset of (id(cond), polarity) with a table id->node.
        kill(block, fact_node) -> True if the block invalidates the fact"""
        table = {}
        TOP = None
        IN = {self.entry: frozenset()}
        order = self.rpo()
        work = list(order)
        first = True
        ch = True
        while ch:
            ch = False
            for b in order:
                if b not in IN: continue
                facts = IN[b]
                if kill:
                    facts = frozenset(f for f in facts if not kill(self.blocks[b], table[f[0]]))
                for s, c, p in self.edges(b):
                    f = facts
                    if c is not None and isinstance(p, bool):
                        for x, t in implied(c, p):
                            table[id(x)] = x; f = f | {(id(x), t)}
                    elif c is not None:
                        key = (id(c), p if isinstance(p, bool) else (p[0], id(p[1]) if len(p) > 1 else 0))
                        table[id(c)] = c
                        if len(p) > 1 if not isinstance(p, bool) else False: table[id(p[1])] = p[1]
                        f = f | {key}
                    n = f if s not in IN else IN[s] & f
                    if s not in IN or n != IN[s]:
                        IN[s] = n; ch = True
        return IN, table


# ---------------------------------------------------------------- constants
def key_of(n):
    n = skip_casts(n)
    if n is None: return None
    if n["k"] == "DeclRefExpr" and n.get("dk") in ("var", "parm"): return n["d"]
    if n["k"] == "MemberExpr" and n.get("dk") == "field": return n["d"]
    if n["k"] == "DeclRefExpr" and n.get("dk") == "global": return n["d"]
    return None


def const_eval(n, env, db=None, depth=0):
    """three-valued evaluation; returns python value or None"""
    if n is None: return None
    k = n["k"]
    if k in ("IntegerLiteral",): return int(n["v"])
    if k == "FloatingLiteral": return float(n["v"])
    if k == "CXXBoolLiteralExpr": return bool(n["v"])
    if k == "CharacterLiteral": return n["v"]
    if k == "StringLiteral": return n["v"]
    if k == "DeclRefExpr" and n.get("dk") == "enumc": return ("enum", n["q"])
    if k in ("DeclRefExpr", "MemberExpr"):
        kk = key_of(n)
        v = env.get(kk) if kk is not None else None
        if v is None and db is not None and n.get("dk") == "global" and depth < 5:
            gl = [x for x in db.globals.values() if x["q"] == n.get("q") and x["const"]] if n.get("q") else []
            if gl and gl[0]["v"].get("c") and gl[0]["v"]["c"][0]: return const_eval(gl[0]["v"]["c"][0], {}, db, depth + 1)
        return v
    if k.endswith("CastExpr") or k in ("CXXDefaultArgExpr", "CXXFunctionalCastExpr"):
        if not n.get("c"): return None
        v = const_eval(n["c"][0], env, db, depth)
        if n.get("ck") in ("IntegralToBoolean", "FloatingToBoolean") and v is not None and not isinstance(v, tuple):
            return bool(v)
        return v
    if k == "UnaryOperator":
        v = const_eval(n["c"][0], env, db, depth)
        if v is None: return None
        if n["op"] == "!": return (not v) if not isinstance(v, tuple) else None
        if n["op"] == "-" and not isinstance(v, (tuple, str)): return -v
        if n["op"] == "+": return v
        return None
    if k == "BinaryOperator" or k == "CXXOperatorCallExpr" and n.get("op") != "()":
        op = n.get("op")
        if not n.get("c") or len(n["c"]) != 2: return None
        a = const_eval(n["c"][0], env, db, depth); b = const_eval(n["c"][1], env, db, depth)
        if op == "&&":
            if a is False or b is False: return False
            if a is True and b is True: return True
            return None
        if op == "||":
            if a is True or b is True: return True
            if a is False and b is False: return False
            return None
        if a is None or b is None: return None
        try:
            if op == "==": return a == b
            if op == "!=": return a != b
            if isinstance(a, tuple) or isinstance(b, tuple): return None
            return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                    "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "/": lambda: (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1) if isinstance(a, int) and isinstance(b, int) else a / b,
                    "%": lambda: abs(a) % abs(b) * (-1 if a < 0 else 1),
                    "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
        except Exception:
            return None
    if k == "ConditionalOperator":
        c = const_eval(n["c"][0], env, db, depth)
        if c is None: return None
        return const_eval(n["c"][1] if c else n["c"][2], env, db, depth)
    if k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") and \
            len([x for x in n.get("c", []) if x and x["k"] != "CXXDefaultArgExpr"]) == 1:
        return const_eval(n["c"][0], env, db, depth)
    if db is not None and k in CALLS and getattr(db, "call_hook", None) is not None:
        return db.call_hook(n, env)
    return None


def ccp_reach(g, env, db=None, pinned=(), start=None, dead=None):
    """conditional constant propagation with a fixed environment (variables assigned in the function are
    tracked flow-sensitively; the given ones are assumed never reassigned unless an assignment is seen).
    Returns {block: env at entry}."""
    ASSIGN = ("=", "+=", "-=", "*=", "/=", "|=", "&=", "%=")

    def join(a, b):
        return {k: v for k, v in a.items() if k in b and b[k] == v and type(b[k]) == type(v)}

    def transfer(B, e):
        e0 = e
        e = dict(e)
        for n in B.elems:
            k = n["k"]
            if dead is not None and dead(n, e): e["#dead"] = True
            if k == "DeclStmt":
                for v in n.get("decls", []):
                    val = const_eval(v["c"][0], e, db) if v.get("c") and v["c"][0] else None
                    if "&" in v["t"] and "const" not in v["t"]: val = None
                    if val is None: e.pop(v["d"], None)
                    else: e[v["d"]] = val
            elif k == "BinaryOperator" and n["op"] == "=":
                kk = key_of(n["c"][0])
                if kk is not None:
                    val = const_eval(n["c"][1], e, db)
                    if val is None: e.pop(kk, None)
                    else: e[kk] = val
            elif k == "CompoundAssignOperator" or (k == "UnaryOperator" and n["op"] in ("++", "--", "&")):
                kk = key_of(n["c"][0])
                if kk is not None:
                    o = e.pop(kk, None); st = None
                    if k == "UnaryOperator" and n["op"] in ("++", "--"): st = 1 if n["op"] == "++" else -1
                    elif k == "CompoundAssignOperator" and n["op"] in ("+=", "-="):
                        st = const_eval(n["c"][1], e, db)
                        if isinstance(st, (int, float)) and n["op"] == "-=": st = -st
                    elif k == "CompoundAssignOperator" and o is not None:
                        v = const_eval(dict(n, k="BinaryOperator", op=n["op"][:-1]), dict(e, **{kk: o}), db)
                        if v is not None: e[kk] = v
                    if isinstance(o, (int, float)) and not isinstance(o, bool) and isinstance(st, (int, float)): e[kk] = o + st
            elif k in CALLS:
                for i, a in enumerate(n.get("c", [])):
                    if a is None: continue
                    pt = n.get("pt", [])
                    off = len(n["c"]) - len(pt) if k == "CXXOperatorCallExpr" else 0
                    if i - off >= 0 and i - off < len(pt) and pt[i - off].endswith("&") and not pt[i - off].startswith("const"):
                        kk = key_of(a)
                        if kk is not None: e.pop(kk, None)
        for kk in pinned:
            if kk in e0: e[kk] = e0[kk]
        return e
    if start is None: start = g.entry
    IN = {start: dict(env)}
    work = [start]
    while work:
        b = work.pop()
        out = transfer(g.blocks[b], IN[b])
        if out.pop("#dead", None): continue
        B = g.blocks[b]
        cv = const_eval(B.cond, out, db) if B.cond is not None else None
        edges = g.edges(b)
        if B.tk == "SwitchStmt" and cv is not None:
            hit = [x for x in edges if x[2][0] == "case" and const_eval(x[2][1], out, db) == cv]
            edges = hit or [x for x in edges if x[2][0] == "default"]
        for s, c, p in edges:
            if isinstance(p, bool) and cv is not None and not isinstance(cv, (tuple, str)) and bool(cv) != p: continue
            o = dict(out)
            # refine x == const on the true edge
            if isinstance(p, bool) and c is not None and c["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and c.get("op") in ("==", "!="):
                if (c["op"] == "==") == p:
                    for x, y in ((c["c"][0], c["c"][1]), (c["c"][1], c["c"][0])):
                        kk = key_of(x); v = const_eval(y, out, db)
                        if kk is not None and v is not None: o[kk] = v
            elif isinstance(p, bool) and c is not None and key_of(c) is not None and c.get("t") == "bool":
                o[key_of(c)] = p
            if s not in IN: IN[s] = o; work.append(s)
            else:
                j = join(IN[s], o)
                if j != IN[s]: IN[s] = j; work.append(s)
    return IN, transfer
