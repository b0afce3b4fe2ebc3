from core import walk, kids, CALLS, CheckError
from cfg import CFG, const_eval, key_of, skip_casts, ccp_reach


def lit(n):
    """string literal / enumerator / number behind conversions and constructors"""
    while n is not None:
        n = skip_casts(n)
        if n["k"] == "StringLiteral": return n["v"]
        if n["k"] == "DeclRefExpr" and n.get("dk") == "enumc": return ("enum", n["q"])
        if n["k"] == "IntegerLiteral": return int(n["v"])
        if n["k"] == "FloatingLiteral": return float(n["v"])
        if n["k"] == "CXXBoolLiteralExpr": return bool(n["v"])
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            c = [x for x in n.get("c", []) if x and x["k"] != "CXXDefaultArgExpr"]
            if len(c) != 1: return None
            n = c[0]; continue
        return None
    return None


def map_entries(v):
    """[(key, value)] of a map variable initialised by a braced list"""
    for n in walk(v):
        if n["k"] == "CXXStdInitializerListExpr":
            out = []
            il = n["c"][0]
            if il["k"] != "InitListExpr": il = next((x for x in walk(il) if x["k"] == "InitListExpr"), None)
            if il is None: return None
            for e in il.get("c", []):
                e = skip_casts(e)
                c = [x for x in e.get("c", []) if x and x["k"] != "CXXDefaultArgExpr"]
                if len(c) == 1: c = [x for x in skip_casts(c[0]).get("c", []) if x]
                if len(c) != 2: return None
                out.append((lit(c[0]), lit(c[1])))
            return out
    return None


def programs(db):
    """main functions below src/prog"""
    return sorted([F for F in db.all() if F.n == "main" and "/src/prog/" in F.file], key=lambda F: F.file)


def program_functions(db, main):
    """functions written in the program's own file"""
    return [F for F in db.all() if F.file == main.file and not F.d.get("implicit")]


def inline_set(db, F, depth=4):
    """F plus the own free functions / lambdas it calls (helpers)"""
    out = []; st = [(F, 0)]; seen = set()
    while st:
        X, d = st.pop()
        if X.id in seen: continue
        seen.add(X.id); out.append(X)
        if d >= depth: continue
        for n, tg in db.callees(X):
            for t in tg:
                if t.file == F.file: st.append((t, d + 1))
    return out


def settings_checks(db, main):
    """bool-returning parameterless methods called in main (or helpers in its file) on the options object and tested by a condition"""
    out = []
    for F in program_functions(db, main):
        for n in F.calls():
            if n["k"] == "CXXMemberCallExpr" and n.get("t") == "bool" and n.get("own") and not n.get("c"):
                for T in db.resolve(n["f"]):
                    if T.file == main.file and T.cls:
                        out.append((T, n))
    return out


def call_fact(c, pol, ids):
    """does condition c with polarity pol imply that a call from ids returned true?"""
    c = skip_casts(c)
    if c is None: return False
    if c["k"] in CALLS: return pol is True and id(c) in ids
    if c["k"] == "UnaryOperator" and c["op"] == "!": return call_fact(c["c"][0], (not pol) if isinstance(pol, bool) else pol, ids)
    if c["k"] in ("BinaryOperator",) and c["op"] in ("==", "!="):
        for a, b in ((c["c"][0], c["c"][1]), (c["c"][1], c["c"][0])):
            v = const_eval(b, {})
            if isinstance(v, bool) or v in (0, 1):
                want = bool(v) if c["op"] == "==" else not bool(v)
                if isinstance(pol, bool): return call_fact(a, pol if want else not pol, ids)
    return False


def bool_var_of(F, ids):
    """local bool variables initialised from such a call -> var id"""
    out = set()
    for n in F.walk():
        if n["k"] == "VarDecl" and n.get("c") and n["c"][0] and id(skip_casts(n["c"][0])) in ids: out.add(n["d"])
    return out


def dominated_by_check(db, main, F, n, goods, depth=0):
    """every path to node n in F passes a settings check that returned true"""
    ids = {id(c) for G, c in goods}
    g = CFG(F)
    w = g.where(n)
    if w is None: return True
    IN, tab = g.guards()
    bv = bool_var_of(F, ids)
    for cid, pol in IN.get(w[0], ()):
        c = tab[cid]
        if call_fact(c, pol, ids): return True
        x = skip_casts(c); p = pol
        while x is not None and x["k"] == "UnaryOperator" and x["op"] == "!": x = skip_casts(x["c"][0]); p = not p
        if x is not None and x["k"] == "DeclRefExpr" and x.get("d") in bv and p is True: return True
    if F is main or depth > 4: return False
    callers = [(X, m) for X in program_functions(db, main) for m, tg in db.callees(X) if F in tg]
    return bool(callers) and all(dominated_by_check(db, main, X, m, goods, depth + 1) for X, m in callers)


EXITS = ("exit", "_Exit", "abort", "quick_exit", "terminate")


def ends_block(db, B, memo=None, depth=0):
    """position of the element of block B that throws or never returns, or None"""
    for i, e in enumerate(B.elems):
        if e["k"] == "CXXThrowExpr": return i
        if e["k"] in CALLS:
            q = (e.get("q") or "").split("::")
            if q[-1] in EXITS and (len(q) == 1 or q[0] == "std"): return i
            if e.get("own") and e.get("f"):
                ts = db.resolve(e["f"])
                if ts and all(never_returns(db, t, depth + 1) for t in ts): return i
    return 0 if B.noret and not B.elems else (len(B.elems) if B.noret else None)


def never_returns(db, F, depth=0):
    """every path through F throws or ends the process"""
    memo = db.__dict__.setdefault("_nevret", {})
    if F.id in memo: return memo[F.id]
    if depth > 4: return False
    memo[F.id] = False
    g = graph(db, F)
    if not g.ok: return False
    memo[F.id] = not returns_from(db, g, g.entry, depth)
    return memo[F.id]


def graph(db, F):
    m = db.__dict__.setdefault("_graphs", {})
    if F.id not in m: m[F.id] = CFG(F)
    return m[F.id]


def returns_from(db, g, start, depth=0):
    """can F's exit be reached from block start without a throw?"""
    seen = set(); st = [start]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b == g.exit: return True
        if ends_block(db, g.blocks[b], depth=depth) is not None: continue
        for s, c, p in g.edges(b): st.append(s)
    return False


def pgraph(db, F):
    """CFG of F in which blocks that throw or never return have no successors"""
    m = db.__dict__.setdefault("_pgraphs", {})
    if F.id not in m:
        g = CFG(F); m[F.id] = g
        if g.ok:
            dead = [B for B in g.blocks.values() if ends_block(db, B) is not None]
            for B in dead: B.succs = []
            for B in g.blocks.values(): B.preds = []
            for B in g.blocks.values():
                for s in B.succs:
                    if s is not None: g.blocks[s].preds.append(B.id)
    return m[F.id]


BOGUS = "@bogus word@"


class Scenario:
    """conditional constant propagation with pinned values, across calls to own functions"""
    def __init__(self, db, pinned):
        self.db = db; self.pinned = dict(pinned); self.memo = {}; self.stack = []

    def __enter__(self):
        self.old = getattr(self.db, "call_hook", None); self.db.call_hook = self.call; return self

    def __exit__(self, *a): self.db.call_hook = self.old

    def call(self, n, env):
        """value of a call, or None; records never-returning calls"""
        r = self.summary(n, env)
        return None if r == "DEAD" else r

    def summary(self, n, env):
        if not n.get("own") or not n.get("f"): return None
        ts = self.db.resolve(n["f"])
        if len(ts) != 1: return None
        t = ts[0]
        args = n.get("c", [])
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()" and len(args) == len(t.params) + 1: args = args[1:]
        vals = tuple(const_eval(a, env, self.db) if a is not None else None for a in args)
        key = (t.id, vals)
        if key in self.memo: return self.memo[key]
        if t.id in self.stack or len(self.stack) > 5: return None
        self.stack.append(t.id)
        e = dict(self.pinned)
        for p, v in zip(t.params, vals):
            if v is not None: e[p["d"]] = v
        if t.d.get("lambda"):
            for k, v in env.items():
                if k not in e: e[k] = v
        self.memo[key] = r = self.run(t, e)
        self.stack.pop()
        return r

    def dead(self, n, env):
        if n["k"] == "CXXThrowExpr": return True
        if n["k"] in CALLS:
            q = (n.get("q") or "").split("::")
            if q[-1] in EXITS and (len(q) == 1 or q[0] == "std"): return True
            if q[-1] in ("stoi", "stod", "stol", "stoul", "stoull", "stof") and any(const_eval(a, env, self.db) == BOGUS for a in n["c"] if a): return True
            if n.get("own") and self.summary(n, env) == "DEAD": return True
        return False

    def reach(self, F, env=None, start=None):
        g = graph(self.db, F)
        IN, tr = ccp_reach(g, dict(self.pinned, **(env or {})), self.db, pinned=tuple(self.pinned), start=start, dead=self.dead)
        return g, IN, tr

    def returns(self, F, env=None, start=None):
        """[(node or None, value)] of the ways F can return"""
        g, IN, tr = self.reach(F, env, start)
        out = []
        if not g.ok: return [(None, None)]
        for b, e in IN.items():
            B = g.blocks[b]
            if b == g.exit: continue
            e = dict(e); ret = None; gone = False
            o = tr(B, e)
            if o.get("#dead"): continue
            for n in B.elems:
                if n["k"] == "ReturnStmt": ret = n
            if ret is not None:
                v = const_eval(ret["c"][0], o, self.db) if ret.get("c") and ret["c"][0] else None
                out.append((ret, v))
            elif g.exit in [s for s, _, _ in g.edges(b)]:
                out.append((None, None))
        return out

    def run(self, F, env):
        rs = self.returns(F, env)
        if not rs: return "DEAD"
        vs = {(type(v), v) for _, v in rs}
        if len(vs) == 1: return rs[0][1]
        return None
