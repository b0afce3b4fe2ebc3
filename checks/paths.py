"""Path-state analysis: sets of (data, facts) pairs carried along the control-flow graph. data is the client's immutable
state; facts are the truth values of branch conditions that still hold (so that two ifs on the same condition are followed
consistently). Own functions are entered with a binding of their parameters."""
from core import walk, kids, CALLS
from cfg import skip_casts, key_of, const_eval, alternatives
from util import pgraph


def plain(n):
    n = skip_casts(n)
    while n is not None and n["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and n.get("c"):
        n = skip_casts(n["c"][0])
    return n


def base(n):
    """object expression of a member access"""
    return n["c"][0] if n.get("c") else None


def ids(n):
    return {x["d"] for x in walk(n) if x["k"] in ("DeclRefExpr", "MemberExpr") and x.get("d")}


def text(n):
    n = plain(n)
    if n is None: return "?"
    k = n["k"]
    if k in ("DeclRefExpr", "MemberExpr"):
        return (text(n["c"][0]) + "." if k == "MemberExpr" and n.get("c") else "") + str(n.get("d") or n.get("q") or n.get("n"))
    if k.endswith("Literal"): return k + str(n.get("v", n.get("val", "")))
    if k in CALLS: return str(n.get("q") or n.get("op")) + "(" + ",".join(text(c) for c in ([n["obj"]] if n.get("obj") else []) + [c for c in n.get("c", []) if c]) + ")"
    if k == "CXXThisExpr": return "this"
    return k + str(n.get("op", "")) + "(" + ",".join(text(c) for c in n.get("c", []) if c) + ")"


def cond_fact(c, p):
    """(text, truth, ids) of a branch condition, with negations and != normalised"""
    c = plain(c)
    while c is not None and c["k"] == "UnaryOperator" and c.get("op") == "!": c = plain(c["c"][0]); p = not p
    op = c.get("op"); a = c.get("c", [])
    if op in ("!=", "==") and len(a) == 2:
        t = sorted(text(x) for x in a)
        return "==(" + ",".join(t) + ")", p if op == "==" else not p, ids(c)
    if op in (">", "<", ">=", "<=") and len(a) == 2:
        x, y = text(a[0]), text(a[1])
        if op in (">", "<="):
            return "<(%s,%s)" % (y, x), (p if op == ">" else not p), ids(c)
        return "<(%s,%s)" % (x, y), (p if op == "<" else not p), ids(c)
    return text(c), p, ids(c)


def stable(c):
    """evaluating the condition again without writes in between gives the same value"""
    for x in walk(c):
        if x["k"] in CALLS and not (x.get("cm") or x.get("op") in ("==", "!=", "<", ">", "<=", ">=", "[]", "!", "->", "*")): return False
        if x["k"] in ("UnaryOperator",) and x.get("op") in ("++", "--"): return False
        if x.get("k") == "BinaryOperator" and x.get("op") == "=": return False
    return True


def written(n):
    """ids whose value the element may change"""
    k = n["k"]; out = set()

    def tgt(e):
        e = plain(e)
        if e is None: return
        if e["k"] in ("DeclRefExpr", "MemberExpr"): out.add(e.get("d"))
        elif e["k"] == "ConditionalOperator":
            for x in e["c"][1:]: tgt(x)
        elif e["k"] in ("ArraySubscriptExpr", "UnaryOperator", "CXXOperatorCallExpr", "CXXMemberCallExpr"):
            if e["k"] == "CXXMemberCallExpr" and not e.get("lv") and "*" not in str(e.get("t")) and "iterator" not in str(e.get("t")): return
            if e.get("obj"): tgt(e["obj"])
            elif e.get("c"): tgt(e["c"][0])
    if k in ("BinaryOperator", "CompoundAssignOperator") and (n["op"] == "=" or k[0] == "C"): tgt(n["c"][0])
    elif k == "UnaryOperator" and n.get("op") in ("++", "--", "&"): tgt(n["c"][0])
    elif k in CALLS:
        if n.get("obj") is not None and not n.get("cm"): tgt(n["obj"])
        args = n.get("c", []); pt = n.get("pt", [])
        if k == "CXXOperatorCallExpr" and args and not n.get("cm"):
            if n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>"): tgt(args[0])
            elif len(pt) == len(args) - 1: pass
        elif k != "CXXOperatorCallExpr":
            for i, a in enumerate(args):
                if a is not None and i < len(pt) and pt[i].strip().endswith("&") and not pt[i].startswith("const"): tgt(a)
    elif k == "DeclStmt":
        for v in n.get("decls", []): out.add(v.get("d"))
    return out


class Paths:
    CAP = 3000

    def __init__(self, db, event, edge=None):
        self.edge = edge
        self.db = db; self.event = event; self.memo = {}; self.stack = []; self.lost = 0

    def run(self, F, start_states, bind=(), start=None, header=None):
        """{'exit': states, 'header': states, 'at': {block: states}}"""
        g = pgraph(self.db, F)
        res = {"exit": set(), "header": set(), "at": {}, "ok": g.ok}
        if not g.ok: res["exit"] = set(start_states); return res
        start = g.entry if start is None else start
        at = {start: set(start_states)}; work = [start]
        while work:
            b = work.pop()
            B = g.blocks[b]
            if b == g.exit: continue
            cur = set(at[b])
            for n in B.elems:
                w = written(n)
                if w:
                    cur = {(d, frozenset(f for f in fs if not (f[2] & w))) if any(f[2] & w for f in fs) else (d, fs) for d, fs in cur}
                nxt = set()
                for d, fs in cur:
                    r = self.event(F, n, dict(bind), d)
                    if r is None: nxt.add((d, fs))
                    else: nxt.update((x, fs) for x in r)
                cur = nxt
            for t, c, p in g.edges(b):
                out = cur
                if c is not None and isinstance(p, bool):
                    out = set()
                    for alt in alternatives(c, p):
                        cu = cur
                        for lc, lp in alt: cu = self.follow(F, lc, lp, cu, bind)
                        out |= cu
                    if not out: continue
                if header is not None and t == header:
                    res["header"] |= {(d, frozenset()) for d, fs in out}; continue
                if t == g.exit: res["exit"] |= {(d, frozenset()) for d, fs in out}; continue
                old = at.setdefault(t, set())
                if len(old) + len(out) > self.CAP:
                    self.lost += 1; out = {(d, frozenset()) for d, fs in out}
                if not out <= old:
                    old |= out
                    if t not in work: work.append(t)
        res["at"] = at
        return res

    def follow(self, F, c, p, cur, bind):
        """states in which the leaf condition c has truth p"""
        if self.edge is not None:
            cur = {(self.edge(F, c, p, d, dict(bind)), fs) for d, fs in cur}
            cur = {x for x in cur if x[0] is not None}
        v = const_eval(c, {}, self.db)
        if v is not None and not isinstance(v, (str, float)) and bool(v) != p: return set()
        if stable(c):
            tx, tr, i = cond_fact(c, p); i = frozenset(i)
            if i: cur = {(d, fs | {(tx, tr, i)}) for d, fs in cur if not any(f[0] == tx and f[1] != tr for f in fs)}
        return cur

    def call(self, t, d, bind):
        """data states after own function t entered with data d"""
        key = (t.id, d, tuple(sorted(bind.items(), key=str)))
        if key in self.memo: return self.memo[key]
        if t.id in self.stack or len(self.stack) > 6: return {d}
        self.stack.append(t.id)
        r = self.run(t, {(d, frozenset())}, tuple(sorted(bind.items(), key=str)))
        self.stack.pop()
        out = {x for x, _ in r["exit"]}
        self.memo[key] = out
        return out
