"""Where does a store go?  Resolution of lvalues to their storage root."""
from core import walk, kids, CALLS
from cfg import skip_casts

ASSIGN_OPS = {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="}
ELEM = {"at", "operator[]", "front", "back", "begin", "end", "data", "rbegin", "rend", "get", "value", "operator()", "operator*",
        "operator->", "row", "col", "block", "coeffRef", "noalias", "array", "matrix", "diagonal", "find", "lower_bound", "emplace"}


class Roots:
    """roots of an lvalue expression: ('this',field) ('global',q) ('static',d) ('local',d) ('parm',d) ('temp',) ('unknown',)"""

    def __init__(self, db, F):
        self.db = db; self.F = F
        self.init = {}
        R = F
        self.chain = [F]
        while R.d.get("lambda") and R.owner is not None:
            R = R.owner; self.chain.append(R)
        self.caps = {}
        for X in self.chain:
            for n in X.walk():
                if n["k"] == "VarDecl": self.init[n["d"]] = n
                if n["k"] == "CXXForRangeStmt":
                    self.init[n["var"]["d"]] = dict(n["var"], c=[n.get("range")])
                if n["k"] == "LambdaExpr":
                    for c in n.get("caps", ()):
                        if "init" in c and c.get("d"): self.init.setdefault(c["d"], {"t": c["t"], "c": [c["init"]], "d": c["d"]})
        self.ownparams = {p["d"]: p for X in self.chain for p in X.params}

    def roots(self, n, seen=frozenset(), deref=False):
        """deref: the store goes through a pointer held in n"""
        n = skip_casts(n)
        if n is None: return {("unknown",)}
        k = n["k"]
        if k == "CXXThisExpr": return {("this", None)}
        if k == "MemberExpr":
            if n.get("dk") == "field":
                b = self.roots(n["c"][0], seen, n.get("arrow")) if n.get("c") and n["c"][0] else {("this", None)}
                out = set()
                for r in b:
                    out.add(("this", n["d"], n["n"]) if r[0] == "this" and r[1] is None else r)
                return out
            if n.get("dk") == "global": return {("global", n["q"])}
            return {("unknown",)}
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk == "global": return {("global", n["q"])}
            if n.get("static"): return {("static", n["d"], n["n"])}
            if dk in ("var", "parm"):
                d = n["d"]
                v = self.init.get(d)
                t = (v or self.ownparams.get(d) or n).get("t", n.get("t", ""))
                isref = t.endswith("&")
                isptr = t.rstrip().endswith("*") or t.rstrip().endswith("*const") or "iterator" in t or "_ptr<" in t
                if v is not None and (isref or (deref and isptr)) and d not in seen and v.get("c") and v["c"][0]:
                    return self.roots(v["c"][0], seen | {d}, deref)
                if v is None and d in self.ownparams: return {("parm", d, n["n"])}
                return {("local", d, n["n"])}
            if dk == "fn": return {("temp",)}
            return {("unknown",)}
        if k in ("ArraySubscriptExpr",): return self.roots(n["c"][0], seen, True)
        if k == "UnaryOperator":
            return self.roots(n["c"][0], seen, n["op"] == "*")
        if k == "CXXOperatorCallExpr":
            if n.get("op") in ("[]", "()", "*", "->", "=", "+=", "-=", "<<", ">>", "++", "--", "+", "-"):
                return self.roots(n["c"][0], seen, True)
            return {("temp",)}
        if k == "CXXMemberCallExpr":
            name = (n.get("q") or "").split("::")[-1]
            o = n.get("obj")
            if n.get("lv") or name in ELEM or n.get("t", "").endswith("*"):
                if o is None: return {("this", None)}
                return self.roots(o, seen, True)
            return {("temp",)}
        if k == "CallExpr":
            if n.get("lv") or n.get("t", "").endswith("*"):
                out = set()
                for a in n.get("c", []):
                    if a and (a.get("lv")): out |= self.roots(a, seen)
                return out or {("unknown",)}
            return {("temp",)}
        if k == "ConditionalOperator":
            return self.roots(n["c"][1], seen, deref) | self.roots(n["c"][2], seen, deref)
        if k == "BinaryOperator" and n["op"] in ("=", ","): return self.roots(n["c"][-1 if n["op"] == "," else 0], seen, deref)
        if k == "CompoundAssignOperator": return self.roots(n["c"][0], seen, deref)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            if deref and len(n.get("c", [])) == 1: return self.roots(n["c"][0], seen, deref)
            return {("temp",)}
        if k == "LambdaExpr" or k.endswith("Literal") or k == "CXXNewExpr": return {("temp",)}
        return {("temp",)}


def stores(db, F):
    """yield (node, lvalue node, kind, roots) for every store performed directly by F"""
    R = Roots(db, F)
    for n in F.walk():
        k = n["k"]
        if k == "BinaryOperator" and n["op"] == "=": yield n, n["c"][0], "assignment", R.roots(n["c"][0])
        elif k == "CompoundAssignOperator": yield n, n["c"][0], "assignment", R.roots(n["c"][0])
        elif k == "UnaryOperator" and n["op"] in ("++", "--"): yield n, n["c"][0], "increment", R.roots(n["c"][0])
        elif k == "CXXDeleteExpr": yield n, n["c"][0], "delete", R.roots(n["c"][0], frozenset(), True)
        elif k in CALLS:
            args = n.get("c", []); pt = n.get("pt", [])
            if k == "CXXMemberCallExpr" and n.get("obj") is not None and not n.get("cm") and not n.get("sm"):
                name = (n.get("q") or "").split("::")[-1]
                if name not in ("begin", "end", "rbegin", "rend", "at", "front", "back", "data", "operator[]", "find", "get"):
                    yield n, n["obj"], "non-const call %s" % name, R.roots(n["obj"], frozenset(), bool(n.get("arrow")))
            off = 0
            if k == "CXXOperatorCallExpr" and len(args) > len(pt):
                off = len(args) - len(pt)
                if not n.get("cm") and n.get("op") in ASSIGN_OPS | {"++", "--", "()"} and args[0] is not None:
                    if n.get("op") == "()" and ("lambda" in (n.get("f") or "") or "class Eigen" in n.get("q", "") or n.get("lv")): pass
                    else: yield n, args[0], "operator %s" % n["op"], R.roots(args[0])
            for i, a in enumerate(args):
                if a is None or i < off: continue
                j = i - off
                if j < len(pt):
                    t = pt[j]
                    if t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and " const &" not in t and a.get("lv"):
                        yield n, a, "passed by reference to %s" % (n.get("q") or "?"), R.roots(a)
                    elif t.endswith("*") and not t.startswith("const ") and a["k"] == "UnaryOperator" and a.get("op") == "&":
                        yield n, a, "address passed to %s" % (n.get("q") or "?"), R.roots(a)
