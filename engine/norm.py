"""Printing of expressions in a normal form (casts dropped)."""
from cfg import skip_casts


def text(n):
    n = skip_casts(n)
    if n is None: return "?"
    k = n["k"]
    if k in ("DeclRefExpr", "MemberExpr"):
        b = text(n["c"][0]) + "." if k == "MemberExpr" and n.get("c") and n["c"][0] else ""
        return b + str(n.get("d") or n.get("q") or n.get("n"))
    if k == "CXXThisExpr": return "this"
    if "v" in n and k.endswith("Literal"): return str(n["v"])
    if k == "CXXBoolLiteralExpr": return str(n["v"])
    c = [text(x) for x in n.get("c", []) if x is not None]
    o = text(n["obj"]) + "." if n.get("obj") else ""
    return "%s%s(%s)" % (o, n.get("op") or n.get("q") or k, ",".join(c))
