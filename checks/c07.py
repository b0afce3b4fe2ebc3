"""Flow-sensitive typestate analysis (none / held / released, as a may-set per resource variable) over the control-flow graph
of every function that obtains an object from a C library (…_alloc, …_calloc, …_create, fopen, malloc) or a raw new: on every
way to a return or throw the object has been released exactly once by the matching release function, or was handed to a
deleter with the matching release function, to the caller, or to an object whose destructor releases it. A release of an
object that may already be released, a use after release (also through pointers derived from it) and overwriting the only
pointer to a held object are violations. Own functions that release a parameter or return a fresh object are summarised and
must do so on all of their paths."""
import re
from core import walk, kids, CALLS
from cfg import skip_casts, key_of
from util import graph, ends_block
EXPLANATION = "May-typestate dataflow for library resources with interprocedural release/obtain summaries."
ALLOC = re.compile(r"^((?:gsl|nlopt|fftw|cblas|H5|cvode|lapack)\w*?)_(alloc|calloc|create|clone|copy_alloc|alloc_\w+)$")
SMART = ("unique_ptr", "shared_ptr")


def cname(n):
    q = n.get("q") or ""
    return q.split("::")[-1] if not n.get("own") else ""


def library_alloc(n):
    """release function that matches a library call, or None"""
    if n["k"] == "CXXNewExpr":
        return "delete"
    if n["k"] != "CallExpr": return None
    c = cname(n)
    if c == "fopen" or c == "fdopen" or c == "tmpfile": return "fclose"
    if c in ("malloc", "calloc", "realloc", "strdup"): return "free"
    m = ALLOC.match(c)
    if m: return m.group(1) + ("_destroy" if m.group(2) == "create" else "_free")
    return None


def strip(n):
    n = skip_casts(n)
    while n is not None and n["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"): n = skip_casts(n["c"][0])
    return n


class Sum:
    """which own functions return a fresh resource, and which release a parameter"""
    def __init__(self, db):
        self.db = db; self.makers = {}; self.releasers = {}; self.dtorfrees = {}

    def own(self, n):
        if n["k"] in CALLS and n.get("own") and n.get("f"):
            ts = self.db.resolve(n["f"])
            if len(ts) == 1: return ts[0]
        return None

    def alloc(self, n):
        r = library_alloc(n)
        if r: return r
        T = self.own(n)
        if T is not None: return self.makers.get(T.id)
        return None

    def release(self, n):
        """[(argument node, release name)]"""
        out = []
        if n["k"] == "CXXDeleteExpr": return [(n["c"][0], "delete")]
        if n["k"] == "CallExpr":
            c = cname(n)
            if c in ("free", "fclose") or c.endswith("_free") or c.endswith("_destroy"):
                if n.get("c"): return [(n["c"][0], c)]
        T = self.own(n)
        if T is not None:
            for i, r in self.releasers.get(T.id, {}).items():
                a = n["c"][i:i + 1]
                if n["k"] == "CXXOperatorCallExpr": a = n["c"][i + 1:i + 2]
                if a and a[0] is not None: out.append((a[0], r))
        return out


def analyse(db, S, F, rep, report):
    g = graph(db, F)
    if not g.ok: return None
    # resource variables: locals (or parameters that are released here) that receive a fresh object
    kind = {}; alias = {}; derived = {}
    for n in F.walk():
        tgt = src = None
        if n["k"] == "VarDecl" and n.get("c") and n["c"][0]: tgt, src, t = n["d"], strip(n["c"][0]), n["t"]
        elif n["k"] == "BinaryOperator" and n["op"] == "=": tgt, src, t = key_of(n["c"][0]), strip(n["c"][1]), n["c"][0].get("t", "")
        if src is None or tgt is None: continue
        r = S.alloc(src)
        if r and "*" in t and "_ptr<" not in t: kind[tgt] = r
    for n in F.walk():
        if n["k"] == "VarDecl" and n.get("c") and n["c"][0] and "*" in n["t"]:
            s = strip(n["c"][0])
            if key_of(s) in kind and s["k"] == "DeclRefExpr": alias[n["d"]] = key_of(s)
            elif n["d"] not in kind:
                for x in walk(s):
                    if x["k"] == "DeclRefExpr" and x.get("d") in kind and s["k"] in ("MemberExpr", "CallExpr"): derived[n["d"]] = x["d"]
    params = {p["d"]: i for i, p in enumerate(F.params) if "*" in p["t"]}
    rel = {}
    for n in F.walk():
        for a, r in S.release(n):
            k = key_of(strip(a))
            if k in params and k not in kind: rel[k] = r
    tracked = {**kind, **rel}
    fields = {k for k in kind if k.startswith("c:")}
    info = dict(kind=kind, returned=set(), rel={}, fields=fields)
    # temporaries: an allocation that is not stored anywhere
    for n in F.walk():
        r = S.alloc(n)
        if not r: continue
        if report: rep.count("resources_obtained"); rep.sample("%s at %s" % (cname(n) or n.get("q") or n["k"], F.loc(n)))
        p = F.parent(n); managed = None
        while p is not None and (p["k"].endswith("CastExpr") or p["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr")): p = F.parent(p)
        if p is None: continue
        if p["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "VarDecl", "ReturnStmt", "BinaryOperator", "CallExpr", "InitListExpr", "DeclStmt") or p["k"] == "LambdaExpr":
            if p["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr", "CXXMemberCallExpr") and report:
                if any(s in (p.get("t") or "") + (p.get("q") or "") for s in SMART):
                    if r == "delete": rep.ok(); continue
                    dl = [x.get("n") or (x.get("q") or "").split("::")[-1] for a in p.get("c", []) if a for x in walk(a) if x["k"] == "DeclRefExpr" and x.get("dk") == "fn" and x is not n]
                    dl += re.findall(r"\b(gsl\w+_free|nlopt\w*_destroy|fclose)\b", p.get("t") or "")
                    dl = [d for d in dl if d and d != cname(n)]
                    if dl and r not in dl:
                        rep.bad("deleter:%s:%s" % (F.q, r), F.loc(n), "the object obtained here is managed with %s instead of %s" % (dl[0], r))
                    elif not dl and not any(b in (p.get("t") or "") + (p.get("q") or "") for b in ("Deleter", "deleter", "Free", "free", "lambda")) and r != "delete":
                        rep.bad("deleter:%s:%s" % (F.q, r), F.loc(n), "the object obtained here is managed without its release function %s" % r)
                    else: rep.ok()
                elif p["k"] == "CallExpr" and p.get("own") is None and report and cname(p):
                    rep.bad("leak:%s:%s" % (F.q, r), F.loc(n), "the object obtained here is passed on and can never be released")
        elif report and p["k"] in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt"):
            rep.bad("leak:%s:%s" % (F.q, r), F.loc(n), "the object obtained here is dropped at once")

    if not tracked: return info

    def root(x):
        k = key_of(strip(x)) if x is not None else None
        return alias.get(k, k)

    def step(b, st, rp):
        B = g.blocks[b]
        st = dict(st)
        skip = set()
        end = ends_block(db, B)
        for i, e in enumerate(B.elems):
            for a, r in S.release(e):
                k = root(a)
                if k in tracked:
                    skip |= {id(x) for x in walk(a)}
                    if rp:
                        rep.ok()
                        if "R" in st[k]: rep.bad("double:%s:%s" % (F.q, tracked[k]), F.loc(e), "%s releases an object that may have been released already" % F.q)
                        if r != tracked[k] and r in ALLFREE(r): rep.bad("mismatch:%s:%s" % (F.q, r), F.loc(e), "released with %s, must be %s" % (r, tracked[k]))
                    st[k] = frozenset("R")
            tgt = None
            if e["k"] == "DeclStmt":
                for v in e.get("decls", []):
                    if v.get("d") in kind:
                        st[v["d"]] = frozenset("H") if v.get("c") and v["c"][0] and S.alloc(strip(v["c"][0])) else frozenset("N")
            elif e["k"] == "BinaryOperator" and e["op"] == "=":
                k = root(e["c"][0])
                if k in kind:
                    skip |= {id(x) for x in walk(e["c"][0])}
                    if "H" in st[k] and rp: rep.bad("overwritten:%s:%s" % (F.q, kind[k]), F.loc(e), "%s overwrites the only pointer to an object that may still be held" % F.q)
                    st[k] = frozenset("H") if S.alloc(strip(e["c"][1])) else frozenset("N")
                else:
                    k2 = root(e["c"][1])
                    if k2 in kind and strip(e["c"][1])["k"] == "DeclRefExpr":
                        l = strip(e["c"][0])
                        if l["k"] == "MemberExpr": st[k2] = frozenset("T")      # handed to an object
            elif e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or e["k"] == "CXXMemberCallExpr" and cname(e) in ("reset", "push_back", "emplace_back"):
                for a in e.get("c", []):
                    k = root(a) if a is not None else None
                    if k in tracked and (any(s in (e.get("t") or "") + (e.get("q") or "") for s in SMART) or S.own(e) is not None and frees_in_dtor(db, S, S.own(e))):
                        st[k] = frozenset("T")
            elif e["k"] == "ReturnStmt" and e.get("c") and e["c"][0]:
                k = root(e["c"][0])
                if k in kind:
                    if rp and "R" in st[k]: rep.bad("use:%s:%s" % (F.q, kind[k]), F.loc(e), "%s returns an object that may have been released" % F.q)
                    st[k] = frozenset("T"); info["returned"].add(k)
            elif e["k"] == "DeclRefExpr" and id(e) not in skip and rp:
                k = alias.get(e.get("d"), e.get("d"))
                k = derived.get(k, k)
                if k in tracked and "R" in st[k] and not assigned_or_released(F, S, e):
                    rep.bad("use:%s:%s" % (F.q, tracked[k]), F.loc(e), "%s uses %s after the object may have been released" % (F.q, e.get("n")))
            if e["k"] == "CXXThrowExpr" or (end == i and e["k"] in CALLS):
                for k in kind:
                    if k in fields: continue
                    if rp and "H" in st[k]: rep.bad("leak-throw:%s:%s" % (F.q, kind[k]), F.loc(e), "%s leaves by an error without releasing the object (%s)" % (F.q, kind[k]))
                    elif rp: rep.ok()
        return st

    init = {k: frozenset("H") if k in rel else frozenset("N") for k in tracked}
    IN = {g.entry: init}; work = [g.entry]
    def refine(st, c, p):
        c = strip(c) if c is not None else None
        if c is None or not isinstance(p, bool): return st
        k = null = None
        if c["k"] == "UnaryOperator" and c["op"] == "!": return refine(st, c["c"][0], not p)
        if c["k"] == "DeclRefExpr": k = root(c); null = not p
        elif c["k"] == "BinaryOperator" and c["op"] in ("==", "!="):
            for a, b in ((c["c"][0], c["c"][1]), (c["c"][1], c["c"][0])):
                bb = strip(b)
                if bb is not None and (bb["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or bb["k"] == "IntegerLiteral" and int(bb["v"]) == 0):
                    k = root(a); null = (c["op"] == "==") == p
        if k in tracked and null:
            st = dict(st); st[k] = frozenset("N")
        elif k in tracked and null is False and st[k] - {"N"}:
            st = dict(st); st[k] = st[k] - {"N"}
        return st
    while work:
        b = work.pop()
        out = step(b, IN[b], False)
        if ends_block(db, g.blocks[b]) is not None: continue
        for s, c, p in g.edges(b):
            o = refine(out, c, p)
            if s not in IN: IN[s] = o; work.append(s)
            else:
                j = {k: IN[s][k] | o[k] for k in tracked}
                if j != IN[s]: IN[s] = j; work.append(s)
    if report:
        for b in IN: step(b, IN[b], True)
    ex = IN.get(g.exit)
    if ex is None: return info
    for k, r in kind.items():
        if k in fields: continue
        if report:
            if "H" in ex[k]: rep.bad("leak:%s:%s" % (F.q, r), F.loc(), "%s can return without releasing the object it obtained (%s)" % (F.q, r))
            else: rep.ok()
    for k, r in rel.items():
        if "R" in ex[k]:
            info["rel"][params[k]] = r
            if report and "H" in ex[k]: rep.bad("partial-release:%s:%s" % (F.q, r), F.loc(), "%s releases its argument on some paths only" % F.q)
    return info


def ALLFREE(r): return (r,)


def assigned_or_released(F, S, e):
    """the reference is the target of an assignment, of a comparison with null or an argument of a release"""
    p = F.parent(e)
    while p is not None and (p["k"].endswith("CastExpr") or p["k"] == "ParenExpr"): p = F.parent(p)
    if p is None: return False
    if p["k"] == "BinaryOperator" and p["op"] == "=" and strip(p["c"][0]) is e: return True
    if p["k"] == "BinaryOperator" and p["op"] in ("==", "!="): return True
    return any(strip(a) is e for a, r in S.release(p))


def frees_in_dtor(db, S, C):
    """does C belong to a class whose destructor releases a member?"""
    if C.cls not in S.dtorfrees:
        S.dtorfrees[C.cls] = any(S.release(n) for D in db.all() if D.cls == C.cls and D.d.get("dtor") for n in D.walk())
    return S.dtorfrees[C.cls]


def run(db, rep):
    S = Sum(db)
    funcs = [F for F in db.all() if F.body is not None and not F.d.get("implicit")]
    cand = lambda F: any(S.alloc(n) for n in F.walk()) or any(S.release(n) for n in F.walk())
    for _ in range(4):
        ch = False
        for F in funcs:
            if not cand(F): continue
            i = analyse(db, S, F, rep, False)
            if i is None: continue
            if i["returned"]:
                r = i["kind"][sorted(i["returned"])[0]]
                if S.makers.get(F.id) != r: S.makers[F.id] = r; ch = True
            for n in F.walk():
                if n["k"] == "ReturnStmt" and n.get("c") and n["c"][0] and "*" in (F.d.get("rt") or "") and "_ptr<" not in F.d["rt"]:
                    r = S.alloc(strip(n["c"][0]))
                    if r and S.makers.get(F.id) != r: S.makers[F.id] = r; ch = True
            if i["rel"] and S.releasers.get(F.id) != i["rel"]: S.releasers[F.id] = i["rel"]; ch = True
        if not ch: break
    nf = 0
    for F in funcs:
        if not cand(F): continue
        nf += 1
        i = analyse(db, S, F, rep, True)
        for f in (i or {}).get("fields", ()):
            cls = F.cls
            ok = any(key_of(strip(a)) == f for D in db.all() if D.cls == cls and D.d.get("dtor") for n in D.walk() for a, r in S.release(n))
            if ok: rep.ok()
            else: rep.bad("member-leak:%s" % f, F.loc(), "%s stores a library object in a member that the destructor does not release" % F.q)
    rep.count("functions_with_resources", nf)
    rep.count("obtaining_helpers", len(S.makers)); rep.count("releasing_helpers", len(S.releasers))
    rep.need(rep.analysed.get("resources_obtained", 0) >= 6, "fewer than six library resources found")
