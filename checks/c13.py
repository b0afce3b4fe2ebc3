"""Family A (methods of the potential classes and the thermal functions): conditional constant propagation with the derivative
selection pinned to -1, 0, 1, 2 and 5, the loop order to 0 and 1 and the temperature to a marker value; at every call that is
then reachable and whose target takes an argument of the same meaning, the value that arrives is the pinned one (or an
expression that depends on the own argument), never a default or another constant - except masses at zero temperature next
to the same masses at the given temperature. Field values must depend on the own field values, and which statements are
executed must be the same for every positive derivative selection, as it only names a direction. Family B (everything else
that is given a temperature, directly, through a captured variable or in a parameter structure): every call that takes a
temperature receives one that depends on it (dependence analysis over the function and its lambdas). Every such argument is
read by the function beyond size checks."""
import re
from core import walk, kids, CALLS, CheckError
from cfg import skip_casts, key_of, const_eval, ccp_reach
from util import Scenario, graph, never_returns
from paths import plain

EXPLANATION = "Pinned propagation of temperature, derivative selection, order and field values through the evaluation functions."
TN = ("T", "Temp", "temp", "temperature", "Temperature")
MARK = 37.25
NAM = {"T": "temperature", "D": "derivative selection", "O": "loop order", "V": "field values", "X": "argument x"}


def number(t): return t.replace("const", "").replace("&", "").strip() in ("double", "float", "long double")
def whole(t): return t.replace("const", "").replace("&", "").strip() in ("int", "unsigned int", "std::size_t", "size_t", "long")


def role(p):
    n, t = p["n"], p["t"]
    if n in TN and number(t): return "T"
    if n == "diff" and whole(t): return "D"
    if n == "Order" and whole(t): return "O"
    if n in ("v", "vev") and "vector<double" in t.replace(" ", ""): return "V"
    if n == "x" and number(t): return "X"
    return None


def roles(F): return {role(p): p for p in F.params if role(p)}


def outermost(F):
    while F.d.get("lambda") and F.owner is not None: F = F.owner
    return F


def family(db):
    base = "BSMPT::Class_Potential_Origin"
    cls = {base} | set(db.derived(base))
    return cls


def void_cast(F, n):
    for a in F.ancestors(n):
        if a["k"].endswith("CastExpr") and a.get("t") == "void": return True
        if a["k"] not in ("ParenExpr", "ImplicitCastExpr"): return False
    return False


SIZE = ("size", "empty", "capacity")


def real_use(F, n):
    """the read is more than a size check or a cast to void"""
    if void_cast(F, n): return False
    p = F.parent(n)
    if p is not None and p["k"] == "CXXMemberCallExpr" and (p.get("q") or "").split("::")[-1] in SIZE: return False
    if p is not None and p["k"] == "MemberExpr" and (p.get("n") or "") in SIZE: return False
    return True


def depends(unit, seeds):
    """declaration ids whose value may depend on the seeds (flow-insensitive, over a function and its lambdas)"""
    S = set(seeds); edges = []
    for F in unit:
        for n in F.walk():
            k = n["k"]
            if k == "VarDecl" and n.get("c") and n["c"][0]: edges.append((n["d"], n["c"][0]))
            elif k == "CXXForRangeStmt":
                v = n.get("var")
                if v and n.get("range"): edges.append((v["d"], n["range"]))
            elif k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and n.get("op") in ("=", "+=", "-=", "*=", "/=", "<<") and len(n.get("c", [])) == 2:
                for d in bases(n["c"][0]): edges.append((d, n["c"][1]))
            elif k in CALLS:
                outs = []
                if n.get("obj") is not None and not n.get("cm"): outs += bases(n["obj"])
                pt = n.get("pt", [])
                for i, a in enumerate(n.get("c", [])):
                    if a is not None and i < len(pt) and pt[i].strip().endswith("&") and not pt[i].startswith("const"): outs += bases(a)
                for d in outs: edges.append((d, n))
    use = [(d, {x["d"] for x in walk(e) if x["k"] in ("DeclRefExpr", "MemberExpr") and x.get("d")}) for d, e in edges if d]
    ch = True
    while ch:
        ch = False
        for d, u in use:
            if d not in S and u & S: S.add(d); ch = True
    return S


def bases(e):
    e = plain(e); out = []
    while e is not None:
        if e["k"] in ("DeclRefExpr", "MemberExpr"):
            if e.get("d"): out.append(e["d"])
            if e["k"] == "DeclRefExpr": break
            e = plain(e["c"][0]) if e.get("c") else None
            if e is not None and e["k"] == "CXXThisExpr": break
        elif e["k"] in ("ArraySubscriptExpr", "UnaryOperator", "CXXOperatorCallExpr"): e = plain(e["c"][0]) if e.get("c") else None
        elif e["k"] == "CXXMemberCallExpr": e = plain(e.get("obj"))
        else: break
    # writing to x.f changes x.f, not what x.g holds: keep the member and, for containers, the variable
    return out[:1] if out else []


def refs(e): return {x["d"] for x in walk(e) if x["k"] in ("DeclRefExpr", "MemberExpr") and x.get("d")}


def flows(F):
    """[(variable, expression)]: the expression may become (part of) the value of the variable"""
    out = []
    for n in F.walk():
        k = n["k"]
        if k == "VarDecl" and n.get("c") and n["c"][0]: out.append((n["d"], n["c"][0]))
        elif k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and n.get("op") in ("=", "+=", "-=", "*=", "/=", "<<") and len(n.get("c", [])) == 2:
            for d in bases(n["c"][0]): out.append((d, n["c"][1]))
        elif k in CALLS:
            pt = n.get("pt", [])
            for i, a in enumerate(n.get("c", [])):
                if a is not None and i < len(pt) and pt[i].strip().endswith("&") and not pt[i].startswith("const") and "Ref<" not in pt[i]:
                    for d in bases(a): out.append((d, n))
    return out


def expansion_point(F):
    """(variables whose eigenvalues are differentiated, expressions that make up their value, [calls])"""
    calls = [n for n in F.walk() if n["k"] in CALLS and (n.get("q") or "").split("::")[-1] == "FirstDerivativeOfEigenvalues" and n.get("c")]
    S = set(); E = [n["c"][0] for n in calls]
    fl = flows(F); ch = True
    for n in calls: S |= {d for d in refs(n["c"][0]) if str(d).startswith("L")}
    while ch:
        ch = False
        for d, e in fl:
            if d in S and not any(e is x for x in E):
                E.append(e); ch = True
                # copies of matrices, not the loop indices and scalars that select or scale entries
                for x in walk(e):
                    if x["k"] == "DeclRefExpr" and "atri" in x.get("t", "") and str(x.get("d")).startswith("L"): S.add(x["d"])
    return S, E, calls


def args_of(n, t):
    a = n.get("c", [])
    if n["k"] == "CXXOperatorCallExpr" and len(a) == len(t.params) + 1: a = a[1:]
    return a


def run(db, rep):
    cls = family(db)
    nh = [f["d"] for f in db.rec_by_q.get("BSMPT::Class_Potential_Origin", [{"fields": []}])[0]["fields"] if f["n"] == "NHiggs"]
    if not nh: raise CheckError("field NHiggs of the potential class not found")
    A = [F for F in db.funcs.values() if "/tests/" not in F.file and "standalone/" not in F.file and not F.d.get("lambda") and roles(F) and not never_returns(db, F)
         and (F.d.get("cls") in cls or "/ThermalFunctions/" in F.file) and not F.d.get("implicit")]
    if len(A) < 15: raise CheckError("evaluation functions not found")
    AI = {F.id for F in A}
    gt = []

    def same(F, t):
        """roles with the same meaning in F and t"""
        f, g = roles(F), roles(t)
        pf, pg = F.d.get("cls") in cls, t.d.get("cls") in cls
        if pf != pg: return {}
        r = {k: (f[k], g[k]) for k in f if k in g}
        if pf: r.pop("X", None)
        else: r.pop("T", None)
        return r
    legacy = lambda F: "deprecated" in F.file or F.q.split("::")[-1].endswith("_legacy")
    for F in sorted(A, key=lambda f: (f.file, f.d.get("l", 0))):
        rs = roles(F); rep.count("evaluation_functions")
        dep = {k: depends([F], {p["d"]}) for k, p in rs.items()}
        # ---- every argument is read
        name = F.q.split("::")[-1]
        declared_empty = len([n for n in F.walk() if n["k"] in CALLS or n["k"] == "MemberExpr"]) == 0 or "Simplified" in name
        for k, p in rs.items():
            if declared_empty or k == "X": continue
            rep.ok(); rep.count("arguments_read")
            if not any(n["k"] == "DeclRefExpr" and n.get("d") == p["d"] and real_use(F, n) for n in F.walk()):
                rep.bad("unused|%s|%s" % (F.q, k), F.loc(), "%s never uses the %s it is given" % (F.q, NAM[k]))
        calls = [(n, t) for n in F.walk() if n["k"] in CALLS and n.get("own") and n.get("f") for t in db.resolve(n["f"]) if t.id in AI and same(F, t)]
        # ---- derivative of eigenvalues: taken at the matrix itself, not at its derivative
        SP, EX, fc = expansion_point(F)
        inex = {id(x) for e in EX for x in walk(e)}
        if fc and "D" in rs:
            rep.ok(); rep.count("eigenvalue_derivatives", len(fc))
            e = next((x for e in EX for x in walk(e) if x["k"] == "DeclRefExpr" and x.get("d") in dep["D"]), None)
            if e is not None:
                rep.bad("expansion|" + F.q, F.loc(e), "%s differentiates the eigenvalues of a matrix that depends on the derivative selection instead of the mass matrix" % F.q)
        # ---- forwarding
        ds = (-1, 0, 1, 2, 5) if "D" in rs else (None,)
        os_ = (0, 1) if "O" in rs else (None,)
        reach = {}
        seen = {}
        for d in ds:
            for o in os_:
                pin = {nh[0]: 8}
                if "D" in rs and d is not None: pin[rs["D"]["d"]] = d
                if "O" in rs and o is not None: pin[rs["O"]["d"]] = o
                if "T" in rs: pin[rs["T"]["d"]] = MARK
                with Scenario(db, pin) as S:
                    g = graph(db, F)
                    if not g.ok: continue
                    IN, tr = ccp_reach(g, dict(pin), db, pinned=tuple(pin), dead=S.dead)
                    reach[(d, o)] = {b for b in IN}
                    env = {}
                    here = {}
                    for b, e in IN.items():
                        if b == g.exit: continue
                        x = tr(g.blocks[b], dict(e))
                        for n in g.blocks[b].elems: env[id(n)] = x; here[id(n)] = n
                    for n, t in calls:
                        if id(n) not in here: continue
                        a = args_of(n, t)
                        for k, (p, q) in same(F, t).items():
                            i = t.params.index(q)
                            if i >= len(a) or a[i] is None: continue
                            seen.setdefault((id(n), t.id, k), [n, t, k, a[i], []])[4].append((d, o, const_eval(a[i], env[id(n)], db)))
        twin = {}
        for n, t, k, a, vals in seen.values():
            if k == "T" and (refs(a) & dep["T"]): twin.setdefault(t.id, set()).update((d, o) for d, o, v in vals)
        for n, t, k, a, vals in seen.values():
            rep.ok(); rep.count("forwarded_arguments")
            src = "left to its default" if a["k"] == "CXXDefaultArgExpr" else "not the one it was given"
            for d, o, v in vals:
                want = {"D": d, "O": o, "T": MARK}.get(k)
                good = None
                if v is not None and k in "DOT":
                    good = v == want
                    if not good and k == "T" and v == 0 and a["k"] != "CXXDefaultArgExpr" and (d, o) in twin.get(t.id, ()): good = True
                    if not good and k == "D" and v == 0 and id(n) in inex: good = True
                    if not good and legacy(F): good = bool(refs(a) & dep[k])
                    if not good and k == "T" and refs(a) & dep["T"]: good = True
                else:
                    good = bool(refs(a) & dep[k])
                    if not good and k == "V" and not rs.get("V"): good = True
                if not good:
                    rep.bad("dropped|%s|%s|%s" % (F.q, t.q, k), F.loc(n), "%s calls %s with a %s that is %s%s" % (F.q, t.q.split("::")[-1], NAM[k], src, " (when called with %s %s)" % (NAM[k], want) if want is not None and k in "DO" else ""))
                    break
        # ---- a positive selection names a direction, all are treated alike
        if "D" in rs and F.d.get("cls") in cls and not legacy(F):
            rep.ok(); rep.count("direction_symmetry")
            for o in os_:
                base = reach.get((1, o))
                for d in (2, 5):
                    if base is not None and reach.get((d, o)) != base:
                        g = graph(db, F)
                        odd = sorted(base ^ reach[(d, o)])
                        at = next((e for b in odd for e in g.blocks[b].elems), None)
                        rep.bad("direction|" + F.q, F.loc(at) if at is not None else F.loc(), "%s calculates something else for derivative selection %d than for 1" % (F.q, d)); break
    # ---- family B
    units = {}
    for F in db.funcs.values():
        if "/tests/" in F.file or "standalone/" in F.file or F.id in AI or F.d.get("cls") in cls and never_returns(db, F): continue
        units.setdefault(outermost(F).id, []).append(F)
    trecs = {}
    for q, rr in db.rec_by_q.items():
        for r in rr:
            fs = [f for f in r["fields"] if f["n"] in TN and number(f["t"])]
            if fs: trecs.setdefault(q, [f["d"] for f in fs])
    BROAD = re.compile(r"^(T|Temp|temp|temperature|Temperature)(_?[0-9])?$")
    TLIKE = re.compile(r"(?i)temp|^t$|^t[0-9_]|_t$|^t[a-z]?$")
    for uid, unit in units.items():
        F0 = outermost(unit[0])
        own = {}; loc = {}
        for F in unit:
            s = {p["d"] for p in F.params if role(p) == "T"}
            for n in F.walk():
                if n["k"].endswith("CastExpr") and n["t"].endswith("*") and n.get("c") and n["c"][0] and n["c"][0].get("t", "").replace("const ", "") == "void *":
                    q = n["t"].replace("const", "").replace("*", "").replace("struct", "").strip()
                    for k in trecs:
                        if k == q or k.endswith("::" + q): s |= set(trecs[k])
            s |= {p["d"] for p in F.params if BROAD.match(p["n"]) and number(p["t"])}
            own[F.id] = s
            if not F.d.get("lambda") and any(G.d.get("lambda") for G in unit):
                loc[F.id] = {n["d"] for n in F.walk() if n["k"] == "VarDecl" and BROAD.match(n["n"]) and number(n.get("t", ""))}
        if not any(own.values()) and not any(loc.values()): continue
        names = {}
        for F in unit:
            for n in F.walk():
                if n["k"] in ("DeclRefExpr", "MemberExpr") and n.get("d"): names[n["d"]] = n.get("n") or (n.get("q") or "").split("::")[-1]
                if n["k"] == "VarDecl": names[n["d"]] = n["n"]
            for p in F.params: names[p["d"]] = p["n"]
        for F in unit:
            seeds = set(); G = F
            while G is not None:
                seeds |= own.get(G.id, set())
                if G is not F: seeds |= loc.get(G.id, set())
                G = G.owner if G.d.get("lambda") else None
            if not seeds: continue
            like = {d for d, n in names.items() if TLIKE.search(n or "")} | {p["d"] for p in F.params if number(p["t"])}
            dep = depends(unit, seeds | like)
            for n in F.walk():
                if n["k"] == "BinaryOperator" and n.get("op") == "=":
                    l = plain(n["c"][0])
                    if l["k"] == "MemberExpr" and any(l["d"] in v for v in trecs.values()):
                        if F.d.get("implicit") or F.d.get("defaulted") or F.q.split("::")[-1].startswith("operator"): continue
                        rep.ok(); rep.count("temperatures_stored")
                        if not refs(n["c"][1]) & dep: rep.bad("stored|" + F0.q, F.loc(n), "%s stores a temperature that is not related to the one it is given" % F0.q)
                if n["k"] not in CALLS and n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or not n.get("own") or not n.get("f"): continue
                for t in db.resolve(n["f"]):
                    rt = roles(t)
                    if "T" not in rt: continue
                    i = t.params.index(rt["T"]); a = args_of(n, t)
                    if i >= len(a) or a[i] is None: continue
                    rep.ok(); rep.count("temperatures_passed_on")
                    if not refs(a[i]) & dep:
                        how = "left to its default" if a[i]["k"] == "CXXDefaultArgExpr" else "not related to the one it is given"
                        rep.bad("temperature|%s|%s" % (F0.q, t.q.split("::")[-1]), F.loc(n), "%s calls %s with a temperature that is %s" % (F0.q, t.q.split("::")[-1], how))
            for p in F.params:
                if role(p) == "T" and not F.d.get("lambda"):
                    rep.ok(); rep.count("arguments_read")
                    if not any(n["k"] == "DeclRefExpr" and n.get("d") == p["d"] and not void_cast(G, n) for G in unit for n in G.walk()):
                        rep.bad("unused|%s|T" % F.q, F.loc(), "%s never uses the temperature it is given" % F.q)
    packets(db, rep, cls)


def packets(db, rep, cls):
    """derivative selection, order and argument x carried in a parameter structure"""
    rec = {}
    for q, rr in db.rec_by_q.items():
        fs = {}
        for r in rr:
            if q in cls: continue
            for f in r["fields"]:
                k = role(f)
                if k in ("D", "O", "X"): fs.setdefault(k, set()).add(f["d"])
        if fs: rec[q] = fs
    byf = {d: (q, k) for q, fs in rec.items() for k, ds in fs.items() for d in ds}
    if not byf: return
    for F in db.funcs.values():
        if "/tests/" in F.file or "standalone/" in F.file or F.d.get("implicit"): continue
        rs = roles(F)
        have = {}
        for n in F.walk():
            if n["k"].endswith("CastExpr") and n["t"].endswith("*") and n.get("c") and n["c"][0] and n["c"][0].get("t", "").replace("const ", "") == "void *":
                q = n["t"].replace("const", "").replace("*", "").replace("struct", "").strip()
                for k in rec:
                    if k == q or k.endswith("::" + q):
                        for r, ds in rec[k].items(): have.setdefault(r, set()).update(ds)
        for n in F.walk():
            if n["k"] == "BinaryOperator" and n.get("op") == "=":
                l = plain(n["c"][0])
                if l["k"] == "MemberExpr" and l.get("d") in byf and byf[l["d"]][1] in rs:
                    k = byf[l["d"]][1]
                    rep.ok(); rep.count("arguments_stored")
                    if not refs(n["c"][1]) & depends([F], {rs[k]["d"]}): rep.bad("packed|%s|%s" % (F.q, k), F.loc(n), "%s hands on another %s than the one it is given" % (F.q, NAM[k]))
            if n["k"] in CALLS and n.get("own") and n.get("f") and have:
                for t in db.resolve(n["f"]):
                    for k, p in roles(t).items():
                        if k not in have: continue
                        i = t.params.index(p); a = args_of(n, t)
                        if i >= len(a) or a[i] is None: continue
                        rep.ok(); rep.count("forwarded_arguments")
                        if not refs(a[i]) & depends([F], have[k]):
                            rep.bad("unpacked|%s|%s" % (outermost(F).q, k), F.loc(n), "%s calls %s with a %s that is not the one it was given" % (outermost(F).q, t.q.split("::")[-1], NAM[k]))
