"""Interprocedural effect analysis over the call graph (virtual calls resolved to every overrider) of the evaluation
functions: every const method of the model classes, the named evaluation functions whether const or not, and the
thermal functions. No store, non-const call, by-reference hand-out or delete may have a storage root outside the
function's own locals and explicit out-parameters; no static local may be non-const or initialised from arguments or
object state; no mutable member, const_cast or call of a stateful library routine may be reachable. Log output is
exempt."""
from core import walk, kids, CALLS
from cfg import skip_casts
from effects import stores, Roots
import util

EXPLANATION = "Effect analysis: all stores, static locals, mutable members and stateful calls reachable from evaluation functions."
BASE = "BSMPT::Class_Potential_Origin"
API = {"VEff", "VTree", "CounterTerm", "V1Loop", "VTreeSimplified", "VCounterSimplified", "HiggsMassesSquared", "GaugeMassesSquared",
       "QuarkMassesSquared", "LeptonMassesSquared", "QuarkMasses", "LeptonMasses", "QuarkMassMatrix", "LeptonMassMatrix",
       "HiggsMassMatrix", "GaugeMassMatrix", "EWSBVEV", "boson", "fermion", "fbase", "fbaseTri", "fbaseFour", "CWTerm",
       "FCW", "CalculateRatioAlpha", "NablaVCT", "HessianCT", "MinimizeOrderVEV", "SetEWVEVZero",
       "FirstDerivativeOfEigenvalues", "SecondDerivativeOfEigenvaluesNonRepeated", "V1LoopFirstDerivative"}
NOT_EVALUATION = {"CheckImplementation"}   # self test of a model, runs the minimizers on fresh objects
STATEFUL = {"rand", "srand", "random", "srandom", "drand48", "strtok", "setenv", "putenv", "localtime", "gmtime", "asctime",
            "time", "clock", "gettimeofday", "random_device", "now", "signal", "fesetround", "gsl_set_error_handler",
            "gsl_set_error_handler_off", "lgamma", "hsearch"}


def exempt(F):
    return F.cls in ("BSMPT::Logger", "BSMPT::LoggerImpl") or "/Logger." in F.file


def run(db, rep):
    classes = db.derived(BASE)
    rep.need(len(classes) >= 8, "only %d model classes" % len(classes))
    rep.count("model_classes", len(classes))
    roots = []
    for F in db.all():
        if F.cls in classes and not F.d.get("ctor") and not F.d.get("dtor"):
            if F.n in NOT_EVALUATION: continue
            if F.d.get("const") or F.n in API or F.d.get("sm"): roots.append(F)
        elif F.q.startswith("BSMPT::ThermalFunctions::"): roots.append(F)
    apis = {F.n for F in roots if F.n in API}
    for must in ("VEff", "VTree", "CounterTerm", "V1Loop", "VTreeSimplified", "HiggsMassesSquared", "fbaseTri", "fbaseFour", "boson", "fermion"):
        rep.need(must in apis, "evaluation function %s vanished" % must)
    seen, ctx = contexts(db, roots, classes)
    rep.count("evaluation_roots", len(roots)); rep.count("functions_reached", len(seen))
    mut = {}
    for (q, f, l), r in db.records.items():
        for fd in r["fields"]:
            if fd["mutable"]: mut[fd["d"]] = (q, fd["n"])
    for fid in seen:
        F = db.funcs[fid]
        if exempt(F): continue
        isctor = F.d.get("ctor")
        for n in F.walk():
            k = n["k"]
            if k == "VarDecl" and n.get("static"):
                rep.ok(); rep.count("static_locals")
                isconst = n["t"].startswith("const ") or n.get("constexpr")
                if not isconst and escapes(F, n):
                    rep.bad("static|%s|%s" % (F.q, n["n"]), F.loc(n), "evaluation keeps the static variable %s" % n["n"])
                if True:
                    dep = dependence(db, F, n)
                    if dep: rep.bad("static|%s|%s" % (F.q, n["n"]), F.loc(n), "static %s is fixed by the first call's %s" % (n["n"], dep))
            elif k == "CXXConstCastExpr":
                rep.bad("const_cast|" + F.q, F.loc(n), "const_cast in an evaluation function")
            elif k == "CStyleCastExpr" and n.get("ck") in ("NoOp", "BitCast") and "*" in n["t"] and not n["t"].startswith("const "):
                c = skip_casts(n["c"][0])
                if c.get("t", "").startswith("const ") and c["t"].endswith("*"):
                    rep.bad("const_cast|" + F.q, F.loc(n), "cast removes const in an evaluation function")
            elif k in CALLS:
                nm = (n.get("q") or "").split("::")[-1]
                if not n.get("own") and nm in STATEFUL and "Eigen" not in (n.get("q") or "") and "(class" not in nm:
                    rep.bad("stateful|%s|%s" % (F.q, nm), F.loc(n), "evaluation calls %s" % n["q"])
            elif k in ("MemberExpr",) and n.get("d") in mut:
                if exempt_class(mut[n["d"]][0]): continue
                rep.bad("mutable|%s|%s" % mut[n["d"]], F.loc(n), "evaluation uses the mutable member %s::%s" % mut[n["d"]])
        for n, lv, kind, rts in stores(db, F):
            rep.ok(); rep.count("stores_resolved")
            for r in rts:
                if r[0] in ("local", "temp", "parm", "unknown"): continue
                if r[0] == "this":
                    if isctor or F.d.get("dtor") or not ctx.get(fid): continue
                    # the object is a temporary/local value class (e.g. spline, Eigen helper): only model objects and
                    # objects living in globals/statics/fields matter; their non-const use is caught at the call site
                    if F.cls not in classes and not F.d.get("lambda"): continue
                    if F.d.get("lambda") and not lambda_of(F, classes): continue
                    if r[1] is None and not kind.startswith("non-const"): continue
                    if r[1] is None and kind.startswith("non-const") and n.get("own"): continue   # analysed in the callee
                    nm = r[2] if len(r) > 2 else "object"
                    rep.bad("field|%s|%s" % (F.q, nm), F.loc(n), "evaluation modifies the object's member %s (%s)" % (nm, kind))
                elif r[0] == "global":
                    if "cout" in r[1] or "cerr" in r[1]: continue
                    rep.bad("global|%s|%s" % (F.q, r[1]), F.loc(n), "evaluation modifies the global %s (%s)" % (r[1], kind))
                elif r[0] == "static":
                    rep.bad("static|%s|%s" % (F.q, r[2]), F.loc(n), "evaluation modifies the static variable %s (%s)" % (r[2], kind))


def contexts(db, roots, classes):
    """reachable functions, and for each whether it may run on an object that outlives the evaluation"""
    ctx = {}; st = [(F, True) for F in roots]
    while st:
        F, sh = st.pop()
        if F.id in ctx and (ctx[F.id] or not sh): continue
        ctx[F.id] = ctx.get(F.id, False) or sh
        if exempt(F): continue
        R = Roots(db, F)
        for n, tg in db.callees(F):
            for t in tg:
                s2 = True
                if n["k"] == "CXXMemberCallExpr" and n.get("obj") is not None:
                    rr = R.roots(n["obj"], frozenset(), bool(n.get("arrow")))
                    s2 = False
                    for r in rr:
                        if r[0] in ("local", "temp"): continue
                        if r[0] == "this": s2 = s2 or ctx[F.id]
                        elif r[0] == "parm": s2 = s2 or True
                        else: s2 = True
                elif n["k"] in CALLS and (t.d.get("ctor")): s2 = False
                elif n["k"] == "LambdaExpr": s2 = ctx[F.id]
                elif n["k"] == "CXXOperatorCallExpr": s2 = ctx[F.id]
                st.append((t, s2))
    return set(ctx), ctx


def escapes(F, v):
    """a non-const static that is handed out (its stores inside the function are found by the effect analysis)"""
    for n in F.walk():
        if n["k"] == "DeclRefExpr" and n.get("d") == v["d"]:
            for a in F.ancestors(n):
                if a["k"] == "UnaryOperator" and a["op"] == "&": return True
                if a["k"] == "ReturnStmt" and (F.d["rt"].endswith("&") or F.d["rt"].endswith("*")): return True
                if a["k"] == "LambdaExpr": return True
    return False


def exempt_class(q): return q.endswith("Logger") or q.endswith("LoggerImpl")


def lambda_of(F, classes):
    while F.d.get("lambda") and F.owner is not None: F = F.owner
    return F.cls in classes


def dependence(db, F, v):
    """does the initialiser of a static read parameters, object state or non-static locals?"""
    params = {p["d"] for p in F.params}
    inner = set()
    for n in walk(v):
        if n["k"] == "LambdaExpr": return None if not n.get("caps") else "captured state"
        if n["k"] == "VarDecl": inner.add(n["d"])
        if n["k"] == "DeclRefExpr":
            if n.get("d") in params: return "argument %s" % n["n"]
            if n.get("dk") == "var" and not n.get("static") and n["d"] not in inner and n["d"] != v["d"]:
                if n["t"].startswith("const "):
                    continue
                return "local %s" % n["n"]
        if n["k"] == "CXXThisExpr" or (n["k"] == "MemberExpr" and n.get("dk") == "field" and not n.get("c")): return "object state"
    return None
