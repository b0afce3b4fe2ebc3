"""(a) The operand of every throw expression in the code has a class type derived from std::exception, and no destructor or
noexcept function throws. (b) In every program each call, construction and throw of main lies in a try block with a handler
for std::exception; that handler writes a message, and every path from it ends in a non-zero status; no other handler can
turn an error of the standard family into a successful end, and none outside main swallows errors other than a missing
optional option. (c) Every computation in main is dominated by the settings check; the failing edges of the settings check
and of the tests of the input and output file streams end in a non-zero status or an error on every path. (d) Conditional
constant propagation through the constructor of the settings, the settings check and main shows for each kind of invalid
setting (no model, no minimizer, minimizer that is not compiled in, line range, probabilities, wall velocity, step, grid, ...)
that acceptance is unreachable; unknown words for enumerated options are refused in the same sense."""
from core import walk, CALLS
from cfg import CFG, skip_casts, const_eval, key_of
from util import (programs, program_functions, lit, graph, pgraph, ends_block, settings_checks, call_fact, dominated_by_check,
                  Scenario, BOGUS, EXITS, never_returns)
from options import Program, PARSER, base_q
from c03 import handlers

EXPLANATION = "Exception types, handlers, failing exits and refusal of invalid settings of every program."
STD = {"exception", "runtime_error", "logic_error", "invalid_argument", "out_of_range", "domain_error", "length_error", "range_error",
       "overflow_error", "underflow_error", "bad_alloc", "bad_cast", "bad_typeid", "bad_function_call", "bad_weak_ptr",
       "bad_optional_access", "bad_variant_access", "bad_any_cast", "system_error", "ios_base::failure", "regex_error", "filesystem_error", "future_error"}
COMPUTE = {"initModel", "set_All", "set_gen", "Minimize_gen_all", "PTFinder_gen_all", "Minimize_gen_all_tree_level", "TripleHiggsCouplings", "FChoose"}
COMPUTE_CLASSES = {"TransitionTracer", "MinimumTracer", "Vacuum", "BounceSolution", "GravitationalWave"}


def clean(t): return (t or "").replace("const ", "").replace("&", "").replace("class ", "").replace("struct ", "").strip()


def std_family(db, t, depth=0):
    t = clean(t)
    if t.startswith("std::") and t.split("<")[0].replace("std::", "", 1).replace("__cxx11::", "").replace("filesystem::", "").replace("ios_base::failure[abi:cxx11]", "ios_base::failure") in STD: return True
    rec = db.rec_by_q.get(t) or db.rec_by_q.get("BSMPT::" + t)
    if rec and depth < 6:
        return any(std_family(db, b if isinstance(b, str) else b.get("t", b.get("q", "")), depth + 1) for b in rec[0].get("bases", ()))
    return False


def catches_std(db, h):
    t = h.get("ct")
    return t is None or t in ("...", "") or std_family(db, t)


def catches_all_std(h):
    t = h.get("ct")
    return t is None or t in ("...", "") or clean(t) == "std::exception"


def only_parser(h): return clean(h.get("ct") or "...").split("::")[-1] == "parserException"


def handler_block(g, h):
    for B in g.blocks.values():
        if B.label is h or any(e is h for e in B.elems): return B.id
    return None


def status_function(db, main, F, depth=0):
    """does the int F returns become main's status?"""
    if F is main: return True
    if depth > 4 or "int" not in (F.d.get("rt") or ""): return False
    sites = [(X, m) for X in program_functions(db, main) for m, tg in db.callees(X) if F in tg]
    ok = bool(sites)
    for X, m in sites:
        p = X.parent(m)
        while p is not None and (p["k"].endswith("CastExpr") or p["k"] == "ExprWithCleanups"): p = X.parent(p)
        ok = ok and p is not None and p["k"] == "ReturnStmt" and status_function(db, main, X, depth + 1)
    return ok


def may_succeed(db, S, F, start, env=None):
    """a way from block start to a return that is not a failing status: [(node, value)]"""
    return [(n, v) for n, v in S.returns(F, env, start) if not (isinstance(v, (int, float)) and not isinstance(v, bool) and v != 0)]


def run(db, rep):
    mains = programs(db)
    rep.need(len(mains) >= 8, "only %d programs" % len(mains))
    # (a)
    for F in db.all():
        for n in F.walk():
            if n["k"] == "CXXThrowExpr":
                if not n.get("c") or n["c"][0] is None: continue
                rep.ok(); rep.count("throw_expressions")
                t = n["c"][0]["t"]
                if not std_family(db, t):
                    rep.bad("throw|%s|%s" % (F.short(), clean(t)), F.loc(n), "%s raises a %s, which is not of the standard exception family and passes the programs' handlers" % (F.short(), clean(t)))
        if (F.d.get("dtor") or "noexcept" in F.d.get("t", "")) and "noexcept(false)" not in F.d.get("t", ""):
            rep.ok()
            x = throws_out(db, F)
            if x: rep.bad("noexcept|" + F.q, F.loc(x), "an error raised in %s, which promises not to raise one, ends the program without a handler" % F.short())
        for n in F.calls():
            q = (n.get("q") or "").split("::")
            if q[-1] in EXITS and (len(q) == 1 or q[0] == "std"):
                rep.ok(); rep.count("process_exits")
                v = const_eval(n["c"][0], {}) if n.get("c") else None
                if q[-1] in ("abort", "terminate"): rep.bad("exit|" + F.q, F.loc(n), "%s ends the process without a status" % F.short())
                elif v == 0 : rep.bad("exit|" + F.q, F.loc(n), "%s ends the process with a success status" % F.short())
    S0 = Scenario(db, {})
    with S0:
        for m in mains:
            prog = m.file.split("/")[-1].split(".")[0]
            main_flow(db, rep, S0, m, prog)
        for F in db.all():
            if any(F.file == m.file for m in mains): continue
            library_handlers(db, rep, F)
    rep.count("programs", len(mains))
    for m in mains:
        prog = m.file.split("/")[-1].split(".")[0]
        settings(db, rep, m, prog)


def throws_out(db, F):
    for n in F.walk():
        if n["k"] == "CXXThrowExpr" and not any(a["k"] == "CXXTryStmt" for a in F.ancestors(n)): return n
    return None


def may_raise(db, F, seen=None):
    """an own throw expression is reachable from F"""
    memo = db.__dict__.setdefault("_mayraise", {})
    if F.id in memo: return memo[F.id]
    R = db.reachable([F])
    R = R.values() if isinstance(R, dict) else R
    r = False
    for x in R:
        X = db.funcs.get(x) if isinstance(x, str) else x
        if X is not None and any(n["k"] == "CXXThrowExpr" for n in X.walk()): r = True; break
    memo[F.id] = r
    return r


def library_handlers(db, rep, F):
    for t in F.walk():
        if t["k"] != "CXXTryStmt": continue
        for h in handlers(t):
            rep.ok(); rep.count("handlers")
            if not catches_std(db, h): continue
            g = pgraph(db, F)
            b = handler_block(g, h) if g.ok else None
            if b is not None and g.exit not in g.reach(b): continue     # raises again on every path
            if only_parser(h): continue    # an option that was left out
            body = t.get("body") or (t.get("c") or [None])[0]
            for n in walk(body):
                if n["k"] in CALLS and n.get("own") and n.get("f"):
                    bad = next((x for x in db.resolve(n["f"]) if may_raise(db, x)), None)
                    if bad is not None:
                        rep.bad("swallow|" + F.q, F.loc(h), "%s swallows the errors of %s" % (F.short(), bad.short())); break
                if n["k"] == "CXXThrowExpr":
                    rep.bad("swallow|" + F.q, F.loc(h), "%s swallows its own error" % F.short()); break


def reports(h):
    for n in walk(h["body"]):
        if n["k"] in CALLS and (n.get("q") or "").startswith("BSMPT::Logger"): return True
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "<<": return True
        if n["k"] in CALLS and n.get("q") in ("printf", "fprintf", "puts", "perror", "std::printf", "std::fprintf"): return True
    return False


def reports_deep(db, F, h):
    if reports(h): return True
    for n in walk(h["body"]):
        if n["k"] in CALLS and n.get("own") and n.get("f"):
            for t in db.resolve(n["f"]):
                if reports({"body": t.body}): return True
    return False


def main_flow(db, rep, S, m, prog):
    funcs = program_functions(db, m)
    g = graph(db, m)
    rep.need(g.ok, "no control flow graph of main of %s" % prog)
    tries = [t for t in m.walk() if t["k"] == "CXXTryStmt"]
    inh = set()
    for t in tries:
        for h in handlers(t):
            for n in walk(h["body"]): inh.add(id(n))
    # every call in main is protected
    for n in m.walk():
        if n["k"] == "CXXThrowExpr" or n["k"] in CALLS and (n.get("own") or n["k"] != "CXXConstructExpr") and not (n.get("q") or "").startswith("std::ios_base"):
            if id(n) in inh: continue
            x = n; ok = False; lam = False
            for a in m.ancestors(n):
                if a["k"] == "LambdaExpr": lam = True
                if a["k"] == "CXXTryStmt" and (a.get("body") or (a.get("c") or [None])[0]) is x and any(catches_all_std(h) for h in handlers(a)): ok = True
                x = a
            if lam: continue
            rep.ok(); rep.count("protected_operations")
            if not ok:
                if n["k"] in CALLS and harmless(db, n): continue
                rep.bad("unprotected|%s" % prog, m.loc(n), "an error raised here leaves main of %s without a handler" % prog)
                break
    for F in funcs:
        for t in F.walk():
            if t["k"] != "CXXTryStmt": continue
            body = t.get("body") or (t.get("c") or [None])[0]
            for h in handlers(t):
                rep.ok(); rep.count("handlers")
                if not catches_std(db, h): continue
                gg = graph(db, F)
                b = handler_block(gg, h)
                if b is None: continue
                if only_parser(h):
                    gives_up = not may_succeed_any(S, F, b)
                    if gives_up: continue
                    risky = [n for n in walk(body) if n["k"] in CALLS and base_q(n.get("q")) in (PARSER + "::check_required_parameters", PARSER + "::add_input")]
                    if not risky:
                        for n in walk(body):
                            if n["k"] in CALLS and n.get("own") and n.get("f") and not (n.get("q") or "").startswith(PARSER):
                                for T in db.resolve(n["f"]):
                                    if T.file == F.file and not T.d.get("implicit") and any(base_q(c.get("q")) in (PARSER + "::check_required_parameters", PARSER + "::add_input") for X in closure(db, T) for c in X.calls()):
                                        risky.append(n)
                    if risky: rep.bad("swallow|%s|%s" % (prog, F.n), F.loc(h), "%s: refused command-line input is swallowed by this handler" % prog)
                    continue
                stat = status_function(db, m, F)
                if stat:
                    for n, v in may_succeed(db, S, F, b):
                        if F is m and n is None and v is None and not falls_off(F, S, b): continue
                        rep.bad("status|%s" % prog, F.loc(n or h), "%s: an error caught here ends the program with a success status" % prog); break
                    if not never_logs(db, F, h):
                        pass
                    elif S.returns(F, None, b):
                        rep.bad("silent|%s" % prog, F.loc(h), "%s: the handler ends the program without reporting the error" % prog)
                else:
                    if not [1 for _ in S.returns(F, None, b)]: continue
                    if not any(n["k"] in CALLS and (n.get("own") or not (n.get("q") or "").startswith("std::ios")) for n in walk(body)): continue
                    rep.bad("swallow|%s|%s" % (prog, F.n), F.loc(h), "%s: %s swallows errors and goes on" % (prog, F.short()))


def falls_off(F, S, b): return True


def may_succeed_any(S, F, b): return bool(S.returns(F, None, b))


def never_logs(db, F, h): return not reports_deep(db, F, h)


def closure(db, F):
    R = db.reachable([F])
    R = R.values() if isinstance(R, dict) else R
    return [db.funcs[x] if isinstance(x, str) else x for x in R]


def harmless(db, n):
    q = n.get("q") or ""
    if q.startswith("BSMPT::Logger"): return True
    if n.get("own") and n.get("f"):
        ts = db.resolve(n["f"])
        return bool(ts) and not any(may_raise(db, t) or raises_std(db, t) for t in ts)
    return q.split("::")[-1] in ("sync_with_stdio", "setlocale", "srand")


def raises_std(db, F):
    return any(n["k"] in CALLS and not n.get("own") for X in closure(db, F) if X is not None for n in X.calls())


# ------------------------------------------------------------------ settings
def settings(db, rep, m, prog):
    P = Program(db, m); P.flows()
    goods = settings_checks(db, m)
    rep.need(bool(goods) or True, "")
    ids = {id(c) for G, c in goods}
    funcs = P.funcs
    # computations are dominated by the check
    nc = 0
    for F in funcs:
        for n in F.calls():
            q = (n.get("q") or ""); last = q.split("::")[-1]
            comp = n.get("own") and (last in COMPUTE and n["k"] != "CXXConstructExpr" or
                                     n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and q.split("::")[-1].split("<")[0] in COMPUTE_CLASSES and n.get("c") and
                                     not clean(n["c"][0]["t"]).endswith(last))
            if not comp: continue
            nc += 1; rep.ok(); rep.count("computations_dominated")
            if not goods:
                rep.bad("nocheck|" + prog, F.loc(n), "%s computes without checking its settings" % prog); break
            if not dominated_by_check(db, m, F, n, goods):
                rep.bad("order|%s|%s" % (prog, last), F.loc(n), "%s: %s is reached without a successful check of the settings" % (prog, last))
    rep.need(nc > 0, "no computation found in %s" % prog)
    S0 = Scenario(db, {})
    with S0:
        for F in funcs:
            g = graph(db, F)
            if not g.ok: continue
            stat = status_function(db, m, F)
            for B in g.blocks.values():
                for s, c, p in g.edges(B.id):
                    if c is None or not isinstance(p, bool): continue
                    what = None
                    if any(id(x) in ids for x in walk(c)) and call_fact(c, not p, ids): what = "invalid settings are"
                    elif stream_fails(F, c, p): what = "an input or output file that cannot be opened is"
                    if not what: continue
                    rep.ok(); rep.count("refusal_edges")
                    if stat:
                        bad = may_succeed(db, S0, F, s)
                    else:
                        bad = [x for x in S0.returns(F, None, s) if x[1] is not False and not (isinstance(x[1], int) and not isinstance(x[1], bool) and x[1] != 0)]
                    if bad: rep.bad("accept|%s" % prog, F.loc(bad[0][0] or c), "%s: %s not refused with a failure status on this path" % (prog, what))
    # every file named by the settings is tested after it was opened
    for F in funcs:
        for v in F.walk():
            if v["k"] == "VarDecl" and "fstream" in v["t"] and not v["t"].endswith("&"):
                rep.ok(); rep.count("file_streams")
                tested = False
                for n in F.walk():
                    o = n.get("obj") if n["k"] == "CXXMemberCallExpr" else (n["c"][0] if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "!" else None)
                    if o is not None and key_of(o) == v["d"] and (n["k"] == "CXXOperatorCallExpr" or n["q"].split("::")[-1] in ("good", "is_open", "fail", "operator bool", "operator!", "bad")):
                        tested = True
                    if n["k"] in CALLS and n.get("own") and any(a is not None and key_of(a) == v["d"] for a in n.get("c", [])): tested = True
                if not tested: rep.bad("untested|%s|%s" % (prog, v["n"]), F.loc(v), "%s opens %s without testing that it could be opened" % (prog, v["n"]))
    # scenarios
    fields = {}; consts = {}; allf = {}
    for q, rs in db.rec_by_q.items():
        for r in rs:
            if r["file"] != m.file: continue
            for f in r["fields"]:
                allf[f["d"]] = f
                for k in P.taint.get(f["d"], ()): fields.setdefault(k, []).append(f)
    written = set()
    for F in funcs:
        for n in F.walk():
            if n["k"] in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and (n.get("op") or "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                kk = key_of(n["c"][0])
                if kk is not None: written.add(kk)
        for i in F.d.get("inits", ()):
            if i.get("d") and not i.get("deflt") and i.get("written"): written.add(i["d"])
    base = {}
    for d, f in allf.items():
        if d not in written and f.get("init"):
            v = const_eval(f["init"], {}, db)
            if v is None: v = lit(f["init"])
            if v is not None: base[d] = v
    single = lambda k, t=None: [f for f in fields.get(k, ()) if len(P.taint.get(f["d"], ())) == 1 and (t is None or f["t"] in t)]
    num = ("int", "double", "unsigned int", "std::size_t", "unsigned long", "size_t", "long", "float")
    sc = []

    def add(name, *kv):
        pin = dict(base)
        for fs, v in kv:
            if not fs: return
            for f in fs:
                if isinstance(v, (int, float)) and not isinstance(v, bool) and "unsigned" in f["t"] or f["t"] in ("size_t", "std::size_t"):
                    if v < 0: v = v + 2 ** 32
                pin[f["d"]] = v
        sc.append((name, pin))
    mod = [f for f in fields.get("model", ()) if "ModelID" in f["t"]]
    add("unknown model", (mod, ("enum", "BSMPT::ModelID::ModelIDs::NotSet")))
    fl, ll = single("firstline", num), single("lastline", num)
    for a, b in ((0, 5), (-3, 5), (7, 5), (2, -1), (0, 0)):
        add("firstline=%d, lastline=%d" % (a, b), (fl, a), (ll, b))
    if prog == "Test":
        for a in (0, -2): add("line=%d" % a, (single("line", num), a))
    for k, vs in (("perc_prbl", (-0.1, 1.1)), ("compl_prbl", (-0.1, 1.1)), ("vwall", (0., 1.5, -0.5, -3.)), ("epsturb", (-0.5, 1.5)),
                  ("num_pts", (-1,)), ("multistepmode", (4, -2)), ("temperaturestep", (0., -1.)), ("temperaturestart", (-1.,)), ("temperature", (-5.,)),
                  ("npoints", (-1,)), *[("npoints%d" % i, (-1,)) for i in range(1, 10)]):
        for v in vs: add("%s=%s" % (k, v), (single(k, num), v))
    if prog in ("CalcTemps", "CalcGW", "MinimaTracer"): add("thigh=-10", (single("thigh", num), -10.))
    add("temperatureStart=10, temperatureEnd=5", (single("temperaturestart", num), 10.), (single("temperatureend", num), 5.))
    for i in range(1, 10):
        add("low%d=5, high%d=3" % (i, i), (single("low%d" % i, num), 5.), (single("high%d" % i, num), 3.))
    wm = [f for f in allf.values() if {"usegsl", "usecmaes", "usenlopt"} <= set(P.taint.get(f["d"], ()))]
    if fields.get("usegsl") and not wm: pass
    add("no minimizer", (wm, 0))
    for k, flag in (("usegsl", "UseGSLDefault"), ("usecmaes", "UseLibCMAESDefault"), ("usenlopt", "UseNLoptDefault")):
        gl = [x for x in db.globals.values() if x["q"].endswith("::" + flag)]
        val = const_eval(gl[0]["v"]["c"][0], {}, db) if gl and gl[0]["v"].get("c") else None
        if val is False: add("--%s=true without that library" % k, ([f for f in fields.get(k, ()) if f["t"] == "bool"], True))
    ctors = [F for F in funcs if F.d.get("ctor") and any(clean(p["t"]) == PARSER for p in F.params)]
    for name, pin in sc:
        rep.ok(); rep.count("invalid_settings_tried")
        with Scenario(db, pin) as S:
            if any(not S.returns(c) for c in ctors): continue
            acc = []
            for G, c in goods:
                rs = S.returns(G)
                acc.append([x for x in rs if x[1] is not False])
            if any(not a for a in acc): continue
            if unreachable_compute(db, S, m, funcs): continue
            where = next((a[0][0] for a in acc if a and a[0][0] is not None), None)
            G = goods[0][0] if goods else m
            rep.bad("setting|%s|%s" % (prog, name.split("=")[0].split(",")[0]), G.loc(where), "%s accepts %s" % (prog, name))
    words(db, rep, P, prog)


def unreachable_compute(db, S, m, funcs):
    """under the scenario no computation in main is reachable"""
    g, IN, tr = S.reach(m)
    if not g.ok: return False
    for b in IN:
        for e in g.blocks[b].elems:
            if e["k"] in CALLS and e.get("own") and ((e.get("q") or "").split("::")[-1] in COMPUTE - {"FChoose"} or (e.get("q") or "").split("::")[-1] in COMPUTE_CLASSES):
                return False
            if e["k"] in CALLS and e.get("own") and e.get("f") and any(t.file == m.file and t.d.get("rt") in ("int", "void") for t in db.resolve(e["f"])): return False
    return True


def stream_fails(F, c, p):
    """c with value p means that a file stream is not usable"""
    neg = False; c = skip_casts(c)
    while c is not None and c["k"] == "UnaryOperator" and c["op"] == "!": neg = not neg; c = skip_casts(c["c"][0])
    if c is None: return False
    if c["k"] == "DeclRefExpr" and c.get("dk") == "var" and c.get("t", "").replace("const ", "") == "bool":
        for v in F.walk():
            if v["k"] == "VarDecl" and v["d"] == c["d"] and v.get("c") and v["c"][0]: return stream_fails(F, v["c"][0], p != neg)
        return False
    if c["k"] == "CXXMemberCallExpr":
        last = (c.get("q") or "").split("::")[-1]
        o = skip_casts(c.get("obj"))
        t = (o or {}).get("t", "")
        if "fstream" not in t and "fstream" not in (c.get("q") or ""): return False
        bad = {"good": False, "is_open": False, "operator bool": False, "fail": True, "operator!": True, "bad": True}.get(last)
        return bad is not None and p == (bad != neg)
    if c["k"] == "CXXOperatorCallExpr" and c.get("op") == "!" and "fstream" in skip_casts(c["c"][0]).get("t", ""): return p == (not neg)
    return False


def words(db, rep, P, prog):
    """an option that selects one of several words refuses any other word"""
    for F in P.funcs:
        src = {}
        for r in P.reads:
            X, n = (r.F, r.node)
            if X is not F: continue
            p = F.parent(n); v = None
            while p is not None and p["k"] not in ("VarDecl", "CompoundStmt", "BinaryOperator") and not p["k"].endswith("Stmt"):
                if p["k"] == "CXXOperatorCallExpr": break
                p = F.parent(p)
            if p is not None and p["k"] == "VarDecl" and "string" in p["t"] or p is not None and p["k"] == "VarDecl" and p["t"] == "auto": v = p
            if p is not None and p["k"] == "DeclStmt": v = next((d for d in p["decls"] if any(x is n for x in walk(d))), None)
            if v is not None: src.setdefault(v["d"], (set(), v))[0].add(r.key)
        for d, (keys, v) in src.items():
            cmp = []; conv = []
            for n in F.walk():
                if n.get("op") in ("==", "!=") and len(n.get("c", [])) == 2:
                    for a, b in ((n["c"][0], n["c"][1]), (n["c"][1], n["c"][0])):
                        if key_of(a) == d and isinstance(lit(b), str): cmp.append(n)
                if n["k"] in CALLS and (n.get("q") or "").startswith("std::sto") and any(key_of(a) == d for a in n["c"] if a): conv.append(n)
            if len(cmp) < 2: continue
            rep.ok(); rep.count("word_options")
            with Scenario(db, {d: BOGUS}) as S:
                g = graph(db, F)
                w = g.where(cmp[0])
                bad = S.returns(F, None, w[0]) if w else []
                if bad:
                    rep.bad("word|%s|%s" % (prog, "/".join(sorted(keys))), F.loc(v), "%s accepts any word for --%s and silently keeps the default" % (prog, "/".join(sorted(keys))))
