"""For every program: the set of listed options (add_argument calls reached from main, including the parser's own
constructors and option groups; keys resolved through helpers and loops) and the set of keys read are compared; the
value of every read is followed (assignments, helpers, conditional assignments, initialisers, library call arguments
and aggregate initialisers by position) and must reach the program's computation or output. Options that correspond to
a library setting must reach exactly that setting, and the setting must be read by the library. Reads of optional keys
lie in a try block whose handler catches parserException and goes on; every required key is enforced on every path."""
from core import walk, CALLS
from cfg import CFG, skip_casts, const_eval, key_of
from util import programs, lit, map_entries, pgraph, returns_from, ends_block, call_fact
from options import Program, PARSER, base_q

EXPLANATION = "Declared/read/used comparison of every command-line option of every program."
# option -> library settings (last component of struct field or parameter) it selects
SETTING = {
 "vwall": {"vwall"}, "perc_prbl": {"perc_prbl"}, "compl_prbl": {"compl_prbl"}, "epsturb": {"epsturb"},
 "maxpathintegrations": {"maxpathintegrations"}, "multistepmode": {"multistepmode", "UseMultiStepPTMode"},
 "num_pts": {"num_points"}, "checkewsr": {"ewsr_check"}, "checknlo": {"nlo_check"}, "trans_temp": {"which_transition_temp"},
 "usegsl": {"UseGSL"}, "usecmaes": {"UseCMAES"}, "usenlopt": {"UseNLopt"},
 "usemultithreading": {"UseMultithreading", "use_multithreading", "UseMultiThreading"}, "thigh": {"T_high"}, "tlow": {"T_low"},
 "model": {"choice"},
}
GRID = {"low": "low_value", "high": "high_value", "npoints": "nsteps"}


def protected(F, n):
    """handlers of the try blocks around n inside F"""
    out = []; prev = n
    for a in F.ancestors(n):
        if a["k"] == "CXXTryStmt":
            b = (a.get("body") or (a.get("c") or [None])[0])
            if b is prev: out.append(a)
        prev = a
    return out


def catches_parser(db, h):
    v = h.get("var"); t = (v or {}).get("t", h.get("t"))
    if not t: return True       # catch (...)
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("BSMPT::parserException", "std::exception", "parserException", "exception")


def handler_ends(F, h):
    """does the handler leave the function or rethrow?"""
    for n in walk(h["body"] if isinstance(h.get("body"), dict) else h):
        if n["k"] == "CXXThrowExpr": return True
        if n["k"] in CALLS and (n.get("q") or "").split("::")[-1] in ("exit", "abort", "_Exit", "quick_exit"): return True
    return False


def handlers(t): return t.get("handlers") or [x for x in t.get("c", []) if x and x["k"] == "CXXCatchStmt"]


def swallowed(db, P, F, n, depth=0):
    """an exception of parserException type raised at n is caught before it leaves main's own function body"""
    for t in protected(F, n):
        for h in handlers(t):
            if catches_parser(db, h):
                if F is P.main and F.body is t: return "main"
                return h
    if F is P.main or depth > 5: return None
    cs = P.callers.get(F.id, [])
    if not cs: return None
    rs = [swallowed(db, P, G, c, depth + 1) for G, c in cs]
    return rs[0] if rs and all(r not in (None, "main") for r in rs) else None


def run(db, rep):
    mains = programs(db)
    rep.need(len(mains) >= 8, "only %d programs" % len(mains))
    rep.count("programs", len(mains))
    own = {n["v"].lower() for F in db.all() if F.cls == PARSER and F.n not in ("parser", "enable_minimizer_options", "print_help", "add_argument") and not F.d.get("ctor")
           for n in F.walk() if n["k"] == "StringLiteral"}
    logkeys = {"logginglevel::disabled"}
    for F in db.all():
        if F.q == "BSMPT::SetLogger":
            logkeys |= {n["v"].lower() for n in F.walk() if n["k"] == "StringLiteral"}
    for g in db.globals.values():
        if "LoggingLevel" in g["v"]["t"] and "map<" in g["v"]["t"]:
            for k, v in map_entries(g["v"]) or ():
                if not isinstance(k, str): continue
                k = k.strip("-=").lower(); logkeys.add(k)
                rep.ok(); rep.count("logging_options")
                if isinstance(v, tuple) and any(x["q"] == v[1].rsplit("::", 1)[0] for x in [e for e in db.enums.values()]) and \
                        v[1].split("::")[-1].lower() != k.split("::")[-1]:
                    rep.bad("setting|logger|" + k, "%s:%s" % (g["file"].split("/repo/")[-1], g["v"].get("l")), "--%s switches the logging level %s" % (k, v[1]))
    used_settings = set()
    for m in mains:
        P = Program(db, m)
        prog = m.file.split("/")[-1].split(".")[0]
        for F, n in P.unknown: rep.count("unresolved_option_names")
        read = {}
        for r in P.reads: read.setdefault(r.key, []).append(r)
        rep.need(len(P.declared) >= 4, "option list of %s not found" % prog)
        rep.count("options_listed", len(P.declared)); rep.count("option_reads", len(P.reads))
        for k, (req, F, n) in sorted(P.declared.items()):
            rep.ok()
            if k in read or k in logkeys or k in own: continue
            if P.unknown: continue
            rep.bad("unread|%s|%s" % (prog, k), F.loc(n), "%s lists the option --%s but never reads it" % (prog, k))
        for k, rs in read.items():
            rep.ok()
            if k not in P.declared and not any(f for f in P.unknown if f[1].get("q", "").endswith("add_argument")):
                rep.bad("undeclared|%s|%s" % (prog, k), rs[0].F.loc(rs[0].node), "%s reads --%s, which it does not list (every use would be refused)" % (prog, k))
        # help text only entries must stand for listed families
        for k, (F, n) in P.display.items():
            rep.ok()
            stem = k[:-1].lower()
            if k.lower() not in P.declared and not any(x.startswith(stem) and x[len(stem):].isdigit() for x in P.declared):
                rep.bad("display|%s|%s" % (prog, k), F.loc(n), "the help of %s shows --%s, which it does not accept" % (prog, k))
        S = P.flows()
        avail = available(db, P)
        for k, rs in sorted(read.items()):
            rep.ok()
            s = S.get(k, set())
            if k.startswith("logginglevel"): continue
            if not s:
                rep.bad("unused|%s|%s" % (prog, k), rs[0].F.loc(rs[0].node), "the value of --%s of %s is read but never used" % (k, prog))
                continue
            names = {nrm(x[2]) for x in s if x[0] in ("param", "field")}
            want = SETTING.get(k)
            want = {nrm(x) for x in want} if want else None
            g = next((v for p, v in GRID.items() if k.startswith(p) and k[len(p):].isdigit()), None)
            if want:
                exists = bool(want & avail)
                rep.count("settings_followed")
                if exists and not (names & want):
                    rep.bad("setting|%s|%s" % (prog, k), rs[0].F.loc(rs[0].node),
                            "--%s of %s does not reach the setting %s (it reaches %s)" % (k, prog, "/".join(sorted(want)), ", ".join(sorted(names)) or "none"))
                other = {nrm(x) for kk, v in SETTING.items() if kk != k for x in v} - want
                wrong = names & other & settings_of(s)
                if wrong and not k == "model":
                    rep.bad("setting|%s|%s" % (prog, k), rs[0].F.loc(rs[0].node), "--%s of %s reaches the setting %s of another option" % (k, prog, ", ".join(sorted(wrong))))
                for x in s:
                    if x[0] == "field" and nrm(x[2]) in want: used_settings.add((x[1], x[2]))
            elif g and any(F.n == "Create1DimGrid" for F in db.all()):
                rep.count("settings_followed")
                if "Create1DimGrid" in {x[1].split("::")[-1] for x in s if x[0] == "param"}:
                    if nrm(g) not in names:
                        rep.bad("setting|%s|%s" % (prog, k), rs[0].F.loc(rs[0].node), "--%s of %s does not reach the grid's %s" % (k, prog, g))
        # index of the grid options: lowN/highN/npointsN go to the same list in ascending order
        # optional reads
        for r in P.reads:
            rq = P.declared.get(r.key, (None,))[0]
            h = swallowed(db, P, r.F, r.node)
            if h is None and r.site is not r.node: h = swallowed(db, P, r.siteF, r.site)
            rep.ok()
            if rq is False or rq == 0:
                guarded = h not in (None, "main")
                if not guarded:
                    rep.bad("optional|%s|%s" % (prog, r.key), r.F.loc(r.node), "leaving out the optional --%s ends %s: its read is not protected" % (r.key, prog))
                elif handler_ends(r.F, h):
                    rep.bad("optional|%s|%s" % (prog, r.key), r.F.loc(r.node), "leaving out the optional --%s ends %s: the handler gives up" % (r.key, prog))
        req = sorted(k for k, v in P.declared.items() if v[0] in (True, 1))
        enforced = enforced_all(db, P)
        for k in req:
            rep.ok(); rep.count("required_options")
            if enforced: continue
            if not any(swallowed(db, P, r.F, r.node) in (None, "main") and unconditional(P, r.F, r.node) for r in read.get(k, ())):
                rep.bad("required|%s|%s" % (prog, k), m.loc(), "leaving out the required --%s does not end %s" % (k, prog))
        for k, (rq, F, n) in sorted(P.declared.items()):
            a = [x for x in n.get("c", [])]
            if rq in (True, 1) and len(a) == 4 and isinstance(lit(a[2]), str) and lit(a[2]).strip() and \
                    (lit(a[3]) in (True, 1)):
                rep.bad("default|%s|%s" % (prog, k), F.loc(n), "%s lists --%s with the default %s, but leaving it out ends the program" % (prog, k, lit(a[2])))
        for r in P.reads: polarity(rep, prog, r)
    internals(db, rep)
    # the library reads the settings
    for q, f in sorted(used_settings):
        rep.ok()
        rec = db.rec_by_q.get(q)
        if not rec: continue
        d = next((x["d"] for x in rec[0]["fields"] if x["n"] == f), None)
        if d is None: continue
        n = 0
        for F in db.all():
            if "/prog/" in F.file or "/standalone/" in F.file or "/tests/" in F.file: continue
            for x in F.walk():
                if x["k"] == "MemberExpr" and x.get("d") == d:
                    p = F.parent(x)
                    if p is not None and p["k"] == "BinaryOperator" and p["op"] == "=" and p["c"][0] is x: continue
                    if only_logged(F, x): continue
                    n += 1
        rep.count("setting_reads", n)
        if n == 0: rep.bad("ignored|%s" % f, rec[0]["file"].split("/")[-1] + ":%d" % rec[0]["l"], "the library never reads the setting %s" % f)


YES = {"true", "y", "yes", "on", "1"}; NO = {"false", "n", "no", "off", "0"}


def polarity(rep, prog, r):
    """a yes/no option stored as comparison with a literal: stored true for the affirmative word"""
    for F, x in ((r.F, r.node), (r.siteF, r.site)):
        neg = False; p = F.parent(x)
        while p is not None and (p["k"].endswith("CastExpr") or p["k"] in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ParenExpr", "CXXConstructExpr", "UnaryOperator")):
            if p["k"] == "UnaryOperator":
                if p["op"] != "!": return
                neg = not neg
            x = p; p = F.parent(p)
        if p is None or p.get("op") not in ("==", "!="): continue
        o = [lit(c) for c in p["c"] if c is not x]
        if len(o) != 1 or not isinstance(o[0], str) or o[0].lower() not in YES | NO: continue
        val = (o[0].lower() in YES) == (p["op"] == "==")
        y = p; q = F.parent(p)
        while q is not None and (q["k"].endswith("CastExpr") or q["k"] in ("ExprWithCleanups", "ParenExpr", "UnaryOperator")):
            if q["k"] == "UnaryOperator" and q["op"] == "!": val = not val
            y = q; q = F.parent(q)
        if q is None or q.get("op") != "=": continue
        rep.ok(); rep.count("yes_no_options")
        if not val: rep.bad("polarity|%s|%s" % (prog, r.key), F.loc(p), "--%s of %s stores the opposite of what it says" % (r.key, prog))
        return


def has_value_cond(c):
    """(negated?) when c tests whether an optional holds a value"""
    neg = False; c = skip_casts(c)
    while c is not None and c["k"] == "UnaryOperator" and c["op"] == "!": neg = not neg; c = skip_casts(c["c"][0])
    if c is not None and c["k"] == "CXXMemberCallExpr" and (c.get("q") or "").startswith("std::optional") and \
            c["q"].split("::")[-1] in ("has_value", "operator bool"): return neg
    return None


def internals(db, rep):
    """the parser itself: unset values raise parserException, required ones are enforced, keys are folded alike"""
    own = [F for F in db.all() if F.cls == PARSER or F.q.startswith(PARSER + "::")]
    hv = 0; folds = {}
    for F in own:
        g = pgraph(db, F)
        if not g.ok: continue
        isbool = (F.d.get("rt") or "") == "bool"; isvoid = (F.d.get("rt") or "void") == "void"
        tests = []
        for B in g.blocks.values():
            for s, c, p in g.edges(B.id):
                if isinstance(p, bool) and c is not None:
                    neg = has_value_cond(c)
                    if neg is not None: tests.append((B, s, c, p != neg))
        if tests:
            IN, tab = g.guards()
            for B in g.blocks.values():
                for i, e in enumerate(B.elems):
                    if e["k"] != "ReturnStmt" or B.id not in IN: continue
                    j = ends_block(db, B)
                    if j is not None and j < i: continue
                    if not reach_plain(db, g, B.id): continue
                    true = any(has_value_cond(tab[f[0]]) is not None and isinstance(f[1], bool) and f[1] != has_value_cond(tab[f[0]]) for f in IN[B.id])
                    false = any(has_value_cond(tab[f[0]]) is not None and isinstance(f[1], bool) and f[1] == has_value_cond(tab[f[0]]) for f in IN[B.id])
                    rep.ok(); hv += 1
                    v = const_eval(e["c"][0], {}) if e.get("c") and e["c"][0] else None
                    if isbool:
                        if false and v is True: rep.bad("parser|" + F.n, F.loc(e), "%s reports an unset option as set" % F.short())
                    elif not isvoid and not true and any(n["k"] == "CXXMemberCallExpr" and (n.get("q") or "").startswith("std::optional") and n["q"].endswith("value") for n in F.walk()):
                        rep.bad("parser|" + F.n, F.loc(e), "%s returns a value although the option was not set, instead of raising parserException" % F.short())
            if isbool:
                for B, s, c, has in tests:
                    if has: continue
                    rep.ok(); hv += 1
                    if not must_return(db, g, s, False): rep.bad("parser|" + F.n, F.loc(c), "%s goes on after finding a required option unset without reporting it" % F.short())
        for B in g.blocks.values():
            for s, c, p in g.edges(B.id):
                if not isinstance(p, bool) or c is None: continue
                calls = {id(x) for x in walk(c) if x["k"] in CALLS and (x.get("q") or "") == PARSER + "::all_required_set"}
                if calls and call_fact(c, not p, calls) and F.n == "check_required_parameters":
                    rep.ok(); hv += 1
                    if returns_from(db, g, s): rep.bad("parser|" + F.n, F.loc(c), "%s returns although a required option is not set" % F.short())
        for n in F.walk():
            if n["k"] == "CXXThrowExpr" and n.get("c") and n["c"][0]:
                rep.ok()
                t = n["c"][0]["t"].replace("const ", "")
                if t.split("::")[-1] != "parserException":
                    rep.bad("parser|throw|" + F.n, F.loc(n), "%s raises %s, which the handlers of optional options do not catch" % (F.short(), t))
            if n["k"] == "CXXMemberCallExpr" and "unordered_map" in (n.get("q") or "") + (n.get("ot") or "") or n["k"] == "CXXMemberCallExpr" and (n.get("q") or "").startswith("std::map"):
                if n["q"].split("::")[-1] in ("find", "emplace", "insert", "at", "count", "try_emplace", "contains"):
                    k = skip_casts(n["c"][0]) if n.get("c") else None
                    if k is not None:
                        rep.ok(); folds.setdefault(folded(F, k), []).append((F, n))
    if len(folds) > 1:
        few = min(folds.items(), key=lambda x: len(x[1]))
        F, n = few[1][0]
        rep.bad("parser|fold", F.loc(n), "%s looks an option name up with a different treatment of upper and lower case than the others" % F.short())
    rep.count("parser_obligations", hv + sum(len(v) for v in folds.values()))
    rep.need(hv >= 3, "the parser's value checks were not found")


def folded(F, k, depth=0):
    """is the name passed through a case-folding call?"""
    for x in walk(k):
        if x["k"] in CALLS and "lower" in (x.get("n") or x.get("q") or "").lower(): return True
    k = skip_casts(k)
    while k is not None and k["k"] in ("CXXConstructExpr", "MaterializeTemporaryExpr") and len(k.get("c", [])) == 1: k = skip_casts(k["c"][0])
    if k is not None and k["k"] == "DeclRefExpr" and depth < 4:
        for v in F.walk():
            if v["k"] == "VarDecl" and v["d"] == k["d"] and v.get("c") and v["c"][0]: return folded(F, v["c"][0], depth + 1)
    return False


def reach_plain(db, g, target):
    """is block target reached from the entry without passing a call that never returns?"""
    st = [g.entry]; seen = set()
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b == target: return True
        if ends_block(db, g.blocks[b]) is not None: continue
        st += [s for s, _, _ in g.edges(b)]
    return False


def must_return(db, g, start, val):
    """every path from start ends, before anything else is tested, in return val or a throw"""
    st = [start]; seen = set()
    flag = None
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b == g.exit: return False
        B = g.blocks[b]
        if ends_block(db, B) is not None: continue
        r = [e for e in B.elems if e["k"] == "ReturnStmt"]
        if r:
            v = r[-1]["c"][0] if r[-1].get("c") else None
            x = const_eval(v, {})
            if x is None and v is not None and key_of(v) is not None and flag == key_of(v): continue
            if x is not val: return False
            continue
        for e in B.elems:
            if e["k"] == "BinaryOperator" and e["op"] == "=" and const_eval(e["c"][1], {}) is val: flag = key_of(e["c"][0])
        st += [s for s, _, _ in g.edges(b)]
    return True


def only_logged(F, x):
    for a in F.ancestors(x):
        if a["k"] in CALLS and (a.get("q") or "").startswith("BSMPT::Logger"): return True
    return False


def nrm(x):
    x = x.replace("_", "").lower()
    return x[:-2] if x.endswith("in") and len(x) > 4 else x


def available(db, P):
    """settings of library structures filled in and of library functions called by the program"""
    out = set()
    for F in P.funcs:
        for n in F.walk():
            if n["k"] == "InitListExpr" and n.get("t"):
                t = n["t"].replace("const ", "").replace("struct ", "")
                rec = db.rec_by_q.get(t) or db.rec_by_q.get("BSMPT::" + t)
                if rec and rec[0]["file"] != F.file: out |= {nrm(f["n"]) for f in rec[0]["fields"]}
            elif n["k"] == "MemberExpr" and n.get("dk") == "field":
                p = F.parent(n)
                if p is not None and p.get("op") == "=": out.add(nrm(n["n"]))
            elif n["k"] in CALLS and n.get("own") and n.get("f") and not (n.get("q") or "").startswith((PARSER, "BSMPT::Logger")):
                tg = db.resolve(n["f"]); d = tg[0].d if tg else db.decls.get(n["f"])
                if d and not (tg and tg[0].file == F.file): out |= {nrm(p["n"]) for p in d["params"]}
    return out


def settings_of(s):
    """names of struct fields and of parameters of the front-end functions"""
    return {nrm(x[2]) for x in s if x[0] == "field"} | {nrm(x[2]) for x in s if x[0] == "param" and x[1].endswith("CalcWhichMinimizer")}


def unconditional(P, F, n):
    g = CFG(F)
    w = g.where(n)
    if w is None: return True
    reach = g.reach(cut=lambda b: b == w[0])
    return g.exit not in reach or all(b in g.throwing for b in reach if g.exit in [s for s, _, _ in g.edges(b)])


def enforced_all(db, P):
    """check_required_parameters() is called on every path, not swallowed"""
    todo = [P.main]; seen = set()
    while todo:
        F = todo.pop()
        if F.id in seen: continue
        seen.add(F.id)
        for n in F.calls():
            if base_q(n.get("q")) == PARSER + "::check_required_parameters":
                if not any(catches_parser(db, h) and not (F is P.main and t is F.body) for t in protected(F, n) for h in handlers(t)) and unconditional(P, F, n):
                    return True
        for n, tg in db.callees(F):
            for t in tg:
                if t.file == P.main.file and (n["k"] == "LambdaExpr" or unconditional(P, F, n)):
                    todo.append(t)
    return False
