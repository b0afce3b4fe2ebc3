"""Name table, reverse table, factory and constructors are extracted from the typed AST: the table must be a bijection
between (case-folded) names and all model enumerators but the two sentinels; conditional constant propagation of each
enumerator through the factory must reach exactly one constructed class (sentinels: none), whose constructors store
that very enumerator as model identity and nobody else writes it; the name lookup compares whole, case-folded names and
falls back to the 'not set' sentinel; in each program the settings check yields false on every path when the model
identity is 'not set' and every factory call is dominated by a passed settings check."""
from core import walk, kids, CALLS
from cfg import CFG, ccp_reach, const_eval, key_of, skip_casts
import util

EXPLANATION = ("Bijection check of the extracted tables plus conditional constant propagation of every model enumerator "
               "through the factory and of the 'not set' identity through the settings check of every program.")
MID = "BSMPT::ModelID::ModelIDs"


def classes_built(db, F, env, depth=0):
    """(set of class names constructed into the returned pointer, may return nothing)"""
    g = CFG(F)
    IN, tr = ccp_reach(g, env, db)
    built = set(); returns = 0
    for b in IN:
        B = g.blocks[b]
        e = IN[b]
        for n in B.elems:
            if n["k"] == "CallExpr" and (n.get("q") or "").split("<")[0] in ("std::make_unique", "std::make_shared"):
                t = n["t"]; built.add(t[t.find("<") + 1:].split(",")[0].rstrip(">").strip())
            elif n["k"] == "CXXNewExpr": built.add(n["nt"])
            elif n["k"] == "ReturnStmt": returns += 1
            if n["k"] in CALLS and n.get("own") and depth < 3 and "unique_ptr" in n.get("t", ""):
                for T in db.resolve(n["f"]):
                    e2 = {}
                    for p, a in zip(T.params, n.get("c", [])):
                        v = const_eval(a, IN[b], db)
                        if v is not None: e2[p["d"]] = v
                    bb, _ = classes_built(db, T, e2, depth + 1)
                    built |= bb
    return built, returns


def run(db, rep):
    en = db.enums.get(MID); rep.need(en, "model enumeration not found")
    enumerators = {MID + "::" + e["n"]: e for e in en["e"]}
    sentinels = {MID + "::NotSet", MID + "::stop"}
    rep.need(MID + "::NotSet" in enumerators, "sentinel NotSet not found")
    models = set(enumerators) - sentinels
    # (1) the name table
    tables = [(q, g) for (q, f), g in db.globals.items() if MID in g["v"]["t"] and "map<" in g["v"]["t"] and "string" in g["v"]["t"]]
    rep.need(len(tables) >= 1, "no model name table")
    names = {}
    for q, g in tables:
        ent = util.map_entries(g["v"])
        rep.need(ent is not None, "table %s has no literal initialiser" % q)
        where = "%s:%d" % (g["file"], g["v"]["l"])
        seen = {}
        for a, b in ent:
            nm = next((x for x in (a, b) if isinstance(x, str)), None)
            idv = next((x[1] for x in (a, b) if isinstance(x, tuple)), None)
            rep.need(nm is not None and idv is not None, "entry of %s not understood" % q)
            rep.ok()
            low = nm.lower()
            if low in seen: rep.bad("name twice|" + low, where, "model name %r occurs twice in the table" % nm)
            seen[low] = idv
            if idv in sentinels: rep.bad("sentinel named|" + low, where, "name %r denotes the sentinel %s" % (nm, idv))
            if idv in names.values() and idv not in sentinels:
                rep.bad("model named twice|" + idv, where, "%s has two names" % idv)
            names[low] = idv
        for m in sorted(models):
            rep.ok()
            if m not in seen.values(): rep.bad("model unnamed|" + m, where, "%s has no name in the table" % m)
    rep.count("names", len(names)); rep.sample(sorted(names.items()))
    # (2) the factory
    facs = [F for F in db.all() if any(MID in p["t"] for p in F.params) and "unique_ptr<BSMPT::Class_Potential_Origin" in F.d["rt"]]
    rep.need(facs, "no factory from model identity to model object")
    ids = {}
    for F in facs:
        p = next(p for p in F.params if MID in p["t"])
        for m in sorted(enumerators):
            built, rets = classes_built(db, F, {p["d"]: ("enum", m)})
            rep.ok(); rep.count("factory_evaluations")
            delegating = not built and False
            if m in sentinels:
                if built: rep.bad("factory sentinel|%s" % m, F.loc(), "factory builds %s for sentinel %s" % (sorted(built), m))
            elif len(built) != 1:
                rep.bad("factory|%s" % m, F.loc(), "factory builds %s for %s, expected exactly one class" % (sorted(built) or "nothing", m))
            else:
                c = next(iter(built))
                if ids.setdefault(m, c) != c: rep.bad("factory disagree|%s" % m, F.loc(), "factories disagree for %s" % m)
    inv = {}
    for m, c in ids.items():
        if c in inv: rep.bad("class twice|" + c, facs[0].loc(), "class %s stands for both %s and %s" % (c, inv[c], m))
        inv[c] = m
    # (3) identity stored by the constructors
    fld = [d for d, f in db.fields("BSMPT::Class_Potential_Origin").items() if MID in f["t"]]
    rep.need(len(fld) == 1, "identity field of the model base class")
    fld = fld[0]
    for m, c in sorted(ids.items()):
        ctors = [F for F in db.all() if F.cls == c and F.d.get("ctor") and not F.d.get("implicit")]
        rep.need(ctors, "constructors of %s" % c)
        for F in ctors:
            if any((i.get("base") or "") == c for i in F.d.get("inits", ())): rep.ok(); continue   # delegates
            g = CFG(F); IN, tr = ccp_reach(g, {}, db)
            exits = [p for p in g.blocks[g.exit].preds if p in IN and p not in g.throwing]
            env0 = None
            vals = set()
            for p in exits: vals.add(tr(g.blocks[p], IN[p]).get(fld))
            for i in F.d.get("inits", ()):
                if i.get("d") == fld and vals == {None}: vals = {const_eval(i["init"], {}, db)}
            rep.ok(); rep.count("constructors")
            if vals != {("enum", m)}:
                rep.bad("identity|%s" % c, F.loc(), "%s stores identity %s but the factory builds it for %s" % (c, vals, m))
    for F in db.all():
        for n in F.walk():
            if n["k"] in ("BinaryOperator",) and n["op"] == "=" and key_of(n["c"][0]) == fld and not F.d.get("ctor"):
                rep.bad("identity rewritten|" + F.q, F.loc(n), "model identity overwritten after construction")
    # what a model reports
    for F in db.all():
        if F.d.get("rt") and MID in F.d["rt"] and F.cls and F.cls in db.derived("BSMPT::Class_Potential_Origin") and not F.params:
            for n in F.walk():
                if n["k"] == "ReturnStmt":
                    rep.ok()
                    if key_of((n.get("c") or [None])[0]) != fld:
                        rep.bad("reported|" + F.q, F.loc(n), "reports something else than the stored identity")
    # (4) lookup
    look = [F for F in db.all() if MID in F.d["rt"] and len(F.params) == 1 and "string" in F.params[0]["t"] and not F.cls]
    rep.need(look, "name lookup")
    for F in look:
        lookup(db, rep, F, [q for q, g in tables], names)
    # (5) programs
    facids = {F.id for F in facs}
    progs = util.programs(db)
    rep.need(len(progs) >= 8, "only %d programs" % len(progs))
    nuse = 0
    for main in progs:
        own = util.program_functions(db, main)
        uses = [(F, n) for F in own for n in F.calls() if n.get("f") in facids]
        lk = [(F, n) for F in own for n in F.calls() if n.get("f") in {x.id for x in look}]
        if not uses: continue
        nuse += 1
        rep.count("programs_with_models"); rep.ok()
        goods = util.settings_checks(db, main)
        if not goods:
            rep.bad("no settings check|" + main.file.split("/")[-1], main.loc(), "program builds a model without checking its settings"); continue
        for (G, call) in goods:
            f = model_field(db, G, own)
            rep.need(f, "model field of the settings in %s" % main.file)
            g = CFG(G); IN, tr = ccp_reach(g, {f: ("enum", MID + "::NotSet")}, db)
            for b in IN:
                for n in g.blocks[b].elems:
                    if n["k"] == "ReturnStmt":
                        env = IN[b]
                        v = const_eval((n.get("c") or [None])[0], env, db)
                        rep.ok()
                        if v is not False:
                            rep.bad("accepts NotSet|" + G.file.split("/")[-1], G.loc(n), "settings check can succeed although the model name was not recognised")
        for F, n in uses:
            rep.ok()
            if not util.dominated_by_check(db, main, F, n, goods):
                rep.bad("unchecked|" + main.file.split("/")[-1], F.loc(n), "model object is built although the settings check may have failed")
    rep.need(nuse >= 8, "only %d programs build models" % nuse)


def model_field(db, G, own):
    for n in G.walk():
        if n["k"] == "MemberExpr" and n.get("dk") == "field" and MID in n["t"]: return n["d"]
    for F in own:
        for n in F.walk():
            if n["k"] == "MemberExpr" and n.get("dk") == "field" and MID in n["t"]: return n["d"]
    return None


def lookup(db, rep, F, tables, names):
    fs = util.inline_set(db, F)
    calls = [(X, n) for X in fs for n in X.calls()]
    usestab = any(n["k"] == "DeclRefExpr" and n.get("q") in tables for X in fs for n in X.walk())
    rep.need(usestab, "name lookup does not use the name table")
    lower = [n for X in fs for n in X.walk() if n["k"] == "DeclRefExpr" and n.get("n") in ("tolower", "toupper")] + \
            [n for X, n in calls if (n.get("q") or "").split("::")[-1] in ("tolower", "toupper")]
    rep.ok()
    if not lower: rep.bad("case|" + F.q, F.loc(), "name lookup does not fold the letter case")
    else:
        kinds = {n.get("n") or n["q"].split("::")[-1] for n in lower}
        if len(kinds) > 1: rep.bad("case mixed|" + F.q, F.loc(), "name lookup folds to different cases")
        if kinds == {"tolower"} and len(lower) == 1:
            # only one side folded: the table must be in that case already
            for nm in names:
                pass
    for X, n in calls:
        q = (n.get("q") or "")
        nm = q.split("::")[-1]
        if "basic_string" in q or q.startswith("std::str") or nm in ("strncmp", "strncasecmp", "equal", "mismatch"):
            if nm == "compare" and len([a for a in n["c"] if a and a["k"] != "CXXDefaultArgExpr"]) != 1:
                rep.bad("partial compare|" + F.q, X.loc(n), "names are compared only partially")
            elif nm in ("find", "rfind", "substr", "starts_with", "strncmp", "strncasecmp", "find_first_of", "resize", "erase", "pop_back", "append", "push_back", "equal", "mismatch") :
                rep.bad("partial compare|" + F.q, X.loc(n), "names are compared only partially (%s)" % nm)
    # results: table value under a whole-name match, or NotSet
    nret = 0
    for X in fs:
        if X is not F: continue
        g = CFG(X); guards, tab = g.guards()
        for n in X.walk():
            if n["k"] != "ReturnStmt" or not n.get("c"): continue
            nret += 1
            e = skip_casts(n["c"][0]); rep.ok()
            if e["k"] == "DeclRefExpr" and e.get("dk") == "enumc":
                if not e["q"].endswith("::NotSet"): rep.bad("fallback|" + F.q, X.loc(n), "an unknown name yields %s" % e["q"])
                continue
            w = g.where(n)
            facts = guards.get(w[0], frozenset()) if w else frozenset()
            okg = False
            for cid, pol in facts:
                c = tab[cid]
                if c["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and c.get("op") in ("==", "!=") and (c["op"] == "==") == pol:
                    ts = " ".join(x.get("t", "") for x in c["c"] if x)
                    if any(x["k"] == "CXXMemberCallExpr" and x.get("q", "").endswith("::compare") for x in c["c"] if x):
                        z = [const_eval(x, {}) for x in c["c"]]
                        okg = okg or 0 in z
                    elif "string" in ts: okg = True
                if c["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and c.get("op") in ("==", "!=") and (c["op"] == "!=") == pol:
                    if "iterator" in " ".join(x.get("t", "") for x in c["c"] if x): okg = True
                if c["k"] == "UnaryOperator" and c.get("op") == "!" and pol is False:
                    if any(x["k"] == "CXXMemberCallExpr" and x.get("q", "").endswith("::compare") for x in walk(c)): okg = True
            if not okg: okg = e["k"] in ("ConditionalOperator",) 
            if not okg:
                rep.bad("unguarded match|" + F.q, X.loc(n), "a model is returned without a whole-name match")
    rep.need(nret >= 1, "lookup has no return")
