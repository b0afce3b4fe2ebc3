"""For every status enumeration (enumerations named Status* plus every enumeration that keys a constant name table): the
table's literal initialiser must name every enumerator exactly once with pairwise different, non-empty texts; every
stream operator on such an enumeration must print the text its own enumeration's table holds for its own argument and
nothing else; every total lookup (at) keyed by such an enumeration must be in a complete table. Every status column
written by a program goes through such an operator or table."""
from core import walk, kids, CALLS
from cfg import CFG, const_eval, key_of, skip_casts, ccp_reach
import util

EXPLANATION = "Totality and injectivity of every status name table; value flow of every status stream operator to its table."


def cond_names(db, F, en):
    """text printed by F for each enumerator by conditional constant propagation (switch-style printers)"""
    p = next(p for p in F.params if en["q"] in p["t"])
    out = {}
    for e in en["e"]:
        q = en["q"] + "::" + e["n"]
        g = CFG(F); IN, tr = ccp_reach(g, {p["d"]: ("enum", q)}, db)
        txt = []
        for b in sorted(IN, reverse=True):
            for n in g.blocks[b].elems:
                if n["k"] == "StringLiteral": txt.append(n["v"])
        throws = any(n["k"] == "CXXThrowExpr" for b in IN for n in g.blocks[b].elems)
        out[q] = None if throws else "".join(txt)
    return out


def run(db, rep):
    tables = {}
    for (q, f), g in db.globals.items():
        t = g["v"]["t"]
        if "map<" not in t: continue
        for eq, en in db.enums.items():
            if t.split("map<", 1)[1].startswith(eq + ",") and "string" in t:
                tables.setdefault(eq, []).append((q, g))
    status = {q: e for q, e in db.enums.items() if q.split("::")[-1].startswith("Status") and "/minimum_tracer/" in e["file"]
              or q.split("::")[-1].startswith("Status")}
    rep.need(len(status) >= 7, "only %d status enumerations" % len(status))
    rep.count("status_enumerations", len(status))
    names = {}
    printers = {}
    for F in db.all():
        if F.n == "operator<<" and len(F.params) == 2:
            for eq in status:
                if F.params[1]["t"].replace("const ", "").rstrip("& ").strip() == eq: printers.setdefault(eq, []).append(F)
    for eq, en in sorted(status.items()):
        allq = [eq + "::" + e["n"] for e in en["e"]]
        where = "%s:%d" % (en["file"], en["l"])
        vals = {}
        for e in en["e"]:
            if e["v"] in vals.values(): rep.bad("alias|%s::%s" % (eq, e["n"]), where, "two statuses of %s share a value" % eq)
            vals[e["n"]] = e["v"]
        for q, g in tables.get(eq, []):
            ent = util.map_entries(g["v"]); w = "%s:%d" % (g["file"], g["v"]["l"])
            rep.need(ent is not None, "table %s has no literal initialiser" % q)
            if not g["const"]: rep.bad("mutable|" + q, w, "name table %s can be changed at run time" % q)
            got = {}
            for k, v in ent:
                rep.need(isinstance(k, tuple) and isinstance(v, str), "entry of %s not understood" % q)
                rep.ok()
                if k[1] in got: rep.bad("key twice|%s|%s" % (q, k[1]), w, "%s listed twice in %s" % (k[1], q))
                else:
                    if v in got.values(): rep.bad("same text|%s|%s" % (q, v), w, "two statuses of %s print %r" % (eq, v))
                    if not v.strip() or any(c in v for c in "\t\n ,;"): rep.bad("text|%s|%s" % (q, k[1]), w, "status text %r breaks a table row" % v)
                    got[k[1]] = v
            for m in allq:
                rep.ok()
                if m not in got: rep.bad("unnamed|%s|%s" % (q, m), w, "%s has no printed name: printing it fails" % m)
            names.setdefault(eq, got)
            rep.sample({q: got})
        if not printers.get(eq):
            rep.bad("no printer|" + eq, where, "status kind %s cannot be printed" % eq); continue
        for F in printers[eq]:
            printer(db, rep, F, eq, en, allq, tables)
    # lookups
    for F in db.all():
        for n in F.calls():
            if n["k"] == "CXXMemberCallExpr" and (n.get("q") or "").endswith("::at") and n.get("obj"):
                ot = n["obj"]["t"]
                for eq in status:
                    if "map<" + eq + "," in ot.replace("const ", "").replace("std::unordered_", ""):
                        o = skip_casts(n["obj"]); rep.ok(); rep.count("lookups")
                        if o["k"] == "DeclRefExpr" and o.get("q") in [q for q, g in tables.get(eq, [])]: continue
                        rep.bad("lookup|" + F.q, F.loc(n), "status text looked up in a container that is not the name table")


def printer(db, rep, F, eq, en, allq, tables):
    """the text streamed is the table's text of the argument"""
    rep.count("stream_operators"); rep.ok()
    tabq = {q: g for q, g in tables.get(eq, [])}
    os, st = F.params[0]["d"], F.params[1]["d"]
    fs = util.inline_set(db, F)
    look = []
    for X in fs:
        for n in X.walk():
            if n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and (n.get("q") or "").split("::")[-1] in ("at", "find", "operator[]"):
                o = n.get("obj") or (n.get("c") or [None])[0]
                o = skip_casts(o)
                if o is not None and "map<" in o.get("t", ""): look.append((X, n, o))
    if look:
        for X, n, o in look:
            if o.get("q") not in tabq:
                rep.bad("wrong table|" + eq, X.loc(n), "printing %s uses %s" % (eq, o.get("q") or o.get("n"))); continue
            a = n["c"][-1]
            k = key_of(a)
            if k is None or (X is F and k != st) or (X is not F and k not in [p["d"] for p in X.params]):
                rep.bad("wrong argument|" + eq, X.loc(n), "printing %s looks up something else than its argument" % eq)
        # exactly one insertion of that text into the stream
        ins = [n for X in fs for n in X.walk() if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "<<"]
        if len(ins) != 1 or any(n["k"] == "StringLiteral" for n in F.walk()):
            rep.bad("extra text|" + eq, F.loc(), "printing %s writes more than the registered name" % eq)
    else:
        got = cond_names(db, F, en)
        rep.need(any(got.values()), "stream operator of %s not understood" % eq)
        seen = {}
        for q, v in got.items():
            rep.ok()
            if not v: rep.bad("unnamed|%s" % q, F.loc(), "%s has no printed name" % q)
            elif v in seen: rep.bad("same text|%s" % q, F.loc(), "%s and %s print the same" % (q, seen[v]))
            seen[v] = q
