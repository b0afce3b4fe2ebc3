"""Every function that writes a table (the main of each program with an output file) is interpreted over an abstract domain
of table shapes: streams and strings are sequences of separators, line ends and cells, vectors sequences of such values,
the numbers of fields, counterterms, phases and phase pairs are instances (also changing from row to row, also none), and
every undecided condition is followed both ways. Obligations: each data row has as many columns as the header, no column is
empty and no two values share one; no value stands in a column although its name fits the label of another column strictly
better. In the function filling the results the rows are made of, every path through the filling of one pair gives a
value to each vector written as several columns and exactly one entry to each vector with one entry per pair."""
import re
from core import CheckError, CALLS
import tables, cfg
from tables import SEP, NL

EXPLANATION = "Abstract interpretation of table writers over separators, cells and instance sizes, plus an all-paths check that every vector behind several columns is filled."
INST = []
for vev, ct, h, par, cols in ((1, 2, 2, 2, 2), (2, 3, 3, 4, 3), (3, 2, 2, 3, 1)):
    for pairs, phases in (((2, 1), 2), ((1, 2), 2), ((0, 2), 1), ((1, 0), 0)):
        INST.append((vev, ct, h, par, cols, pairs, phases))


def sizes(i):
    vev, ct, h, par, cols, pairs, phases = i
    return {"nVEV": vev, "nParCT": ct, "NHiggs": h, "nPar": par, "nIn": cols, "num_coex_phase_pairs": pairs,
            "PhasesList.size": phases, "MinimumPhaseVector.size": (1, 2) if pairs[0] != 1 else (2, 1)}


def flags(db, F):
    """members of aggregates the program initialises with a literal: their values hold in the functions called"""
    out = {}
    for n in F.walk():
        for v in n.get("decls", []) or []:
            init = (v.get("c") or [None])[0]
            while init is not None and init["k"] != "InitListExpr" and init.get("c") and len(init["c"]) == 1: init = init["c"][0]
            if init is None or init["k"] != "InitListExpr": continue
            t = v["t"].replace("const ", "").replace("struct ", "").strip()
            fs = fields(db, t)
            if fs is None: continue
            for f, x in zip(fs, init.get("c", []) or []):
                while x is not None and x["k"] in ("ImplicitCastExpr", "ExprWithCleanups") and x.get("c"): x = x["c"][0]
                if x is not None and x["k"] == "CXXBoolLiteralExpr": out[f] = bool(x["v"])
        # assignment input.flag = literal
        if n["k"] == "BinaryOperator" and n.get("op") == "=" and n["c"][0] is not None and n["c"][0]["k"] == "MemberExpr":
            x = n["c"][1]
            while x is not None and x["k"] == "ImplicitCastExpr": x = x["c"][0]
            if x is not None and x["k"] == "CXXBoolLiteralExpr": out[n["c"][0]["n"]] = bool(x["v"])
    return out


def fields(db, t):
    r = (db.rec_by_q.get(t) or db.rec_by_q.get("BSMPT::" + t) or [None])[0]
    return [f["n"] for f in r["fields"]] if r is not None else None


def words(c):
    if c[0] == "c": return c[1]
    if c[0] == "t": return tables.words(c[1])
    return frozenset()


def loose(w):
    """labels abbreviate: temp(erature) is written T"""
    return frozenset("t" if x in ("temp", "temperature") else x for x in w)


def score(h, r): return len(h & r), -len(h ^ r)


def column(rows):
    """(position, header words, row words) of values that fit another label strictly better"""
    out = []
    hd = [loose(words(c[0])) if c else frozenset() for c in rows[0]]
    for r in rows[1:]:
        for p, c in enumerate(r):
            if p >= len(hd) or len(c) != 1 or c[0][0] != "c": continue
            w = loose(words(c[0]))
            if not w: continue
            own = len(hd[p] & w)
            best = max(range(len(hd)), key=lambda q: score(hd[q], w))
            if len(hd[best] & w) > own and hd[best] != hd[p]: out.append((p, hd[p], w, hd[best]))
    return out


def show(w): return "_".join(sorted(w)) or "?"


def table_rules(db, rep):
    done = 0; labels = set()
    for F in sorted(db.all(), key=lambda f: (f.file, f.line)):
        if F.body is None or "/src/" not in F.file: continue
        if not any("ofstream" in v["t"] for n in F.walk() for v in n.get("decls", []) or []): continue
        if F.n != "main":
            rep.count("functions with an output file that are not a program", 1); continue
        fl = flags(db, F)
        used = set(); done += 1; followed = 0; seen = 0; bad = {}
        for i in INST:
            S = tables.Shapes(db, F, sizes(i), consts=fl)
            try: T = S.run(); used |= {k[1] for k in getattr(S, "_as", {}) if isinstance(k, tuple) and k[0] == "val"}
            except tables.TooMany as e:
                rep.count("instances with too many combinations", 1); continue
            if not T: continue
            followed += 1
            for d, its in T:
                rows = [tables.split(r, SEP) for r in tables.split(its, NL)]
                if rows and rows[-1] == [[]]: rows = rows[:-1]
                seen += 1
                if len(rows) < 2: continue
                if any(c[0] == "u" for r in rows for col in r for c in col):
                    rep.count("tables with a vector of undetermined size", 1); continue
                for k, r in enumerate(rows[1:]):
                    if len(r) != len(rows[0]):
                        bad.setdefault("columns", "header has %d columns, a row has %d (fields %d, counterterms %d, pairs %s, phases %d)" % (len(rows[0]), len(r), i[0], i[1], i[5], i[6]))
                for r in rows:
                    for p, c in enumerate(r):
                        if not c: bad.setdefault("empty", "column %d is empty (fields %d, pairs %s)" % (p, i[0], i[5]))
                        elif sum(1 for x in c if x[0] == "c") > 1 or len(c) > 1 and any(x[0] == "c" for x in c) and not all(x[0] in "ct" for x in c):
                            bad.setdefault("shared", "two values share column %d: %s" % (p, ", ".join(show(words(x)) for x in c)))
                if "columns" not in bad:
                    for p, h, w, b in column(rows):
                        bad.setdefault("order", "column %d is labelled %s but holds %s, which fits the label %s" % (p, show(h), show(w), show(b)))
        rep.count("programs with tables", 1); rep.count("tables evaluated", seen); rep.count("instances followed", followed)
        if not followed: rep.count("programs without an evaluated table", 1); rep.sample("no table evaluated: %s" % F.file)
        rep.ok(3)
        rep.sample("%s: %d tables in %d instances" % (F.file.split("/")[-1], seen, followed))
        labels |= used
        for k, m in sorted(bad.items()):
            rep.bad("%s:%s" % (F.file.split("/repo/")[-1], k), "%s:%s" % (F.file, F.line), "%s writes a table where %s" % (F.file.split("/")[-1], m))
    if not done: raise CheckError("no program writing a table found")
    for m in sorted(labels): always_set(db, rep, m)


def always_set(db, rep, m):
    """labels kept in a member: the function computing them sets the member on every path to its end"""
    from paths import Paths

    def member(n):
        n = tables_plain(n)
        return n is not None and n["k"] == "MemberExpr" and n["n"] == m and "vector<std::basic_string" in (n.get("t") or "")

    def step(F, n, bind, d):
        if n["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and n.get("op") == "=" and member(n["c"][0]): return [True]
        if n["k"] == "CXXMemberCallExpr" and n.get("obj") is not None and member(n["obj"]) and (n.get("q") or "").split("::")[-1] in ("push_back", "assign", "insert", "emplace_back"): return [True]
        if n["k"] in CALLS and n.get("own") and n.get("f"):
            ts = [t for t in db.resolve(n["f"]) if t.id in touch]
            if ts:
                out = set()
                for t in ts: out |= P.call(t, d, {})
                return out or None
        return None
    P = Paths(db, step)
    calls = {}; setters = {}
    for F in db.all():
        if F.body is None or "/models/" in F.file or "/tests/" in F.file: continue
        cs = calls[F.id] = set()
        for n in F.walk():
            if n["k"] in CALLS and n.get("own") and n.get("f"): cs.add(n["f"])
            if n["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and n.get("op") == "=" and n.get("c") and member(n["c"][0]): setters[F.id] = F
    touch = set(setters)
    for _ in range(4): touch |= {f for f, cs in calls.items() if cs & touch}
    called = set().union(*[calls[f] for f in touch]) if touch else set()
    tops = [F for F in db.all() if F.id in touch and (F.d.get("ctor") or F.id in setters and F.id not in called)]
    for F in tops:
        if F.body is None or F.n == "main": continue
        rep.ok(); rep.count("functions setting labels", 1)
        if must(db, F, step): continue
        r = P.run(F, {(False, frozenset())})
        if any(d is False for d, _ in r["exit"]):
            rep.bad("labels|%s" % F.q, F.loc(F.body), "%s can end without having set the column labels %s" % (F.q, m))


def must(db, F, step):
    """a setting element lies on every path to the exit, whatever the conditions"""
    from util import pgraph
    g = pgraph(db, F)
    if not g.ok: return False
    has = {b for b, B in g.blocks.items() if any(n["k"] in ("CXXOperatorCallExpr", "BinaryOperator", "CXXMemberCallExpr") and step(F, n, {}, False) == [True] for n in B.elems)}
    seen = set(); work = [g.entry]
    while work:
        b = work.pop()
        if b in seen or b in has: continue
        seen.add(b); work += [t for t, c, q in g.edges(b)]
    return g.exit not in seen


def tables_plain(n):
    from paths import plain
    return plain(n)


def run(db, rep):
    table_rules(db, rep)
    # the vectors written as several columns are filled on every path (a vector without a value writes no column)
    import c14, report
    sub = report.Report("C14", rep.tier)
    c14.run(db, sub)
    rep.ok(sub.analysed.get("records_stored", 0) + sub.analysed.get("list_growth_per_pair", 0))
    for k in ("per_pair_lists", "per_pair_vectors", "records_stored", "list_growth_per_pair"): rep.count(k, sub.analysed.get(k, 0))
    for v in sub.violations:
        if v["key"].startswith(("unset|", "entries|")): rep.bad(v["key"], v["where"], v["msg"] + ": the row of this pair has columns without a value")
