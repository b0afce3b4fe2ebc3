"""The per-pair lists are the vectors of statuses and of per-pair records inside the transition result structure. Path-state
analysis (sets of path states over the control-flow graph, own helper functions and lambdas entered, correlated conditions
followed) counts how often each list grows during one pass of the loop over the coexisting pairs: on every path from the
loop head back to it exactly one entry is added to every list, the pass cannot leave the loop early, the loop runs through
the pairs once and forwards, and no list is changed anywhere else. At the point where a per-pair record is stored every
vector component has been assigned since its declaration, and what is assigned has as many components as there are vacuum
directions (the point of a traced minimum, or a vector built with that number). The pair identifiers equal the position in
the pair list (offset dataflow), and the announced number of pairs is the size of the list the loop runs through."""
from core import walk, kids, CALLS, CheckError
from cfg import skip_casts, key_of, const_eval
from util import pgraph
from paths import Paths, plain

EXPLANATION = "Counts list growth per pair on every path of the pair loop and checks vector lengths at the assignments."
GROW = ("push_back", "emplace_back")
SHRINK = ("pop_back", "clear", "erase", "insert", "emplace", "swap", "assign", "resize", "shrink_to_fit_", "push_front")
PAIRS = "CoexPhases"


def vec_of(t):
    t = t.replace("const ", "").replace("BSMPT::", "").replace("struct ", "").replace("class ", "").strip(" &")
    if t.startswith("std::vector<") and t.endswith(">"):
        return t[len("std::vector<"):-1].split(",")[0].strip()
    if t.startswith("vector<") and t.endswith(">"): return t[len("vector<"):-1].split(",")[0].strip()
    return None


def short(t): return t.replace("BSMPT::", "").replace("const ", "").strip(" &").split("::")[-1]


def is_pairs(n):
    return n is not None and vec_of(n.get("t", "")) is not None and short(vec_of(n["t"])) == PAIRS


class Lists:
    def __init__(self, db, root="output"):
        self.db = db; self.lists = {}; self.rec = {}; self.root = None
        enums = {short(q) for q in db.enums} if hasattr(db, "enums") else set()
        cand = [r for q, rs in db.rec_by_q.items() for r in rs if q.split("::")[-1] == root and "transition_tracer" in r["file"]]
        if not cand: raise CheckError("no transition result structure")
        self.recs = {short(q): rs[0] for q, rs in db.rec_by_q.items()}
        self.visit(cand[0], set())

    def visit(self, r, seen):
        if id(r) in seen: return
        seen.add(id(r))
        for f in r["fields"]:
            e = vec_of(f["t"])
            if e is None:
                x = self.recs.get(short(f["t"]))
                if x is not None and "optional" not in f["t"]: self.visit(x, seen)
                continue
            e = short(e)
            if e in ("double", "int", "string", "basic_string", "float", "bool", "size_t") or "string" in e or "<" in e: continue
            self.lists[f["d"]] = f["n"]
            if e in self.recs: self.rec[f["d"]] = self.recs[e]


def run(db, rep):
    L = Lists(db)
    if len(L.lists) < 4: raise CheckError("per-pair lists not found")
    lists = L.lists
    pieces = {}  # record name -> vector<double> fields
    for d, r in L.rec.items():
        pieces[short(r.get("q", r.get("n", "")))] = {f["d"]: f["n"] for f in r["fields"] if vec_of(f["t"]) == "double"}
    vecs = {d: n for p in pieces.values() for d, n in p.items()}
    rep.count("per_pair_lists", len(lists)); rep.count("per_pair_vectors", len(vecs))

    funcs = [f for f in db.funcs.values() if "/tests/" not in f.file]

    def outer(F):
        while F.d.get("lambda") and F.owner is not None: F = F.owner
        return F.id

    def target(F, n, bind, table):
        """declaration id of a list the expression denotes"""
        n = plain(n)
        if n is None: return None
        if n["k"] == "MemberExpr": return n["d"] if n["d"] in table else None
        if n["k"] == "DeclRefExpr":
            b = bind.get(n.get("d"))
            if b in table: return b
            r = refs.get((outer(F), n.get("d")))
            return n.get("d") if n.get("d") in table else r if r in table else None
        return None

    # references bound to a list
    refs = {}
    used = {}
    for F in funcs:
        hit = False
        for n in F.walk():
            if n["k"] == "VarDecl" and n["t"].strip().endswith("&") and n.get("c") and n["c"][0]:
                x = plain(n["c"][0])
                if x["k"] == "MemberExpr" and (x["d"] in lists or x["d"] in vecs): refs[(outer(F), n["d"])] = x["d"]
            if n["k"] == "MemberExpr" and n["d"] in lists: hit = True
        if hit: used[F.id] = F
    owner_funcs = set(used)

    def callbind(F, n, t, bind):
        out = {}
        args = n.get("c", [])
        if n["k"] == "CXXOperatorCallExpr" and len(args) == len(t.params) + 1: args = args[1:]
        for p, a in zip(t.params, args):
            if a is None or not p["t"].strip().endswith("&"): continue
            x = target(F, a, bind, lists) or target(F, a, bind, vecs)
            if x is not None: out[p["d"]] = x
        if t.d.get("lambda"):
            for k, v in bind.items(): out.setdefault(k, v)
        return out
    # functions (transitively) touching the lists or the vectors
    touch = {}
    inter = {f.id for f in funcs if any(n["k"] == "MemberExpr" and (n["d"] in lists or n["d"] in vecs) for n in f.walk())
             or any(vec_of(p["t"]) is not None and p["t"].strip().endswith("&") and not p["t"].startswith("const") for p in f.params)}

    def touches(t, depth=0):
        if t.id in touch: return touch[t.id]
        if t.id in inter: touch[t.id] = True; return True
        touch[t.id] = False
        if depth < 5:
            for n in t.walk():
                if n["k"] in CALLS and n.get("f") and n.get("own"):
                    if any(touches(x, depth + 1) for x in db.resolve(n["f"])): touch[t.id] = True; break
                if n["k"] == "LambdaExpr": pass
        return touch[t.id]

    names = sorted(lists, key=lambda d: lists[d]); pos = {d: i for i, d in enumerate(names)}
    vn = sorted(vecs, key=lambda d: vecs[d])
    stores = {}; grows = []; mutations = []

    def step(F, n, bind, d):
        cnt, asg = d
        k = n["k"]
        if k == "DeclStmt":
            for v in n.get("decls", []):
                r = short(v.get("t", ""))
                if r in pieces and not v["t"].strip().endswith("&"): asg = asg - frozenset(pieces[r])
            return [(cnt, asg)] if asg is not d[1] else None
        if k == "CXXMemberCallExpr":
            nm = (n.get("q") or "").split("::")[-1]
            x = target(F, n.get("obj"), bind, lists)
            if x is not None and nm in GROW:
                c = list(cnt); c[pos[x]] = min(2, c[pos[x]] + 1)
                if x in L.rec:
                    need = pieces[short(L.rec[x].get("q", ""))]
                    a = plain(n["c"][0]) if n.get("c") else None
                    if a is not None and (a["k"] == "DeclRefExpr" or a["k"] == "MemberExpr" or a["k"] == "CallExpr" and (a.get("q") or "").startswith("std::move") or a["k"] == "CXXConstructExpr" and a.get("c")):
                        miss = [vecs[f] for f in need if f not in asg]
                        stores.setdefault(id(n), [F, n, set()])[2].update(miss)
                return [(tuple(c), asg)]
            v = target(F, n.get("obj"), bind, vecs)
            if v is not None and nm in ("assign", "resize"): return [(cnt, asg | {v})]
        lhs = None
        if k == "CXXOperatorCallExpr" and n.get("op") == "=" or k == "BinaryOperator" and n.get("op") == "=": lhs = n["c"][0]
        if lhs is not None:
            v = target(F, lhs, bind, vecs)
            if v is not None: return [(cnt, asg | {v})]
            l = plain(lhs)
            # the whole record assigned
            r = short(l.get("t", ""))
            if r in pieces and l["k"] in ("DeclRefExpr", "MemberExpr"):
                x = plain(n["c"][1])
                if x is not None and not (x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and not [c for c in x.get("c", []) if c]): return [(cnt, asg | frozenset(pieces[r]))]
        if k in CALLS and n.get("f") and n.get("own") or k == "CXXConstructExpr" and n.get("own"):
            ts = [t for t in db.resolve(n["f"]) if touches(t)] if n.get("f") else []
            if ts:
                out = set()
                for t in ts: out |= P.call(t, (cnt, asg), callbind(F, n, t, bind))
                return out or None
        return None
    P = Paths(db, step)
    zero = tuple([0] * len(names))

    # ---- the loops over the pairs
    loops = []
    for F in funcs:
        if not (F.id in owner_funcs or touches(F)): continue
        g = pgraph(db, F)
        if not g.ok: continue
        for B in g.blocks.values():
            if B.term is None or B.tk not in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt"): continue
            kind = pair_loop(db, F, B.term)
            if kind: loops.append((F, g, B, kind))
    done = {d: [] for d in names}
    escaped0 = {plain(n["c"][0]).get("d") for F in funcs for n in F.walk() if n["k"] == "UnaryOperator" and n.get("op") == "&" and n.get("c") and n["c"][0]}
    inloop = set()
    for F, g, B, kind in loops:
        body = B.succs[0]
        if body is None: continue
        r = P.run(F, {((zero, frozenset()), frozenset())}, (), start=body, header=B.id)
        touched = {i for s in list(r["header"]) + list(r["exit"]) for i, c in enumerate(s[0][0]) if c}
        if not touched: continue
        if len(r["header"]) == 0: continue
        rep.ok(); rep.count("pair_loops")
        if kind != "forward": rep.bad("order|" + F.q, F.loc(B.term), "%s fills the per-pair lists in an order other than the pair order" % F.q)
        for b in r["at"]:
            for n in g.blocks[b].elems: inloop.add(id(n))
        for i, d in enumerate(names):
            cs = {s[0][0][i] for s in r["header"]}
            if cs == {0}: continue
            if d in escaped0: continue
            done[d].append((F, B)); rep.ok(); rep.count("list_growth_per_pair")
            if cs != {1}:
                what = "not filled" if 0 in cs else "filled more than once"
                rep.bad("entries|%s" % lists[d], F.loc(B.term), "%s is %s for a pair on some path of the loop over the pairs in %s" % (lists[d], what, F.q))
        if r["exit"]:
            rep.bad("leaves|" + F.q, F.loc(B.term), "%s can leave the loop over the pairs before the last pair" % F.q)
    if not loops: raise CheckError("no loop over the coexisting pairs found")
    for d in names:
        rep.ok()
        if d in escaped0: rep.count("lists_not_followed"); continue
        if not done[d]: rep.bad("entries|%s" % lists[d], "include/BSMPT/transition_tracer/transition_tracer.h:1", "%s is not filled once per pair by any loop over the pairs" % lists[d])
        elif len(done[d]) > 1: rep.bad("entries|%s" % lists[d], done[d][1][0].loc(done[d][1][1].term), "%s is filled by more than one loop over the pairs" % lists[d])
    for F, n, miss in stores.values():
        rep.ok(); rep.count("records_stored")
        for m in sorted(miss): rep.bad("unset|%s" % m, F.loc(n), "%s stores a per-pair record on a path on which %s was not set for this pair" % (F.q, m))

    # ---- any other change of a list
    reached = {f.id for f in funcs if touches(f)}
    loopfn = {F.id for F, g, B, k in loops}
    inner = set()

    def close(F, depth=0):
        for n in F.walk():
            if n["k"] in CALLS and n.get("f") and n.get("own") and (F.id not in loopfn or id(n) in inloop):
                for t in db.resolve(n["f"]):
                    if t.id not in inner and touches(t) and depth < 6: inner.add(t.id); close(t, depth + 1)
    for F, g, B, k in loops: close(F)
    for F in funcs:
        for n in F.walk():
            if n["k"] != "CXXMemberCallExpr" and not (n["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and n.get("op") == "="): continue
            if n["k"] == "CXXMemberCallExpr":
                x = target(F, n.get("obj"), {}, lists); nm = (n.get("q") or "").split("::")[-1]
                if x is None: continue
                if nm in GROW:
                    rep.ok(); rep.count("growth_sites")
                    if id(n) not in inloop and F.id not in inner:
                        rep.bad("outside|%s" % lists[x], F.loc(n), "%s adds to %s outside the loop over the pairs" % (F.q, lists[x]))
                elif nm in SHRINK:
                    rep.ok()
                    if nm == "clear" and id(n) not in inloop and F.id not in inner and not after(db, F, n, loops): continue
                    rep.bad("changed|%s" % lists[x], F.loc(n), "%s changes %s with %s: it no longer has one entry per pair" % (F.q, lists[x], nm))
            else:
                x = target(F, n["c"][0], {}, lists)
                if x is not None and plain(n["c"][0])["k"] == "MemberExpr":
                    rep.ok(); rep.bad("changed|%s" % lists[x], F.loc(n), "%s replaces %s" % (F.q, lists[x]))
    # ---- what is assigned to the vectors
    for F in funcs:
        for n in F.walk():
            v = None
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=": v = target(F, n["c"][0], {}, vecs); rhs = [n["c"][1]]
            elif n["k"] == "CXXMemberCallExpr" and (n.get("q") or "").split("::")[-1] in ("assign", "resize"): v = target(F, n.get("obj"), {}, vecs); rhs = None
            if v is None: continue
            rep.ok(); rep.count("vacuum_assignments")
            verdict = size_ok(db, F, n["c"][0]) if rhs is None else shape(db, F, rhs[0])
            if verdict is None: rep.count("vacuum_lengths_not_followed")
            elif verdict is not True: rep.bad("length|%s|%s" % (vecs[v], F.q), F.loc(n), "%s gives %s %s" % (F.q, vecs[v], verdict))
    pair_ids(db, rep, funcs)
    # ---- reordering, and the announced number
    for F in funcs:
        for n in F.walk():
            if n["k"] == "CallExpr" and (n.get("q") or "") in ("std::sort", "std::reverse", "std::stable_sort", "std::random_shuffle", "std::shuffle", "std::rotate", "std::partition"):
                if any(x.get("obj") is not None and is_pairs(plain(x["obj"])) for a in n.get("c", []) if a for x in walk(a) if x["k"] == "CXXMemberCallExpr"):
                    rep.ok(); rep.bad("order|" + F.q, F.loc(n), "%s changes the order of the pairs" % F.q)
            if n["k"] == "BinaryOperator" and n.get("op") == "=":
                l = plain(n["c"][0])
                if l["k"] == "MemberExpr" and l.get("n") == "num_coex_phase_pairs" or l["k"] == "MemberExpr" and (l.get("q") or "").endswith("::num_coex_phase_pairs"):
                    rep.ok(); rep.count("announced_numbers")
                    if not pairs_size(F, n["c"][1]): rep.bad("number|" + F.q, F.loc(n), "%s announces a number of pairs that is not the size of the pair list" % F.q)


def pairs_size(F, e, depth=0):
    e = plain(e)
    if e["k"] == "CXXMemberCallExpr" and (e.get("q") or "").split("::")[-1] == "size": return is_pairs(plain(e["obj"]))
    if e["k"] == "DeclRefExpr" and depth < 3:
        for v in F.walk():
            if v["k"] == "VarDecl" and v["d"] == e["d"] and v.get("c") and v["c"][0]: return pairs_size(F, v["c"][0], depth + 1)
    return False


def after(db, F, n, loops):
    """can n run after a pair loop of the same function?"""
    for G, g, B, k in loops:
        if G.id != F.id: continue
        w = g.where(n)
        b = w[0] if isinstance(w, tuple) else w
        b = getattr(b, "id", b)
        if B.succs[1:] and B.succs[1] is not None and b in g.reach(B.succs[1]): return True
    return False


def pair_loop(db, F, st):
    """'forward'/'other' if the loop runs through a list of pairs, else None"""
    k = st["k"]
    if k == "CXXForRangeStmt":
        return "forward" if is_pairs(plain(st.get("range"))) else None
    c = plain(st.get("cond"))
    if c is None: return None
    has = [x for x in walk(c) if x["k"] == "CXXMemberCallExpr" and is_pairs(plain(x.get("obj")))]
    has += [x for x in walk(c) if x["k"] == "MemberExpr" and x.get("n") == "num_coex_phase_pairs"]
    src = list(has)
    init = st.get("init")
    if init is not None:
        has += [x for x in walk(init) if x["k"] == "CXXMemberCallExpr" and is_pairs(plain(x.get("obj")))]
    if not has:
        # bound kept in a local variable
        for x in walk(c):
            if x["k"] == "DeclRefExpr":
                for v in F.walk():
                    if v["k"] == "VarDecl" and v["d"] == x["d"] and v.get("c") and v["c"][0]:
                        y = plain(v["c"][0])
                        if y["k"] == "CXXMemberCallExpr" and is_pairs(plain(y.get("obj"))): has.append(y)
    if not has: return None
    nm = {(x.get("q") or "").split("::")[-1] for x in has}
    if nm & {"rbegin", "rend", "crbegin", "crend", "back"}: return "other"
    # the counter starts at 0/begin and advances by one
    op = c.get("op"); a = c.get("c", [])
    var = next((x for x in (plain(y) for y in a) if x is not None and x["k"] == "DeclRefExpr" and x.get("dk", "var") == "var"), None)
    if var is None: return "forward" if "empty" in nm else "other"
    v0 = next((v for v in F.walk() if v["k"] == "VarDecl" and v["d"] == var["d"]), None)
    ini = plain(v0["c"][0]) if v0 is not None and v0.get("c") and v0["c"][0] else None
    z = const_eval(ini, {}) if ini is not None else None
    startok = z == 0 and z is not None or ini is not None and any((x.get("q") or "").split("::")[-1] in ("begin", "cbegin") for x in walk(ini) if x["k"] in CALLS)
    body = [st.get("inc"), st.get("body")]
    ups = [x for b in body if b for x in walk(b) if x["k"] in ("UnaryOperator", "CXXOperatorCallExpr") and x.get("op") in ("++", "--") and key_of(x["c"][0]) == var["d"]]
    adds = [x for b in body if b for x in walk(b) if x["k"] == "CompoundAssignOperator" and key_of(x["c"][0]) == var["d"]]
    okstep = all(x["op"] == "++" for x in ups) and all(x["op"] == "+=" and const_eval(x["c"][1], {}) == 1 for x in adds) and len(ups) + len(adds) == 1
    sides = [plain(y) for y in a]
    strict = op in ("<", "!=") and sides[0] is not None and key_of(sides[0]) == var["d"] or op in (">", "!=") and len(sides) > 1 and key_of(sides[1]) == var["d"]
    bounded = not any(x["k"] == "BinaryOperator" and x.get("op") in ("-", "/", "+") for x in walk(c))
    return "forward" if startok and okstep and strict and bounded else "other"


def size_ok(db, F, e, depth=0):
    """True / message / None: is the expression the number of vacuum directions?"""
    e = plain(e)
    if e is None: return None
    if e["k"].endswith("Literal"): return "a fixed length of %s" % e.get("v", e.get("val"))
    if depth > 4: return None
    if e["k"] in CALLS:
        q = (e.get("q") or "").split("::")[-1]
        if q in ("get_nVEV",): return True
        if q.startswith("get_N") or q.startswith("get_n"): return "a length that is not the number of vacuum directions (%s)" % q
        if q == "size": return None
        for t in db.resolve(e["f"]) if e.get("own") and e.get("f") else []:
            rs = [r["c"][0] for r in t.walk() if r["k"] == "ReturnStmt" and r.get("c") and r["c"][0]]
            v = [size_ok(db, t, r, depth + 1) for r in rs]
            if any(isinstance(x, str) for x in v): return next(x for x in v if isinstance(x, str))
            return True if v and all(x is True for x in v) else None
        return None
    if e["k"] == "BinaryOperator" and e["op"] in ("+", "-", "*", "/"):
        v = [size_ok(db, F, x, depth + 1) for x in e["c"]]
        return "a length computed from, but not equal to, the number of vacuum directions" if any(x is True for x in v) else None
    if e["k"] == "MemberExpr":
        if (e.get("n") or "") == "nVEV": return True
        src = []
        for G in db.funcs.values():
            for ini in G.d.get("inits") or []:
                if ini.get("d") == e["d"] or ini.get("fd") == e["d"]:
                    x = ini.get("e") or (ini.get("c") or [None])[0]
                    if x: src.append((G, x))
            for n in G.walk():
                if n["k"] == "BinaryOperator" and n["op"] == "=" and plain(n["c"][0])["k"] == "MemberExpr" and plain(n["c"][0]).get("d") == e["d"]: src.append((G, n["c"][1]))
        v = [size_ok(db, G, x, depth + 1) for G, x in src]
        if any(isinstance(x, str) for x in v): return next(x for x in v if isinstance(x, str))
        return True if v and all(x is True for x in v) else None
    if e["k"] == "DeclRefExpr":
        for v in F.walk():
            if v["k"] == "VarDecl" and v["d"] == e["d"] and v.get("c") and v["c"][0]: return size_ok(db, F, v["c"][0], depth + 1)
        if F.d.get("lambda") and F.owner is not None: return size_ok(db, F.owner, e, depth + 1)
        i = next((i for i, p in enumerate(F.params) if p["d"] == e["d"]), None)
        if i is not None: return merge([size_ok(db, G, c["c"][i], depth + 1) for G, c in callers(db, F) if i < len(c.get("c", [])) and c["c"][i]])
    return None


def callers(db, F):
    m = db.__dict__.setdefault("_callers14", {})
    if not m:
        for G in db.funcs.values():
            for n in G.walk():
                if n["k"] in CALLS and n.get("own") and n.get("f"):
                    for t in db.resolve(n["f"]): m.setdefault(t.id, []).append((G, n))
    return m.get(F.id, [])


def merge(v):
    s = [x for x in v if isinstance(x, str)]
    if s: return s[0]
    return True if v and all(x is True for x in v) else None


def shape(db, F, e, depth=0):
    """True / message / None for the length of a vector expression"""
    e = plain(e)
    if e is None or depth > 5: return None
    k = e["k"]; a = [c for c in e.get("c", []) if c]
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr"):
        real = [c for c in a if c["k"] != "CXXDefaultArgExpr"]
        if not real: return "no components"
        if len(real) == 1 and vec_of(real[0].get("t", "")) is not None: return shape(db, F, real[0], depth + 1)
        if len(real) == 1 and "initializer_list" in real[0].get("t", ""): return shape(db, F, real[0], depth + 1)
        t0 = real[0].get("t", "")
        if "iterator" in t0 or "*" in t0: return None
        return size_ok(db, F, real[0])
    if k in ("InitListExpr", "CXXStdInitializerListExpr"):
        inner = plain(a[0]) if len(a) == 1 else None
        if inner is not None and inner["k"] in ("InitListExpr", "MaterializeTemporaryExpr"): return shape(db, F, inner, depth + 1)
        return "a fixed list of %d components" % len(a) if a or k == "InitListExpr" else None
    if k == "ConditionalOperator": return merge([shape(db, F, e["c"][1], depth + 1), shape(db, F, e["c"][2], depth + 1)])
    if k == "MemberExpr":
        q = short(plain(e["c"][0]).get("t", "")) if e.get("c") else ""
        if (e.get("n") or (e.get("q") or "").split("::")[-1]) == "point": return True
        return None
    if k == "DeclRefExpr":
        v = next((v for v in F.walk() if v["k"] == "VarDecl" and v["d"] == e["d"]), None)
        if v is not None:
            asg = [n for n in F.walk() if n.get("op") == "=" and n["k"] in ("CXXOperatorCallExpr",) and key_of(n["c"][0]) == e["d"]]
            mut = [n for n in F.walk() if n["k"] == "CXXMemberCallExpr" and not n.get("cm") and key_of(n.get("obj")) == e["d"] and (n.get("q") or "").split("::")[-1] not in ("at", "operator[]", "begin", "end", "front", "back", "data")]
            if mut: return None
            vs = [shape(db, F, n["c"][1], depth + 1) for n in asg]
            if v.get("c") and v["c"][0]: vs.append(shape(db, F, v["c"][0], depth + 1)) if not (asg and not [c for c in plain(v["c"][0]).get("c", []) if c]) else None
            return merge(vs)
        i = next((i for i, p in enumerate(F.params) if p["d"] == e["d"]), None)
        if i is not None: return merge([shape(db, G, c["c"][i], depth + 1) for G, c in callers(db, F) if i < len(c.get("c", [])) and c["c"][i]])
        if F.d.get("lambda") and F.owner is not None: return shape(db, F.owner, e, depth + 1)
        return None
    if k in CALLS and e.get("own") and e.get("f"):
        vs = []
        for t in db.resolve(e["f"]):
            rs = [r["c"][0] for r in t.walk() if r["k"] == "ReturnStmt" and r.get("c") and r["c"][0]]
            vs += [shape(db, t, r, depth + 1) for r in rs]
        return merge(vs)
    return None


def pair_ids(db, rep, funcs):
    """every pair is created with its position in the list"""
    sites = 0
    for F in funcs:
        cons = []
        for n in F.walk():
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and short(n.get("t", "")) == PAIRS and len([c for c in n.get("c", []) if c]) >= 3:
                cons.append((n, n["c"][0]))
            if n["k"] == "CXXMemberCallExpr" and (n.get("q") or "").split("::")[-1] == "emplace_back" and is_pairs(plain(n.get("obj"))) and len(n.get("c", [])) >= 3: cons.append((n, n["c"][0]))
        if not cons: continue
        for n, a in cons:
            e = plain(a); sites += 1; rep.ok(); rep.count("pair_identifiers")
            if pairs_size(F, e): continue
            d = key_of(e)
            if d is None: 
                if const_eval(e, {}) is not None: rep.bad("id|" + F.q, F.loc(n), "%s gives every pair the same identifier" % F.q)
                continue
            v0 = next((v for v in F.walk() if v["k"] == "VarDecl" and v["d"] == d), None)
            if v0 is None: rep.count("pair_identifiers_not_followed"); continue
            bad = set()

            def ev(G, x, bind, off):
                if x["k"] == "DeclStmt":
                    for v in x.get("decls", []):
                        if v["d"] == d:
                            z = const_eval(v["c"][0], {}) if v.get("c") and v["c"][0] else None
                            return [z if isinstance(z, int) else "?"]
                if off == "?" or off is None:
                    if x["k"] == "BinaryOperator" and x["op"] == "=" and key_of(x["c"][0]) == d and G.id == F.id: pass
                    else: return None
                if x is n: bad.add(off)
                new = off
                if x["k"] == "UnaryOperator" and x.get("op") in ("++", "--") and key_of(x["c"][0]) == d: new = off + (1 if x["op"] == "++" else -1)
                elif x["k"] == "CompoundAssignOperator" and key_of(x["c"][0]) == d:
                    z = const_eval(x["c"][1], {}); new = off + z if x["op"] == "+=" and isinstance(z, int) else off - z if x["op"] == "-=" and isinstance(z, int) else "?"
                elif x["k"] == "BinaryOperator" and x["op"] == "=" and key_of(x["c"][0]) == d:
                    r = plain(x["c"][1])
                    if r["k"] == "BinaryOperator" and r["op"] == "+" and key_of(r["c"][0]) == d and isinstance(const_eval(r["c"][1], {}), int): new = off + const_eval(r["c"][1], {})
                    elif pairs_size(F, r): new = 0
                    else: new = "?"
                elif x["k"] == "CXXMemberCallExpr" and is_pairs(plain(x.get("obj"))):
                    nm = (x.get("q") or "").split("::")[-1]
                    if nm in GROW: new = off - 1
                    elif not x.get("cm") and nm not in ("at", "begin", "end", "operator[]", "front", "back", "reserve", "size"): new = "?"
                elif x["k"] in CALLS and x.get("own") and x.get("f"):
                    ts = [t for t in db.resolve(x["f"]) if any(y["k"] == "CXXMemberCallExpr" and (y.get("q") or "").split("::")[-1] in GROW and is_pairs(plain(y.get("obj"))) or y["k"] == "UnaryOperator" and y.get("op") == "++" and key_of(y["c"][0]) == d and t.d.get("lambda") for y in t.walk())]
                    out = set()
                    for t in ts:
                        b = {}
                        for p, q in zip(t.params, x.get("c", [])):
                            if q is not None and key_of(plain(q)) == d: b[p["d"]] = d
                        out |= sub.call(t, off, b)
                    if ts: return out
                if new == off: return None
                return [new if isinstance(new, str) or abs(new) <= 3 else "?"]
            sub = Paths(db, ev)
            sub.run(F, {(None, frozenset())})
            if bad - {0}: rep.bad("id|" + F.q, F.loc(n), "%s creates a pair whose identifier is not its position in the pair list on some path" % F.q)
    if not sites: raise CheckError("no construction of a phase pair found")
