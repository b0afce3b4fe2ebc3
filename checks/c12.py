"""Freshness analysis of every model class (checks/fresh.py): a forward may-analysis over the control-flow graphs of the
preparation entry points (initModel from a line, initModel from parameters, set_All, resetScale), own functions entered in
the context of the concrete class with constant propagation of the completion flags. At the start everything any member
function ever stores is old (or, for resetScale, everything whose computation depended on the scale); an assignment of a
value that depends on nothing old makes a cell fresh, accumulation does not. Afterwards no member function may read an old
cell; quantities that are computed on request may be handed out by plain accessors only, and must be fresh after the
functions that compute them have run. Flags that never change after construction are enumerated."""
from core import walk, kids, CALLS, CheckError, REPO
from util import pgraph
from fresh import Fresh, State, core
import itertools, multiprocessing, os

EXPLANATION = "No cell with contents from before the preparation of a point is read after it, in every model class."
BASE = "BSMPT::Class_Potential_Origin"
ENTRIES = (("initModel", None), ("set_All", None))


def concrete(db):
    out = []
    for q in sorted(db.derived(BASE)):
        rs = [r for r in db.rec_by_q.get(q, ()) if "/tests/" not in r["file"] and "/standalone/" not in r["file"]]
        if rs and q != BASE: out.append(q)
    if len(out) < 3: raise CheckError("model classes not found")
    return out


def setter(A, F):
    """stores an argument in one field and does nothing else"""
    if F.id in A.setters: return A.setters[F.id]
    A.setters[F.id] = False
    if len(list(itertools.islice(F.walk(), 60))) >= 60: return False
    st = [n for n in F.walk() if n["k"] == "BinaryOperator" and n["op"] == "=" or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "="]
    calls = [n for n in F.walk() if n["k"] in CALLS and n["k"] not in ("CXXConstructExpr",) and n not in st]
    A.setters[F.id] = len(st) == 1 and not calls
    return A.setters[F.id]


def accessor(F):
    """returns (an element of) one field and does nothing else"""
    body = F.body
    if body is None or body["k"] != "CompoundStmt": return False
    ss = [x for x in kids(body) if x["k"] != "NullStmt"]
    if len(ss) != 1 or ss[0]["k"] != "ReturnStmt": return False
    fld = [x for x in walk(ss[0]) if x["k"] == "MemberExpr" and x.get("dk") == "field"]
    calls = [x for x in walk(ss[0]) if x["k"] in CALLS and x["k"] != "CXXConstructExpr" and x.get("op") not in ("[]", "()")
             and (x.get("q") or "").split("::")[-1] != "at"]
    ops = [x for x in walk(ss[0]) if x["k"] in ("BinaryOperator", "ConditionalOperator")]
    return len(fld) == 1 and not calls and not ops


def may_touch(A, F, memo, seen=None):
    """fields F or anything it calls on the same object mentions"""
    if F.id in memo: return memo[F.id]
    seen = seen or set()
    if F.id in seen: return set()
    seen.add(F.id)
    out = set()
    for n in F.walk():
        if n["k"] == "MemberExpr" and n.get("dk") == "field" and n.get("d") in A.fields: out.add(n["d"])
        if n["k"] in CALLS:
            for t in A.targets(n, F): out |= may_touch(A, t, memo, seen)
    if len(seen) == 1: memo[F.id] = out
    return out


def judge(db, rep, A, entry, start, label, viol, always=()):
    """run entry from the state 'start', then every member function"""
    A.reads = None
    out, ret = A.enter(entry, start)
    if out is None: return 0
    nob = 1
    short = A.dyn.split("::")[-1]
    if ret is not None:
        viol.setdefault((short, entry.n, "result", A.name(ret)), (entry, None, "%s: the value returned by %s may depend on %s from before the call" % (label, entry.n, A.name(ret))))
    env = {d: v for d, v in out.env.items() if d in A.fields}
    fns = [F for F in A.visible() if F.d.get("access") == 0 and not F.d.get("ctor") and not F.d.get("dtor")
           and F.n not in ("initModel", "set_All", "resetScale")]
    memo = {}
    # fields that only settings functions change keep the value the user chose
    wr = {}
    for F in A.methods:
        for f, ids in A.rawwriters.items():
            if F.id in ids: wr.setdefault(f, []).append(F)
    settings = {f for f, Fs in wr.items() if all(setter(A, F) for F in Fs)}
    cells0 = {c for c in out.cells if c[0] not in settings}
    # functions that compute quantities on request, and the order of calling them that leaves least behind
    lazy = {}; mk = []
    for F in fns:
        if F.d.get("const") or setter(A, F): continue
        o, _ = A.enter(F, State(out.cells, env))
        if o is not None and cells0 - o.cells:
            mk.append(F)
            for c in cells0 - o.cells: lazy.setdefault(c, []).append(F)
    mk = mk[:4]
    states = [(None, State(out.cells, env))]
    best = None
    for perm in itertools.permutations(mk) if cells0 else ():
        st = State(out.cells, env)
        for F in perm:
            o, _ = A.enter(F, State(st.cells, st.env))
            if o is not None: st = State(o.cells, {d: v for d, v in o.env.items() if d in A.fields})
        if best is None or len(st.cells) < len(best[1].cells): best = (perm, st)
    if best is not None and mk: states.append((" and ".join(F.n for F in best[0]), best[1]))
    for F0, st in states:
        cells = {c for c in st.cells if c[0] not in settings}
        if not cells: continue
        pend = {c for c in cells if c in lazy} if F0 is None else set()
        for G in fns:
            if G.n in ("ReadAndSet", "set_gen") or setter(A, G): continue
            if not (may_touch(A, G, memo) & {c[0] for c in cells}): continue
            nob += 1
            A.reads = {}
            A.enter(G, State(cells, st.env))
            for c, (W, n) in A.reads.items():
                if c not in cells: continue
                if c in pend and (accessor(G) or not G.d.get("const")): continue
                viol.setdefault((short, G.n, A.name((c[0], ()))), (W, n, "%s%s: %s reads %s, which still holds what was computed before" % (
                    label, " then %s" % F0 if F0 else "", G.n, A.name((c[0], ())))))
            A.reads = None
    return nob


def retuners(A):
    """member functions that replace one plain field by their argument and then recompute: [(function, field)]"""
    out = []
    for F in A.visible():
        if F.d.get("access") != 0 or F.d.get("const") or F.d.get("ctor") or setter(A, F) or len(F.params) != 1: continue
        al = A.aliases(F)
        for n in F.walk():
            if n["k"] == "BinaryOperator" and n["op"] == "=" and core(n["c"][1]).get("d") == F.params[0]["d"]:
                lv = A.lv(n["c"][0], al)
                if lv and lv[0] == "m" and not lv[2]: out.append((F, lv[1]))
    return out


def one(db, q, const):
    viol = {}; nob = 0
    A = Fresh(db, q, const=const); short = q.split("::")[-1]
    es = A.method("initModel") + A.method("set_All")
    if len(es) < 3: raise CheckError("preparation entry points of %s not found" % q)
    for E in es:
        nob += judge(db, None, A, E, State(A.cells, {}), "%s: after %s(%s)" % (short, E.n, ", ".join(p["t"].split("<")[0].replace("const ", "") for p in E.params)), viol)
    rs = retuners(A)
    for F, f in rs:
        # everything whose computation looks at that field is old once the field changes
        T = Fresh(db, q, const=const, always={f})
        old = set(); env = {}
        for E in es[:1] + es[-1:]:
            st, _ = T.enter(E, State((), {}))
            if st is None: continue
            old |= st.cells
            for G in T.visible():
                if G.d.get("access") != 0 or G.d.get("const") or G.d.get("ctor") or setter(T, G) or G in es or (G, f) in rs: continue
                o, _ = T.enter(G, State(st.cells, {}))
                if o is not None: old |= o.cells
        # elements filled by symmetrisation follow the elements set one by one
        listed = {c[0] for c in A.cells if c[1] and all(x != "*" for x in c[1])}
        old = {c for c in old if c in A.cells and (c[0] not in listed or c[1] and all(x != "*" for x in c[1]))}
        nob += judge(db, None, A, F, State(old, {}), "%s: after %s" % (short, F.n), viol)
    return [(k, W.loc(n), msg) for k, (W, n, msg) in viol.items()], nob, len(A.cells), A.nrun, A.nstores


def kept(db, rep):
    """values that outlive the object's parameter point outside the object: static locals and globals filled by model code"""
    cls = set(db.derived(BASE)); seen = set(); st = [F for F in db.all() if F.cls in cls and F.body is not None]; n = 0
    while st:
        F = st.pop()
        if F.id in seen or "/tests/" in F.file or F.body is None: continue
        seen.add(F.id); n += 1
        stat = {}
        for x in F.walk():
            if x["k"] == "VarDecl" and x.get("static"):
                stat[x["d"]] = x
                i = x.get("c") and x["c"][0]
                dyn = [y for y in walk(i) if y["k"] in ("CXXThisExpr",) or y["k"] == "DeclRefExpr" and y.get("dk") in ("parm", "var")] if i else []
                if dyn and not x.get("constexpr"):
                    rep.bad("static|%s|%s" % (F.n, x.get("n")), F.loc(x), "%s keeps %s from the first parameter point it was called for" % (F.q, x.get("n")))
        for x in F.walk():
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and (x["op"] == "=" or x["k"][0] == "C") or \
                    x["k"] == "CXXOperatorCallExpr" and x.get("op") in ("=", "+=", "-=", "*=", "[]") or x["k"] == "UnaryOperator" and x.get("op") in ("++", "--"):
                if x.get("op") == "[]": continue
                t = core(x["c"][0]) if x.get("c") else None
                while t is not None and t["k"] in ("CXXOperatorCallExpr", "ArraySubscriptExpr", "MemberExpr") and t.get("c") and t["c"][0]: t = core(t["c"][0])
                if t is None or t["k"] != "DeclRefExpr": continue
                if t.get("d") in stat or t.get("dk") == "global":
                    rep.bad("kept|%s|%s" % (F.n, t.get("n")), F.loc(x), "%s stores into %s, which outlives the parameter point" % (F.q, t.get("n")))
        for c, ts in db.callees(F):
            for t in ts:
                if t.cls in cls or not t.cls: st.append(t)
    rep.count("functions_without_kept_values", n); rep.ok(n)


DB_ = None


def job(a):
    try: return one(DB_, *a)
    except CheckError as e: return e


def run(db, rep):
    global DB_
    kept(db, rep)
    jobs = []
    for q in concrete(db):
        A0 = Fresh(db, q)
        sizes = A0.sizes()
        free = [d for d in A0.options() if Fresh(db, q, const={d: False}).cells != Fresh(db, q, const={d: True}).cells][:4]
        for d in A0.options(): sizes.pop(d, None)
        for vals in itertools.product((False, True), repeat=len(free)):
            jobs.append((q, {**sizes, **dict(zip(free, vals))}))
    DB_ = db
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 2)) as pool: res = pool.map(job, jobs, chunksize=1)
    nob = 0; nfn = set(); seen = set()
    for r in res:
        if isinstance(r, CheckError): raise r
        viol, n, nc, run_, ns = r
        nob += n; nfn |= run_; rep.count("cells", nc); rep.count("stores_followed", ns); rep.count("class_variants")
        for k, loc, msg in viol:
            if k not in seen: seen.add(k); rep.bad("|".join(k), loc, msg)
    rep.count("functions", len(nfn)); rep.ok(nob)
