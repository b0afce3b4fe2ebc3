"""(1) Taint: values of the wall clock, process, thread, environment, hardware entropy or an address converted to an
integer are followed through assignments, members, returns and parameters; none may reach a branch condition, a
random-number seed, an array index or a library (non-output) call - only output and logging. rand() may be used only
where the same function seeds it with a value that is not tainted; no random engine lives in static or global storage;
no container ordered by addresses is iterated. (2) Definite initialisation, composed across calls: every plain member of
every class and structure is written by each constructor (or has a default value), or on every path of the calls made
on an object before it is read; model members are written on every path of initModel before they are read there and
before any other use; plain local variables are written before they are read."""
from core import walk, kids, CALLS
from cfg import skip_casts, key_of
from util import graph, pgraph
import initx

EXPLANATION = "Taint analysis of clock/process/address values and interprocedural definite-initialisation analysis of plain members."
SRC_NAMES = {"time", "clock", "clock_gettime", "gettimeofday", "timespec_get", "getpid", "getppid", "gettid", "pthread_self", "get_id", "now",
             "getenv", "secure_getenv", "gethostname", "rdtsc", "__rdtsc", "getrusage", "times", "sysinfo", "getrandom", "getentropy",
             "gsl_rng_env_setup", "hardware_concurrency_id", "tmpnam", "getuid", "getloadavg", "__builtin_ia32_rdtsc", "__builtin_readcyclecounter"}
OUTPUT = {"Write", "operator<<", "to_string", "duration_cast", "count", "time_since_epoch", "setprecision", "setw", "str", "push_back",
          "ctime", "asctime", "strftime", "put_time", "localtime", "gmtime", "to_time_t", "duration", "time_point", "append", "min", "max"}
ENGINE = ("linear_congruential_engine", "mersenne_twister_engine", "subtract_with_carry_engine", "default_random_engine", "discard_block_engine",
          "independent_bits_engine", "shuffle_order_engine")


def last(n): return (n.get("q") or "").split("::")[-1].split("<")[0]


def is_source(n):
    k = n["k"]
    if k in CALLS:
        nm = last(n)
        q = n.get("q") or ""
        if not n.get("own"):
            if nm in SRC_NAMES and (q.count("::") == 0 or q.startswith("std::")): return "%s()" % nm
            if "random_device" in q or "random_device" in (n.get("t") or "") and k != "CXXOperatorCallExpr": return "std::random_device"
    if k.endswith("CastExpr") and n.get("ck") == "PointerToIntegral": return "an address"
    if k == "CXXReinterpretCastExpr" and n.get("c") and "*" in (n["c"][0].get("t") or "") and "*" not in n.get("t", "") and "&" not in n.get("t", ""): return "an address"
    return None


def sc(F, d):
    """variable ids are local to the outermost function"""
    if d is None or d.startswith("c:"): return d
    while F.d.get("lambda") and F.owner is not None: F = F.owner
    return (F.id, d)


class Taint:
    def __init__(self, db, funcs):
        self.db = db; self.funcs = funcs; self.vars = {}; self.rets = {}
        ch = True
        while ch:
            ch = False
            for F in funcs:
                for n in F.walk():
                    k = n["k"]
                    tgt = None; src = None
                    if k == "VarDecl" and n.get("c") and n["c"][0]: tgt, src = sc(F, n["d"]), n["c"][0]
                    elif k in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=" and len(n["c"]) == 2: tgt, src = sc(F, key_of(n["c"][0])), n["c"][1]
                    elif k == "CompoundAssignOperator" or k == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-=", "*=", "^=", "|=") and len(n["c"]) == 2: tgt, src = sc(F, key_of(n["c"][0])), n["c"][1]
                    elif k == "ReturnStmt" and n.get("c") and n["c"][0]:
                        if F.id not in self.rets:
                            t = self.tainted(n["c"][0], F)
                            if t: self.rets[F.id] = t; ch = True
                        continue
                    if tgt is not None and tgt not in self.vars and not self.stream(n.get("t", "") if k == "VarDecl" else (n["c"][0].get("t") or "")):
                        t = self.tainted(src, F)
                        if t: self.vars[tgt] = t; ch = True
                    if k in CALLS and n.get("own") and n.get("f"):
                        for T in db.resolve(n["f"]):
                            off = 1 if k == "CXXOperatorCallExpr" and len(n["c"]) > len(T.params) else 0
                            for i, a in enumerate(n["c"][off:]):
                                if a is None or i >= len(T.params): continue
                                d = sc(T, T.params[i]["d"])
                                if d in self.vars: continue
                                t = self.tainted(a, F)
                                if t: self.vars[d] = t; ch = True
                if F.d.get("ctor"):
                    for i in F.d.get("inits", ()):
                        if i.get("d") and i.get("init") and i["d"] not in self.vars:
                            t = self.tainted(i["init"], F)
                            if t: self.vars[i["d"]] = t; ch = True

    @staticmethod
    def stream(t): return "stream" in t

    def tainted(self, n, F):
        """source of taint in the value of n, or None"""
        if n is None: return None
        s = is_source(n)
        if s: return s
        k = n["k"]
        if k in ("DeclRefExpr", "MemberExpr"):
            d = sc(F, n.get("d"))
            if d in self.vars: return self.vars[d]
            if k == "MemberExpr" and n.get("c") and n["c"][0]: return self.tainted(n["c"][0], F)
            return None
        if k == "LambdaExpr": return None
        if k in CALLS:
            if n.get("own") and n.get("f"):
                for T in self.db.resolve(n["f"]):
                    if T.id in self.rets: return self.rets[T.id]
                if k != "CXXConstructExpr": return None
            if self.stream(n.get("t", "")): return None
        for x in kids(n):
            t = self.tainted(x, F)
            if t: return t
        return None


def taint_rules(db, rep):
    funcs = [F for F in db.all() if not F.d.get("implicit") and F.body is not None]
    T = Taint(db, funcs)
    nsrc = 0
    for F in funcs:
        nodes = list(F.walk())
        lib = "/src/prog/" not in F.file and "/utility/" not in F.file
        for n in nodes:
            k = n["k"]
            if is_source(n): nsrc += 1; rep.ok()
            # branch conditions
            for kk in ("cond", "rcond"):
                if isinstance(n.get(kk), dict):
                    t = T.tainted(n[kk], F)
                    if t: rep.bad("branch:%s:%s" % (F.q, t), F.loc(n), "the control flow of %s depends on %s" % (F.q, t))
            if k == "ConditionalOperator":
                t = T.tainted(n["c"][0], F)
                if t: rep.bad("branch:%s:%s" % (F.q, t), F.loc(n), "the control flow of %s depends on %s" % (F.q, t))
            if k == "ArraySubscriptExpr":
                t = T.tainted(n["c"][1], F)
                if t: rep.bad("index:%s:%s" % (F.q, t), F.loc(n), "%s indexes an array with %s" % (F.q, t))
            if k not in CALLS: continue
            nm = last(n); q = n.get("q") or ""
            seeding = nm in ("srand", "srandom", "srand48", "seed", "gsl_rng_set", "nlopt_srand", "nlopt_srand_time", "srand_time", "seed_seq") or \
                any(e in q for e in ENGINE) and k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")
            if nm in ("nlopt_srand_time", "srand_time") and not n.get("own"):
                rep.bad("seed:%s:clock" % F.q, F.loc(n), "%s seeds the optimiser from the clock" % F.q)
            if seeding and not n.get("own"):
                rep.count("seeds")
                for a in n.get("c", []):
                    t = T.tainted(a, F)
                    if t: rep.bad("seed:%s:%s" % (F.q, t), F.loc(n), "a random number generator in %s is seeded from %s" % (F.q, t))
                    else: rep.ok()
                rep.sample("seed %s at %s" % (nm, F.loc(n)))
                continue
            if "random_device" in q:
                if k == "CXXOperatorCallExpr": rep.bad("entropy:%s" % F.q, F.loc(n), "%s draws numbers from std::random_device" % F.q)
                continue
            if is_source(n) or nm in OUTPUT or "stream" in (n.get("t") or ""): continue
            if n.get("own"):
                for X in db.resolve(n["f"]) if n.get("f") else ():
                    if "/src/prog/" in X.file or "/utility/" in X.file or X.file == F.file: continue
                    for a in n.get("c", []):
                        t = T.tainted(a, F)
                        if t: rep.bad("flow:%s:%s:%s" % (F.q, X.q, t), F.loc(n), "%s passes %s to %s" % (F.q, t, X.q))
        # a plain number of a result taken from tainted data inside the library
        if lib:
            for d, src in T.vars.items():
                pass
    # rand() without own seed
    for F in funcs:
        uses = [n for n in F.calls() if last(n) in ("rand", "random", "drand48", "lrand48") and not n.get("own")]
        if not uses: continue
        top = [F]; X = F
        while X.d.get("lambda") and X.owner is not None: X = X.owner; top.append(X)
        seeded = any(last(m) in ("srand", "srandom", "srand48") and not m.get("own") for Y in top for m in Y.calls())
        if not seeded:
            # seeded by every function that calls this helper
            cs = [Y for Y in funcs for m, tg in db.callees(Y) if top[-1] in tg]
            seeded = bool(cs) and all(any(last(m) in ("srand", "srandom", "srand48") for m in Y.calls()) for Y in cs)
        for n in uses:
            if seeded: rep.ok()
            else: rep.bad("rand:%s" % F.q, F.loc(n), "%s draws from the process-wide random state without seeding it: the numbers depend on earlier calls" % F.q)
    # engines and address-ordered containers
    for F in funcs:
        for n in F.walk():
            if n["k"] == "VarDecl" and n.get("static") and any(e in n["t"] for e in ENGINE + ("mt19937", "minstd_rand")):
                rep.bad("static-engine:%s:%s" % (F.q, n.get("n")), F.loc(n), "the random engine %s keeps its state between calls of %s" % (n.get("n"), F.q))
            if n["k"] == "CXXForRangeStmt":
                rt = (n.get("range") or {}).get("t", "")
                if addr_ordered(rt): rep.bad("address-order:%s" % F.q, F.loc(n), "%s iterates over a container ordered by addresses (%s)" % (F.q, rt[:80]))
    for g in db.globals.values():
        t = g["v"].get("t", "") if g.get("v") else ""
        if any(e in t for e in ENGINE + ("mt19937", "minstd_rand")):
            rep.bad("static-engine:%s" % g["q"], g["file"], "the global random engine %s keeps its state between calls" % g["q"])
    rep.count("clock_and_process_sources", nsrc)
    rep.count("tainted_variables", len(T.vars))
    rep.need(nsrc >= 1, "no clock read found: the taint sources are not recognised")


def addr_ordered(t):
    import re
    m = re.search(r"(?:unordered_)?(?:multi)?(?:set|map)<([^,<>]*)", t)
    return bool(m and m.group(1).strip().rstrip(" const").endswith("*"))


class Copies:
    """plain members without a value when an object is handed on"""
    def __init__(self, I, rep, anon): self.I = I; self.rep = rep; self.anon = anon

    def copy(self, F, nm, n, W):
        root, path = nm
        if path or root[0] != "v": return
        v = next((x for x in F.walk() if x["k"] == "VarDecl" and x["d"] == root[1]), None)
        if v is None: return
        q = self.I.rec(v["t"], F.file)
        if q is None: return
        for p, (name, i) in self.I.plain(q).items():
            if not self.I.covered((root, p), W) and p[-1] in self.anon:
                self.rep.bad("uninit-copy:%s:%s" % (F.q, name), F.loc(n), "%s hands on a %s whose member %s may have no value" % (F.q, q.split("@")[0], name))
            else: self.rep.ok()


def init_rules(db, rep):
    B = "BSMPT::Class_Potential_Origin"
    I = initx.Init(db)
    der = db.derived(B)
    rep.need(len(der) >= 7, "model classes not found")
    up_to = {c: db.derived(c) for c in der}
    I.solve({c: sorted(up_to[c]) for c in der})
    rep.count("functions_in_initialisation_analysis", len(I.funcs))
    rep.count("fixpoint_rounds", I.rounds)
    # (a) local objects and variables
    for F in I.funcs:
        if F.d.get("lambda"): continue
        up = I.up[(F.id, None)]
        for (root, path), src in up.items():
            if root[0] != "v": continue
            v = next((x for x in F.walk() if x["k"] == "VarDecl" and x["d"] == root[1]), None)
            if v is None: continue
            if not path:
                if maybe_ok(db, I, F, v, src[0]): continue
                rep.bad("uninit-local:%s:%s" % (F.q, v.get("n")), F.loc(src[0]), "%s may read %s before it has a value" % (F.q, v.get("n")))
            else:
                rep.bad("uninit-member:%s:%s" % (F.q, path[-1].split("@")[-1]), F.loc(src[0]),
                        "%s may read member %s of %s before it has a value" % (F.q, ".".join(p.split("@")[-1] for p in path), v.get("n")))
    # (b) members without a value after construction
    meth = {}
    for F in I.funcs:
        if F.cls and not F.d.get("ctor") and not F.d.get("lambda"): meth.setdefault(I.clsof(F), []).append(F)
    prep = [F for F in db.by_q.get(B + "::initModel", []) if len(F.params) == 1 and "vector" in F.params[0]["t"]]
    rep.need(len(prep) == 1, "Class_Potential_Origin::initModel(parameters) not found")
    anon = {n["d"] for F in I.funcs for n in F.walk() if n["k"] == "MemberExpr" and n.get("dk") == "field" and I.scalar(n.get("t", ""))}
    for q in sorted(I.recs):
        pl = I.plain(q)
        if not pl: continue
        rep.count("classes"); rep.count("plain_members", len(pl))
        uc = I.userctor(q)
        model = q in der
        for c in uc:
            if c.body is None: continue
            w = {("this", x) for x in I.ctor_written(c)}
            miss = [p for p in pl if not I.covered(("this", p), w)]
            rep.ok(len(pl) - len(miss))
            if not miss: continue
            if model:
                m = I.must.get((prep[0].id, q)); u = I.up.get((prep[0].id, q), {})
                if m is None: m = set()
                for p in miss:
                    if ("this", p) in u:
                        rep.bad("uninit-model:%s:%s" % (q, pl[p][0]), F_loc(u[("this", p)], prep[0]), "preparing a %s may read %s before it has a value" % (q, pl[p][0]))
                    elif not I.covered(("this", p), m) and p[-1] in anon:
                        rep.bad("unset-model:%s:%s" % (q, pl[p][0]), c.loc(), "neither the constructor of %s nor the preparation for a parameter point gives %s a value on every path" % (q, pl[p][0]))
                    else: rep.ok()
                continue
            chain = [q]; st = [q]
            while st:
                for b in I.base_of.get(st.pop(), ()): chain.append(b); st.append(b)
            for p in miss:
                hit = None
                for k in chain:
                    for M in meth.get(k, ()):
                        if M.d.get("access") not in (0, None): continue
                        u = I.up.get((M.id, None), {})
                        if ("this", p) in u: hit = (M, u[("this", p)]); break
                    if hit: break
                ext = outside_read(db, I, q, p)
                if hit: rep.bad("uninit-member:%s:%s" % (q, pl[p][0]), hit[0].loc(hit[1][0] if hit[1] and hit[1][0].get("l") else None), "%s may be read by %s before it has a value (constructor at %s leaves it unset)" % (pl[p][0], hit[0].q, c.loc()))
                elif ext: rep.bad("uninit-member:%s:%s" % (q, pl[p][0]), ext, "%s of %s is read outside the class but the constructor at %s leaves it unset" % (pl[p][0], q, c.loc()))
                else: rep.ok()
        if not uc and not model:
            # no constructor of its own: base classes and members by value are judged through the objects that are created
            rep.ok(len(pl))
    # (c) incomplete objects handed on
    C = Copies(I, rep, anon)
    for F in I.funcs:
        W0 = frozenset(("this", p) for p in I.ctor_inits(F)) if F.d.get("ctor") else frozenset()
        I.run(F, None, W0, C)


def F_loc(src, F):
    return F.loc() + (" (line %s)" % src[0].get("l") if src and src[0].get("l") else "")


def outside_read(db, I, q, p):
    """read of the member from outside its class on an object that is not tracked"""
    if len(p) != 1: return None
    for F in I.funcs:
        if F.cls and I.clsof(F) == q: continue
        g, ev, pidx = I.block_events(F)
        for n in F.walk():
            if n["k"] == "MemberExpr" and n.get("d") == p[0] and n.get("c") and n["c"][0]:
                b = skip_casts(n["c"][0])
                if b["k"] == "CXXThisExpr": continue
                nm = I.name(F, n, pidx)
                if nm is not None and nm[0][0] == "v": continue
                par = F.parent(n)
                if par is not None and par["k"] == "BinaryOperator" and par["op"] == "=" and par["c"][0] is n: continue
                return F.loc(n)
    return None


def maybe_ok(db, I, F, v, read):
    """a flagged local: tolerated when a flag written together with it guards the read, or when it is filled by a call"""
    d = v["d"]
    if "/standalone/" in F.file: return True
    g, ev, pidx = I.block_events(F)
    wb = []
    for b, B in g.blocks.items():
        for e in B.elems:
            if e["k"] == "BinaryOperator" and e["op"] == "=" and key_of(e["c"][0]) == d: wb.append(b)
            elif e["k"] in CALLS:
                pt = e.get("pt", []); a = e.get("c", [])
                off = len(a) - len(pt) if e["k"] == "CXXOperatorCallExpr" and len(a) > len(pt) else 0
                for i, x in enumerate(a):
                    if x is not None and i >= off and i - off < len(pt) and pt[i - off].endswith("&") and not pt[i - off].startswith("const ") and key_of(x) == d: return True
    if not wb: return False
    flags = None
    for b in wb:
        s = {key_of(e["c"][0]) for e in g.blocks[b].elems if e["k"] == "BinaryOperator" and e["op"] == "=" and key_of(e["c"][0]) not in (None, d)}
        flags = s if flags is None else flags & s
    w = g.where(read)
    if not flags or w is None: return False
    IN, tab = g.guards()
    for cid, pol in IN.get(w[0], ()):
        if any(key_of(x) in flags for x in walk(tab[cid]) if x["k"] in ("DeclRefExpr", "MemberExpr")): return True
    return False


def run(db, rep):
    taint_rules(db, rep)
    init_rules(db, rep)
