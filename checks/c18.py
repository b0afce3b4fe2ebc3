"""For each of the four build configurations (CMA-ES and NLopt compiled in or not; the other configurations are parsed with the
switch changed in the generated header): (1) constant propagation through the encoding and the decoding of the algorithm switches
for all eight combinations: what comes out is what was asked and is compiled in; (2) every minimization that decodes such switches
is followed along all control-flow paths for every combination of switches, boolean arguments and 1, 2, 3 or 8 directions: an
algorithm is started on a path if and only if it is asked for and compiled in (GSL may stand in for CMA-ES below three directions),
not twice, and on every path on which it does not report failure its result is put into each candidate list; the candidate lists
are filled in the same order; (3) the selection takes the candidate with the smallest value over the whole list and the position
belonging to it; (4) the switches read from the options reach the encoder in the right places, and everyone who holds switches
passes them on."""
import itertools, re
from core import walk, kids, CALLS, CheckError
from cfg import skip_casts, key_of, const_eval
from util import Scenario, program_functions, programs
from paths import Paths, plain, cond_fact
import core

EXPLANATION = "Path-sensitive typestate of the algorithms (asked, started, failed, counted) in every build configuration."
ALG = ("GSL", "CMAES", "NLOPT")
FULL = ("Minimize_gen_all", "MinimizePlane")


def engine_of(db, t, memo):
    """set of algorithms a function can reach"""
    if t.id in memo: return memo[t.id]
    memo[t.id] = set()
    out = set()
    if "LibCMAES" in t.q.split("::") and not t.cls: out.add("CMAES")
    for n in t.walk():
        if n["k"] == "LambdaExpr":
            L = db.funcs.get(n["f"])
            if L is not None: out |= engine_of(db, L, memo)
        if n["k"] in CALLS:
            q = n.get("q") or ""
            if re.match(r"gsl_multimin_", q): out.add("GSL")
            if q.startswith("nlopt::opt::optimize"): out.add("NLOPT")
            if "libcmaes::" in q: out.add("CMAES")
            out |= engine_of_call(db, n, memo)
    memo[t.id] = out
    return out


def engine_of_call(db, n, memo):
    q = (n.get("q") or "").split("::")
    if "LibCMAES" in q and n["k"] == "CallExpr": return {"CMAES"}
    if not n.get("f") or not n.get("own"): return set()
    out = set()
    for t in db.resolve(n["f"]): out |= engine_of(db, t, memo)
    return out


def bases(e):
    e = plain(e)
    if e is None: return []
    if e["k"] in CALLS and (e.get("q") or "").startswith("std::tie"): return [d for a in e.get("c", []) for d in bases(a)]
    while e is not None:
        if e["k"] in ("DeclRefExpr",): return [e["d"]] if e.get("d") else []
        if e["k"] == "MemberExpr":
            b = plain(e["c"][0]) if e.get("c") else None
            if b is None or b["k"] == "CXXThisExpr": return [e["d"]]
            e = b
        elif e["k"] in ("ArraySubscriptExpr", "UnaryOperator"): e = plain(e["c"][0])
        elif e["k"] == "CXXOperatorCallExpr": e = plain(e["c"][0]) if e.get("c") else None
        elif e["k"] == "CXXMemberCallExpr": e = plain(e.get("obj"))
        else: return []
    return []


def refs(e): return {x["d"] for x in walk(e) if x["k"] in ("DeclRefExpr", "MemberExpr") and x.get("d") and not str(x["d"]).startswith("c:")}


class Mini:
    """one minimization function in one configuration"""

    def __init__(self, db, F, memo, sf):
        self.db = db; self.F = F; self.memo = memo; self.sf = set(sf.values()); self.hm = {}; self.cands = set()
        self.wm = {p["d"] for p in F.params if "which" in p["n"].lower()}
        self.unit = [F] + [L for L in db.funcs.values() if L.d.get("lambda") and self.inside(L)]
        self.named = {}         # variable -> lambda id
        self.results()

    def inside(self, L):
        G = L
        while G is not None and G.d.get("lambda"): G = G.owner
        return G is self.F

    def starts(self, n):
        """algorithms a call starts (calls to helpers of the same file are followed instead)"""
        if n["k"] not in CALLS: return set()
        if self.helper(n): return set()
        return engine_of_call(self.db, n, self.memo)

    def helper(self, n):
        if not n.get("own") or not n.get("f") or n["k"] not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return None
        ts = self.db.resolve(n["f"])
        if len(ts) != 1 or ts[0].d.get("lambda") or ts[0] is self.F or "/src/minimizer/" not in ts[0].file: return None
        if id(n) not in self.hm:
            # followed: what chooses between algorithms or fills the candidate lists; the rest is one search
            follow = len(engine_of(self.db, ts[0], self.memo)) > 1
            for a in n.get("c", []):
                if a is None: continue
                if set(bases(a)) & self.cands: follow = True
                for x in walk(a):
                    if x["k"] == "MemberExpr" and x.get("d") in self.sf or x.get("t", "").replace("const ", "").replace(" &", "").endswith("MinimizersToUse") and x["k"] == "DeclRefExpr": follow = True
                    if x["k"] == "DeclRefExpr" and x.get("d") in self.wm: follow = True
            self.hm[id(n)] = ts[0] if follow else None
        return self.hm[id(n)]

    def lam(self, n):
        """lambda object an expression denotes"""
        n = plain(n)
        while n is not None and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr", "CallExpr"):
            a = [x for x in n.get("c", []) if x is not None and x["k"] != "CXXDefaultArgExpr"]
            if n["k"] == "CallExpr" and (n.get("q") or "").split("::")[-1] not in ("ref", "cref", "move", "forward"): return None
            if len(a) != 1: return None
            n = plain(a[0])
        if n is None: return None
        if n["k"] == "LambdaExpr": return self.db.funcs.get(n["f"])
        if n["k"] == "DeclRefExpr" and n.get("d") in self.named: return self.db.funcs.get(self.named[n["d"]])
        return None

    def results(self):
        for G in self.unit:
            for n in G.walk():
                if n["k"] == "VarDecl" and n.get("c") and n["c"][0]:
                    L = self.lam(n["c"][0])
                    if L is not None: self.named[n["d"]] = L.id
        edges = []
        for G in self.unit:
            for n in G.walk():
                k = n["k"]
                if k == "VarDecl":
                    if n.get("c") and n["c"][0] and n["d"] not in self.named:
                        edges.append((n["d"], n["c"][0]))
                        for b in n.get("bindings", []): edges.append((b["d"] if isinstance(b, dict) else b, n["c"][0]))
                elif k in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=" and len(n.get("c", [])) == 2:
                    r = n["c"][1]
                    if "thread" in (n.get("q") or "") or "std::thread" in n.get("t", ""): continue
                    for d in bases(n["c"][0]): edges.append((d, r))
                elif k in CALLS and k != "CXXConstructExpr":
                    pt = n.get("pt", [])
                    for i, a in enumerate(n.get("c", [])):
                        if a is not None and i < len(pt) and pt[i].strip().endswith("&") and not pt[i].strip().endswith("&&") and not pt[i].startswith("const") and k != "CXXOperatorCallExpr":
                            for d in bases(a): edges.append((d, n))
        self.res = {}
        for alg in ALG:
            S = set()
            info = []
            for d, e in edges:
                st = False; us = set()
                for x in walk(e):
                    if x["k"] in CALLS:
                        if alg in engine_of_call(self.db, x, self.memo): st = True
                        L = None
                        if x["k"] == "CXXOperatorCallExpr" and x.get("op") == "()" and x.get("c"): L = self.lam(x["c"][0])
                        if L is not None and any(alg in engine_of_call(self.db, y, self.memo) for y in L.walk() if y["k"] in CALLS): st = True
                    if x["k"] in ("DeclRefExpr",) and x.get("d"): us.add(x["d"])
                if st: S.add(d)
                info.append((d, us))
            ch = True
            while ch:
                ch = False
                for d, us in info:
                    if d not in S and us & S: S.add(d); ch = True
            self.res[alg] = S

    def source(self, e):
        r = refs(e)
        for alg in ALG:
            if r & self.res[alg]: return alg
            if any(x["k"] in CALLS and alg in engine_of_call(self.db, x, self.memo) for x in walk(e)): return alg
        return None

    def relevant(self, n):
        L = self.db.funcs.get(n["f"])
        return L is not None and any(x["k"] in CALLS and (engine_of_call(self.db, x, self.memo) or (x.get("obj") is not None and set(bases(x["obj"])) & self.cands)) for x in L.walk())

    # ------------------------------------------------ state: (env, started, failed, lists)
    def env(self, d): return dict(d[0])

    def begin(self, F, n, d, algs):
        if not algs: return d
        st = dict(d[1])
        for a in algs: st[a] = min(2, st.get(a, 0) + 1)
        return (d[0], tuple(sorted(st.items())), frozenset(d[2] - set(algs)), d[3])

    def event(self, F, n, bind, d):
        k = n["k"]; out = d
        env = None

        def setenv(key, v):
            nonlocal env
            if env is None: env = self.env(out)
            if v is None: env.pop(key, None)
            else: env[key] = v
        if k == "DeclStmt":
            for v in n.get("decls", []):
                if v.get("k") != "VarDecl": continue
                t = v.get("t", "").replace("const ", "").strip()
                if t.endswith("MinimizersToUse") and v.get("c") and v["c"][0] and any((x.get("q") or "").split("::")[-1] == "GetMinimizers" for x in walk(v["c"][0])):
                    for f, val in self.switches.items(): setenv(f, val)
                elif t == "std::thread" or t == "thread": setenv("J" + str(v["d"]), bool(v.get("c") and v["c"][0] and any(x for x in walk(v["c"][0]) if self.lam(x) is not None)))
                elif t in ("bool", "int", "unsigned long", "std::size_t", "unsigned int"):
                    setenv(v["d"], const_eval(v["c"][0], self.env(out), self.db) if v.get("c") and v["c"][0] else None)
        elif k == "BinaryOperator" and n.get("op") == "=":
            kk = key_of(n["c"][0])
            if kk is not None and (kk in dict(d[0]) or n["t"] == "bool"): setenv(kk, const_eval(n["c"][1], self.env(out), self.db))
        elif k in ("CompoundAssignOperator", "UnaryOperator") and (k[0] == "C" or n.get("op") in ("++", "--")):
            kk = key_of(n["c"][0])
            if kk is not None and kk in dict(d[0]):
                o = dict(d[0])
                v = const_eval(dict(n, k="BinaryOperator", op=n["op"][:-1]), o, self.db) if k[0] == "C" else None
                setenv(kk, v)
        elif k in CALLS:
            nm = (n.get("q") or "").split("::")[-1]
            ob = plain(n.get("obj")) if n.get("obj") is not None else None
            if nm == "join" and ob is not None and ob.get("d"): setenv("J" + str(ob["d"]), False)
            if k == "CXXOperatorCallExpr" and n.get("op") == "=" and "thread" in n["c"][0].get("t", ""):
                kk = plain(n["c"][0]).get("d")
                if kk: setenv("J" + str(kk), True)
            pt = n.get("pt", [])
            for i, a in enumerate(n.get("c", [])):
                if a is not None and i < len(pt) and pt[i].endswith("&") and not pt[i].startswith("const"):
                    kk = key_of(a)
                    if kk is not None: setenv(kk, None)
        if env is not None: out = (tuple(sorted(env.items(), key=str)), out[1], out[2], out[3])
        # ---- starts
        if k in CALLS:
            L = self.lam(n["c"][0]) if k == "CXXOperatorCallExpr" and n.get("op") == "()" and n.get("c") else None
            if L is None and k != "CXXOperatorCallExpr" and (n.get("q") or "").split("::")[-1] not in ("ref", "cref", "move", "forward") and not (k == "CXXConstructExpr" and "lambda" in n.get("t", "")):
                for a in n.get("c", []):
                    if a is None: continue
                    x = plain(a)
                    if x is not None and x["k"] == "DeclRefExpr" and x.get("d") in self.named: L = self.db.funcs.get(self.named[x["d"]])
                    elif x is not None and x["k"] == "CallExpr" and (x.get("q") or "").split("::")[-1] in ("ref", "cref", "move"): L = self.lam(x)
            if L is not None: return self.P.call(L, out, dict(bind))
            if self.starts(n): out = self.begin(F, n, out, self.starts(n))
            h = self.helper(n)
            if h is not None and (engine_of(self.db, h, self.memo) or any(a is not None and set(bases(a)) & self.cands for a in n.get("c", []))):
                b = {}
                e2 = self.env(out)
                for p, a in zip(h.params, n.get("c", [])):
                    if a is None: continue
                    bs = bases(a)
                    if bs: b[p["d"]] = bind.get(bs[0], bs[0])
                    v = const_eval(a, self.env(out), self.db)
                    if v is not None: e2[p["d"]] = v
                    s = self.source(a)
                    if s: b["src:" + str(p["d"])] = s
                out = (tuple(sorted(e2.items(), key=str)),) + out[1:]
                return self.P.call(h, out, b)
            nm = (n.get("q") or "").split("::")[-1]
            if nm in ("push_back", "emplace_back", "insert", "push") and n.get("obj") is not None:
                bs = bases(n["obj"])
                r = bind.get(bs[0], bs[0]) if bs else None
                if r in self.cands:
                    src = None
                    for a in n.get("c", []):
                        if a is None: continue
                        src = src or self.source(a)
                        for x in refs(a): src = src or bind.get("src:" + str(x))
                    ls = dict(out[3]); o = ls.get(r, ())
                    front = nm == "insert" and n.get("c") and any((x.get("q") or "").split("::")[-1] in ("begin", "cbegin") for x in walk(n["c"][0]))
                    ls[r] = (src or "start",) + o if front else o + (src or "start",)
                    if len(ls[r]) > 12: ls[r] = ls[r][:12]
                    out = (out[0], out[1], out[2], tuple(sorted(ls.items())))
        if k == "LambdaExpr" and self.relevant(n):
            p = F.parent(n)
            L = self.db.funcs.get(n["f"])
            if L is not None and L.id not in self.named.values(): return self.P.call(L, out, dict(bind))
        return None if out is d else {out}

    def edge(self, F, c, p, d, bind):
        env = self.env(d)
        v = const_eval(c, env, self.db)
        if isinstance(v, (bool, int)) and not isinstance(v, tuple): return d if bool(v) == p else None
        x = plain(c); t = p
        while x is not None and x["k"] == "UnaryOperator" and x.get("op") == "!": x = plain(x["c"][0]); t = not t
        leaf = x["k"] in ("DeclRefExpr", "MemberExpr") and x.get("t", "").replace("const ", "") == "bool"
        if x.get("op") in ("==", "!=") and len(x.get("c", [])) == 2:
            leaf = True
            for a, b in ((x["c"][0], x["c"][1]), (x["c"][1], x["c"][0])):
                cv = const_eval(b, {}, self.db)
                if cv is False and isinstance(cv, bool): t = not t
            if x["op"] == "!=": t = not t
        if leaf:
            s = self.source(x)
            for y in refs(x): s = s or bind.get("src:" + str(y))
            if s and t is False:
                st = dict(d[1]); st.pop(s, None) if st.get(s) else None
                return (d[0], tuple(sorted(st.items())), d[2] | {s}, d[3])
        return d

    def hook(self, n, env):
        q = (n.get("q") or "").split("::")[-1]
        if q == "get_nVEV": return self.nvev
        if q == "joinable" and n.get("obj") is not None: return env.get("J" + str(plain(n["obj"]).get("d")))
        if n.get("own") and n.get("f"):
            ts = self.db.resolve(n["f"])
            if len(ts) == 1 and ts[0].file == self.F.file and len(ts[0].params) == len(n.get("c", [])):
                return self.sc.summary(n, env) if self.sc.summary(n, env) != "DEAD" else None
        return None


def switch_fields(db):
    r = [r for q, rr in db.rec_by_q.items() for r in rr if q.split("::")[-1] == "MinimizersToUse"]
    if not r: raise CheckError("record MinimizersToUse not found")
    out = {}
    for f in r[0]["fields"]:
        for a in ALG:
            if a in f["n"].upper(): out[a] = f["d"]
    if len(out) != 3: raise CheckError("switches of MinimizersToUse not found")
    return out


def encode(db):
    f = [F for F in db.funcs.values() if F.n == "CalcWhichMinimizer"]
    if not f: raise CheckError("function CalcWhichMinimizer not found")
    return f[0]


def alg_of(name):
    for a in ALG:
        if a in name.upper(): return a
    return None


def pushes(M):
    """local containers of the function that are filled"""
    out = {}
    for G in M.unit + [h for n in M.F.walk() if n["k"] in CALLS for h in [M.helper(n)] if h]:
        for n in G.walk():
            if n["k"] in CALLS and (n.get("q") or "").split("::")[-1] in ("push_back", "emplace_back", "insert", "push") and n.get("obj") is not None:
                for d in bases(n["obj"]): out.setdefault(d, []).append((G, n))
    return out


def run(db, rep):
    R = core.REPO
    files = [R + "/src/minimizer/Minimizer.cpp", R + "/src/minimizer/MinimizePlane.cpp"]
    for f in files:
        if f not in db.files: raise CheckError("%s not found" % f)
    for cm in (False, True):
        for nl in (True, False):
            on = tuple(m for m, v in (("libcmaes_FOUND", cm), ("NLopt_FOUND", nl)) if v)
            off = tuple(m for m, v in (("libcmaes_FOUND", cm), ("NLopt_FOUND", nl)) if not v)
            try: V = db if (cm, nl) == (False, True) else db.variant(files, on, off)
            except CheckError as e:
                # a tree that does not compile in another configuration has nothing to decide there
                rep.sample("not analysed with %s: %s" % (on, str(e)[:200])); continue
            rep.count("build_configurations")
            config(V, rep, {"GSL": True, "CMAES": cm, "NLOPT": nl}, "CMA-ES %s, NLopt %s" % ("on" if cm else "off", "on" if nl else "off"))
    forwarding(db, rep)


def config(db, rep, comp, cname):
    sf = switch_fields(db)
    E = encode(db)
    G = [F for F in db.funcs.values() if F.n == "GetMinimizers"]
    if not G: raise CheckError("function GetMinimizers not found")
    G = G[0]
    order = [alg_of(p["n"]) for p in E.params]
    if sorted(order, key=str) != sorted(ALG): raise CheckError("parameters of CalcWhichMinimizer not understood")
    ctor = {F.id: F for F in db.funcs.values() if F.cls and F.cls.endswith("MinimizersToUse")}
    code = {}
    for combo in itertools.product((False, True), repeat=3):
        asked = dict(zip(order, combo))
        with Scenario(db, {}) as S:
            rs = S.returns(E, {p["d"]: v for p, v in zip(E.params, combo)})
        w = rs[0][1] if len(rs) == 1 else None
        if w is None: rep.sample("not decided: encoding of " + show(asked)); continue
        w = int(w)
        if w in code:
            rep.bad("encode", E.loc(), "the switches %s and %s have the same code %d" % (show(asked), show(code[w]), w))
        code[w] = asked
        rep.ok(); rep.count("decodings")
        with Scenario(db, {}) as S:
            g, IN, tr = S.reach(G, {G.params[0]["d"]: w})
            got = None
            for b, e in IN.items():
                if b == g.exit: continue
                o = tr(g.blocks[b], dict(e))
                for n in g.blocks[b].elems:
                    if n["k"] == "ReturnStmt" and n.get("c") and n["c"][0]:
                        r = made(db, ctor, sf, n["c"][0], o)
                        got = r if got is None or got == r else {}
        want = {a: asked[a] and comp[a] for a in ALG}
        if not got or any(got.get(a) is None for a in ALG): rep.sample("not decided: decoding of " + show(asked)); continue
        if {a: bool(got[a]) for a in ALG} != want:
            rep.bad("decode", G.loc(), "%s asked (%s): %s decides on %s" % (show(asked), cname, G.q, show(got)))
    if len(code) != 8: return
    # ---- the minimizations
    memo = {}; done = set()
    for F in list(db.funcs.values()):
        if F.d.get("lambda") or "/src/minimizer/" not in F.file: continue
        if not any("which" in p["n"].lower() for p in F.params) or F is G: continue
        wm = {p["d"] for p in F.params if "which" in p["n"].lower()}
        if not any(x["k"] == "DeclRefExpr" and x.get("d") in wm for x in F.walk()): continue
        # those that only hand the switches on are covered by the last part
        if any(n["k"] in CALLS and n.get("own") and n.get("f") and any("which" in p["n"].lower() for t in db.resolve(n["f"]) if t is not G for p in t.params) for n in F.walk()): continue
        done.add(F.n)
        minimization(db, rep, F, memo, sf, comp, code, cname)
    if not set(FULL) <= done: raise CheckError("minimization %s not found" % sorted(set(FULL) - done))


def made(db, ctor, sf, e, env):
    e = plain(e)
    while e is not None and e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and len(e.get("c", [])) == 1: e = plain(e["c"][0])
    if e is None: return {}
    inv = {v: k for k, v in sf.items()}
    if e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and e.get("f") in ctor:
        C = ctor[e["f"]]; out = {}
        for i in C.d.get("inits", ()):
            f = i.get("d") or i.get("field")
            if f in inv and i.get("init") is not None:
                pe = {p["d"]: const_eval(a, env, db) for p, a in zip(C.params, e["c"]) if a is not None}
                x = i["init"]
                while x is not None and x["k"] == "InitListExpr" and len(x.get("c", [])) == 1: x = x["c"][0]
                out[inv[f]] = const_eval(x, pe, db)
        return out
    if e["k"] == "DeclRefExpr": return {a: env.get(f) for a, f in sf.items()}
    return {}


def show(a):
    s = [k for k in ALG if a.get(k)]
    return "+".join(s) if s else "none"


def minimization(db, rep, F, memo, sf, comp, code, cname):
    M = Mini(db, F, memo, sf)
    P = pushes(M)
    params = {p["d"] for p in F.params}
    M.cands = set()
    for d, l in P.items():
        if d in params: continue
        if any(M.source(a) for G, n in l for a in n.get("c", []) if a is not None): M.cands.add(d)
    M.hm = {}
    used = {a for G in M.unit for n in G.walk() if n["k"] in CALLS for a in engine_of_call(db, n, memo)}
    bools = [p for p in F.params if p["t"].replace("const", "").replace("&", "").strip() == "bool"]
    wm = [p for p in F.params if "which" in p["n"].lower()]
    names = {n["d"]: n["n"] for n in F.walk() if n["k"] == "VarDecl"}
    full = F.n in FULL
    rep.count("minimizations")
    seen = set()

    def bad(key, text):
        if key in seen: return
        seen.add(key); rep.bad("%s|%s" % (F.q, key), F.loc(), text)
    for w, asked in code.items():
        for nv in (1, 2, 3, 8):
            for bv in itertools.product((False, True), repeat=len(bools)):
                M.nvev = nv
                M.switches = {sf[a]: asked[a] and comp[a] for a in ALG}
                M.P = Paths(db, M.event, M.edge)
                env = {p["d"]: v for p, v in zip(bools, bv)}
                for p in wm: env[p["d"]] = w
                old = getattr(db, "call_hook", None); M.sc = Scenario(db, {}); db.call_hook = M.hook
                try:
                    r = M.P.run(F, {((tuple(sorted(env.items(), key=str)), (), frozenset(), ()), frozenset())})
                finally: db.call_hook = old
                rep.ok(); rep.count("switch_scenarios"); rep.count("path_states", sum(len(x) for x in r["at"].values()))
                say = "%s asked (%s, %d directions%s)" % (show(asked), cname, nv, "".join(", %s %s" % (p["n"], str(v).lower()) for p, v in zip(bools, bv)))
                for d, fs in r["exit"]:
                    st = dict(d[1]); fail = d[2]
                    for a in ALG:
                        want = asked[a] and comp[a]
                        did = st.get(a, 0) > 0 or a in fail and want
                        sub = nv < 3 and asked["CMAES"] and comp["CMAES"]
                        if st.get(a, 0) and not want and not (a == "GSL" and sub): bad("off|" + a, "%s: %s starts the %s search although it is switched off" % (say, F.q, a))
                        if want and not did and (full or a in used) and not (a == "CMAES" and sub): bad("on|" + a, "%s: %s does not start the %s search" % (say, F.q, a))
                        if st.get(a, 0) > 1: bad("twice|" + a, "%s: %s starts the %s search more than once" % (say, F.q, a))
                        if st.get(a, 0) == 1 and a not in fail:
                            ls = dict(d[3])
                            for c in M.cands:
                                k = ls.get(c, ()).count(a)
                                if k != 1: bad("count|%s|%s" % (a, names.get(c, c)), "%s: the result of the %s search is entered %d times into the candidates '%s' of %s" % (say, a, k, names.get(c, c), F.q))
                            if not M.cands: bad("none|" + a, "%s: %s keeps no candidate of the %s search" % (say, F.q, a))
                    ls = dict(d[3])
                    if len({ls.get(c, ()) for c in M.cands}) > 1:
                        bad("order", "%s: the candidate lists of %s are filled in different order: %s" % (say, F.q, "; ".join("%s = %s" % (names.get(c, c), ",".join(ls.get(c, ()))) for c in sorted(M.cands, key=str))))
    if full: selection(db, rep, F, M, names)


def element(e):
    """(container, index node) of an element access"""
    e = plain(e)
    if e is None: return None
    if e["k"] == "CXXOperatorCallExpr" and e.get("op") == "[]":
        b = bases(e["c"][0]); return (b[0], plain(e["c"][1])) if b else None
    if e["k"] == "CXXMemberCallExpr" and (e.get("q") or "").split("::")[-1] == "at" and e.get("c"):
        b = bases(e["obj"]); return (b[0], plain(e["c"][0])) if b else None
    if e["k"] == "ArraySubscriptExpr":
        b = bases(e["c"][0]); return (b[0], plain(e["c"][1])) if b else None
    return None


def selection(db, rep, F, M, names):
    """the index of the smallest value is determined over the whole list and used for every list"""
    vals = set(); best = set()
    for n in F.walk():
        if n["k"] == "IfStmt" and n.get("cond") is not None:
            c = plain(n["cond"])
            if c.get("op") not in ("<", ">", "<=", ">="): continue
            a, b = element(c["c"][0]), element(c["c"][1])
            if not a or not b or a[0] != b[0] or a[0] not in M.cands: continue
            ia, ib = a[1].get("d"), b[1].get("d")
            if not ia or not ib: continue
            asg = [x for x in walk(n["then"]) if x["k"] == "BinaryOperator" and x.get("op") == "="] if n.get("then") else []
            for x in asg:
                l, r = plain(x["c"][0]).get("d"), plain(x["c"][1]).get("d")
                if {l, r} != {ia, ib}: continue
                rep.ok(); rep.count("selections")
                less = c["op"] in ("<", "<=")
                # new index r replaces l if value[r] < value[l]
                small = ia if less else ib
                if small != r: rep.bad("selection|" + F.q, F.loc(n), "%s keeps the candidate with the higher potential value" % F.q)
                best.add(l); vals.add(a[0])
                loop(db, rep, F, M, n, r, l, a[0], names)
    for n in F.walk():
        if n["k"] in CALLS and (n.get("q") or "").split("::")[-1] in ("max_element",):
            if any(set(bases(a)) & M.cands for a in n.get("c", []) if a is not None): rep.bad("selection|" + F.q, F.loc(n), "%s takes the candidate with the highest potential value" % F.q)
    if best:
        for n in F.walk():
            e = element(n) if n["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "ArraySubscriptExpr") else None
            if e and e[0] in M.cands and e[0] not in vals or e and e[0] in vals and not inloop(F, n):
                if inloop(F, n): continue
                ix = e[1]
                if logging(F, n): continue
                rep.ok(); rep.count("selected_elements")
                if ix.get("d") not in best and not copies(F, ix.get("d"), best):
                    rep.bad("position|" + F.q, F.loc(n), "%s uses an element of '%s' other than that of the candidate with the lowest potential value" % (F.q, names.get(e[0], e[0])))


def copies(F, d, best):
    for n in F.walk():
        if n["k"] == "VarDecl" and n["d"] == d and n.get("c") and n["c"][0]: return bool(refs(n["c"][0]) & best)
    return False


def logging(F, n):
    for a in F.ancestors(n):
        if a["k"] in CALLS and (a.get("op") == "<<" or "Logger" in (a.get("q") or "")): return True
    return False


def inloop(F, n): return any(a["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") for a in F.ancestors(n))


def loop(db, rep, F, M, n, i, m, lst, names):
    """for (i = 0 or 1; i < list.size(); i++) with m = 0 before"""
    L = next((a for a in F.ancestors(n) if a["k"] in ("ForStmt", "WhileStmt")), None)
    mv = next((x for x in F.walk() if x["k"] == "VarDecl" and x["d"] == m), None)
    iv = next((x for x in F.walk() if x["k"] == "VarDecl" and x["d"] == i), None)
    m0 = const_eval(mv["c"][0], {}, db) if mv is not None and mv.get("c") and mv["c"][0] else None
    i0 = const_eval(iv["c"][0], {}, db) if iv is not None and iv.get("c") and iv["c"][0] else None
    if iv is not None and isinstance(i0, int) and isinstance(m0, int):
        if not (i0 == 0 or m0 == 0 and i0 == 1 or m0 == i0 == 0):
            rep.bad("range|" + F.q, F.loc(iv), "%s does not compare all candidates: it starts at %d with candidate %d as the best" % (F.q, i0, m0))
    if L is None or L.get("cond") is None: return
    c = plain(L["cond"])
    if c.get("op") in ("<", ">", "!=", "<=", ">="):
        a, b = plain(c["c"][0]), plain(c["c"][1])
        def shift(x):
            x = plain(x)
            if x["k"] == "BinaryOperator" and x.get("op") in ("+", "-"):
                for y, z in ((x["c"][0], x["c"][1]), (x["c"][1], x["c"][0])):
                    if plain(y).get("d") == i:
                        k = const_eval(z, {}, db)
                        return k if isinstance(k, int) and x["op"] == "+" else 0
            return 0 if x.get("d") == i else None
        if shift(a) is None: a, b = b, a
        if shift(a) is None: return
        if shift(a) > 0 and size_of(b) in M.cands and c["op"] in ("<", ">", "!="):
            rep.bad("range|" + F.q, F.loc(L), "%s does not compare the last candidates" % F.q)
        op = c["op"]; bound = b
        if b["k"] == "BinaryOperator" and b.get("op") in ("-", "+"):
            k = const_eval(b["c"][1], {}, db); k = k if b["op"] == "+" else (-k if isinstance(k, int) else None)
            if isinstance(k, int) and size_of(b["c"][0]) in M.cands and k < (0 if op in ("<", ">", "!=") else -1):
                rep.bad("range|" + F.q, F.loc(L), "%s does not compare the last candidates" % F.q)


def size_of(e):
    e = plain(e)
    if e["k"] == "CXXMemberCallExpr" and (e.get("q") or "").split("::")[-1] == "size":
        b = bases(e["obj"]); return b[0] if b else None
    return None


# ------------------------------------------------------------------ who passes switches on
def forwarding(db, rep):
    E = encode(db)
    order = [alg_of(p["n"]) for p in E.params]
    WH = lambda n: n is not None and re.sub("_", "", n).lower().startswith("whichminimizer")
    for F in db.funcs.values():
        if "/tests/" in F.file or "standalone/" in F.file: continue
        for n in F.walk():
            if n["k"] in CALLS and n.get("own") and n.get("f"):
                for t in db.resolve(n["f"]):
                    if t.id == E.id:
                        if F.d.get("implicit"): continue
                        for p, a, al in zip(E.params, n.get("c", []), order):
                            if a is None or a["k"] == "CXXDefaultArgExpr": continue
                            x = plain(a); nm = (x.get("n") or (x.get("q") or "").split("::")[-1]) if x["k"] in ("DeclRefExpr", "MemberExpr") else None
                            rep.ok(); rep.count("switches_encoded")
                            if nm and alg_of(nm) and alg_of(nm) != al: rep.bad("swap|" + F.q + "|" + F.file.split("/")[-1], F.loc(n), "%s passes '%s' as the switch of %s" % (F.q, nm, al))
                    i = next((i for i, p in enumerate(t.params) if WH(p["n"])), None)
                    if i is None: continue
                    held = holds(db, F, WH)
                    if not held: continue
                    a = n.get("c", [])
                    if n["k"] == "CXXOperatorCallExpr" and len(a) == len(t.params) + 1: a = a[1:]
                    if i >= len(a) or a[i] is None: continue
                    rep.ok(); rep.count("switches_passed_on")
                    if not any(x["k"] in ("DeclRefExpr", "MemberExpr") and (x.get("d") in held or WH(x.get("n") or (x.get("q") or "").split("::")[-1])) and "Default" not in (x.get("n") or x.get("q") or "") for x in walk(a[i])):
                        rep.bad("passed|%s|%s" % (F.q, t.q.split("::")[-1]), F.loc(n), "%s calls %s with algorithm switches that are not the ones it holds" % (F.q, t.q.split("::")[-1]))
            if n["k"] == "InitListExpr" and n.get("t"):
                q = n["t"].replace("const ", "").replace("struct ", "").strip()
                rr = db.rec_by_q.get(q) or next((r for k, r in db.rec_by_q.items() if k.endswith("::" + q)), None)
                if not rr: continue
                for f, a in zip(rr[0]["fields"], n.get("c", [])):
                    if WH(f["n"]) and a is not None:
                        rep.ok(); rep.count("switches_passed_on")
                        held = holds(db, F, WH)
                        if held and not any(x["k"] in ("DeclRefExpr", "MemberExpr") and (x.get("d") in held or WH(x.get("n") or (x.get("q") or "").split("::")[-1])) for x in walk(a)):
                            rep.bad("passed|%s|%s" % (F.q, q), F.loc(n), "%s stores algorithm switches in %s that are not the ones it holds" % (F.q, q))
    # options -> switches of the same name
    for main in programs(db):
        got = False
        for F in program_functions(db, main):
            for n in F.walk():
                if n["k"] == "BinaryOperator" and n.get("op") == "=":
                    l = plain(n["c"][0])
                    if l["k"] != "MemberExpr" or l.get("t") != "bool": continue
                    nm = l.get("n") or (l.get("q") or "").split("::")[-1]
                    if not nm.lower().startswith("use") or not alg_of(nm): continue
                    s = [x["v"] for x in walk(n["c"][1]) if x["k"] == "StringLiteral"]
                    for x in s:
                        if alg_of(x):
                            rep.ok(); rep.count("switch_options")
                            if alg_of(x) != alg_of(nm): rep.bad("option|" + main.file.split("/")[-1], F.loc(n), "option %s sets the switch %s" % (x, nm))


def recs(db, WH):
    """record name -> fields that hold algorithm switches"""
    if "_whrecs" not in db.__dict__:
        m = {}
        for q, rr in db.rec_by_q.items():
            for r in rr:
                fs = {f["d"] for f in r["fields"] if WH(f["n"])}
                if fs:
                    for k in (q, q.split("::")[-1]): m.setdefault(k, set()).update(fs)
        db._whrecs = m
    return db._whrecs


def holds(db, F, WH):
    """switch values in reach of a function: parameters, own variables, fields of the class"""
    out = set(); G = F
    while G is not None:
        out |= {p["d"] for p in G.params if WH(p["n"])}
        for n in G.walk():
            if n["k"] == "VarDecl" and WH(n["n"]): out.add(n["d"])
            if n["k"] == "MemberExpr" and WH(n.get("n") or (n.get("q") or "").split("::")[-1]): out.add(n["d"])
        for t in [p["t"] for p in G.params] + [n["t"] for n in G.walk() if n["k"] == "VarDecl"]:
            q = t.replace("const ", "").replace("struct ", "").replace("&", "").replace("*", "").strip()
            out |= recs(db, WH).get(q, set())
        if G.cls: out |= {d for d, f in db.fields(G.cls).items() if WH(f["n"])}
        G = G.owner if G.d.get("lambda") else None
    return out
