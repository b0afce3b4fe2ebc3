"""Lockset and thread-lifetime analysis. For every std::thread created in the library: the thread's accesses (stores and
reads, followed through lambdas, helpers and non-const methods with reference parameters mapped back to the creator's
objects) are computed together with the mutexes held at each access (scoped lock objects, lock()/unlock(), constant
arguments such as UseLock propagated). Two accesses of concurrently running threads, or of a thread and its creator
between creation and join, to the same non-atomic object with at least one store must hold a common mutex. On every
path from the creation the thread is joined before the function returns and before an object captured by reference
leaves its scope; no thread is detached. Globals and statics stored by code reachable from a thread are treated the
same way."""
from core import walk, kids, CALLS, CheckError
from cfg import CFG, const_eval, key_of, skip_casts, ccp_reach
from effects import stores, Roots

EXPLANATION = "Lockset and thread lifetime dataflow over all thread entry points and their creators."
HOLDERS = ("lock_guard<", "unique_lock<", "scoped_lock<", "shared_lock<")
SYNC = ("std::atomic<", "std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::condition_variable", "std::once_flag",
        "std::timed_mutex", "std::atomic_")


def bare(t):
    t = t.strip()
    while t.endswith("&") or t.endswith("*"): t = t[:-1].strip()
    return t[6:] if t.startswith("const ") else t


def is_sync(t): return bare(t).startswith(SYNC)
def is_holder(t): return any(bare(t).startswith("std::" + h) for h in HOLDERS)


class R2(Roots):
    """roots, following own functions that return a reference to a static object"""

    def roots(self, n, seen=frozenset(), deref=False):
        m = skip_casts(n)
        if m is not None and m["k"] in ("CallExpr", "CXXMemberCallExpr") and m.get("own") and m.get("lv") and m.get("f"):
            out = set()
            for t in self.db.resolve(m["f"]):
                if t.id in seen or t.body is None: continue
                sub = R2(self.db, t)
                for r in t.walk():
                    if r["k"] == "ReturnStmt" and r.get("c") and r["c"][0]:
                        for x in sub.roots(r["c"][0], seen | {t.id}):
                            if x[0] in ("static", "global"): out.add(x)
            if out: return out
        return Roots.roots(self, n, seen, deref)


class Analyser:
    def __init__(self, db):
        self.db = db; self.memo = {}; self.cfgs = {}; self.stack = []

    def cfg(self, F):
        if F.id not in self.cfgs: self.cfgs[F.id] = CFG(F)
        return self.cfgs[F.id]

    # ------------------------------------------------------------ locks
    def scope_of(self, F, n):
        """(compound, index of the statement in it) lexically containing node n"""
        prev = n
        for a in F.ancestors(n):
            if a["k"] in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "IfStmt", "WhileStmt", "SwitchStmt"):
                ch = list(kids(a))
                idx = next((i for i, x in enumerate(ch) if x is prev), 0)
                if not (prev["k"] == "VarDecl"): return a, idx
            prev = a
        return F.body, 0

    def lock_events(self, F, R):
        """node -> list of (+1/-1, holder, mutex roots)"""
        ev = {}; hold = {}
        for n in F.walk():
            if n["k"] == "VarDecl" and is_holder(n["t"]):
                d = n["d"]; hold[d] = n
                ms = frozenset()
                if n.get("c") and n["c"][0]:
                    c = skip_casts(n["c"][0]); ms = self.mutexes(R, c)
                ev.setdefault(id(self.stmt(F, n)), []).append((1 if ms else -1, d, ms))
            elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and n.get("c") and is_holder(n["c"][0].get("t", "")):
                d = key_of(n["c"][0]); ms = self.mutexes(R, skip_casts(n["c"][1]))
                ev.setdefault(id(n), []).append((1 if ms else -1, d, ms))
            elif n["k"] == "CXXMemberCallExpr" and n.get("obj") is not None:
                m = (n.get("q") or "").split("::")[-1]; t = n["obj"].get("t", "")
                if is_sync(t) or "mutex" in (n.get("q") or ""):
                    rts = frozenset(R.roots(n["obj"]))
                    if m == "lock": ev.setdefault(id(n), []).append((1, ("raw", rts), rts))
                    elif m == "unlock": ev.setdefault(id(n), []).append((-1, ("raw", rts), rts))
                elif is_holder(t):
                    d = key_of(n["obj"])
                    if m == "lock":
                        v = hold.get(d); c = skip_casts(v["c"][0]) if v and v.get("c") and v["c"][0] else None
                        ev.setdefault(id(n), []).append((1, d, self.mutexes(R, c, True)))
                    elif m in ("unlock", "release"): ev.setdefault(id(n), []).append((-1, d, frozenset()))
        return ev, hold

    def stmt(self, F, v):
        p = F.parent(v)
        return p if p is not None and p["k"] == "DeclStmt" else v

    def mutexes(self, R, c, deferred=False):
        while c is not None and c["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr") and \
                len(c.get("c", [])) == 1 and c["c"][0] is not None and is_holder(c["c"][0].get("t", "")):
            c = skip_casts(c["c"][0])
        if c is None or c["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"): return frozenset()
        out = set()
        for a in c.get("c", []):
            if a is None: continue
            t = a.get("t", "")
            if "defer_lock" in t and not deferred: return frozenset()
            if "try_to_lock" in t: return frozenset()
            if is_sync(t): out |= set(R.roots(a))
        return frozenset(out)

    def locksets(self, F, env, R):
        """function node -> frozenset of mutex roots held when it is evaluated; None when not reachable"""
        g = self.cfg(F)
        ev, hold = self.lock_events(F, R)
        if not g.ok: return lambda n: frozenset()
        INc, tr = ccp_reach(g, env, self.db)
        IN = {g.entry: frozenset()}; work = [g.entry]

        def xfer(B, s, upto=None):
            for i, n in enumerate(B.elems):
                if upto is not None and i >= upto: break
                for sg, d, ms in ev.get(id(n), ()):
                    s = frozenset(x for x in s if x[0] != d)
                    if sg > 0: s = s | {(d, m) for m in ms}
            return s
        while work:
            b = work.pop(); o = xfer(g.blocks[b], IN[b])
            e = tr(g.blocks[b], INc.get(b, {}))
            cv = const_eval(g.blocks[b].cond, e, self.db) if g.blocks[b].cond is not None else None
            for s, c, p in g.edges(b):
                if s not in INc: continue
                if isinstance(p, bool) and isinstance(cv, bool) and cv != p: continue
                n = o if s not in IN else IN[s] & o
                if s not in IN or n != IN[s]: IN[s] = n; work.append(s)

        def at(n):
            w = g.where(n)
            if w is None: return frozenset()
            if w[0] not in IN: return None
            s = xfer(g.blocks[w[0]], IN[w[0]], w[1])
            out = set()
            for d, m in s:
                if isinstance(d, tuple): out.add(m); continue
                v = hold.get(d)
                if v is None: continue
                comp, vi = self.scope_of(F, self.stmt(F, v))
                x = n; ok = False
                for a in F.ancestors(n):
                    if a is comp:
                        ch = list(kids(a)); xi = next((i for i, y in enumerate(ch) if y is x), -1)
                        ok = xi >= vi
                        break
                    x = a
                if ok: out.add(m)
            return frozenset(out)
        return at

    # ------------------------------------------------------------ accesses
    def accesses(self, F, env=(), depth=0):
        """list of (root, 'r'/'w', locks, where, what) in terms of F's parameters / this / captured variables"""
        key = (F.id, tuple(sorted(env, key=str)))
        if key in self.memo: return self.memo[key]
        if depth > 10 or F.id in self.stack: return []
        self.stack.append(F.id)
        out = []
        R = R2(self.db, F)
        e = dict(env)
        at = self.locksets(F, e, R)
        own = {n["d"] for n in F.walk() if n["k"] == "VarDecl" and not n.get("static")}
        copied = set()
        if F.d.get("lambda") and F.owner is not None:
            for n in F.owner.walk():
                if n["k"] == "LambdaExpr" and n["f"] == F.id.split("@/")[0] or (n["k"] == "LambdaExpr" and n["f"] == F.id):
                    copied |= {c["d"] for c in n.get("caps", ()) if c.get("d") and not c.get("ref")}
        valparams = {p["d"] for p in F.params if not p["t"].rstrip().endswith(("&", "*")) and "_ptr<" not in p["t"] and "reference_wrapper" not in p["t"]}

        def shared(r):
            if r[0] in ("global", "static", "this"): return True
            if r[0] == "local": return r[1] not in own and r[1] not in copied
            if r[0] == "parm": return r[1] not in valparams and r[1] not in copied
            return False

        skip = set()     # nodes that only name an object handed on
        handed = {}
        addr = set()
        # calls into own code: translate their accesses
        for n in F.calls():
            tgs = self.targets(F, n)
            if not tgs: continue
            args = n.get("c", [])
            isop = n["k"] == "CXXOperatorCallExpr"
            for t, objnode, argl in tgs:
                binds = {}; env2 = []
                descend = bool(t.d.get("lambda"))
                ctor = t.d.get("ctor")
                for p, a in zip(t.params, argl):
                    if a is None: continue
                    cv = const_eval(a, e, self.db)
                    if isinstance(cv, bool): env2.append((p["d"], cv))
                    pt = p["t"].rstrip()
                    if pt.endswith("&") or pt.endswith("*") or "_ptr<" in pt or "reference_wrapper" in pt:
                        rr = {r for r in R.roots(a, frozenset(), pt.endswith("*")) if shared(r)}
                        binds[p["d"]] = rr
                        if rr and not pt.startswith("const "): descend = True
                orr = set()
                if objnode is not None:
                    orr = {r for r in R.roots(objnode, frozenset(), bool(n.get("arrow"))) if shared(r)}
                    if orr and not t.d.get("const"): descend = True
                if ctor: descend = True if any(binds.values()) else descend
                if not descend or t.body is None: continue
                if t.file != F.file and all(x[0] == "this" for x in orr) and not any(binds.values()) and t.d.get("const"): continue
                sub = self.accesses(t, tuple(env2), depth + 1)
                L = at(n)
                if L is None: continue
                consumed = set()
                for r, kind, lk, where, what in sub:
                    rs = self.translate(r, binds, orr, t)
                    lks = set(L)
                    for m in lk: lks |= self.translate(m, binds, orr, t)
                    for x in rs:
                        if shared(x): out.append((x, kind, frozenset(lks), where, what))
                for p, a in zip(t.params, argl):
                    if a is not None and p["d"] in binds:
                        b = skip_casts(a)
                        while b is not None and b["k"] == "UnaryOperator" and b["op"] in ("&", "*"): b = skip_casts(b["c"][0])
                        if b is not None: skip.add(id(b))
                if objnode is not None and orr:
                    b = skip_casts(objnode)
                    skip.add(id(b))
                handed[id(n)] = True
        # callbacks with a void* parameter: bound to the shared objects whose address is taken here
        taken = set()
        for n in F.walk():
            if n["k"] == "UnaryOperator" and n["op"] == "&":
                for r in R.roots(n["c"][0]):
                    if shared(r) and not is_sync(n["c"][0].get("t", "")): taken.add(r)
        if taken:
            for n in F.walk():
                if n["k"] == "DeclRefExpr" and n.get("dk") == "fn" and n.get("d") in self.db.funcs:
                    p = F.parent(n)
                    if p is not None and p["k"] in CALLS and p.get("f") == n.get("d"): continue
                    t = self.db.funcs[n["d"]]
                    binds = {q["d"]: set(taken) for q in t.params if q["t"].replace(" ", "") in ("void*",)}
                    if not binds: continue
                    L = at(n) or frozenset()
                    for r, kind, lk, where, what in self.accesses(t, (), depth + 1):
                        for x in self.translate(r, binds, set(), t):
                            if shared(x): out.append((x, kind, L, where, what))
        for n, lv, kind, rts in stores(self.db, F):
            if id(n) in handed and kind.startswith(("passed", "non-const", "operator", "address")): continue
            if is_sync(lv.get("t", "")) or is_holder(lv.get("t", "")): continue
            rts = R.roots(lv, frozenset(), kind.startswith("non-const") and bool(n.get("arrow")) or kind == "delete")
            hit = [r for r in rts if shared(r)]
            if not hit: continue
            L = at(n)
            if L is None: continue
            for r in hit: out.append((r, "w", L, F.loc(n), "%s (%s)" % (self.name(r), kind)))
        for n in F.walk():
            if id(n) in skip: continue
            if n["k"] in ("DeclRefExpr", "MemberExpr"):
                t = n.get("t", "")
                if is_sync(t) or is_holder(t) or n.get("dk") not in ("var", "parm", "field", "global"): continue
                if t.startswith("const ") and n.get("dk") in ("global",): continue
                p = F.parent(n)
                if n["k"] == "DeclRefExpr" and p is not None and p["k"] == "MemberExpr" and p.get("dk") == "field" and is_sync(p.get("t", "")): continue
                if p is not None and p["k"] == "VarDecl" and p["t"].rstrip().endswith("&"): continue
                if p is not None and p["k"] == "CXXForRangeStmt": continue
                if p is not None and p["k"] == "ReturnStmt" and F.d.get("rt", "").rstrip().endswith("&"): continue
                rts = [r for r in R.roots(n) if shared(r)]
                if not rts: continue
                L = at(n)
                if L is None: continue
                for r in rts: out.append((r, "r", L, F.loc(n), self.name(r)))
        self.stack.pop()
        out = list(dict.fromkeys(out))
        if not self.stack or depth == 0: self.memo[key] = out
        else: self.memo[key] = out
        return out

    def name(self, r): return r[-1] if r[-1] else "*this"

    def translate(self, r, binds, orr, t):
        if r[0] == "parm": return binds.get(r[1], set())
        if r[0] == "this":
            if t.d.get("lambda"): return {r}
            if any(o[0] == "this" and o[1] is None for o in orr): return {r}
            return set(orr)
        return {r}

    def targets(self, F, n):
        """[(function, object node, argument nodes)] of a call in own code, including calls of local lambda variables"""
        k = n["k"]; args = n.get("c", [])
        out = []
        if k == "CXXOperatorCallExpr" and n.get("op") == "()":
            L = self.lambda_of(F, args[0] if args else None)
            if L is not None: return [(L, None, args[1:])]
            for t in self.db.resolve(n.get("f") or ""): out.append((t, args[0], args[1:]))
            return out
        if not n.get("f"): return out
        if k == "CXXMemberCallExpr":
            for t in self.db.resolve(n["f"]):
                if t.d.get("lambda"): out.append((t, None, args))
                else: out.append((t, n.get("obj"), args))
            return out
        f = self.db.funcs.get(n["f"]) or self.db.funcs.get(n["f"] + "@" + F.file)
        if f is None: return out
        if k == "CXXOperatorCallExpr" and f.cls and not f.d.get("sm"): return [(f, args[0], args[1:])]
        return [(f, None, args)]

    def lambda_of(self, F, a):
        a = skip_casts(a)
        for _ in range(6):
            if a is None: return None
            if a["k"] == "LambdaExpr": return self.db.funcs.get(a["f"])
            if a["k"] in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXTemporaryObjectExpr") and len([x for x in a.get("c", []) if x]) == 1:
                a = skip_casts(a["c"][0]); continue
            if a["k"] == "UnaryOperator" and a["op"] in ("&", "*"): a = skip_casts(a["c"][0]); continue
            if a["k"] in CALLS and (a.get("q") or "") in ("std::ref", "std::cref", "std::move", "std::forward"): a = skip_casts(a["c"][0]); continue
            if a["k"] == "DeclRefExpr" and a.get("dk") == "fn": return self.db.funcs.get(a["d"]) or self.db.funcs.get(a["d"] + "@" + F.file)
            if a["k"] == "DeclRefExpr" and a.get("dk") == "var":
                X = F; v = None
                while X is not None and v is None:
                    v = next((m for m in X.walk() if m["k"] == "VarDecl" and m["d"] == a["d"]), None)
                    X = X.owner if X.d.get("lambda") else None
                a = skip_casts(v["c"][0]) if v is not None and v.get("c") else None
                continue
            return None
        return None

    # ------------------------------------------------------------ threads
    def thread_accesses(self, F, entry_args):
        """accesses of a thread whose constructor got entry_args, in terms of F"""
        L = self.lambda_of(F, entry_args[0])
        if L is None or L.body is None: raise CheckError("thread entry in %s cannot be resolved" % F.loc())
        R = R2(self.db, F)
        args = list(entry_args[1:]); orr = set()
        if L.cls and not L.d.get("lambda") and not L.d.get("sm") and args:
            o = args.pop(0); orr = {r for r in R.roots(o, frozenset(), True)}
        binds = {}; env = []
        for p, a in zip(L.params, args):
            b = skip_casts(a)
            while b is not None and b["k"] in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len([x for x in b.get("c", []) if x]) == 1:
                b = skip_casts(b["c"][0])
            if b is not None and b["k"] in CALLS and (b.get("q") or "") in ("std::ref", "std::cref"):
                binds[p["d"]] = set(R.roots(b["c"][0]))
            elif p["t"].rstrip().endswith("*") or "_ptr<" in p["t"]:
                binds[p["d"]] = set(R.roots(a, frozenset(), True))
            cv = const_eval(a, {}, self.db)
            if isinstance(cv, bool): env.append((p["d"], cv))
        for p in L.params[len(args):]:
            if p.get("def") is not None:
                cv = const_eval(p["def"], {}, self.db)
                if isinstance(cv, bool): env.append((p["d"], cv))
        own = {n["d"] for n in L.walk() if n["k"] == "VarDecl"}
        res = []
        for r, k, lk, where, what in self.accesses(L, tuple(env)):
            lks = frozenset(x for m in lk for x in self.translate(m, binds, orr, L))
            for x in self.translate(r, binds, orr, L): res.append((x, k, lks, where, what))
        return L, res


def creations(F):
    """[(node, constructor arguments, target lvalue node or None)]"""
    out = []
    for n in F.walk():
        args = None
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and bare(n.get("t", "")) in ("std::thread", "std::jthread"):
            a = [x for x in n.get("c", []) if x]
            if a and not ("std::thread" in a[0].get("t", "") and len(a) == 1): args = a
        elif n["k"] == "CXXMemberCallExpr" and (n.get("q") or "").split("::")[-1] in ("emplace_back", "emplace", "emplace_front") and \
                n.get("obj") is not None and "std::thread" in n["obj"].get("t", ""):
            a = [x for x in n.get("c", []) if x]
            if a and "std::thread" not in a[0].get("t", "")[:14]:
                out.append((n, a, n["obj"])); continue
        if args is None: continue
        tgt = None
        for p in F.ancestors(n):
            if p["k"] == "VarDecl": tgt = p; break
            if p["k"] == "CXXOperatorCallExpr" and p.get("op") == "=": tgt = p["c"][0]; break
            if p["k"] == "CXXMemberCallExpr" and p.get("obj") is not None:
                m = (p.get("q") or "").split("::")[-1]
                if m in ("push_back", "emplace_back", "emplace", "push", "insert", "push_front"): tgt = p["obj"]; break
                if m == "swap": tgt = p["obj"]; break
            if p["k"] == "ReturnStmt": tgt = p; break
            if p["k"] == "LambdaExpr" or p["k"] in ("CompoundStmt",): break
        out.append((n, args, tgt))
    return out


def troot(R, tgt):
    if tgt is None: return None
    if tgt["k"] == "VarDecl": return frozenset({("local", tgt["d"], tgt["n"])})
    return frozenset(R.roots(tgt))


def join_nodes(F, R):
    """[(node, roots)] of direct joins"""
    return [(n, frozenset(R.roots(n["obj"], frozenset(), bool(n.get("arrow"))))) for n in F.calls()
            if n["k"] == "CXXMemberCallExpr" and (n.get("q") or "") in ("std::thread::join", "std::jthread::join")]


class Joins:
    """where threads held in given roots have certainly been joined"""

    def __init__(self, A, F):
        self.A = A; self.F = F; self.R = R2(A.db, F); self.g = A.cfg(F)
        self.direct = join_nodes(F, self.R)
        self.elem = {}          # element id -> set of root sets joined
        self.edge = {}          # (block, succ) -> roots
        loops = [n for n in F.walk() if n["k"] in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt")]
        for n, r in self.direct:
            lp = next((a for a in F.ancestors(n) if a in loops), None)
            over = self.loop_over(lp, r) if lp is not None else False
            if over:
                if self.each_iteration(lp, n): self.loop_exit(lp, r)
            else: self.elem.setdefault(id(n), set()).update(r)
        # helpers that join a parameter
        for n in F.calls():
            q = n.get("q") or ""
            if q == "std::for_each" and len(n.get("c", [])) == 3:
                L = A.lambda_of(F, n["c"][2])
                if L is not None and L.params and L.params[0]["d"] in {x[1] for x in joined_always(A, L) if x[0] == "parm"}:
                    self.elem.setdefault(id(n), set()).update(self.R.roots(n["c"][0], frozenset(), True))
            for t, o, args in A.targets(F, n):
                if t.body is None or t.id in A.stack: continue
                if not any(c["k"] == "CXXMemberCallExpr" and (c.get("q") or "").endswith("thread::join") for c in t.calls()): continue
                for x in joined_always(A, t):
                    if x[0] == "parm":
                        for p, a in zip(t.params, args):
                            if p["d"] == x[1]: self.elem.setdefault(id(n), set()).update(self.R.roots(a))
                    elif x[0] in ("local",): self.elem.setdefault(id(n), set()).add(x)
                    elif x[0] == "this":
                        if o is None or skip_casts(o)["k"] == "CXXThisExpr": self.elem.setdefault(id(n), set()).add(x)

    def loop_over(self, lp, r):
        """does the loop run over the container with roots r?"""
        if lp["k"] == "CXXForRangeStmt":
            return bool(set(self.R.roots(lp["range"])) & r)
        c = lp.get("cond")
        if c is None: return False
        names = {x[1] for x in r if x[0] in ("local", "parm")} | {x[1] for x in r if x[0] == "this"}
        return any(m.get("d") in names for m in walk(c) if m["k"] in ("DeclRefExpr", "MemberExpr")) or \
            any(m.get("d") in names for v in [lp.get("init")] if v for m in walk(v)) or \
            any(x in [y.get("d") for y in walk(lp["body"])] for x in names) and any(self.bound_is_count(c, lp, names) for _ in (0,))

    def bound_is_count(self, c, lp, names):
        """the loop's bound equals the bound of the loop that filled the container"""
        from norm import text
        t = text(c["c"][1]) if c["k"] == "BinaryOperator" else None
        for n, a, tgt in creations(self.F):
            for l2 in self.F.ancestors(n):
                if l2["k"] == "ForStmt" and l2.get("cond") and l2["cond"]["k"] == "BinaryOperator" and text(l2["cond"]["c"][1]) == t: return True
        return False

    def each_iteration(self, lp, jn):
        """within the body every path from its start passes jn or a false joinable()"""
        g = self.g; w = g.where(jn)
        body = lp["body"]; inside = {id(x) for x in walk(body)}
        heads = [B.id for B in g.blocks.values() if B.term is lp]
        if not heads or w is None: return False
        h = heads[0]
        start = [s for s, c, p in g.edges(h) if p is True]
        if lp["k"] == "DoStmt": return True
        seen = set(); st = list(start)
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b == w[0]: continue
            B = g.blocks[b]
            if b == h: return False
            els = [e for e in B.elems if id(e) in inside]
            for s, c, p in g.edges(b):
                if c is not None and not_joinable(c, p): continue
                if s == h: return False
                st.append(s)
            # leaving the loop by break / return
            if not els and B.id != h and not B.term and b not in start:
                inc = lp.get("rinc") or lp.get("inc")
                if inc is None: return False
        # any exit from within the body other than via head
        return True

    def loop_exit(self, lp, r):
        for B in self.g.blocks.values():
            if B.term is lp:
                for s, c, p in self.g.edges(B.id):
                    if p is False: self.edge[(B.id, s)] = r

    def running(self, start_node, roots, env, IN0):
        """[(block, from position)] where the thread may still run"""
        g = self.g; w = g.where(start_node)
        if w is None: raise CheckError("thread creation in %s is not in the CFG" % self.F.loc(start_node))
        INc, tr = ccp_reach(g, env, self.A.db)
        out = {}
        st = [(w[0], w[1] + 1, dict(INc.get(w[0], {})))]
        seen = {}
        killed_at = {}
        while st:
            b, pos, e = st.pop()
            k = (b, pos)
            if k in seen:
                o = seen[k]; j = {x: v for x, v in o.items() if x in e and e[x] == v}
                if j == o: continue
                e = j
            seen[k] = e
            B = g.blocks[b]; dead = False; endp = len(B.elems)
            for i in range(pos, len(B.elems)):
                rs = self.elem.get(id(B.elems[i]))
                if rs and roots <= rs | set() and roots: dead = True; endp = i; break
            out.setdefault(b, []).append((pos, endp))
            if dead: continue
            e2 = tr(B, e)
            for m in B.elems[pos:]:
                for v in m.get("decls", ()) if m["k"] == "DeclStmt" else ():
                    if bare(v.get("t", "")) == "bool" and v.get("c") and v["c"][0] and self.running_value(v["c"][0], roots, e2) is not None:
                        e2[v["d"]] = self.running_value(v["c"][0], roots, e2)
            # facts about joined threads: x.joinable() is true while running
            cv = const_eval(B.cond, e2, self.A.db) if B.cond is not None else None
            for s, c, p in g.edges(b):
                if isinstance(p, bool) and isinstance(cv, bool) and cv != p: continue
                if c is not None and not_joinable(c, p, roots, self.R): continue
                if (b, s) in self.edge and roots <= self.edge[(b, s)]: continue
                st.append((s, 0, e2))
        return out


    def running_value(self, n, roots, e):
        n = skip_casts(n)
        if n["k"] == "CXXMemberCallExpr" and (n.get("q") or "").endswith("thread::joinable"):
            return True if set(self.R.roots(n["obj"], frozenset(), bool(n.get("arrow")))) & roots else None
        if n["k"] == "UnaryOperator" and n["op"] == "!":
            v = self.running_value(n["c"][0], roots, e); return None if v is None else not v
        if n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
            a, b = [self.running_value(x, roots, e) for x in n["c"]]
            if n["op"] == "&&": return False if False in (a, b) else (True if a and b else None)
            return True if True in (a, b) else (False if a is False and b is False else None)
        v = const_eval(n, e, self.A.db)
        return v if isinstance(v, bool) else None


def not_joinable(c, pol, roots=None, R=None):
    c = skip_casts(c)
    while c is not None and c["k"] == "UnaryOperator" and c["op"] == "!" and isinstance(pol, bool): c = skip_casts(c["c"][0]); pol = not pol
    if c is None or c["k"] != "CXXMemberCallExpr" or not (c.get("q") or "").endswith("thread::joinable"): return False
    if pol is not False: return False
    return roots is None or bool(set(R.roots(c["obj"], frozenset(), bool(c.get("arrow")))) & roots)


def joined_always(A, F):
    """parameter/captured roots joined on every path through F"""
    if F.id in A.stack: return set()
    A.stack.append(F.id)
    try:
        J = Joins(A, F); g = J.g; out = set()
        cand = set()
        for n, r in J.direct: cand |= set(r)
        for s in J.elem.values(): cand |= s
        for r in cand:
            ok = True; seen = set(); st = [g.entry]
            while st:
                b = st.pop()
                if b in seen: continue
                seen.add(b)
                if any(r in J.elem.get(id(x), ()) for x in g.blocks[b].elems): continue
                if b == g.exit: ok = False; break
                for s, c, p in g.edges(b):
                    if c is not None and not_joinable(c, p, {r}, J.R): continue
                    if r in J.edge.get((b, s), ()): continue
                    st.append(s)
            if ok: out.add(r)
        return out
    finally: A.stack.pop()


def declared_scope(F, d):
    for n in F.walk():
        if n["k"] == "VarDecl" and n["d"] == d:
            for a in F.ancestors(n):
                if a["k"] in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "IfStmt", "WhileStmt", "SwitchStmt", "CXXCatchStmt"): return n, a
    return None, None


def run(db, rep):
    A = Analyser(db)
    sites = []
    for F in db.all():
        for n in F.calls():
            q = n.get("q") or ""
            if q in ("std::thread::detach", "std::jthread::detach"):
                rep.bad("detach|" + F.q, F.loc(n), "a worker thread is detached and never waited for")
            if q in ("pthread_create",): raise CheckError("raw pthread in " + F.loc(n))
            if q == "std::async": sites.append((F, n, [x for x in n.get("c", []) if x and "std::launch" not in x.get("t", "")], None))
        for n, args, tgt in creations(F): sites.append((F, n, args, tgt))
    rep.need(len(sites) >= 2, "no thread creation found")
    rep.count("thread_creations", len(sites))
    perF = {}
    entries = []
    for F, n, args, tgt in sites:
        L, acc = A.thread_accesses(F, args)
        entries.append(L)
        rep.count("thread_accesses", len(acc))
        perF.setdefault(F.id, []).append((F, n, tgt, L, acc))
    for fid, lst in perF.items():
        F = lst[0][0]
        J = Joins(A, F); g = A.cfg(F)
        runs = []
        for F, n, tgt, L, acc in lst:
            isasync = (n.get("q") or "") == "std::async"
            rep.ok()
            if isasync: runs.append({}); continue
            r = troot(J.R, tgt)
            if r is None:
                # immediate join of the temporary
                p = F.parent(n)
                rep.bad("nojoin|" + F.q, F.loc(n), "a thread object is not kept, so it cannot be waited for"); runs.append({}); continue
            if tgt["k"] == "ReturnStmt" or all(x[0] in ("parm", "this") for x in r):
                runs.append({}); lift(A, rep, F, n, r, tgt); continue
            W = J.running(n, r, {}, None)
            runs.append(W)
            if g.exit in W:
                rep.bad("nojoin|%s|%s" % (F.q, A.name(sorted(r)[0])), F.loc(n),
                        "the thread kept in %s is not waited for on every path to the end of %s" % (A.name(sorted(r)[0]), F.q))
            # lifetime of objects captured by reference
            locs = {x[0][1]: x[0][2] for x in acc if x[0][0] == "local"}
            for d, nm in locs.items():
                v, sc = declared_scope(F, d)
                if v is None or sc is F.body: continue
                if v["t"].rstrip().endswith("&"): continue
                ins = {id(x) for x in walk(sc)}
                rep.ok(); rep.count("captured_objects")
                for b, segs in W.items():
                    for lo, hi in segs:
                        for e in g.blocks[b].elems[lo:hi + 1]:
                            if id(e) not in ins and e["k"] not in ("DeclStmt",):
                                rep.bad("dangling|%s|%s" % (F.q, nm), F.loc(n),
                                        "the thread may still run when %s, which it uses by reference, has left its scope (line %d)" % (nm, e.get("l", 0)))
                                break
                        else: continue
                        break
                    else: continue
                    break
        # concurrent pairs
        confl = []
        for i, (F, n, tgt, L, acc) in enumerate(lst):
            w = g.where(n)
            inloop = any(a["k"] in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt") for a in F.ancestors(n))
            if inloop: confl.append((acc, acc, "two workers"))
            for j in range(len(lst)):
                if j != i and w and runs[j].get(w[0]) and any(lo <= w[1] <= hi for lo, hi in runs[j][w[0]]):
                    confl.append((lst[j][4], acc, "two workers"))
            # creator while running
            if runs[i]:
                own = parent_accesses(A, F, runs[i], g, {id(x) for k in lst for x in walk(k[1])})
                confl.append((acc, own, "a worker and its creator"))
        for a1, a2, who in confl:
            conflicts(rep, A, F, a1, a2, who)
    # globals and statics touched by anything a thread can reach
    seen = db.reachable(entries)
    rep.count("functions_reachable_from_threads", len(seen))
    acc = []
    for fid in seen:
        X = db.funcs[fid]
        if X.cls == "BSMPT::BSMPTLogger": continue
        for a in A.accesses(X):
            if a[0][0] in ("global", "static"): acc.append(a)
    for E in entries:
        conflicts(rep, A, E.owner or E, [a for a in acc], [a for a in acc], "two threads")
        break


def parent_accesses(A, F, W, g, threadnodes):
    out = []
    spans = W
    full = A.accesses(F)
    # recompute with positions
    R = R2(A.db, F)
    at = A.locksets(F, {}, R)

    def active(n):
        if id(n) in threadnodes: return False
        w = g.where(n)
        if w is None or w[0] not in spans: return False
        return any(lo <= w[1] < hi or (lo <= w[1] <= hi and hi == len(g.blocks[w[0]].elems)) for lo, hi in spans[w[0]])
    for n, lv, kind, rts in stores(A.db, F):
        if not active(n): continue
        if is_sync(lv.get("t", "")) or "std::thread" in lv.get("t", "") or is_holder(lv.get("t", "")): continue
        L = at(n)
        if L is None: continue
        for r in R.roots(lv): out.append((r, "w", L, F.loc(n), "%s (%s)" % (A.name(r), kind)))
    for n in F.walk():
        if n["k"] == "DeclRefExpr" and n.get("dk") in ("var", "parm", "global") and active(n):
            t = n.get("t", "")
            if is_sync(t) or "std::thread" in t or is_holder(t): continue
            if any(a["k"] == "LambdaExpr" for a in F.ancestors(n)): continue
            L = at(n)
            if L is None: continue
            for r in R.roots(n): out.append((r, "r", L, F.loc(n), A.name(r)))
    for n in F.calls():
        if not active(n): continue
        for t, o, args in A.targets(F, n):
            if t.d.get("lambda") and t.body is not None:
                for r, k, lk, where, what in A.accesses(t):
                    if r[0] == "local": out.append((r, k, lk | (at(n) or frozenset()), where, what))
    return out


def conflicts(rep, A, F, a1, a2, who):
    by = {}
    for a in a2: by.setdefault(a[0], []).append(a)
    for a in a1:
        if a[0][0] in ("temp", "unknown"): continue
        rep.ok()
        for b in by.get(a[0], ()):
            if a[1] == "r" and b[1] == "r": continue
            if a[2] & b[2]: continue
            w, o = (a, b) if (a[1] == "w") else (b, a)
            bad = w if not w[2] else o
            rep.bad("race|%s|%s" % (F.q, A.name(a[0])), w[3],
                    "%s share %s: it is changed here (%s) and %s at %s without a common lock" %
                    (who, A.name(a[0]), "holding a lock" if w[2] else "without a lock", "changed" if o[1] == "w" else "read", o[3]))
            break


def lift(A, rep, F, n, r, tgt):
    """the thread object is handed to the caller: every caller must wait for it"""
    rep.count("threads_handed_to_caller")
    for X in A.db.all():
        J = None
        for c in X.calls():
            for t, o, args in A.targets(X, c):
                if t is not F: continue
                J = J or Joins(A, X)
                if tgt["k"] == "ReturnStmt":
                    roots = None
                    for p in X.ancestors(c):
                        if p["k"] == "VarDecl": roots = frozenset({("local", p["d"], p["n"])}); break
                        if p["k"] == "CXXOperatorCallExpr" and p.get("op") == "=": roots = frozenset(J.R.roots(p["c"][0])); break
                        if p["k"] == "CXXMemberCallExpr" and p.get("obj") is not None: roots = frozenset(J.R.roots(p["obj"])); break
                        if p["k"] == "ReturnStmt": return lift(A, rep, X, c, r, p)
                else:
                    roots = set()
                    for x in r:
                        if x[0] == "parm":
                            for p, a in zip(t.params, args):
                                if p["d"] == x[1]: roots |= set(J.R.roots(a))
                        else: roots.add(x)
                    roots = frozenset(roots)
                rep.ok()
                if not roots:
                    rep.bad("nojoin|" + X.q, X.loc(c), "a thread object is not kept"); continue
                W = J.running(c, roots, {}, None)
                if J.g.exit in W: rep.bad("nojoin|%s" % X.q, X.loc(c), "a thread started by %s is not waited for on every path of %s" % (F.q, X.q))
