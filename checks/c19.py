"""Every loop of the library and the programs (parameter files of the models excluded) is given a termination argument from
its source. On the control-flow graph the loops are the natural loops; for each one, an exit test that lies on every cycle
through the loop's head is looked for, such that on every path around the loop the tested quantity moves by an amount that
cannot be zero towards the exit (a counter, a step with a guard that it is positive, a container that is drained), or the
tested interval is halved, or the test reads input or a permutation. A loop without such a test is a violation."""
from fractions import Fraction
from core import walk, kids, CALLS
from cfg import skip_casts, const_eval, alternatives, implied
from paths import Paths, plain, written, text, ids
from poly import Poly, ONE
import util

EXPLANATION = ("For each natural loop of the control-flow graph: exit tests on every cycle, change of the tested quantity on every "
               "path around the loop (path-state analysis), sign of symbolic steps from dominating guards.")
GROW = {"push_back": 1, "emplace_back": 1, "push": 1, "push_front": 1, "emplace": 1, "pop_back": -1, "pop": -1, "pop_front": -1}
ACCESS = {"at", "operator[]", "front", "back", "begin", "end", "rbegin", "rend", "data", "find", "size", "length", "empty", "operator->",
          "operator*", "get", "lower_bound", "upper_bound", "str", "c_str", "reserve", "cbegin", "cend", "count"}
STRUCT = set(GROW) | {"insert", "erase", "clear", "resize", "assign", "swap", "operator=", "reserve"}
SKIP = ("/models/",)
# functions with one loop whose steps are computed from the solution itself: no argument is
# claimed for these (see DESIGN.md), only that every way around the loop changes something the exits depend on
UNDECIDED = {"BSMPT::BounceSolution::GWScanTowardsHighAction": 1,
             "BSMPT::BounceSolution::GWScanTowardsLowAction": 1, "BSMPT::BounceSolution::CalculatePercolationTemp": 1,
             "BSMPT::BounceSolution::CalculateCompletionTemp": 1, "BSMPT::TransitionTracer::TransitionTracer": 1}
COUNTED = set(UNDECIDED) - {"BSMPT::TransitionTracer::TransitionTracer"}
FORWARD = {"make_pair", "make_tuple", "forward", "emplace_back", "emplace", "make_shared", "make_unique", "to_string"}


def name(n): return (n.get("q") or n.get("n") or "").split("::")[-1]


class Loop:
    def __init__(self, g, h, body): self.g, self.h, self.body = g, h, body


def natural(g):
    dom = g.dominators(); loops = {}
    preds = {}
    for b in dom:
        for s, c, p in g.edges(b): preds.setdefault(s, set()).add(b)
    for b in dom:
        for s, c, p in g.edges(b):
            if s in dom[b]:
                body = loops.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += [y for y in preds.get(x, ()) if y in dom]
    return [Loop(g, h, b) for h, b in sorted(loops.items())], dom


class Fn:
    """what the loops of one function need"""

    def __init__(self, db, F, mods):
        self.db, self.F, self.mods = db, F, mods
        self.g = util.pgraph(db, F)
        self._dom = self.g.dominators()
        self.writes = {}      # id -> [(block, element)]
        self.decl = {}
        for B in self.g.blocks.values():
            for e in B.elems:
                for d in self.touched(e): self.writes.setdefault(d, []).append((B.id, e))
                if e["k"] == "DeclStmt":
                    for v in e.get("decls", []): self.decl[v.get("d")] = v
        self.inlambda = set()
        for n in F.walk():
            if n["k"] == "LambdaExpr":
                for x in walk(n):
                    if x is not n: self.inlambda |= set(filter(None, written(x)))

    def touched(self, e):
        m = self.__dict__.setdefault("_t", {})
        if id(e) not in m: m[id(e)] = self._touched(e)
        return m[id(e)]

    def callees(self, e):
        f = e.get("f")
        return [t for t in (self.db.resolve(f) or [])] if f else []

    def _touched(self, e):
        out = {d for d in written(e) if d}
        if e["k"] in CALLS and name(e) in FORWARD: out = {d for d in written(dict(e, c=[], pt=[])) if d}
        if e["k"] in CALLS:
            ts = self.callees(e)
            if e["k"] == "CXXMemberCallExpr" and e.get("obj") is not None and not e.get("cm"):
                free = name(e) in ACCESS and not ts or ts and not any(self.mods(t) for t in ts)
                if free: out = {d for d in written(dict(e, obj=None)) if d}
            for t in ts: out |= self.mods(t)
        return out

    def structural(self, L):
        """containers whose number of elements may change in the loop"""
        if not hasattr(L, "struct"):
            L.struct = set()
            for b in L.body:
                for e in self.g.blocks[b].elems:
                    for d in self.touched(e):
                        if not isinstance(delta(self, L, e, ("size", d), ()), str): L.struct.add(d)
        return L.struct

    def before(self, w, n):
        """the element w (block, element) has been executed whenever n is"""
        b = self.g.where(n)
        if b is None: return False
        if b[0] == w[0]:
            el = self.g.blocks[w[0]].elems
            i = next((i for i, e in enumerate(el) if e is w[1]), None)
            return i is not None and i < b[1]
        return w[0] in self._dom.get(b[0], ())

    def loop_writes(self, L, d): return [(b, e) for b, e in self.writes.get(d, ()) if b in L.body]

    def value(self, n, L, depth=0):
        """polynomial of an expression over variables and opaque terms"""
        n = plain(n)
        if n is None: return None
        v = const_eval(n, {}, self.db)
        if type(v) in (int, float) and v == v and abs(v) != float("inf"): return Poly.const(Fraction(v))
        while n["k"] == "CallExpr" and name(n) in ("floor", "ceil", "trunc", "round") and (n.get("pt") or [""])[0] in ("int", "long", "unsigned long", "unsigned int"):
            n = plain(n["c"][0])
        k, op, c = n["k"], n.get("op"), [x for x in n.get("c", []) if x]
        if k == "UnaryOperator" and op in ("-", "+") and c:
            a = self.value(c[0], L, depth)
            return a if op == "+" else -a
        if k == "UnaryOperator" and op in ("++", "--") and c: return self.value(c[0], L, depth)
        if k == "BinaryOperator" and op in ("+", "-", "*", "/"):
            a, b = self.value(c[0], L, depth), self.value(c[1], L, depth)
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if list(b.t) == [ONE]: return a * Poly.const(1 / b.t[ONE])
            q = ratio(a, b)
            if q is not None: return Poly.const(q)
            return self.atom(n)
        if k == "MemberExpr" and n.get("d") in self.fieldinit():
            v = const_eval(self.fieldinit()[n["d"]], {}, self.db)
            if type(v) in (int, float): return Poly.const(Fraction(v))
        if k == "DeclRefExpr" and depth < 6:
            d = n.get("d"); w = self.writes.get(d, [])
            if d not in self.inlambda and not (n.get("t") or "").endswith("&"):
                if len(w) == 1 and d in self.decl and w[0][1]["k"] == "DeclStmt":
                    i = self.decl[d].get("c")
                    if i and i[0] and plain(i[0])["k"] not in ("CXXConstructExpr", "InitListExpr", "LambdaExpr"):
                        r = self.value(i[0], L, depth + 1)
                        if L is None or w[0][0] in L.body or r.constant() is not None: return r
                        return self.atom(n)
                lw = self.loop_writes(L, d) if L else []
                if len(lw) == 1 and lw[0][1]["k"] == "BinaryOperator" and lw[0][1].get("op") == "=" and self.before(lw[0], n):
                    return self.value(lw[0][1]["c"][1], L, depth + 1)
                if not lw:      # its value is that of the last assignment before the loop, if there is only one
                    w2 = [x for x in w if x[1]["k"] != "DeclStmt" or (self.decl[d].get("c") or [None])[0]]
                    if len(w2) == 1 and w2[0][1]["k"] == "BinaryOperator" and w2[0][1].get("op") == "=":
                        r = self.value(w2[0][1]["c"][1], L, depth + 1)
                        if L is None or r.constant() is not None: return r
        if k == "CXXMemberCallExpr" and name(n) in ("size", "length") and n.get("obj") is not None:
            o = plain(n["obj"])
            if o["k"] in ("DeclRefExpr", "MemberExpr") and o.get("d"): return Poly.atom(("size", o["d"]))
        if k == "CXXMemberCallExpr" and name(n) in ("end", "rend", "begin", "rbegin", "cend", "cbegin") and n.get("obj") is not None:
            o = plain(n["obj"])
            if o["k"] in ("DeclRefExpr", "MemberExpr") and o.get("d"): return Poly.atom(("end", name(n), o["d"]))
        return self.atom(n)

    def fieldinit(self):
        db = self.db
        if not hasattr(db, "_c19init"):
            db._c19init = {f["d"]: (f.get("init") or (f.get("c") or [None])[0]) for r in db.records.values() for f in r["fields"]
                           if (f.get("t") or "").startswith("const ")}
            db._c19init = {d: i for d, i in db._c19init.items() if i}
        return db._c19init

    def full(self, p):
        """p with the variables that have one definition replaced by it"""
        for _ in range(4):
            def f(a):
                if a[0] != "var" or a[1] in self.inlambda: return None
                w = self.writes.get(a[1], [])
                if len(w) == 1 and w[0][1]["k"] == "DeclStmt" and not (self.decl[a[1]].get("t") or "").endswith("&"):
                    i = (self.decl[a[1]].get("c") or [None])[0]
                    if i and plain(i)["k"] not in ("CXXConstructExpr", "InitListExpr", "LambdaExpr"): return self.value(i, None)
                w = [x for x in w if x[1]["k"] != "DeclStmt" or (self.decl[a[1]].get("c") or [None])[0]]
                if len(w) == 1 and w[0][1]["k"] == "BinaryOperator" and w[0][1].get("op") == "=": return self.value(w[0][1]["c"][1], None)
                return None
            q = p.subs(f)
            if q.t == p.t: return p
            p = q
        return p

    def atom(self, n):
        if n["k"] in ("DeclRefExpr", "MemberExpr") and n.get("d"): return Poly.atom(("var", n["d"]))
        return Poly.atom(("x", text(n), frozenset(i for i in ids(n) if i)))


def ratio(a, b):
    """a/b when it is a constant"""
    if not a.t or not b.t or set(a.t) != set(b.t): return None
    r = {a.t[m] / b.t[m] for m in a.t}
    return r.pop() if len(r) == 1 else None


def atoms(p): return {a for m in p.t for a, e in m}


def expand_test(fn, L, c, p):
    """leaf comparisons [(op, lhs, rhs)] that all hold while staying; calls are returned as ('call', node, truth)"""
    c = plain(c); n = 0
    while c is not None and n < 8:
        n += 1
        if c["k"] == "UnaryOperator" and c.get("op") == "!": c = plain(c["c"][0]); p = not p; continue
        if c["k"] == "DeclRefExpr" and c.get("d"):
            w = fn.writes.get(c["d"], [])
            lw = fn.loop_writes(L, c["d"])
            if len(w) == 1 and w[0][1]["k"] == "DeclStmt" and c["d"] in fn.decl and (fn.decl[c["d"]].get("c") or [None])[0]:
                c = plain(fn.decl[c["d"]]["c"][0]); continue
            if len(lw) == 1 and lw[0][1]["k"] == "BinaryOperator" and lw[0][1].get("op") == "=" and fn.before(lw[0], c):
                c = plain(lw[0][1]["c"][1]); continue
        break
    if c is None: return []
    if c["k"] in ("BinaryOperator",) and c.get("op") in ("&&", "||"):
        if (c["op"] == "&&") == p: return expand_test(fn, L, c["c"][0], p) + expand_test(fn, L, c["c"][1], p)
        return []
    op = c.get("op")
    if c["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and op in ("<", ">", "<=", ">=", "!=", "==") and len(c.get("c", [])) == 2:
        if not p: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "==", "==": "!="}[op]
        return [(op, c["c"][0], c["c"][1])]
    if c["k"] in CALLS: return [("call", c, p)]
    return [("val", c, p)]


def decide(fn, L, dom):
    """name of the termination argument of the loop, or None with the reasons"""
    g, F = fn.g, fn.F
    why = []
    for b in sorted(L.body):
        if g.blocks[b].tk == "CXXForRangeStmt" and b == L.h: return rangefor(fn, L, g.blocks[b])
    tests = []
    for b in sorted(L.body):
        es = g.edges(b)
        out = [e for e in es if e[0] not in L.body]
        stay = [e for e in es if e[0] in L.body]
        if not out or not stay or not isinstance(out[0][2], bool): continue
        # every cycle passes b
        if b != L.h:
            seen = set(); st = [s for s, c, p in g.edges(L.h) if s in L.body and s != b]; hit = False
            while st:
                x = st.pop()
                if x == L.h: hit = True; break
                if x in seen: continue
                seen.add(x); st += [s for s, c, p in g.edges(x) if s in L.body and s != b]
            if hit: continue
        tests.append((b, stay[0][1], stay[0][2]))
    for b, c, p in tests:
        for t in expand_test(fn, L, c, p):
            r = certify(fn, L, t, b, why)
            if r: return r, why
    if tests:
        r = advance(fn, L, tests, why) or walk_to(fn, L)
        if r: return r, why
    if not tests: why.append("no exit is passed on every way around the loop")
    return None, why


def rangefor(fn, L, B):
    n = B.term
    r = plain(n.get("range")) if n is not None and n.get("range") else None
    if r is not None and r["k"] in ("DeclRefExpr", "MemberExpr") and r.get("d"):
        for b, e in [(b, e) for b in L.body for e in fn.g.blocks[b].elems]:
            if e["k"] in CALLS and e.get("obj") is not None and name(e) in STRUCT and (plain(e["obj"]) or {}).get("d") == r["d"]:
                o = plain(e["obj"])
                if text(o) == text(r): return None, ["the container %s is changed while it is iterated" % r.get("n")]
    return "every element of a range", []


def certify(fn, L, t, b, why):
    g, db = fn.g, fn.db
    if t[0] in ("call", "val"):
        n, p = t[1], t[2]
        q = name(n)
        if q in ("getline", "next_permutation", "prev_permutation", "operator bool", "operator>>", "good") or n.get("op") == ">>":
            return "reads input" if q[0] != "n" and q[0] != "p" else "permutations"
        if t[0] == "call" and n.get("op") == "()":
            r = lambda_test(fn, L, n, p, b, why)
            if r: return r
        if q == "empty" and not p and n.get("obj") is not None:
            o = plain(n["obj"])
            if o.get("d"): return measure(fn, L, ">", Poly.atom(("size", o["d"])), b, why, text(n))
        if t[0] == "val" and n["k"] in ("DeclRefExpr", "MemberExpr", "UnaryOperator") and p and isint(n):
            return measure(fn, L, "!=", fn.value(n, L), b, why, text(n))
        why.append("the exit test %s is not a comparison" % show(n))
        return None
    op, l, r = t
    if op in ("<", "<="): l, r = r, l; op = {"<": ">", "<=": ">="}[op]
    pl, pr = fn.value(l, L), fn.value(r, L)
    D = pl - pr
    x = halving(fn, L, t, b)
    if x: return x
    return measure(fn, L, op, D, b, why, "%s %s %s" % (show(l), op, show(r)))


def isint(n):
    t = (n.get("t") or "").replace("const ", "").strip(" &")
    return any(w in t for w in ("int", "long", "size_t", "short", "char", "size_type", "difference_type", "iterator")) or t.endswith("*")


def show(n):
    n = plain(n)
    if n is None: return "?"
    k = n["k"]; c = [x for x in n.get("c", []) if x]
    if k in ("DeclRefExpr", "MemberExpr"): return n.get("n") or "?"
    if k.endswith("Literal"): return str(n.get("v", ""))
    if k == "BinaryOperator" and len(c) == 2: return "%s %s %s" % (show(c[0]), n.get("op"), show(c[1]))
    if k in CALLS: return (show(n["obj"]) + "." if n.get("obj") else "") + name(n) + "(…)"
    return k


def halving(fn, L, t, b):
    """the test compares two ends of an interval and every way around the loop moves an end to the middle"""
    op, l, r = t
    mixed = [i for i in ids(l) | ids(r) if i and any(e["k"] != "DeclStmt" for _, e in fn.loop_writes(L, i))]
    if op not in (">", ">=", "<", "<=") or len(mixed) < 2: return None
    ce = fn.value(r, L).constant(); ce = fn.value(l, L).constant() if ce is None else ce
    rel = any(x["k"] == "BinaryOperator" and x.get("op") == "/" for e in (l, r) for x in walk(e))
    whole = all(isint(x) for x in (l, r))
    if ce is None or ce < (1 if whole else 2.3e-16 if rel else 1e-12): return None
    import itertools
    for lo, hi in itertools.combinations(sorted(mixed), 2):
        mid = Poly.atom(("var", lo)) * Poly.const(Fraction(1, 2)) + Poly.atom(("var", hi)) * Poly.const(Fraction(1, 2))

        def ev(F, n, bind, d):
            w = fn.touched(n)
            if lo in w or hi in w:
                if n["k"] == "BinaryOperator" and n.get("op") == "=" and plain(n["c"][0])["k"] in ("DeclRefExpr", "ConditionalOperator") and fn.value(n["c"][1], L).t == mid.t: return [True]
                return ["bad"]
            return None
        res = around(fn, L, ev, False)
        if res and res <= {True}: return "an interval is halved"
    return None


def around(fn, L, ev, d0):
    """data states at the back edges of all ways around the loop"""
    P = Paths(fn.db, ev)
    full = fn.g.edges
    inner = fn.g.blocks
    saved = {b: list(B.succs) for b, B in inner.items()}
    try:
        P2 = PathsIn(fn.db, ev); P2.body = L.body
        r = P2.run(fn.F, {(d0, frozenset())}, start=L.h, header=L.h)
    finally:
        for b, s in saved.items(): inner[b].succs = s
    return {d for d, _ in r["header"]}


class PathsIn(Paths):
    body = ()

    def run(self, F, st, bind=(), start=None, header=None):
        g = util.pgraph(self.db, F); old = g.edges
        g.edges = lambda b: [e for e in old(b) if e[0] in self.body]
        try: return Paths.run(self, F, st, bind, start, header)
        finally: del g.edges


def measure(fn, L, op, D, b, why, what, extra=()):
    """staying in the loop needs D op 0: every way around must change D towards leaving"""
    g = fn.g
    mine = {}
    written_in = set()
    for x in L.body:
        for e in g.blocks[x].elems:
            written_in |= fn.touched(e)
    if op == "==":
        why.append("staying needs %s" % what); return None
    for a in atoms(D):
        if a[0] == "var":
            if a[1] in written_in or a[1] in fn.inlambda: mine[a] = a[1]
        elif a[0] == "size":
            if a[1] in fn.structural(L): mine[a] = a[1]
        elif a[0] == "end":
            if a[2] in fn.structural(L):
                why.append("the container of (%s) changes inside the loop" % what); return None
        elif a[2] & written_in:
            why.append("the bound of (%s) changes inside the loop" % what); return None
    if any(sum(e for x, e in m) > 1 for m in D.t if any(x in mine for x, e in m)):
        why.append("(%s) is not linear in what the loop changes" % what); return None
    if not mine:
        why.append("nothing in the loop changes (%s)" % what); return None
    for a, d in mine.items():
        if d in fn.inlambda: why.append("(%s) is changed by a lambda" % what); return None
    IN, table = facts(fn)
    sym = {}
    coef = {a: D.t[((a, 1),)] for a in mine if ((a, 1),) in D.t}
    if len(coef) != len(mine):
        why.append("(%s) is not linear in what the loop changes" % what); return None

    def clamp(p):
        if list(p.t) in ([], [ONE]):
            v = p.t.get(ONE, 0)
            return Poly.const(max(-40, min(40, v)))
        return p

    def ev(F, n, bind, d):
        w = fn.touched(n)
        hit = [a for a, i in mine.items() if i in w]
        if not hit or d == "?": return None
        for a in hit:
            dp = delta(fn, L, n, a, written_in)
            if isinstance(dp, str): continue
            if dp is None: return ["?"]
            p = Poly(dict(d)) + dp * Poly.const(coef[a])
            if len(p.t) > 3 or any(abs(c) > 10 ** 6 for c in p.t.values()): return ["?"]
            p = clamp(p)
            if set(p.t) - {ONE}: sym.setdefault(frozenset(p.t.items()), set()).add(g.where(n)[0] if g.where(n) else L.h)
            d = frozenset(p.t.items())
        return [d]
    res = around(fn, L, ev, frozenset())
    signs = set()
    for d in res:
        if d == "?":
            why.append("(%s) changes in a way that is not a step" % what); return None
        p = Poly(dict(d))
        if not p.t:
            why.append("on some way around the loop nothing moves (%s)" % what); return None
        if list(p.t) == [ONE]:
            signs.add(("+", "-")[p.t[ONE] < 0]); k = abs(p.t[ONE]); continue
        s = sign(fn, p, IN, table, sym.get(d, {L.h}) | {L.h}, extra)
        if s is None:
            why.append("the step of (%s) may be zero or point away from the bound: nothing on the way to the loop excludes it" % what)
            return None
        signs.add(s); k = None
    if not res: return "left in its first round"
    if op in (">", ">="):
        if signs == {"-"}: return "(%s) moves by a step towards its bound" % what
        why.append("(%s) moves away from its bound" % what); return None
    ks = {abs(Poly(dict(d)).t.get(ONE, 0)) for d in res}
    if len(signs) == 1 and ks == {1}: return "(%s) is counted" % what
    why.append("(%s) may be stepped over" % what)
    return None


def delta(fn, L, n, a, written_in):
    """change of the variable (or container size) a by element n: Poly, 0 for none, None if unknown"""
    k, op = n["k"], n.get("op"); d = a[1]
    c = [x for x in n.get("c", []) if x]
    if a[0] == "size":
        if k in CALLS and n.get("obj") is not None and plain(n["obj"]).get("d") != d and d in ids(n["obj"]) and not any(d in ids(x) for x in c): return "same"
        if k in CALLS and n.get("obj") is not None and (plain(n["obj"]) or {}).get("d") == d:
            if name(n) in GROW: return Poly.const(GROW[name(n)])
            if name(n) == "erase" and len(c) == 1: return Poly.const(-1)
            if n.get("cm") or name(n) in ("at", "operator[]", "front", "back", "begin", "end", "data", "reserve", "rbegin", "rend"): return "same"
            return None
        if k == "CXXOperatorCallExpr" and op == "[]": return "same"
        if k in ("BinaryOperator", "CompoundAssignOperator") and plain(c[0])["k"] != "DeclRefExpr" and plain(c[0])["k"] != "MemberExpr": return "same"
        return None
    tgt = plain(c[0]) if c else None
    if k == "UnaryOperator" and op in ("++", "--") or k == "CXXOperatorCallExpr" and op in ("++", "--"):
        return Poly.const(1 if op == "++" else -1) if tgt is not None and tgt.get("d") == d else None
    if k in ("CompoundAssignOperator", "BinaryOperator", "CXXOperatorCallExpr") and op in ("+=", "-=", "=") and len(c) == 2:
        if tgt is None or tgt.get("d") != d or tgt["k"] not in ("DeclRefExpr", "MemberExpr"): return None
        v = fn.value(c[1], L)
        if v is None: return None
        if op == "=": v = v - Poly.atom(("var", d))
        if op == "-=": v = -v
        for x in atoms(v):
            if x[0] == "var":
                if x[1] in written_in: return None
            elif x[0] == "size":
                if x[1] in fn.structural(L): return None
            elif x[0] == "end": return None
            elif x[2] & written_in: return None
        return v if v.t else "same"
    return None


def facts(fn):
    if not hasattr(fn, "_facts"):
        def kill(B, c):
            i = ids(c)
            return any(fn.touched(e) & i for e in B.elems)
        fn._facts = fn.g.guards(kill)
    return fn._facts


def known(fn, IN, table, b, depth=0):
    """[(polynomial, strict)] known to be positive (not negative) at the start of block b"""
    out = []
    for f, t in IN.get(b, ()):
        n = table.get(f)
        if n is None or not isinstance(t, bool): continue
        for x in expand_test(fn, Loop(fn.g, -1, ()), n, t):
            if x[0] == "call" and depth < 2 and x[1]["k"] != "CXXOperatorCallExpr":
                for T in fn.callees(x[1]):
                    if not T.d.get("cfg"): continue
                    ft = Fn(fn.db, T, fn.mods); IT, tt = facts(ft); sets = []
                    for B in ft.g.blocks.values():
                        for e in B.elems:
                            if e["k"] == "ReturnStmt" and e.get("c") and B.id in IT:
                                v = const_eval(e["c"][0], {}, fn.db)
                                if v is None or bool(v) == x[2]: sets.append(known(ft, IT, tt, B.id, depth + 1))
                    if len(sets) == 1: out += sets[0]
            if x[0] in ("call", "val"): continue
            op, l, r = x
            if op in ("<", "<="): l, r = r, l
            if op not in ("<", ">", "<=", ">="): continue
            out.append((fn.full(fn.value(l, None) - fn.value(r, None)), op in "<>"))
    return out


def sign(fn, p, IN, table, blocks, extra=()):
    """'+' or '-' when a guard that holds at one of the blocks fixes the sign of p"""
    full = fn.full(p)
    if full.constant(): return "+" if full.constant() > 0 else "-"
    for b in blocks:
        ks = known(fn, IN, table, b) + list(extra)
        for d, strict in ks:
            q = ratio(full, d)
            if q is not None and strict: return "+" if q > 0 else "-"
        for d, strict in ks:
            if not strict: continue
            for e, _ in ks:     # d > 0 and d is p times e (e not negative): p is positive
                q = ratio(full * e, d)
                if q is not None and q > 0: return "+"
                if q is not None: return "-"
    return None


def lambda_test(fn, L, n, p, b, why):
    """the exit test is a call of a lambda: each of its results must end the loop"""
    args = [x for x in n.get("c", []) if x]
    args = args[1:] if n["k"] == "CXXOperatorCallExpr" else args
    got = None
    for T in fn.callees(n):
        if not T.d.get("cfg"): return None
        ft = Fn(fn.db, T, fn.mods); IT, tt = facts(ft)
        if len(T.params) != len(args): return None
        sub = {("var", q["d"]): fn.value(a, L) for q, a in zip(T.params, args)}
        for B in ft.g.blocks.values():
            for e in B.elems:
                if e["k"] != "ReturnStmt" or not e.get("c") or B.id not in IT: continue
                v = const_eval(e["c"][0], {}, fn.db)
                if v is not None and bool(v) != p: continue
                ok = None
                for x in expand_test(ft, Loop(ft.g, -1, ()), e["c"][0], p):
                    if x[0] in ("call", "val"): continue
                    op, l, r = x
                    if op in ("<", "<="): l, r = r, l; op = {"<": ">", "<=": ">="}[op]
                    D = (ft.value(l, None) - ft.value(r, None)).subs(sub.get)
                    extra = [(k.subs(sub.get), st) for k, st in known(ft, IT, tt, B.id)]
                    ok = ok or measure(fn, L, op, D, b, why, "%s in %s" % (show(e["c"][0]), name(n)), extra)
                if not ok: return None
                got = ok
    return got


def flags(fn, L, tests):
    """variables that are exit tests on their own: staying needs this value"""
    out = {}
    for b, c, p in tests:
        for t in expand_test(fn, L, c, p) + [("val", plain(c), p)]:
            if t[0] == "val":
                n, q = t[1], t[2]
                while n is not None and n["k"] == "UnaryOperator" and n.get("op") == "!": n = plain(n["c"][0]); q = not q
                if n is not None and n["k"] in ("DeclRefExpr", "MemberExpr") and n.get("d"): out[n["d"]] = q
    return out


def advance(fn, L, tests, why):
    """on every way around the loop a variable has been compared with its value of the round before and found to have moved,
    always in the same direction"""
    fl = flags(fn, L, tests)
    g = fn.g
    cand = {d for d in fn.writes if fn.loop_writes(L, d) and any(b not in L.body for b, e in fn.writes[d]) or
            d in {p["d"] for p in fn.F.params} and fn.loop_writes(L, d)}

    def ev(F, n, bind, d):
        w = fn.touched(n)
        if not w: return None
        d = set(d)
        if n["k"] == "BinaryOperator" and n.get("op") == "=":
            t = plain(n["c"][0]); v = plain(n["c"][1])
            if t.get("d") in cand and t["k"] == "DeclRefExpr":
                tv, tt = text(v), text(t)
                for x in list(d):
                    if x[0] == "lt" and x[1] == tv and x[2] == tt: d.add(("ok", t["d"], "-"))
                    if x[0] == "lt" and x[2] == tv and x[1] == tt: d.add(("ok", t["d"], "+"))
            d = {x for x in d if not (x[0] == "lt" and x[3] & w or x[0] == "copy" and ({x[1]} & w) or x[0] == "flag" and x[1] in w)}
            if t["k"] == "DeclRefExpr" and v["k"] == "DeclRefExpr" and v.get("d") in cand and ("w", v["d"]) not in d:
                d.add(("copy", t["d"], v["d"]))
            if t.get("d") in fl:
                c = const_eval(v, {}, fn.db)
                if isinstance(c, bool): d.add(("flag", t["d"], c))
        else:
            d = {x for x in d if not (x[0] == "lt" and x[3] & w or x[0] == "copy" and x[1] in w or x[0] == "flag" and x[1] in w)}
        for i in w & cand: d.add(("w", i))
        return [frozenset(d)]

    def edge(F, c, p, d, bind):
        c = plain(c)
        while c is not None and c["k"] == "UnaryOperator" and c.get("op") == "!": c = plain(c["c"][0]); p = not p
        if c is None: return d
        if c["k"] == "DeclRefExpr" and c.get("d") in fl:
            if ("flag", c["d"], not p) in d: return None
            return d | {("flag", c["d"], p)}
        op = c.get("op")
        if c["k"] == "BinaryOperator" and op in ("<", ">", "<=", ">="):
            l, r = c["c"]
            if not p: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            if op == ">": l, r = r, l; op = "<"
            if op == "<":
                out = set(d)
                out.add(("lt", text(l), text(r), frozenset(i for i in ids(l) | ids(r) if i)))
                l, r = plain(l), plain(r)
                for a, b, sg in ((l, r, "+"), (r, l, "-")):
                    if a["k"] == b["k"] == "DeclRefExpr" and ("copy", a["d"], b["d"]) in d: out.add(("ok", b["d"], sg))
                return frozenset(out)
        return d
    P2 = PathsIn(fn.db, ev, edge); P2.body = L.body
    r = P2.run(fn.F, {(frozenset(), frozenset())}, start=L.h, header=L.h)
    dirs = {}; any_ = False
    for d, _ in r["header"]:
        if any(x[0] == "flag" and x[1] in fl and x[2] != fl[x[1]] for x in d): continue
        any_ = True
        ok = [x for x in d if x[0] == "ok"]
        if not ok:
            why.append("there is a way around the loop on which nothing is found to have moved"); return None
        for x in ok: dirs.setdefault(x[1], set()).add(x[2])
    if not any_: return None
    if any(len(v) > 1 for v in dirs.values()): return None
    return "left unless a bound has moved"


def modifier(db):
    """fields (by declaration) that a function may change, through its callees"""
    M = {}; calls = {}; fun = {}
    for F in db.all():
        s = set(); cs = []
        for n in F.walk():
            if n["k"] in CALLS:
                f = n.get("f"); ts = (db.resolve(f) or []) if f else []
                obj = n.get("obj") if n["k"] == "CXXMemberCallExpr" and not n.get("cm") else None
                o = plain(obj) if obj is not None else None
                od = {x for x in written(dict(n, c=[], pt=[])) if x} if obj is not None else set()
                if obj is not None and (ts or name(n) in ACCESS):
                    s |= {d for d in written(dict(n, obj=None)) if d}
                else: s |= {d for d in written(n) if d}; od = set()
                if ts: cs.append(([t.id for t in ts], od))
            elif n["k"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator"): s |= {d for d in written(n) if d}
        fld = {n["d"] for n in F.walk() if n["k"] == "MemberExpr" and n.get("dk") == "field" and n.get("d")}
        M[F.id] = s & fld; fun[F.id] = fld
        for n, ts in db.callees(F): cs.append(([t.id for t in ts], set()))
        calls[F.id] = cs
    ch = True
    while ch:
        ch = False
        for f, cs in calls.items():
            old = len(M[f])
            for ts, od in cs:
                for t in ts:
                    m = M.get(t)
                    if m: M[f] |= m | (od & fun[f])
            ch = ch or len(M[f]) != old
    return lambda F: M.get(F.id, set())


def results(fn, L, n, d):
    """the values an assignment can give to the variable d"""
    c = [y for y in n.get("c", []) if y]; op = n.get("op")
    if n["k"] not in ("BinaryOperator", "CompoundAssignOperator") or len(c) != 2 or plain(c[0]).get("d") != d: return []
    old = Poly.atom(("var", d)); r = plain(c[1])
    vs = [fn.value(y, L) for y in (r["c"][1:] if r["k"] == "ConditionalOperator" else [r])]
    if any(v is None for v in vs): return []
    if op == "=": return vs
    if op in ("+=", "-="): return [old + (v if op == "+=" else -v) for v in vs]
    if op in ("*=", "/="):
        ks = [v.constant() for v in vs]
        return [old * Poly.const(1 / k if op == "/=" else k) for k in ks] if all(ks) else []
    return []


def walk_to(fn, L):
    """a walk x += s towards a fixed end with a step that adapts itself: every way around the loop passes 'x is not at the end'
    and then moves x by s or to the end; a way that takes a step back makes s smaller by a constant factor and has found it
    not smaller than a constant"""
    g = fn.g; res = {}
    for b in sorted(L.body):
        for e in g.blocks[b].elems:
            if e["k"] not in ("CompoundAssignOperator", "BinaryOperator") or e.get("op") not in ("=", "+="): continue
            x = plain(e["c"][0])
            if x["k"] == "DeclRefExpr": res.setdefault(x["d"], []).extend(results(fn, L, e, x["d"]))
    for xd, vals in sorted(res.items()):
        xa = Poly.atom(("var", xd)); x = {"d": xd}
        for v in vals:
            sa = v - xa
            if len(sa.t) != 1 or list(sa.t.values()) != [1]: continue
            a = next(iter(atoms(sa)), None)
            if a is None or a[0] != "var" or sa.t != Poly.atom(a).t or not fn.loop_writes(L, a[1]): continue
            s = {"d": a[1]}
            ends = [y for y in vals if y.t and y.t != v.t and not any(fn.loop_writes(L, z[1]) for z in atoms(y) if z[0] == "var")]
            for end in ends:
                def ev(F, n, bind, d):
                    w = fn.touched(n)
                    if x["d"] not in w and s["d"] not in w: return None
                    d = set(d)
                    ts = results(fn, L, n, x["d"] if x["d"] in w else s["d"])
                    t = ts[0] if len(ts) == 1 else None
                    if x["d"] in w:
                        if t is not None and t.t == (xa - sa).t: d -= {"E"}; d.add("R")
                        elif ts and all(t.t == (xa + sa).t or t.t == end.t for t in ts): d.add("A" if "E" in d else "bad")
                        else: d |= {"bad"}
                    if s["d"] in w:
                        q = ratio(t, sa) if t is not None else None
                        if q is not None and abs(q) < 1: d.add("D")
                        d.discard("S")
                    return [frozenset(d)]

                def edge(F, c, p, d, bind):
                    for y in expand_test(fn, L, c, p):
                        if y[0] in ("call", "val"): continue
                        op, l, r = y
                        D = fn.value(l, L) - fn.value(r, L)
                        if op in ("!=", "<", ">") and ratio(D, xa - end) is not None: d = d | {"E"}
                        if op in ("<", "<="): l, r = r, l; op = ">"
                        k = fn.value(r, L).constant(); l = plain(l)
                        if op in (">", ">=") and k and k > 0 and l["k"] in CALLS and name(l) in ("abs", "fabs") and \
                                ratio(fn.value([z for z in l["c"] if z][0], L), sa) is not None and "D" not in d: d = d | {"M"}
                    return d
                P2 = PathsIn(fn.db, ev, edge); P2.body = L.body
                r = P2.run(fn.F, {(frozenset(), frozenset())}, start=L.h, header=L.h)
                ds = [d for d, _ in r["header"]]
                if ds and all("bad" not in d and "A" in d and ("R" not in d or {"D", "M"} <= d) for d in ds):
                    return "walks to its end with an adapted step"
    return None


def counted_or_grown(fn, L):
    """every way around the loop counts up an integer of its exit tests, or has found that a container has grown"""
    g = fn.g
    cs = set()
    for b in L.body:
        for s, c, p in g.edges(b):
            if c is not None and s not in L.body:
                cs |= {i for i in ids(c) if i in fn.decl and isint({"t": fn.decl[i].get("t")})}
    for i in sorted(cs):
        def ev(F, n, bind, d):
            k, gr, cop = d
            w = fn.touched(n)
            if n["k"] == "DeclStmt":
                for v in n.get("decls", []):
                    x = plain((v.get("c") or [None])[0])
                    if x is not None and x["k"] == "CXXMemberCallExpr" and name(x) == "size": cop = cop | {(v["d"], text(x))}
            elif n["k"] == "BinaryOperator" and n.get("op") == "=":
                x = plain(n["c"][1]); t = plain(n["c"][0])
                if t.get("d"): cop = frozenset(y for y in cop if y[0] != t["d"])
                if x["k"] == "CXXMemberCallExpr" and name(x) == "size" and t.get("d"): cop = cop | {(t["d"], text(x))}
            if i in w and n["k"] != "DeclStmt":
                dp = delta(fn, L, n, ("var", i), ())
                if dp is None: return [(None, gr, cop)]
                if not isinstance(dp, str):
                    q = dp.constant(); k = None if q is None or k is None else max(-5, min(5, k + q))
            return [(k, gr, frozenset(cop))]

        def edge(F, c, p, d, bind):
            for y in expand_test(fn, L, c, p):
                if y[0] in ("!=", "<", ">"):
                    l, r = plain(y[1]), plain(y[2])
                    if (l.get("d"), text(r)) in d[2] or (r.get("d"), text(l)) in d[2]: return (d[0], True, d[2])
            return d
        P2 = PathsIn(fn.db, ev, edge); P2.body = L.body
        r = P2.run(fn.F, {((0, False, frozenset()), frozenset())}, start=L.h, header=L.h)
        ds = [d for d, _ in r["header"]]
        if ds and all(gr or k is not None and k > 0 for k, gr, cop in ds): return True
    return False


def stalls(fn, L):
    """is there a way around the loop that changes nothing its exits depend on?"""
    g = fn.g; dep = set(); inner = set()
    for b in L.body:
        for e in g.blocks[b].elems:
            if e["k"] == "DeclStmt": inner |= {v.get("d") for v in e.get("decls", [])}
        if g.blocks[b].cond is not None: dep |= ids(g.blocks[b].cond)
    ch = True
    while ch:
        ch = False
        for b in L.body:
            for e in g.blocks[b].elems:
                if fn.touched(e) & dep:
                    n = ids(e) if e["k"] != "DeclStmt" else {i for v in e.get("decls", []) for x in v.get("c") or [] if x for i in ids(x)}
                    if not n <= dep: dep |= n; ch = True
    dep -= inner

    def ev(F, n, bind, d): return [True] if not d and fn.touched(n) & dep else None
    return False in around(fn, L, ev, False)


def excused(db, F):
    """the function, or the only ones that call it, are listed as undecided"""
    if not hasattr(db, "_c19callers"):
        db._c19callers = {}
        for G in db.all():
            for n, ts in db.callees(G):
                for t in ts: db._c19callers.setdefault(t.id, []).append(G)
    seen = set(); st = [F]; root = None
    while st:
        G = st.pop()
        if G.id in seen: continue
        seen.add(G.id)
        if G.q in UNDECIDED: root = G.q; continue
        cs = db._c19callers.get(G.id, [])
        if not cs: return None
        st += cs
    return root


def run(db, rep):
    mods = modifier(db)
    total = 0; kinds = {}; failed = []
    for F in db.all():
        where = F.loc()
        if any(s in where for s in SKIP) or F.d.get("cfg") is None: continue
        if not any(n["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "GotoStmt") for n in F.walk()): continue
        fn = Fn(db, F, mods)
        loops, dom = natural(fn.g)
        for i, L in enumerate(loops):
            total += 1
            r, why = decide(fn, L, dom)
            B = fn.g.blocks[L.h]
            t = next((fn.g.blocks[b].term for b in [L.h] + sorted(L.body) if fn.g.blocks[b].term is not None and fn.g.blocks[b].tk in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")), None)
            at = F.loc(t) if t is not None else where
            if r: rep.ok(); kinds[r.split(")")[-1].strip() or r] = kinds.get(r.split(")")[-1].strip() or r, 0) + 1
            else: failed.append((excused(db, F) or "", F, i, at, L, fn, why))
    left = dict(UNDECIDED)
    for root, F, i, at, L, fn, why in sorted(failed, key=lambda x: (x[1].q != x[0], x[1].q, x[2])):
        st = stalls(fn, L) or root in COUNTED and not counted_or_grown(fn, L)
        if left.get(root, 0) > 0 and not st:
            left[root] -= 1; rep.count("undecided_but_every_round_changes_something")
            continue
        if st: why = ["there is a way around the loop that changes nothing its exits depend on"] + why
        rep.bad("loop|%s|%d" % (F.q, i), at, "%s: no termination argument: %s" % (F.q, "; ".join(dict.fromkeys(why))))
    rep.count("loops", total)
    for k, v in sorted(kinds.items()): rep.count(k, v)
    rep.need(total >= 150, "only %d loops found" % total)
