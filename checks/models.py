"""The model classes as seen by the value numbering: states after construction, tensors, fields."""
from core import CheckError
from poly import Rat, Poly
import vn

ORIGIN = "BSMPT::Class_Potential_Origin"


def classes(db):
    out = []
    for q in sorted(db.derived(ORIGIN)):
        if q == ORIGIN: continue
        for r in db.rec_by_q.get(q, ())[:1]:
            if "/models/" in r["file"]: out.append(q)
    return out


class Model:
    def __init__(self, db, q):
        self.db = db; self.q = q; self.name = q.split("::")[-1]
        self.chain = vn.chain(db, q)
        self.fields = {}
        for c in self.chain:
            for r in db.rec_by_q.get(c, ())[:1]:
                for f in r["fields"]: self.fields.setdefault(f["n"], f)
        self.byd = {f["d"]: f for f in self.fields.values()}
        self.methods = [F for F in db.all() if F.cls in self.chain and F.body is not None and not F.d.get("lambda")]

    def key(self, n):
        f = self.fields.get(n)
        if f is None: raise CheckError("anchor vanished: member %s of %s" % (n, self.q))
        return ("this", f["d"])

    def method(self, n, required=True):
        for c in self.chain:
            for F in self.methods:
                if F.cls == c and F.n == n: return F
        if required: raise CheckError("anchor vanished: %s of %s" % (n, self.q))
        return None

    def own(self, n):
        return [F for F in self.methods if F.cls == self.q and F.n == n]

    def assigned(self):
        """members written outside constructors"""
        out = set()
        for F in self.methods:
            if F.d.get("ctor"): continue
            for n in F.walk():
                t = None
                if n["k"] in ("BinaryOperator",) and n.get("op") == "=" or n["k"] == "CompoundAssignOperator" or \
                        n["k"] == "UnaryOperator" and n.get("op") in ("++", "--"): t = n["c"][0]
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("=", "+="): t = n["c"][0]
                t = vn.core(t)
                if t is not None and t["k"] == "MemberExpr" and t.get("dk") == "field": out.add(t["d"])
        return out

    def base(self):
        """[state after construction], only what later calls do not change"""
        ctors = [F for F in self.db.all() if F.d.get("ctor") and F.cls == self.q and F.body is not None]
        ctors = [F for F in ctors if not any(self.name in p["t"] for p in F.params)]
        if not ctors: raise CheckError("anchor vanished: constructor of %s" % self.q)
        wr = self.assigned(); res = []
        for F in ctors:
            def make(ch):
                r = vn.Run(self.db, self.q, choose=ch)
                try: r.call(F, [vn.TOP] * len(F.params)); return r, "ok"
                except (vn.Abort, vn.Thrown) as x: return r, repr(x)
            outs, full = vn.outcomes(make, 16)
            for r, x in outs:
                if x != "ok": continue
                st = {}
                for k, v in r.state.items():
                    if k[0] != "this" or v is None or k[1] not in self.byd: continue
                    t = vn.bare(self.byd[k[1]]["t"])
                    if k[1] in wr: continue
                    if t in vn.INTS or t == "bool" or isinstance(v, tuple): st[k] = v
                    elif isinstance(v, vn.Cont) and v.cells and not any(x is None for x in v.cells.values()) and ("long" in t or "int" in t): st[k] = v
                st["#events"] = [e for e in r.events]
                res.append((F, st))
        return res

    def const(self, st, n):
        v = st.get(self.key(n))
        c = v.const_() if isinstance(v, Rat) else None
        return int(c) if c is not None else None

    def outcomes(self, st, calls, hook=None, limit=32, steps=3000000):
        """calls: list of (function, make args); runs them one after the other on copies of st"""
        def make(ch):
            s = vn.copystate({k: v for k, v in st.items() if k != "#events"})
            r = vn.Run(self.db, self.q, state=s, choose=ch, hook=hook, steps=steps); vals = []
            try:
                for F, a in calls: vals.append(r.call(F, a() if callable(a) else list(a)))
                return r, vals
            except vn.Thrown: return r, "throw"
            except (vn.Abort, KeyError, RecursionError) as x: return r, "abort %r" % (x,)
        return vn.outcomes(make, limit)


def tensor(state, key, rank):
    """explicit cells {index: Rat} and sizes, None if unknown somewhere"""
    c = state.get(key)
    if not isinstance(c, vn.Cont): return None
    out = {}

    def rec(p):
        n = c.size(p)
        if n is None: return False
        for i in range(n):
            q = p + (i,)
            if len(q) == rank:
                v = c.get(q)
                if not isinstance(v, Rat): return False
                if not v.zero(): out[q] = v
            elif not rec(q): return False
        return True
    return out if rec(()) else None


def shape(c, rank):
    out = []; p = ()
    for _ in range(rank):
        n = c.size(p)
        if n is None: return None
        out.append(n); p += (0,)
    return out
