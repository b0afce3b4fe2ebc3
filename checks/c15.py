"""Value numbering in the domain of polynomials: each model's constructor, SetCurvatureArrays and set_CT_Pot_Par are
evaluated over their control-flow graphs with all parameters unknown (every yukawa type and option considered), which gives
every tensor entry as a polynomial in the parameters. Obligations, all decided as identities of normal forms: (a) each
scalar tensor of rank two to four, tree-level and counterterm, is equal under every exchange of neighbouring indices, the
gauge tensors under exchange of the gauge and of the field indices, the fermion tensors under exchange of the fermion
indices; (b) where a model uses hand-written potentials, they equal the sum of the tensors contracted with the fields, for
arbitrary values of all vacuum directions; (c) whatever linear relation holds between tree-level entries holds between the
counterterm entries at the same places (so each is the image of its tree-level entry under one replacement of parameters),
apart from linear terms and from extra counterterms that have no tree-level partner; (d) the generic tree-level and
counterterm potentials, evaluated for symbolic tensors, equal the tensor contraction and their n-th derivative variant
equals its derivative."""
from fractions import Fraction
from itertools import product
from core import CheckError
from poly import Rat, Poly
import vn, models

EXPLANATION = "Compares tensor entries, hand-written potentials and counterterm tensors of every model class as polynomial identities."
FACT = {1: 1, 2: 2, 3: 6, 4: 24}
NAMES = {1: "L1", 2: "L2", 3: "L3", 4: "L4"}


class Generic:
    generic = True


def show(p):
    s = str(p)
    return s.replace("f@", "") if len(s) < 110 else s.replace("f@", "")[:107] + "..."


def loc_of(M, fn, r, key, idx):
    w = r.writes.get((key, idx)) if getattr(r, "writes", None) is not None else None
    return w[0].loc(w[1]) if w else fn.loc()


def symmetric(M, fn, r, state, name, rank, groups, rep):
    key = M.key(name)
    T = models.tensor(state, key, rank)
    if T is None: rep.count("tensors_not_followed"); return
    rep.count("tensors"); bad = None
    Z = Rat.const(0)
    for idx in T:
        for a, b in groups:
            j = list(idx); j[a], j[b] = j[b], j[a]; j = tuple(j)
            if j == idx: continue
            rep.ok(); rep.count("symmetry_relations")
            o = T.get(j, Z)
            if not T[idx].same(o):
                bad = bad or (idx, j, T[idx], o)
    if bad:
        idx, j, x, y = bad
        rep.bad("symmetry|%s|%s" % (M.name, name), loc_of(M, fn, r, key, idx if len(idx) == rank else j),
                "%s: %s%s = %s but %s = %s" % (M.name, name, sub(idx), show(x), sub(j), show(y)))


def sub(i): return "".join("[%d]" % x for x in i)


def contraction(T, vs):
    """sum of the tensors over the fields vs: {index: Rat}"""
    out = Rat.const(0); terms = {}
    for rank, t in T.items():
        for idx, x in t.items():
            if any(i not in vs for i in idx): continue
            k = tuple(sorted(idx)); terms[k] = terms.get(k, Rat.const(0)) + x * Rat.const(Fraction(1, FACT[rank]))
    for k, x in terms.items():
        for i in k: x = x * vs[i]
        out = out + x
    return out


def field_arg(n, vs):
    c = vn.Cont(Rat.const(0)); c.dims[()] = n
    for i, v in vs.items(): c.cells[(i,)] = v
    return c


def simplified(M, st, r, what, pref, fname, flag, rep):
    F = M.method(fname); n = M.const(st, "NHiggs")
    order = st.get(M.key("VevOrder"))
    if n is None or not isinstance(order, vn.Cont): rep.count("potentials_not_followed"); return
    idx = [x.const_() for x in order.cells.values() if isinstance(x, Rat)]
    if len(idx) != len(order.cells) or any(i is None for i in idx): rep.count("potentials_not_followed"); return
    sym = {int(i): Rat.atom("v@v%d" % int(i)) for i in idx}
    T = {k: models.tensor(r.state, M.key("Curvature_Higgs_%s%s" % (pref, NAMES[k])), k) for k in NAMES}
    if any(t is None for t in T.values()): rep.count("potentials_not_followed"); return
    full_ref = contraction(T, sym); base = dict(r.state); names = sorted(sym)
    if M.const(base, "NHiggs") is None: return
    for mask in range(2 ** len(names)) if base.get(M.key(flag)) is not False else (0,):
      zero = {i for k, i in enumerate(names) if mask >> k & 1}
      vs = {i: Rat.const(0) if i in zero else x for i, x in sym.items()}
      ref = at_zero(full_ref, {"v@v%d" % i for i in zero})
      outs, full = M.outcomes(base, [(F, lambda: [field_arg(n, vs)])], hook=Generic())
      for ro, vals in outs:
          if isinstance(vals, str) or not isinstance(vals[0], Rat): rep.count("potentials_not_followed"); continue
          used = base.get(M.key(flag))
          if used is not True and (vals[0].zero() or used is not None):
              rep.count("hand_written_potentials_not_in_use"); continue
          rep.ok(); rep.count("hand_written_potentials")
          if not vals[0].same(ref):
              d = vals[0] - ref
              one = Rat(Poly(dict([sorted(d.n.t.items(), key=str)[0]])), d.d)
              rep.bad("simplified|%s|%s" % (M.name, fname), F.loc(), "%s: %s differs from the potential given by the tensors by %s%s" % (
                  M.name, fname, show(one), "" if len(d.n.t) == 1 else " and %d more terms" % (len(d.n.t) - 1)))


def vec(r):
    """coefficients over monomials"""
    if r.d is not Rat.P1: return None
    return dict(r.n.t)


def ct_form(M, fn, r, rep):
    rows = []
    for k in (2, 3, 4):
        A = models.tensor(r.state, M.key("Curvature_Higgs_" + NAMES[k]), k)
        B = models.tensor(r.state, M.key("Curvature_Higgs_CT_" + NAMES[k]), k)
        if A is None or B is None: rep.count("ct_not_followed"); return
        for i in sorted(set(A) | set(B)):
            if list(i) != sorted(i): continue
            a = vec(A.get(i, Rat.const(0))); b = vec(B.get(i, Rat.const(0)))
            if a is None or b is None: rep.count("ct_not_followed"); return
            rows.append((k, i, a, b))
    # parameters without a tree-level partner: not needed in any entry whose tree-level entry is a single parameter
    def syms(b): return {a for m in b for a, _ in m if not (isinstance(a, tuple) and a[0] == "sqrt")}
    lone = set()
    for k, i, a, b in rows:
        if not a and len(syms(b)) == 1: lone |= syms(b)
    paired = set()
    for k, i, a, b in rows:
        if len(a) == 1 and len(syms(b)) == 1: paired |= syms(b)
    extra = lone - paired
    piv = []          # (leading monomial, a, b, origin)
    nbad = 0
    for k, i, a, b in rows:
        b = {m: c for m, c in b.items() if not ({x for x, _ in m} & extra)}
        a = dict(a)
        for lead, pa, pb, po in piv:
            c = a.get(lead)
            if c:
                for m, x in pa.items():
                    n = a.get(m, 0) - c * x
                    if n: a[m] = n
                    else: a.pop(m, None)
                for m, x in pb.items():
                    n = b.get(m, 0) - c * x
                    if n: b[m] = n
                    else: b.pop(m, None)
        rep.ok(); rep.count("counterterm_entries")
        if a:
            lead = sorted(a, key=str)[0]; c = a[lead]
            piv.append((lead, {m: x / c for m, x in a.items()}, {m: x / c for m, x in b.items()}, (k, i)))
        elif b:
            nbad += 1
            if nbad > 1: continue
            key = M.key("Curvature_Higgs_CT_" + NAMES[k])
            rep.bad("ctform|%s" % M.name, loc_of(M, fn, r, key, i), "%s: Curvature_Higgs_CT_%s%s is not the tree-level entry with its parameters replaced by their counterterms (difference %s)" % (
                M.name, NAMES[k], sub(i), show(Poly(b))))
    # the replacement is one parameter for one parameter, with a plain factor
    rep.count("counterterm_extras", len(extra))
    for lead, pa, pb, (k, i) in piv: pass


def generic(db, rep):
    """VTree and CounterTerm of the base class for symbolic symmetric tensors of three fields"""
    M = models.Model(db, models.ORIGIN)
    N = 3
    for fname, pref, flag in (("VTree", "", "UseVTreeSimplified"), ("CounterTerm", "CT_", "UseVCounterSimplified")):
        F = M.method(fname)
        if len(F.params) != 3: raise CheckError("anchor vanished: %s(v, diff, explicit)" % fname)
        st = {M.key("NHiggs"): Rat.const(N), M.key(flag): False}
        T = {}
        for k in NAMES:
            c = vn.Cont(); c.dims[()] = N; c.dd = {i: N for i in range(1, k)}
            T[k] = {}
            for i in product(range(N), repeat=k):
                T[k][i] = c.cells[i] = Rat.atom("t@%s%s" % (NAMES[k], "".join(map(str, sorted(i)))))
            st[M.key("Curvature_Higgs_%s%s" % (pref, NAMES[k]))] = c
        sym = {i: Rat.atom("v@v%d" % i) for i in range(N)}
        full_V = contraction(T, sym)
        # with every subset of the fields zero, too: guards on zero fields may not change the result
        for explicit, mask in product((True, False), range(2 ** N)):
            vs = {i: sym[i] if not mask >> i & 1 else Rat.const(0) for i in range(N)}
            V = full_V
            for diff in range(0, N + 1):
                ref = V if diff == 0 else derivative(V, "v@v%d" % (diff - 1))
                ref = at_zero(ref, {"v@v%d" % i for i in range(N) if mask >> i & 1})
                outs, full = M.outcomes(st, [(F, lambda: [field_arg(N, vs), Rat.const(diff), explicit])], hook=Generic())
                for r, vals in outs:
                    if isinstance(vals, str) or not isinstance(vals[0], Rat): rep.count("generic_not_followed"); continue
                    rep.ok(); rep.count("generic_potentials")
                    if not vals[0].same(ref):
                        rep.bad("generic|%s|%s" % (fname, "value" if diff == 0 else "derivative"), F.loc(r.last) if r.last is not None else F.loc(),
                                "%s with diff=%d is not the %s of the contraction of the tensors with the fields (difference %s)" % (
                                    fname, diff, "value" if diff == 0 else "derivative", show(vals[0] - ref)))


def at_zero(r, atoms):
    return Rat(Poly({m: c for m, c in r.n.t.items() if not ({x for x, _ in m} & atoms)}), r.d)


def derivative(r, a):
    out = {}
    for m, c in r.n.t.items():
        d = dict(m); e = d.get(a, 0)
        if not e: continue
        d[a] = e - 1
        k = tuple((x, y) for x, y in m if x != a) + (((a, e - 1),) if e > 1 else ())
        k = tuple(sorted(k, key=lambda p: (str(p[0]), p[1])))
        out[k] = out.get(k, 0) + c * e
    return Rat(Poly(out), r.d)


def one(db, q, rep):
    M = models.Model(db, q)
    sca, ct = M.method("SetCurvatureArrays"), M.method("set_CT_Pot_Par")
    said = set()
    for C, st in M.base():
        npar = M.const(st, "nParCT")
        def par():
            c = vn.Cont(sym="par"); c.dims[()] = npar
            for i in range(npar or 0): c.cells[(i,)] = Rat.atom("par@par[%d]" % i)
            return [c]
        outs, full = M.outcomes(st, [(sca, ())], hook=Generic())
        for r, vals in outs:
            if isinstance(vals, str): rep.count("models_not_followed"); continue
            rep.count("model_variants")
            for k, gr in ((2, ((0, 1),)), (3, ((0, 1), (1, 2))), (4, ((0, 1), (1, 2), (2, 3)))):
                symmetric(M, sca, r, r.state, "Curvature_Higgs_" + NAMES[k], k, gr, rep)
            symmetric(M, sca, r, r.state, "Curvature_Gauge_G2H2", 4, ((0, 1), (2, 3)), rep)
            for f in ("Quark", "Lepton"):
                symmetric(M, sca, r, r.state, "Curvature_%s_F2H1" % f, 3, ((0, 1),), rep)
                symmetric(M, sca, r, r.state, "Curvature_%s_F2" % f, 2, ((0, 1),), rep)
            key = tuple(sorted((str(k), str(v)) for k, v in st.items() if k != "#events"))
            if key in said: continue
            said.add(key)
            simplified(M, st, r, "tree", "", "VTreeSimplified", "UseVTreeSimplified", rep)
            o2, full2 = M.outcomes(dict(r.state), [(ct, par)], hook=Generic())
            for r2, v2 in o2:
                if isinstance(v2, str): rep.count("models_not_followed"); continue
                for k, gr in ((2, ((0, 1),)), (3, ((0, 1), (1, 2))), (4, ((0, 1), (1, 2), (2, 3)))):
                    symmetric(M, ct, r2, r2.state, "Curvature_Higgs_CT_" + NAMES[k], k, gr, rep)
                ct_form(M, ct, r2, rep)
                simplified(M, st, r2, "counterterm", "CT_", "VCounterSimplified", "UseVCounterSimplified", rep)


class Sub:
    """collects what a worker found"""
    def __init__(self): self.n = 0; self.counts = {}; self.viol = []
    def ok(self, n=1): self.n += n
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def bad(self, key, where, msg): self.viol.append((key, where, msg))


_DB = None


def work(q):
    s = Sub()
    try:
        if q is None: generic(_DB, s)
        else: one(_DB, q, s)
    except CheckError as e: return (q, str(e), None)
    return (q, None, (s.n, s.counts, s.viol))


def run(db, rep):
    global _DB
    import multiprocessing
    qs = models.classes(db)
    if not qs: raise CheckError("anchor vanished: no model classes")
    _DB = db
    for f in db.all(): f.index()
    with multiprocessing.get_context("fork").Pool(min(8, len(qs) + 1)) as pool:
        res = pool.map(work, qs + [None], chunksize=1)
    for q, err, x in res:
        if err: raise CheckError(err)
        n, counts, viol = x
        rep.ok(n)
        for k, v in counts.items(): rep.count(k, v)
        for v in viol: rep.bad(*v)
    rep.count("models", len(qs))
