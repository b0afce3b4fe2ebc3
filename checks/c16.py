"""Abstract interpretation of every model class over its control-flow graphs (sizes, constant indices and labels are followed
exactly, numerical values symbolically, both outcomes of undecided conditions are considered). Obligations per model: the
numbers of neutral and charged fields add up to the number of fields; the vacuum order has one distinct field index below the
number of fields per vacuum direction; every coupling tensor has the declared dimensions; ReadAndSet uses exactly one input
value per declared parameter, no input value for two parameters, and fills every entry of the parameter vector; set_gen and
set_CT_Pot_Par use no entry beyond the declared numbers and set_CT_Pot_Par uses every counterterm; calc_CT returns the declared
number of counterterms, in every case; addLegendCT, addLegendTemp, addLegendVEV and addLegendTripleCouplings give as many
labels as values are printed, without repetition, the vacuum labels in one order, and no counterterm label that names a
counterterm stored at another place; no constant or known index lies outside the array it is used on."""
from core import CheckError, CALLS
from poly import Rat
import vn, models, re

EXPLANATION = "Evaluates sizes, indices and labels of every model class and compares them with its declared numbers."
TENS = {"Curvature_Higgs_L1": "H", "Curvature_Higgs_L2": "HH", "Curvature_Higgs_L3": "HHH", "Curvature_Higgs_L4": "HHHH",
        "Curvature_Higgs_CT_L1": "H", "Curvature_Higgs_CT_L2": "HH", "Curvature_Higgs_CT_L3": "HHH", "Curvature_Higgs_CT_L4": "HHHH",
        "Curvature_Gauge_G2H2": "GGHH", "Curvature_Quark_F2H1": "QQH", "Curvature_Lepton_F2H1": "LLH",
        "Curvature_Quark_F2": "QQ", "Curvature_Lepton_F2": "LL"}
DIM = {"H": "NHiggs", "G": "NGauge", "Q": "NQuarks", "L": "NLepton"}


class Hook:
    """loop derivatives are unknown vectors of the documented sizes; values read from the input are numbered"""
    generic = True

    def __init__(self, nh=None): self.nh = nh; self.tok = 0

    def sign(self, a, b):
        """loop derivatives are not small"""
        if b.const_() is None or not any(str(x).startswith("w@") for x in atoms(a)): return None
        m = next(iter(a.n.t), ())
        return 1 if len(a.n.t) == 1 and len(m) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "abs" else None

    def call(self, run, n):
        q = n.get("q") or ""; m = q.split("::")[-1]
        if m in ("WeinbergFirstDerivative", "WeinbergSecondDerivative", "WeinbergThirdDerivative") and self.nh:
            k = {"F": 1, "S": 2, "T": 3}[m[8]]
            c = vn.Cont(sym="w@" + m); c.dims[()] = self.nh ** k
            return c
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n.get("c", [])) == 2:
            l = run.loc(n["c"][1])
            v = run.ev(n["c"][0])
            if l is not None and "basic_string" not in n["c"][1].get("t", ""):
                run.ntok = getattr(run, "ntok", 0) + 1
                run.set(l[0], l[1], Rat.atom("in@%d" % run.ntok))
                return v
        return NotImplemented


def strs(c):
    if not isinstance(c, vn.Cont) or c.size(()) is None: return None
    out = []
    for i in range(c.size(())):
        v = c.get((i,))
        out.append(v[1] if isinstance(v, tuple) and v and v[0] == "str" else None)
    return out


def ordinal(i): return "%d%s" % (i, {1: "st", 2: "nd", 3: "rd"}.get(i if i < 20 else 0, "th"))


def norm(s):
    s = re.sub(r"[^a-z0-9]", "", s.lower())
    return s[:-2] if s.endswith("ct") else s


def vevname(s): return re.sub(r"(\(t_?c\)|_?c)$", "", s.lower()).replace("{", "").replace("}", "").rstrip("_")


def atoms(v):
    if not isinstance(v, Rat): return set()
    def at(a):
        if isinstance(a, str): yield a
        elif isinstance(a, tuple):
            for x in a: yield from at(x)
    return {y for p in (v.n, v.d) for m in p.t for a, _ in m for y in at(a)}


def events(rep, M, r, said):
    for e in r.events:
        if e[0] != "index": continue
        F, n, x, size = e[1], e[2], e[3][-2], e[3][-1]
        if F is None or n is None: continue
        k = "index|%s" % F.loc(n)
        if k in said: continue
        said.add(k)
        rep.bad("index|%s|%s" % (M.name, F.n), F.loc(n), "%s: index %s used on an array of %s entries in %s" % (M.name, x, size, F.n))


def locals_of(F):
    """declaration -> name of the locals of F"""
    out = {}
    for n in F.walk():
        for v in n.get("decls", []) or []: out[v["d"]] = v["n"]
    return out


def vec(n, nm):
    def f():
        c = vn.Cont(sym=nm); c.dims[()] = n
        for i in range(n): c.cells[(i,)] = Rat.atom("%s@%s[%d]" % (nm, nm, i))
        return c
    return f


def one(db, q, rep):
    M = models.Model(db, q); said = set()
    for C, st in M.base():
        N = {k: M.const(st, k) for k in ("NHiggs", "NNeutralHiggs", "NChargedHiggs", "NGauge", "NQuarks", "NLepton", "nPar", "nParCT", "nVEV")}
        miss = [k for k in ("NHiggs", "nPar", "nParCT", "nVEV") if N[k] is None]
        if miss: rep.count("sizes_not_followed", len(miss)); continue
        rep.count("constructors")
        for e in st.get("#events", ()): pass
        if N["NNeutralHiggs"] is not None and N["NChargedHiggs"] is not None:
            rep.ok()
            if N["NNeutralHiggs"] + N["NChargedHiggs"] != N["NHiggs"]:
                rep.bad("fields|%s" % M.name, C.loc(), "%s: %d neutral and %d charged fields declared, but NHiggs is %d" % (M.name, N["NNeutralHiggs"], N["NChargedHiggs"], N["NHiggs"]))
        vo = None
        # ---- tensors and order of the vacuum directions
        sca = M.method("SetCurvatureArrays")
        outs, full = M.outcomes(st, [(sca, ())], hook=Hook(N["NHiggs"]))
        for r, v in outs:
            if isinstance(v, str): rep.count("paths_not_followed"); continue
            events(rep, M, r, said)
            o = r.state.get(M.key("VevOrder"))
            if isinstance(o, vn.Cont) and o.size(()) is not None:
                rep.ok(3); n = o.size(())
                xs = [o.get((i,)) for i in range(n)]; xs = [x.const_() if isinstance(x, Rat) else None for x in xs]
                if n != N["nVEV"]:
                    rep.bad("vevorder-size|%s" % M.name, sca.loc(), "%s: VevOrder has %d entries but nVEV is %d" % (M.name, n, N["nVEV"]))
                if None not in xs:
                    vo = xs
                    if len(set(xs)) < len(xs): rep.bad("vevorder-distinct|%s" % M.name, sca.loc(), "%s: VevOrder lists a field twice: %s" % (M.name, [int(x) for x in xs]))
                    if any(x < 0 or x >= N["NHiggs"] for x in xs): rep.bad("vevorder-range|%s" % M.name, sca.loc(), "%s: VevOrder entry outside 0..%d: %s" % (M.name, N["NHiggs"] - 1, [int(x) for x in xs]))
            else: rep.count("vevorder_not_followed")
            for t, dims in TENS.items():
                if t not in M.fields: continue
                c = r.state.get(M.key(t))
                if not isinstance(c, vn.Cont): continue
                sh = models.shape(c, len(dims))
                want = [N[DIM[d]] for d in dims]
                if sh is None or None in want: rep.count("tensor_sizes_not_followed"); continue
                rep.ok(); rep.count("tensor_sizes")
                if sh != want: rep.bad("tensor|%s|%s" % (M.name, t), sca.loc(), "%s: %s has dimensions %s but the declared numbers give %s" % (M.name, t, sh, want))
        # ---- counterterms
        setct = M.method("set_CT_Pot_Par")
        outs, full = M.outcomes(st, [(sca, ()), (setct, lambda: [vec(N["nParCT"], "par")()])], hook=Hook(N["NHiggs"]))
        names = None
        for r, v in outs:
            if isinstance(v, str): rep.count("paths_not_followed"); continue
            events(rep, M, r, said)
            used = set(); place = {}
            loc = locals_of(setct)
            for k, x in r.state.items():
                if isinstance(x, Rat):
                    a = x.n.t
                    if len(a) == 1 and x.d is Rat.P1:
                        m, c = next(iter(a.items()))
                        if c == 1 and len(m) == 1 and m[0][1] == 1 and str(m[0][0]).startswith("par@"):
                            i = int(m[0][0][8:-1])
                            nm = r.fieldinfo(k[1])["n"] if k[0] == "this" and r.fieldinfo(k[1]) else loc.get(k[1])
                            if nm: place.setdefault(i, set()).add(norm(nm))
                if k[0] != "this": continue
                for y in (x.cells.values() if isinstance(x, vn.Cont) else [x]):
                    used |= {a for a in atoms(y) if str(a).startswith("par@par[")}
            for i in range(N["nParCT"]):
                rep.ok(); rep.count("counterterms_used")
                if "par@par[%d]" % i not in used:
                    rep.bad("ctunused|%s|%d" % (M.name, i), setct.loc(), "%s: set_CT_Pot_Par leaves counterterm %d of %d unused" % (M.name, i, N["nParCT"]))
            names = names or place
        cc = M.method("calc_CT")
        flags = {M.key(f): True for f in ("SetCurvatureDone", "CalcCouplingsdone") if f in M.fields}
        outs, full = M.outcomes({**st, **flags}, [(cc, ())], hook=Hook(N["NHiggs"]))
        for r, v in outs:
            if v == "throw": continue
            if isinstance(v, str) or not isinstance(v[0], vn.Cont) or v[0].size(()) is None: rep.count("calc_ct_not_followed"); continue
            events(rep, M, r, said)
            rep.ok(); rep.count("calc_ct_cases")
            if v[0].size(()) != N["nParCT"]:
                rep.bad("calcct|%s" % M.name, cc.loc(), "%s: calc_CT returns %d counterterms but nParCT is %d%s" % (M.name, v[0].size(()), N["nParCT"], case(r)))
        # ---- parameters
        for fn in ("set_gen", "ReadAndSet"):
            F = M.method(fn)
            args = (lambda: [vec(N["nPar"], "par")()]) if fn == "set_gen" else (lambda: [vn.TOP, vec(N["nPar"], "old")()])
            holder = []
            def mk(fn=fn, args=args):
                a = args()
                return a
            outs, full = param_run(M, st, F, fn, N, rep)
            for r, v, par in outs:
                if isinstance(v, str): rep.count("paths_not_followed"); continue
                events(rep, M, r, said)
                rep.ok(); rep.count("parameter_readers")
                if fn == "ReadAndSet" and par is not None:
                    got = {}
                    for i in range(N["nPar"]):
                        x = par.get((i,))
                        if x is vn.TOP: continue
                        ts = {a for a in atoms(x) if str(a).startswith("in@")}
                        rep.ok(); rep.count("parameters_filled")
                        if any(str(a).startswith("old@") for a in atoms(x)):
                            rep.bad("unfilled|%s|%d" % (M.name, i), F.loc(), "%s: ReadAndSet does not fill parameter %d of %d" % (M.name, i, N["nPar"]))
                        elif not ts:
                            rep.bad("notread|%s|%d" % (M.name, i), F.loc(), "%s: parameter %d of %d does not depend on any input value after ReadAndSet" % (M.name, i, N["nPar"]))
                        for t in ts:
                            if len(ts) == 1 and x.same(Rat.atom(t)):
                                if t in got and got[t] != i:
                                    rep.bad("twice|%s|%d" % (M.name, i), F.loc(), "%s: ReadAndSet stores the %s input value as parameters %d and %d" % (M.name, ordinal(int(t[3:])), got[t], i))
                                got[t] = i
                    if par.size(()) != N["nPar"]:
                        rep.bad("parsize|%s" % M.name, F.loc(), "%s: ReadAndSet leaves %s parameters but nPar is %d" % (M.name, par.size(()), N["nPar"]))
                    rep.count("input_values", getattr(r, "ntok", 0))
        # ---- constant indices of the other functions of the model, as far as they can be followed
        for fn in ("TripleHiggsCouplings", "AdjustRotationMatrix", "VTreeSimplified", "VCounterSimplified", "write", "Debugging"):
            for F in M.own(fn):
                outs, full = M.outcomes({**st, **flags}, [(sca, ()), (F, lambda: [vec(N["NHiggs"], "v")() for _ in F.params])], hook=Hook(N["NHiggs"]), limit=2, steps=400000)
                for r, v in outs: events(rep, M, r, said); rep.count("other_functions")
        # ---- labels
        want = {"addLegendCT": N["nParCT"], "addLegendTemp": 3 + N["nVEV"], "addLegendVEV": N["nVEV"],
                "addLegendTripleCouplings": 3 * sum(1 for i in range(N["NHiggs"]) for j in range(i, N["NHiggs"]) for k in range(j, N["NHiggs"]))}
        lab = {}
        for fn, w in want.items():
            F = M.method(fn)
            outs, full = M.outcomes(st, [(F, ())], hook=Hook(N["NHiggs"]))
            for r, v in outs:
                L = strs(v[0]) if not isinstance(v, str) else None
                if L is None: rep.count("labels_not_followed"); continue
                events(rep, M, r, said)
                lab[fn] = L
                rep.ok(2); rep.count("labels", len(L))
                if len(L) != w and not (fn == "addLegendTripleCouplings" and template_like(M, L)):
                    rep.bad("labels|%s|%s" % (M.name, fn), F.loc(), "%s: %s gives %d labels but %d values are printed%s" % (M.name, fn, len(L), w, case(r)))
                dup = sorted({x for x in L if x is not None and L.count(x) > 1})
                if dup: rep.bad("duplicate|%s|%s" % (M.name, fn), F.loc(), "%s: %s gives the label %s more than once" % (M.name, fn, dup[0]))
        a, b = lab.get("addLegendTemp"), lab.get("addLegendVEV")
        if a and b and len(a) == len(b) + 3 and None not in a and None not in b:
            rep.ok(); a = [vevname(x) for x in a[3:]]; b = [vevname(x) for x in b]
            if a != b and sorted(a) == sorted(b):
                rep.bad("veworder|%s" % M.name, M.method("addLegendTemp").loc(), "%s: addLegendTemp lists the vacuum directions as %s, addLegendVEV as %s" % (M.name, a, b))
        L = lab.get("addLegendCT")
        if L and names:
            every = {}
            for i, s in names.items():
                for x in s: every.setdefault(x, set()).add(i)
            for i, x in enumerate(L):
                if x is None: continue
                rep.ok(); rep.count("counterterm_labels")
                js = every.get(norm(x))
                if js and i not in js:
                    rep.bad("ctlabel|%s|%d" % (M.name, i), M.method("addLegendCT").loc(), "%s: the label %s of counterterm %d names counterterm %d of set_CT_Pot_Par" % (M.name, x, i, min(js)))


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        st += x.get("c", []) or []
        if x.get("obj"): st.append(x["obj"])


def template_like(M, L): return False


def case(r):
    u = ["%s %s" % (F.loc(n).split(":")[-1], "holds" if v else "fails") for F, n, v in r.undecided[:4]]
    return " (line %s)" % ", ".join(u) if u else ""


def param_run(M, st, F, fn, N, rep):
    """[(run, result, parameter vector afterwards)]"""
    res = []
    def make(ch):
        s = vn.copystate({k: v for k, v in st.items() if k != "#events"})
        key = ("arg", "par")
        s[key] = vec(N["nPar"], "par" if fn == "set_gen" else "old")()
        r = vn.Run(M.db, M.q, state=s, choose=ch, hook=Hook(N["NHiggs"]), steps=3000000)
        ref = vn.Ref(key, ())
        try:
            r.call(F, [ref] if fn == "set_gen" else [vn.TOP, ref]); return r, "ok"
        except vn.Thrown: return r, "throw"
        except (vn.Abort, KeyError, RecursionError) as x: return r, "abort %r" % (x,)
    outs, full = vn.outcomes(make, 32)
    for r, x in outs:
        c = r.state.get(("arg", "par"))
        res.append((r, x if x != "ok" else [None], c if isinstance(c, vn.Cont) else None))
    return res, full


class Sub:
    def __init__(self): self.n = 0; self.counts = {}; self.viol = []
    def ok(self, n=1): self.n += n
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def bad(self, key, where, msg): self.viol.append((key, where, msg))


_DB = None


def work(q):
    s = Sub()
    try: one(_DB, q, s)
    except CheckError as e: return (q, str(e), None)
    return (q, None, (s.n, s.counts, s.viol))


def run(db, rep):
    global _DB
    import multiprocessing
    qs = models.classes(db)
    if not qs: raise CheckError("anchor vanished: no model classes")
    _DB = db
    for f in db.all(): f.index()
    with multiprocessing.get_context("fork").Pool(min(8, len(qs))) as pool:
        for q, err, res in pool.map(work, qs, chunksize=1):
            if err: raise CheckError(err)
            n, counts, viol = res
            rep.ok(n); rep.count("models")
            for k, c in counts.items(): rep.count(k, c)
            for v in viol: rep.bad(*v)
