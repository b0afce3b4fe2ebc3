"""For every loop of a program that reads the input table: (a) a parameter point is set up (initModel) only from the string
filled by a getline whose success was tested on every path to it; (b) the line counter differs from the number of the line
just read by a constant on every path (dataflow over counter minus number of lines read); (c) conditional constant
propagation from the edge on which a line was read, for every order of the line number, the first and the last requested
line and the header, shows that the line is computed on every path if it is requested and no header, that it is not
computed on any path otherwise, that the header and only the header is used as the header, and that the loop does not end
before the last requested line except at the end of the file or with an error - each once with more file to come and once with the
line being the last of a file without a final newline; (d) after a failed getline no further one
is reached."""
from core import walk, CALLS
from cfg import CFG, skip_casts, const_eval, key_of, ccp_reach
from util import programs, program_functions, graph, pgraph, Scenario, ends_block
from options import Program
from c08 import clean

EXPLANATION = "Line selection of the programs' input loops, decided for every order of line number, first and last line."


def is_getline(n): return n["k"] == "CallExpr" and (n.get("q") or "").split("<")[0] == "std::getline" and len(n.get("c", [])) >= 2 and "fstream" in skip_all(n["c"][0]).get("t", "")


def skip_all(n):
    n = skip_casts(n)
    return n


class Reader:
    """a function that reads lines of the table"""
    def __init__(s, db, m, F): s.db = db; s.m = m; s.F = F


def init_call(n):
    return n["k"] in CALLS and (n.get("q") or "").split("::")[-1] == "initModel"


def header_call(n):
    return n["k"] in CALLS and (n.get("q") or "").split("::")[-1] == "setUseIndexCol"


def run(db, rep):
    mains = programs(db)
    rep.need(len(mains) >= 8, "only %d programs" % len(mains))
    rep.count("programs", len(mains))
    for m in mains:
        prog = m.file.split("/")[-1].split(".")[0]
        P = Program(db, m); P.flows()
        readers = []
        for F in program_functions(db, m):
            gl = [n for n in F.walk() if is_getline(n)]
            # a helper that only wraps getline counts as a read in its callers
            if gl: readers.append((F, gl))
        rep.need(bool(readers) or any(is_getline(n) for F in db.all() for n in F.walk() if F.file == m.file) , "%s reads no table" % prog) if prog in ("BSMPT", "CalcCT", "CalcGW", "CalcTemps", "MinimaTracer", "NLOVEV", "PotPlotter", "Test", "TripleHiggsNLO", "VEVEVO") else None
        for F, gl in readers:
            Loop(db, rep, m, prog, P, F, gl).check()
    return


class Loop:
    def __init__(s, db, rep, m, prog, P, F, gl):
        s.db = db; s.rep = rep; s.m = m; s.prog = prog; s.P = P; s.F = F
        s.gl = {id(n): n for n in gl}
        s.g = graph(db, F); s.pg = pgraph(db, F)
        s.line = {key_of(n["c"][1]) for n in gl}
        s.strm = {key_of(n["c"][0]) for n in gl}
        s.wrap = {}

    # ------------------------------------------------------------ events
    def events(s, kind=init_call):
        """call nodes of F that (through helpers of the program) do the action; id -> (node, is direct)"""
        out = {}
        for n in s.F.walk():
            if kind(n): out[id(n)] = n
            elif n["k"] in CALLS and n.get("own") and n.get("f"):
                for t in s.db.resolve(n["f"]):
                    if t.file == s.m.file and t is not s.F and s.deep(t, kind): out[id(n)] = n
        return out

    def deep(s, t, kind, seen=None):
        seen = seen if seen is not None else set()
        if t.id in seen: return False
        seen.add(t.id)
        for n in t.walk():
            if kind(n): return True
            if n["k"] in CALLS and n.get("own") and n.get("f") and any(x.file == s.m.file and s.deep(x, kind, seen) for x in s.db.resolve(n["f"])): return True
        return False

    # ------------------------------------------------------------ success tests
    def read_test(s, c, p):
        """condition c with value p: the last getline succeeded (True), failed (False), no statement (None)"""
        neg = False; c = skip_casts(c)
        while c is not None and (c["k"] == "UnaryOperator" and c["op"] == "!" or c["k"] in ("ExprWithCleanups", "ParenExpr")):
            neg = neg != (c["k"] == "UnaryOperator"); c = skip_casts(c["c"][0])
        if c is None: return None
        if c["k"] == "DeclRefExpr" and c.get("dk") == "var" and "bool" in c.get("t", ""):
            for v in s.F.walk():
                if v["k"] == "VarDecl" and v["d"] == c["d"] and v.get("c") and v["c"][0]: return s.read_test(v["c"][0], p != neg)
            return None
        if c["k"] == "BinaryOperator" and c["op"] in ("==", "!="):
            for a, b in ((c["c"][0], c["c"][1]), (c["c"][1], c["c"][0])):
                v = const_eval(b, {})
                if isinstance(v, bool): return s.read_test(a, (p if (c["op"] == "==") == v else not p) != neg)
        if c["k"] in ("CXXStaticCastExpr", "CXXFunctionalCastExpr"): return s.read_test(c["c"][0], p != neg)
        o = None; last = None
        if c["k"] == "CXXMemberCallExpr": o = skip_casts(c.get("obj")); last = c["q"].split("::")[-1]
        elif c["k"] == "CXXOperatorCallExpr" and c.get("op") == "!": o = skip_casts(c["c"][0]); last = "operator!"
        elif id(c) in s.gl: o = c; last = "operator bool"
        if o is None: return None
        if not (id(o) in s.gl or key_of(o) in s.strm): return None
        v = {"operator bool": True, "fail": False, "operator!": False, "good": True}.get(last)
        if v is None: return None
        r = (p != neg) == v
        if last == "good" and not r: return None
        return r

    def check(s):
        rep, F, g = s.rep, s.F, s.g
        if not g.ok: return
        ev = s.events(); hd = s.events(header_call)
        if not ev and not s.owns_events(): return
        if not ev: rep.count("loops_not_followed"); return
        rep.count("table_loops")
        # (a) state of the last read, (b) counter offsets, forward dataflow
        counters = {}
        for n in F.walk():
            if n["k"] == "VarDecl" and n["t"].replace("const ", "") in ("int", "unsigned int", "std::size_t", "size_t", "long", "unsigned long") and n.get("c") and isinstance(const_eval(n["c"][0], {}), int):
                counters[n["d"]] = n
        IN = {g.entry: ("init", ("=", 0), {})}
        work = [g.entry]; rounds = 0

        def merge(a, b):
            st = a[0] if a[0] == b[0] else "mix"
            r = a[1] if a[1] == b[1] else (">=", min(a[1][1], b[1][1]))
            off = {k: v for k, v in a[2].items() if b[2].get(k) == v}
            for k in list(a[2]) + list(b[2]):
                if k not in off: off[k] = None
            # a counter declared on one side only is not live at the merge
            for k in off:
                if (k in a[2]) != (k in b[2]): off[k] = a[2].get(k, b[2].get(k))
            return (st, r, off)

        def step(n, st):
            a, r, off = st
            if id(n) in s.gl:
                return ("pend", (r[0], r[1] + 1), {k: (v - 1 if v is not None else None) for k, v in off.items()})
            k = n["k"]
            if k == "DeclStmt":
                for v in n.get("decls", []):
                    if v.get("d") in counters:
                        off = dict(off); off[v["d"]] = const_eval(v["c"][0], {}) - r[1] if r[0] == "=" else None
            elif k in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator"):
                d = key_of(n["c"][0])
                if d in counters and (k != "BinaryOperator" or n["op"] == "=") and not (k == "UnaryOperator" and n["op"] not in ("++", "--", "&")):
                    off = dict(off); x = None
                    if k == "UnaryOperator" and n["op"] in ("++", "--"): x = 1 if n["op"] == "++" else -1
                    elif k == "CompoundAssignOperator" and n["op"] in ("+=", "-="):
                        x = const_eval(n["c"][1], {}); x = -x if n["op"] == "-=" and isinstance(x, int) else x
                    elif k == "BinaryOperator":
                        rh = skip_casts(n["c"][1])
                        if rh["k"] == "BinaryOperator" and rh["op"] in ("+", "-") and key_of(rh["c"][0]) == d:
                            x = const_eval(rh["c"][1], {}); x = -x if rh["op"] == "-" and isinstance(x, int) else x
                        elif rh["k"] == "BinaryOperator" and rh["op"] == "+" and key_of(rh["c"][1]) == d: x = const_eval(rh["c"][0], {})
                        elif isinstance(const_eval(rh, {}), int) and r[0] == "=": off[d] = const_eval(rh, {}) - r[1]; return (a, r, off)
                    off[d] = off[d] + x if off.get(d) is not None and isinstance(x, int) else None
            return (a, r, off)

        def flow(B, st, watch=None):
            for n in B.elems:
                if watch: watch(n, st)
                st = step(n, st)
            return st
        while work and rounds < 5000:
            rounds += 1
            b = work.pop(0)
            o = flow(g.blocks[b], IN[b])
            for t, c, p in s.pg.edges(b):
                x = o
                if c is not None and isinstance(p, bool):
                    r = s.read_test(c, p)
                    if r is not None and x[0] in ("pend", "ok", "bad", "mix"): x = ("ok" if r else "bad", x[1], x[2])
                n = x if t not in IN else merge(IN[t], x)
                if t not in IN or n != IN[t]:
                    IN[t] = n; work.append(t)
        # (a)
        seen = set()

        def watch(n, st):
            if id(n) in ev and id(n) not in seen:
                seen.add(id(n)); rep.ok(); rep.count("computations_from_a_line")
                if st[0] != "ok":
                    rep.bad("unread|" + s.prog, F.loc(n), "%s computes a parameter point from a line although reading it was not seen to succeed on every path" % s.prog)
                a = s.line_arg(n)
                if a is False:
                    rep.bad("source|" + s.prog, F.loc(n), "%s computes a parameter point from something other than the line just read" % s.prog)
        for b, st in IN.items(): flow(g.blocks[b], st, watch)
        # (c)
        fields = {}
        for r in [r for rs in s.db.rec_by_q.values() for r in rs if r["file"] == s.m.file]:
            for f in r["fields"]:
                for k in s.P.taint.get(f["d"], ()):
                    if k in ("firstline", "lastline", "line") and len(s.P.taint[f["d"]]) == 1: fields.setdefault(k, []).append(f["d"])
        # local copies of the bounds
        for G in program_functions(s.db, s.m):
            X = G
            while X.d.get("lambda") and X.owner is not None: X = X.owner
            for (fid, d), ks in [(k, v) for k, v in s.P.taint.items() if isinstance(k, tuple)]:
                if fid == X.id and len(ks) == 1 and next(iter(ks)) in ("firstline", "lastline", "line"):
                    dn = [n for n in G.walk() if n["k"] == "VarDecl" and n["d"] == d] + [p for p in G.params if p["d"] == d]
                    if dn and clean(dn[0]["t"]) in ("int", "unsigned int", "size_t", "std::size_t", "long"): fields.setdefault(next(iter(ks)), []).append(d)
        starts = []
        for b in IN:
            for t, c, p in s.pg.edges(b):
                if c is not None and isinstance(p, bool) and s.read_test(c, p) is True: starts.append((t, flow(g.blocks[b], IN[b])))
        fails = []
        for b in IN:
            for t, c, p in s.pg.edges(b):
                if c is not None and isinstance(p, bool) and s.read_test(c, p) is False: fails.append((t, c))
        for t, c in fails:
            rep.ok(); rep.count("end_of_file_edges")
            R = s.pg.reach(t)
            if any(id(e) in s.gl for b in R for e in g.blocks[b].elems):
                rep.bad("eof|" + s.prog, F.loc(c), "%s goes on reading after the end of the file" % s.prog)
        if not starts: return
        if "line" in fields and "firstline" not in fields: bounds = [((fields["line"], v),) for v in range(2, 5)]; rng = [(v, v) for v in range(2, 5)]
        elif "firstline" in fields and "lastline" in fields:
            rng = [(a, b) for a in range(1, 5) for b in range(a, 5)]
            bounds = [((fields["firstline"], a), (fields["lastline"], b)) for a, b in rng]
        else:
            rep.count("loops_not_followed"); return
        hdv = s.header_source(hd)
        if hdv: rep.count("header_uses")
        for i, n in hd.items():
            if hdv or not header_call(n): continue
            ks = {key_of(y) for y in walk(n) if y["k"] == "DeclRefExpr" and "string" in y.get("t", "") and y.get("dk") == "var"}
            for k in ks:
                rep.ok()
                decl = [v for v in F.walk() if v["k"] == "VarDecl" and v["d"] == k]
                if not decl or [c for c in decl[0].get("c", []) if c and not (c["k"] == "CXXConstructExpr" and not c.get("c"))]: continue
                used = [y for y in F.walk() if y["k"] == "DeclRefExpr" and y.get("d") == k]
                if not any(s.written(y) for y in used):
                    rep.bad("header|" + s.prog, F.loc(n), "%s: the header line is never stored before it is used" % s.prog)
        done = set()
        for t, st in starts:
            _, r, off = st
            ns = [r[1]] if r[0] == "=" else range(max(r[1], 1), 6)
            for n in ns:
                env = {d: n + o for d, o in off.items() if o is not None}
                lost = [d for d, o in off.items() if o is None and s.is_line_counter(d, fields)]
                if lost:
                    key = "counter|" + s.prog
                    if key not in done:
                        done.add(key); rep.bad(key, F.loc(counters[lost[0]]), "%s: the line counter %s is not in step with the lines read on every path" % (s.prog, counters[lost[0]]["n"]))
                    continue
                for bd, (a, b) in zip(bounds, rng):
                    pin = {d: v for ds, v in bd for d in ds}
                    rep.ok(); rep.count("line_situations")
                    s.situation(t, env, pin, n, a, b, ev, hdv, done)
                    # the same line, now the last of a file that does not end with a newline
                    rep.ok(); rep.count("line_situations")
                    s.situation(t, env, pin, n, a, b, ev, hdv, done, eof=True)

    def written(s, y):
        p = s.F.parent(y)
        if p is None: return True
        if p["k"] == "CXXOperatorCallExpr": return p.get("op") in ("=", "+=", ">>")
        if p["k"] == "CXXMemberCallExpr" and p.get("obj") is y: return not p.get("cm")
        if p["k"] in CALLS and p["k"] != "CXXConstructExpr":
            i = next((i for i, a in enumerate(p.get("c", [])) if a is y), None); pt = p.get("pt", [])
            return i is None or i >= len(pt) or pt[i].endswith("&") and not pt[i].startswith("const")
        if p["k"] in ("CXXConstructExpr",) or p["k"].endswith("CastExpr"): return False
        return p["k"] == "LambdaExpr"

    def owns_events(s): return False

    def is_line_counter(s, d, fields):
        """is the counter compared with a bound or the header number, or does it steer the computation?"""
        fs = {x for v in fields.values() for x in v}
        for n in s.F.walk():
            if n["k"] == "BinaryOperator" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
                ks = {key_of(n["c"][0]), key_of(n["c"][1])}
                if d in ks and ks & fs: return True
        return False

    def line_arg(s, n):
        """True/False/None: the computation at n uses the string filled by getline"""
        args = [a for a in n.get("c", []) if a is not None and "string" in a.get("t", "")]
        if not init_call(n):
            return None
        if not args: return None
        return s.is_line(args[0], 0)

    def is_line(s, a, depth):
        a = skip_casts(a)
        while a is not None and a["k"] in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len(a.get("c", [])) >= 1: a = skip_casts(a["c"][0])
        k = key_of(a)
        if k is None: return None
        if k in s.line: return True
        if depth > 3: return None
        for v in s.F.walk():
            if v["k"] == "VarDecl" and v["d"] == k:
                if not v.get("c") or v["c"][0] is None: break
                x = [y for y in walk(v["c"][0]) if key_of(y) is not None and "string" in y.get("t", "")]
                if any(s.is_line(y, depth + 1) for y in x): return True
        # assigned from the line unconditionally somewhere?
        asg = [n for n in s.F.walk() if n.get("op") == "=" and key_of(n["c"][0]) == k]
        if asg and not any(s.cond_on_header(n) for n in asg): return None
        return False

    def cond_on_header(s, n):
        return any(a["k"] == "IfStmt" for a in s.F.ancestors(n))

    def header_source(s, hd):
        """ids of nodes at which the line just read becomes the header"""
        out = {}
        for i, n in hd.items():
            if not header_call(n):
                args = n.get("c", [])
            a = [x for x in n.get("c", []) if x is not None and "string" in x.get("t", "")]
            if not a: continue
            for x in a:
                x = skip_casts(x)
                while x is not None and x["k"] in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len(x.get("c", [])) >= 1: x = skip_casts(x["c"][0])
                k = key_of(x)
                if k in s.line: out[i] = n
                elif k is not None:
                    for m in s.F.walk():
                        if m.get("op") == "=" and len(m.get("c", [])) == 2 and key_of(m["c"][0]) == k and key_of(m["c"][1]) in s.line: out[id(m)] = m
        return out

    def situation(s, start, env, pin, n, a, b, ev, hdv, done, eof=False):
        F, g, db, rep = s.F, s.g, s.db, s.rep
        want = a <= n <= b and n != 1

        class Sc(Scenario):
            def summary(self, x, e):
                q = (x.get("q") or "")
                if q.split("::")[-1] == "eof" and not x.get("own"): return eof
                if q.split("::")[-1] == "good" and eof and not x.get("own") and x.get("obj") and "ifstream" in x["obj"].get("t", ""): return False
                return Scenario.summary(self, x, e)
        hit = {}

        def explore(stop_ev, S):
            res = {"ev": False, "line": False, "exit": None, "hd": False}

            def dead(x, e):
                if id(x) in s.gl: res["line"] = True; return True
                if id(x) in hdv: res["hd"] = True; 
                if id(x) in ev:
                    m = s.ev_in(x, e, S)
                    if m: res["ev"] = True
                    if m == "must" and stop_ev == "ev": return True
                if stop_ev == "hd" and id(x) in hdv: return True
                return S.dead(x, e)
            e0 = dict(S.pinned); e0.update(env)
            IN, tr = ccp_reach(g, e0, db, pinned=tuple(S.pinned), start=start, dead=dead)
            # record only nodes on reached blocks
            res = {"ev": False, "line": False, "exit": None, "hd": False, "evn": None}

            def dead2(x, e):
                return dead(x, e)
            for bb, e in IN.items():
                B = g.blocks[bb]
                if bb == g.exit: continue
                o = tr(B, e)
                if o.get("#dead"): continue
                ret = [x for x in B.elems if x["k"] == "ReturnStmt"]
                if ret:
                    v = const_eval(ret[-1]["c"][0], o, db) if ret[-1].get("c") and ret[-1]["c"][0] else None
                    if not (isinstance(v, int) and not isinstance(v, bool) and v != 0): res["exit"] = ret[-1]
                elif g.exit in [x for x, _, _ in g.edges(bb)]: res["exit"] = B.elems[-1] if B.elems else s.F.body
            return res
        for stop in ("ev", "hd", None):
            with Sc(db, pin) as S:
                hit[stop] = explore(stop, S)
        where = next(iter(ev.values()))

        def bad(key, msg, node=None):
            key = key + "|" + s.prog
            if key in done: return
            done.add(key)
            rep.bad(key, F.loc(node or where), "%s: %s (line %d, requested %d to %d)" % (s.prog, msg, n, a, b))
        x = hit["ev"]
        if not want and x["ev"]: bad("extra", "computes a line that was not requested" if n != 1 else "computes the header line as a parameter point")
        if want and not x["ev"]: bad("missed", "does not compute a requested line")
        elif want and (x["line"] or x["exit"] is not None): bad("skipped", "can pass over a requested line without computing it", x["exit"] or where)
        if eof: return
        if n < b and hit[None]["exit"] is not None: bad("early", "stops before the last requested line", hit[None]["exit"])
        if hdv:
            h = hit["hd"]
            if n == 1 and a <= b and (not h["hd"] or h["line"] or h["exit"] is not None and n < b): bad("header", "does not take the first line as the header", next(iter(hdv.values())))
            if n > 1 and n <= b and h["hd"]: bad("header", "takes a later line for the header", next(iter(hdv.values())))

    def ev_in(s, x, env, S, depth=0):
        """'must'/'may'/None: the call node x sets up a parameter point"""
        if init_call(x): return "must"
        if depth > 3: return "may"
        out = None
        for t in s.db.resolve(x["f"]):
            if t.file != s.m.file: continue
            args = x.get("c", [])
            if x["k"] == "CXXOperatorCallExpr" and len(args) == len(t.params) + 1: args = args[1:]
            e = dict(S.pinned)
            for p, a in zip(t.params, args):
                v = const_eval(a, env, s.db) if a is not None else None
                if v is not None: e[p["d"]] = v
            if t.d.get("lambda"):
                for k, v in env.items(): e.setdefault(k, v)
            got = {"may": False, "must": True}
            g = graph(s.db, t)
            if not g.ok: return "may"

            def dead(y, ee):
                if y["k"] in CALLS and (init_call(y) or y.get("own") and y.get("f") and any(z.file == s.m.file and s.deep(z, init_call) for z in s.db.resolve(y["f"]))):
                    m = s.ev_in(y, ee, S, depth + 1)
                    if m: got["may"] = True
                    if m == "must": return True
                return S.dead(y, ee)
            IN, tr = ccp_reach(g, e, s.db, pinned=tuple(S.pinned), dead=dead)
            must = g.exit not in IN
            if got["may"]: return "must" if must else "may"
        return out
