"""Program database for BSMPT: extraction (via astx) and AST/CFG/call-graph access."""
import glob, hashlib, json, os, shlex, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("BSMPT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ASTX = os.path.join(BUILD, "astx")

CMAKE_ARGS = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DBUILD_TESTING=OFF",
              "-DUseLibCMAES=OFF", "-DUseNLopt=ON", "-DBSMPTCompileBaryo=OFF",
              "-DBSMPTUseVectorization=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
              "-DCMAKE_EXPORT_PACKAGE_REGISTRY=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
              "-DGSL_DIR=/opt/vp/cmake/GSL", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]


class CheckError(Exception):
    """The check cannot give an answer (vanished anchor, extraction failure...)."""


def _first(pats):
    for p in pats:
        for f in sorted(glob.glob(p)):
            return f
    raise CheckError("not found: %s" % pats)


def ensure_tool():
    src = os.path.join(HERE, "astx.cpp")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = os.path.join(BUILD, "astx.sha")
    if os.path.exists(ASTX) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(BUILD, exist_ok=True)
    cfg = _first(["/usr/lib/llvm-18/bin/llvm-config", "/usr/bin/llvm-config-18"])
    flags = [f for f in subprocess.check_output([cfg, "--cxxflags"], text=True).split()
             if not f.startswith("-std=") and f != "-fno-exceptions"]
    clib = _first(["/usr/lib/llvm-18/lib/libclang-cpp.so*", "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*"])
    llib = _first(["/usr/lib/llvm-18/lib/libLLVM*.so*", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so*"])
    tmp = ASTX + ".%d" % os.getpid()
    subprocess.check_call(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w"] + flags + [src, "-o", tmp, clib, llib])
    os.replace(tmp, ASTX)
    with open(stamp, "w") as f:
        f.write(key)


def _tree_hash():
    h = hashlib.sha256()
    h.update(open(os.path.join(HERE, "astx.cpp"), "rb").read())
    h.update(REPO.encode())
    n = 0
    for d in ("include", "src", "standalone", "tools"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read()); n += 1
    for f in ("CMakeLists.txt",):
        h.update(open(os.path.join(REPO, f), "rb").read())
    if n < 50:
        raise CheckError("source tree of %s not found" % REPO)
    return h.hexdigest()[:24]


def _common_hash():
    """everything a translation unit depends on except its own .cpp file"""
    h = hashlib.sha256()
    h.update(open(os.path.join(HERE, "astx.cpp"), "rb").read()); h.update(REPO.encode())
    for d in (".", "include", "src", "standalone", "tools"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            if d == ".": dirs[:] = []
            for f in sorted(files):
                if f.endswith((".cpp", ".md")) or root == os.path.join(REPO, ".") and not f.startswith("CMake"): continue
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def extract():
    """Returns the directory with one JSON per translation unit of the current tree."""
    ensure_tool()
    key = _tree_hash()
    cache = os.path.join(BUILD, "db", key)
    if os.path.exists(os.path.join(cache, "OK")):
        return cache
    tmp = tempfile.mkdtemp(prefix="astx-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
        b = os.path.join(tmp, "b")
        r = subprocess.run(["cmake", "-S", REPO, "-B", b] + CMAKE_ARGS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        cdb = os.path.join(b, "compile_commands.json")
        if r.returncode != 0 or not os.path.exists(cdb):
            raise CheckError("cmake configure failed:\n" + r.stdout[-2000:])
        files = sorted({x["file"] for x in json.load(open(cdb))
                        if x["file"].startswith(REPO + "/") and "/tests/" not in x["file"]})
        if len(files) < 20:
            raise CheckError("only %d translation units in the compile database" % len(files))
        out = os.path.join(tmp, "o"); os.makedirs(out)

        common = _common_hash()
        tuc = os.path.join(BUILD, "tu"); os.makedirs(tuc, exist_ok=True)
        for old in sorted(glob.glob(os.path.join(tuc, "*")), key=os.path.getmtime)[:-150]:
            os.unlink(old)

        def one(f):
            k = os.path.join(tuc, hashlib.sha256((common + f).encode() + open(f, "rb").read()).hexdigest()[:32])
            o = os.path.join(out, f.replace("/", "_") + ".json")
            if os.path.exists(k):
                shutil.copyfile(k, o); os.utime(k)
                return f, 0, ""
            r = one_run(f)
            if r[1] == 0:
                shutil.copyfile(o, k + ".tmp"); os.replace(k + ".tmp", k)
            return r

        def one_run(f):
            o = os.path.join(out, f.replace("/", "_") + ".json")
            r = subprocess.run([ASTX, "-p", b, "--root=" + REPO, "--exclude=" + REPO + "/_build", "-o", o, f,
                                "--extra-arg=-w"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return f, r.returncode, r.stdout
        files.sort(key=lambda f: -os.path.getsize(f))
        with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
            for f, rc, log in ex.map(one, files):
                if rc != 0:
                    raise CheckError("cannot analyse %s:\n%s" % (f, log[-2000:]))
        # generated headers and flags, for other build configurations of single files
        inc = os.path.join(out, "cfg"); os.makedirs(inc)
        for root, dirs, fs in os.walk(os.path.join(b, "include")):
            for f in fs:
                d = os.path.join(inc, os.path.relpath(root, b)); os.makedirs(d, exist_ok=True)
                shutil.copyfile(os.path.join(root, f), os.path.join(d, f))
        cmds = {}
        for x in json.load(open(cdb)):
            cmds[x["file"]] = (x.get("command") or " ".join(x.get("arguments", []))).replace(b + "/", "@B@/")
        json.dump(cmds, open(os.path.join(inc, "commands.txt"), "w"))
        open(os.path.join(out, "OK"), "w").write("\n".join(files))
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "db", "*")):
            shutil.rmtree(old, ignore_errors=True)
        shutil.move(out, cache)
        return cache
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


CHILD_KEYS = ("obj", "fnexpr", "init", "cv", "range", "rangestmt", "beginstmt", "endstmt", "rcond", "cond", "val",
              "c", "decls", "var", "then", "else", "rinc", "inc", "body", "handlers")


def kids(n):
    """children of an AST node in (roughly) evaluation order, None skipped"""
    for k in CHILD_KEYS:
        v = n.get(k)
        if v is None:
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x
    if n.get("k") == "LambdaExpr":
        for c in n.get("caps", ()):
            if "init" in c:
                yield c["init"]


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(kids(x))))


class Func:
    __slots__ = ("d", "id", "q", "n", "file", "line", "body", "params", "cls", "nodes", "par", "_calls", "uid", "db", "owner")

    def __init__(self, d, db):
        self.d = d; self.id = d["f"]; self.q = d["q"]; self.n = d["n"]; self.file = d["file"]; self.line = d["l"]
        self.body = d.get("body"); self.params = d["params"]; self.cls = d.get("cls")
        self.nodes = None; self.par = None; self._calls = None; self.db = db; self.owner = None

    def index(self):
        if self.nodes is None:
            self.nodes = {}; self.par = {}
            roots = []
            for i in self.d.get("inits", ()):
                if i.get("init"): roots.append(i["init"])
            if self.body: roots.append(self.body)
            for r in roots:
                st = [r]
                while st:
                    x = st.pop()
                    if "i" in x: self.nodes.setdefault(x["i"], x)
                    for y in kids(x):
                        self.par[id(y)] = x
                        st.append(y)
        return self

    def roots(self):
        for i in self.d.get("inits", ()):
            if i.get("init"): yield i["init"]
        if self.body: yield self.body

    def walk(self):
        for r in self.roots():
            yield from walk(r)

    def parent(self, n):
        self.index()
        return self.par.get(id(n))

    def ancestors(self, n):
        self.index()
        p = self.par.get(id(n))
        while p is not None:
            yield p
            p = self.par.get(id(p))

    def calls(self):
        if self._calls is None:
            self._calls = [n for n in self.walk() if n["k"] in CALLS]
        return self._calls

    def loc(self, n=None):
        f = self.file[len(REPO) + 1:] if self.file.startswith(REPO + "/") else self.file
        return "%s:%d" % (f, (n or {}).get("l") or self.line)

    def short(self):
        return self.q

    def __repr__(self):
        return "<%s %s>" % (self.q, self.loc())


CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr",
         "CXXInheritedCtorInitExpr")


class DB:
    def __init__(self):
        self.dir = extract()
        self.files = open(os.path.join(self.dir, "OK")).read().split("\n")
        self.funcs = {}     # id -> Func (definitions); internal-linkage homonyms get file-qualified ids
        self.decls = {}     # id -> decl dict (any declaration)
        self.records = {}; self.enums = {}; self.globals = {}
        self.by_q = {}
        self.tus = {}
        import gc
        gc.disable()
        paths = sorted(glob.glob(os.path.join(self.dir, "*.json")))
        from multiprocessing import Pool
        for pth in paths:
            text = open(pth).read()
            tu = json.loads(text)
            # classes and main() defined in a program's own file: several programs use the same names
            tufile = max((f for f in self.files if f.replace("/", "_") + ".json" == os.path.basename(pth)), key=len)
            own = [r["u"] for r in tu["records"] if r["file"] == tufile]
            if any(f["n"] == "main" and f["file"] == tufile for f in tu["functions"]): own.append("c:@F@main")
            if own and ("/prog/" in tufile or "/standalone/" in tufile):
                tag = os.path.basename(tufile)
                for u in own:
                    text = text.replace('"' + u, '"c:' + tag + u[2:])
                tu = json.loads(text)
            name = os.path.basename(pth)
            fl = []
            for e in tu["enums"]: self.enums.setdefault(e["q"], e)
            for r in tu["records"]: self.records.setdefault((r["q"], r["file"], r["l"]), r)
            for g in tu["globals"]: self.globals.setdefault((g["q"], g["file"]), g)
            last = None
            for f in tu["functions"]:
                if not f.get("def"):
                    self.decls.setdefault(f["f"], f)
                    continue
                fid = f["f"]
                if fid in self.funcs:
                    o = self.funcs[fid]
                    if o.file == f["file"] and o.line == f["l"]:
                        if not f.get("lambda"): last = o
                        continue
                    # same id in another file: main(), file-static functions
                    fid = f["f"] = fid + "@" + f["file"]
                    if fid in self.funcs: continue
                F = Func(f, self)
                if f.get("lambda"):
                    F.owner = last
                else:
                    last = F
                self.funcs[fid] = F
                self.by_q.setdefault(F.q, []).append(F)
        gc.enable()
        # records by qualified name (prefer library header definition)
        self.rec_by_q = {}
        for (q, f, l), r in self.records.items():
            self.rec_by_q.setdefault(q, []).append(r)
        self.overriders = {}
        for fid, F in self.funcs.items():
            for o in F.d.get("ovr", ()):
                self.overriders.setdefault(o, []).append(fid)
        for fid, d in self.decls.items():
            for o in d.get("ovr", ()):
                self.overriders.setdefault(o, [])
                if fid not in self.overriders[o]: self.overriders[o].append(fid)
        # lambda owner: innermost function that contains the LambdaExpr
        for F in list(self.funcs.values()):
            for n in F.walk():
                if n["k"] == "LambdaExpr":
                    L = self.funcs.get(n["f"])
                    if L is not None: L.owner = F

    def variant(self, files, on=(), off=()):
        """this database with the given files analysed again in a build configuration with other switches in config.h"""
        tag = hashlib.sha256(repr((sorted(files), sorted(on), sorted(off))).encode()).hexdigest()[:12]
        d = os.path.join(self.dir, "var-" + tag)
        if not os.path.exists(os.path.join(d, "OK")):
            cfg = os.path.join(self.dir, "cfg")
            cmds = json.load(open(os.path.join(cfg, "commands.txt")))
            t = tempfile.mkdtemp(prefix="astv-", dir=BUILD)
            try:
                shutil.copytree(os.path.join(cfg, "include"), os.path.join(t, "include"))
                seen = set()
                for root, dirs, fs in os.walk(os.path.join(t, "include")):
                    for f in fs:
                        p = os.path.join(root, f); x = open(p).read(); y = x
                        for m in on: y = y.replace("/* #undef %s */" % m, "#define " + m)
                        for m in off: y = y.replace("#define " + m + "\n", "/* #undef %s */\n" % m)
                        for m in on + off:
                            if m in x: seen.add(m)
                        open(p, "w").write(y)
                if set(on) | set(off) != seen: raise CheckError("switches %s not found in the generated headers" % (sorted(set(on) | set(off))))

                def one(f):
                    fl = shlex.split(cmds[f].replace("@B@/", t + "/"))[1:]
                    fl = [a for i, a in enumerate(fl) if a not in ("-c", "-o", f) and (i == 0 or fl[i - 1] != "-o")]
                    o = os.path.join(t, f.replace("/", "_") + ".json")
                    r = subprocess.run([ASTX, "--root=" + REPO, "--exclude=" + REPO + "/_build", "-o", o, f, "--extra-arg=-w", "--"] + fl,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=t)
                    return f, r.returncode, r.stdout
                with ThreadPoolExecutor(4) as ex:
                    for f, rc, log in ex.map(one, files):
                        if rc != 0: raise CheckError("cannot analyse %s with %s on and %s off:\n%s" % (f, on, off, log[-2000:]))
                open(os.path.join(t, "OK"), "w").write("")
                try: os.rename(t, d)
                except OSError: pass
            finally:
                shutil.rmtree(t, ignore_errors=True)
        import copy
        V = copy.copy(self)
        for k in [k for k in V.__dict__ if k.startswith("_")]: del V.__dict__[k]
        V.funcs = {k: F for k, F in self.funcs.items() if F.file not in files}
        V.decls = dict(self.decls); V.records = dict(self.records); V.globals = {k: g for k, g in self.globals.items() if "/include/" not in k[1]}
        V.by_q = {}
        for pth in sorted(glob.glob(os.path.join(d, "*.json"))):
            tu = json.load(open(pth)); last = None
            for r in tu["records"]: V.records[(r["q"], r["file"], r["l"])] = r
            for g in tu["globals"]: V.globals[(g["q"], g["file"])] = g
            for f in tu["functions"]:
                if not f.get("def"):
                    V.decls[f["f"]] = f; continue
                if f["file"] not in files and f["f"] in V.funcs and not "/include/" in f["file"]: continue
                F = Func(f, V)
                if f.get("lambda"): F.owner = last
                else: last = F
                V.funcs[f["f"]] = F
        for k, g in self.globals.items(): V.globals.setdefault(k, g)
        for F in V.funcs.values(): V.by_q.setdefault(F.q, []).append(F)
        V.rec_by_q = {}
        for (q, f, l), r in V.records.items(): V.rec_by_q.setdefault(q, []).append(r)
        for F in list(V.funcs.values()):
            if F.db is not V: continue
            for n in F.walk():
                if n["k"] == "LambdaExpr":
                    L = V.funcs.get(n["f"])
                    if L is not None and L.db is V: L.owner = F
        return V

    def all(self):
        return self.funcs.values()

    def fn(self, q, required=True):
        r = self.by_q.get(q, [])
        if not r and required:
            raise CheckError("anchor vanished: function %s" % q)
        return r

    def method(self, cls, name):
        return [F for F in self.funcs.values() if F.cls == cls and F.n == name]

    def resolve(self, fid):
        """functions a (possibly virtual) callee id may reach: transitive overriders that have a body"""
        out = []; seen = set(); st = [fid]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x in self.funcs: out.append(self.funcs[x])
            st.extend(self.overriders.get(x, ()))
        return out

    def callees(self, F, lambdas=True):
        """[(call node, [Func...])] ; LambdaExpr count as potential call at creation"""
        res = []
        for n in F.walk():
            if n["k"] in CALLS and n.get("f"):
                if n.get("virt") and not n.get("qualified"):
                    res.append((n, self.resolve(n["f"])))
                elif n["f"] in self.funcs:
                    res.append((n, [self.funcs[n["f"]]]))
                elif n.get("own"):
                    # internal-linkage function renamed per file
                    alt = self.funcs.get(n["f"] + "@" + F.file)
                    res.append((n, [alt] if alt else []))
            elif lambdas and n["k"] == "LambdaExpr" and n["f"] in self.funcs:
                res.append((n, [self.funcs[n["f"]]]))
            elif n["k"] == "DeclRefExpr" and n.get("dk") == "fn":
                p = F.parent(n)
                if p is not None and p["k"] in ("CallExpr", "CXXOperatorCallExpr") and p.get("f") == n.get("d"):
                    pass
                elif n.get("d") in self.funcs:
                    res.append((n, [self.funcs[n["d"]]]))
        return res

    def reachable(self, roots, stop=None):
        seen = {}; st = [(r, None) for r in roots]
        while st:
            f, via = st.pop()
            if f.id in seen: continue
            seen[f.id] = via
            if stop and stop(f): continue
            for n, tg in self.callees(f):
                for t in tg:
                    if t.id not in seen: st.append((t, f.id))
        return seen

    def derived(self, base):
        """qualified names of records that (transitively) derive from base, base included"""
        out = {base}; ch = True
        while ch:
            ch = False
            for (q, f, l), r in self.records.items():
                if q not in out and any(b in out for b in r["bases"]):
                    out.add(q); ch = True
        return out

    def fields(self, q, inherited=True):
        out = {}
        for r in self.rec_by_q.get(q, [])[:1]:
            for b in r["bases"]:
                if inherited: out.update(self.fields(b))
            for f in r["fields"]: out[f["d"]] = f
        return out
