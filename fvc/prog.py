"""Extraction driver and program database (functions, types, records) for FVC."""
import hashlib, json, os, subprocess, sys, glob, concurrent.futures as cf, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FVC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract")
LLVM = "/usr/lib/llvm-18"
FLAGS = ["-std=c++20", "-msse4.2", "-DNDEBUG", "-DOPENSSL_API_COMPAT=0x10100000L", '-DFLASHMQ_VERSION="1.26.2"',
         "-O2", "-resource-dir", LLVM + "/lib/clang/18", "-w"]

class ExtractError(Exception):
    pass

def build_extractor():
    src = os.path.join(VERIF, "extract", "extract.cpp")
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "extract.sha")
    sha = hashlib.sha256(open(src, "rb").read()).hexdigest()
    def ok():
        return os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == sha
    if ok():
        return
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if ok():
            return
        tmp = EXTRACT + ".tmp%d" % os.getpid()
        subprocess.run(["clang++-18" if _which("clang++-18") else "clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
                        LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"], check=True)
        os.rename(tmp, EXTRACT)
        open(stamp, "w").write(sha)

def _which(x):
    import shutil
    return shutil.which(x)

def _headers_sha():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "*.h"))):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(os.path.join(VERIF, "extract", "extract.cpp"), "rb").read())
    return h.hexdigest()

def extract_tu(name, hsha):
    path = os.path.join(REPO, name)
    key = hashlib.sha256((hsha + name + REPO).encode() + open(path, "rb").read()).hexdigest()[:32]
    cdir = os.path.join(BUILD, "cache"); os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, key + ".json")
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([EXTRACT, "--root=" + REPO, "--o=" + tmp, path, "--"] + FLAGS, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise ExtractError("%s: %s" % (name, r.stderr[-2000:]))
        os.rename(tmp, out)
    return json.load(open(out))

class Ty:
    __slots__ = ("s", "k", "w", "sg", "to", "cst", "rv", "n", "args", "qt", "name", "enumc", "rec", "ret", "ps", "lam", "_shape")
    def __init__(self, s):
        self.s = s; self.k = "other"; self.w = 0; self.sg = False; self.to = None; self.cst = False; self.rv = False
        self.n = None; self.args = []; self.qt = None; self.name = None; self.enumc = None; self.rec = None; self.ret = None; self.ps = None; self.lam = None; self._shape = None
    def __repr__(self):
        return "Ty(%s)" % self.s
    def isrec(self): return self.k == "rec"
    def noref(self): return self.to if self.k == "ref" else self

def cleanqn(q):
    return q.replace("std::__cxx11::", "std::").replace("std::__1::", "std::").replace("std::_V2::", "std::").replace("std::chrono::_V2::", "std::chrono::")

class Rec:
    def __init__(self):
        self.name = None; self.fields = []; self.bases = []; self.union = False; self.size = 0; self.file = ""; self.lam = False; self.ty = None

class Func:
    def __init__(self, d, tu):
        self.d = d; self.tu = tu
        self.id = d["id"]; self.qn = cleanqn(d["qn"]); self.n = d["n"]; self.file = d.get("file", ""); self.line = d.get("line", 0)
    @property
    def params(self): return self.d["params"]
    def __repr__(self): return "Func(%s)" % self.qn

class Program:
    def __init__(self, tus):
        build_extractor()
        hsha = _headers_sha()
        self.types = {}; self.recs = {}; self.funcs = {}; self.byqn = {}; self.globals = {}
        self.tus = list(tus)
        self.enums = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for name, js in zip(self.tus, ex.map(lambda n: extract_tu(n, hsha), self.tus)):
                self._load(name, js)

    def _load(self, tu, js):
        raw = js["types"]; tys = []
        newt = []
        for i, r in enumerate(raw):
            s = r["s"] if r else "?"
            s = cleanqn(s)
            if r and r.get("n") == "<lambda>":
                s = "lambda@%s#%s" % (tu, r["lam"])
            t = self.types.get(s)
            if t is None:
                t = Ty(s); self.types[s] = t; newt.append((t, r))
            tys.append(t)
        for t, r in newt:
            t.k = r["k"]; t.w = r.get("w", 0); t.sg = r.get("sg", False)
            if "to" in r: t.to = tys[r["to"]]
            t.cst = r.get("cst", False); t.rv = r.get("rv", False)
            if t.k in ("arr", "vec"): t.n = r["n"]
            if t.k == "rec":
                t.name = cleanqn(r["n"]); t.qt = cleanqn(r.get("qt", r["n"])); t.args = [self._targ(a, tys) for a in r.get("a", [])]
                if "lam" in r: t.lam = (tu, r["lam"])
            if t.k == "enum":
                t.name = cleanqn(r["n"]); t.enumc = dict((a, b) for a, b in r["c"]); self.enums[t.name] = t
                if not t.w: t.w = 32
            if t.k == "fn": t.ret = tys[r["ret"]] if "ret" in r else None; t.ps = [tys[p] for p in r.get("ps", [])]
        def fix(o):
            # replace type ids and decl ids in place
            st = [o]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    for k in ("t", "dt", "ft", "dc", "ret", "cls", "lt", "ct", "at", "et", "vt", "rt", "base"):
                        v = x.get(k)
                        if isinstance(v, int) and not isinstance(v, bool):
                            x[k] = tys[v] if v >= 0 else None
                    if "ps" in x and isinstance(x["ps"], list) and x["ps"] and isinstance(x["ps"][0], int): x["ps"] = [tys[p] for p in x["ps"]]
                    if "id" in x and isinstance(x["id"], int): x["id"] = (tu, x["id"])
                    if "ta" in x: x["ta"] = [self._targ(a, tys) for a in x["ta"]]
                    if "qn" in x and isinstance(x["qn"], str): x["qn"] = cleanqn(x["qn"])
                    if "g" in x and isinstance(x["g"], str): x["g"] = cleanqn(x["g"])
                    for k, v in x.items():
                        if isinstance(v, (dict, list)) and k != "ta": st.append(v)
                elif isinstance(x, list):
                    st.extend(y for y in x if isinstance(y, (dict, list)))
        for r in js["records"]:
            t = tys[r["t"]]
            if t.rec is not None: continue
            fix(r)
            rc = Rec(); rc.name = t.name; rc.ty = t; t.rec = rc
            rc.bases = [tys[b] for b in r.get("bases", [])]
            rc.fields = r["fields"]; rc.union = r.get("union", False); rc.size = r.get("size", 0); rc.file = r.get("file"); rc.lam = r.get("lambda", False)
            self.recs[t.s] = rc
        for f in js["functions"]:
            if f["id"] in self.funcs and f["id"]: continue
            fix(f)
            fn = Func(f, tu)
            self.funcs[fn.id] = fn
            self.byqn.setdefault(fn.qn, []).append(fn)
        for g in js["globals"]:
            fix(g)
            self.globals.setdefault(g["qn"], g)

    def _targ(self, a, tys):
        if "t" in a:
            v = a["t"]; return tys[v] if isinstance(v, int) else v
        if "i" in a: return a["i"]
        if "pack" in a: return [self._targ(x, tys) for x in a["pack"]]
        return None

    def find(self, qn, params=None):
        """function(s) by qualified name; params: list of substrings matched against parameter type strings"""
        c = self.byqn.get(qn, [])
        if params is not None:
            c = [f for f in c if len(f.params) == len(params) and all(p in f.params[i]["t"].s for i, p in enumerate(params))]
        if not c: raise KeyError("no function %s %s" % (qn, params))
        if len(c) > 1: raise KeyError("ambiguous %s: %s" % (qn, [[p["t"].s for p in f.params] for f in c]))
        return c[0]
