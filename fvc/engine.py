"""Symbolic evaluator / verification-condition generator over the extracted C++ AST.

One current state (self.st).  Branches are executed on clones and merged with guarded values, so the
size of the verification condition is linear in the program.  Calls are resolved in this order:
contract registered by the specification, library model, inlining of the extracted body, havoc.
Loops: exact unrolling when the bound is a constant (or the solver proves exhaustion), otherwise cut
at the loop head with an inferred inductive invariant (candidate formulas filtered by Houdini)."""
import z3, re, sys, time
from .vals import *
from . import vals as V
sys.setrecursionlimit(20000)

class Dead(Exception): pass
class Choice:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return "Choice(%s,%s)" % (self.a, self.b)
def lmap(x, f):
    if isinstance(x, Choice): return Choice(x.c, lmap(x.a, f), lmap(x.b, f))
    return f(x)

TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)
def And(*a):
    r = []
    for x in a:
        if z3.is_false(x): return FALSE
        if not z3.is_true(x): r.append(x)
    return TRUE if not r else r[0] if len(r) == 1 else z3.And(*r)
def Or(*a):
    r = []
    for x in a:
        if z3.is_true(x): return TRUE
        if not z3.is_false(x): r.append(x)
    return FALSE if not r else r[0] if len(r) == 1 else z3.Or(*r)
def Not(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return Not(c)
    return z3.If(c, a, b)
def lit(x): return z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x)
def fold(r, *a):
    return z3.simplify(r) if all(lit(x) for x in a) else r
def Eq(a, b):
    if a.eq(b): return TRUE
    if lit(a) and lit(b): return z3.simplify(a == b)
    if z3.is_bool(a):
        if z3.is_true(b): return a
        if z3.is_true(a): return b
        if z3.is_false(b): return Not(a)
        if z3.is_false(a): return Not(b)
    # ite constant folding: (c ? 1 : 0) == k
    if z3.is_bv_value(b) and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
        return If(a.arg(0), Eq(a.arg(1), b), Eq(a.arg(2), b))
    return a == b
def resize(t, w, sg):
    n = t.size()
    if n == w: return t
    if z3.is_bv_value(t): return z3.simplify(z3.Extract(w - 1, 0, t) if w < n else (z3.SignExt if sg else z3.ZeroExt)(w - n, t))
    if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_bv_value(t.arg(1)) and z3.is_bv_value(t.arg(2)):
        return If(t.arg(0), resize(t.arg(1), w, sg), resize(t.arg(2), w, sg))
    if w < n:
        if z3.is_app_of(t, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(t, z3.Z3_OP_SIGN_EXT):
            u = t.arg(0)
            if u.size() == w: return u
            if u.size() > w: return resize(u, w, False)
        return z3.Extract(w - 1, 0, t)
    return (z3.SignExt if sg else z3.ZeroExt)(w - n, t)

# ------------------------------------------------------------------ string literals
LITS = {}
def str_lit(b):
    b = bytes(b)
    if not b: return sempty
    h = b.hex()
    if h not in LITS: LITS[h] = (z3.Const("lit!" + h, StrS), b)
    return LITS[h][0]
def lit_bytes(t):
    if z3.is_const(t) and t.sort() == StrS:
        n = t.decl().name()
        if n == "str!empty": return b""
        if n.startswith("lit!"): return bytes.fromhex(n[4:])
    return None
def content_eq(s, b):
    return z3.And(slen(s) == len(b), *[sat(s, bv(i)) == bv(c, 8) for i, c in enumerate(b)])
def lit_facts(names):
    out = []
    for h, (t, b) in LITS.items():
        if "lit!" + h in names: out.append(content_eq(t, b))
    return out

# ------------------------------------------------------------------ map enumeration
_mk = {}
def mapfuns(domsort):
    k = domsort.domain(); key = k.sexpr()
    if key not in _mk:
        n = re.sub(r"\W", "_", key)
        mkey = z3.Function("mkey_" + n, domsort, I64, k); mpos = z3.Function("mpos_" + n, domsort, k, I64); msz = z3.Function("msz_" + n, domsort, I64)
        d = z3.Const("d", domsort); kk = z3.Const("k", k); i = z3.Const("i", I64)
        ax = [z3.ForAll([d, i], z3.Implies(z3.ULT(i, msz(d)), z3.And(z3.Select(d, mkey(d, i)), mpos(d, mkey(d, i)) == i)), patterns=[mkey(d, i)]),
              z3.ForAll([d, kk], z3.Implies(z3.Select(d, kk), z3.And(z3.ULT(mpos(d, kk), msz(d)), mkey(d, mpos(d, kk)) == kk)), patterns=[mpos(d, kk)])]
        _mk[key] = (mkey, mpos, msz, ax)
    return _mk[key]

class MIter:
    """iterator into an associative container: enumeration of the key set `dom` as it was when the iterator was made"""
    __slots__ = ("loc", "dom", "size", "key", "end", "idx")
    def __init__(self, loc, dom, size, key, end, idx=None):
        self.loc = loc; self.dom = dom; self.size = size; self.key = key; self.end = end; self.idx = idx
def UREM(w): return z3.Function("urem%d" % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
class SIter:
    __slots__ = ("loc", "idx", "rev")
    def __init__(self, loc, idx, rev=False): self.loc = loc; self.idx = idx; self.rev = rev

# ------------------------------------------------------------------ merging
def ml(c, a, b):
    if a is b: return a
    ea = isinstance(a, z3.ExprRef); eb = isinstance(b, z3.ExprRef)
    if ea and eb:
        if a.eq(b): return a
        if a.sort() != b.sort(): return Choice(c, a, b)
        return If(c, a, b)
    if isinstance(a, Loc) and isinstance(b, Loc):
        if loc_eq(a, b): return a
        return Choice(c, a, b)
    if isinstance(a, Val) and isinstance(b, Val) and len(a.lv) == len(b.lv): return Val(a.sh, [ml(c, x, y) for x, y in zip(a.lv, b.lv)])
    if isinstance(a, MIter) and isinstance(b, MIter) and loc_eq(a.loc, b.loc) and a.dom.eq(b.dom):
        return MIter(a.loc, a.dom, a.size, ml(c, a.key, b.key), ml(c, a.end, b.end), None if a.idx is None or b.idx is None else ml(c, a.idx, b.idx))
    if isinstance(a, MIter) and isinstance(b, MIter) and loc_eq(a.loc, b.loc):
        return MIter(a.loc, ml(c, a.dom, b.dom), ml(c, a.size, b.size), ml(c, a.key, b.key), ml(c, a.end, b.end), None if a.idx is None or b.idx is None else ml(c, a.idx, b.idx))
    if isinstance(a, SIter) and isinstance(b, SIter) and loc_eq(a.loc, b.loc) and a.rev == b.rev: return SIter(a.loc, ml(c, a.idx, b.idx), a.rev)
    if isinstance(a, PyOpaque) and isinstance(b, PyOpaque): return a
    if a is None and b is None: return None
    return Choice(c, a, b)

def pceq(x, y): return x is y or x.eq(y)
def merge2(s1, s2):
    """merge two alternative continuations (disjunction)"""
    n = 0; p1 = s1.pc; p2 = s2.pc
    m = min(len(p1), len(p2))
    while n < m and pceq(p1[n], p2[n]): n += 1
    e1 = p1[n:]; e2 = p2[n:]
    if not e1 and not e2: c = z3.Bool(fresh_name("br"))
    elif e1 and e2 and Not(e1[0]).eq(e2[0]): c = e1[0]; e1 = e1[1:]; e2 = e2[1:]
    elif e1 and e2 and Not(e2[0]).eq(e1[0]): c = e1[0]; e1 = e1[1:]; e2 = e2[1:]
    else: c = z3.Bool(fresh_name("br"))
    return _merge(c, s1, s2, p1[:n], e1, e2)

def _merge(c, s1, s2, pre, e1, e2):
    s = State(); s.gen = max(s1.gen, s2.gen); s.tags = s1.tags
    s.pc = list(pre)
    if e1: s.pc.append(z3.Implies(c, And(*e1)))
    if e2: s.pc.append(z3.Or(c, And(*e2)))
    for k in s1.L:
        if k in s2.L: s.L[k] = ml(c, s1.L[k], s2.L[k])
    s.epoch = s1.epoch
    if s1.epoch != s2.epoch:
        s.epoch = fresh_name("m")
        s.gh["#epochs", s.epoch] = (c, s1.epoch, s2.epoch)
    eps = {}
    for g in (s1.gh, s2.gh):
        for k, v in g.items():
            if isinstance(k, tuple) and k[0] == "#epochs": eps[k[1]] = v; s.gh[k] = v
    if s1.epoch != s2.epoch: eps[s.epoch] = (c, s1.epoch, s2.epoch)
    for k in set(s1.H) | set(s2.H):
        x = s1.H.get(k); y = s2.H.get(k)
        if x is None: x = base_map(s1, k, y.sort())
        if y is None: y = base_map(s2, k, x.sort())
        s.H[k] = ml(c, x, y)
    for k in set(s1.G) | set(s2.G):
        a = s1.G.get(k); b = s2.G.get(k)
        if a is None or b is None:
            v = a if a is not None else b
            if isinstance(v, Val):
                init = Val(v.sh, [z3.Const("G!%s#%d" % (k, i), so) if so is not None else PyOpaque(k) for i, so in enumerate(v.sh.sorts)])
                a = a if a is not None else init; b = b if b is not None else init
            else: continue
        s.G[k] = ml(c, a, b)
    for k in set(s1.gh) | set(s2.gh):
        if isinstance(k, tuple) and k[0] in ("rf", "vl"):
            if k in s1.gh and k in s2.gh: s.gh[k] = s1.gh[k]
            continue
        if isinstance(k, tuple) and k[0] == "#epochs": continue
        if k in s1.gh and k in s2.gh: s.gh[k] = ml(c, s1.gh[k], s2.gh[k])
        elif isinstance(k, tuple) and k[0] == "py":
            continue
        else:
            d = GHOST_DEFAULT.get(k if not isinstance(k, tuple) else k[0])
            if d is None: continue
            s.gh[k] = ml(c, s1.gh.get(k, d), s2.gh.get(k, d))
    return s
GHOST_DEFAULT = {}
def base_map(st, k, sort):
    e = st.gh.get(("#epochs", st.epoch))
    if e is not None: return merged_base(st, st.epoch, k, sort)
    return epoch_const(st.epoch, k, sort)
def epoch_const(epoch, k, sort):
    n = "H%s!%s" % (epoch, k)
    if epoch in V.EPOCHGEN: V.BASEGEN[n] = V.EPOCHGEN[epoch]
    return z3.Const(n, sort)
def merged_base(st, epoch, k, sort):
    e = st.gh.get(("#epochs", epoch))
    if e is None: return epoch_const(epoch, k, sort)
    c, a, b = e
    return If(c, merged_base(st, a, k, sort), merged_base(st, b, k, sort))
def _hmap(self, key, sort):
    m = self.H.get(key)
    if m is None:
        m = base_map(self, key, z3.ArraySort(RefS, sort)); self.H[key] = m
    return m
State.hmap = _hmap
State.get_gh = lambda self, k: self.gh.get(k, GHOST_DEFAULT.get(k))

def merge_all(sts, vs=None):
    """sts: states; vs: optional parallel values; merges pairs sharing the longest path prefix first"""
    items = [(s, vs[i] if vs is not None else None) for i, s in enumerate(sts)]
    def cpl(a, b):
        n = 0; m = min(len(a.pc), len(b.pc))
        while n < m and pceq(a.pc[n], b.pc[n]): n += 1
        return n
    ls = [cpl(items[i][0], items[i + 1][0]) for i in range(len(items) - 1)]
    while len(items) > 1:
        i = max(range(len(ls)), key=lambda j: ls[j])
        (a, va), (b, vb) = items[i], items[i + 1]
        n = ls[i]; e1 = a.pc[n:]; e2 = b.pc[n:]
        if e1 and e2 and (Not(e1[0]).eq(e2[0]) or Not(e2[0]).eq(e1[0])): c = e1[0]; e1 = e1[1:]; e2 = e2[1:]
        else: c = z3.Bool(fresh_name("br"))
        m = _merge(c, a, b, a.pc[:n], e1, e2)
        v = ml(c, va, vb) if vs is not None else None
        items[i:i + 2] = [(m, v)]
        del ls[i]
        if i < len(ls): ls[i] = min(ls[i], n) if ls[i] >= n else ls[i]
        if i > 0: ls[i - 1] = cpl(items[i - 1][0], m)
        if i < len(ls): ls[i] = cpl(m, items[i + 1][0])
    return items[0]

class Frame:
    _n = [0]
    __slots__ = ("fid", "fn", "this", "caps", "rets", "depth", "loops")
    def __init__(self, fn=None, this=None, caps=None, depth=0):
        Frame._n[0] += 1; self.fid = Frame._n[0]; self.fn = fn; self.this = this; self.caps = caps or {}; self.rets = []; self.depth = depth; self.loops = []

class Obl:
    __slots__ = ("name", "kind", "pc", "goal", "fn", "line", "res", "how", "secs", "model", "aux")
    def __init__(self, name, kind, pc, goal, fn, line):
        self.name = name; self.kind = kind; self.pc = pc; self.goal = goal; self.fn = fn; self.line = line; self.res = None; self.how = None; self.secs = 0; self.model = None; self.aux = None

class Engine:
    def __init__(self, prog, name="", check_bounds=False):
        self.quots = []
        self.prog = prog; self.st = State(); self.obls = []; self.name = name
        self.throws = [[]]
        self.check_bounds = check_bounds
        self.used_contracts = set(); self.aux_hints = None
        self.contracts = {}       # qn or (qn, n) -> callable(E, call) -> Val/Loc/None
        self.maxdepth = 14
        self.mute = 0             # >0: obligations not recorded (discovery runs)
        self.inlined = set(); self.modelled = {}; self.havocked = {}
        self.loop_cases = []; self.loop_steps = []; self.age_idx = []; self.optimistic = 0; self.abstract_rem = False; self.no_search = False; self.loop_specs = []      # list of callables(E, loopctx) -> [(name, formula-fn)]
        self.unroll = 0           # bounded fall-back (never counted as proof)
        self.solver_unroll = 8
        self.assumed = []
        self.callstack = []
        self.bounded = False
        self.loops_cut = 0; self.loops_unrolled = 0
        self.deadline = None
        self.exhaust = {}; self.houdini_ms = 3000; self.loop_info = []; self._user_cands = set(); self.termination = False; self.variants = []
        from . import models
        self.models = models.REG

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, kind="post", st=None, line=0):
        st = st or self.st
        if self.mute: return
        if z3.is_true(goal): 
            self.obls.append(Obl(name, kind, None, goal, self.where(), line)); self.obls[-1].res = "proved"; self.obls[-1].how = "simplifier"; return
        self.obls.append(Obl(name, kind, list(st.pc), goal, self.where(), line))
    def cover(self, name, st=None, cond=TRUE):
        """must be satisfiable (vacuity guard)"""
        st = st or self.st
        if self.mute: return
        self.obls.append(Obl(name, "cover", list(st.pc), cond, self.where(), 0))
    def where(self): return self.callstack[-1] if self.callstack else self.name
    def assume(self, f): self.st.assume(f)
    def known(self, c):
        """cheap syntactic check whether c or its negation is on the path"""
        for x in self.st.pc[-400:]:
            if x.eq(c): return True
            if z3.is_not(x) and x.arg(0).eq(c): return False
            if z3.is_not(c) and c.arg(0).eq(x): return False
        return None

    # ---------------------------------------------------------------- values
    def load(self, loc):
        if isinstance(loc, Choice):
            if isnull(loc.a): return self.load(loc.b)
            if isnull(loc.b): return self.load(loc.a)
            return ml(loc.c, self.load(loc.a), self.load(loc.b))
        if isinstance(loc, Val): return loc
        return V.load(self.st, loc)
    def store(self, loc, v):
        if isinstance(loc, Choice):
            if isnull(loc.a): return self.store(loc.b, v)
            if isnull(loc.b): return self.store(loc.a, v)
            self.store(loc.a, ml(loc.c, v, self.load(loc.a)))
            self.store(loc.b, ml(loc.c, self.load(loc.b), v))
            return
        V.store(self.st, loc, self.conv_shape(v, loc.sh))
    def conv_shape(self, v, sh):
        if v.sh is sh or len(v.lv) == len(sh.sorts): return v
        raise Unsupported("shape mismatch %r := %r" % (sh, v.sh))
    def rv(self, x): return self.load(x) if isinstance(x, (Loc, Choice)) else x
    def temp(self, v, name="tmp"):
        key = (0, fresh_name(name)); self.st.L[key] = v
        return Loc(("L", key), (), v.sh, v.sh)
    def fresh_val(self, sh, p="v"):
        v = fresh_val(sh, p)
        self.type_facts(v)
        return v
    def type_facts(self, v):
        """facts true of any value of the shape"""
        for t, s in zip(v.lv, v.sh.sorts):
            if s is not None and s == RefS and isinstance(t, z3.ExprRef): self.st.pc.append(age(t) <= self.st.gen)
        def rec(sh, lv):
            if sh.kind in ("vec", "map", "set"): self.st.pc.append(z3.ULT(lv[0], bv(MAXLEN)))
            if sh.kind in ("map", "set"): self.map_facts_lv(lv)
            elif sh.kind == "rec":
                for n, (o, fs) in sh.fields.items(): rec(fs, lv[o:o + fs.nl()])
            elif sh.kind == "opt": rec(sh.elem, lv[1:])
            elif sh.kind in ("int", "ref", "bool", "str"): pass
            if sh.ty is not None and getattr(sh.ty, "k", None) == "enum": pass
        rec(v.sh, v.lv)
    def map_facts_lv(self, lv):
        if not isinstance(lv[1], z3.ExprRef): return
        mkey, mpos, msz, ax = mapfuns(lv[1].sort())
        self.st.pc.append(msz(lv[1]) == lv[0])
    def alloc(self, name="new"):
        self.st.gen += 1
        r = z3.Const(fresh_name(name), RefS); V.BASEGEN[r.decl().name()] = self.st.gen
        self.st.pc.append(age(r) == self.st.gen); self.st.pc.append(r != null)
        return r
    def obj(self, ref, ty): 
        sh = shape_of(ty)
        return Loc(("H", ref), (), sh, sh)
    def boolv(self, b): return Val(BOOL, [b])
    def intv(self, n, w=32, sg=True): return Val(int_shape(w, sg), [bv(n, w)])
    def size(self, t): return Val(SIZE, [t])
    def strv(self, t): return Val(STR, [t])
    def str_eq(self, a, b):
        if a.eq(b): return TRUE
        la, lb = lit_bytes(a), lit_bytes(b)
        if la is not None and lb is not None: return z3.BoolVal(la == lb)
        if la is not None: a, b, la, lb = b, a, lb, la
        r = a == b
        if lb is not None and len(lb) <= 64: self.st.pc.append(r == content_eq(a, lb))
        return r

    # ---------------------------------------------------------------- control helpers
    def branch(self, c, ft, fe):
        """execute ft / fe under c / not c; returns merged value"""
        if z3.is_true(c): return ft()
        if z3.is_false(c): return fe()
        k = self.known(c)
        if k is not None: return ft() if k else fe()
        base = self.st
        s1 = base.clone(); s1.pc.append(c); s2 = base; s2.pc = s2.pc + [Not(c)]
        self.st = s1; d1 = d2 = False; r1 = r2 = None
        try: r1 = ft()
        except Dead: d1 = True
        s1 = self.st; self.st = s2
        try: r2 = fe()
        except Dead: d2 = True
        s2 = self.st
        if d1 and d2: raise Dead()
        if d1: self.st = s2; return r2
        if d2: self.st = s1; return r1
        n = 0; m = min(len(s1.pc), len(s2.pc))
        self.st, v = merge_all([s1, s2], [r1, r2])
        return v
    def do_throw(self, ety, val):
        self.throws[-1].append((self.st, ety, val)); raise Dead()
    def maybe_throw(self, c, ety, val=None):
        """throw when c"""
        def t(): self.do_throw(ety, val)
        self.branch(c, t, lambda: None)

    # ---------------------------------------------------------------- functions
    def fn(self, qn, params=None): return self.prog.find(qn, params)

    def call_fn(self, fn, this, args, caps=None):
        """inline fn: args are Loc (for reference parameters) or Val"""
        if self.deadline and time.time() > self.deadline: raise Unsupported("time limit")
        depth = len(self.callstack)
        if depth > self.maxdepth: raise Unsupported("inlining too deep at " + fn.qn)
        if fn.d.get("b") is None and not fn.d.get("ctor"): raise Unsupported("no body " + fn.qn)
        if self.callstack.count(fn.qn) > 1 : raise Unsupported("recursion in " + fn.qn)
        fr = Frame(fn, this, caps)
        for p, a in zip(fn.params, args): self.bind(fr, p, a)
        self.callstack.append(fn.qn); self.inlined.add(fn.qn)
        try:
            try:
                if fn.d.get("ctor") is not None: self.ctor_inits(fn, fr)
                if fn.d.get("b") is not None: self.ex(fn.d["b"], fr)
                rt = fn.d.get("ret")
                fr.rets.append((self.st, None))
            except Dead: pass
        finally: self.callstack.pop()
        if not fr.rets: raise Dead()
        rets = fr.rets
        if any(v is not None for s, v in rets): rets = [(s, v) for s, v in rets if v is not None]
        self.st, v = merge_all([s for s, _ in rets], [v for _, v in rets])
        # drop locals of the frame
        for k in [k for k in self.st.L if k[0] == fr.fid]:
            if not self.keep_locals: pass
        return v
    keep_locals = True

    def bind(self, fr, p, a):
        key = (fr.fid, p["id"]); t = p["t"]
        if t.k == "ref":
            if isinstance(a, Val): a = self.temp(a, p["n"] or "arg")
            self.st.L[key] = a
        else:
            v = self.rv(a) if isinstance(a, (Loc, Choice)) else a
            if v is None: v = fresh_val(shape_of(t), p["n"] or "arg")
            self.st.L[key] = v

    def ctor_inits(self, fn, fr):
        this = fr.this
        done = set()
        inits = fn.d.get("inits", [])
        if any(i.get("deleg") for i in inits):
            for i in inits: self.init_into(this, i["e"], fr)
            return
        for i in inits:
            if "base" in i:
                b = i["base"]; sh = shape_of(b)
                off, bs = self.base_field(this, b)
                if bs is not None and bs.kind == "rec":
                    loc = lmap(this, lambda l: l.ext(("s", off, bs), bs)); self.init_into(loc, i["e"], fr)
            elif "f" in i and i["f"] :
                done.add(i["f"])
                loc = lmap(this, lambda l: l.fld(i["f"]))
                ft = i["ft"]
                if ft.k == "ref":
                    l = self.ev_l(i["e"], fr); self.store(loc, self.addr_of(l, loc_sh(loc))); continue
                self.init_into(loc, i["e"], fr, ft)
    def base_field(self, this, b):
        sh = loc_sh(this)
        for n, (off, s) in sh.fields.items():
            if n == "@" + b.s: return off, s
        return 0, None

    def init_into(self, loc, e, fr, ty=None):
        """initialise location from initializer expression"""
        if e is None: return
        k = e["k"]
        if k == "Ctor" and not (e["f"].get("ctor") in ("copy", "move") and e["a"] and False):
            return self.construct(loc, e, fr)
        if k in ("Cleanups", "Mat"): return self.init_into(loc, e["e"], fr, ty)
        if k == "Cast" and e["ck"] in ("NoOp", "ConstructorConversion") : return self.init_into(loc, e["e"], fr, ty)
        if k == "InhCtor": raise Unsupported("inherited constructor")
        if loc_sh(loc).kind == "unit":
            try: self.ev(e, fr)
            except Unsupported: pass
            return
        v = self.ev(e, fr)
        self.store(loc, v)

    def default_val(self, ty, name="dflt"):
        """value-initialised / default-constructed value of a type"""
        sh = shape_of(ty)
        return self.default_of(sh, ty, name)
    def default_of(self, sh, ty=None, name="dflt"):
        k = sh.kind
        if k in ("vec", "map", "set", "opt", "str", "unit", "ref", "parr", "bool", "int"):
            return zero_default(sh)
        if k == "rec":
            if sh.ty is not None and sh.ty.k == "rec" and sh.ty.rec is not None:
                loc = self.temp(fresh_val(sh, name)); self.construct_default(loc, sh.ty); return self.load(loc)
            lv = []
            for n, (o, fs) in sh.fields.items(): lv += self.default_of(fs).lv
            return Val(sh, lv)
        return zero_default(sh)
    def construct_default(self, loc, ty):
        sh = shape_of(ty)
        if ty.rec is None or sh.kind != "rec" :
            self.store(loc, self.default_of(sh)); return
        for f in self.prog.byqn.get(ty.name + "::" + ty.name.split("::")[-1].split("<")[0], []):
            if f.d.get("ctor") == "default": self.call_fn(f, loc, []); return
        self.implicit_default(loc, ty)
    def implicit_default(self, loc, ty):
        sh = shape_of(ty); r = ty.rec
        for b in r.bases:
            off, bs = self.base_field(loc, b)
            if bs is not None and bs.kind == "rec" and b.rec is not None: self.construct_default(lmap(loc, lambda l: l.ext(("s", off, bs), bs)), b)
        fr = Frame(None, loc)
        for f in r.fields:
            if ty.rec is not None and ty.rec.union and f is not ty.rec.fields[-1]: continue
            fl = lmap(loc, lambda l: l.fld(f["n"])); ft = f["t"]; fs = loc_sh(fl)
            if f.get("init") is not None:
                try: self.init_into(fl, f["init"], fr, ft)
                except Unsupported: self.store(fl, fresh_val(fs, f["n"]))
            elif ft.k == "rec":
                if ft.rec is not None and fs.kind == "rec": self.construct_default(fl, ft)
                elif fs.kind != "unit": self.store(fl, self.default_of(fs))
            elif fs.kind == "unit" or fs.nl() == 0: pass
            else: self.store(fl, fresh_val(fs, f["n"]))

    def construct(self, loc, e, fr):
        f = e["f"]; cls = f["cls"]; sh = loc_sh(loc)
        fs = self.find_contract(f)
        if fs is not None:
            args = self.args(f, e["a"], fr)
            return fs(self, Call(self, f, loc, args, e, fr))
        if f.get("ctor") in ("copy", "move") and (f.get("def") or f.get("impl") or cls.rec is None or not self.user_body(f)):
            if cls.rec is None or f.get("def") or f.get("impl"):
                src = self.ev_l(e["a"][0], fr)
                if sh.kind == "unit": return
                v = self.load(src)
                self.store(loc, v)
                if f["ctor"] == "move" : self.moved(src)
                return
        if cls.rec is None or is_modelled_rec(cls):
            m = self.find_model(f, ctor=True)
            if m is None:
                if sh.kind == "unit":
                    for a in e["a"]: self.ev_any(a, fr)
                    return
                if not e["a"]: self.store(loc, self.default_of(sh)); return
                raise Unsupported("constructor %s(%s)" % (cls.s[:120], ",".join(p.s[:40] for p in f["ps"])))
            args = self.args(f, e["a"], fr)
            r = m(Call(self, f, loc, args, e, fr))
            if r is not None: self.store(loc, r)
            return
        fn = self.prog.funcs.get(f["id"])
        if fn is None:
            if f.get("ctor") == "default" or not e["a"]: self.implicit_default(loc, cls); return
            if f.get("ctor") in ("copy", "move"):
                src = self.ev_l(e["a"][0], fr); self.store(loc, self.load(src)); return
            # unknown constructor: unspecified value
            self.args(f, e["a"], fr); self.havocked[f["qn"]] = 1
            self.store(loc, self.fresh_val(sh, f["n"])); return
        if fn.d.get("b") is None and not fn.d.get("inits"): self.implicit_default(loc, cls); return
        args = self.args(f, e["a"], fr)
        self.call_fn(fn, loc, args)
    def user_body(self, f):
        return f["id"] in self.prog.funcs
    def moved(self, src):
        try:
            sh = loc_sh(src)
            if sh.kind == "ref" and sh.std in ("std::shared_ptr", "std::unique_ptr"): self.store(src, zero_default(sh))
            elif sh.kind in ("vec", "map", "set", "str"): self.store(src, zero_default(sh))
        except Unsupported: pass

    def find_contract(self, f):
        q = f["qn"]
        c = self.contracts.get(f["id"]) or self.contracts.get(q) or self.contracts.get((q, len(f["ps"])))
        if c is not None: self.used_contracts.add(q); return c
        return None
    def find_model(self, f, ctor=False):
        R = self.models
        if "cls" in f and f["cls"] is not None:
            c = f["cls"]; n = "ctor" if ctor else f["n"]
            for cn in class_keys(c):
                k = cn + "::" + n
                if k in R: self.modelled[k] = self.modelled.get(k, 0) + 1; return R[k]
            return None
        q = f["qn"] if f["n"].startswith("operator") else re.sub(r"<.*", "", f["qn"])
        if q in R: self.modelled[q] = self.modelled.get(q, 0) + 1; return R[q]
        return None

    def args(self, f, nodes, fr):
        out = []
        ps = f["ps"]
        for i, a in enumerate(nodes):
            t = ps[i] if i < len(ps) else None
            if t is not None and t.k == "ref": out.append(self.ev_ref(a, fr))
            else: out.append(self.ev_any(a, fr) if t is None else self.ev(a, fr))
        return out
    def ev_ref(self, a, fr):
        if a["vk"] == "r": return self.temp(self.ev(a, fr))
        return self.ev_l(a, fr)
    def ev_any(self, a, fr): return self.ev(a, fr) if a["vk"] == "r" else self.ev_l(a, fr)

    def call(self, e, f, this, args, fr):
        c = self.find_contract(f)
        if c is not None: return c(self, Call(self, f, this, args, e, fr))
        m = self.find_model(f)
        if m is not None: return m(Call(self, f, this, args, e, fr))
        fn = self.prog.funcs.get(f["id"])
        if fn is not None and fn.d.get("b") is not None:
            if f.get("virt") and self.virtual_unknown(f): pass
            else: return self.call_fn(fn, this, args)
        if f.get("asg") and this is not None:
            v = self.rv(args[0]); 
            if loc_sh(this).nl(): self.store(this, v)
            if f["asg"] == "move": self.moved(args[0])
            return this
        return self.havoc_call(f, this, args, e)
    def virtual_unknown(self, f): return False

    def havoc_call(self, f, this, args, e=None):
        """unknown callee: nothing is known about its results; everything it may reach is overwritten"""
        self.havocked[f["qn"]] = self.havocked.get(f["qn"], 0) + 1
        if f.get("noret"): raise Dead()
        repo = f.get("repo") or f.get("body")
        if repo and not (f.get("cst") and False):
            if not f.get("cst") and not getattr(self, "opaque_keeps", None): self.havoc_heap()
        for i, a in enumerate(args):
            t = f["ps"][i] if i < len(f["ps"]) else None
            if t is None: continue
            if t.k == "ref" and not t.cst and isinstance(a, (Loc, Choice)): self.havoc_loc(a)
            elif t.k == "ptr" and not t.cst and isinstance(a, Val) and a.lv and isinstance(a.lv[0], (Loc, Choice)): self.havoc_loc(a.lv[0])
            elif t.k == "ptr" and not t.cst and isinstance(a, Val) and a.sh.kind == "parr" and isinstance(a.lv[0], z3.ExprRef):
                w = a.sh.pointee.w or 8
                key = mem_key(w); m = self.st.hmap(key, z3.ArraySort(I64, z3.BitVecSort(w)))
                self.st.H[key] = z3.Store(m, a.lv[0], fresh("hav", z3.ArraySort(I64, z3.BitVecSort(w))))
        if this is not None and not f.get("cst") and isinstance(this, (Loc, Choice)): self.havoc_loc(this)
        return self.fresh_result(f["ret"], f["n"])
    def havoc_loc(self, loc):
        if isinstance(loc, Choice): self.havoc_loc(loc.a); self.havoc_loc(loc.b); return
        if not isinstance(loc, Loc): return
        if loc.sh.nl(): self.store(loc, self.fresh_val(loc.sh, "hav"))
    def fresh_result(self, t, n="res"):
        if t is None or t.k == "void": return None
        if t.k == "ref":
            sh = shape_of(t.to)
            if sh.kind == "rec" and sh.keys is not None:
                r = fresh("ref." + n, RefS); V.BASEGEN[r.decl().name()] = self.st.gen; self.st.pc.append(age(r) <= self.st.gen); self.st.pc.append(r != null)
                return Loc(("H", r), (), sh, sh)
            return self.temp(self.fresh_val(sh, n))
        v = self.fresh_val(shape_of(t), n)
        for x in v.lv:
            if isinstance(x, z3.ExprRef) and x.sort() == RefS: V.BASEGEN[x.decl().name()] = self.st.gen
        return v
    def havoc_heap(self, keep=None):
        """forget every heap field and global (except those selected by keep(key))"""
        st = self.st
        if keep is None:
            st.H = {k: v for k, v in st.H.items() if k.startswith("ghost:")}; st.epoch = fresh_name("e"); V.EPOCHGEN[st.epoch] = st.gen
        else:
            for k in list(st.H):
                if not keep(k):
                    s = st.H[k].sort(); c = fresh("Hh!" + k, s); V.BASEGEN[c.decl().name()] = st.gen; st.H[k] = c
            old = st.epoch
            raise Unsupported("havoc with keep")
        for k in list(st.G):
            v = st.G[k]
            if isinstance(v, Val) and not k.startswith("#"):
                v = fresh_val(v.sh, "g." + k); st.G[k] = v
                for x in v.lv:
                    if isinstance(x, z3.ExprRef): V.BASEGEN[x.decl().name()] = st.gen
        for k in [k for k in st.gh if isinstance(k, tuple) and k[0] in ("rf", "vl", "py")]: del st.gh[k]

    # ---------------------------------------------------------------- statements
    def ex(self, s, fr):
        if s is None: return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.ev_any(s, fr) if "t" in s else self._uns(k)
            return
        return m(s, fr)
    def _uns(self, k): raise Unsupported("statement " + k)
    def s_Compound(self, s, fr):
        for x in s["b"]: self.ex(x, fr)
    def s_Null(self, s, fr): pass
    def s_Decl(self, s, fr):
        for d in s["d"]: self.decl(d, fr)
    def decl(self, d, fr):
        key = (fr.fid, d["id"]); t = d["t"]
        if d.get("static"):
            self.static_decl(d, fr); return
        if t.k == "ref":
            self.st.L[key] = self.ev_ref(d["init"], fr)
        else:
            try: sh = shape_of(t)
            except Unsupported:
                sh = UNIT
            if d.get("init") is None:
                self.st.L[key] = self.default_of(sh) if t.k == "rec" else (fresh_val(sh, d["n"]))
            elif d["init"]["k"] == "Ctor" or (d["init"]["k"] == "Cleanups" and d["init"]["e"]["k"] == "Ctor"):
                self.st.L[key] = fresh_val(sh, d["n"])
                self.init_into(Loc(("L", key), (), sh, sh), d["init"], fr, t)
            else:
                v = self.ev(d["init"], fr)
                if v is None: v = Val(UNIT, [])
                self.st.L[key] = v
        if d.get("bind"):
            base = self.st.L[key]
            if not isinstance(base, (Loc, Choice)): base = Loc(("L", key), (), base.sh, base.sh)
            sh = loc_sh(base); names = [n for n in sh.fields if not n.startswith("@")] if sh.kind == "rec" else None
            if names is None: raise Unsupported("structured binding")
            for b, n in zip(d["bind"], names):
                self.st.L[(fr.fid, b["id"])] = lmap(base, lambda l: l.fld(n))
                if "hv" in b: self.st.L[(fr.fid, b["hv"]["id"])] = lmap(base, lambda l: l.fld(n))
    def static_decl(self, d, fr):
        name = "%s::%s" % (fr.fn.qn if fr.fn else "", d["n"]); t = d["t"]
        self.st.L[(fr.fid, d["id"])] = ("static", name)
        if name in self.st.G: return
        sh = shape_of(t)
        if d.get("cst") and d.get("init") is not None:
            self.st.G[name] = self.ev(d["init"], fr) if d["init"]["k"] != "Ctor" else self._ctor_val(d["init"], fr, sh)
        elif d.get("tls") or True:
            # value left by earlier calls: unknown
            v = fresh_val(sh, name); self.st.G[name] = v; self.type_facts(v)
    def _ctor_val(self, e, fr, sh):
        loc = self.temp(fresh_val(sh, "c")); self.init_into(loc, e, fr); return self.load(loc)
    def cond(self, e, fr, vd=None):
        if vd is not None: self.decl(vd, fr)
        v = self.ev(e, fr)
        return simp_bool(v.t)
    def s_If(self, s, fr):
        if s.get("i"): self.ex(s["i"], fr)
        c = self.cond(s["c"], fr, s.get("v"))
        self.branch(c, lambda: self.ex(s["th"], fr), lambda: self.ex(s.get("el"), fr))
    def s_Return(self, s, fr):
        v = None
        if s.get("e") is not None:
            rt = fr.fn.d["ret"] if fr.fn is not None else None
            if rt is not None and rt.k == "ref": v = self.ev_l(s["e"], fr)
            elif fr.fn is None and s["e"]["vk"] != "r": v = self.load(self.ev_l(s["e"], fr))
            else: v = self.ev(s["e"], fr)
        fr.rets.append((self.st, v)); raise Dead()
    def s_Break(self, s, fr): fr.loops[-1][0].append(self.st); raise Dead()
    def s_Continue(self, s, fr):
        for l in reversed(fr.loops):
            if l[1] is not None: l[1].append(self.st); raise Dead()
        raise Unsupported("continue outside loop")
    def s_Try(self, s, fr):
        self.throws.append([])
        live = []
        try:
            self.ex(s["b"], fr); live.append(self.st)
        except Dead: pass
        th = self.throws.pop()
        for (st, ety, val) in th:
            done = False
            for h in s["h"]:
                m = TRUE if "t" not in h else self.catches(h["t"], ety)
                if m is None:  # may or may not
                    b = z3.Bool(fresh_name("catch")); st2 = st.clone(); st2.pc.append(b); st.pc = st.pc + [Not(b)]
                elif z3.is_true(m): st2 = st; done = True
                else: continue
                self.st = st2
                try:
                    if h.get("v") is not None:
                        key = (fr.fid, h["v"]["id"]); t = h["v"]["t"].noref()
                        sh = shape_of(t)
                        self.st.L[key] = val if isinstance(val, Val) and val.sh is sh else self.fresh_val(sh, "exc")
                        if h["v"]["t"].k == "ref": self.st.L[key] = self.temp(self.st.L[key])
                    self.exc_stack.append((ety, val))
                    try: self.ex(h["b"], fr); live.append(self.st)
                    finally: self.exc_stack.pop()
                except Dead: pass
                if done: break
            if not done: self.throws[-1].append((st, ety, val))
        if not live: raise Dead()
        self.st, _ = merge_all(live)
    exc_stack = []
    def catches(self, ht, ety):
        """does a handler for type ht catch exception type ety (Ty or name)"""
        t = ht.noref(); hn = t.name or t.s
        en = ety if isinstance(ety, str) else (ety.name or ety.s)
        if hn == en: return TRUE
        seen = [en]
        while seen:
            x = seen.pop()
            if x == hn: return TRUE
            if x in STDEXC: seen += STDEXC[x]
            else:
                ty = self.prog.types.get(x)
                if ty is not None and ty.rec is not None: seen += [b.name for b in ty.rec.bases]
                elif x not in STDEXC and x not in ("int",) and not isinstance(ety, str) : pass
        if en == "?": return None
        return FALSE

    def s_Switch(self, s, fr):
        if s.get("i"): self.ex(s["i"], fr)
        if s.get("v"): self.decl(s["v"], fr)
        v = self.ev(s["c"], fr).t
        # flatten body into list of (labels, stmt)
        items = []
        def flat(x):
            if x is None: return
            if x["k"] == "Case":
                items.append(("case", x)); flat(x["b"])
            elif x["k"] == "Default": items.append(("default", x)); flat(x["b"])
            else: items.append(("stmt", x))
        body = s["b"]
        for x in (body["b"] if body["k"] == "Compound" else [body]): flat(x)
        conds = []
        for kind, x in items:
            if kind == "case":
                cv = self.ev(x["v"], fr).t
                cv = resize(cv, v.size(), False)
                if x.get("v2") is not None:
                    c2 = resize(self.ev(x["v2"], fr).t, v.size(), False); conds.append(z3.And(v >= cv, v <= c2))
                else: conds.append(Eq(v, cv))
            else: conds.append(None)
        allc = Or(*[c for c in conds if c is not None]) if any(c is not None for c in conds) else FALSE
        brk = []; fr.loops.append((brk, None))
        entry = self.st; fall = None; rest = entry
        base = entry
        # sequentially: `rest` = state not yet matched, `fall` = state falling through
        def join(a, b):
            if a is None: return b
            if b is None: return a
            return merge_all([a, b])[0]
        hasdef = any(k == "default" for k, _ in items)
        defst = None
        # states for default = no case matches
        if hasdef or True:
            pass
        i = 0
        while i < len(items):
            kind, x = items[i]
            if kind in ("case", "default"):
                # gather consecutive labels
                cs = []; isdef = False
                while i < len(items) and items[i][0] in ("case", "default"):
                    if items[i][0] == "default": isdef = True
                    else: cs.append(conds[i])
                    i += 1
                c = Or(*cs) if cs else FALSE
                if isdef: c = Or(c, Not(allc))
                c = simp_bool(c)
                if z3.is_false(c): continue
                ent = base.clone()
                if not z3.is_true(c): 
                    kn = self._known_in(ent, c)
                    if kn is False: continue
                    ent.pc.append(c)
                fall = join(ent, fall) if fall is not None else ent
            else:
                i += 1
                if fall is None: continue
                self.st = fall
                try: self.ex(x, fr); fall = self.st
                except Dead: fall = None
        fr.loops.pop()
        outs = list(brk)
        if fall is not None: outs.append(fall)
        if not hasdef:
            c = simp_bool(Not(allc))
            if not z3.is_false(c):
                s0 = base.clone(); s0.pc.append(c); outs.append(s0)
        if not outs: raise Dead()
        self.st, _ = merge_all(outs)
    def _known_in(self, st, c):
        o = self.st; self.st = st
        try: return self.known(c)
        finally: self.st = o

    # ---------------------------------------------------------------- loops
    def s_While(self, s, fr): self.loop(s, fr, lambda: self.cond(s["c"], fr, s.get("v")) if s.get("c") else TRUE, s["b"], None, False)
    def s_Do(self, s, fr): self.loop(s, fr, lambda: self.cond(s["c"], fr), s["b"], None, True)
    def s_For(self, s, fr):
        if s.get("i"): self.ex(s["i"], fr)
        self.loop(s, fr, (lambda: self.cond(s["c"], fr, s.get("v"))) if s.get("c") else (lambda: TRUE), s["b"], s.get("inc"), False)
    def s_RangeFor(self, s, fr):
        if s.get("i"): self.ex(s["i"], fr)
        rng = self.ev_ref(s["r"], fr)
        sh = loc_sh(rng); vd = s["v"]
        ikey = (fr.fid, "idx@%s" % vd["n"]); fr_idx = ikey
        w = Loc(("L", ikey), (), SIZE, SIZE)
        self.st.L[ikey] = Val(SIZE, [bv(0)])
        extra = {"range": rng, "idx": w, "var": vd}
        if sh.kind in ("vec", "str", "arr", "xarr"):
            def n():
                if sh.kind == "str": return slen(self.load(rng).lv[0])
                if sh.kind in ("arr", "xarr"): return bv(sh.n)
                return self.load(rng).lv[0]
            def bindv():
                i = self.load(w).t
                el = lmap(rng, lambda l: l.ext(("i", i), V.CHAR if sh.kind == "str" else sh.elem))
                self.bind_loopvar(vd, el, fr)
            cond = lambda: simp_bool(fold(z3.ULT(self.load(w).t, n()), self.load(w).t, n()))
        elif sh.kind in ("map", "set"):
            v0 = self.load(rng); dom = v0.lv[1]; size = v0.lv[0]
            mkey, mpos, msz, ax = mapfuns(dom.sort()); self.st.pc.append(msz(dom) == size)
            extra["dom"] = dom; extra["mkey"] = mkey; extra["mpos"] = mpos
            def bindv():
                i = self.load(w).t; kt = mkey(dom, i)
                self.assume(z3.And(z3.Select(dom, kt), mpos(dom, kt) == i))
                kv = Val(sh.key, [kt])
                if sh.kind == "set": self.bind_loopvar(vd, kv, fr)
                else:
                    key = (fr.fid, "cur@%s" % vd["n"])
                    el = lmap(rng, lambda l: l.ext(("k", kt), sh.elem))
                    self.bind_pair(vd, kv, el, fr)
            cond = lambda: simp_bool(z3.ULT(self.load(w).t, size))
        else: raise Unsupported("range-for over %r" % sh)
        def step():
            self.store(w, Val(SIZE, [fold(self.load(w).t + 1, self.load(w).t)]))
        self.loop(s, fr, cond, s["b"], step, False, bindv, extra)
    def bind_loopvar(self, vd, el, fr):
        key = (fr.fid, vd["id"])
        if vd["t"].k == "ref":
            if isinstance(el, Val): el = self.temp(el)
            self.st.L[key] = el
        else:
            v = self.rv(el)
            # implicit conversions of the loop variable (e.g. char -> uint8_t)
            init = vd.get("init")
            sh = shape_of(vd["t"])
            if sh.kind == "int" and v.sh.kind == "int" : v = Val(sh, [resize(v.t, sh.w, v.sh.sg)])
            self.st.L[key] = v
        if vd.get("bind"):
            base = self.st.L[key]
            if isinstance(base, Val): base = Loc(("L", key), (), base.sh, base.sh)
            sh = loc_sh(base)
            for b, n in zip(vd["bind"], list(sh.fields)): self.st.L[(fr.fid, b["id"])] = lmap(base, lambda l: l.fld(n))
    def bind_pair(self, vd, kv, el, fr):
        """loop variable over map entries: pair of key and reference to mapped value"""
        if vd.get("bind"):
            ids = vd["bind"]
            self.st.L[(fr.fid, ids[0]["id"])] = self.temp(kv)
            self.st.L[(fr.fid, ids[1]["id"])] = el if vd["t"].k == "ref" else self.temp(self.load(el))
            for b, l in zip(ids, (self.st.L[(fr.fid, ids[0]["id"])], self.st.L[(fr.fid, ids[1]["id"])])):
                if "hv" in b: self.st.L[(fr.fid, b["hv"]["id"])] = l
            return
        self.st.L[(fr.fid, vd["id"])] = PairRef(self.temp(kv), el if vd["t"].k == "ref" else self.temp(self.load(el)))

    def exhaust_for(self, s, fr):
        if "inner" in self.exhaust and fr.loops: return self.exhaust["inner"]
        for q in reversed(self.callstack):
            if q in self.exhaust: return self.exhaust[q]
        return self.exhaust.get("*", 0)
    def loop(self, s, fr, cond, body, inc, isdo, pre=None, extra=None):
        """generic loop; tries exact unrolling, else invariant"""
        from . import loops
        loops.run(self, s, fr, cond, body, inc, isdo, pre, extra or {})

    # ---------------------------------------------------------------- expressions: rvalues
    def ev(self, e, fr):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            if e.get("vk") in ("l", "x"): return self.load(self.ev_l(e, fr))
            raise Unsupported("expression %s %s" % (k, e.get("sc", "")))
        return m(e, fr)
    def vshape(self, e): return shape_of(e["t"])
    def e_Const(self, e, fr):
        t = e["t"]
        if t.k == "bool": return self.boolv(z3.BoolVal(int(e["v"]) != 0))
        return Val(shape_of(t), [bv(int(e["v"]), t.w)])
    def e_Float(self, e, fr): return Val(shape_of(e["t"]), [z3.Const("fl!%r" % e["v"], OpqS)])
    def e_Null(self, e, fr):
        return Val(shape_of(e["t"]), [null])
    def e_Str(self, e, fr): return self.load(self.ev_l(e, fr))
    def e_This(self, e, fr):
        return Val(shape_of(e["t"]), [self.to_ptr(fr.this)])
    def to_ptr(self, loc):
        if isinstance(loc, Loc) and loc.root[0] in ("H", "B") and not loc.path: return loc.root[1]
        return loc
    def addr_of(self, loc, sh):
        """pointer value to a location"""
        if isinstance(loc, Choice): return ml(loc.c, self.addr_of(loc.a, sh), self.addr_of(loc.b, sh))
        if isnull(loc): return Val(sh, [null]) if sh.kind == "ref" else Val(sh, [null, bv(0)])
        if sh.kind == "parr":
            if isinstance(loc, Loc) and loc.root[0] == "M" and len(loc.path) == 1: return Val(sh, [loc.root[1], loc.path[0][1]])
            if isinstance(loc, Loc) and loc.path and loc.path[-1][0] == "i":
                b = Loc(loc.root, loc.path[:-1], self.path_shape(loc, -1), loc.rsh)
                return Val(sh, [b, loc.path[-1][1]])
            return Val(sh, [loc, bv(0)])
        return Val(sh, [self.to_ptr(loc)])
    def path_shape(self, loc, n):
        sh = loc.rsh
        for op in loc.path[:n]:
            if op[0] == "s": sh = op[2]
            elif op[0] == "i": sh = V.CHAR if sh.kind == "str" else sh.elem
            else: sh = sh.elem
        return sh
    def e_Cleanups(self, e, fr): return self.ev(e["e"], fr)
    def e_Mat(self, e, fr): return self.ev(e["e"], fr)
    def e_StdInitList(self, e, fr):
        x = e["e"]
        while x["k"] in ("Mat", "Cleanups"): x = x["e"]
        sh = shape_of(e["t"]); vals = [self.ev(a, fr) for a in x["a"]]
        return self.mkvec(sh, vals)
    def mkvec(self, sh, vals):
        lv = [bv(len(vals))]
        for j, s in enumerate(sh.elem.sorts):
            a = z3.K(I64, zero_of(s)) if s != StrS else z3.K(I64, sempty)
            for i, v in enumerate(vals): a = z3.Store(a, bv(i), v.lv[j])
            lv.append(a)
        return Val(sh, lv)
    def e_InitList(self, e, fr):
        sh = self.vshape(e); a = e["a"]
        if sh.kind in ("int", "bool", "ref", "parr"): return self.ev(a[0], fr) if a else zero_default(sh)
        if sh.kind in ("arr", "xarr"):
            if len(a) == 1 and a[0]["k"] == "Str":
                bs = a[0]["v"]
                arr = z3.K(I64, bv(0, 8))
                for i, c in enumerate(bs): arr = z3.Store(arr, bv(i), bv(c & 255, 8))
                return Val(sh, [arr])
            # std::array has one inner init list
            if len(a) == 1 and a[0]["k"] == "InitList" and a[0]["t"].k == "arr" and e["t"].k == "rec": return Val(sh, self.e_InitList(a[0], fr).lv)
            if len(a) == 1 and e["t"].k == "rec" and a[0]["t"].k == "arr": return Val(sh, self.ev(a[0], fr).lv)
            vals = [self.ev(x, fr) for x in a]
            if sh.kind == "xarr":
                lv = []
                for v in vals: lv += v.lv
                while len(lv) < len(sh.sorts): lv += zero_default(sh.elem).lv
                return Val(sh, lv)
            z = zero_default(sh.elem)
            lv = [z3.K(I64, x) for x in z.lv]
            for i, v in enumerate(vals): lv = [z3.Store(x, bv(i), y) for x, y in zip(lv, v.lv)]
            return Val(sh, lv)
        if sh.kind == "rec":
            lv = []
            if sh.ty is not None and sh.ty.rec is not None and sh.ty.rec.union:
                if not a or a[0]["k"] == "ZeroInit" or (a[0]["k"] == "InitList" and not a[0]["a"]): return zero_default(sh)
                raise Unsupported("union initialiser")
            names = list(sh.fields); vals = [self.ev_field(x, fr, sh.fields[n][1]) for x, n in zip(a, names)]
            for i, n in enumerate(names):
                fs = sh.fields[n][1]
                if i < len(vals): v = vals[i]; lv += (v.lv if v is not None else [])
                else: lv += self.default_of(fs).lv
            if len(lv) != sh.nl(): raise Unsupported("aggregate init of %r" % sh)
            return Val(sh, lv)
        if sh.kind == "unit": return Val(sh, [])
        if sh.kind == "vec" and not a: return zero_default(sh)
        if not a: return self.default_of(sh)
        if len(a) == 1: return self.ev(a[0], fr)
        raise Unsupported("init list for %r" % sh)
    def ev_field(self, x, fr, fs):
        if fs.kind == "unit":
            try: self.ev_any(x, fr)
            except Unsupported: pass
            return Val(UNIT, [])
        if x["vk"] in ("l", "x") and fs.kind == "ref" and shape_of(x["t"]).kind == "rec": return self.addr_of(self.ev_l(x, fr), fs)
        return self.ev(x, fr)
    def e_ZeroInit(self, e, fr):
        sh = self.vshape(e)
        if e["t"].k == "rec": return self.default_of(sh)
        return zero_default(sh)
    def e_Throw(self, e, fr):
        if e.get("e") is None:
            if self.exc_stack: self.do_throw(*self.exc_stack[-1])
            self.do_throw("?", None)
        v = None
        try: v = self.ev(e["e"], fr)
        except Unsupported: v = None
        self.do_throw(e.get("et") or e["e"]["t"], v)
    def e_Ctor(self, e, fr):
        sh = self.vshape(e)
        if e["t"].k == "arr": return self.default_of(sh)
        loc = self.temp(fresh_val(sh, "obj"))
        self.construct(loc, e, fr)
        return self.load(loc)
    def e_New(self, e, fr):
        if e.get("n") is not None:
            raise Unsupported("new[]")
        ty = e["at"]; r = self.alloc("new")
        sh = shape_of(ty); loc = Loc(("H", r), (), sh, sh)
        if e.get("init") is not None: self.init_into(loc, e["init"], fr, ty)
        return Val(shape_of(e["t"]), [r])
    def e_Delete(self, e, fr): self.ev(e["e"], fr); return None
    def e_Lambda(self, e, fr):
        caps = {}
        for c in e["caps"]:
            if c.get("this"): caps["this"] = fr.this; continue
            if c.get("byref"): caps[c["id"]] = self.ev_l(c["e"], fr)
            else: caps[c["id"]] = self.temp(self.ev(c["e"], fr))
        return Val(shape_of(e["t"]), [Closure(e, fr, caps)])
    def e_StmtExpr(self, e, fr): raise Unsupported("statement expression")
    def e_TypeId(self, e, fr): return None
    def e_FnRef(self, e, fr): return Val(py_shape("fnptr"), [("fn", e["f"])])
    def e_Cond(self, e, fr):
        c = self.cond(e["c"], fr)
        return self.branch(c, lambda: self.ev(e["x"], fr), lambda: self.ev(e["y"], fr))
    def e_Un(self, e, fr):
        op = e["op"]
        if op == "!": return self.boolv(Not(self.ev(e["e"], fr).t))
        if op in ("++", "--"):
            loc = self.ev_l(e["e"], fr); old = self.load(loc)
            self.store(loc, self.incdec(old, op))
            return old if e.get("post") else self.load(loc)
        if op == "&":
            x = e["e"]
            if x["k"] == "FnRef": return self.e_FnRef(x, fr)
            sh = self.vshape(e)
            if sh.kind == "fnptr": return Val(sh, [("mem", x)])
            return self.addr_of(self.ev_l(x, fr), sh)
        if op == "*": return self.load(self.ev_l(e, fr))
        v = self.ev(e["e"], fr)
        if op == "+": return v
        if v.sh.kind == "float": return Val(v.sh, [z3.Function("f_" + op, OpqS, OpqS)(v.t)])
        if op == "-": return Val(v.sh, [fold(-v.t, v.t)])
        if op == "~": return Val(v.sh, [fold(~v.t, v.t)])
        raise Unsupported("unary " + op)
    def incdec(self, v, op):
        d = 1 if op == "++" else -1
        if v.sh.kind == "int": return Val(v.sh, [fold(v.t + bv(d, v.sh.w), v.t)])
        if v.sh.kind == "parr": return Val(v.sh, [v.lv[0], fold(v.lv[1] + bv(d), v.lv[1])])
        raise Unsupported("++ on %r" % v.sh)
    def e_CAsg(self, e, fr):
        return self.load(self.ev_l(e, fr))
    def e_Bin(self, e, fr):
        op = e["op"]
        if op in ("&&", "||") and shape_of(e["t"]).kind == "simd":     # lane-wise on two 64-bit lanes, both sides evaluated
            x, y = self.ev(e["x"], fr).t, self.ev(e["y"], fr).t; g = z3.And if op == "&&" else z3.Or; lane = lambda t, i: z3.Extract(64 * i + 63, 64 * i, t) != 0
            return Val(shape_of(e["t"]), [z3.Concat(*[z3.If(g(lane(x, i), lane(y, i)), bv((1 << 64) - 1), bv(0)) for i in (1, 0)])])
        if op == "&&":
            a = simp_bool(self.ev(e["x"], fr).t)
            return self.branch(a, lambda: self.boolv(simp_bool(self.ev(e["y"], fr).t)), lambda: self.boolv(FALSE))
        if op == "||":
            a = simp_bool(self.ev(e["x"], fr).t)
            return self.branch(a, lambda: self.boolv(TRUE), lambda: self.boolv(simp_bool(self.ev(e["y"], fr).t)))
        if op == ",":
            self.ev_any(e["x"], fr); return self.ev(e["y"], fr)
        if op == "=": return self.load(self.ev_l(e, fr))
        x = self.ev(e["x"], fr); y = self.ev(e["y"], fr)
        return self.binop(op, x, y, e["x"]["t"], e["t"])
    def binop(self, op, x, y, xt, rt):
        kx, ky = x.sh.kind, y.sh.kind
        if kx == "float" or ky == "float":
            if op in ("==", "!=", "<", ">", "<=", ">="): 
                r = z3.Function("fl_" + op, OpqS, OpqS, z3.BoolSort())(x.t, y.t); return self.boolv(r)
            return Val(x.sh, [z3.Function("fl_" + op, OpqS, OpqS, OpqS)(x.t, y.t)])
        if kx == "parr" or ky == "parr": return self.parr_op(op, x, y)
        if kx in ("ref", "fnptr", "func") or ky in ("ref", "fnptr"):
            r = self.ptr_eq(x.lv[0], y.lv[0])
            if op == "==": return self.boolv(r)
            if op == "!=": return self.boolv(Not(r))
            raise Unsupported("pointer op " + op)
        a, b = x.t, y.t
        if kx == "simd": return self.simd_op(op, x, y)
        if kx == "bool" and ky == "bool":
            if op == "==": return self.boolv(Eq(a, b))
            if op == "!=": return self.boolv(Not(Eq(a, b)))
            a = If(a, bv(1, 32), bv(0, 32)); b = If(b, bv(1, 32), bv(0, 32)); sg = False
        else: sg = x.sh.sg
        w = a.size()
        if op in ("<<", ">>"): b = resize(b, w, False) if b.size() != w else b
        elif b.size() != w: raise Unsupported("width mismatch %s %d %d" % (op, w, b.size()))
        if op == "==": return self.boolv(Eq(a, b))
        if op == "!=": return self.boolv(Not(Eq(a, b)))
        if op == "<": return self.boolv(fold(a < b if sg else z3.ULT(a, b), a, b))
        if op == "<=": return self.boolv(fold(a <= b if sg else z3.ULE(a, b), a, b))
        if op == ">": return self.boolv(fold(a > b if sg else z3.UGT(a, b), a, b))
        if op == ">=": return self.boolv(fold(a >= b if sg else z3.UGE(a, b), a, b))
        sh = shape_of(rt) if rt is not None else x.sh
        if op == "+": r = fold(a + b, a, b)
        elif op == "-": r = fold(a - b, a, b)
        elif op == "*": r = fold(a * b, a, b)
        elif op == "/": r = fold(a / b if sg else z3.UDiv(a, b), a, b); self.div_check(b)
        elif op == "%":
            self.div_check(b)
            if self.abstract_rem and not self.unroll and not sg and not (z3.is_bv_value(a) and z3.is_bv_value(b)):   # a function symbol with the facts that define a remainder; more facts come from lemmas
                r = UREM(a.size())(a, b); self.assume(z3.Implies(b != 0, z3.And(z3.ULT(r, b), z3.Implies(z3.ULT(a, b), r == a))))
            else: r = fold(z3.SRem(a, b) if sg else z3.URem(a, b), a, b)
        elif op == "&": r = fold(a & b, a, b)
        elif op == "|": r = fold(a | b, a, b)
        elif op == "^": r = fold(a ^ b, a, b)
        elif op == "<<": r = fold(a << b, a, b)
        elif op == ">>": r = fold(a >> b if sg else z3.LShR(a, b), a, b)
        else: raise Unsupported("binary " + op)
        if z3.is_app_of(r, z3.Z3_OP_BADD) and z3.is_bv_value(r.arg(1)) and r.arg(1).as_long() == 0: r = r.arg(0)
        if sh.kind == "bool": sh = x.sh
        return Val(sh, [r])
    check_div = True
    def div_check(self, b):
        if self.check_div and not lit(b): self.prove("division by zero", b != 0, "arith")
    def simd_op(self, op, x, y):
        a, b = x.t, y.t
        if op in "&|^": return Val(x.sh, [a & b if op == "&" else a | b if op == "|" else a ^ b])
        raise Unsupported("simd " + op)
    def ptr_eq(self, a, b):
        if isinstance(a, Choice): return If(a.c, self.ptr_eq(a.a, b), self.ptr_eq(a.b, b))
        if isinstance(b, Choice): return self.ptr_eq(b, a)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return Eq(a, b)
        if isinstance(a, Loc) and isinstance(b, Loc):
            if loc_eq(a, b): return TRUE
            if a.root[0] != b.root[0]: return FALSE
            if a.root[0] == "L": return FALSE if a.root != b.root or a.path else FALSE
            raise Unsupported("pointer comparison")
        if isnull(a) or isnull(b): return FALSE
        if isinstance(a, PyOpaque) or isinstance(b, PyOpaque): return z3.Bool(fresh_name("fnull"))
        if isinstance(a, (Closure, tuple)) or isinstance(b, (Closure, tuple)): return FALSE
        return FALSE
    def parr_op(self, op, x, y):
        if op in ("+", "-") and y.sh.kind == "int":
            d = resize(y.t, 64, y.sh.sg)
            return Val(x.sh, [x.lv[0], fold(x.lv[1] + d if op == "+" else x.lv[1] - d, x.lv[1], d)])
        if op == "+" and x.sh.kind == "int": return self.parr_op("+", y, x)
        if y.sh.kind == "ref": y = Val(x.sh, [null, bv(0)])
        if x.sh.kind == "ref": x = Val(y.sh, [null, bv(0)])
        if op == "-": return Val(int_shape(64, True), [fold(x.lv[1] - y.lv[1], x.lv[1], y.lv[1])])
        same = self.ptr_eq(x.lv[0], y.lv[0])
        if op == "==": return self.boolv(And(same, Or(self.ptr_eq(x.lv[0], null), Eq(x.lv[1], y.lv[1]))))
        if op == "!=": return self.boolv(Not(And(same, Or(self.ptr_eq(x.lv[0], null), Eq(x.lv[1], y.lv[1])))))
        a, b = x.lv[1], y.lv[1]
        return self.boolv({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])

    def e_Cast(self, e, fr):
        ck = e["ck"]; x = e["e"]; t = e["t"]
        if ck in ("LValueToRValue",):
            return self.load(self.ev_l(x, fr))
        if ck == "NoOp":
            if e["vk"] in ("l", "x"): return self.load(self.ev_l(x, fr))
            return self.ev_any(x, fr) if x["vk"] == "r" else self.load(self.ev_l(x, fr))
        if ck == "VectorSplat":
            y = self.ev(x, fr).t; return Val(shape_of(t), [z3.Concat(*[resize(y, 64, True)] * 2)])
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            v = self.ev(x, fr)
            return Val(shape_of(t), [self.toint(v, t.w)])
        if ck == "IntegralToBoolean":
            v = self.ev(x, fr)
            if v.sh.kind == "bool": return v
            a = v.t
            if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                return self.boolv(If(a.arg(0), z3.BoolVal(a.arg(1).as_long() != 0), z3.BoolVal(a.arg(2).as_long() != 0)))
            return self.boolv(Not(Eq(a, bv(0, a.size()))))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            v = self.ev(x, fr); return self.boolv(Not(self.ptr_eq(v.lv[0], null)))
        if ck == "NullToPointer": 
            sh = shape_of(t)
            return Val(sh, [null, bv(0)]) if sh.kind == "parr" else Val(sh, [null] if sh.kind == "ref" else [None])
        if ck == "ArrayToPointerDecay":
            l = self.ev_l(x, fr); sh = shape_of(t)
            return Val(sh, [l, bv(0)]) if sh.kind == "parr" else Val(sh, [l])
        if ck == "FunctionToPointerDecay": return self.e_FnRef(x, fr) if x["k"] == "FnRef" else self.ev(x, fr)
        if ck == "BuiltinFnToFnPtr": return self.e_FnRef(x, fr)
        if ck in ("ConstructorConversion",): return self.ev(x, fr)
        if ck == "UserDefinedConversion": return self.ev(x, fr)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"):
            if e["vk"] in ("l", "x"): return self.load(self.ev_l(e, fr))
            v = self.ev_any(x, fr)
            if isinstance(v, (Loc, Choice)): v = self.load(v)
            sh = shape_of(t)
            if v.sh.kind == "ref":
                if isinstance(v.lv[0], Loc): return Val(sh, [self.upcast(v.lv[0], t.to)])
                if ck == "Dynamic":
                    b = z3.Bool(fresh_name("dyn")); return Val(sh, [If(b, v.lv[0], null)])
                return Val(sh, v.lv)
            if v.sh.kind == "rec" and sh.kind == "rec":
                for n, (o, s2) in v.sh.fields.items():
                    if s2 is sh: return sub(v, o, sh)
            if len(v.lv) == sh.nl(): return Val(sh, v.lv)
            raise Unsupported("base conversion")
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast", "FloatingToBoolean"):
            v = self.ev(x, fr); sh = shape_of(t)
            if sh.kind == "bool": return self.boolv(z3.Bool(fresh_name("fb")))
            a = v.lv[0]
            if not isinstance(a, z3.ExprRef): return self.fresh_val(sh, "fl")
            f = z3.Function("cv_%s_%s_%s" % (ck, x["t"].s.replace(" ", "_"), t.s.replace(" ", "_")), a.sort(), sh.sorts[0])
            return Val(sh, [f(a)])
        if ck == "ToVoid":
            self.ev_any(x, fr); return None
        if ck == "BitCast":
            v = self.ev(x, fr); sh = shape_of(t)
            if v.sh.kind == sh.kind and sh.kind == "parr":
                if (v.sh.pointee.w or 8) == (sh.pointee.w or 8): return Val(sh, v.lv)
                return Val(sh, [Reint(v.lv[0], v.sh.pointee), v.lv[1]]) if not (v.sh.pointee.k == "void" or sh.pointee.k == "void") else Val(sh, v.lv)
            if v.sh.kind == "ref" and sh.kind == "ref": return Val(sh, v.lv)
            if v.sh.kind == "parr" and sh.kind == "ref": return Val(sh, [Reint(v, v.sh.pointee)])
            if v.sh.kind == "ref" and sh.kind == "parr": return Val(sh, [v.lv[0], bv(0)])
            if v.sh.kind == sh.kind: return Val(sh, v.lv)
            raise Unsupported("bitcast")
        if ck in ("IntegralToPointer", "PointerToIntegral"):
            self.ev(x, fr); return self.fresh_val(shape_of(t), "pi")
        if ck == "LValueBitCast" or ck == "LValueToRValueBitCast": raise Unsupported(ck)
        raise Unsupported("cast " + ck)
    def toint(self, v, w):
        if v.sh.kind == "bool": return If(v.t, bv(1, w), bv(0, w))
        return resize(v.t, w, v.sh.sg)
    def upcast(self, loc, t):
        if isinstance(loc, Choice): return Choice(loc.c, self.upcast(loc.a, t), self.upcast(loc.b, t))
        if not isinstance(loc, Loc): return loc
        sh = shape_of(t)
        if loc.sh is sh: return loc
        if loc.root[0] == "H" and not loc.path: return Loc(loc.root, (), sh, sh)
        if loc.sh.kind == "rec":
            for n, (off, s) in loc.sh.fields.items():
                if n == "@" + t.s: return loc.ext(("s", off, s), s)
        if loc.sh.kind == sh.kind: return loc
        if sh.kind == "unit": return loc
        raise Unsupported("upcast to " + t.s)
    # calls
    def e_Call(self, e, fr):
        r = self.do_call(e, fr)
        return self.rv(r) if isinstance(r, (Loc, Choice)) and e["vk"] != "r" or isinstance(r, (Loc,)) else r
    e_MCall = e_Call
    def do_call(self, e, fr):
        f = e.get("f")
        if e["k"] == "MCall":
            b = e["b"]
            if e.get("ar"): this = self.deref(self.ev(b, fr), b["t"].to if b["t"].k == "ptr" else None)
            else: this = self.ev_ref(b, fr)
            if f.get("cls") is not None: this = self.adjust_this(this, f["cls"])
            return self.call(e, f, this, self.args(f, e["a"], fr), fr)
        if f is None:
            c = self.ev_any(e["fe"], fr)
            return self.call_value(self.rv(c), [self.ev_any(a, fr) for a in e["a"]], e, fr)
        a = e["a"]
        if e.get("mem"):
            this = self.ev_ref(a[0], fr)
            if f.get("cls") is not None: this = self.adjust_this(this, f["cls"])
            if f.get("lamcall") is not None:
                cv = self.load(this)
                return self.call_closure(cv.lv[0], [self.ev_any(x, fr) for x in a[1:]], f)
            if f["n"] == "operator()" and loc_sh(this).kind == "func":
                return self.call_value(self.load(this), [self.ev_any(x, fr) for x in a[1:]], e, fr)
            if f.get("asg") and (f.get("def") or f.get("impl")) and (f["cls"].rec is not None) and not self.user_asg(f):
                if f["id"] in self.contracts: pass
                src = self.args(f, a[1:], fr)[0]
                if loc_sh(this).nl(): self.store(this, self.rv(src))
                if f["asg"] == "move": self.moved(src)
                return this
            return self.call(e, f, this, self.args(f, a[1:], fr), fr)
        return self.call(e, f, None, self.args(f, a, fr), fr)
    def user_asg(self, f): return False
    def adjust_this(self, this, cls):
        sh = loc_sh(this)
        if sh.ty is cls or sh.kind in ("vec", "map", "set", "str", "int", "bool", "opt", "iter", "unit", "parr", "arr", "xarr", "func", "lambda", "simd", "float"): return this
        if sh.kind == "ref": return this
        if cls.rec is None: return this
        try: return self.find_base(this, cls)
        except Unsupported: return this
    def find_base(self, loc, cls):
        if isinstance(loc, Choice): return Choice(loc.c, self.find_base(loc.a, cls), self.find_base(loc.b, cls))
        sh = shape_of(cls)
        if isinstance(loc, PairRef): return loc
        if loc.sh is sh: return loc
        if loc.root[0] == "H" and not loc.path: return Loc(loc.root, (), sh, sh)
        for n, (off, s) in loc.sh.fields.items():
            if s is sh and n.startswith("@"): return loc.ext(("s", off, s), s)
        for n, (off, s) in loc.sh.fields.items():
            if n.startswith("@") and s.kind == "rec":
                try: return self.find_base(loc.ext(("s", off, s), s), cls)
                except Unsupported: pass
        raise Unsupported("base " + cls.s)
    def call_value(self, v, args, e, fr):
        c = v.lv[0]
        if isinstance(c, Closure): return self.call_closure(c, args)
        if isinstance(c, tuple) and c[0] == "fn": 
            f = c[1]
            args = [self.rv(a) if not (i < len(f["ps"]) and f["ps"][i].k == "ref") else a for i, a in enumerate(args)]
            return self.call(e, f, None, args, fr)
        if isinstance(c, Choice):
            return self.branch(c.c, lambda: self.call_value(Val(v.sh, [c.a]), args, e, fr), lambda: self.call_value(Val(v.sh, [c.b]), args, e, fr))
        if isinstance(c, PyOpaque):
            h = self.contracts.get(("fnptr", c.n))
            if h is not None: return h(self, Call(self, {"qn": c.n, "n": c.n, "ps": [], "ret": e["t"], "id": ""}, None, args, e, fr))
        self.havocked["<function pointer>"] = 1
        self.havoc_heap()
        return self.fresh_result(e["t"], "fp")
    def call_closure(self, cl, args, f=None):
        if isinstance(cl, Choice):
            return self.branch(cl.c, lambda: self.call_closure(cl.a, args, f), lambda: self.call_closure(cl.b, args, f))
        if not isinstance(cl, Closure): raise Unsupported("call of unknown closure")
        e = cl.node
        fr = Frame(None, cl.vals.get("this", cl.frame.this), cl.vals)
        body, params = e["b"], e["params"]
        ret = e.get("ret")
        if e.get("generic"): raise Unsupported("generic lambda")
        for p, a in zip(params, args): self.bind(fr, p, a)
        class FF: pass
        fk = FF(); fk.qn = "lambda@%s" % e.get("l"); fk.d = {"ret": ret}; fr.fn = fk
        self.callstack.append(fk.qn)
        try:
            try:
                self.ex(body, fr); fr.rets.append((self.st, None))
            except Dead: pass
        finally: self.callstack.pop()
        if not fr.rets: raise Dead()
        rets = fr.rets
        if any(v is not None for s, v in rets): rets = [(s, v) for s, v in rets if v is not None]
        self.st, v = merge_all([s for s, _ in rets], [v for _, v in rets])
        return v

    # ---------------------------------------------------------------- expressions: lvalues
    def ev_l(self, e, fr):
        k = e["k"]
        m = getattr(self, "l_" + k, None)
        if m is None:
            v = self.ev(e, fr)
            if isinstance(v, (Loc, Choice)): return v
            if v is None: return None
            return self.temp(v)
        return m(e, fr)
    def var_loc(self, vid, fr, e=None):
        if vid in fr.caps: return fr.caps[vid]
        key = (fr.fid, vid)
        v = self.st.L.get(key)
        if v is None:
            raise Unsupported("variable %s not found" % (e.get("n") if e else vid,))
        if isinstance(v, (Loc, Choice, PairRef)): return v
        if isinstance(v, tuple) and v[0] == "static":
            g = self.st.G[v[1]]; return Loc(("G", v[1]), (), g.sh, g.sh)
        return Loc(("L", key), (), v.sh, v.sh)
    def l_Ref(self, e, fr):
        if e.get("g"):
            g = e["g"]; t = e["dt"].noref()
            h = self.contracts.get(("global", g))
            if h is not None: return h(self, e)
            sh = shape_of(t); gd = self.prog.globals.get(g)
            if gd is not None and gd.get("cst") and gd.get("init") is not None and g not in self.st.G:
                self.st.G[g] = self.ev(gd["init"], Frame())
            if e["dt"].k == "ref":
                raise Unsupported("global reference")
            return Loc(("G", g), (), sh, sh)
        return self.var_loc(e["id"], fr, e)
    def l_Mem(self, e, fr):
        b = e["b"]
        if e.get("ar"): base = self.deref(self.ev(b, fr), b["t"].to if b["t"].k == "ptr" else None)
        else: base = self.ev_ref(b, fr)
        return self.member(base, e)
    def member(self, base, e):
        n = e["f"]
        if isinstance(base, PairRef): return base.first if n == "first" else base.second
        if isinstance(base, Choice): return Choice(base.c, self.member(base.a, e), self.member(base.b, e)) if not (isnull(base.a) or isnull(base.b)) else self.member(base.b if isnull(base.a) else base.a, e)
        if isinstance(base, Loc) and base.sh.kind != "rec":
            if base.sh.kind == "opq": pass
            raise Unsupported("member %s of %r" % (n, base.sh))
        if e.get("dc") is not None and base.sh.ty is not e["dc"]: base = self.find_base_or(base, e["dc"])
        loc = base.fld(n)
        if e["ft"].k == "ref":
            v = self.load(loc)
            return self.deref(v, e["ft"].to)
        return loc
    def find_base_or(self, base, t):
        try: return self.find_base(base, t)
        except (Unsupported, AttributeError): return base
    def deref(self, v, ty=None):
        if isinstance(v, PairRef): return v
        sh = v.sh
        if sh.kind == "iter": return self.iter_deref(v.lv[0])
        if sh.kind == "parr":
            b, i = v.lv
            return self.mem_at(b, i, sh.pointee)
        t = sh.pointee if sh.pointee is not None else ty
        return self.deref_leaf(v.lv[0], t)
    def deref_leaf(self, p, t):
        if isinstance(p, Choice):
            if isnull(p.a): return self.deref_leaf(p.b, t)
            if isnull(p.b): return self.deref_leaf(p.a, t)
            return Choice(p.c, self.deref_leaf(p.a, t), self.deref_leaf(p.b, t))
        if isinstance(p, (Loc, PairRef)): return p
        if not isinstance(p, z3.ExprRef): raise Unsupported("deref of %r" % (p,))
        self.null_check(p)
        # ite of refs: keep as ref
        sh = shape_of(t)
        if sh.kind == "rec" and sh.keys is not None: return Loc(("H", p), (), sh, sh)
        if sh.kind == "unit": return Loc(("H", p), (), sh, sh)
        return Loc(("B", p), (), sh, sh)
    check_null = False
    def null_check(self, p):
        if self.check_null: self.prove("null dereference", p != null, "null")
    def mem_at(self, b, i, pt):
        esh = shape_of(pt) if pt.k != "void" else int_shape(8)
        w = esh.w or 8
        if isinstance(b, Choice):
            if isnull(b.a): return self.mem_at(b.b, i, pt)
            if isnull(b.b): return self.mem_at(b.a, i, pt)
            return Choice(b.c, self.mem_at(b.a, i, pt), self.mem_at(b.b, i, pt))
        if isinstance(b, Reint): return self.reint_at(b, i, pt)
        if isinstance(b, Loc):
            if b.sh.kind in ("vec", "str", "arr", "xarr"):
                self.bounds(b, i)
                return b.ext(("i", i), esh)
            return b
        if esh.kind == "bool": w = 1
        if self.check_bounds: self.prove("pointer access in bounds", z3.ULT(i, z3.Select(self.st.hmap("msize", I64), b)), "bounds")
        return mem_loc(b, w, i, esh)
    def reint_at(self, b, i, pt): raise Unsupported("reinterpreted memory access")
    def bounds(self, loc, i):
        if not self.check_bounds: return
        sh = loc.sh
        if sh.kind == "vec": n = self.load(loc).lv[0]
        elif sh.kind == "str": n = slen(self.load(loc).lv[0])
        elif sh.kind in ("arr", "xarr"): n = bv(sh.n)
        else: return
        # reading the terminating NUL of a string is allowed
        self.prove("index in bounds", z3.ULT(i, n) if sh.kind != "str" else z3.ULE(i, n), "bounds")
    def iter_deref(self, it):
        if isinstance(it, Choice): return Choice(it.c, self.iter_deref(it.a), self.iter_deref(it.b))
        if isinstance(it, SIter):
            sh = loc_sh(it.loc)
            i = it.idx
            self.bounds(it.loc, i)
            return lmap(it.loc, lambda l: l.ext(("i", i), V.CHAR if sh.kind == "str" else sh.elem))
        if isinstance(it, MIter):
            sh = loc_sh(it.loc)
            if self.check_bounds: self.prove("iterator not at end", Not(it.end), "bounds")
            kv = Val(sh.key, [it.key])
            if sh.kind == "set": return self.temp(kv)
            return PairRef(self.temp(kv), lmap(it.loc, lambda l: l.ext(("k", it.key), sh.elem)))
        if isinstance(it, (Loc, PairRef)): return it
        raise Unsupported("iterator dereference %r" % it)
    def l_Sub(self, e, fr):
        b = e["b"]
        i = self.ev(e["i"], fr); it = resize(i.t, 64, i.sh.sg)
        p = self.ev(b, fr)
        if p.sh.kind == "parr":
            off = fold(p.lv[1] + it, p.lv[1], it)
            if z3.is_bv_value(p.lv[1]) and p.lv[1].as_long() == 0: off = it
            return self.mem_at(p.lv[0], off, p.sh.pointee)
        if p.sh.kind == "ref" and isinstance(p.lv[0], Loc) and p.lv[0].sh.kind in ("arr", "xarr", "vec"):
            l = p.lv[0]; self.bounds(l, it); return l.ext(("i", it), l.sh.elem)
        raise Unsupported("subscript")
    def l_Un(self, e, fr):
        op = e["op"]
        if op == "*":
            v = self.ev(e["e"], fr)
            return self.deref(v, e["t"])
        if op in ("++", "--"):
            loc = self.ev_l(e["e"], fr); self.store(loc, self.incdec(self.load(loc), op)); return loc
        if op in ("__real", "__imag"): raise Unsupported(op)
        return self.temp(self.ev(e, fr))
    def l_Bin(self, e, fr):
        if e["op"] == "=":
            v = self.ev(e["y"], fr); loc = self.ev_l(e["x"], fr)
            self.store(loc, v); return loc
        if e["op"] == ",":
            self.ev_any(e["x"], fr); return self.ev_l(e["y"], fr)
        return self.temp(self.ev(e, fr))
    def l_CAsg(self, e, fr):
        y = self.ev(e["y"], fr); loc = self.ev_l(e["x"], fr); x = self.load(loc)
        op = e["op"].rstrip("=") if e["op"] not in ("<<=", ">>=") else e["op"][:-1]
        if x.sh.kind == "parr": self.store(loc, self.binop(op, x, y, None, None)); return loc
        if x.sh.kind == "simd": self.store(loc, self.simd_op(op, x, y)); return loc
        lt, ct = e["lt"], e["ct"]
        if lt is not None and lt.k == "float":
            self.store(loc, self.fresh_val(x.sh, "fl")); return loc
        xs = Val(shape_of(lt), [self.toint(x, lt.w)]) if lt is not None and lt.k in ("int", "enum") else x
        r = self.binop(op, xs, y, lt, ct)
        if x.sh.kind == "bool": r = self.boolv(Not(Eq(r.t, bv(0, r.t.size())))) if r.sh.kind != "bool" else r
        else: r = Val(x.sh, [resize(r.t, x.sh.w, ct.sg if ct is not None else x.sh.sg)])
        self.store(loc, r); return loc
    def l_Cond(self, e, fr):
        c = self.cond(e["c"], fr)
        return self.branch(c, lambda: self.ev_ref(e["x"], fr), lambda: self.ev_ref(e["y"], fr))
    def l_Str(self, e, fr):
        bs = [x & 255 for x in e["v"]]
        return self.temp(self.strv(str_lit(bs)), "lit")
    def l_Cleanups(self, e, fr): return self.ev_l(e["e"], fr)
    def l_Mat(self, e, fr): return self.temp(self.ev(e["e"], fr))
    def l_Call(self, e, fr):
        r = self.do_call(e, fr)
        if isinstance(r, Val): return self.temp(r)
        return r
    l_MCall = l_Call
    def l_Cast(self, e, fr):
        ck = e["ck"]
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion"): return self.ev_ref(e["e"], fr)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            l = self.ev_ref(e["e"], fr)
            if e["t"].k == "rec" and e["t"].rec is None: return l
            return self.upcast(l, e["t"])
        if ck in ("BaseToDerived", "Dynamic"):
            l = self.ev_ref(e["e"], fr)
            sh = shape_of(e["t"])
            def f(x):
                if x.sh is sh: return x
                if x.root[0] == "H" and not x.path: return Loc(x.root, (), sh, sh)
                raise Unsupported("downcast")
            return lmap(l, f)
        if ck == "LValueBitCast":
            raise Unsupported("lvalue bitcast")
        return self.temp(self.ev(e, fr))
    def l_This(self, e, fr): return self.temp(self.e_This(e, fr))

class PairRef:
    """(key, reference to mapped value) of an associative container entry; also fields first/second"""
    def __init__(self, first, second): self.first = first; self.second = second
    @property
    def sh(self): return PAIRSH
    def fld(self, n): return self.first if n == "first" else self.second
PAIRSH = Shape("pairref", [])
class Reint:
    __slots__ = ("base", "pt")
    def __init__(self, base, pt): self.base = base; self.pt = pt

def isnull(x): return isinstance(x, z3.ExprRef) and x.eq(null)
def loc_sh(l):
    while isinstance(l, Choice): l = l.b if isnull(l.a) else l.a
    return l.sh
def simp_bool(c):
    if z3.is_true(c) or z3.is_false(c): return c
    return c
def zero_default(sh):
    lv = []
    k = sh.kind
    if k == "rec":
        for n, (o, fs) in sh.fields.items(): lv += zero_default(fs).lv
        return Val(sh, lv)
    if k in ("map", "set"):
        d = z3.K(sh.sorts[1].domain(), FALSE)
        return Val(sh, [bv(0), d] + [z3.K(s.domain(), zero_of(s.range())) for s in sh.sorts[2:]])
    return zero_val(sh)

def class_keys(c):
    """names under which library models of a class are registered"""
    qt = c.qt or c.name or c.s
    qt = cleanup(qt)
    out = [qt]
    if qt in ("std::__shared_ptr", "std::__shared_ptr_access"): out.append("std::shared_ptr")
    if qt == "std::__weak_ptr": out.append("std::weak_ptr")
    if qt in V.SEQ or qt == "std::multimap": out.append("seq")
    if qt in V.MAPS: out.append("map")
    if qt in V.SETS: out.append("set")
    if qt in V.ITERS or qt.startswith("std::__detail::_Node"): out.append("iter")
    if qt.startswith("std::_Optional") or qt == "std::optional": out.append("std::optional")
    if qt.startswith("std::__atomic") or qt == "std::atomic": out.append("std::atomic")
    if qt in ("std::basic_string_view",): out.append("std::basic_string")
    return out
def cleanup(q): return re.sub(r"<.*", "", q)
def is_modelled_rec(c): return False

STDEXC = {"std::exception": [], "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"], "std::out_of_range": ["std::logic_error"],
          "std::invalid_argument": ["std::logic_error"], "std::bad_alloc": ["std::exception"], "std::length_error": ["std::logic_error"],
          "std::overflow_error": ["std::runtime_error"], "std::range_error": ["std::runtime_error"], "std::bad_optional_access": ["std::exception"], "std::bad_function_call": ["std::exception"],
          "std::bad_weak_ptr": ["std::exception"], "std::system_error": ["std::runtime_error"], "std::domain_error": ["std::logic_error"]}

class Call:
    """a call site as seen by a contract or library model"""
    def __init__(self, E, f, this, args, e, fr):
        self.E = E; self.f = f; self.this = this; self.args = args; self.e = e; self.fr = fr
    def v(self, i): return self.E.rv(self.args[i])
    def t(self, i): return self.v(i).t
    def arg(self, name):
        fn = self.E.prog.funcs.get(self.f["id"])
        for i, p in enumerate(fn.params):
            if p["n"] == name: return self.args[i]
        raise KeyError(name)
    @property
    def ret(self): return self.f["ret"]
    @property
    def n(self): return len(self.args)
