"""Shapes (flattened value layouts), values, locations and states."""
import z3
I64 = z3.BitVecSort(64)
_ForAll = z3.ForAll
def _pat_ok(t):
    return not (z3.is_bool(t) and not z3.is_app_of(t, z3.Z3_OP_SELECT) and not z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED)) and not z3.is_app_of(t, z3.Z3_OP_ITE) and all(_pat_ok(x) for x in t.children())
def _forall(vs, body, patterns=[], **kw):
    """a trigger may not hold a condition; without one the solver picks its own"""
    ok = [p for p in patterns if z3.is_pattern(p) or _pat_ok(p)]
    return _ForAll(vs, body, patterns=ok, **kw)
z3.ForAll = _forall
StrS = z3.DeclareSort("Str")
RefS = z3.DeclareSort("Ref")
OpqS = z3.DeclareSort("Opq")
null = z3.Const("null", RefS)
slen = z3.Function("slen", StrS, I64)
sat = z3.Function("sat", StrS, I64, z3.BitVecSort(8))
A8 = z3.ArraySort(I64, z3.BitVecSort(8))
smk = z3.Function("smk", A8, I64, I64, StrS)          # bytes a[o..o+n)
ssub = z3.Function("ssub", StrS, I64, I64, StrS)
scat = z3.Function("scat", StrS, StrS, StrS)
supd = z3.Function("supd", StrS, I64, z3.BitVecSort(8), StrS)
schr = z3.Function("schr", z3.BitVecSort(8), StrS)
sempty = z3.Const("str!empty", StrS)
age = z3.Function("age", RefS, z3.IntSort())
MAXLEN = 1 << 40

class Unsupported(Exception):
    pass

def bv(v, w=64): return z3.BitVecVal(v, w)
_ctr = [0]
def fresh_name(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])
def fresh(p, sort): return z3.Const(fresh_name(p), sort)

def string_axioms():
    s, t = z3.Consts("s t", StrS); a = z3.Const("a", A8); o, n, i = z3.Consts("o n i", I64); c = z3.Const("c", z3.BitVecSort(8))
    Q = z3.ForAll; ult = z3.ULT
    return [
        Q([s], z3.ULT(slen(s), bv(MAXLEN)), patterns=[slen(s)]),
        Q([a, o, n], z3.Implies(ult(n, bv(MAXLEN)), slen(smk(a, o, n)) == n), patterns=[smk(a, o, n)]),
        Q([a, o, n, i], z3.Implies(z3.And(ult(i, n), ult(n, bv(MAXLEN))), sat(smk(a, o, n), i) == z3.Select(a, o + i)), patterns=[sat(smk(a, o, n), i)]),
        Q([s, o, n], z3.Implies(z3.And(z3.ULE(o, slen(s)), z3.ULE(n, slen(s) - o)), slen(ssub(s, o, n)) == n), patterns=[ssub(s, o, n)]),
        Q([s, o, n, i], z3.Implies(z3.And(z3.ULE(o, slen(s)), z3.ULE(n, slen(s) - o), ult(i, n)), sat(ssub(s, o, n), i) == sat(s, o + i)), patterns=[sat(ssub(s, o, n), i)]),
        Q([s, t], slen(scat(s, t)) == slen(s) + slen(t), patterns=[scat(s, t)]),
        Q([s, t, i], sat(scat(s, t), i) == z3.If(ult(i, slen(s)), sat(s, i), sat(t, i - slen(s))), patterns=[sat(scat(s, t), i)]),
        Q([s, i, c], slen(supd(s, i, c)) == slen(s), patterns=[supd(s, i, c)]),
        Q([s, o, c, i], sat(supd(s, o, c), i) == z3.If(i == o, c, sat(s, i)), patterns=[sat(supd(s, o, c), i)]),
        Q([c], z3.And(slen(schr(c)) == 1, sat(schr(c), bv(0)) == c), patterns=[schr(c)]),
        slen(sempty) == 0,
        Q([s], z3.Implies(slen(s) == 0, s == sempty), patterns=[slen(s)]),
    ]

# ------------------------------------------------------------------ shapes
class Shape:
    """kind, leaf sorts (None = python object leaf)"""
    __slots__ = ("kind", "sorts", "ty", "w", "sg", "fields", "elem", "key", "n", "keys", "pointee", "std", "const_n")
    def __init__(self, kind, sorts, ty=None):
        self.kind = kind; self.sorts = sorts; self.ty = ty; self.w = 0; self.sg = False; self.fields = None; self.elem = None
        self.key = None; self.n = None; self.keys = None; self.pointee = None; self.std = None; self.const_n = None
    def __repr__(self): return "<%s %s>" % (self.kind, self.ty.s if self.ty is not None and hasattr(self.ty, "s") else "")
    def nl(self): return len(self.sorts)

def int_shape(w, sg=False, ty=None):
    s = Shape("int", [z3.BitVecSort(w)], ty); s.w = w; s.sg = sg
    return s
BOOL = Shape("bool", [z3.BoolSort()])
STR = Shape("str", [StrS])
UNIT = Shape("unit", [])
SIZE = int_shape(64, False)
def py_shape(kind, ty=None): return Shape(kind, [None], ty)

def arr_sort(key, s):
    if s is None: raise Unsupported("python value inside symbolic container")
    return z3.ArraySort(key, s)

def vec_shape(elem, ty=None):
    s = Shape("vec", None, ty); s.elem = elem
    s.sorts = [I64] + [z3.ArraySort(I64, x) if x is not None else None for x in elem.sorts]
    return s
def arr_shape(elem, n, ty=None):
    s = Shape("arr", None, ty); s.elem = elem; s.n = n
    s.sorts = [z3.ArraySort(I64, x) if x is not None else None for x in elem.sorts]
    return s
def xarr_shape(elem, n, ty=None):
    """small array kept element by element (needed for python-valued leaves)"""
    s = Shape("xarr", list(elem.sorts) * n, ty); s.elem = elem; s.n = n
    return s
def map_shape(key, val, ty=None):
    if len(key.sorts) != 1 or key.sorts[0] is None: raise Unsupported("map key shape")
    s = Shape("map", None, ty); s.key = key; s.elem = val
    k = key.sorts[0]
    s.sorts = [I64, z3.ArraySort(k, z3.BoolSort())] + [z3.ArraySort(k, x) if x is not None else None for x in val.sorts]
    return s
def set_shape(key, ty=None):
    s = map_shape(key, UNIT, ty); s.kind = "set"
    return s
def opt_shape(inner, ty=None):
    s = Shape("opt", [z3.BoolSort()] + list(inner.sorts), ty); s.elem = inner
    return s
def rec_shape(fields, ty=None, keys=None):
    s = Shape("rec", [], ty); s.fields = {}; off = 0
    for name, sh in fields:
        s.fields[name] = (off, sh); off += sh.nl(); s.sorts = s.sorts + list(sh.sorts)
    s.keys = keys
    return s

ORDERED = {"std::map", "std::set"}
SEQ = {"std::vector", "std::list", "std::deque", "std::forward_list", "std::initializer_list"}
MAPS = {"std::map", "std::unordered_map"}
SETS = {"std::set", "std::unordered_set"}
PTRS = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__weak_ptr", "std::__shared_ptr_access"}
ITERS = {"__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
         "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator_base", "std::reverse_iterator", "std::_Deque_iterator",
         "std::back_insert_iterator", "std::_Fwd_list_iterator", "std::istreambuf_iterator"}
class Ratio: pass

_shape_hook = []
def shape_of(ty):
    if ty is None: return UNIT
    if ty._shape is not None:
        if ty._shape == "rec": raise Unsupported("recursive by-value type " + ty.s)
        return ty._shape
    ty._shape = "rec"
    try:
        sh = _shape_of(ty)
    except Exception:
        ty._shape = None
        raise
    ty._shape = sh
    if sh.ty is None and sh not in (BOOL, STR, UNIT): sh.ty = ty
    return sh

def is_scalar_pointee(t):
    return t.k in ("int", "bool", "enum", "float", "void")

def _shape_of(ty):
    k = ty.k
    if k == "int": return int_shape(ty.w, ty.sg, ty)
    if k == "enum": return int_shape(ty.w, ty.sg, ty)
    if k == "bool": return BOOL
    if k == "float": s = Shape("float", [OpqS], ty); return s
    if k in ("void", "nullptr"):
        if k == "nullptr": s = Shape("ref", [RefS], ty); return s
        return UNIT
    if k == "ptr" or k == "ref":
        t = ty.to
        if t.k == "fn": return py_shape("fnptr", ty)
        if k == "ptr" and is_scalar_pointee(t):
            s = Shape("parr", [RefS, I64], ty); s.pointee = t; return s
        s = Shape("ref", [RefS], ty); s.pointee = t; return s
    if k == "arr":
        if ty.n is None or ty.n < 0: return vec_shape(shape_of(ty.to), ty)
        e = shape_of(ty.to)
        if any(x is None for x in e.sorts) or (ty.to.k == "ptr" and ty.n <= 8): return xarr_shape(e, ty.n, ty)
        return arr_shape(e, ty.n, ty)
    if k == "vec":
        s = Shape("simd", [z3.BitVecSort(128)], ty); return s
    if k == "fn" or k == "memptr": return py_shape("fnptr", ty)
    if k == "rec":
        qt = ty.qt
        if qt in ("std::basic_string", "std::basic_string_view"): return STR
        if qt in SEQ: return vec_shape(shape_of(ty.args[0]), ty)
        if qt == "std::multimap": return vec_shape(rec_shape([("first", shape_of(ty.args[0])), ("second", shape_of(ty.args[1]))]), ty)   # its entries in iteration order
        if qt == "std::array":
            e = shape_of(ty.args[0]); n = ty.args[1]
            if any(x is None for x in e.sorts) or (ty.args[0].k == "ptr" and n <= 8): return xarr_shape(e, n, ty)
            return arr_shape(e, n, ty)
        if qt in MAPS: s = map_shape(shape_of(ty.args[0]), shape_of(ty.args[1]), ty); s.std = qt; return s
        if qt in SETS: s = set_shape(shape_of(ty.args[0]), ty); s.std = qt; return s
        if qt == "std::optional": return opt_shape(shape_of(ty.args[0]), ty)
        if qt == "std::pair": return rec_shape([("first", shape_of(ty.args[0])), ("second", shape_of(ty.args[1]))], ty)
        if qt == "std::tuple":
            p = ty.args[0] if ty.args and isinstance(ty.args[0], list) else ty.args
            return rec_shape([("_%d" % i, shape_of(a)) for i, a in enumerate(p)], ty)
        if qt == "std::variant":
            p = ty.args[0] if isinstance(ty.args[0], list) else ty.args
            return rec_shape([("_idx", int_shape(32))] + [("_%d" % i, shape_of(a)) for i, a in enumerate(p)], ty)
        if qt in PTRS:
            t = ty.args[0]
            if t.k == "arr" and is_scalar_pointee(t.to): s = Shape("parr", [RefS, I64], ty); s.pointee = t.to; return s
            s = Shape("ref", [RefS], ty); s.pointee = t; s.std = qt; return s
        if qt in ("std::chrono::duration", "std::chrono::time_point"): return int_shape(64, True, ty)
        if qt in ("std::atomic", "std::__atomic_base"): return shape_of(ty.args[0])
        if qt in ITERS: return py_shape("iter", ty)
        if qt == "std::function": return py_shape("func", ty)
        if qt in ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering"): return int_shape(8, True, ty)
        if ty.lam is not None: return py_shape("lambda", ty)
        if ty.rec is not None:
            r = ty.rec
            for h in _shape_hook:
                s = h(ty)
                if s is not None: return s
            fields = []; keys = []
            for b in r.bases:
                try: bs = shape_of(b)
                except Unsupported: bs = UNIT
                fields.append(("@" + b.s, bs)); 
                if bs.kind == "rec" and bs.keys is not None: keys += bs.keys
                else: keys += ["%s.@%s#%d" % (ty.s, b.s, j) for j in range(bs.nl())]
            rf = r.fields
            if r.union and rf: rf = [r.fields[-1]]    # one member represents the union; using another one is not supported (KeyError)
            for f in rf:
                try: fs = shape_of(f["t"])
                except Unsupported: fs = UNIT
                fields.append((f["n"], fs)); keys += ["%s.%s#%d" % (ty.s, f["n"], j) for j in range(fs.nl())]
            return rec_shape(fields, ty, keys)
        return UNIT
    return UNIT

# ------------------------------------------------------------------ values
class Val:
    __slots__ = ("sh", "lv")
    def __init__(self, sh, lv):
        self.sh = sh; self.lv = lv
    def __repr__(self): return "Val(%s,%s)" % (self.sh, self.lv)
    @property
    def t(self):
        if len(self.lv) != 1: raise Unsupported("scalar expected, got %r" % self.sh)
        return self.lv[0]

def sub(v, off, sh): return Val(sh, v.lv[off:off + sh.nl()])
def field(v, name):
    off, sh = v.sh.fields[name]
    return sub(v, off, sh)
def fresh_val(sh, p):
    lv = []
    for i, s in enumerate(sh.sorts):
        if s is None: lv.append(PyOpaque(p))
        else: lv.append(fresh("%s.%d" % (p, i) if sh.nl() > 1 else p, s))
    return Val(sh, lv)

class PyOpaque:
    def __init__(self, n): self.n = n

def zero_of(s):
    if s is None: return None
    if s == z3.BoolSort(): return z3.BoolVal(False)
    if z3.is_bv_sort(s) if hasattr(z3, "is_bv_sort") else isinstance(s, z3.BitVecSortRef): return z3.BitVecVal(0, s.size())
    if s == StrS: return sempty
    if s == RefS: return null
    if isinstance(s, z3.ArraySortRef): return z3.K(s.domain(), zero_of(s.range()))
    return z3.Const("zero!" + str(s), s)
def zero_val(sh): return Val(sh, [zero_of(s) for s in sh.sorts])

class Loc:
    """root: ('L',key) | ('H',ref) | ('B',ref) | ('M',ref,w) | ('G',name) ; path of ops"""
    __slots__ = ("root", "path", "sh", "rsh")
    def __init__(self, root, path, sh, rsh):
        self.root = root; self.path = path; self.sh = sh; self.rsh = rsh
    def ext(self, op, sh): return Loc(self.root, self.path + (op,), sh, self.rsh)
    def __repr__(self): return "Loc(%s,%s)" % (self.root, self.path)
    def fld(self, name):
        if self.sh.kind != "rec": raise Unsupported("field %s of %r" % (name, self.sh))
        if name not in self.sh.fields:
            # search bases
            for n, (off, s) in self.sh.fields.items():
                if n.startswith("@") and s.kind == "rec":
                    try: return self.ext(("s", off, s), s).fld(name)
                    except KeyError: pass
            raise KeyError(name)
        off, s = self.sh.fields[name]
        return self.ext(("s", off, s), s)
def loc_eq(a, b):
    if a is b: return True
    if not isinstance(a, Loc) or not isinstance(b, Loc): return False
    if len(a.path) != len(b.path) or a.root[0] != b.root[0] or a.sh is not b.sh: return False
    def teq(x, y):
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef): return x.eq(y)
        return x is y or (not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y)
    if not all(teq(x, y) for x, y in zip(a.root, b.root)): return False
    return all(len(x) == len(y) and all(teq(p, q) for p, q in zip(x, y)) for x, y in zip(a.path, b.path))

class Iter:
    """iterator: container location, index (sequences / enumeration order) or key (assoc)"""
    __slots__ = ("loc", "idx", "key", "end", "rev")
    def __init__(self, loc, idx=None, key=None, end=None, rev=False):
        self.loc = loc; self.idx = idx; self.key = key; self.end = end; self.rev = rev

class Closure:
    __slots__ = ("node", "frame", "vals", "fn")
    def __init__(self, node, frame, vals): self.node = node; self.frame = frame; self.vals = vals; self.fn = None

# projection / update through a path op
def project(v, op):
    k = op[0]
    if k == "s": return sub(v, op[1], op[2])
    sh = v.sh
    if k == "i":
        i = op[1]
        if sh.kind == "str": return Val(CHAR, [sat(v.lv[0], i)])
        if sh.kind == "vec": return Val(sh.elem, [sel(a, i) for a in v.lv[1:]])
        if sh.kind == "arr": return Val(sh.elem, [sel(a, i) for a in v.lv])
        if sh.kind == "xarr":
            j = const_int(i); n = sh.elem.nl()
            return Val(sh.elem, v.lv[j * n:(j + 1) * n])
        if sh.kind == "rec": raise Unsupported("index into rec")
        return v  # scalar object seen as array of one
    if k == "k": return Val(sh.elem, [sel(a, op[1]) for a in v.lv[2:]])
    if k == "o": return Val(sh.elem, v.lv[1:])
    if k == "by":  # byte view of a pod record
        raise Unsupported("byte view")
    raise Unsupported("project " + k)
def sto(a, i, x): return z3.Store(a, i, x) if isinstance(a, z3.ExprRef) else a    # leaves without a term stay unknown
def sel(a, i):
    if isinstance(a, PyOpaque): return a
    if a is None or not isinstance(a, z3.ExprRef): raise Unsupported("select on python leaf")
    # cheap read-over-write
    d = 0
    while z3.is_app_of(a, z3.Z3_OP_STORE) and d < 50:
        j = a.arg(1)
        if j.eq(i): return a.arg(2)
        if z3.is_bv_value(j) and z3.is_bv_value(i): a = a.arg(0); d += 1; continue
        break
    if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY): return a.arg(0)
    return z3.Select(a, i)
def const_int(i):
    i = z3.simplify(i)
    if not z3.is_bv_value(i): raise Unsupported("non-constant index into small array")
    return i.as_long()
CHAR = int_shape(8, True)
def update(v, op, nv):
    k = op[0]; sh = v.sh
    if k == "s":
        off = op[1]; n = op[2].nl()
        return Val(sh, v.lv[:off] + list(nv.lv) + v.lv[off + n:])
    if k == "i":
        i = op[1]
        if sh.kind == "str": return Val(sh, [supd(v.lv[0], i, nv.t)])
        if sh.kind == "vec": return Val(sh, [v.lv[0]] + [sto(a, i, x) for a, x in zip(v.lv[1:], nv.lv)])
        if sh.kind == "arr": return Val(sh, [z3.Store(a, i, x) for a, x in zip(v.lv, nv.lv)])
        if sh.kind == "xarr":
            j = const_int(i); n = sh.elem.nl()
            return Val(sh, v.lv[:j * n] + list(nv.lv) + v.lv[(j + 1) * n:])
        if sh.kind == "rec": raise Unsupported("index into rec")
        return nv
    if k == "k": return Val(sh, v.lv[:2] + [sto(a, op[1], x) for a, x in zip(v.lv[2:], nv.lv)])
    if k == "o": return Val(sh, [v.lv[0]] + list(nv.lv))
    raise Unsupported("update " + k)

# ------------------------------------------------------------------ state
class State:
    __slots__ = ("pc", "L", "H", "G", "gh", "gen", "epoch", "tags")
    def __init__(self):
        self.pc = []; self.L = {}; self.H = {}; self.G = {}; self.gh = {}; self.gen = 0; self.epoch = "0"; self.tags = ()
    def clone(self):
        s = State(); s.pc = list(self.pc); s.L = dict(self.L); s.H = dict(self.H); s.G = dict(self.G); s.gh = dict(self.gh)
        s.gen = self.gen; s.epoch = self.epoch; s.tags = self.tags
        return s
    def assume(self, f):
        if z3.is_true(f): return
        self.pc.append(f)
    def hmap(self, key, sort):
        m = self.H.get(key)
        if m is None:
            m = z3.Const("H%s!%s" % (self.epoch, key), z3.ArraySort(RefS, sort)); self.H[key] = m
        return m

EPOCHGEN = {}
BASEGEN = {}   # name of base symbol -> gen at creation (default 0)
def bases_of(a, depth=0):
    """constants below a chain of store/ite/select"""
    out = []
    seen = set(); st = [(a, lambda x: x)]
    while st and len(out) < 24:
        t, f = st.pop()
        if z3.is_app_of(t, z3.Z3_OP_STORE): st.append((t.arg(0), f))
        elif z3.is_app_of(t, z3.Z3_OP_ITE): st.append((t.arg(1), f)); st.append((t.arg(2), f))
        elif z3.is_app_of(t, z3.Z3_OP_SELECT):
            i = t.arg(1)
            st.append((t.arg(0), (lambda x, f=f, i=i: f(z3.Select(x, i)))))
        elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append((f(t), BASEGEN.get(t.decl().name(), 0)))
    return out

def load_root(st, loc):
    r = loc.root; k = r[0]
    if k == "L":
        if r[1] not in st.L: raise Unsupported("unset local %s" % (r[1],))
        return st.L[r[1]]
    if k == "G":
        v = st.G.get(r[1])
        if v is None:
            lv = [z3.Const("G!%s#%d" % (r[1], i), s) if s is not None else PyOpaque(r[1]) for i, s in enumerate(loc.rsh.sorts)]
            v = Val(loc.rsh, lv); st.G[r[1]] = v
            for t, s in zip(lv, loc.rsh.sorts):
                if s == RefS: st.assume(age(t) <= 0)
        return v
    raise Unsupported("load_root")

def root_keys(loc):
    if loc.root[0] == "H":
        if loc.rsh.keys is None: raise Unsupported("no heap layout for %r" % loc.rsh)
        return loc.rsh.keys
    if loc.root[0] == "B": return ["box:%s#%d" % (loc.rsh.ty.s if loc.rsh.ty is not None else loc.rsh.kind, j) for j in range(loc.rsh.nl())]
    raise Unsupported("root_keys")

def mem_key(w): return "mem:%d" % w
def load(st, loc):
    k = loc.root[0]
    if k in ("H", "B"):
        ref = loc.root[1]; keys = root_keys(loc)
        path = loc.path
        # narrow to slice first
        off = 0; sh = loc.rsh; i = 0
        while i < len(path) and path[i][0] in ("s", "o"):
            if path[i][0] == "s": off += path[i][1]; sh = path[i][2]
            else: off += 1; sh = sh.elem
            i += 1
        lv = []
        for j in range(off, off + sh.nl()):
            if loc.rsh.sorts[j] is None: lv.append(st.gh.get(("py", keys[j], str(ref)), PyOpaque(keys[j]))); continue
            lv.append(sel(st.hmap(keys[j], loc.rsh.sorts[j]), ref))
        v = Val(sh, lv)
        for op in path[i:]: v = project(v, op)
        add_ref_facts(st, v)
        return v
    if k == "M":
        w = loc.root[2]
        m = st.hmap(mem_key(w), z3.ArraySort(I64, z3.BitVecSort(w)))
        a = sel(m, loc.root[1])
        v = Val(loc.rsh, [a])
        for op in loc.path: v = project(v, op)
        if loc.path and v.sh is not loc.sh and v.lv and len(v.lv) == 1: v = Val(loc.sh, v.lv)
        return v
    v = load_root(st, loc)
    if isinstance(v, Loc): raise Unsupported("load of reference binding")
    for op in loc.path: v = project(v, op)
    if loc.path: add_ref_facts(st, v)
    return v

def add_ref_facts(st, v):
    for t, s in zip(v.lv, v.sh.sorts):
        if s is not None and s == RefS and isinstance(t, z3.ExprRef) and not z3.is_const(t):
            key = ("rf", t.get_id())
            if key in st.gh and st.gh[key].eq(t): continue
            st.gh[key] = t
            for b, g in bases_of(t): st.pc.append(age(b) <= g)
        elif s is not None and s == StrS: pass
    if v.sh.kind in ("vec", "map", "set") and isinstance(v.lv[0], z3.ExprRef) and not z3.is_bv_value(v.lv[0]):
        t = v.lv[0]; key = ("vl", t.get_id())
        if not (key in st.gh and st.gh[key].eq(t)):
            st.gh[key] = t
            st.pc.append(z3.ULT(t, bv(MAXLEN)))

def store(st, loc, nv):
    k = loc.root[0]
    if k in ("H", "B"):
        ref = loc.root[1]; keys = root_keys(loc); path = loc.path
        off = 0; sh = loc.rsh; i = 0
        while i < len(path) and path[i][0] in ("s", "o"):
            if path[i][0] == "s": off += path[i][1]; sh = path[i][2]
            else: off += 1; sh = sh.elem
            i += 1
        if i < len(path):
            base = Loc(loc.root, path[:i], sh, loc.rsh)
            nv = rebuild(load(st, base), path[i:], nv)
        for j, t in enumerate(nv.lv):
            key = keys[off + j]; s = loc.rsh.sorts[off + j]
            if s is None: st.gh[("py", key, str(ref))] = t; continue
            if not isinstance(t, z3.ExprRef): raise Unsupported("storing python pointer in heap field %s" % key)
            st.H[key] = z3.Store(st.hmap(key, s), ref, t)
        return
    if k == "M":
        w = loc.root[2]; key = mem_key(w)
        m = st.hmap(key, z3.ArraySort(I64, z3.BitVecSort(w)))
        a = Val(loc.rsh, [sel(m, loc.root[1])])
        a = rebuild(a, loc.path, nv)
        st.H[key] = z3.Store(m, loc.root[1], a.lv[0])
        return
    if not loc.path:
        if loc.root[0] == "L": st.L[loc.root[1]] = nv
        else: st.G[loc.root[1]] = nv
        return
    nv2 = rebuild(load_root(st, loc), loc.path, nv)
    if loc.root[0] == "L": st.L[loc.root[1]] = nv2
    else: st.G[loc.root[1]] = nv2

def rebuild(v, path, nv):
    if not path: return nv
    if len(path) == 1: return update(v, path[0], nv)
    inner = rebuild(project(v, path[0]), path[1:], nv)
    return update(v, path[0], inner)

def mem_shape(w):
    s = Shape("arr", [z3.ArraySort(I64, z3.BitVecSort(w))]); s.elem = int_shape(w); s.n = None
    return s
_memsh = {w: mem_shape(w) for w in (1, 8, 16, 32, 64)}
def mem_loc(ref, w, idx, sh=None): return Loc(("M", ref, w), (("i", idx),), sh or _memsh[w].elem, _memsh[w])

