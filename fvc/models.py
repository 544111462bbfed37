"""Contracts (models) of the C++ standard library and of external functions the code calls.
Every entry here is an assumption about a dependency; the ones actually used by a check are listed in its evidence."""
import z3
from .vals import *
from . import vals as V
from .engine import *
REG = {}
def reg(*names):
    def d(f):
        for n in names: REG[n] = f
        return f
    return d

# ------------------------------------------------------------------ strings
S = "std::basic_string::"
def s_of(c, x):
    """string term of an argument: string, string_view, const char*, char"""
    E = c.E; v = E.rv(x)
    return to_str(E, v)
def to_str(E, v):
    if v.sh.kind == "str": return v.t
    if v.sh.kind == "parr": return cstr(E, v)
    if v.sh.kind == "int" and v.sh.w == 8: return schr(v.t)
    raise Unsupported("string from %r" % v.sh)
cstr_f = z3.Function("cstr", A8, I64, StrS)
def cstr(E, v):
    """NUL-terminated string at pointer"""
    b, o = v.lv
    if isinstance(b, Choice): return If(b.c, cstr(E, Val(v.sh, [b.a, o])), cstr(E, Val(v.sh, [b.b, o])))
    if isinstance(b, Loc):
        if b.sh.kind == "str":
            t = E.load(b).t
            bs = lit_bytes(t)
            if z3.is_bv_value(o) and o.as_long() == 0:
                if bs is not None: return str_lit(bs.split(b"\0")[0])
                return t   # assumption: no embedded NUL matters to the callee
            return ssub(t, o, slen(t) - o)
        if b.sh.kind in ("arr", "vec"):
            a = E.load(b).lv[-1]; return cstr_f(a, o)
    if isinstance(b, z3.ExprRef):
        m = E.st.hmap(mem_key(8), z3.ArraySort(I64, z3.BitVecSort(8)))
        return cstr_f(sel(m, b), o)
    raise Unsupported("C string")
def mkstr_mem(E, v, n):
    """string of n bytes at pointer v"""
    b, o = v.lv
    if isinstance(b, Choice): return If(b.c, mkstr_mem(E, Val(v.sh, [b.a, o]), n), mkstr_mem(E, Val(v.sh, [b.b, o]), n))
    if isinstance(b, Loc):
        if b.sh.kind == "str":
            t = E.load(b).t
            E.bounds_range(b, o, n)
            if z3.is_bv_value(o) and o.as_long() == 0 and n.eq(slen(t)): return t
            return ssub(t, o, n)
        E.bounds_range(b, o, n)
        return smk(E.load(b).lv[-1], o, n)
    if isnull(b): return sempty
    if isinstance(b, z3.ExprRef):
        m = E.st.hmap(mem_key(8), z3.ArraySort(I64, z3.BitVecSort(8)))
        E.mem_range(b, o, n)
        return smk(sel(m, b), o, n)
    raise Unsupported("string from memory")
def _bounds_range(E, loc, o, n):
    if not E.check_bounds: return
    v = E.load(loc)
    cap = slen(v.t) if loc.sh.kind == "str" else v.lv[0] if loc.sh.kind == "vec" else bv(loc.sh.n) if loc.sh.kind in ("arr", "xarr") else bv(loc.sh.w // 8 if loc.sh.kind == "int" else 1 << 62)
    E.prove("memory range in bounds", z3.And(z3.ULE(o, cap), z3.ULE(n, cap - o)), "bounds")
def _mem_range(E, b, o, n):
    if not E.check_bounds: return
    sz = z3.Select(E.st.hmap("msize", I64), b)
    E.prove("memory range in bounds", z3.And(z3.ULE(o, sz), z3.ULE(n, sz - o)), "bounds")
Engine.bounds_range = _bounds_range
Engine.mem_range = _mem_range

@reg(S + "ctor")
def _(c):
    E = c.E; ps = c.f["ps"]; a = c.args
    a = [x for x, p in zip(a, ps) if "allocator" not in p.s]
    ps = [p for p in ps if "allocator" not in p.s]
    if not a: return E.strv(sempty)
    if len(a) == 1:
        if ps[0].k == "rec" and ps[0].qt == "std::initializer_list":
            v = E.rv(a[0]); return E.strv(smk(v.lv[1], bv(0), v.lv[0]))
        v = E.rv(a[0])
        r = to_str(E, v)
        if ps[0].k == "ref" and ps[0].rv: E.moved(a[0])
        return E.strv(r)
    v0 = E.rv(a[0]); v1 = E.rv(a[1])
    if v0.sh.kind == "parr" and v1.sh.kind == "int": return E.strv(mkstr_mem(E, v0, resize(v1.t, 64, v1.sh.sg)))
    if v0.sh.kind == "parr" and v1.sh.kind == "parr":
        return E.strv(mkstr_mem(E, v0, v1.lv[1] - v0.lv[1]))
    if v0.sh.kind == "int" and v1.sh.kind == "int":
        n = resize(v0.t, 64, v0.sh.sg)
        return E.strv(smk(z3.K(I64, v1.t), bv(0), n))
    if v0.sh.kind == "iter": return E.strv(range_str(E, v0.lv[0], v1.lv[0]))
    if v0.sh.kind == "str" and v1.sh.kind == "int":
        n = resize(v1.t, 64, False)
        return E.strv(ssub(v0.t, n, slen(v0.t) - n if len(a) < 3 else resize(E.rv(a[2]).t, 64, False)))
    raise Unsupported("string constructor")
def range_str(E, i, j):
    if isinstance(i, SIter) and isinstance(j, SIter):
        v = E.load(i.loc); n = j.idx - i.idx
        E.bounds_range(i.loc, i.idx, n) if isinstance(i.loc, Loc) else None
        if v.sh.kind == "str": return ssub(v.t, i.idx, n)
        return smk(v.lv[-1], i.idx, n)
    raise Unsupported("string from iterators")
@reg(S + "size", S + "length")
def _(c): return c.E.size(slen(c.E.load(c.this).t))
@reg(S + "empty")
def _(c):
    t = c.E.load(c.this).t
    lb = lit_bytes(t)
    if lb is not None: return c.E.boolv(z3.BoolVal(len(lb) == 0))
    r = Eq(t, sempty); c.E.st.pc.append(r == (slen(t) == 0)); return c.E.boolv(r)
@reg(S + "operator[]")
def _(c):
    E = c.E; i = c.v(0); it = resize(i.t, 64, i.sh.sg)
    for_each(c.this, lambda l: E.bounds(l, it))
    if z3.is_bv_value(it) and isinstance(c.this, Loc):      # the terminating zero may be read
        t = E.load(c.this).t
        if isinstance(t, z3.ExprRef) and lit_bytes(t) is None: E.assume(z3.Implies(slen(t) == it, sat(t, it) == 0))
    return lmap(c.this, lambda l: l.ext(("i", it), CHAR))
def for_each(x, f):
    if isinstance(x, Choice):
        for_each(x.a, f); for_each(x.b, f)
    elif isinstance(x, Loc): f(x)
@reg(S + "at")
def _(c):
    E = c.E; i = c.v(0); it = resize(i.t, 64, i.sh.sg)
    n = slen(E.load(c.this).t)
    E.maybe_throw(Not(z3.ULT(it, n)), "std::out_of_range")
    return lmap(c.this, lambda l: l.ext(("i", it), CHAR))
@reg(S + "front")
def _(c): return lmap(c.this, lambda l: l.ext(("i", bv(0)), CHAR))
@reg(S + "back")
def _(c):
    n = slen(c.E.load(c.this).t) - 1
    return lmap(c.this, lambda l: l.ext(("i", n), CHAR))
@reg(S + "c_str", S + "data")
def _(c):
    sh = shape_of(c.ret)
    return Val(sh, [c.this, bv(0)])
@reg(S + "begin", S + "cbegin")
def _(c): return Val(shape_of(c.ret), [SIter(c.this, bv(0))] if c.ret.k == "rec" else [c.this, bv(0)])
@reg(S + "end", S + "cend")
def _(c):
    n = slen(c.E.load(c.this).t)
    return Val(shape_of(c.ret), [SIter(c.this, n)] if c.ret.k == "rec" else [c.this, n])
@reg(S + "operator=", S + "assign")
def _(c):
    E = c.E
    if c.n == 1:
        t = s_of(c, c.args[0]); E.store(c.this, E.strv(t))
        if c.f["ps"][0].k == "ref" and c.f["ps"][0].rv: E.moved(c.args[0])
    elif c.n == 2 and c.v(0).sh.kind == "parr" and c.v(1).sh.kind == "int": E.store(c.this, E.strv(mkstr_mem(E, c.v(0), resize(c.t(1), 64, False))))
    elif c.v(0).sh.kind == "iter": E.store(c.this, E.strv(range_str(E, c.v(0).lv[0], c.v(1).lv[0])))
    else: raise Unsupported("string assign")
    return c.this
def cat(a, b):
    if lit_bytes(a) == b"": return b
    if lit_bytes(b) == b"": return a
    if lit_bytes(a) is not None and lit_bytes(b) is not None: return str_lit(lit_bytes(a) + lit_bytes(b))
    return scat(a, b)
@reg(S + "operator+=", S + "append", S + "push_back")
def _(c):
    E = c.E; t = E.load(c.this).t
    if c.n == 1: u = s_of(c, c.args[0])
    elif c.v(0).sh.kind == "parr" and c.v(1).sh.kind == "int": u = mkstr_mem(E, c.v(0), resize(c.t(1), 64, False))
    elif c.v(0).sh.kind == "iter": u = range_str(E, c.v(0).lv[0], c.v(1).lv[0])
    elif c.v(0).sh.kind == "str": u = ssub(c.t(0), resize(c.t(1), 64, False), resize(c.t(2), 64, False))
    else: raise Unsupported("append")
    E.store(c.this, E.strv(cat(t, u))); return c.this
@reg("std::operator+")
def _(c): return c.E.strv(cat(s_of(c, c.args[0]), s_of(c, c.args[1])))
@reg("std::operator==")
def _(c):
    E = c.E; a, b = c.v(0), c.v(1)
    return E.boolv(val_eq(E, a, b))
@reg("std::operator!=")
def _(c):
    E = c.E; return E.boolv(Not(val_eq(E, c.v(0), c.v(1))))
def val_eq(E, a, b):
    if a.sh.kind == "str" or b.sh.kind == "str": return E.str_eq(to_str(E, a), to_str(E, b))
    if b.sh.kind == "opt" and a.sh.kind != "opt": return val_eq(E, b, a)
    if a.sh.kind == "ref" or b.sh.kind == "ref": return E.ptr_eq(a.lv[0], b.lv[0])
    if a.sh.kind == "iter" and b.sh.kind == "iter": return iter_eq(E, a.lv[0], b.lv[0])
    if a.sh.kind == "parr": return And(E.ptr_eq(a.lv[0], b.lv[0]), Eq(a.lv[1], b.lv[1]))
    if a.sh.kind == "int" and b.sh.kind == "int": return Eq(a.t, b.t)
    if a.sh.kind == "bool": return Eq(a.t, b.t)
    if a.sh.kind == "vec": return vec_eq(E, a, b)
    if a.sh.kind == "opt":
        if b.sh.kind == "opt": return And(Eq(a.lv[0], b.lv[0]), Or(Not(a.lv[0]), val_eq(E, Val(a.sh.elem, a.lv[1:]), Val(b.sh.elem, b.lv[1:]))))
        return And(a.lv[0], val_eq(E, Val(a.sh.elem, a.lv[1:]), b))
    if a.sh.kind == "unit" and b.sh.kind == "unit": return z3.Bool(fresh_name("ueq"))
    if a.sh.kind == "arr":
        return And(*[val_eq(E, Val(a.sh.elem, [sel(x, bv(i)) for x in a.lv]), Val(b.sh.elem, [sel(x, bv(i)) for x in b.lv])) for i in range(a.sh.n)])
    if a.sh.kind == "func": return E.ptr_eq(a.lv[0], null)
    raise Unsupported("== on %r %r" % (a.sh, b.sh))
def vec_eq(E, a, b):
    if z3.is_bv_value(b.lv[0]): n = b.lv[0].as_long()
    elif z3.is_bv_value(a.lv[0]): n = a.lv[0].as_long(); a, b = b, a
    else:
        j = z3.Const(fresh_name("j"), I64)
        return And(a.lv[0] == b.lv[0], z3.ForAll([j], z3.Implies(z3.ULT(j, a.lv[0]), And(*[z3.Select(x, j) == z3.Select(y, j) for x, y in zip(a.lv[1:], b.lv[1:])]))))
    return And(Eq(a.lv[0], b.lv[0]), *[val_eq(E, Val(a.sh.elem, [sel(x, bv(i)) for x in a.lv[1:]]), Val(b.sh.elem, [sel(x, bv(i)) for x in b.lv[1:]])) for i in range(n)])
slt = z3.Function("slt", StrS, StrS, z3.BoolSort())
@reg("std::operator<", "std::operator>", "std::operator<=", "std::operator>=")
def _(c):
    E = c.E; a, b = c.v(0), c.v(1); op = c.f["n"][8:]
    if a.sh.kind == "str":
        r = {"<": slt(a.t, b.t), ">": slt(b.t, a.t), "<=": Not(slt(b.t, a.t)), ">=": Not(slt(a.t, b.t))}[op]
        return E.boolv(r)
    if a.sh.kind == "int" and b.sh.kind == "int" and a.sh.w == b.sh.w:   # comparison category against 0
        return E.boolv({"<": a.t < b.t, ">": a.t > b.t, "<=": a.t <= b.t, ">=": a.t >= b.t}[op])
    if a.sh.kind == "int" and "__unspec" in str(c.f["ps"][1].s):
        z = bv(0, a.sh.w); return E.boolv({"<": a.t < z, ">": a.t > z, "<=": a.t <= z, ">=": a.t >= z}[op])
    if a.sh.kind == "parr": return E.parr_op(op, a, b)
    raise Unsupported("std::operator" + op)
@reg(S + "compare")
def _(c):
    E = c.E; a = E.load(c.this).t; b = s_of(c, c.args[0]); r = fresh("cmp", z3.BitVecSort(32))
    E.assume((r == 0) == E.str_eq(a, b)); return Val(int_shape(32, True), [r])
@reg(S + "substr")
def _(c):
    E = c.E; t = E.load(c.this).t; o = resize(c.t(0), 64, False); n = resize(c.t(1), 64, False) if c.n > 1 else bv(-1)
    E.maybe_throw(z3.UGT(o, slen(t)), "std::out_of_range")
    rest = slen(t) - o
    m = rest if (lit(n) and n.as_long() == (1 << 64) - 1) else If(z3.ULT(n, rest), n, rest)
    if lit(o) and o.as_long() == 0 and m.eq(rest): return E.strv(t)
    return E.strv(ssub(t, o, m))
NPOS = bv((1 << 64) - 1)
@reg(S + "find")
def _(c):
    E = c.E; t = E.load(c.this).t; v = c.v(0); start = resize(c.t(1), 64, False) if c.n > 1 else bv(0)
    r = fresh("find", I64); j = z3.Const(fresh_name("j"), I64); n = slen(t)
    ch = None
    if v.sh.kind == "int": ch = v.t
    else:
        u = to_str(E, v); lb = lit_bytes(u)
        if lb is not None and len(lb) == 1: ch = bv(lb[0], 8)
    if ch is not None:
        E.assume(z3.Or(z3.And(r == NPOS, z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, start), z3.ULT(j, n)), sat(t, j) != ch), patterns=[sat(t, j)])),
                       z3.And(z3.UGE(r, start), z3.ULT(r, n), sat(t, r) == ch, z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, start), z3.ULT(j, r)), sat(t, j) != ch), patterns=[sat(t, j)]))))
    else:
        m = slen(u)
        E.assume(z3.Or(r == NPOS, z3.And(z3.UGE(r, start), z3.ULE(r, n), z3.ULE(m, n - r))))
        if lit_bytes(u) is not None:
            mt = lambda k: z3.And(z3.ULE(m, n - k), z3.ULE(k, n), *[sat(t, k + i) == bv(b, 8) for i, b in enumerate(lit_bytes(u))])
            E.assume(z3.Implies(r != NPOS, mt(r)))
            E.assume(z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, start), z3.ULT(j, n), z3.Or(r == NPOS, z3.ULT(j, r))), z3.Not(mt(j))), patterns=[sat(t, j)]))
        else:
            E.assume(z3.Implies(r != NPOS, ssub(t, r, m) == u))
    return E.size(r)
@reg(S + "find_first_of", S + "find_last_of", S + "rfind", S + "find_first_not_of", S + "find_last_not_of")
def _(c):
    E = c.E; t = E.load(c.this).t; r = fresh("find", I64)
    E.assume(z3.Or(r == NPOS, z3.ULT(r, slen(t)), z3.And(r == 0, slen(t) == 0)))
    v = c.v(0)
    chs = None
    if v.sh.kind == "int": chs = [v.t]
    else:
        lb = lit_bytes(to_str(E, v))
        if lb is not None and (len(lb) <= 8 and c.f["n"] != "rfind" or len(lb) == 1): chs = [bv(b, 8) for b in lb]
    if chs is not None and c.n == 1:
        j = z3.Const(fresh_name("j"), I64); n = slen(t)
        isin = lambda k: z3.Or(*[sat(t, k) == x for x in chs])
        if "_not_of" in c.f["n"]: isin_ = isin; isin = lambda k: z3.Not(isin_(k))
        first = c.f["n"] in ("find_first_of", "find_first_not_of")
        E.assume(z3.Implies(r != NPOS, z3.And(z3.ULT(r, n), isin(r))))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(z3.ULT(j, n), z3.Or(r == NPOS, z3.ULT(j, r) if first else z3.UGT(j, r))), z3.Not(isin(j))), patterns=[sat(t, j)]))
    return E.size(r)
@reg(S + "starts_with", S + "ends_with")
def _(c):
    E = c.E; t = E.load(c.this).t; u = s_of(c, c.args[0]); m = slen(u)
    pre = c.f["n"] == "starts_with"
    lb = lit_bytes(u)
    if lb is not None:
        b = bv(0) if pre else slen(t) - len(lb)
        return E.boolv(z3.And(z3.UGE(slen(t), bv(len(lb))), *[sat(t, b + i if not (pre) else bv(i)) == bv(x, 8) for i, x in enumerate(lb)]))
    return E.boolv(z3.And(z3.ULE(m, slen(t)), ssub(t, bv(0) if pre else slen(t) - m, m) == u))
@reg(S + "clear")
def _(c): c.E.store(c.this, c.E.strv(sempty))
@reg(S + "reserve", S + "shrink_to_fit", "seq::reserve", "map::reserve", "set::reserve", "seq::shrink_to_fit")
def _(c): return None
@reg(S + "resize")
def _(c):
    E = c.E; t = E.load(c.this).t; n = resize(c.t(0), 64, False); a = fresh("rs", A8); u = smk(a, bv(0), n)
    j = z3.Const(fresh_name("j"), I64); fill = c.t(1) if c.n > 1 else bv(0, 8)
    E.assume(z3.ForAll([j], z3.Select(a, j) == z3.If(z3.ULT(j, slen(t)), sat(t, j), fill), patterns=[z3.Select(a, j)]))
    E.store(c.this, E.strv(u))
@reg(S + "erase")
def _(c):
    E = c.E; t = E.load(c.this).t
    if c.n <= 2 and c.v(0).sh.kind == "int":
        o = resize(c.t(0), 64, False); n = resize(c.t(1), 64, False) if c.n > 1 else NPOS
        E.maybe_throw(z3.UGT(o, slen(t)), "std::out_of_range")
        rest = slen(t) - o; m = If(z3.ULT(n, rest), n, rest)
        E.store(c.this, E.strv(cat(ssub(t, bv(0), o), ssub(t, o + m, slen(t) - (o + m))))); return c.this
    raise Unsupported("string erase")
@reg(S + "insert", S + "replace")
def _(c):
    E = c.E; E.store(c.this, E.fresh_val(STR, "ins")); return c.this if c.ret.k == "ref" else E.fresh_val(shape_of(c.ret))
@reg(S + "operator basic_string_view")
def _(c): return c.E.load(c.this)
@reg("std::to_string")
def _(c):
    v = c.v(0); f = z3.Function("to_string_%d%s" % (v.t.size() if v.sh.kind == "int" else 0, "s" if v.sh.sg else "u"), v.t.sort(), StrS)
    return c.E.strv(f(v.t))
@reg("std::stoi", "std::stol", "std::stoul", "std::stoll", "std::stoull")
def _(c):
    E = c.E; b = z3.Bool(fresh_name("badnum"))
    E.maybe_throw(b, "std::invalid_argument"); return E.fresh_val(shape_of(c.ret), "num")
@reg("formatString", "str_tolower", "str_toupper")
def _(c): return c.E.fresh_val(STR, "fmt")

# ------------------------------------------------------------------ sequences
def seq_loc(c): return c.this
def vlen(E, loc): return E.load(loc).lv[0]
@reg("seq::ctor")
def _(c):
    E = c.E; sh = loc_sh(c.this)
    args = [(x, p) for x, p in zip(c.args, c.f["ps"]) if "allocator" not in p.s]
    if not args: return zero_default(sh)
    v = E.rv(args[0][0])
    if len(args) == 1:
        if v.sh.kind == "vec":
            if args[0][1].k == "ref" and args[0][1].rv: E.moved(args[0][0])
            return Val(sh, v.lv)
        if v.sh.kind == "int":
            z = zero_default(sh.elem) if all(s is not None for s in sh.elem.sorts) else None
            z = E.default_of(sh.elem)
            return Val(sh, [resize(v.t, 64, False)] + [z3.K(I64, x) for x in z.lv])
    if len(args) == 2:
        w = E.rv(args[1][0])
        if v.sh.kind == "int" and w.sh.kind == sh.elem.kind and v.sh.kind != "iter": return Val(sh, [resize(v.t, 64, False)] + [z3.K(I64, x) for x in w.lv])
        if v.sh.kind == "iter": return seq_range(E, sh, v.lv[0], w.lv[0])
        if v.sh.kind == "parr": return seq_range_p(E, sh, v, w)
    raise Unsupported("sequence constructor")
def seq_range(E, sh, i, j):
    if isinstance(i, SIter) and isinstance(j, SIter):
        v = E.load(i.loc); n = j.idx - i.idx
        if isinstance(i.loc, Loc): E.bounds_range(i.loc, i.idx, n)
        return Val(sh, [n] + [shift_arr(E, a, i.idx) for a in seq_arrays(E, v)])
    raise Unsupported("range of iterators")
def seq_range_p(E, sh, p, q):
    b, o = p.lv; n = q.lv[1] - o
    a = bytes_at(E, b, o, n); return Val(sh, [n, shift_arr(E, a, o)])
def bytes_at(E, b, o, n):
    if isinstance(b, Loc):
        E.bounds_range(b, o, n); v = E.load(b); return seq_arrays(E, v)[0]
    if isinstance(b, Choice): return If(b.c, bytes_at(E, b.a, o, n), bytes_at(E, b.b, o, n))
    if isinstance(b, z3.ExprRef):
        E.mem_range(b, o, n); return sel(E.st.hmap(mem_key(8), z3.ArraySort(I64, z3.BitVecSort(8))), b)
    raise Unsupported("bytes at %r" % b)
def seq_arrays(E, v):
    if v.sh.kind == "str": return [str_array(E, v.t)]
    if v.sh.kind == "vec": return v.lv[1:]
    if v.sh.kind == "arr": return v.lv
    raise Unsupported("array view of %r" % v.sh)
sarr = z3.Function("sarr", StrS, A8)
def str_array(E, t):
    return sarr(t)
_ax_s = z3.Const("s", StrS); _ax_i = z3.Const("i", I64)
from . import solve as _solve
_solve.EXTRA_AXIOMS.append((("sarr",), [z3.ForAll([_ax_s, _ax_i], z3.Select(sarr(_ax_s), _ax_i) == sat(_ax_s, _ax_i), patterns=[z3.Select(sarr(_ax_s), _ax_i)])]))
def shift_arr(E, a, o):
    """array a viewed from offset o"""
    if lit(o) and o.as_long() == 0: return a
    r = fresh("shf", a.sort()); j = z3.Const(fresh_name("j"), I64)
    E.assume(z3.ForAll([j], z3.Select(r, j) == z3.Select(a, o + j), patterns=[z3.Select(r, j)]))
    return r
def splice(E, dst, d, src, s, n):
    """dst[d..d+n) := src[s..s+n)"""
    if lit(n):
        k = n.as_long()
        if k <= 64:
            vals = [sel(src, fold(s + i, s)) for i in range(k)]
            r = dst
            for i, x in enumerate(vals): r = z3.Store(r, fold(d + i, d), x)
            return r
    r = fresh("spl", dst.sort()); j = z3.Const(fresh_name("j"), I64)
    E.assume(z3.ForAll([j], z3.Select(r, j) == z3.If(z3.ULT(j - d, n), z3.Select(src, s + (j - d)), z3.Select(dst, j)), patterns=[z3.Select(r, j)]))
    return r
@reg("seq::size", "map::size", "set::size")
def _(c): return c.E.size(c.E.load(c.this).lv[0])
@reg("std::array::size")
def _(c): return c.E.size(bv(loc_sh(c.this).n))
@reg("seq::empty", "map::empty", "set::empty")
def _(c):
    n = c.E.load(c.this).lv[0]; return c.E.boolv(Eq(n, bv(0)))
@reg("seq::operator[]", "std::array::operator[]")
def _(c):
    E = c.E; i = c.v(0); it = resize(i.t, 64, i.sh.sg)
    def f(l):
        E.bounds(l, it)
        if l.sh.kind == "str": return l.ext(("i", it), CHAR)
        return l.ext(("i", it), l.sh.elem)
    return lmap(c.this, f)
@reg("seq::at", "std::array::at")
def _(c):
    E = c.E; i = c.v(0); it = resize(i.t, 64, i.sh.sg)
    sh = loc_sh(c.this); n = vlen(E, c.this) if sh.kind == "vec" else bv(sh.n)
    E.maybe_throw(Not(fold(z3.ULT(it, n), it, n)), "std::out_of_range")
    return lmap(c.this, lambda l: l.ext(("i", it), l.sh.elem))
@reg("seq::data", "std::array::data")
def _(c): return Val(shape_of(c.ret), [c.this, bv(0)] if shape_of(c.ret).kind == "parr" else [lmap(c.this, lambda l: l.ext(("i", bv(0)), l.sh.elem))])
@reg("seq::front", "std::array::front")
def _(c):
    E = c.E; for_each(c.this, lambda l: E.bounds(l, bv(0)))
    return lmap(c.this, lambda l: l.ext(("i", bv(0)), l.sh.elem))
@reg("seq::back")
def _(c):
    E = c.E; n = fold(vlen(E, c.this) - 1, vlen(E, c.this)); for_each(c.this, lambda l: E.bounds(l, n))
    return lmap(c.this, lambda l: l.ext(("i", n), l.sh.elem))
@reg("seq::begin", "seq::cbegin", "std::array::begin", "std::array::cbegin")
def _(c):
    sh = shape_of(c.ret); return Val(sh, [c.this, bv(0)] if sh.kind == "parr" else [SIter(c.this, bv(0))])
@reg("seq::end", "seq::cend", "std::array::end", "std::array::cend")
def _(c):
    sh = shape_of(c.ret); s = loc_sh(c.this); n = vlen(c.E, c.this) if s.kind == "vec" else bv(s.n)
    return Val(sh, [c.this, n] if sh.kind == "parr" else [SIter(c.this, n)])
@reg("__builtin_expect")
def _(c): return c.v(0)
@reg("seq::clear")
def _(c): c.E.store(c.this, zero_default(loc_sh(c.this)))
@reg("seq::push_back", "seq::emplace_back")
def _(c):
    E = c.E; v = E.load(c.this); es = v.sh.elem
    x = elem_from_args(c, es, c.args, c.f["ps"])
    nv = Val(v.sh, [fold(v.lv[0] + 1, v.lv[0])] + [sto(a, v.lv[0], y) for a, y in zip(v.lv[1:], x.lv)])
    E.store(c.this, nv)
    if c.ret is not None and c.ret.k == "ref": return lmap(c.this, lambda l: l.ext(("i", v.lv[0]), es))
def elem_from_args(c, es, args, ps=None):
    E = c.E
    if len(args) == 1:
        a = args[0]; v = E.rv(a)
        if es.kind == "int" and v.sh.kind == "int" and v.sh.w != es.w: return Val(es, [resize(v.t, es.w, v.sh.sg)])
        if v.sh is es or (v.sh.kind == es.kind and len(v.lv) == es.nl()):
            if ps and ps[0].k == "ref" and ps[0].rv: E.moved(a)
            return Val(es, refs_only(v).lv)
        if es.kind == "str": return E.strv(to_str(E, v))
        if es.kind == "int" and v.sh.kind == "int": return Val(es, [resize(v.t, es.w, v.sh.sg)])
        if v.sh.kind == "int" and es.kind == "int": return v
    if not args: return E.default_of(es)
    if es.kind == "rec" and "_idx" in es.fields and len(args) == 1:   # std::variant from one of its alternatives
        v = E.rv(args[0]); ns = [n for n, (o, fs) in es.fields.items() if n != "_idx" and (fs is v.sh or repr(fs) == repr(v.sh))]
        if len(ns) == 1:
            if ps and ps[0].k == "ref" and ps[0].rv: E.moved(args[0])
            lv = list(zero_default(es).lv); o, fs = es.fields[ns[0]]; lv[o:o + fs.nl()] = v.lv; lv[es.fields["_idx"][0]] = bv(int(ns[0][1:]), 32); return Val(es, lv)
    if es.kind == "str" and len(args) == 2:
        v0, v1 = E.rv(args[0]), E.rv(args[1])
        if v0.sh.kind == "iter": return E.strv(range_str(E, v0.lv[0], v1.lv[0]))
        if v0.sh.kind == "parr" and v1.sh.kind == "parr": return E.strv(mkstr_mem(E, v0, v1.lv[1] - v0.lv[1]))
        if v0.sh.kind == "parr": return E.strv(mkstr_mem(E, v0, resize(v1.t, 64, False)))
    if es.kind == "vec" and len(args) == 1 and E.rv(args[0]).sh.kind == "int":
        z = zero_default(es.elem); return Val(es, [resize(E.rv(args[0]).t, 64, E.rv(args[0]).sh.sg)] + [z3.K(I64, y) for y in z.lv])
    if es.ty is not None and es.ty.k == "rec" and es.ty.rec is not None:
        loc = E.temp(fresh_val(es, "el")); construct_by_args(E, loc, es.ty, args, ps); return E.load(loc)
    if es.kind == "rec" and len(args) == len(es.fields):
        lv = []
        for a, (n, (o, fs)) in zip(args, es.fields.items()): lv += elem_from_args(c, fs, [a]).lv
        return Val(es, lv)
    raise Unsupported("element construction of %r" % es)
def refs_only(v): return v
def construct_by_args(E, loc, ty, args, ps=None):
    """overload resolution by arity and argument kind among the extracted constructors"""
    name = ty.name; short = name.split("::")[-1].split("<")[0]
    cands = [f for f in E.prog.byqn.get(name + "::" + short, []) if f.d.get("ctor")]
    c2 = [f for f in cands if len(f.params) == len(args)]
    if not c2: c2 = [f for f in cands if len(f.params) > len(args)]
    def score(f):
        s = 0
        for i, (p, a) in enumerate(zip(f.params, args)):
            t = p["t"].noref(); v = E.rv(a) if not isinstance(a, PairRef) else None
            if v is None: continue
            ps_ = shape_of(t)
            if ps_ is v.sh: s += 3
            elif ps_.kind == v.sh.kind and (ps_.kind != "rec" or ps_.nl() == v.sh.nl()): s += 2
            elif ps_.kind == "str" and v.sh.kind == "parr": s += 1
            else: s -= 10
            if ps and i < len(ps) and p["t"].k == "ref":
                s += 1 if bool(p["t"].rv) == bool(ps[i].k == "ref" and ps[i].rv) else 0
        return s
    if not c2:
        sh = shape_of(ty)
        if not args: E.implicit_default(loc, ty); return
        if len(args) == 1:
            v = E.rv(args[0])
            if v.sh is sh: E.store(loc, v); return
        if ty.rec is not None and not cands and len(args) == len(ty.rec.fields): 
            lv = []
            for a, f in zip(args, ty.rec.fields): lv += E.rv(a).lv
            if len(lv) == sh.nl(): E.store(loc, Val(sh, lv)); return
        raise Unsupported("no constructor of %s with %d arguments" % (name, len(args)))
    f = max(c2, key=score)
    if score(f) < 0: raise Unsupported("no matching constructor of %s" % name)
    h = E.contracts.get(f.id) or E.contracts.get(f.qn) or E.contracts.get((f.qn, len(f.params)))
    a2 = []
    for p, a in zip(f.params, args):
        if p["t"].k != "ref":
            v = E.rv(a); sh = shape_of(p["t"])
            if sh.kind == "int" and v.sh.kind == "int": v = Val(sh, [resize(v.t, sh.w, v.sh.sg)])
            if sh.kind == "str" and v.sh.kind == "parr": v = E.strv(to_str(E, v))
            a2.append(v)
        else:
            t = p["t"].to; sh = shape_of(t)
            if sh.kind == "str" and E.rv(a).sh.kind == "parr": a = E.temp(E.strv(to_str(E, E.rv(a))))
            a2.append(a)
    if len(f.params) > len(args):
        for p in f.params[len(args):]:
            v = E.fresh_val(shape_of(p["t"].noref()), "dflt"); a2.append(E.temp(v) if p["t"].k == "ref" else v)   # any value
    if h is not None:
        fd = dict(f.d); h(E, Call(E, fd, loc, a2, {}, None)); return
    E.call_fn(f, loc, a2)
@reg("seq::push_front", "seq::emplace_front")
def _(c):
    E = c.E; v = E.load(c.this); x = elem_from_args(c, v.sh.elem, c.args, c.f["ps"])
    E.store(c.this, seq_insert(E, v, bv(0), x))
    if c.ret is not None and c.ret.k == "ref": return lmap(c.this, lambda l: l.ext(("i", bv(0)), l.sh.elem))
def seq_insert(E, v, i, x):
    lv = [fold(v.lv[0] + 1, v.lv[0])]
    for a, y in zip(v.lv[1:], x.lv):
        if isinstance(a, PyOpaque): lv.append(a); continue
        r = fresh("ins", a.sort()); j = z3.Const(fresh_name("j"), I64)
        E.assume(z3.ForAll([j], z3.Select(r, j) == z3.If(z3.ULT(j, i), z3.Select(a, j), z3.If(j == i, y, z3.Select(a, j - 1))), patterns=[z3.Select(r, j)]))
        E.assume(z3.Select(r, i) == y)
        lv.append(r)
    return Val(v.sh, lv)
def seq_remove(E, v, i, n=None):
    n = n if n is not None else bv(1)
    lv = [fold(v.lv[0] - n, v.lv[0], n)]
    for a in v.lv[1:]:
        if isinstance(a, PyOpaque): lv.append(a); continue
        r = fresh("del", a.sort()); j = z3.Const(fresh_name("j"), I64)
        E.assume(z3.ForAll([j], z3.Select(r, j) == z3.If(z3.ULT(j, i), z3.Select(a, j), z3.Select(a, j + n)), patterns=[z3.Select(r, j)]))
        lv.append(r)
    return Val(v.sh, lv)
@reg("seq::pop_back")
def _(c):
    E = c.E; v = E.load(c.this); E.bounds_nonempty(v); E.store(c.this, Val(v.sh, [fold(v.lv[0] - 1, v.lv[0])] + v.lv[1:]))
@reg("seq::pop_front")
def _(c):
    E = c.E; v = E.load(c.this); E.bounds_nonempty(v); E.store(c.this, seq_remove(E, v, bv(0)))
def _nonempty(E, v):
    if E.check_bounds: E.prove("container not empty", v.lv[0] != 0, "bounds")
Engine.bounds_nonempty = _nonempty
@reg("seq::resize")
def _(c):
    E = c.E; v = E.load(c.this); n = resize(c.t(0), 64, False); f = c.v(1) if c.n > 1 else E.default_of(v.sh.elem)
    lv = [n]
    if lit(v.lv[0]) and v.lv[0].as_long() == 0: E.store(c.this, Val(v.sh, [n] + [z3.K(I64, x) for x in f.lv])); return
    for a, y in zip(v.lv[1:], f.lv):
        if isinstance(a, PyOpaque): lv.append(a); continue
        r = fresh("rsz", a.sort()); j = z3.Const(fresh_name("j"), I64)
        E.assume(z3.ForAll([j], z3.Select(r, j) == z3.If(z3.ULT(j, v.lv[0]), z3.Select(a, j), y), patterns=[z3.Select(r, j)]))
        lv.append(r)
    E.store(c.this, Val(v.sh, lv))
def list_shift(E, loc, at, by):
    """iterators into a std::list stay on their element when another one is erased or inserted"""
    if not (isinstance(loc, Loc) and loc.sh.ty is not None and repr(loc.sh).startswith(("<vec std::list", "<vec std::multimap"))): return
    for k, v in list(E.st.L.items()):
        if isinstance(v, Val) and any(isinstance(x, SIter) and loc_eq(x.loc, loc) for x in v.lv):
            E.st.L[k] = Val(v.sh, [SIter(x.loc, fold(z3.If(z3.UGT(x.idx, at) if by.as_signed_long() < 0 else z3.UGE(x.idx, at), x.idx + by, x.idx), x.idx), x.rev) if isinstance(x, SIter) and loc_eq(x.loc, loc) else x for x in v.lv])
@reg("seq::erase")
def _(c):
    E = c.E; it = c.v(0).lv[0]; v = E.load(c.this)
    if not isinstance(it, SIter): raise Unsupported("erase")
    if c.n == 1:
        if E.check_bounds: E.prove("erased position in range", z3.ULT(it.idx, v.lv[0]), "bounds")
        E.store(c.this, seq_remove(E, v, it.idx)); list_shift(E, it.loc, it.idx, bv(-1)); return Val(shape_of(c.ret), [SIter(it.loc, it.idx)])
    j = c.v(1).lv[0]
    E.store(c.this, seq_remove(E, v, it.idx, j.idx - it.idx)); return Val(shape_of(c.ret), [SIter(it.loc, it.idx)])
@reg("seq::insert", "seq::emplace")
def _(c):
    E = c.E
    if c.f["qn"].startswith("std::multimap"):
        v = E.load(c.this); k, x = c.v(0), c.args[1]; at = fresh("at", I64); E.assume(z3.ULE(at, v.lv[0]))   # among the others, wherever its key belongs
        es = v.sh.elem.fields["second"][1]; y = E.rv(x)
        E.store(c.this, seq_insert(E, v, at, Val(v.sh.elem, list(k.lv) + list(y.lv[:es.nl()])))); list_shift(E, c.this, at, bv(1)); return Val(shape_of(c.ret), [SIter(c.this, at)])
    it = c.v(0).lv[0]; v = E.load(c.this)
    if c.n == 2:
        E.store(c.this, seq_insert(E, v, it.idx, elem_from_args(c, v.sh.elem, c.args[1:]))); list_shift(E, it.loc, it.idx, bv(1)); return Val(shape_of(c.ret), [SIter(it.loc, it.idx)])
    if c.n == 3:
        a, b = c.v(1), c.v(2)
        if a.sh.kind == "iter" and isinstance(a.lv[0], SIter): src = seq_arrays(E, E.load(a.lv[0].loc)); o = a.lv[0].idx; n = b.lv[0].idx - o; E.bounds_range(a.lv[0].loc, o, n)
        elif a.sh.kind == "parr": o = a.lv[1]; n = b.lv[1] - o; src = [bytes_at(E, a.lv[0], o, n)]
        else: raise Unsupported("vector insert")
        if not z3.simplify(it.idx == v.lv[0]).eq(TRUE) and not it.idx.eq(v.lv[0]): raise Unsupported("vector insert in the middle")
        E.store(c.this, Val(v.sh, [v.lv[0] + n] + [splice(E, x, v.lv[0], y, o, n) for x, y in zip(v.lv[1:], src)]))
        return Val(shape_of(c.ret), [SIter(it.loc, it.idx)])
    raise Unsupported("insert")
@reg("seq::assign")
def _(c):
    E = c.E; sh = loc_sh(c.this); v = c.v(0)
    if c.n == 2 and v.sh.kind == "iter": E.store(c.this, seq_range(E, sh, v.lv[0], c.v(1).lv[0])); return
    if c.n == 2 and v.sh.kind == "parr": E.store(c.this, seq_range_p(E, sh, v, c.v(1))); return
    if c.n == 2 and v.sh.kind == "int": E.store(c.this, Val(sh, [resize(v.t, 64, False)] + [z3.K(I64, x) for x in c.v(1).lv])); return
    raise Unsupported("assign")
@reg("seq::operator=", "map::operator=", "set::operator=")
def _(c):
    v = c.v(0); c.E.store(c.this, Val(loc_sh(c.this), v.lv))
    if c.f["ps"][0].k == "ref" and c.f["ps"][0].rv: c.E.moved(c.args[0])
    return c.this
@reg("seq::swap", "map::swap", "set::swap")
def _(c):
    a = c.E.load(c.this); b = c.v(0); c.E.store(c.this, b); c.E.store(c.args[0], a)
@reg("seq::capacity")
def _(c): return c.E.fresh_val(SIZE, "cap")
@reg("std::array::fill")
def _(c):
    E = c.E; sh = loc_sh(c.this); E.store(c.this, Val(sh, [z3.K(I64, x) for x in c.v(0).lv]))

# ------------------------------------------------------------------ iterators
def it_add(E, it, d):
    if isinstance(it, Choice): return Choice(it.c, it_add(E, it.a, d), it_add(E, it.b, d))
    if isinstance(it, SIter): return SIter(it.loc, fold(it.idx + d, it.idx, d), it.rev)
    if isinstance(it, MIter):
        mkey, mpos, msz, ax = mapfuns(it.dom.sort())
        idx = it.idx if it.idx is not None else mpos(it.dom, it.key)
        idx = fold(idx + d, idx, d); E.assume(msz(it.dom) == it.size)
        return mk_miter(E, it.loc, it.dom, it.size, idx)
    raise Unsupported("iterator arithmetic")
def mk_miter(E, loc, dom, size, idx):
    mkey, mpos, msz, ax = mapfuns(dom.sort()); k = mkey(dom, idx); end = Not(fold(z3.ULT(idx, size), idx, size))
    E.assume(Or(end, z3.And(z3.Select(dom, k), mpos(dom, k) == idx)))
    return MIter(loc, dom, size, k, end, idx)
def iter_eq(E, a, b):
    if isinstance(a, Choice): return If(a.c, iter_eq(E, a.a, b), iter_eq(E, a.b, b))
    if isinstance(b, Choice): return iter_eq(E, b, a)
    if isinstance(a, SIter) and isinstance(b, SIter): return Eq(a.idx, b.idx)
    if isinstance(a, MIter) and isinstance(b, MIter):
        if z3.is_true(a.end): return b.end
        if z3.is_true(b.end): return a.end
        return z3.And(a.end == b.end, z3.Or(a.end, a.key == b.key))
    if isinstance(a, PyOpaque) or isinstance(b, PyOpaque): return z3.Bool(fresh_name("iteq"))
    raise Unsupported("iterator comparison")
@reg("iter::operator++", "iter::operator--", "iter::operator+=", "iter::operator-=")
def _(c):
    E = c.E; v = E.load(c.this); op = c.f["n"]
    d = bv(1 if "+" in op else -1)
    if op[-1] == "=": d = resize(c.t(0), 64, c.v(0).sh.sg); d = d if "+" in op else -d
    nv = Val(v.sh, [it_add(E, v.lv[0], d)]); E.store(c.this, nv)
    if c.ret.k == "ref": return c.this
    return v
@reg("iter::operator+", "iter::operator-")
def _(c):
    E = c.E; v = E.load(c.this); d = resize(c.t(0), 64, c.v(0).sh.sg)
    return Val(v.sh, [it_add(E, v.lv[0], d if c.f["n"].endswith("+") else -d)])
@reg("__gnu_cxx::operator-")
def _(c):
    a, b = c.v(0).lv[0], c.v(1).lv[0]
    return Val(int_shape(64, True), [fold(a.idx - b.idx, a.idx, b.idx)])
@reg("__gnu_cxx::operator==", "std::__detail::operator==")
def _(c): return c.E.boolv(iter_eq(c.E, c.v(0).lv[0], c.v(1).lv[0]))
@reg("__gnu_cxx::operator!=", "std::__detail::operator!=")
def _(c): return c.E.boolv(Not(iter_eq(c.E, c.v(0).lv[0], c.v(1).lv[0])))
@reg("__gnu_cxx::operator<=>")
def _(c):
    a, b = c.v(0).lv[0].idx, c.v(1).lv[0].idx
    return Val(shape_of(c.ret), [If(a == b, bv(0, 8), If(a < b, bv(-1, 8), bv(1, 8)))])
@reg("iter::operator*")
def _(c): return c.E.iter_deref(c.E.load(c.this).lv[0])
@reg("iter::operator->")
def _(c):
    l = c.E.iter_deref(c.E.load(c.this).lv[0]); s = Shape("ref", [RefS]); return Val(s, [l])
@reg("iter::operator==")
def _(c): return c.E.boolv(iter_eq(c.E, c.E.load(c.this).lv[0], c.v(0).lv[0]))
@reg("iter::ctor")
def _(c): return Val(loc_sh(c.this), c.v(0).lv) if c.n else None
@reg("iter::operator=")
def _(c): c.E.store(c.this, c.v(0)); return c.this
@reg("iter::base")
def _(c): return c.E.load(c.this)
@reg("std::distance")
def _(c):
    a, b = c.v(0), c.v(1)
    if a.sh.kind == "iter" and isinstance(a.lv[0], SIter): return Val(int_shape(64, True), [b.lv[0].idx - a.lv[0].idx])
    if a.sh.kind == "parr": return Val(int_shape(64, True), [b.lv[1] - a.lv[1]])
    raise Unsupported("distance")
@reg("std::next", "std::prev")
def _(c):
    d = resize(c.t(1), 64, True) if c.n > 1 else bv(1)
    v = c.v(0)
    if c.f["n"] == "prev": d = -d
    if v.sh.kind == "parr": return Val(v.sh, [v.lv[0], v.lv[1] + d])
    return Val(v.sh, [it_add(c.E, v.lv[0], d)])
@reg("std::advance")
def _(c):
    E = c.E; v = c.v(0); E.store(c.args[0], Val(v.sh, [it_add(E, v.lv[0], resize(c.t(1), 64, True))]))
@reg("std::begin", "std::cbegin")
def _(c): 
    l = c.args[0]; sh = shape_of(c.ret)
    return Val(sh, [l, bv(0)] if sh.kind == "parr" else [SIter(l, bv(0))])
@reg("std::end", "std::cend")
def _(c):
    l = c.args[0]; sh = shape_of(c.ret); s = loc_sh(l); n = bv(s.n) if s.kind in ("arr", "xarr") else slen(c.E.load(l).t) if s.kind == "str" else vlen(c.E, l)
    return Val(sh, [l, n] if sh.kind == "parr" else [SIter(l, n)])
@reg("std::size")
def _(c):
    l = c.args[0]; s = loc_sh(l); return c.E.size(bv(s.n) if s.kind in ("arr", "xarr") else slen(c.E.load(l).t) if s.kind == "str" else vlen(c.E, l))

# ------------------------------------------------------------------ maps / sets
def key_of(c, sh, x):
    E = c.E; v = E.rv(x)
    if sh.key.kind == "str": return to_str(E, v)
    if sh.key.kind == "int" and v.sh.kind == "int" and v.t.size() != sh.key.w: return resize(v.t, sh.key.w, v.sh.sg)
    if not isinstance(v.lv[0], z3.ExprRef): raise Unsupported("map key")
    return v.lv[0]
def get_map(c):
    v = c.E.load(c.this); return v, v.lv[0], v.lv[1]
def map_pre(E, v):
    """a set is empty exactly when its size is 0; used facts are added at the points of use"""
    pass
@reg("map::ctor", "set::ctor")
def _(c):
    E = c.E; sh = loc_sh(c.this)
    if not c.n: return zero_default(sh)
    v = c.v(0)
    if v.sh.kind in ("map", "set"): return Val(sh, v.lv)
    if v.sh.kind == "vec":
        n = v.lv[0]
        if not lit(n): raise Unsupported("map from range")
        r = zero_default(sh)
        for i in range(n.as_long()):
            el = [sel(a, bv(i)) for a in v.lv[1:]]
            k = el[0]; r = map_put(E, r, k, el[1:])
        return r
    if v.sh.kind == "int": return zero_default(sh)
    raise Unsupported("map constructor")
def map_put(E, v, k, lv):
    dom = v.lv[1]; isin = z3.Select(dom, k)
    n = v.lv[0]
    r = Val(v.sh, [If(isin, n, n + 1) if not z3.is_app_of(dom, z3.Z3_OP_CONST_ARRAY) else fold(n + 1, n), z3.Store(dom, k, TRUE)] + [sto(a, k, x) for a, x in zip(v.lv[2:], lv)])
    msz_fact(E, r)
    return r
def msz_fact(E, v):
    mkey, mpos, msz, ax = mapfuns(v.lv[1].sort()); E.assume(msz(v.lv[1]) == v.lv[0])
def map_del(E, v, k):
    dom = v.lv[1]; isin = z3.Select(dom, k); n = v.lv[0]
    E.assume(z3.Implies(isin, n != 0))
    r = Val(v.sh, [If(isin, n - 1, n), z3.Store(dom, k, FALSE)] + v.lv[2:])
    msz_fact(E, r); return r
@reg("map::find", "set::find")
def _(c):
    E = c.E; v, n, dom = get_map(c); k = key_of(c, v.sh, c.args[0])
    isin = sel(dom, k); E.assume(z3.Implies(isin, n != 0))
    return Val(shape_of(c.ret), [MIter(c.this, dom, n, k, Not(isin))])
@reg("map::count", "set::count", "map::contains", "set::contains")
def _(c):
    E = c.E; v, n, dom = get_map(c); k = key_of(c, v.sh, c.args[0]); isin = sel(dom, k); E.assume(z3.Implies(isin, n != 0))
    return E.boolv(isin) if c.f["n"] == "contains" else E.size(If(isin, bv(1), bv(0)))
@reg("map::end", "set::end", "map::cend", "set::cend")
def _(c):
    E = c.E; v, n, dom = get_map(c)
    mkey, mpos, msz, ax = mapfuns(dom.sort())
    return Val(shape_of(c.ret), [MIter(c.this, dom, n, mkey(dom, n), TRUE, n)])
@reg("map::begin", "set::begin", "map::cbegin", "set::cbegin")
def _(c):
    E = c.E; v, n, dom = get_map(c); msz_fact(E, v)
    return Val(shape_of(c.ret), [mk_miter(E, c.this, dom, n, bv(0))])
@reg("map::at")
def _(c):
    E = c.E; v, n, dom = get_map(c); k = key_of(c, v.sh, c.args[0]); isin = sel(dom, k)
    E.maybe_throw(Not(isin), "std::out_of_range")
    return lmap(c.this, lambda l: l.ext(("k", k), l.sh.elem))
@reg("map::operator[]")
def _(c):
    E = c.E; v, n, dom = get_map(c); k = key_of(c, v.sh, c.args[0]); isin = sel(dom, k)
    E.assume(z3.Implies(isin, n != 0))
    d = E.default_of(v.sh.elem)
    cur = [sel(a, k) for a in v.lv[2:]]
    nv = [If(isin, x, y) if isinstance(x, z3.ExprRef) else x for x, y in zip(cur, d.lv)]
    E.store(c.this, map_put(E, v, k, nv))
    return lmap(c.this, lambda l: l.ext(("k", k), l.sh.elem))
def pair_result(c, k, isin):
    sh = shape_of(c.ret)
    E = c.E; v = E.load(c.this)
    it = MIter(c.this, v.lv[1], v.lv[0], k, FALSE)
    if sh.kind == "rec": return Val(sh, [it, Not(isin)])
    return Val(sh, [it])
@reg("map::emplace", "map::try_emplace", "map::insert", "map::insert_or_assign", "map::emplace_hint")
def _(c):
    E = c.E; v, n, dom = get_map(c); args = c.args; nm = c.f["n"]
    if nm == "insert":
        p = E.rv(args[-1]) if not isinstance(args[-1], PairRef) else Val(None, E.rv(args[-1].first).lv + E.rv(args[-1].second).lv)
        if c.n == 2 and p.sh.kind == "iter": raise Unsupported("range insert into map")
        k = p.lv[0]; x = p.lv[1:]
        if p.sh is not None and p.sh.kind == "rec":
            ko, ks = p.sh.fields["first"]; vo, vs = p.sh.fields["second"]
            k = key_of(c, v.sh, sub(p, ko, ks)); x = elem_from_args(c, v.sh.elem, [sub(p, vo, vs)]).lv
        isin = sel(dom, k)
    else:
        k = key_of(c, v.sh, args[0]); isin = sel(dom, k)
        # emplace constructs the mapped value even when the key is present; no effect then
        x = elem_from_args(c, v.sh.elem, args[1:], c.f["ps"][1:]).lv
    E.assume(z3.Implies(isin, n != 0))
    v, n, dom = get_map(c)
    cur = [sel(a, k) for a in v.lv[2:]]
    if nm != "insert_or_assign": x = [If(isin, a, b) for a, b in zip(cur, x)]
    E.store(c.this, map_put(E, v, k, x))
    return pair_result(c, k, isin)
@reg("set::insert", "set::emplace")
def _(c):
    E = c.E; v, n, dom = get_map(c)
    if c.n == 2: raise Unsupported("range insert")
    k = key_of(c, v.sh, c.args[0]); isin = sel(dom, k); E.assume(z3.Implies(isin, n != 0))
    E.store(c.this, map_put(E, v, k, [])); return pair_result(c, k, isin)
@reg("map::erase", "set::erase")
def _(c):
    E = c.E; v, n, dom = get_map(c); a = c.v(0)
    if a.sh.kind == "iter":
        it = a.lv[0]
        if not isinstance(it, MIter): raise Unsupported("erase iterator")
        if c.n == 2: raise Unsupported("range erase")
        if E.check_bounds: E.prove("erased iterator is valid", z3.And(Not(it.end), z3.Select(dom, it.key)), "bounds")
        E.store(c.this, map_del(E, v, it.key))
        if it.idx is None:
            # position unknown: the following element in the same enumeration
            mkey, mpos, msz, ax = mapfuns(it.dom.sort()); idx = mpos(it.dom, it.key)
        else: idx = it.idx
        E.assume(mapfuns(it.dom.sort())[2](it.dom) == it.size)
        return Val(shape_of(c.ret), [mk_miter(E, it.loc, it.dom, it.size, fold(idx + 1, idx))])
    k = key_of(c, v.sh, c.args[0]); isin = sel(dom, k)
    E.store(c.this, map_del(E, v, k)); return E.size(If(isin, bv(1), bv(0)))
@reg("map::clear", "set::clear")
def _(c): c.E.store(c.this, zero_default(loc_sh(c.this)))

# ------------------------------------------------------------------ optional / pair / tuple / variant
O = "std::optional::"
@reg(O + "ctor")
def _(c):
    E = c.E; sh = loc_sh(c.this)
    if not c.n: return zero_default(sh)
    v = c.v(0)
    if v.sh.kind == "opt": return Val(sh, v.lv)
    if v.sh.kind == "unit": 
        return zero_default(sh) if "nullopt" in c.f["ps"][0].noref().s else Val(sh, [TRUE] + E.default_of(sh.elem).lv)
    return Val(sh, [TRUE] + elem_from_args(c, sh.elem, [c.args[0]], c.f["ps"]).lv)
@reg(O + "operator=")
def _(c):
    E = c.E; sh = loc_sh(c.this); v = c.v(0)
    if v.sh.kind == "opt": nv = Val(sh, v.lv)
    elif v.sh.kind == "unit": nv = zero_default(sh)
    else: nv = Val(sh, [TRUE] + elem_from_args(c, sh.elem, [c.args[0]], c.f["ps"]).lv)
    E.store(c.this, nv); return c.this
@reg(O + "has_value", O + "operator bool", O + "_M_is_engaged")
def _(c): return c.E.boolv(c.E.load(c.this).lv[0])
@reg(O + "value")
def _(c):
    E = c.E; E.maybe_throw(Not(E.load(c.this).lv[0]), "std::bad_optional_access"); return lmap(c.this, lambda l: l.ext(("o",), l.sh.elem))
@reg(O + "operator*")
def _(c):
    E = c.E
    if E.check_bounds: E.prove("optional has a value", E.load(c.this).lv[0], "bounds")
    return lmap(c.this, lambda l: l.ext(("o",), l.sh.elem))
@reg(O + "operator->")
def _(c):
    l = lmap(c.this, lambda l: l.ext(("o",), l.sh.elem)); return Val(Shape("ref", [RefS]), [l])
@reg(O + "value_or")
def _(c):
    E = c.E; v = E.load(c.this); d = elem_from_args(c, v.sh.elem, [c.args[0]]); return ml(v.lv[0], Val(v.sh.elem, v.lv[1:]), d)
@reg(O + "reset")
def _(c): c.E.store(c.this, zero_default(loc_sh(c.this)))
@reg(O + "emplace")
def _(c):
    E = c.E; sh = loc_sh(c.this); x = elem_from_args(c, sh.elem, c.args, c.f["ps"]); E.store(c.this, Val(sh, [TRUE] + x.lv)); return lmap(c.this, lambda l: l.ext(("o",), l.sh.elem))
@reg("std::make_optional")
def _(c):
    sh = shape_of(c.ret); return Val(sh, [TRUE] + elem_from_args(c, sh.elem, c.args).lv)
@reg("std::pair::ctor", "std::tuple::ctor")
def _(c):
    E = c.E; sh = loc_sh(c.this)
    if not c.n: return E.default_of(sh)
    if c.n == 1:
        v = c.v(0)
        if v.sh.kind == "rec" and v.sh.nl() == sh.nl(): return Val(sh, v.lv)
    lv = []
    for a, (n, (o, fs)) in zip(c.args, sh.fields.items()):
        if fs.kind == "ref" and loc_sh(a) is not fs and isinstance(a, (Loc, Choice)) and loc_sh(a).kind != "ref": lv += E.addr_of(a, fs).lv
        else: lv += elem_from_args(c, fs, [a]).lv
    return Val(sh, lv)
@reg("std::make_pair", "std::make_tuple")
def _(c):
    sh = shape_of(c.ret); lv = []
    for a, (n, (o, fs)) in zip(c.args, sh.fields.items()): lv += elem_from_args(c, fs, [a]).lv
    return Val(sh, lv)
@reg("std::pair::operator=", "std::tuple::operator=")
def _(c): c.E.store(c.this, Val(loc_sh(c.this), c.v(0).lv)); return c.this
@reg("std::get")
def _(c):
    ta = c.f.get("ta"); l = c.args[0]; sh = loc_sh(l)
    i = ta[0]
    if isinstance(l, PairRef): return l.first if i == 0 else l.second
    if isinstance(i, int):
        if sh.kind in ("arr", "xarr"): return lmap(l, lambda x: x.ext(("i", bv(i)), x.sh.elem))
        n = [n for n in sh.fields if n != "_idx"][i]
        if "_idx" in sh.fields: c.E.maybe_throw(c.E.load(lmap(l, lambda x: x.fld("_idx"))).t != i, "std::bad_variant_access")
        return lmap(l, lambda x: x.fld(n))
    want = shape_of(c.ret.noref()); ns = [n for n, (o, fs) in sh.fields.items() if n != "_idx" and (fs is want or repr(fs) == repr(want))]
    if len(ns) == 1:
        if "_idx" in sh.fields: c.E.maybe_throw(c.E.load(lmap(l, lambda x: x.fld("_idx"))).t != int(ns[0][1:]), "std::bad_variant_access")
        return lmap(l, lambda x: x.fld(ns[0]))
    raise Unsupported("std::get by type")

# ------------------------------------------------------------------ smart pointers
SP = "std::shared_ptr::"; UP = "std::unique_ptr::"; WP = "std::weak_ptr::"
def alive(E, r): return z3.Select(E.st.hmap("#alive", z3.BoolSort()), r)
@reg(SP + "ctor", UP + "ctor", WP + "ctor")
def _(c):
    E = c.E; sh = loc_sh(c.this)
    if not c.n: return zero_default(sh)
    v = c.v(0)
    if v.sh.kind in ("ref", "parr"):
        if c.f["ps"][0].k == "ref" and c.f["ps"][0].rv: E.moved(c.args[0])
        if sh.kind == "parr" and v.sh.kind == "ref": return zero_default(sh)
        lv = v.lv
        if len(lv) == sh.nl(): return Val(sh, lv)
    raise Unsupported("smart pointer constructor")
@reg(SP + "operator=", UP + "operator=", WP + "operator=")
def _(c):
    E = c.E; sh = loc_sh(c.this); v = c.v(0)
    lv = v.lv if len(v.lv) == sh.nl() else zero_default(sh).lv
    if c.f["ps"][0].k == "ref" and c.f["ps"][0].rv: E.moved(c.args[0])
    E.store(c.this, Val(sh, lv)); return c.this
@reg(SP + "get", UP + "get", SP + "operator->", UP + "operator->", SP + "_M_get")
def _(c):
    v = c.E.load(c.this); return Val(shape_of(c.ret), v.lv)
@reg(UP + "get_deleter")
def _(c): return c.E.temp(Val(UNIT, []))
@reg(SP + "operator*", UP + "operator*")
def _(c): return c.E.deref(c.E.load(c.this))
@reg(UP + "operator[]")
def _(c):
    E = c.E; v = E.load(c.this); i = c.v(0); return E.mem_at(v.lv[0], fold(v.lv[1] + resize(i.t, 64, i.sh.sg), v.lv[1], i.t), v.sh.pointee)
@reg(SP + "operator bool", UP + "operator bool")
def _(c):
    E = c.E; return E.boolv(Not(E.ptr_eq(E.load(c.this).lv[0], null)))
@reg(SP + "reset", UP + "reset", WP + "reset")
def _(c):
    E = c.E; sh = loc_sh(c.this)
    if c.n and c.v(0).sh.kind != "unit" and c.f["ps"][0].k == "ptr": E.store(c.this, Val(sh, c.v(0).lv if len(c.v(0).lv) == sh.nl() else zero_default(sh).lv))
    else: E.store(c.this, zero_default(sh))
@reg(UP + "release")
def _(c):
    E = c.E; v = E.load(c.this); E.store(c.this, zero_default(v.sh)); return Val(shape_of(c.ret), v.lv)
@reg(SP + "swap", UP + "swap")
def _(c):
    a = c.E.load(c.this); b = c.v(0); c.E.store(c.this, b); c.E.store(c.args[0], a)
@reg(SP + "use_count")
def _(c): return c.E.fresh_val(shape_of(c.ret), "uc")
@reg(WP + "lock")
def _(c):
    E = c.E; r = E.load(c.this).lv[0]
    return Val(shape_of(c.ret), [weak_lock(E, r)])
def weak_lock(E, r):
    if isinstance(r, Choice): return ml(r.c, weak_lock(E, r.a), weak_lock(E, r.b))
    if isnull(r): return null
    return If(z3.And(r != null, alive(E, r)), r, null)
@reg(WP + "expired")
def _(c):
    E = c.E; r = E.load(c.this).lv[0]; return E.boolv(E.ptr_eq(weak_lock(E, r), null))
@reg("std::make_shared", "std::make_unique")
def _(c):
    E = c.E; t = c.ret.args[0]; sh = shape_of(c.ret)
    if sh.kind == "parr":
        r = E.alloc("arr"); n = resize(c.t(0), 64, False); E.st.H["msize"] = z3.Store(E.st.hmap("msize", I64), r, n)
        return Val(sh, [r, bv(0)])
    r = E.alloc("obj"); s2 = shape_of(t)
    if s2.kind == "rec" and s2.keys is not None:
        loc = Loc(("H", r), (), s2, s2); E.st.H["#alive"] = z3.Store(E.st.hmap("#alive", z3.BoolSort()), r, TRUE)
        construct_by_args(E, loc, t, c.args, c.f["ps"])
    else:
        loc = Loc(("B", r), (), s2, s2)
        if s2.nl(): E.store(loc, elem_from_args(c, s2, c.args))
    return Val(sh, [r])
@reg("std::static_pointer_cast", "std::const_pointer_cast")
def _(c): return Val(shape_of(c.ret), c.v(0).lv)
@reg("std::dynamic_pointer_cast")
def _(c):
    v = c.v(0); return Val(shape_of(c.ret), [If(z3.Bool(fresh_name("dyn")), v.t, null)])

# ------------------------------------------------------------------ utilities
@reg("std::move", "std::forward", "std::as_const", "std::addressof_", "std::ref", "std::cref")
def _(c):
    if c.f["n"] == "move" and c.n == 3: raise Unsupported("std::move algorithm")
    return c.args[0]
@reg("std::swap")
def _(c):
    E = c.E; a, b = c.v(0), c.v(1); E.store(c.args[0], b); E.store(c.args[1], a)
@reg("std::bit_cast")
def _bitcast(c):
    v = c.E.rv(c.args[0]); sh = shape_of(c.ret)
    if len(v.lv) == 1 and z3.is_bv(v.lv[0]) and sh.kind == "int" and v.lv[0].size() == sh.w: return Val(sh, [v.lv[0]])
    return c.E.fresh_val(sh, "bit_cast")
@reg("std::exchange")
def _(c):
    E = c.E; old = c.v(0); nv = c.v(1)
    if nv.sh.kind != old.sh.kind and old.sh.kind == "int": nv = Val(old.sh, [resize(nv.t, old.sh.w, nv.sh.sg)])
    E.store(c.args[0], Val(old.sh, nv.lv if len(nv.lv) == old.sh.nl() else zero_default(old.sh).lv)); return old
def lt_of(v, a, b): return a < b if v.sh.sg else z3.ULT(a, b)
@reg("std::min", "std::max")
def _(c):
    E = c.E
    if c.n == 1:
        v = c.v(0); n = v.lv[0].as_long(); xs = [Val(v.sh.elem, [sel(v.lv[1], bv(i))]) for i in range(n)]
    else: xs = [c.v(0), c.v(1)]
    r = xs[0]
    for x in xs[1:]:
        lt = lt_of(r, x.t, r.t) if c.f["n"] == "min" else lt_of(r, r.t, x.t)
        r = Val(r.sh, [If(fold(lt, x.t, r.t), x.t, r.t)])
    return r if c.ret.k != "ref" else E.temp(r)
@reg("std::clamp")
def _(c):
    v, lo, hi = c.v(0), c.v(1), c.v(2)
    return c.E.temp(Val(v.sh, [If(lt_of(v, v.t, lo.t), lo.t, If(lt_of(v, hi.t, v.t), hi.t, v.t))]))
@reg("std::abs", "abs")
def _(c):
    v = c.v(0); return Val(v.sh, [If(v.t < 0, -v.t, v.t)])
def bswap(t):
    n = t.size() // 8
    return fold(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, t) for i in range(n)]), t)
@reg("htons", "ntohs", "htonl", "ntohl", "__bswap_16", "__bswap_32", "__bswap_64", "__builtin_bswap16", "__builtin_bswap32", "__builtin_bswap64")
def _(c): return Val(shape_of(c.ret), [bswap(c.t(0))])
def _numlim(c, mx):
    sh = shape_of(c.ret)
    if sh.kind != "int": raise Unsupported("numeric_limits of a non-integer")
    n = sh.w; sg = sh.sg
    v = ((1 << (n - 1)) - 1 if sg else (1 << n) - 1) if mx else (-(1 << (n - 1)) if sg else 0)
    return Val(sh, [bv(v, n)])
@reg("std::numeric_limits::max")
def _(c): return _numlim(c, True)
@reg("std::numeric_limits::min")
def _(c): return _numlim(c, False)
@reg("__errno_location")
def _(c):
    sh = int_shape(32, True); return Val(shape_of(c.ret), [Loc(("G", "errno"), (), sh, sh), bv(0)])
@reg("memcpy", "memmove", "std::memcpy", "std::memmove", "__builtin_memcpy", "__builtin_memmove")
def _(c):
    E = c.E; d, s = c.v(0), c.v(1); n = resize(c.t(2), 64, False)
    mem_copy(E, d, s, n); return d
def is_bytes(b):
    """byte-array-like memory base"""
    if isinstance(b, z3.ExprRef): return True
    return isinstance(b, Loc) and (b.sh.kind == "str" or (b.sh.kind in ("vec", "arr") and b.sh.elem.kind == "int" and b.sh.elem.w == 8))
def unre(b):
    while isinstance(b, Reint): b = b.base if not isinstance(b.base, Val) else b.base.lv[0]
    return b
def value_bytes(v):
    """little-endian bytes of an integer value / flat list"""
    if v.sh.kind == "int":
        return [z3.Extract(8 * i + 7, 8 * i, v.t) if v.t.size() > 8 else v.t for i in range(v.t.size() // 8)]
    if v.sh.kind == "arr":
        out = []
        for i in range(v.sh.n): out += value_bytes(Val(v.sh.elem, [sel(a, bv(i)) for a in v.lv]))
        return out
    if v.sh.kind == "rec" and v.sh.ty is not None and v.sh.ty.rec is not None and not v.sh.ty.rec.bases:
        rc = v.sh.ty.rec; out = [None] * rc.size
        for f in rc.fields:
            if f["n"] not in v.sh.fields: continue
            o = f["off"] // 8
            for i, b in enumerate(value_bytes(field(v, f["n"]))): out[o + i] = b
        return [fresh("pad", z3.BitVecSort(8)) if b is None else b for b in out]
    if v.sh.kind == "bool": return [z3.If(v.t, bv(1, 8), bv(0, 8))]
    raise Unsupported("bytes of %r" % v.sh)
def bytes_value(sh, bs):
    if sh.kind == "int":
        return Val(sh, [bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))])
    if sh.kind == "arr":
        k = sh.elem.w // 8; lv = z3.K(I64, bv(0, sh.elem.w))
        for i in range(sh.n): lv = z3.Store(lv, bv(i), bytes_value(sh.elem, bs[i * k:(i + 1) * k]).t)
        return Val(sh, [lv])
    if sh.kind == "rec" and width_of(sh):
        v = zero_val(sh); fl = {f["n"]: f for f in sh.ty.rec.fields}
        for n, (off, fs) in sh.fields.items():
            if n not in fl: raise Unsupported("value of bytes %r" % sh)
            o = fl[n]["off"] // 8; w = width_of(fs)
            v = update(v, ("s", off, fs), bytes_value(fs, bs[o:o + w]))
        return v
    raise Unsupported("value of bytes %r" % sh)
def width_of(sh): return sh.w // 8 if sh.kind == "int" else sh.n * width_of(sh.elem) if sh.kind == "arr" else sh.ty.rec.size if sh.kind == "rec" and sh.ty is not None and sh.ty.rec is not None and not sh.ty.rec.bases else 0
def mem_copy(E, d, s, n):
    db, do = unre(d.lv[0]), d.lv[1] if len(d.lv) > 1 else bv(0); sb, so = unre(s.lv[0]), s.lv[1] if len(s.lv) > 1 else bv(0)
    if isinstance(db, Choice) or isinstance(sb, Choice): raise Unsupported("memcpy through conditional pointer")
    if is_bytes(db) and is_bytes(sb):
        src = bytes_at(E, sb, so, n)
        dst_write(E, db, do, src, so, n); return
    if lit(n):
        k = n.as_long()
        # source bytes
        if is_bytes(sb):
            a = bytes_at(E, sb, so, n); bs = [sel(a, fold(so + i, so)) for i in range(k)]
        else: bs = value_bytes(E.load(sb))
        if lit(so) and so.as_long() and not is_bytes(sb): bs = bs[so.as_long():]
        if is_bytes(db):
            a = z3.K(I64, bv(0, 8))
            for i, x in enumerate(bs[:k]): a = z3.Store(a, bv(i), x)
            dst_write(E, db, do, a, bv(0), n)
        else:
            sh = db.sh
            if k != width_of(sh):
                if k < width_of(sh) and sh.kind == "int":
                    old = value_bytes(E.load(db)); E.store(db, bytes_value(sh, bs[:k] + old[k:])); return
                raise Unsupported("partial memcpy")
            E.store(db, bytes_value(sh, bs[:k]))
        return
    def elems(b): return b.sh.elem.w // 8 if isinstance(b, Loc) and b.sh.kind in ("vec", "arr") and b.sh.elem.kind == "int" else 0
    k = elems(db)
    if k > 1 and k == elems(sb):
        m = z3.LShR(n, bv(k.bit_length() - 1)); E.prove("memmove moves whole elements", (n & bv(k - 1)) == 0, "bounds")
        E.bounds_range(db, do, m); E.bounds_range(sb, so, m); v = E.load(db); src = E.load(sb).lv[-1]; a = v.lv[-1]
        if v.sh.kind == "arr" and v.sh.n <= 64:
            for i in range(v.sh.n): a = z3.Store(a, bv(i), z3.If(ult_(bv(i) - do, m), sel(src, so + (bv(i) - do)), sel(v.lv[-1], bv(i))))
        else: a = splice(E, a, do, src, so, m)
        E.store(db, Val(v.sh, v.lv[:-1] + [a])); return
    raise Unsupported("memcpy")
def ult_(a, b): return z3.ULT(a, b)
def dst_write(E, db, do, src, so, n):
    if isinstance(db, Loc):
        E.bounds_range(db, do, n); v = E.load(db)
        if v.sh.kind == "str":
            a = splice(E, sarr(v.t), do, src, so, n); E.store(db, E.strv(smk(a, bv(0), slen(v.t)))); return
        a = v.lv[-1]; E.store(db, Val(v.sh, v.lv[:-1] + [splice(E, a, do, src, so, n)]))
    else:
        E.mem_range(db, do, n); key = mem_key(8); m = E.st.hmap(key, z3.ArraySort(I64, z3.BitVecSort(8)))
        E.st.H[key] = z3.Store(m, db, splice(E, sel(m, db), do, src, so, n))
@reg("memset", "std::memset", "__builtin_memset")
def _(c):
    E = c.E; d = c.v(0); b = unre(d.lv[0]); n = resize(c.t(2), 64, False); x = resize(c.t(1), 8, False)
    if is_bytes(b): dst_write(E, b, d.lv[1] if len(d.lv) > 1 else bv(0), z3.K(I64, x), bv(0), n); return d
    if isinstance(b, Loc) and lit(x) and x.as_long() == 0:
        E.store(b, zero_default(b.sh)); return d
    raise Unsupported("memset")
@reg("memcmp", "std::memcmp", "__builtin_memcmp")
def _(c):
    E = c.E; a, b = c.v(0), c.v(1); n = resize(c.t(2), 64, False)
    r = fresh("memcmp", z3.BitVecSort(32))
    ab, bb = unre(a.lv[0]), unre(b.lv[0])
    def arr(x, o):
        if is_bytes(x): return bytes_at(E, x, o, n), o
        bs = value_bytes(E.load(x)); q = z3.K(I64, bv(0, 8))
        for i, y in enumerate(bs): q = z3.Store(q, bv(i), y)
        return q, bv(0)
    ao = a.lv[1] if len(a.lv) > 1 else bv(0); bo = b.lv[1] if len(b.lv) > 1 else bv(0)
    (x, xo), (y, yo) = arr(ab, ao), arr(bb, bo)
    if lit(n) and n.as_long() <= 64: E.assume((r == 0) == And(*[sel(x, fold(xo + i, xo)) == sel(y, fold(yo + i, yo)) for i in range(n.as_long())]))
    else:
        j = z3.Const(fresh_name("j"), I64)
        E.assume((r == 0) == z3.ForAll([j], z3.Implies(z3.ULT(j, n), z3.Select(x, xo + j) == z3.Select(y, yo + j))))
    return Val(int_shape(32, True), [r])
@reg("strlen", "std::strlen", "__builtin_strlen")
def _(c): return c.E.size(slen(cstr(c.E, c.v(0))))
@reg("strcmp", "std::strcmp")
def _(c):
    E = c.E; r = fresh("strcmp", z3.BitVecSort(32)); E.assume((r == 0) == E.str_eq(cstr(E, c.v(0)), cstr(E, c.v(1)))); return Val(int_shape(32, True), [r])
@reg("strncpy")
def _(c): raise Unsupported("strncpy")
@reg("malloc", "std::malloc")
def _(c):
    E = c.E; r = E.alloc("malloc"); n = resize(c.t(0), 64, False); ok = z3.Bool(fresh_name("malloc_ok"))
    E.st.H["msize"] = z3.Store(E.st.hmap("msize", I64), r, n)
    return Val(shape_of(c.ret), [If(ok, r, null), bv(0)])
@reg("calloc")
def _(c):
    E = c.E; r = E.alloc("calloc"); n = resize(c.t(0) * c.t(1), 64, False); ok = z3.Bool(fresh_name("malloc_ok"))
    E.st.H["msize"] = z3.Store(E.st.hmap("msize", I64), r, n)
    key = mem_key(8); m = E.st.hmap(key, z3.ArraySort(I64, z3.BitVecSort(8))); E.st.H[key] = z3.Store(m, r, z3.K(I64, bv(0, 8)))
    return Val(shape_of(c.ret), [If(ok, r, null), bv(0)])
@reg("realloc", "std::realloc")
def _(c):
    """returns NULL (nothing changed) or a block of the new size holding the old bytes"""
    E = c.E; p = c.v(0); n = resize(c.t(1), 64, False); r = E.alloc("realloc"); ok = z3.Bool(fresh_name("realloc_ok"))
    old = p.lv[0]
    if not isinstance(old, z3.ExprRef): raise Unsupported("realloc")
    ms = E.st.hmap("msize", I64); osz = z3.Select(ms, old)
    key = mem_key(8); m = E.st.hmap(key, z3.ArraySort(I64, z3.BitVecSort(8)))
    a = fresh("rea", A8); j = z3.Const(fresh_name("j"), I64)
    oa = z3.Select(m, old)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(z3.ULT(j, osz), z3.ULT(j, n)), z3.Select(a, j) == z3.Select(oa, j)), patterns=[z3.Select(a, j)]))
    E.st.H[key] = z3.Store(m, r, a); E.st.H["msize"] = z3.Store(z3.Store(ms, old, If(ok, bv(0), osz)), r, n)   # the old block is gone
    return Val(shape_of(c.ret), [If(ok, r, null), bv(0)])
@reg("free", "std::free")
def _(c):
    E = c.E; p = c.v(0).lv[0]
    if isinstance(p, z3.ExprRef): E.st.H["msize"] = z3.Store(E.st.hmap("msize", I64), p, bv(0))
    return None
@reg("std::isalnum", "isalnum", "isspace", "isdigit", "toupper", "tolower", "std::isspace", "std::tolower", "std::toupper")
def _(c):
    f = z3.Function("c_" + c.f["n"], z3.BitVecSort(32), z3.BitVecSort(32)); return Val(int_shape(32, True), [f(c.t(0))])
def pred_term(E, fnv, loc, fr, e):
    """the predicate as a formula of a bound index; only for pure predicates (no store, no throw)"""
    k = z3.Const(fresh_name("pi"), I64); save = E.st; E.st = save.clone(); nb = E.check_bounds; E.check_bounds = False; n0 = len(E.st.pc); ths = sum(len(x) for x in E.throws); nob = len(E.obls)
    lim = V._ctr[0]
    try:
        el = E.iter_deref(SIter(loc, k)); r = E.rv(E.call_value(fnv, [el], e, fr)); st = E.st
    finally: E.st = save; E.check_bounds = nb; del E.obls[nob:]
    if sum(len(x) for x in E.throws) != ths: raise Unsupported("throwing predicate")
    t = r.t
    for nme in _solve.decl_names([t]):
        m = nme.rsplit("!", 1)
        if len(m) == 2 and m[1].isdigit() and int(m[1]) > lim: raise Unsupported("predicate with fresh values")
    return k, t
@reg("std::any_of", "std::all_of", "std::none_of", "std::find_if")
def _(c):
    E = c.E; i, j = c.v(0).lv[0], c.v(1).lv[0]; fn = c.v(2)
    if not isinstance(i, SIter) or i.rev: raise Unsupported(c.f["qn"])
    k, t = pred_term(E, fn, i.loc, c.fr, c.e); dom = z3.And(z3.ULE(i.idx, k), z3.ULT(k, j.idx)); n = c.f["n"]
    if n == "find_if":
        r = fresh("find_if", I64)
        E.assume(z3.And(z3.ULE(i.idx, r), z3.ULE(r, j.idx), z3.Or(r == j.idx, z3.substitute(t, (k, r)))))
        E.assume(z3.ForAll([k], z3.Implies(z3.And(z3.ULE(i.idx, k), z3.ULT(k, r)), z3.Not(t))))
        return Val(shape_of(c.ret), [SIter(i.loc, r)])
    b = z3.Bool(fresh_name(n)); w = fresh("wit", I64); body = z3.Not(t) if n == "all_of" else t
    some = z3.And(z3.ULE(i.idx, w), z3.ULT(w, j.idx), z3.substitute(body, (k, w)))
    none = z3.ForAll([k], z3.Implies(dom, z3.Not(body)))
    E.assume(If(b if n == "any_of" else z3.Not(b), some, none))
    return E.boolv(b)
@reg("std::find")
def _(c):
    E = c.E; i, j = c.v(0).lv[0], c.v(1).lv[0]; x = c.v(2)
    if not isinstance(i, SIter): raise Unsupported("std::find")
    v = E.load(i.loc); r = fresh("find", I64); k = z3.Const(fresh_name("k"), I64)
    at = (lambda q: sat(v.t, q)) if v.sh.kind == "str" else (lambda q: sel(v.lv[-1], q))
    if z3.is_bv(x.t) and at(r).size() < x.t.size(): raw, sg = at, getattr(v.sh.elem, "sg", False) if v.sh.kind != "str" else True; at = lambda q: resize(raw(q), x.t.size(), sg)
    E.assume(z3.And(z3.ULE(i.idx, r), z3.ULE(r, j.idx), z3.Or(r == j.idx, at(r) == x.t)))
    E.assume(z3.ForAll([k], z3.Implies(z3.And(z3.ULE(i.idx, k), z3.ULT(k, r)), at(k) != x.t)))
    return Val(shape_of(c.ret), [SIter(i.loc, r)])
@reg("std::count")
def _(c): return c.E.fresh_val(shape_of(c.ret), "count")
@reg("std::copy", "std::copy_n")
def _(c):
    E = c.E; a = c.v(0); d = c.v(2); i, j = a, c.v(1)
    if c.f["n"] == "copy_n":
        n = resize(j.t, 64, j.sh.sg)
        if j.sh.sg: n = If(n < 0, bv(0), n)
        n = fold(n, j.t)
        if a.sh.kind == "iter" and isinstance(a.lv[0], SIter): src = seq_arrays(E, E.load(a.lv[0].loc))[0]; so = a.lv[0].idx; E.bounds_range(a.lv[0].loc, so, n)
        elif a.sh.kind == "parr": so = a.lv[1]; src = bytes_at(E, a.lv[0], so, n)
        else: raise Unsupported("copy_n")
    elif a.sh.kind == "iter" and isinstance(a.lv[0], SIter): src = seq_arrays(E, E.load(a.lv[0].loc))[0]; so = a.lv[0].idx; n = j.lv[0].idx - so; E.bounds_range(a.lv[0].loc, so, n)
    elif a.sh.kind == "parr": so = a.lv[1]; n = j.lv[1] - so; src = bytes_at(E, a.lv[0], so, n)
    else: raise Unsupported("std::copy")
    if d.sh.kind == "parr": dst_write(E, d.lv[0], d.lv[1], src, so, n); return Val(d.sh, [d.lv[0], d.lv[1] + n])
    if d.sh.kind == "iter" and isinstance(d.lv[0], SIter): dst_write(E, d.lv[0].loc, d.lv[0].idx, src, so, n); return Val(d.sh, [SIter(d.lv[0].loc, d.lv[0].idx + n)])
    if d.sh.kind == "iter" and isinstance(d.lv[0], tuple) and d.lv[0][0] == "back":
        l = d.lv[0][1]; v = E.load(l)
        if v.sh.kind == "str": E.store(l, E.strv(scat(v.t, smk(src, so, n)))); return d
        E.store(l, Val(v.sh, [v.lv[0] + n, splice(E, v.lv[1], v.lv[0], src, so, n)])); return d
    raise Unsupported("std::copy")
@reg("std::back_inserter")
def _(c): return Val(shape_of(c.ret), [("back", c.args[0])])
@reg("std::sort", "std::stable_sort")
def _(c): raise Unsupported("sort")
@reg("std::fill")
def _(c): raise Unsupported("fill")
@reg("std::function::ctor")
def _(c):
    v = c.v(0) if c.n else None
    if v is None or v.sh.kind == "ref": return Val(loc_sh(c.this), [null])
    return Val(loc_sh(c.this), [v.lv[0]])
@reg("std::function::operator=")
def _(c):
    v = c.v(0); c.E.store(c.this, Val(loc_sh(c.this), [v.lv[0] if v.lv else null])); return c.this
@reg("std::function::operator bool")
def _(c):
    v = c.E.load(c.this).lv[0]
    return c.E.boolv(Not(c.E.ptr_eq(v, null)))
@reg("std::bind")
def _(c): return Val(shape_of(c.ret), [PyOpaque("bind")] if shape_of(c.ret).nl() else [])

# ------------------------------------------------------------------ atomics, locks
@reg("std::atomic::operator=", "std::atomic::store")
def _(c):
    E = c.E; sh = loc_sh(c.this); v = c.v(0)
    E.store(c.this, Val(sh, v.lv)); return v
@reg("std::atomic::load")
def _(c): return c.E.load(c.this)
for _n in ("bool", "int", "unsigned int", "unsigned long", "long", "unsigned char", "unsigned short", "short", "char", "__integral_type", "std::chrono"): pass
@reg("std::atomic::ctor")
def _(c): return Val(loc_sh(c.this), c.v(0).lv) if c.n else None
def atomic_rmw(c, sg):
    E = c.E; v = E.load(c.this); d = resize(c.t(0), v.sh.w, True) if c.n and c.f["ps"][0].s != "int" or (c.n and c.f["n"] not in ("operator++", "operator--")) else bv(1, v.sh.w)
    nv = Val(v.sh, [fold(v.t + d if sg > 0 else v.t - d, v.t, d)]); E.store(c.this, nv); return v, nv
@reg("std::atomic::operator++", "std::atomic::operator--")
def _(c):
    E = c.E; v = E.load(c.this); nv = E.incdec(v, c.f["n"][8:]); E.store(c.this, nv); return v if c.n else nv
@reg("std::atomic::fetch_add")
def _(c): return atomic_rmw(c, 1)[0]
@reg("std::atomic::fetch_sub")
def _(c): return atomic_rmw(c, -1)[0]
@reg("std::atomic::operator+=")
def _(c): return atomic_rmw(c, 1)[1]
@reg("std::atomic::operator-=")
def _(c): return atomic_rmw(c, -1)[1]
@reg("std::atomic::exchange")
def _(c):
    E = c.E; v = E.load(c.this); E.store(c.this, Val(v.sh, c.v(0).lv)); return v
for cls in ("std::mutex", "std::unique_lock", "std::lock_guard", "std::shared_mutex", "std::scoped_lock", "std::condition_variable", "std::recursive_mutex", "std::timed_mutex", "std::shared_timed_mutex"):
    for m in ("lock", "unlock", "lock_shared", "unlock_shared", "notify_one", "notify_all"):
        REG[cls + "::" + m] = lambda c: None
    for m in ("try_lock", "owns_lock", "operator bool", "try_lock_shared"):
        REG[cls + "::" + m] = lambda c: c.E.fresh_val(BOOL, "lock")
    REG[cls + "::operator="] = lambda c: c.this
REG["pthread_rwlock_rdlock"] = REG["pthread_rwlock_wrlock"] = lambda c: c.E.intv(0)
# RWLockGuard / logging: effects outside every property
for q in ("RWLockGuard::wrlock", "RWLockGuard::rdlock", "RWLockGuard::unlock"): REG[q] = lambda c: None
REG["RWLockGuard::ctor"] = lambda c: None
for q in ("Logger::log", "Logger::logf", "Logger::getInstance", "Logger::queueReOpen"):
    pass
@reg("Logger::getInstance")
def _(c):
    r = z3.Const("logger", RefS); sh = shape_of(c.ret.to) if c.ret.k in ("ptr", "ref") else None
    if c.ret.k == "ptr": return Val(shape_of(c.ret), [r])
    if c.ret.k == "ref": return Loc(("H", r), (), sh, sh)
    return Val(shape_of(c.ret), [r] * shape_of(c.ret).nl())
@reg("Logger::logf", "Logger::flushAndLogNonBlocking", "Logger::setFlags", "Logger::noLongerLogToStd")
def _(c): return None
@reg("Logger::log")
def _(c):
    if c.ret is None or c.ret.k == "void": return None
    return c.E.fresh_result(c.ret, "logbuf")
@reg("StreamToLog::ctor", "StreamToLog::operator<<")
def _(c): return c.this
for q in ("std::basic_ostringstream", "std::basic_ostream", "std::basic_stringstream", "std::basic_ios", "std::basic_istringstream", "std::basic_iostream"):
    for m in ("operator<<", "flush", "put", "write", "precision", "width", "fill", "setf", "clear", "imbue", "ctor"):
        REG[q + "::" + m] = (lambda c: c.this)
    REG[q + "::str"] = lambda c: c.E.fresh_val(STR, "ostr") if c.n == 0 else None
REG["std::operator<<"] = lambda c: c.args[0]
REG["std::endl"] = lambda c: c.args[0]
REG["std::basic_ostringstream::ctor"] = lambda c: None
for q in ("std::runtime_error", "std::exception", "std::logic_error"):
    REG[q + "::ctor"] = lambda c: None
    def _what(c):
        l = c.E.temp(c.E.fresh_val(STR, "what")); return Val(shape_of(c.ret), [l, bv(0)])
    REG[q + "::what"] = _what
REG["strerror"] = lambda c: Val(shape_of(c.ret), [c.E.temp(c.E.fresh_val(STR, "strerror")), bv(0)])

# ------------------------------------------------------------------ chrono
def ratio(ty):
    """seconds per tick as (num, den) of a duration / time_point type"""
    t = ty.noref() if ty.k == "ref" else ty
    if t.qt == "std::chrono::time_point": return ratio(t.args[1])
    if t.qt == "std::chrono::duration":
        r = t.args[1]
        return (r.args[0], r.args[1])
    return None
def scale(E, t, fr, to):
    """convert tick count between periods (truncating toward zero, as duration_cast does)"""
    if fr == to: return t
    n = fr[0] * to[1]; d = fr[1] * to[0]
    from math import gcd
    g = gcd(n, d); n //= g; d //= g
    r = t
    if n != 1: r = fold(r * bv(n), r)
    if d != 1:
        if z3.is_bv_value(z3.simplify(r)): return fold(r / bv(d), r)
        # truncating division by a constant, stated through quotient and remainder (which determine it uniquely)
        q = fresh("quot", I64); m = fresh("rem", I64); E.quots.append(q); lim = bv((1 << 63) // d + 1)
        E.assume(z3.And(r == q * bv(d) + m, q <= lim, q >= -lim, m < bv(d), m > bv(-d), z3.Implies(r >= 0, z3.And(m >= 0, q >= 0)), z3.Implies(r <= 0, z3.And(m <= 0, q <= 0))))
        return q
    return r
def ticks(E, x, to):
    v = E.rv(x); f = ratio(v.sh.ty) if v.sh.ty is not None else None
    return v.t, f
@reg("std::chrono::duration::ctor", "std::chrono::time_point::ctor")
def _(c):
    E = c.E; sh = loc_sh(c.this)
    if not c.n: return Val(sh, [bv(0)])
    pt = c.f["ps"][0].noref(); v = c.v(0)
    f = ratio(pt)
    if f is None:
        if v.sh.kind == "float": return E.fresh_val(sh, "dur")
        return Val(sh, [resize(v.t, 64, v.sh.sg)])
    return Val(sh, [scale(E, v.t, f, ratio(c.f["cls"]))])
@reg("std::chrono::duration_cast", "std::chrono::time_point_cast")
def _(c): return Val(shape_of(c.ret), [scale(c.E, c.t(0), ratio(c.f["ps"][0]), ratio(c.ret))])
@reg("std::chrono::duration::count", "std::chrono::time_point::time_since_epoch")
def _(c): return Val(shape_of(c.ret), [c.E.load(c.this).t])
@reg("std::chrono::duration::zero", "std::chrono::duration_values::zero")
def _(c): return Val(shape_of(c.ret), [bv(0)])
@reg("std::chrono::time_point::min", "std::chrono::duration::min")
def _(c): return Val(shape_of(c.ret), [bv(-(1 << 63))])
@reg("std::chrono::time_point::max", "std::chrono::duration::max")
def _(c): return Val(shape_of(c.ret), [bv((1 << 63) - 1)])
def common(a, b):
    from math import gcd
    g = gcd(a[0] * b[1], b[0] * a[1]); d = a[1] * b[1]
    h = gcd(g, d); return (g // h, d // h)
@reg("std::chrono::operator-", "std::chrono::operator+")
def _(c):
    E = c.E; fa, fb = ratio(c.f["ps"][0]), ratio(c.f["ps"][1]); to = ratio(c.ret)
    a = scale(E, c.t(0), fa, to); b = scale(E, c.t(1), fb, to)
    r = a - b if c.f["n"].endswith("-") else a + b
    return Val(shape_of(c.ret), [fold(r, a, b)])
@reg("std::chrono::operator<", "std::chrono::operator>", "std::chrono::operator<=", "std::chrono::operator>=", "std::chrono::operator==", "std::chrono::operator!=", "std::chrono::operator<=>")
def _(c):
    E = c.E; fa, fb = ratio(c.f["ps"][0]), ratio(c.f["ps"][1]); op = c.f["n"][8:]
    a, b = c.t(0), c.t(1)
    if fa != fb:
        to = common(fa, fb); a = scale(E, a, fa, to); b = scale(E, b, fb, to)
    if op == "<=>": return Val(shape_of(c.ret), [If(a == b, bv(0, 8), If(a < b, bv(-1, 8), bv(1, 8)))])
    return E.boolv(fold({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op], a, b))
@reg("std::chrono::operator*", "std::chrono::operator/", "std::chrono::operator%")
def _(c):
    E = c.E; op = c.f["n"][8:]; fa = ratio(c.f["ps"][0]); fb = ratio(c.f["ps"][1]) if len(c.f["ps"]) > 1 else None
    a, b = c.v(0), c.v(1); x = a.t; y = b.t
    if a.sh.kind == "float" or b.sh.kind == "float": return E.fresh_val(shape_of(c.ret), "durmul")
    if x.size() != 64: x = resize(x, 64, a.sh.sg)
    if y.size() != 64: y = resize(y, 64, b.sh.sg)
    if fa and fb and op in "/%":
        to = common(fa, fb); x = scale(E, x, fa, to); y = scale(E, y, fb, to)
    elif fa and shape_of(c.ret).kind == "int" and ratio(c.ret) and op != "*": x = scale(E, x, fa, ratio(c.ret))
    r = {"*": x * y, "/": x / y, "%": z3.SRem(x, y)}[op]
    return Val(shape_of(c.ret), [fold(r, x, y)])
@reg("std::chrono::duration::operator+=", "std::chrono::duration::operator-=", "std::chrono::time_point::operator+=", "std::chrono::time_point::operator-=")
def _(c):
    E = c.E; v = E.load(c.this); d = scale(E, c.t(0), ratio(c.f["ps"][0]), ratio(c.f["cls"]))
    E.store(c.this, Val(v.sh, [v.t + d if "+" in c.f["n"] else v.t - d])); return c.this
@reg("std::chrono::duration::operator=", "std::chrono::time_point::operator=")
def _(c): c.E.store(c.this, Val(loc_sh(c.this), c.v(0).lv)); return c.this
@reg("std::chrono::duration::operator++", "std::chrono::duration::operator--")
def _(c):
    E = c.E; v = E.load(c.this); E.store(c.this, E.incdec(v, c.f["n"][8:])); return c.this
@reg("std::chrono::duration::operator-")
def _(c): return Val(shape_of(c.ret), [-c.E.load(c.this).t])
CLOCKMAX = 1 << 61
@reg("std::chrono::steady_clock::now", "std::chrono::system_clock::now", "std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now")
def _(c):
    """monotone within one verified call: ghost 'now' never decreases (steady clock); at most 2^61 ns"""
    E = c.E; g = "now." + ("steady" if "steady" in c.f["qn"] else "system")
    t = fresh("now", I64); last = E.st.gh.get(g)
    E.assume(z3.And(t >= 0, t < bv(CLOCKMAX)))
    if last is not None and isinstance(last, Val) and "steady" in g: E.assume(t >= last.t)
    E.st.gh[g] = Val(int_shape(64, True), [t])
    return Val(shape_of(c.ret), [t])
GHOST_DEFAULT["now.steady"] = Val(int_shape(64, True), [bv(0)]); GHOST_DEFAULT["now.system"] = Val(int_shape(64, True), [bv(0)])
@reg("time", "std::time")
def _(c): return c.E.fresh_val(shape_of(c.ret), "time")

# ------------------------------------------------------------------ SSE intrinsics (128-bit vectors)
def by(t, i): return z3.Extract(8 * i + 7, 8 * i, t)
def simd_ret(c, bs): return Val(shape_of(c.ret), [z3.Concat(*reversed(bs))])
@reg("_mm_loadu_si128", "_mm_lddqu_si128")
def _(c):
    E = c.E; v = c.v(0); r = unre(v.lv[0]); o = bv(0)
    x = v.lv[0]
    while isinstance(x, Reint):
        if isinstance(x.base, Val): o = x.base.lv[1]; x = x.base.lv[0]
        else: x = x.base
    a = bytes_at(E, x, o, bv(16))
    return simd_ret(c, [sel(a, fold(o + i, o)) for i in range(16)])
@reg("_mm_store_si128", "_mm_storeu_si128")
def _(c):
    E = c.E; v = c.v(0); o = bv(0); x = v.lv[0]
    while isinstance(x, Reint):
        if isinstance(x.base, Val): o = x.base.lv[1]; x = x.base.lv[0]
        else: x = x.base
    if c.f["n"] == "_mm_store_si128" and E.check_bounds: E.prove("stored at a multiple of 16 bytes", o & 15 == 0, "bounds")
    a = z3.K(I64, bv(0, 8))
    for i in range(16):
        if not (lit(by(c.t(1), i)) and z3.simplify(by(c.t(1), i)).as_long() == 0): a = z3.Store(a, bv(i), by(c.t(1), i))
    dst_write(E, x, o, a, bv(0), bv(16))
@reg("_mm_set1_epi8")
def _(c): return simd_ret(c, [c.t(0)] * 16)
@reg("_mm_setzero_si128")
def _(c): return simd_ret(c, [bv(0, 8)] * 16)
@reg("_mm_cmpeq_epi8")
def _(c): return simd_ret(c, [If(by(c.t(0), i) == by(c.t(1), i), bv(255, 8), bv(0, 8)) for i in range(16)])
@reg("_mm_cmpgt_epi8")
def _(c): return simd_ret(c, [If(by(c.t(0), i) > by(c.t(1), i), bv(255, 8), bv(0, 8)) for i in range(16)])
@reg("_mm_cmplt_epi8")
def _(c): return simd_ret(c, [If(by(c.t(0), i) < by(c.t(1), i), bv(255, 8), bv(0, 8)) for i in range(16)])
@reg("_mm_or_si128")
def _(c): return Val(shape_of(c.ret), [c.t(0) | c.t(1)])
@reg("_mm_and_si128")
def _(c): return Val(shape_of(c.ret), [c.t(0) & c.t(1)])
@reg("_mm_movemask_epi8")
def _(c): return Val(int_shape(32, True), [z3.ZeroExt(16, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i + 7, c.t(0)) for i in reversed(range(16))]))])
@reg("_mm_cmpestri", "__builtin_ia32_pcmpestri128")
def _(c):
    E = c.E; a, la, b, lb, imm = [c.t(k) for k in range(5)]; la, imm = z3.simplify(la), z3.simplify(imm)
    if not (z3.is_bv_value(la) and z3.is_bv_value(imm) and imm.as_long() == 0 and 0 <= la.as_signed_long() <= 16): raise Unsupported("_mm_cmpestri mode")
    n = la.as_signed_long(); m = If(z3.Or(lb > 16, lb < -16), bv(16, 32), If(lb < 0, -lb, lb)); r = bv(16, 32)      # equal any, least significant index
    for j in reversed(range(16)): r = If(z3.And(z3.UGT(m, j), z3.Or(*[by(b, j) == by(a, k) for k in range(n)]) if n else z3.BoolVal(False)), bv(j, 32), r)
    return Val(int_shape(32, True), [r])
