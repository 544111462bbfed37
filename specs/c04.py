"""C04: splitting a topic into levels loses and invents nothing. The levels are checked one by one, as they are appended: level k starts one past
the separator that ended level k-1 (the first at 0), holds the bytes from there, none of them '/', and ends at a '/' or at the end of the topic."""
from fvc.spec import *
spec = Spec("C04", ["utils.cpp", "threadlocalutils.cpp"], harness="c04.cpp", harness_secs=8, trusted=["SSE intrinsics as documented by Intel"])
any = z3.BitVec("any", 64); SL = ord("/")
def follow(J, t):
    """cur: where the next level starts; count: levels so far"""
    E = J.E; J.ghost("cur", bv(0)); J.ghost("count", bv(0)); J.assume(ule(any, bv(1 << 40))); E.models = dict(E.models); old = E.models["seq::emplace_back"]; pb = E.models["seq::push_back"]
    def app(c, f):
        r = f(c); v = E.load(c.this); k = v.lv[0] - 1; x = z3.Select(v.lv[1], k); cur = J.ghost("cur"); end = cur + slen(x)
        E.prove("a level is inside the topic", z3.And(ule(cur, slen(t)), ule(slen(x), slen(t) - cur)), "call"); E.prove("with the bytes of the topic", z3.Implies(z3.And(uge(any, cur), ult(any, end)), sat(x, any - cur) == sat(t, any)), "call")
        E.prove("without a separator", z3.Implies(z3.And(uge(any, cur), ult(any, end)), sat(t, any) != SL), "call"); E.prove("up to a separator or the end", z3.Or(end == slen(t), sat(t, end) == SL), "call"); E.prove("one after the other", z3.And(k == J.ghost("count")), "call")
        J.ghost("cur", end + 1); J.ghost("count", v.lv[0]); return r
    E.models["seq::emplace_back"] = lambda c: app(c, old); E.models["seq::push_back"] = lambda c: app(c, pb)
def whole(J, t, r): J.post("the whole topic", J.ghost("cur") == slen(t) + 1); J.post("all the levels", r.lv[0] == J.ghost("count")); J.cover("several", ugt(r.lv[0], bv(1)))
def first(r, byte, off, j):
    """r is the index of the first separator of the 16 bytes at off, 16 when there is none (said at position j)"""
    return z3.And(ule(r, bv(16)), z3.Implies(ult(r, bv(16)), byte(off + r) == SL), z3.Implies(z3.And(uge(j, off), ult(j, off + r)), byte(j) != SL))
@spec.job("the index found in a block is that of its first separator")
def _(J):
    """the library model of _mm_cmpestri (equal any, least significant index) meets the contract used in splitTopic"""
    from fvc.models import REG, Call
    a = z3.Const("bytes", A8); off, j = z3.BitVecs("off j", 64); J.assume(ule(off, bv(1 << 40))); blk = z3.Concat(*[z3.Select(a, off + i) for i in reversed(range(16))]); v = lambda t, w: Val(int_shape(w, True), [t])
    class C: E = J.E; t = staticmethod(lambda k: [z3.Concat(*[bv(SL, 8)] * 16), bv(1, 32), blk, bv(16, 32), bv(0, 32)][k])
    r = REG["_mm_cmpestri"](C).lv[0]; J.post("first separator", first(z3.ZeroExt(32, r), lambda q: z3.Select(a, q), off, j)); J.cover("none", r == 16)
def blocks(J, t):
    """the buffer holds the topic (said where it is read), a block compared with the separator yields first()"""
    E = J.E; held = {}; loads = {}; cp, ld, cm = E.models["std::copy_n"], E.models["_mm_loadu_si128"], E.models["_mm_cmpestri"]; from fvc.models import unre, bytes_at, Reint
    def where(v):
        x, o = v.lv[0], v.lv[1] if len(v.lv) > 1 else bv(0)
        while isinstance(x, Reint):
            if isinstance(x.base, Val): o = x.base.lv[1]; x = x.base.lv[0]
            else: x = x.base
        return x, o
    def room(l, o, n): E.bounds_range(l, o, n)
    def store(c):
        l, o = where(c.v(0)); room(l, o, bv(16)); E.prove("stored at a multiple of 16 bytes", o & 15 == 0, "bounds"); E.havoc_loc(l)                              # whatever it leaves there
    def copy(c):
        a, n, d = c.v(0), c.v(1), c.v(2); l, do = where(d); so = a.lv[0].idx; src = E.load(a.lv[0].loc).t; n = resize(n.t, 64, n.sh.sg); E.bounds_range(a.lv[0].loc, so, n); room(l, do, n); was = E.load(l).lv[-1]; E.havoc_loc(l); now = E.load(l).lv[-1]
        held[now.get_id()] = lambda q: E.assume(z3.Select(now, q) == z3.If(z3.And(uge(q, do), ult(q, do + n)), sat(src, so + (q - do)), z3.Select(was, q))); held["last"] = held[now.get_id()]; return Val(d.sh, [d.lv[0], d.lv[1] + n]) if d.sh.kind == "parr" else Val(d.sh, [l.ext(("i", do + n), l.sh.elem)])
    def load(c): l, o = where(c.v(0)); a = bytes_at(E, l, o, bv(16)); x = z3.BitVec(fresh_name("block"), 128); loads[x.get_id()] = (x, a, o); return Val(shape_of(c.ret), [x])
    def cmp(c):
        x, a, o = loads[c.t(2).get_id()]; E.prove("compared with the separator, all 16 bytes", z3.And(c.t(0) == z3.Concat(*[bv(SL, 8)] * 16), c.t(1) == 1, c.t(3) == 16, c.t(4) == 0), "call"); r = z3.BitVec(fresh_name("index"), 32); q = z3.ZeroExt(32, r); E.assume(first(q, lambda p: z3.Select(a, p), o, any)); E.assume(first(q, lambda p: z3.Select(a, p), o, slen(t))); [held["last"](p) for p in (any, o + q)]; return Val(shape_of(c.ret), [r])
    E.models.update({"_mm_store_si128": store, "std::copy_n": copy, "_mm_loadu_si128": load, "_mm_cmpestri": cmp, "__builtin_ia32_pcmpestri128": cmp})
@spec.job("SimdUtils::splitTopic", houdini_ms=400)
def _(J):
    this = J.this("SimdUtils"); f = J.fn("SimdUtils::splitTopic"); a = J.args(f); E = J.E; t = J.val(a[0]).t; J.assume(ule(slen(t), bv(65535))); follow(J, t); J.set(this, "slashes", to=z3.Concat(*[bv(SL, 8)] * 16))
    blocks(J, t)
    def gen(E, ctx):
        out = []; cur = J.ghost("cur")
        for v in E.st.L.values():
            if isinstance(v, Val) and v.sh.kind == "vec" and v.lv[1].sort().range() == StrS: out.append(("counted", v.lv[0] == J.ghost("count")))
        for m in ctx.ints(64): out += [("the level starts here", m.h == cur), ("inside", z3.And(ule(cur, m.h), ule(m.h, slen(t)))), ("no separator so far", z3.Implies(z3.And(ule(cur, any), ult(any, m.h)), sat(t, any) != SL))]
        return out + [("the next starts inside", ule(cur, slen(t)))]
    E.loop_specs.append(gen)
    r = J.run(f, this, a); whole(J, t, r)
@spec.job("splitTopic")
def _(J):
    f = J.fn("splitTopic"); a = J.args(f); E = J.E; t = J.val(a[0]).t; lim = z3.BitVec("lim", 64); keep = []
    E.contracts["ThreadGlobals::getSettings"] = lambda E, c: E.fresh_result(c.ret, "settings")
    def simd(E, c): v = E.fresh_val(shape_of(c.ret), "levels"); keep.append(v); E.prove("of this topic", E.rv(c.args[0]).t == t, "call"); E.maybe_throw(z3.Bool("too_long"), "std::runtime_error"); return v
    E.contracts["SimdUtils::splitTopic"] = simd; J.on_throws(lambda ety, val: None); ok, r = J.run_any(f, None, a); E.age_idx = [any]
    if ok: J.post("those levels", z3.And(r.lv[0] == keep[0].lv[0], z3.Implies(ult(any, r.lv[0]), z3.Select(r.lv[1], any) == z3.Select(keep[0].lv[1], any))))
