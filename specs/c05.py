"""C05: ring buffers are loss-less FIFO queues."""
from cirbuf_c import *
spec = Spec("C05", ["cirbuf.cpp", "variablebyteint.cpp"], harness="c05.cpp", harness_secs=40, sanitize=True, note="doubleCapacity, ensureFreeSpace, write and read* are proved per capacity 2^k: the quick command takes k in {0,1,2,5,9,16,24,31}, the thorough command all 32 values. write(ptr,count) is proved for capacities up to 2^20 (quick: {0,1,2,5,9,16}); above that only its building blocks maxWriteSize, headPtr and advanceHead are proved, its loop is a bounded check")
K = [None]
QUICK = (0, 1, 2, 5, 9, 16, 24, 31)   # capacities 2^k checked by the quick command for the functions proved per capacity; thorough does all 32
def setup(J, k=None):
    """arbitrary ring satisfying the invariant; in split jobs the capacity is 2^k (the invariant says it is a power of two <= 2^31, so the 32 jobs cover every ring)"""
    this = J.this("CirBuf")
    if K[0] is not None: J.set(this, "size", to=bv(1 << K[0], 32))
    v = view(J, this); J.assume(inv(v)); return this, v
def each(name, split=False, **kw):
    def d(f):
        if not split: spec.job(name, bounds=True, **kw)(f); return f
        for k in range(32):
            def g(J, k=k):
                K[0] = k
                try: f(J)
                finally: K[0] = None
            spec.job(name + " [capacity 2^%d]" % k, bounds=True, tier=None if k in QUICK else "thorough", **kw)(g)
        return f
    return d
def post_inv(J, this, k=None):
    w = view(J, this); J.post("ring invariant holds afterwards", inv(w)); return w

@each("CirBuf::usedBytes / freeSpace")
def _(J):
    this, v = setup(J)
    u = J.run("CirBuf::usedBytes", this, []); f = J.run("CirBuf::freeSpace", this, [])
    J.post("used is the number of buffered bytes", u.t == v["used"])
    J.post("used plus free is capacity minus one", u.t + f.t == v["size"] - 1); J.post("free below capacity", ult(f.t, v["size"]))
    J.post("getCapacity", J.run("CirBuf::getCapacity", this, []).t == v["size"])

@each("CirBuf::maxWriteSize")
def _(J):
    this, v = setup(J); w = J.run("CirBuf::maxWriteSize", this, []).t; free = v["size"] - 1 - v["used"]
    J.post("contiguous write room fits in the free space", ule(w, free))
    J.post("contiguous write room stays inside the buffer", ule(z3.ZeroExt(32, w) + z3.ZeroExt(32, v["head"]), z3.ZeroExt(32, v["size"])))
    J.post("is positive when there is room", z3.Implies(free != 0, w != 0))
    J.post("reaches the end of the buffer or all free space", z3.Or(w == free, w + v["head"] == v["size"]))

@each("CirBuf::maxReadSize")
def _(J):
    this, v = setup(J); r = J.run("CirBuf::maxReadSize", this, []).t
    J.post("contiguous read room holds buffered bytes only", ule(r, v["used"]))
    J.post("contiguous read room stays inside the buffer", ule(z3.ZeroExt(32, r) + z3.ZeroExt(32, v["tail"]), z3.ZeroExt(32, v["size"])))
    J.post("is positive when something is buffered", z3.Implies(v["used"] != 0, r != 0))
    J.post("reaches the end of the buffer or all bytes", z3.Or(r == v["used"], r + v["tail"] == v["size"]))

@each("CirBuf::headPtr / tailPtr")
def _(J):
    this, v = setup(J)
    h = J.run("CirBuf::headPtr", this, []); t = J.run("CirBuf::tailPtr", this, [])
    J.post("head pointer", z3.And(h.lv[0] == v["ref"], h.lv[1] == z3.ZeroExt(32, v["head"])))
    J.post("tail pointer", z3.And(t.lv[0] == v["ref"], t.lv[1] == z3.ZeroExt(32, v["tail"])))

@each("CirBuf::advanceHead")
def _(J):
    this, v = setup(J); n = J.sym("unsigned int", "n"); J.hint("n", n.t)
    r, _v = J.run_any("CirBuf::advanceHead", this, [n]); free = v["size"] - 1 - v["used"]
    if r:
        w = post_inv(J, this); i = z3.Const("i", I64)
        J.post("only what is free can be added", ule(n.t, free)); J.post("used grows by n", w["used"] == v["used"] + n.t)
        J.post("buffered bytes keep their order", z3.ForAll([i], z3.Implies(ult(i, z3.ZeroExt(32, v["used"])), at(w, i) == at(v, i))))
        J.post("capacity unchanged", z3.And(w["size"] == v["size"], w["ref"] == v["ref"]))
        J.post("the new bytes are those at the old head", z3.ForAll([i], z3.Implies(ult(i, z3.ZeroExt(32, n.t)), at(w, z3.ZeroExt(32, v["used"]) + i) == z3.Select(v["mem"], z3.ZeroExt(32, (v["head"] + z3.Extract(31, 0, i)) & (v["size"] - 1))))))
    J.on_throws(lambda e, x: J.post("refused only if there is no room", ugt(n.t, free)))

@each("CirBuf::advanceTail")
def _(J):
    this, v = setup(J); n = J.sym("unsigned int", "n")
    r, _v = J.run_any("CirBuf::advanceTail", this, [n])
    if r:
        w = post_inv(J, this); i = z3.Const("i", I64); u = z3.ZeroExt(32, w["used"])
        J.post("only what is buffered can be dropped", ule(n.t, v["used"])); J.post("used shrinks by n", w["used"] == v["used"] - n.t)
        J.post("the rest follows in order", z3.ForAll([i], z3.Implies(ult(i, u), at(w, i) == at(v, i + z3.ZeroExt(32, n.t)))))
        J.post("capacity unchanged", z3.And(w["size"] == v["size"], w["ref"] == v["ref"]))
    J.on_throws(lambda e, x: J.post("refused only if not that many are buffered", ugt(n.t, v["used"])))

@each("CirBuf::peakAhead")
def _(J):
    this, v = setup(J); o = J.sym("unsigned int", "o")
    r, x = J.run_any("CirBuf::peakAhead", this, [o])
    if r:
        w = view(J, this); J.post("peeks the o-th buffered byte", x.t == at(v, z3.ZeroExt(32, o.t))); J.post("only buffered bytes", ult(o.t, v["used"]))
        J.post("consumes nothing", z3.And(same_content(v, w), w["tail"] == v["tail"], w["head"] == v["head"]))
    J.on_throws(lambda e, x: J.post("refused only outside the buffered bytes", uge(o.t, v["used"])))

@each("CirBuf::doubleCapacity", split=True)
def _(J):
    this, v = setup(J); f = J.sym("unsigned int", "factor"); J.assume(z3.And(f.t & (f.t - 1) == 0, f.t != 0))
    J.hint("factor", f.t); J.hint("size", v["size"]); J.hint("used", v["used"]); J.hint("tail", v["tail"])
    r, _v = J.run_any("CirBuf::doubleCapacity", this, [f])
    if r:
        J.cover("grows")
        ns = J.f(this, "size"); s = v["size"]
        J.lemma("new size is a power of two", z3.And(ns & (ns - 1) == 0, ns != 0)); J.lemma("new size is at least the old size", ule(s, ns))
        J.lemma("new size is the product", ns == s * f.t); J.lemma("old positions stay in place", (ns - 1) & (s - 1) == s - 1)
        w = post_inv(J, this); J.post("no byte lost, order kept", same_content(v, w))
        J.post("capacity multiplied", z3.ZeroExt(32, w["size"]) == z3.ZeroExt(32, v["size"]) * z3.ZeroExt(32, f.t))
    def th(e, x):
        w = view(J, this); J.post("a failed growth leaves the buffer intact", z3.And(same_content(v, w), inv(w)))
    J.on_throws(th)

def c_double(J, this_of=None):
    """contract of doubleCapacity at call sites"""
    def h(E, c):
        this = c.this; f = c.t(0); v = view(J, this)
        E.prove("doubleCapacity precondition: factor is a power of two", z3.And(f & (f - 1) == 0, f != 0), "precondition")
        big = ugt(z3.ZeroExt(32, v["size"]) * z3.ZeroExt(32, f), bv(1 << 31))
        okb = z3.Bool(fresh_name("grow_ok"))
        from fvc.engine import TRUE
        t = J.prog.types.get("std::runtime_error")
        E.maybe_throw(z3.And(f != 1, z3.Or(big, z3.Not(okb))), "std::runtime_error")
        def grow():
            h_, t_, s_ = [fresh("cb_" + n, B32) for n in "hts"]; r = E.alloc("cbuf"); a = fresh("cbmem", A8)
            E.store(this.fld("head"), Val(this.fld("head").sh, [h_])); E.store(this.fld("tail"), Val(this.fld("tail").sh, [t_])); E.store(this.fld("size"), Val(this.fld("size").sh, [s_]))
            E.store(this.fld("buf"), Val(this.fld("buf").sh, [r, bv(0)]))
            E.st.H["mem:8"] = z3.Store(E.st.hmap("mem:8", A8), r, a)
            E.st.H["msize"] = z3.Store(z3.Store(E.st.hmap("msize", I64), v["ref"], bv(0)), r, z3.ZeroExt(32, s_))
            w = view(J, this); E.assume(inv(w)); E.assume(same_content(v, w)); E.assume(s_ == v["size"] * f)
            pr = this.fld("primedForSizeReset"); E.store(pr, E.boolv(FALSE))
        E.branch(f == 1, lambda: None, grow)
        return None
    return h

@each("CirBuf::ensureFreeSpace", split=True, exhaust=34)
def _(J):
    this, v = setup(J); f = J.fn("CirBuf::ensureFreeSpace"); n = J.sym("unsigned long", "n"); mx = J.sym("unsigned long", "max")
    J.hint("n", n.t); J.hint("max", mx.t); J.hint("size", v["size"]); J.hint("used", v["used"])
    J.assume(ule(n.t, bv(1 << 30))); J.assume(ule(mx.t, bv(0xffffffff)))
    J.E.contracts["CirBuf::doubleCapacity"] = c_double(J)
    r, _v = J.run_any(f, this, [n, mx])
    if r:
        J.cover("space ensured")
        w = post_inv(J, this); free = z3.ZeroExt(32, w["size"] - 1 - w["used"])
        J.post("no byte lost, order kept", same_content(v, w))
        J.post("the requested room is there unless the maximum forbids it", z3.Or(uge(free, n.t), uge(z3.ZeroExt(32, w["size"]), mx.t)))
        J.post("grows only when needed", z3.Implies(ule(n.t, z3.ZeroExt(32, v["size"] - 1 - v["used"])), z3.And(w["size"] == v["size"], w["ref"] == v["ref"])))
        J.post("the maximum is overshot by at most one doubling", z3.Or(w["size"] == v["size"], ult(z3.LShR(z3.ZeroExt(32, w["size"]), bv(1)), mx.t)))
    def th(e, x):
        w = view(J, this); J.post("a refused growth leaves the buffer intact", z3.And(same_content(v, w), inv(w)))
    J.on_throws(th)

def abstract(J):
    """ring with abstract content (C, U): its layout does not matter before ensureFreeSpace"""
    this = J.this("CirBuf"); v = view(J, this); J.assume(inv(v)); return this, v, z3.Const("content", A8), z3.ZeroExt(32, v["used"])
def c_ensure(J, C, U, k):
    """contract of ensureFreeSpace(n) (default maximum): afterwards some ring, here of capacity 2^k, with the same content C[0..U) and room for n"""
    def h(E, c):
        this = c.this; v = view(J, this); n = c.t(0)
        E.prove("ensureFreeSpace precondition: at most 1 GB at once", ule(n, bv(1 << 30)), "precondition")
        E.prove("ensureFreeSpace precondition: ring invariant", inv(v), "precondition")
        E.prove("ensureFreeSpace precondition: the default maximum", uge(c.t(1), bv(0xffffffff)), "precondition")
        E.maybe_throw(z3.Bool(fresh_name("room_failed")), "std::runtime_error")
        h_, t_ = [fresh("cb_" + x, B32) for x in "ht"]; r = E.alloc("cbuf"); a = fresh("cbmem", A8); s_ = bv(1 << k, 32)
        for nme, tm in (("head", h_), ("tail", t_), ("size", s_)): E.store(this.fld(nme), Val(this.fld(nme).sh, [tm]))
        E.store(this.fld("buf"), Val(this.fld("buf").sh, [r, bv(0)]))
        E.st.H["mem:8"] = z3.Store(E.st.hmap("mem:8", A8), r, a)
        E.st.H["msize"] = z3.Store(E.st.hmap("msize", I64), r, z3.ZeroExt(32, s_))
        w = view(J, this); E.assume(inv(w)); i = z3.Const("i", I64); E.assume(z3.ZeroExt(32, w["used"]) == U)
        E.assume(z3.ForAll([i], z3.Implies(ult(i, U), at(w, i) == z3.Select(C, i))))
        E.assume(uge(z3.ZeroExt(32, w["size"] - 1 - w["used"]), n))
        return None
    return h
def appendedC(C, U, b, n, src):
    i = z3.Const("i", I64)
    return z3.And(z3.ZeroExt(32, b["used"]) == U + n, z3.ForAll([i], z3.Implies(ult(i, U), at(b, i) == z3.Select(C, i))), z3.ForAll([i], z3.Implies(ult(i, n), at(b, U + i) == src(i))))
def post_appended(J, C, U, b, n, src):
    i = z3.Const("i", I64)
    J.post("the buffered count grows by the written count", z3.ZeroExt(32, b["used"]) == U + n)
    J.post("buffered bytes keep their order", z3.ForAll([i], z3.Implies(ult(i, U), at(b, i) == z3.Select(C, i))))
    J.post("appends exactly the given bytes in order", z3.ForAll([i], z3.Implies(ult(i, n), at(b, U + i) == src(i))))
def abs_job(name, maxk=31, **kw):
    def d(f):
        for k in range(maxk + 1): spec.job(name + " [capacity 2^%d after ensureFreeSpace]" % k, bounds=True, tier=None if k in QUICK else "thorough", **kw)(lambda J, k=k: f(J, k))
    return d

def job_write(name, params, nbytes):
    @abs_job(name)
    def _(J, k):
        this, v, C, U = abstract(J); f = J.fn("CirBuf::write", params); J.E.contracts["CirBuf::ensureFreeSpace"] = c_ensure(J, C, U, k)
        bs = [J.sym("unsigned char", "b%d" % i) for i in range(nbytes)]
        r, _v = J.run_any(f, this, bs)
        if r:
            w = post_inv(J, this)
            def src(i):
                t = bs[-1].t
                for k in range(nbytes - 2, -1, -1): t = z3.If(i == k, bs[k].t, t)
                return t
            post_appended(J, C, U, w, bv(nbytes), src)
job_write("CirBuf::write(b)", ["unsigned char"], 1)
job_write("CirBuf::write(b,b2)", ["unsigned char", "unsigned char"], 2)

@abs_job("CirBuf::write(ptr,count)", maxk=20, exhaust=4, timeout=60)
def _(J, k):
    this, v, C, U = abstract(J); f = J.fn("CirBuf::write", ["void", "unsigned long"]); J.E.contracts["CirBuf::ensureFreeSpace"] = c_ensure(J, C, U, k)
    n = J.sym("unsigned long", "count"); J.assume(ule(n.t, bv(1 << 30))); a = J.args(f, count=n)
    p = a[0]; src0 = z3.Select(J.E.st.hmap("mem:8", A8), p.lv[0]); off = p.lv[1]
    J.assume(p.lv[0] != v["ref"]); J.assume(p.lv[0] != null); J.assume(ule(off, bv(1 << 40))); J.assume(age(p.lv[0]) <= 0)
    sz = z3.Select(J.E.st.hmap("msize", I64), p.lv[0]); J.assume(ule(off + n.t, sz)); J.assume(ule(sz, bv(1 << 50)))
    r, _v = J.run_any(f, this, a)
    if r:
        w = post_inv(J, this)
        post_appended(J, C, U, w, n.t, lambda i: z3.Select(src0, off + i))

@each("CirBuf::readToVector", split=True, exhaust=4, timeout=60)
def _(J):
    this, v = setup(J); mx = J.sym("unsigned int", "max")
    r, out = J.run_any("CirBuf::readToVector", this, [mx])
    n = z3.If(ult(mx.t, v["used"]), mx.t, v["used"]); N = z3.ZeroExt(32, n)
    if r:
        w = post_inv(J, this); i = z3.Const("i", I64); u = z3.ZeroExt(32, w["used"]); J.cover("read")
        J.post("returns the requested number of bytes or all", out.lv[0] == N)
        J.post("returns the oldest bytes in order", z3.ForAll([i], z3.Implies(ult(i, N), z3.Select(out.lv[1], i) == at(v, i))))
        J.post("consumes exactly what it returned", z3.And(w["used"] == v["used"] - n, z3.ForAll([i], z3.Implies(ult(i, u), at(w, i) == at(v, i + N)))))
    J.on_throws(lambda e, x: J.post("reading never fails", FALSE))

@each("CirBuf::readAllToVector / peekAllToVector", split=True, exhaust=4, timeout=60)
def _(J):
    this, v = setup(J); i = z3.Const("i", I64); U = z3.ZeroExt(32, v["used"])
    out = J.run("CirBuf::peekAllToVector", this, []); w = post_inv(J, this)
    J.post("peek returns all bytes in order", z3.And(out.lv[0] == U, z3.ForAll([i], z3.Implies(ult(i, U), z3.Select(out.lv[1], i) == at(v, i)))))
    J.post("peek consumes nothing", same_content(v, w))
@each("CirBuf::readAllToVector", split=True, exhaust=4, timeout=60)
def _(J):
    this, v = setup(J); i = z3.Const("i", I64); U = z3.ZeroExt(32, v["used"])
    out = J.run("CirBuf::readAllToVector", this, []); w = post_inv(J, this)
    J.post("returns all bytes in order", z3.And(out.lv[0] == U, z3.ForAll([i], z3.Implies(ult(i, U), z3.Select(out.lv[1], i) == at(v, i)))))
    J.post("nothing is left", w["used"] == 0)

@each("CirBuf::resetCapacityIfEligable")
def _(J):
    this, v = setup(J); n = J.sym("unsigned long", "n"); J.assume(z3.And(n.t & (n.t - 1) == 0, n.t != 0, ule(n.t, bv(1 << 30))))
    r, _v = J.run_any("CirBuf::resetCapacityIfEligable", this, [n])
    if r:
        w = post_inv(J, this); J.post("never loses buffered bytes", same_content(v, w))
    def th(e, x):
        w = view(J, this); J.post("a failed reset leaves the buffer intact", z3.And(same_content(v, w), inv(w)))
    J.on_throws(th)
@each("CirBuf::resetCapacity")
def _(J):
    this, v = setup(J); n = J.sym("unsigned long", "n"); J.assume(z3.And(n.t & (n.t - 1) == 0, n.t != 0, ule(n.t, bv(1 << 30)))); J.assume(v["used"] == 0)
    r, _v = J.run_any("CirBuf::resetCapacity", this, [n])
    if r:
        w = post_inv(J, this); J.post("empty and of the requested capacity", z3.And(w["used"] == 0, z3.ZeroExt(32, w["size"]) == n.t))
@each("CirBuf::reset")
def _(J):
    this, v = setup(J); J.run("CirBuf::reset", this, []); w = post_inv(J, this); J.post("empty", w["used"] == 0); J.post("same buffer", z3.And(w["size"] == v["size"], w["ref"] == v["ref"]))
@each("CirBuf::CirBuf")
def _(J):
    this = J.this("CirBuf"); n = J.sym("unsigned long", "n"); J.assume(z3.And(n.t & (n.t - 1) == 0, n.t != 0, ule(n.t, bv(1 << 31))))
    r, _v = J.run_any("CirBuf::CirBuf", this, [n])
    if r:
        w = post_inv(J, this); J.post("starts empty with the given capacity", z3.And(w["used"] == 0, z3.ZeroExt(32, w["size"]) == n.t))
