"""Ghost model of the C stdio file used by the persistence code: content, position, size, end-of-file flag."""
from fvc.spec import *
from fvc.models import unre, is_bytes, bytes_at, dst_write, splice, value_bytes, resize
A = A8
class Ghost:
    def __init__(g, J, name="f"):
        g.J = J; E = J.E
        E.st.H["file:data"] = z3.Const(name + ".data", A); E.st.H["file:pos"] = z3.Const(name + ".pos", I64); E.st.H["file:size"] = z3.Const(name + ".size", I64)
        J.assume(ule(g.pos, bv(1 << 40))); J.assume(ule(g.size, bv(1 << 40))); J.assume(ule(g.pos, g.size))
        E.contracts["fwrite"] = g.fwrite; E.contracts["fread"] = g.fread; E.contracts["feof"] = g.feof
        E.st.H["file:eof"] = z3.BoolVal(False)
    data = property(lambda g: g.J.E.st.H["file:data"]); pos = property(lambda g: g.J.E.st.H["file:pos"]); size = property(lambda g: g.J.E.st.H["file:size"]); eof = property(lambda g: g.J.E.st.H["file:eof"])
    def put(g, k, v): g.J.E.st.H["file:" + k] = v
    def src(g, E, p, n):
        b = unre(p.lv[0]); o = p.lv[1] if len(p.lv) > 1 else bv(0)
        if is_bytes(b): return bytes_at(E, b, o, n), o
        bs = value_bytes(E.load(b)); q = z3.K(I64, bv(0, 8))
        for i, x in enumerate(bs): q = z3.Store(q, bv(i), x)
        return q, bv(0)
    def fwrite(g, E, c):
        n = resize(c.t(1), 64, False) * resize(c.t(2), 64, False); a, o = g.src(E, c.v(0), n); full = z3.Bool(fresh_name("fwrite_full")); r = fresh("fwrite", I64)
        E.assume(z3.If(full, r == c.t(2), ult(r, c.t(2))))
        j = z3.Const("j", I64); d = g.data; p = g.pos
        nd = z3.Lambda([j], z3.If(z3.And(ule(p, j), ult(j, p + n)), z3.Select(a, o + (j - p)), z3.Select(d, j)))
        if z3.is_bv_value(z3.simplify(n)) and z3.simplify(n).as_long() <= 16:
            nd = d
            for i in range(z3.simplify(n).as_long()): nd = z3.Store(nd, p + i, z3.simplify(z3.Select(a, o + i)))
        junk = fresh("partial", A); np_ = fresh("partialpos", I64)
        g.put("data", z3.If(full, nd, junk)); g.put("pos", z3.If(full, p + n, np_)); g.put("size", z3.If(full, z3.If(ult(g.size, p + n), p + n, g.size), g.size))
        return Val(shape_of(c.ret), [r])
    def fread(g, E, c):
        n = resize(c.t(1), 64, False) * resize(c.t(2), 64, False); avail = g.size - g.pos; d, p = g.data, g.pos; err = z3.Bool(fresh_name("fread_err"))
        ok = z3.And(ule(n, avail), z3.Not(err)); r = fresh("fread", I64)
        E.assume(z3.If(ok, r == c.t(2), ult(r, c.t(2)))); E.assume(z3.Implies(n == 0, z3.Not(err)))
        b = unre(c.v(0).lv[0]); o = c.v(0).lv[1] if len(c.v(0).lv) > 1 else bv(0)
        junk = fresh("short", A); src = z3.If(ok, d, junk)
        if is_bytes(b): dst_write(E, b, o, src, p, n)
        else:
            from fvc.models import bytes_value, width_of
            w = width_of(b.sh); E.store(b, bytes_value(b.sh, [z3.Select(src, p + i) for i in range(w)]))
        g.put("pos", z3.If(ok, p + n, fresh("shortpos", I64))); g.put("eof", z3.And(z3.Not(ok), z3.Not(err)))
        return Val(shape_of(c.ret), [r])
    def feof(g, E, c): return Val(shape_of(c.ret), [z3.If(g.eof, bv(1, 32), bv(0, 32))])
