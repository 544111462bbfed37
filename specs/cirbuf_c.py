"""Contracts of the ring buffer, shared by C05, C06, C31, C33: abstract content = the used bytes in read order."""
from fvc.spec import *
B32 = z3.BitVecSort(32)
def view(J, this):
    """(size, head, tail, buf, mem array, used) of the current state"""
    E = J.E
    size, head, tail = J.f(this, "size"), J.f(this, "head"), J.f(this, "tail")
    b = E.load(this.fld("buf")); ref = b.lv[0]
    mem = z3.Select(E.st.hmap("mem:8", A8), ref); off = b.lv[1]
    return dict(size=size, head=head, tail=tail, ref=ref, off=off, mem=mem, used=(head - tail) & (size - 1), msize=z3.Select(E.st.hmap("msize", I64), ref))
def at(v, i):
    """i-th (64-bit term) buffered byte"""
    return z3.Select(v["mem"], z3.ZeroExt(32, (v["tail"] + z3.Extract(31, 0, i)) & (v["size"] - 1)))
def inv(v, k=None):
    s = v["size"]
    p2 = s == bv(1 << k, 32) if k is not None else z3.And(s & (s - 1) == 0, s != 0)
    return z3.And(p2, ule(s, bv(1 << 31, 32)), ult(v["head"], s), ult(v["tail"], s), v["ref"] != null, v["off"] == 0, uge(v["msize"], z3.ZeroExt(32, s)))
def same_content(a, b):
    i = z3.Const("i", I64)
    return z3.And(b["used"] == a["used"], z3.ForAll([i], z3.Implies(ult(i, z3.ZeroExt(32, a["used"])), at(b, i) == at(a, i))))
def appended(a, b, n, src):
    """content b = content a ++ src(0..n)"""
    i = z3.Const("i", I64); u = z3.ZeroExt(32, a["used"])
    return z3.And(z3.ZeroExt(32, b["used"]) == u + n, z3.ForAll([i], z3.Implies(ult(i, u), at(b, i) == at(a, i))),
                  z3.ForAll([i], z3.Implies(ult(i, n), at(b, u + i) == src(i))))
