"""C34: address ranges."""
from fvc.spec import *
spec = Spec("C34", ["network.cpp", "utils.cpp"], harness="c34.cpp", harness_secs=10, trusted=["inet_net_pton(AF_INET) / inet_pton(AF_INET6): write the parsed address, return prefix length / success"])
def bswap(t):
    n = t.size() // 8
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, t) for i in range(n)]) if n > 1 else t
def pmask(m, w):
    """host-order prefix mask of m bits (m: w-bit term)"""
    ones = z3.BitVecVal((1 << w) - 1, w)
    return z3.If(uge(m, bv(w, w)), ones, ~z3.LShR(ones, m))
def be(arr, off, n):
    """n bytes from arr at off as a big-endian number"""
    return z3.Concat(*[z3.Select(arr, off + i) for i in range(n)])
def sockaddr(J, name="addr", size=28):
    """pointer to raw socket address bytes"""
    r = z3.Const(name, RefS); J.assume(r != null); J.assume(age(r) <= 0)
    J.assume(uge(z3.Select(J.E.st.hmap("msize", I64), r), bv(size)))
    return r, z3.Select(J.E.st.hmap("mem:8", A8), r)

def contracts(J, rec):
    E = J.E
    def net_pton(E, c):
        r = z3.Const("maskbits", z3.BitVecSort(32)); E.assume(z3.And(r >= bv(-1, 32), r <= bv(32, 32))); rec["bits"] = r
        E.prove("inet_net_pton is given the whole address", uge(c.t(3), bv(4)), "precondition")
        a = z3.Const("net4", z3.BitVecSort(32)); rec["addr4"] = a
        d = c.v(2)
        from fvc.models import unre, bytes_value
        l = unre(d.lv[0]); E.store(l, bytes_value(l.sh, [z3.Extract(31 - 8 * i, 24 - 8 * i, a) for i in range(4)]))
        return Val(shape_of(c.ret), [r])
    def pton(E, c):
        r = z3.Const("pton", z3.BitVecSort(32)); rec["ok6"] = r
        a = z3.Const("net6", z3.BitVecSort(128)); rec["addr6"] = a
        from fvc.models import unre, bytes_value
        from fvc.models import cstr
        rec["pton_arg"] = cstr(E, c.v(1))
        l = unre(c.v(2).lv[0]); E.store(l, bytes_value(l.sh, [z3.Extract(127 - 8 * i, 120 - 8 * i, a) for i in range(16)]))
        return Val(shape_of(c.ret), [r])
    E.contracts["inet_net_pton"] = net_pton; E.contracts["inet_pton"] = pton
    E.contracts["strContains"] = lambda E, c: E.boolv(rec["dot"] if c.args and rec.setdefault("n", 0) == 0 and not rec.update(n=1) else rec["colon"])
    def stv(E, c):
        v = E.fresh_val(shape_of(c.ret), "parts"); E.assume(z3.Or(v.lv[0] == 1, v.lv[0] == 2, v.lv[0] == 3)); rec["parts"] = v
        return v
    E.contracts["splitToVector"] = stv
    def stoi(E, c):
        r = z3.Const("prefix", z3.BitVecSort(32)); b = z3.Bool("stoi_bad"); E.maybe_throw(b, "std::invalid_argument"); rec["prefix"] = r; rec["numtext"] = c.t(0)
        return Val(shape_of(c.ret), [r])
    E.contracts["std::stoi"] = stoi

@spec.job("Network::Network (IPv4)", exhaust=8)
def _(J):
    this = J.this("Network"); f = J.fn("Network::Network"); rec = dict(dot=TRUE, colon=FALSE); contracts(J, rec)
    r, _v = J.run_any(f, this, J.args(f))
    if r:
        J.cover("accepted")
        J.post("IPv4 family", J.f(this, "family") == bv(2, 16)); b = rec["bits"]
        J.post("malformed network refused", b >= bv(0, 32))
        J.post("mask has exactly the prefix bits", bswap(J.f(this, "in_mask")) == pmask(b, 32))
        J.post("stores the network address", be(J.f(this, "data"), bv(4), 4) == rec["addr4"])
    J.on_throws(lambda e, x: J.post("only malformed networks are refused", rec["bits"] < 0))

@spec.job("Network::Network (IPv6)", exhaust=8, bounds=True)
def _(J):
    this = J.this("Network"); f = J.fn("Network::Network"); rec = dict(dot=FALSE, colon=TRUE); contracts(J, rec)
    J.assume(J.f(this, "in6_mask") == z3.K(I64, bv(0, 32)))
    r, _v = J.run_any(f, this, J.args(f))
    def m128(arr): return z3.Concat(*[bswap(z3.Select(arr, bv(i))) for i in range(4)])
    if r:
        J.cover("accepted"); J.post("IPv6 family", J.f(this, "family") == bv(10, 16))
        has = rec["parts"].lv[0] == 2; p = rec.get("prefix", bv(128, 32))
        bits = z3.If(has, p, bv(128, 32))
        n = rec["parts"].lv[0]; part = lambda i: z3.Select(rec["parts"].lv[1], bv(i))
        J.post("only one optional prefix length", ule(n, bv(2)))
        J.post("the address is the part before the slash", rec["pton_arg"] == part(0))
        if "numtext" in rec: J.post("the prefix length is the part after the slash", z3.Implies(has, rec["numtext"] == part(1)))
        J.post("malformed address refused", rec["ok6"] == 1); J.post("prefix length in range", z3.And(bits >= 0, bits <= 128))
        J.post("mask has exactly the prefix bits", m128(J.f(this, "in6_mask")) == pmask(z3.ZeroExt(96, bits), 128))
        rb = J.f(this.fld("network_addr_relevant_bits").fld("__in6_u"), "__u6_addr32")
        J.post("stores exactly the prefix of the address", m128(rb) == rec["addr6"] & pmask(z3.ZeroExt(96, bits), 128))

def net(J, fam):
    this = J.this("Network"); J.assume(J.f(this, "family") == bv(fam, 16)); return this
@spec.job("Network::match", exhaust=8, bounds=True)
def _(J):
    this = J.this("Network"); f = J.fn("Network::match", ["const sockaddr *"])
    r, mem = sockaddr(J); fam = z3.Concat(z3.Select(mem, bv(1)), z3.Select(mem, bv(0)))
    n4 = z3.Const("net4", z3.BitVecSort(32)); k = z3.Const("prefix", z3.BitVecSort(32)); n6 = z3.Const("net6", z3.BitVecSort(128))
    fv = J.f(this, "family")
    # what the constructor establishes
    J.assume(z3.Or(fv == 2, fv == 10))
    J.assume(z3.Implies(fv == 2, z3.And(ule(k, bv(32, 32)), bswap(J.f(this, "in_mask")) == pmask(k, 32), be(J.f(this, "data"), bv(4), 4) == n4)))
    def m128(arr): return z3.Concat(*[bswap(z3.Select(arr, bv(i))) for i in range(4)])
    k6 = pmask(z3.ZeroExt(96, k), 128)
    rb = J.f(this.fld("network_addr_relevant_bits").fld("__in6_u"), "__u6_addr32")
    J.assume(z3.Implies(fv == 10, z3.And(ule(k, bv(128, 32)), m128(J.f(this, "in6_mask")) == k6, m128(rb) == n6 & k6)))
    p = Val(shape_of(f.params[0]["t"]), [r])
    res = J.run(f, this, [p])
    a4 = be(mem, bv(4), 4); a6 = be(mem, bv(8), 16)
    J.post("matches iff same family and equal prefix bits (IPv4)", z3.Implies(fv == 2, res.t == z3.And(fam == 2, (a4 ^ n4) & pmask(k, 32) == 0)))
    J.post("matches iff same family and equal prefix bits (IPv6)", z3.Implies(fv == 10, res.t == z3.And(fam == 10, (a6 ^ n6) & k6 == 0)))
for t in ("sockaddr_in ", "sockaddr_in6 "):
    @spec.job("Network::match(%s*)" % t)
    def _(J, t=t):
        this = J.this("Network"); f = J.fn("Network::match", ["const " + t]); r, mem = sockaddr(J); got = []
        def m(E, c): got.append((c.this, c.v(0))); v = E.fresh_val(BOOL, "m"); got.append(v); return v
        J.E.contracts[J.fn("Network::match", ["const sockaddr *"]).id] = m
        res = J.run(f, this, [Val(shape_of(f.params[0]["t"]), [r])])
        J.post("is the match of the same address", z3.And(res.t == got[1].t, got[0][1].lv[0] == r) if len(got) == 2 else FALSE)
