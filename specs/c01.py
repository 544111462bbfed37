"""C01: variable byte integers."""
from fvc.spec import *
spec = Spec("C01", ["variablebyteint.cpp", "mqttpacket.cpp", "mqtt5properties.cpp"], harness="c01.cpp", harness_secs=20)
MAX = 268435455

def enc(x):
    """MQTT encoding of the 32-bit term x: (length as 8-bit, [4 bytes])"""
    n = z3.If(ult(x, bv(128, 32)), bv(1, 8), z3.If(ult(x, bv(16384, 32)), bv(2, 8), z3.If(ult(x, bv(2097152, 32)), bv(3, 8), bv(4, 8))))
    bs = []
    for i in range(4):
        d = z3.Extract(7, 0, z3.LShR(x, bv(7 * i, 32))) & bv(127, 8)
        bs.append(z3.If(ult(bv(i + 1, 8), n), d | bv(128, 8), d))
    return n, bs
def dec(at, pos, size):
    """(accepted, value, bytes consumed) of the encoding that starts at pos"""
    r = (FALSE, bv(0), bv(0))
    b = [at(pos + bv(i)) for i in range(4)]
    more = [z3.Extract(7, 7, x) == bv(1, 1) for x in b]
    val = [z3.ZeroExt(56, x & bv(127, 8)) << bv(7 * i) for i, x in enumerate(b)]
    for i in (3, 2, 1, 0):
        acc = z3.And(ult(pos, size), ult(bv(i), size - pos))
        v = val[0]
        for k in range(1, i + 1): v = v | val[k]
        stop = (acc, v, bv(i + 1))
        cont = (z3.And(acc, r[0]), r[1], r[2])
        r = tuple(z3.If(more[i], c, s) for c, s in zip(cont, stop))
    return r

@spec.job("VariableByteInt::operator=(uint32_t)", exhaust=8, bounds=True)
def _(J):
    f = J.fn("VariableByteInt::operator=", ["unsigned int"]); this = J.this("VariableByteInt")
    x = J.sym("unsigned int", "x"); J.hint("x", x.t)
    r, _v = J.run_any(f, this, [x])
    if r:
        ln = J.f(this, "len"); arr = J.f(this, "bytes"); n, bs = enc(x.t)
        J.cover("an encodable value is encoded")
        J.post("only values up to 268435455 are encoded", ule(x.t, bv(MAX, 32)))
        J.post("encoding has the shortest length", ln == n)
        for i in range(4): J.post("encoded byte %d" % i, z3.Implies(ult(bv(i, 8), n), z3.Select(arr, bv(i)) == bs[i]))
        ok, v, k = dec(lambda p: z3.Select(arr, p), bv(0), z3.ZeroExt(56, ln))
        J.post("lemma: what was encoded decodes to the same value", z3.And(ok, v == z3.ZeroExt(32, x.t), k == z3.ZeroExt(56, ln)))
    J.on_throws(lambda e, v: J.post("only values above 268435455 are refused", ugt(x.t, bv(MAX, 32))))

@spec.job("VariableByteInt(uint32_t)", exhaust=8)
def _(J):
    f = J.fn("VariableByteInt::VariableByteInt", ["unsigned int"]); this = J.this("VariableByteInt"); x = J.sym("unsigned int", "x"); J.hint("x", x.t)
    r, _v = J.run_any(f, this, [x])
    if r:
        n, bs = enc(x.t); J.post("constructed length", J.f(this, "len") == n)
        for i in range(4): J.post("constructed byte %d" % i, z3.Implies(ult(bv(i, 8), n), z3.Select(J.f(this, "bytes"), bv(i)) == bs[i]))
        J.post("constructed only from encodable values", ule(x.t, bv(MAX, 32)))
    J.on_throws(lambda e, v: J.post("refused only if too big", ugt(x.t, bv(MAX, 32))))

@spec.job("VariableByteInt accessors")
def _(J):
    this = J.this("VariableByteInt")
    ln = J.f(this, "len")
    for q in ("VariableByteInt::getLen", "VariableByteInt::size"):
        v = J.run(q, this, []); J.post(q + " is the encoded length", z3.ZeroExt(64 - v.t.size(), v.t) == z3.ZeroExt(56, ln) if v.t.size() < 64 else v.t == z3.ZeroExt(56, ln))
    v = J.run("VariableByteInt::data", this, [])
    b = J.rv(J.E.deref(v))
    J.post("data() points at the first encoded byte", b.t == z3.Select(J.f(this, "bytes"), bv(0)))
    J.post("data() then walks the encoded bytes", J.rv(J.E.mem_at(v.lv[0], v.lv[1] + bv(3), J.ty("char"))).t == z3.Select(J.f(this, "bytes"), bv(3)))

@spec.job("MqttPacket::decodeVariableByteIntAtPos", exhaust=8, bounds=True)
def _(J):
    f = J.fn("MqttPacket::decodeVariableByteIntAtPos"); this = J.this("MqttPacket")
    bites = J.E.load(this.fld("bites")); pos = J.f(this, "pos"); size = bites.lv[0]; a = bites.lv[1]
    J.assume(ule(pos, bv(1 << 40)))
    J.hint("pos", pos); J.hint("size", size)
    for i in range(6): J.hint("b%d" % i, z3.Select(a, pos + bv(i)))
    ok, val, n = dec(lambda p: z3.Select(a, p), pos, size)
    r, v = J.run_any(f, this, [])
    if r:
        J.cover("a valid encoding is accepted")
        J.post("accepted only if valid and inside the packet", ok)
        J.post("decoded value", v.t == val); J.post("consumes exactly the encoding", J.f(this, "pos") == pos + n)
        J.post("packet bytes unchanged", z3.And(J.E.load(this.fld("bites")).lv[0] == size, J.E.load(this.fld("bites")).lv[1] == a))
    def th(e, v):
        J.post("rejected only if malformed or truncated", z3.Not(ok))
        J.post("rejection is a protocol error", z3.BoolVal("ProtocolError" in exname(e)))
    J.on_throws(th)

@spec.job("VariableByteInt::readIntoBuf")
def _(J):
    f = J.fn("VariableByteInt::readIntoBuf"); this = J.this("VariableByteInt"); args = J.args(f)
    seen = []
    def wr(E, c):
        b, e = c.v(0).lv[0], c.v(1).lv[0]
        if not isinstance(b, SIter):  # plain pointers
            seen.append((c.v(0), c.v(1), c.this))
        else: seen.append((b, e, c.this))
        return None
    J.E.contracts["CirBuf::writerange"] = wr
    J.E.contracts["CirBuf::write"] = lambda E, c: seen.append((c.v(0), c.t(1), c.this))
    J.run(f, this, args)
    if len(seen) != 1: raise Unsupported("expected one buffer write")
    b, e, buf = seen[0]
    def at(p, i):
        if isinstance(p, SIter): return J.rv(J.E.iter_deref(SIter(p.loc, p.idx + bv(i)))).t
        return J.rv(J.E.mem_at(p.lv[0], p.lv[1] + bv(i), J.ty("char"))).t
    n = e.idx - b.idx if isinstance(e, SIter) else e.lv[1] - b.lv[1] if isinstance(e, Val) else e
    J.post("writes as many bytes as the encoding has", n == z3.ZeroExt(56, J.f(this, "len")))
    for i in range(4): J.post("writes encoded byte %d" % i, at(b, i) == z3.Select(J.f(this, "bytes"), bv(i)))

@spec.job("MqttPacket::writeVariableByteInt", exhaust=8, bounds=True)
def _(J):
    f = J.fn("MqttPacket::writeVariableByteInt"); this = J.this("MqttPacket"); a = J.args(f)
    v = a[0]; ln = J.f(v, "len"); arr = J.f(v, "bytes"); J.assume(ule(ln, bv(4, 8)))
    b0 = J.E.load(this.fld("bites")); pos = J.f(this, "pos"); J.assume(ule(pos, bv(1 << 40)))
    n = z3.ZeroExt(56, ln)
    r, _v = J.run_any(f, this, a)
    if r:
        b1 = J.E.load(this.fld("bites")); j = z3.Const("j", I64)
        J.cover("written")
        J.post("position advances by the encoded length", J.f(this, "pos") == pos + n)
        J.post("written only if it fits", ule(pos + n, b0.lv[0]))
        J.post("packet size unchanged", b1.lv[0] == b0.lv[0])
        J.post("packet receives exactly the encoded bytes", z3.ForAll([j], z3.Select(b1.lv[1], j) == z3.If(z3.And(ule(pos, j), ult(j, pos + n)), z3.Select(arr, j - pos), z3.Select(b0.lv[1], j))))
    J.on_throws(lambda e, v: J.post("refused only if it does not fit", ugt(pos + n, b0.lv[0])))

@spec.job("Mqtt5PropertyBuilder::writeVariableByteInt", exhaust=8, bounds=True)
def _(J):
    f = J.fn("Mqtt5PropertyBuilder::writeVariableByteInt"); this = J.this("Mqtt5PropertyBuilder")
    prop = J.sym(f.params[0]["t"], "prop"); x = J.sym("unsigned int", "x"); J.hint("x", x.t)
    b0 = J.E.load(this.fld("bytes")); n, bs = enc(x.t)
    r, _v = J.run_any(f, this, [prop, x])
    if r:
        b1 = J.E.load(this.fld("bytes")); j = z3.Const("j", I64); s = b0.lv[0]
        J.post("appends identifier and encoding", b1.lv[0] == s + 1 + z3.ZeroExt(56, n))
        J.post("property identifier byte", z3.Select(b1.lv[1], s) == (z3.Extract(7, 0, prop.t) if prop.t.size() > 8 else prop.t))
        for i in range(4): J.post("appended byte %d" % i, z3.Implies(ult(bv(i, 8), n), z3.Select(b1.lv[1], s + 1 + i) == bs[i]))
        J.post("earlier properties untouched", z3.ForAll([j], z3.Implies(ult(j, s), z3.Select(b1.lv[1], j) == z3.Select(b0.lv[1], j))))
    J.on_throws(lambda e, v: J.post("refused only above the maximum", ugt(x.t, bv(MAX, 32))))
