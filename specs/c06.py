"""C06: the packet sequence read from a connection does not depend on chunking. S is the byte stream of the connection, pos the bytes consumed, N the
bytes that have arrived: the contracts of the ring buffer (C05) seen as a stream. What is handed on depends on S and pos alone."""
from fvc.spec import *
from c01 import dec
spec = Spec("C06", ["mqttpacket.cpp", "client.cpp", "cirbuf.cpp", "iowrapper.cpp", "exceptions.cpp", "utils.cpp"], harness="c06.cpp", harness_secs=10, trusted=["contracts of CirBuf: C05"])
S = z3.Const("stream", A8); N = z3.BitVec("arrived", 64); at = lambda p: z3.Select(S, p); any = z3.BitVec("any", 64)
def stream(J):
    E = J.E; J.ghost("pos", bv(0)); J.assume(ule(N, bv((1 << 31) - 1))); left = lambda: N - J.ghost("pos")
    E.contracts["CirBuf::usedBytes"] = lambda E, c: Val(int_shape(32, False), [z3.Extract(31, 0, left())])
    def peek(E, c): o = resize(c.t(0), 64, False); E.prove("only what has arrived is looked at", ult(o, left()), "call"); return Val(shape_of(c.ret), [at(J.ghost("pos") + o)])
    E.contracts["CirBuf::peakAhead"] = peek
    def read(E, c):
        n = resize(c.t(0), 64, False); E.prove("only what has arrived is taken", ule(n, left()), "call"); v = E.fresh_val(shape_of(c.ret), "bytes"); p = J.ghost("pos"); E.assume(v.lv[0] == n)
        for q in (any, bv(0)): E.assume(z3.Implies(ult(q, n), z3.Select(v.lv[1], q) == at(p + q)))
        J.ghost("pos", p + n); return v
    E.contracts["CirBuf::readToVector"] = read; return left
def packet(p):
    """(header complete, whole length, header length) of the packet that starts at p"""
    ok, v, n = dec(at, p + 1, N); return ok, v + n + 1, n + 1
def endless(p): return z3.And(*[z3.Extract(7, 7, at(p + 1 + i)) == 1 for i in range(4)])
@spec.job("MqttPacket::bufferToMqttPackets", exhaust={"inner": 5})
def _(J):
    f = J.fn("MqttPacket::bufferToMqttPackets"); a = J.args(f); E = J.E; E.opaque_keeps = "logging"; left = stream(J); J.ghost("handed", bv(0)); snd = E.load(a[2]).lv[0]; auth, lim, acme = z3.Bool("authenticated"), z3.BitVec("limit", 32), z3.Bool("redirected"); J.ghost("count", bv(0, 32)); J.ghost("acme", FALSE)
    E.contracts["Client::getAuthenticated"] = lambda E, c: E.boolv(auth); E.contracts["Client::getMaxIncomingPacketSize"] = lambda E, c: Val(shape_of(c.ret), [lim])
    def red(E, c): r = E.fresh_val(shape_of(c.ret), "redir"); J.ghost("acme", TRUE); return r
    E.contracts["Client::tryAcmeRedirect"] = red; J.pure("Client::getConnectionProtocol", "Client::getAcmeRedirectUrl")
    def made(E, c):
        v = E.rv(c.args[0]); p = J.ghost("handed"); ok, n, h = packet(p); E.prove("the next packet, whole", z3.And(ok, J.ghost("pos") == p + n, ule(J.ghost("pos"), N), v.lv[0] == n), "call"); E.prove("exactly its bytes", z3.Implies(ult(any, n), z3.Select(v.lv[1], any) == at(p + any)), "call"); E.prove("with the length of its header", resize(c.t(1), 64, False) == h, "call"); E.prove("not bigger than allowed", z3.And(ule(n, z3.ZeroExt(32, lim)), z3.Or(auth, ult(n, bv(1 << 20)))), "call"); J.ghost("handed", J.ghost("pos"))
    E.contracts["MqttPacket::MqttPacket"] = made; E.age_idx = [any]
    E.loop_specs.append(lambda E, ctx: [("handed on so far", J.ghost("handed") == J.ghost("pos")), ("inside", ule(J.ghost("pos"), N))])
    def thrown(ety, val):
        p = J.ghost("handed"); ok, n, h = packet(p); J.post("nothing is lost before an error", J.ghost("pos") == p); J.post("ended for a length of more than four bytes, or a packet that is too big", z3.Or(J.ghost("acme"), endless(p), z3.And(ok, z3.Or(ugt(n, z3.ZeroExt(32, lim)), ugt(n, bv(268435455)), z3.And(z3.Not(auth), uge(n, bv(1 << 20)))))))
    ok, r = J.run_any(f, None, a); J.on_throws(thrown)
    if ok:
        p = J.ghost("pos"); hk, n, h = packet(p); left = N - p; J.post("everything taken was handed on", J.ghost("handed") == p); J.post("no whole packet is left", z3.Or(snd == null, J.ghost("acme"), ult(left, bv(2)), z3.Not(hk), ugt(n, left))); J.post("a length of more than four bytes is not waited for", z3.Or(snd == null, J.ghost("acme"), ult(left, bv(5)), z3.Not(endless(p)))); J.cover("one", p != 0)
        J.post("a packet that is too big is not waited for", z3.Or(snd == null, J.ghost("acme"), ult(left, bv(2)), z3.Not(hk), ule(n, z3.ZeroExt(32, lim))))
@spec.job("MqttPacket::MqttPacket(bytes)")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::MqttPacket", ["vector<char", "", ""]); a = J.args(f); E = J.E; E.opaque_keeps = "texts of errors"; v = E.rv(a[0]); v0 = Val(v.sh, list(v.lv)); h = J.val(a[1]).t; J.assume(z3.And(ule(v0.lv[0], bv(1 << 31)), uge(h, bv(2)), ule(h, bv(5)), ule(h, v0.lv[0]))); J.pure("packetTypeToString", "protocolVersionString"); E.age_idx = [any]
    E.contracts["Client::getMaxIncomingPacketSize"] = lambda E, c: Val(shape_of(c.ret), [z3.BitVec("limit", 32)]); J.pure("Client::getProtocolVersion")
    ok, r = J.run_any(f, this, a)
    if ok:
        b = E.load(this.fld("bites")); J.post("holds the bytes", z3.And(b.lv[0] == v0.lv[0], z3.Implies(ult(any, b.lv[0]), z3.Select(b.lv[1], any) == z3.Select(v0.lv[1], any)))); J.post("reading starts after the header", z3.And(J.f(this, "pos") == h, J.f(this, "fixed_header_length") == h)); J.post("its type is in the first byte", z3.And(J.f(this, "first_byte") == z3.Select(v0.lv[1], bv(0)), z3.Extract(7, 0, J.f(this, "packetType")) == z3.LShR(z3.Select(v0.lv[1], bv(0)), 4)))
@spec.job("Client::bufferToMqttPackets")
def _(J):
    this = J.this("Client"); f = J.fn("Client::bufferToMqttPackets"); a = J.args(f); E = J.E; J.ghost("n", bv(0, 32)); free = z3.BitVec("free", 32); J.ghost("ready", FALSE)
    def ex(E, c): E.prove("from the read buffer of the client", z3.BoolVal(loc_eq(c.args[0], this.fld("readbuf"))), "call"); J.ghost("n", J.ghost("n") + 1)
    E.contracts["MqttPacket::bufferToMqttPackets"] = ex; E.contracts["CirBuf::freeSpace"] = lambda E, c: Val(shape_of(c.ret), [free])
    def rdy(E, c): J.ghost("ready", c.t(0))
    E.contracts["Client::setReadyForReading"] = rdy; J.run_any(f, this, a); J.post("extracted once", J.ghost("n") == 1); J.post("read on when there is room", J.ghost("ready") == (free != 0))
@spec.job("Client::readFdIntoBuffer")
def _(J):
    this = J.this("Client"); f = J.fn("Client::readFdIntoBuffer"); E = J.E; E.opaque_keeps = "x"; J.ghost("pending", bv(0, 32)); J.ghost("full", FALSE); J.ghost("cap", z3.BitVec("cap", 32)); J.ghost("free", z3.BitVec("free", 32)); head, room = z3.Const("head", RefS), z3.BitVec("room", 32); J.ghost("stopped", FALSE); mx = J.f(this, "maxIncomingPacketSize"); J.assume(z3.And(mx != 0, ule(mx, bv(268435455, 32)))); J.ghost("off", z3.BitVec("off", 64))
    okcap = lambda: z3.And(J.ghost("cap") != 0, ule(J.ghost("cap"), bv(1 << 30, 32)), ult(J.ghost("free"), J.ghost("cap")), uge(J.ghost("free"), J.ghost("pending"))); J.assume(okcap())
    E.contracts["CirBuf::freeSpace"] = lambda E, c: Val(shape_of(c.ret), [J.ghost("free")]); E.contracts["CirBuf::getCapacity"] = lambda E, c: Val(shape_of(c.ret), [J.ghost("cap")])
    E.contracts["CirBuf::headPtr"] = lambda E, c: Val(shape_of(c.ret), [head, J.ghost("off")])
    def mws(E, c): r = z3.BitVec(fresh_name("write"), 32); E.assume(z3.And(ule(r, J.ghost("free")), z3.Implies(J.ghost("free") != 0, r != 0))); J.ghost("max", r); return Val(shape_of(c.ret), [r])
    E.contracts["CirBuf::maxWriteSize"] = mws; J.ghost("max", bv(0, 32))
    def rd(E, c):
        p = E.rv(c.args[1]); E.prove("everything read so far was taken in", J.ghost("pending") == 0, "call"); E.prove("read to where the buffer goes on", z3.And(p.lv[0] == head, (p.lv[1] if len(p.lv) > 1 else bv(0)) == J.ghost("off"), resize(c.t(2), 32, False) == J.ghost("max"), ule(J.ghost("max"), J.ghost("free"))), "call"); r = E.fresh_val(shape_of(c.ret), "n"); n = resize(r.t, 32, True); E.assume(z3.And(n >= -1, z3.Or(n < 0, ule(n, J.ghost("max"))))); J.ghost("pending", z3.If(n > 0, n, bv(0, 32))); l = E.deref(c.args[3]) if isinstance(c.args[3], Val) else c.args[3]; E.store(l, E.fresh_val(l.sh, "error")); return r
    E.contracts["IoWrapper::readWebsocketAndOrSsl"] = rd
    def adv(E, c): E.prove("exactly what was read is taken in", c.t(0) == J.ghost("pending"), "call"); J.ghost("pending", bv(0, 32)); J.ghost("free", J.ghost("free") - c.t(0)); J.ghost("off", z3.BitVec(fresh_name("off"), 64))
    E.contracts["CirBuf::advanceHead"] = adv
    def dbl(E, c): J.ghost("free", J.ghost("free") + J.ghost("cap")); J.ghost("cap", J.ghost("cap") * 2); E.prove("grows within what its size can express", z3.And(J.ghost("cap") != 0, ule(J.ghost("cap"), bv(1 << 31, 32))), "call"); E.assume(ule(J.ghost("cap"), bv(1 << 30, 32)))
    E.contracts["CirBuf::doubleCapacity"] = dbl; J.pure("IoWrapper::hasProcessedBufferedBytesToRead", "ThreadGlobals::getSettings")
    def rdy(E, c): E.prove("reading stops only when there is room for a packet of the allowed size, and the buffer is full", z3.And(z3.Not(c.t(0)), J.ghost("free") == 0, uge(J.ghost("cap") - 1, J.f(this, "maxIncomingPacketSize"))), "call")
    E.contracts["Client::setReadyForReading"] = rdy
    E.loop_specs.append(lambda E, ctx: [("nothing pending", J.ghost("pending") == 0), ("buffer", okcap())])
    J.run(f, this, []); J.post("everything read was taken in", J.ghost("pending") == 0)
