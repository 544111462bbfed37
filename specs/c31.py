"""C31: the maximum packet size of the client, and the limit on its output buffer."""
from fvc.spec import *
from fvc.engine import SIter
spec = Spec("C31", ["client.cpp", "mqttpacket.cpp", "variablebyteint.cpp", "cirbuf.cpp"], harness="c31.cpp", harness_secs=10, trusted=["the ring buffer keeps what is written to it (C05)"])
def iter_range(x, y):
    a, b = [(v.lv[0].loc, v.lv[0].idx) if isinstance(v.lv[0], SIter) else (v.lv[0], v.lv[1]) for v in (x, y)]; return a[0], a[1], b[1] - a[1], loc_eq(a[0], b[0])
@spec.job("Client::writeMqttPacket")
def _(J):
    this = J.this("Client"); f = J.fn("Client::writeMqttPacket"); a = J.args(f); E = J.E; E.opaque_keeps = "locks, counters and epoll registration write nothing"; size = z3.BitVec("packet_size", 64); J.assume(ule(size, bv(268435460))); wb = J.path(this, "writebuf", "d"); mx = J.f(wb, "maxOutgoingPacketSize"); lim = z3.BitVec("buffer_limit", 32); ty, qos = J.f(a[0], "packetType"), z3.BitVec("qos", 8); J.ghost("n", bv(0, 32)); J.ghost("room", z3.BitVec("room0", 32)); J.ghost("asked", FALSE); J.ghost("ready", FALSE); J.ghost("full", FALSE); J.pure("DerivableCounter::inc", "Client::setDisconnectStage", throws=False); J.assume(ule(J.ghost("room"), bv((1 << 31) - 1, 32)))
    mine = lambda c: z3.BoolVal(isinstance(c.this, Loc) and c.this.root == wb.root and c.this.path[:len(wb.path)] == wb.path)
    def sz(E, c): E.prove("the size of this packet", z3.BoolVal(loc_eq(c.this, a[0])), "call"); return Val(shape_of(c.ret), [size])
    E.contracts["MqttPacket::getSizeIncludingNonPresentHeader"] = sz; E.contracts["MqttPacket::getQos"] = lambda E, c: Val(shape_of(c.ret), [qos]); E.contracts["Client::WriteBuf::getMaxBufSize"] = lambda E, c: Val(shape_of(c.ret), [lim])
    def grow(E, c):
        E.prove("the buffer of this client grows for this packet, up to its limit or one packet", z3.And(mine(c), resize(c.t(0), 64, False) == size, z3.Or(resize(c.t(1), 64, False) == resize(lim, 64, False), resize(c.t(1), 64, False) == size * 2), z3.Implies(resize(c.t(1), 64, False) != resize(lim, 64, False), ugt(size * 2, resize(lim, 64, False)))) if c.n > 1 else FALSE, "call"); r = z3.BitVec(fresh_name("room"), 32); E.assume(uge(r, J.ghost("room"))); J.ghost("room", r); E.maybe_throw(E.fresh_val(BOOL, "t").t, "std::runtime_error")
    E.contracts["CirBuf::ensureFreeSpace"] = grow; E.contracts["CirBuf::freeSpace"] = lambda E, c: Val(shape_of(c.ret), [J.ghost("room")])
    def press(E, c): E.maybe_throw(E.fresh_val(BOOL, "t").t, "BadClientException")
    E.contracts["Client::WriteBuf::checkPressure"] = press
    def put(E, c):
        E.prove("only into this client's buffer, this packet, once", z3.And(z3.BoolVal(loc_eq(c.this, a[0])), z3.BoolVal(isinstance(c.args[0], Loc) and c.args[0].root == wb.root and c.args[0].path[:len(wb.path)] == wb.path), J.ghost("n") == 0), "call"); E.prove("never more than the client accepts", ule(size, resize(mx, 64, False)), "call"); E.prove("a QoS 0 publish only when it fits the buffer", z3.Implies(z3.And(ty == 3, qos == 0), ule(size, resize(J.ghost("room"), 64, False))), "call"); J.ghost("n", bv(1, 32))
    E.contracts["MqttPacket::readIntoBuf"] = put
    def rdy(E, c): J.ghost("ready", z3.Or(J.ghost("ready"), z3.And(E.rv(c.args[0]).t, J.ghost("n") == 1)))
    E.contracts["Client::setReadyForWriting"] = rdy
    J.on_throws(lambda ety, v: J.post("nothing is written when it fails", J.ghost("n") == 0))
    ok, r = J.run_any(f, this, a)
    if ok: J.cover("written", J.ghost("n") == 1); J.post("reported as written exactly when it was", (r.t == 0) == (J.ghost("n") == 1)); J.post("and announced as ready to send", z3.Implies(J.ghost("n") == 1, J.ghost("ready"))); J.post("dropped only when too big, or a QoS 0 publish with a full buffer", z3.Implies(J.ghost("n") == 0, z3.Or(ugt(size, resize(mx, 64, False)), z3.And(ty == 3, qos == 0, ugt(size, resize(J.ghost("room"), 64, False))))))
@spec.job("MqttPacket::getSizeIncludingNonPresentHeader")
def _(J):
    this = J.this("MqttPacket"); J.assume(ule(J.f(this, "remainingLength", "len"), bv(4, 8))); r = J.run("MqttPacket::getSizeIncludingNonPresentHeader", this, []); n = J.val(this, "bites").lv[0]; fh = J.f(this, "fixed_header_length"); J.post("the bytes of the packet and its fixed header", r.t == n + z3.If(fh == 0, resize(J.f(this, "remainingLength", "len"), 64, False) + 1, bv(0)))
@spec.job("MqttPacket::readIntoBuf")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::readIntoBuf"); a = J.args(f); E = J.E; J.ghost("stage", bv(0, 32)); J.ghost("len", bv(0)); n = J.val(this, "bites").lv[0]; fh = J.f(this, "fixed_header_length"); fb = J.f(this, "first_byte"); vl = resize(J.f(this, "remainingLength", "len"), 64, False); J.assume(ule(vl, bv(4))); rl = this.fld("remainingLength"); bites = this.fld("bites"); mine = lambda c: z3.BoolVal(loc_eq(c.this, a[0])); J.assume(ule(n, bv(1 << 40)))
    def one(E, c): E.prove("the first byte comes first", z3.And(mine(c), J.ghost("stage") == 0, fh == 0, z3.Extract(7, 0, c.t(0)) == z3.Extract(7, 0, fb), z3.BoolVal(c.n == 1)), "call"); J.ghost("stage", bv(1, 32)); J.ghost("len", J.ghost("len") + 1)
    E.contracts["CirBuf::write"] = one
    def rng(E, c):
        l, i, k, same = iter_range(c.args[0], c.args[1]); hdr = loc_eq(l, bites) is False
        if isinstance(l, Loc) and l.path[:len(bites.path)] == bites.path and l.root == bites.root: E.prove("then the whole packet", z3.And(mine(c), z3.BoolVal(same), i == 0, k == n, z3.If(fh == 0, J.ghost("stage") == 2, J.ghost("stage") == 0)), "call"); J.ghost("stage", bv(3, 32))
        else: E.prove("then the remaining length", z3.And(mine(c), z3.BoolVal(same and l.root == rl.root and l.path[:len(rl.path)] == rl.path), i == 0, k == vl, J.ghost("stage") == 1), "call"); J.ghost("stage", bv(2, 32))
        J.ghost("len", J.ghost("len") + k)
    E.contracts["CirBuf::writerange"] = rng
    ok, r = J.run_any(f, this, a)
    if ok: J.post("all of it", J.ghost("stage") == 3); J.post("as many bytes as computed", J.ghost("len") == n + z3.If(fh == 0, vl + 1, bv(0)))
@spec.job("Client::WriteBuf::getMaxBufSize")
def _(J):
    this = J.this("Client::WriteBuf"); E = J.E; sets = J.this("Settings", "settings"); E.contracts["ThreadGlobals::getSettings"] = lambda E, c: Val(shape_of(c.ret), [sets.root[1]]); o = J.val(this, "maxBufSizeOverride").lv; r = J.run("Client::WriteBuf::getMaxBufSize", this, []); J.post("the client's own limit or the configured one", r.t == z3.If(o[0], o[1], resize(J.f(sets, "clientMaxWriteBufferSize"), 32, False)))
@spec.job("Client::setClientProperties")
def _(J):
    this = J.this("Client"); E = J.E; E.opaque_keeps = "x"
    f = J.fn("Client::setClientProperties", ["ProtocolVersion", "string", "optional", "string", "bool", "short", "int", "short"]); a = J.args(f); wb = J.path(this, "writebuf", "d"); ok, r = J.run_any(f, this, a)
    if ok: J.post("the limit announced by the client is the one applied", J.f(wb, "maxOutgoingPacketSize") == a[6].t)
