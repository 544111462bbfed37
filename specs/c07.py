"""C07: parsing stays inside the packet."""
from fvc.spec import *
from fvc.vals import slen, sat
spec = Spec("C07", ["mqttpacket.cpp"], harness="c07.cpp", harness_secs=12, sanitize=True, trusted=["isValidUtf8 (C02)"],
            standin="all packet handlers on random and mutated packets under the address sanitizer (bounded)")
def pkt(J):
    this = J.this("MqttPacket"); b = J.E.load(this.fld("bites")); pos = J.f(this, "pos"); size = b.lv[0]; a = b.lv[1]
    J.assume(ule(pos, size)); J.hint("pos", pos); J.hint("size", size)
    for i in range(4): J.hint("b%d" % i, z3.Select(a, pos + bv(i)))
    return this, pos, size, a
def same(J, this, size, a):
    b = J.E.load(this.fld("bites")); return z3.And(b.lv[0] == size, b.lv[1] == a)
def be(a, pos, n, w): return resize(z3.Concat(*[z3.Select(a, pos + bv(i)) for i in range(n)]) if n > 1 else z3.Select(a, pos), w, False)
def fixed(J, fn, n):
    this, pos, size, a = pkt(J); fits = ule(bv(n), size - pos)
    r, v = J.run_any(J.fn(fn), this, [])
    if r:
        J.cover("read"); J.post("read only when inside the packet", fits); J.post("value is the packet's next bytes, big-endian", v.t == be(a, pos, n, v.t.size()))
        J.post("position advances by the field's size", J.f(this, "pos") == pos + n); J.post("packet unchanged", same(J, this, size, a))
    def th(e, x):
        J.post("refused only when it extends past the end", z3.Not(fits)); J.post("refused as malformed", z3.BoolVal("ProtocolError" in exname(e)))
    J.on_throws(th)
for fn, n in (("MqttPacket::readByte", 1), ("MqttPacket::readUint8", 1), ("MqttPacket::readTwoBytesToUInt16", 2), ("MqttPacket::readFourBytesToUint32", 4)):
    @spec.job(fn)
    def _(J, fn=fn, n=n): fixed(J, fn, n)

@spec.job("MqttPacket::readBytes")
def _(J):
    this, pos, size, a = pkt(J); f = J.fn("MqttPacket::readBytes"); args = J.args(f); n = args[0].t; J.assume(ule(n, bv(65535))); fits = ule(n, size - pos); J.hint("n", n)
    r, v = J.run_any(f, this, args)
    if r:
        i = z3.Const("i", I64)
        J.cover("read"); J.post("read only when inside the packet", fits); J.post("the view has the asked length", slen(v.t) == n)
        J.post("the view is the packet's next bytes", z3.ForAll([i], z3.Implies(ult(i, n), sat(v.t, i) == z3.Select(a, pos + i))))
        J.post("position advances by the length", J.f(this, "pos") == pos + n); J.post("packet unchanged", same(J, this, size, a))
    J.on_throws(lambda e, x: J.post("refused only when it extends past the end, as malformed", z3.And(z3.Not(fits), z3.BoolVal("ProtocolError" in exname(e)))))

@spec.job("MqttPacket::readBytesToString")
def _(J):
    this, pos, size, a = pkt(J); f = J.fn("MqttPacket::readBytesToString"); args = J.args(f); E = J.E; ok = z3.Bool("valid_utf8"); asked = []
    E.contracts["isValidUtf8"] = lambda E, c: (asked.append((c.t(0), c.t(1))), E.boolv(ok))[1]
    mx = args[0].t; J.assume(mx != 0); check = args[1].t; n = be(a, pos, 2, 64); J.hint("n", n)
    fits = z3.And(ule(bv(2), size - pos), ule(n, size - pos - 2)); allowed = ule(n, resize(mx, 64, False))
    r, v = J.run_any(f, this, args)
    if r:
        i = z3.Const("i", I64)
        J.cover("read"); J.post("read only when inside the packet", fits); J.post("never longer than the limit", allowed); J.post("length as stated in the packet", slen(v.t) == n)
        J.post("content is the packet's bytes", z3.ForAll([i], z3.Implies(ult(i, n), sat(v.t, i) == z3.Select(a, pos + 2 + i)))); J.post("invalid text is never returned when validation is asked for", z3.Implies(check, ok))
        J.post("position advances by the field's size", J.f(this, "pos") == pos + 2 + n); J.post("packet unchanged", same(J, this, size, a))
        for s, w in asked: J.post("the string itself is validated, with the publish restriction as asked", z3.And(s == v.t, w == args[2].t))
    J.on_throws(lambda e, x: J.post("refused only when too long or invalid", z3.Or(z3.Not(fits), z3.Not(allowed), z3.And(check, z3.Not(ok)))))

@spec.job("MqttPacket::remainingAfterPos / atEnd / withinBound")
def _(J):
    this, pos, size, a = pkt(J)
    J.post("remaining bytes", J.run("MqttPacket::remainingAfterPos", this, []).t == size - pos)
    J.post("at end exactly when nothing remains", J.run("MqttPacket::atEnd", this, []).t == (pos == size))
@spec.job("MqttPacket::withinBound")
def _(J):
    this, pos, size, a = pkt(J); f = J.fn("MqttPacket::withinBound"); args = J.args(f); r, v = J.run_any(f, this, args)
    if r: J.post("more to read exactly before the bound; never beyond it", z3.And(v.t == ult(pos, args[0].t), ule(pos, args[0].t)))
    J.on_throws(lambda e, x: J.post("refused only beyond the bound", ugt(pos, args[0].t)))
@spec.job("MqttPacket::getPayloadView")
def _(J):
    J.dead("fmq_ensure_fail"); this, pos, size, a = pkt(J); st = J.f(this, "payloadStart"); ln = J.f(this, "payloadLen"); J.assume(ule(st, bv(1 << 40))); J.assume(ule(ln, bv(1 << 40)))
    r, v = J.run_any(J.fn("MqttPacket::getPayloadView"), this, [])
    if r:
        i = z3.Const("i", I64); J.post("the payload lies inside the packet", z3.And(ule(st + ln, size), slen(v.t) == ln)); J.post("payload bytes", z3.ForAll([i], z3.Implies(ult(i, ln), sat(v.t, i) == z3.Select(a, st + i))))
    J.on_throws(lambda e, x: J.post("refused only outside the packet", ugt(st + ln, size)))

def readers(J, this):
    """consequence of the field readers' contracts proved above: they return only when the field is inside the packet, and leave the position at its end"""
    E = J.E
    def step(lo, hi):
        def h(E, c):
            size = E.load(c.this.fld("bites")).lv[0]; pos = J.f(c.this, "pos"); E.prove("reader is called inside the packet", ule(pos, size), "precondition"); E.maybe_throw(E.fresh_val(BOOL, "refused").t, "ProtocolError")
            p2 = E.fresh_val(SIZE, "newpos").t; E.assume(z3.And(ule(pos, p2), ule(p2, size))); J.set(c.this, "pos", to=p2); return E.fresh_val(shape_of(c.ret), "field")
        return h
    for fn in ("readByte", "readUint8", "readTwoBytesToUInt16", "readFourBytesToUint32", "readBytesToString", "decodeVariableByteIntAtPos", "readBytes"): E.contracts["MqttPacket::" + fn] = step(0, 0)
def inpkt(this, J):
    """loop invariant candidates: the position stays inside the packet"""
    def gen(E, ctx):
        b = E.load(this.fld("bites")); return [("position inside the packet", ule(J.f(this, "pos"), b.lv[0]))]
    return gen
def quiet(J):
    J.dead("fmq_ensure_fail")
    J.pure("ThreadGlobals::getSettings", "ThreadGlobals::getThreadData", "propertyToString", "protocolVersionString", "Publish::addUserProperty", "Publish::clearUserProperties", "MqttPacket::addUserProperty", "Settings::getExpireSessionAfterSeconds", "Publish::addSubscriptionIdentifier", "isValidUtf8", "isValidUtf8Generic", "isValidPublishPath",
           "Client::getProtocolVersion", "Client::getClientId", "Client::setTopicAlias", "Client::getTopicAlias", "splitTopic", "Publish::setExpireAfter", "Logger::log", "Client::repr", "Client::getAuthenticated", "reasonCodeToString", "packetTypeToString", "Logger::logf", "Publish::resplitTopic", "Client::setProtocolVersion", "Publish::getFirstUserProperty", "startsWith", "containsDangerousCharacters")
def handler(J, fn, extra=None):
    quiet(J)
    this = J.this("MqttPacket"); b = J.E.load(this.fld("bites")); size = b.lv[0]; a = b.lv[1]; J.assume(ule(J.f(this, "fixed_header_length"), size)); J.assume(ule(J.f(this, "pos"), size)); readers(J, this)
    J.E.loop_specs.append(inpkt(this, J)); f = J.fn(fn); r, v = J.run_any(f, this, J.args(f))
    if r:
        J.cover("accepted"); J.post("position stays inside the packet", ule(J.f(this, "pos"), size)); J.post("packet unchanged", same(J, this, size, a))
        if extra: extra(this, size, a)
for fn in ("parsePubAckData", "parsePubRecData", "parsePubRelData", "parsePubComp", "parseDisconnectData", "parseSubAckData", "parseAuthData", "parseConnAckData", "parseConnectData"):
    @spec.job("MqttPacket::" + fn)
    def _(J, fn=fn): handler(J, "MqttPacket::" + fn)
@spec.job("MqttPacket::parsePublishData")
def _(J):
    handler(J, "MqttPacket::parsePublishData", lambda this, size, a: J.post("the payload is exactly the rest of the packet", z3.And(J.f(this, "payloadStart") == J.f(this, "pos"), J.f(this, "payloadStart") + J.f(this, "payloadLen") == size)))
for fn in ("handleSubscribe", "handleUnsubscribe"):
    @spec.job("MqttPacket::" + fn)
    def _(J, fn=fn):
        J.pure("Authentication::aclCheck", "Client::writeMqttPacketAndBlameThisClient", "Client::getSession", "parseSubscriptionShare", "isValidShareName", "isValidSubscribePath", "SubscriptionStore::addSubscription", "SubscriptionStore::giveClientRetainedMessages", "Client::getUsername", "ThreadGlobals::getAuth", "SubAck::SubAck", "UnsubAck::UnsubAck", "Logger::subunsubLog", "Logger::wouldLog", "SubscriptionStore::removeSubscription", "Authentication::onUnsubscribe", "safe_byte_to_hex", "formatString")
        J.E.opaque_keeps = "a packet's private position and bytes change only in MqttPacket's own members, which are expanded or under contract here"
        handler(J, "MqttPacket::" + fn)
