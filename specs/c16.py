"""C16: acknowledgements advance only the message they name."""
from fvc.spec import *
from qos_c import *
spec = Spec("C16", ["session.cpp", "mqttpacket.cpp", "types.cpp"], harness="c16.cpp", harness_secs=15, trusted=["the queue of unacknowledged messages removes exactly the named message (C13)"],
            standin="random conversations with duplicated, unknown and out-of-order acknowledgements and reconnects compared with a model (bounded)")
ack_jobs(spec)
def handler(J, fn, parse):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::" + fn); a = J.args(f); E = J.E; E.opaque_keeps = "logging changes nothing"; responses(J); J.pure("MqttPacket::" + parse); id0 = J.f(this, "packet_id"); found = z3.Bool("found"); ends = []
    for g in ("cleared", "begun", "finished"): J.ghost(g, bv(0, 32))
    J.ghost("ends", FALSE)
    def clear(E, c): E.prove("only the named message is removed", c.t(0) == id0, "call"); J.ghost("cleared", J.ghost("cleared") + 1); J.ghost("ends", c.t(1)); return E.boolv(found)
    def begin(E, c): E.prove("only the named identifier stays reserved", c.t(0) == id0, "call"); J.ghost("begun", J.ghost("begun") + 1)
    def fin(E, c): E.prove("only the named handshake is finished", c.t(0) == id0, "call"); J.ghost("finished", J.ghost("finished") + 1)
    E.contracts["Session::clearQosMessage"] = clear; E.contracts["Session::addOutgoingQoS2MessageId"] = begin; E.contracts["Session::removeOutgoingQoS2MessageId"] = fin
    return this, f, a, id0, found
def calls(J, c, b, f): return z3.And(J.ghost("cleared") == c, J.ghost("begun") == b, J.ghost("finished") == f)
@spec.job("MqttPacket::handlePubAck")
def _(J):
    this, f, a, id0, found = handler(J, "handlePubAck", "parsePubAckData"); J.run(f, this, a); J.post("the named message is finished, nothing else happens", z3.And(calls(J, 1, 0, 0), J.ghost("ends"), J.ghost("answers") == 0))
@spec.job("MqttPacket::handlePubComp")
def _(J):
    this, f, a, id0, found = handler(J, "handlePubComp", "parsePubComp"); J.run(f, this, a); J.post("the named handshake is finished, nothing else happens", z3.And(calls(J, 0, 0, 1), J.ghost("answers") == 0))
@spec.job("MqttPacket::handlePubRec")
def _(J):
    this, f, a, id0, found = handler(J, "handlePubRec", "parsePubRecData"); E = J.E; rc = z3.BitVec("rc", 8)
    E.contracts["MqttPacket::parsePubRecData"] = lambda E, c: Val(shape_of(c.ret), [resize(rc, 32, False)]); J.run(f, this, a); err = uge(rc, bv(0x80, 8))
    J.post("the named message is removed once", J.ghost("cleared") == 1); J.post("finished exactly when the answer is an error", J.ghost("ends") == err); J.cover("begun", J.ghost("begun") == 1)
    J.post("the identifier stays reserved exactly for a message that was pending and not refused", J.ghost("begun") == z3.If(z3.And(found, z3.Not(err)), bv(1, 32), bv(0, 32))); J.post("nothing is finished by PUBREC", J.ghost("finished") == 0)
    J.post("answered with one PUBREL with the same identifier unless refused", z3.And(J.ghost("answers") == z3.If(err, bv(0, 32), bv(1, 32)), z3.Implies(z3.Not(err), z3.And(J.ghost("rtype") == PUBREL, J.ghost("rid") == id0, z3.Or(J.f(this, "protocolVersion") != 5, J.ghost("rcode") == z3.If(found, bv(0, 8), bv(0x92, 8)))))))
@spec.job("Session::addOutgoingQoS2MessageId")
def _(J):
    this = J.this("Session"); f = J.fn("Session::addOutgoingQoS2MessageId"); a = J.args(f); x = a[0].t; y = z3.BitVec("y", 16); l = this.fld("qos").fld("d").fld("outgoingQoS2MessageIds"); s0 = J.E.load(l).lv[1]; J.run(f, this, a)
    J.post("exactly this identifier waits for PUBCOMP", z3.Select(J.E.load(l).lv[1], y) == z3.Or(z3.Select(s0, y), y == x))
def parse(J, fn):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::" + fn); E = J.E; pid = z3.BitVec("pid", 16); rc = z3.BitVec("rcbyte", 8); end = z3.Bool("end"); J.pure("MqttPacket::setPosToDataStart")
    E.contracts["MqttPacket::readTwoBytesToUInt16"] = lambda E, c: Val(shape_of(c.ret), [pid]); E.contracts["MqttPacket::readUint8"] = lambda E, c: Val(shape_of(c.ret), [rc]); E.contracts["MqttPacket::atEnd"] = lambda E, c: E.boolv(end)
    r = J.run(f, this, J.args(f)); J.post("the identifier is the one in the packet", z3.And(J.f(this, "packet_id") == pid, pid != 0)); return r, rc, end, pid
@spec.job("MqttPacket::parsePubRecData")
def _(J):
    r, rc, end, pid = parse(J, "parsePubRecData"); J.post("the reason is the one in the packet", resize(r.lv[0], 8, False) == z3.If(end, bv(0, 8), rc))
@spec.job("MqttPacket::parsePubComp")
def _(J): parse(J, "parsePubComp")
@spec.job("MqttPacket::parsePubAckData")
def _(J): parse(J, "parsePubAckData")
