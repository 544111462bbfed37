"""C15: an incoming QoS 2 message is processed exactly once."""
from fvc.spec import *
from qos_c import *
spec = Spec("C15", ["session.cpp", "mqttpacket.cpp", "acksender.cpp", "packetdatatypes.cpp", "types.cpp"], harness="c15.cpp", harness_secs=12, trusted=["authorisation, plugin and routing callees of handlePublish do not touch the session's set of QoS 2 identifiers (frame)"],
            standin="random publishers with duplicates, reconnects and restarts compared with a model (bounded)")
for fn, op in (("addIncomingQoS2MessageId", "add"), ("incomingQoS2MessageIdInTransit", "is"), ("removeIncomingQoS2MessageId", "rem")):
    @spec.job("Session::" + fn)
    def _(J, fn=fn, op=op):
        this = J.this("Session"); f = J.fn("Session::" + fn); a = J.args(f); x = a[0].t; y = z3.BitVec("y", 16); J.pure("Logger::wouldLog", "Logger::logf"); l = this.fld("qos").fld("d").fld("incomingQoS2MessageIds"); s0 = J.E.load(l).lv[1]
        r = J.run(f, this, a); s = J.E.load(l).lv[1]; now = z3.Select(s, y); was = z3.Select(s0, y)
        if op == "add": J.post("exactly this identifier is added", now == z3.Or(was, y == x))
        if op == "is": J.post("says whether the identifier is in transit", r.t == z3.Select(s0, x)); J.post("changes nothing", now == was)
        if op == "rem": J.post("exactly this identifier is released", now == z3.And(was, y != x)); J.post("says whether it was in transit", r.t == z3.Select(s0, x))
@spec.job("AckSender::sendNow")
def _(J):
    this = J.this("AckSender"); responses(J); f = J.fn("AckSender::sendNow"); a = J.args(f); q, i, code, sent = J.f(this, "qos"), J.f(this, "packetId"), J.f(this, "ackCode"), J.f(this, "sent"); J.assume(ule(q, bv(2, 8)))
    J.run(f, this, a); n = J.ghost("answers"); J.cover("sent", n == 1)
    J.post("acknowledges once, only QoS 1 and 2", n == z3.If(z3.And(z3.Not(sent), q != 0), bv(1, 32), bv(0, 32))); J.post("marked as sent", J.f(this, "sent"))
    J.post("PUBACK for QoS 1 and PUBREC for QoS 2, with the message's identifier", z3.Implies(n == 1, z3.And(J.ghost("rtype") == z3.If(q == 1, bv(PUBACK, 8), bv(PUBREC, 8)), J.ghost("rid") == i, z3.Or(J.ghost("rcode") == resize(code, 8, False), J.f(this, "protocolVersion") != 5))))
@spec.job("MqttPacket::handlePublish")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handlePublish"); a = J.args(f); E = J.E; E.opaque_keeps = "logging, authorisation, plugin and counters do not change the packet identifier or the session's identifiers"; responses(J); s0 = incoming(J); J.ghost("routed", bv(0, 32))
    pd = this.fld("publishData"); J.pure("MqttPacket::parsePublishData", "Authentication::aclCheck", "Authentication::alterPublish", "MqttPacket::setRetain", "MqttPacket::getPayloadView", "MqttPacket::getPayloadCopy", "Publish::resplitTopic", "Publish::getSubtopics", "Publish::getUserProperties", "PublishCopyFactory::PublishCopyFactory", "Logger::wouldLog", "MqttPacket::setPacketId", "startsWith")
    q0, id0 = J.f(pd, "qos"), J.f(this, "packet_id"); J.assume(z3.And(ule(q0, bv(2, 8)), z3.Implies(q0 != 0, id0 != 0)))
    def route(E, c): E.prove("a QoS 2 message is routed only when its identifier was not in transit", z3.Implies(q0 == 2, z3.Not(z3.Select(s0, id0))), "call"); E.prove("the identifier is remembered before routing", z3.Implies(q0 == 2, z3.Select(J.ghost("inc"), id0)), "call"); J.ghost("routed", J.ghost("routed") + 1)
    E.contracts["SubscriptionStore::queuePacketAtSubscribers"] = route
    def keep(E, c): E.prove("a duplicate is not retained", z3.Implies(q0 == 2, z3.And(z3.Not(z3.Select(s0, id0)), z3.Select(J.ghost("inc"), id0))), "call")
    E.contracts["SubscriptionStore::trySetRetainedMessages"] = keep
    y = z3.BitVec("y", 16)
    J.run(f, this, a); n = J.ghost("answers"); inc = J.ghost("inc");
    J.post("routed at most once", ule(J.ghost("routed"), bv(1, 32))); J.post("a duplicate is not routed", z3.Implies(z3.And(q0 == 2, z3.Select(s0, id0)), J.ghost("routed") == 0))
    J.post("every QoS 1 and 2 message is acknowledged once", n == z3.If(q0 != 0, bv(1, 32), bv(0, 32)))
    J.post("with its own identifier and the kind its QoS asks for", z3.Implies(q0 != 0, z3.And(J.ghost("rid") == id0, J.ghost("rtype") == z3.If(q0 == 1, bv(PUBACK, 8), bv(PUBREC, 8)))))
    J.post("no other identifier is affected", z3.Implies(z3.Or(y != id0, q0 != 2), z3.Select(inc, y) == z3.Select(s0, y))); J.post("an identifier in transit stays so", z3.Implies(z3.Select(s0, y), z3.Select(inc, y)))
@spec.job("MqttPacket::handlePubRel")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handlePubRel"); a = J.args(f); E = J.E; E.opaque_keeps = "logging changes nothing"; responses(J); s0 = incoming(J); J.pure("MqttPacket::parsePubRelData"); id0 = J.f(this, "packet_id"); y = z3.BitVec("y", 16)
    J.run(f, this, a); J.post("answered with exactly one PUBCOMP with the same identifier", z3.And(J.ghost("answers") == 1, J.ghost("rtype") == PUBCOMP, J.ghost("rid") == id0))
    J.post("exactly this identifier is free again", z3.Select(J.ghost("inc"), y) == z3.And(z3.Select(s0, y), y != id0))
    J.on_throws(lambda t, v: J.post("refused only without an identifier", id0 == 0))
