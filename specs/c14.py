"""C14: unacknowledged QoS messages never exceed the receiver's window."""
from fvc.spec import *
from qos_c import *
spec = Spec("C14", ["session.cpp"], harness="c14.cpp", harness_secs=15, trusted=["linked list of the queued messages in Session::sendAllPendingQosData visits each queued message (arbitrary nodes)"],
            standin="random conversations with reconnects, duplicated and unknown acknowledgements compared with a model of the send quota (bounded)")
CNT = (0, 65535)
def counters(J, this):
    c, q = J.f(this, "flowControlCealing"), J.f(this, "flowControlQuota"); J.assume(z3.And(q >= 0, q <= c, c >= 0, c <= 65535)); J.hint("quota", q); J.hint("ceiling", c); return c, q
def wf(J, this): c, q = J.f(this, "flowControlCealing"), J.f(this, "flowControlQuota"); return z3.And(q >= 0, q <= c, c <= 65535)
@spec.job("Session::QoSData::increaseFlowControlQuota")
def _(J):
    this = J.this("Session::QoSData"); usedset(J); c, q = counters(J, this); f = J.fn("Session::QoSData::increaseFlowControlQuota"); J.run(f, this, J.args(f)); J.cover("at the announced maximum", q == c)
    J.post("one slot more, never more than announced", J.f(this, "flowControlQuota") == z3.If(q == c, c, q + 1)); J.post("the announced maximum stays", J.f(this, "flowControlCealing") == c)
@spec.job("Session::QoSData::resetFlowControlCounters")
def _(J):
    this = J.this("Session::QoSData"); f = J.fn("Session::QoSData::resetFlowControlCounters"); a = J.args(f); J.run(f, this, a); n = resize(a[0].t, 32, False)
    J.post("all slots of the announced maximum are free", z3.And(J.f(this, "flowControlQuota") == n, J.f(this, "flowControlCealing") == n)); J.post("counters well-formed", wf(J, this))
@spec.job("Session::QoSData::decreaseFlowControlQuotaAgain")
def _(J):
    this = J.this("Session::QoSData"); usedset(J); c, q = counters(J, this); f = J.fn("Session::QoSData::decreaseFlowControlQuotaAgain"); J.run(f, this, J.args(f))
    J.post("one slot less", z3.And(J.f(this, "flowControlQuota") == q - 1, J.f(this, "flowControlCealing") == c)); J.post("counters well-formed when a slot was free", z3.Implies(q > 0, wf(J, this)))
@spec.job("Session::QoSData::flowControlExhausted")
def _(J):
    this = J.this("Session::QoSData"); c, q = counters(J, this); f = J.fn("Session::QoSData::flowControlExhausted"); r = J.run(f, this, []).t; J.post("exhausted exactly when no slot is free", r == (q == 0))
@spec.job("Session::QoSData::getNextPacketId")
def _(J):
    this = J.this("Session::QoSData"); usedset(J); c, q = counters(J, this)
    r = J.run("Session::QoSData::getNextPacketId", this, []); has = r.lv[0]; J.cover("given", has); J.post("no identifier without a free slot", z3.Implies(has, q > 0)); J.post("a given identifier takes one slot", J.f(this, "flowControlQuota") == z3.If(has, q - 1, q)); J.post("counters well-formed", z3.And(wf(J, this), J.f(this, "flowControlCealing") == c))
@spec.job("window invariant")
def _(J):
    q, c, o = z3.BitVecs("quota ceiling outstanding", 32); inv = lambda q, o: z3.And(q >= 0, o >= 0, c <= 65535, q <= c, q + o <= c)
    J.lemma("sending with a slot keeps the number outstanding within the announced maximum", z3.Implies(z3.And(inv(q, o), q > 0), z3.And(inv(q - 1, o + 1), o + 1 <= c)))
    J.lemma("finishing one outstanding message keeps it", z3.Implies(z3.And(inv(q, o), o > 0), inv(z3.If(q + 1 <= c, q + 1, c), o - 1)))
    J.lemma("finishing a handshake begun on an earlier connection keeps the quota within the announced maximum", z3.Implies(inv(q, o), z3.If(q + 1 <= c, q + 1, c) <= c))
    J.lemma("connecting establishes it", z3.Implies(z3.And(c >= 0, c <= 65535), inv(c, bv(0, 32))))
ack_jobs(spec)
@spec.job("Session::setSessionProperties")
def _(J):
    this = J.this("Session"); f = J.fn("Session::setSessionProperties"); a = J.args(f); J.run(f, this, a); n = resize(a[0].t, 32, False); d = this.fld("qos").fld("d")
    J.post("connecting opens exactly the announced window", z3.And(J.f(d, "flowControlQuota") == n, J.f(d, "flowControlCealing") == n))
@spec.job("Session::writePacket")
def _(J):
    this = J.this("Session"); f = J.fn("Session::writePacket"); a = J.args(f); J.assume(ule(a[1].t, bv(2, 8))); usedset(J); E = J.E; E.opaque_keeps = "logging, copies of settings and the ACL check do not change the session"
    J.ghost("claimed", z3.BoolVal(False)); J.ghost("id", bv(0, 16)); J.ghost("queued", z3.BoolVal(False)); J.ghost("written", z3.BoolVal(False)); eq = z3.BitVec("effqos", 8); J.assume(ule(eq, a[1].t)); give = z3.Bool("give"); gid = z3.BitVec("gid", 16)
    E.contracts["PublishCopyFactory::getEffectiveQos"] = lambda E, c: Val(shape_of(c.ret), [eq])
    bytes_, cnt = z3.BitVec("queued_bytes", 64), z3.BitVec("queued_count", 64); lim = []
    E.contracts["Session::QoSData::getQueuedByteSize"] = lambda E, c: Val(shape_of(c.ret), [bytes_]); E.contracts["Session::QoSData::getQueuedCount"] = lambda E, c: Val(shape_of(c.ret), [cnt])
    def nid(E, c):
        E.prove("takes at most one slot", z3.Not(J.ghost("claimed")), "call"); J.ghost("claimed", z3.And(give)); J.ghost("id", gid); E.assume(gid != 0); return Val(shape_of(c.ret), [give, gid])
    def queue(E, c): E.prove("only a message with a slot is queued", J.ghost("claimed"), "call"); E.prove("queued under the identifier it got", E.rv(c.args[1]).t == J.ghost("id"), "call"); J.ghost("queued", TRUE)
    def write(E, c):
        q = resize(c.t(1), 8, False); E.prove("a QoS message without a slot is never written", z3.Implies(q != 0, J.ghost("claimed")), "call"); E.prove("written with the identifier it got", c.t(2) == z3.If(q != 0, J.ghost("id"), bv(0, 16)), "call")
        E.prove("written with the effective QoS", q == eq, "call"); E.prove("written once", z3.Not(J.ghost("written")), "call"); J.ghost("written", TRUE); E.prove("a QoS message is kept until it is acknowledged", z3.Implies(z3.And(q != 0, z3.Not(J.f(this, "destroyOnDisconnect"))), J.ghost("queued")), "call")
        return E.fresh_val(shape_of(c.ret), "wr")
    E.contracts["Session::QoSData::getNextPacketId"] = nid; E.contracts["Session::QoSData::queuePublish"] = queue; E.contracts["Client::writeMqttPacketAndBlameThisClient"] = write
    J.pure("Session::QoSData::clearExpiredMessagesFromQueue", "Session::QoSData::markQoSLogPrinted", "Session::QoSData::currentPackedIdLogPrinted", "Authentication::aclCheck")
    J.run(f, this, a); J.cover("written with QoS", z3.And(J.ghost("written"), eq != 0)); J.cover("dropped", z3.And(eq != 0, z3.Not(J.ghost("claimed"))))
@spec.job("Session::sendAllPendingQosData", termination=False)
def _(J):
    this = J.this("Session"); usedset(J); E = J.E; E.opaque_keeps = "logging, the ACL check and copies of a message do not change the flow control counters"
    q, rm, taken, erased = "quota", z3.BitVec("rmax", 32), "taken", "erased"; J.assume(z3.And(rm >= 0, rm <= 65535)); J.ghost(q, rm); J.ghost(taken, bv(0, 32)); J.ghost("cur", bv(0, 16))
    E.contracts["Session::QoSData::flowControlExhausted"] = lambda E, c: E.boolv(J.ghost(q) <= 0)
    def dec(E, c): E.prove("a slot is free when a message is resent", J.ghost(q) > 0, "call"); J.ghost(q, J.ghost(q) - 1); J.ghost(taken, J.ghost(taken) + 1)
    E.contracts["Session::QoSData::decreaseFlowControlQuotaAgain"] = dec
    J.pure("Session::QoSData::eraseQueuedPublish", "Session::QoSData::releasePacketId", "Logger::logf", "PublishCopyFactory::PublishCopyFactory", "MqttPacket::MqttPacket", "PubResponse::PubResponse", "Client::writeMqttPacketAndBlameThisClient", "Client::isRetainedAvailable", "Client::getProtocolVersion", "Publish::Publish")
    J.run("Session::sendAllPendingQosData", this, [])
    J.post("never more messages resent than the receive maximum", z3.And(J.ghost(taken) + J.ghost(q) == rm, J.ghost(q) >= 0))
