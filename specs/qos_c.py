"""Contracts of the packet id set and the flow control counters of a session (proved in C12, C14), shared by C14-C16."""
from fvc.spec import *
B16 = z3.BitVecSort(16); SET = z3.ArraySort(B16, z3.BoolSort())
def usedset(J, name="used"):
    """ghost set of packet ids in use; UsedIds members act on it (their own bodies are proved against this in C12)"""
    E = J.E; J.ghost("used", z3.Const(name, SET))
    E.contracts["UsedIds::contains"] = lambda E, c: E.boolv(z3.Select(J.ghost("used"), c.t(0)))
    def ins(E, c): J.ghost("used", z3.Store(J.ghost("used"), c.t(0), TRUE))
    def era(E, c): J.ghost("used", z3.Store(J.ghost("used"), c.t(0), FALSE))
    E.contracts["UsedIds::insert"] = ins; E.contracts["UsedIds::erase"] = era
    return J.ghost("used")

def ack_jobs(spec):
    """the session's side of an acknowledgement"""
    @spec.job("Session::clearQosMessage")
    def _(J):
        this = J.this("Session"); f = J.fn("Session::clearQosMessage"); a = J.args(f); x = a[0].t; usedset(J)
        J.ghost("raised", bv(0, 32)); J.ghost("erased", bv(0, 32)); found = z3.Bool("found"); awaits = z3.Bool("awaits"); J.pure("Logger::wouldLog", "Logger::logf", "Session::QoSData::getQueuedCount")
        def inc(E, c): E.prove("the slot of the acknowledged message is the one freed", c.t(0) == x, "call"); J.ghost("raised", J.ghost("raised") + 1)
        def era(E, c): E.prove("only the acknowledged message is removed", c.t(0) == x, "call"); J.ghost("erased", J.ghost("erased") + 1); return E.boolv(found)
        def aw(E, c): E.prove("asks for this message", c.t(0) == x, "call"); return E.boolv(awaits)
        J.E.contracts["Session::QoSData::increaseFlowControlQuota"] = inc; J.E.contracts["Session::QoSData::eraseQueuedPublish"] = era; J.E.contracts["Session::QoSData::packetIdAwaitsAck"] = aw
        d = J.f(this, "destroyOnDisconnect"); r = J.run(f, this, a).t; known = z3.If(d, awaits, found)
        J.cover("freed", J.ghost("raised") == 1); J.post("says whether the message was pending", r == known); J.post("frees one slot exactly when a pending message is finished", J.ghost("raised") == z3.If(z3.And(known, a[1].t), bv(1, 32), bv(0, 32)))
        J.post("the queued message is removed once", z3.Implies(z3.Not(d), J.ghost("erased") == 1))
    @spec.job("Session::removeOutgoingQoS2MessageId")
    def _(J):
        this = J.this("Session"); f = J.fn("Session::removeOutgoingQoS2MessageId"); a = J.args(f); x = a[0].t; usedset(J); J.pure("Logger::wouldLog", "Logger::logf"); J.ghost("raised", bv(0, 32))
        def inc(E, c): E.prove("the slot of the finished handshake is the one freed", c.t(0) == x, "call"); J.ghost("raised", J.ghost("raised") + 1)
        J.E.contracts["Session::QoSData::increaseFlowControlQuota"] = inc; out = J.E.load(this.fld("qos").fld("d").fld("outgoingQoS2MessageIds")); y = z3.BitVec("y", 16)
        J.run(f, this, a); now = J.E.load(this.fld("qos").fld("d").fld("outgoingQoS2MessageIds")); had = z3.Select(out.lv[1], x);
        J.post("frees one slot exactly when the handshake was pending", J.ghost("raised") == z3.If(had, bv(1, 32), bv(0, 32))); J.post("exactly this handshake is finished", z3.Select(now.lv[1], y) == z3.And(z3.Select(out.lv[1], y), y != x))

def responses(J):
    """ghosts: the acknowledgement packet last built (type, identifier, reason) and how many were written"""
    E = J.E; J.ghost("rtype", bv(0, 8)); J.ghost("rid", bv(0, 16)); J.ghost("rcode", bv(0, 8)); J.ghost("made", z3.BoolVal(False)); J.ghost("answers", bv(0, 32))
    def mk(E, c):
        p = c.args[0]; J.ghost("rtype", resize(J.f(p, "packet_type"), 8, False)); J.ghost("rid", J.f(p, "packet_id")); J.ghost("rcode", resize(J.f(p, "reason_code"), 8, False)); J.ghost("made", TRUE)
    def wr(E, c): E.prove("only a freshly built acknowledgement is written", J.ghost("made"), "call"); J.ghost("made", z3.BoolVal(False)); J.ghost("answers", J.ghost("answers") + 1); return E.fresh_result(c.ret, "wr")
    E.contracts["MqttPacket::MqttPacket"] = mk; E.contracts["Client::writeMqttPacket"] = wr; J.pure("MqttPacket::~MqttPacket")
def incoming(J, name="inc"):
    E = J.E; J.ghost("inc", z3.Const(name, SET)); s0 = J.ghost("inc")
    E.contracts["Session::incomingQoS2MessageIdInTransit"] = lambda E, c: E.boolv(z3.Select(J.ghost("inc"), c.t(0)))
    def add(E, c): J.ghost("inc", z3.Store(J.ghost("inc"), c.t(0), TRUE))
    def rem(E, c): x = z3.Select(J.ghost("inc"), c.t(0)); J.ghost("inc", z3.Store(J.ghost("inc"), c.t(0), FALSE)); return E.boolv(x)
    E.contracts["Session::addIncomingQoS2MessageId"] = add; E.contracts["Session::removeIncomingQoS2MessageId"] = rem
    return s0
PUBACK, PUBREC, PUBREL, PUBCOMP = 4, 5, 6, 7
