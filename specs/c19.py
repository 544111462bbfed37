"""C19: no message is routed, subscribed or delivered without passing the access check."""
from fvc.spec import *
from qos_c import *
from fvc.vals import Loc, StrS
from fvc.engine import SIter
spec = Spec("C19", ["session.cpp", "mqttpacket.cpp", "acksender.cpp", "packetdatatypes.cpp", "types.cpp", "subscriptionstore.cpp", "plugin.cpp", "utils.cpp"], harness="c19.cpp", harness_secs=12, trusted=["logging, settings, packet building and getters do not route messages or add subscriptions (frame)"],
            standin="random access rules, publishers and subscribers on the real broker compared with the rules (bounded)")
OK, NORET_DEL, NORET_SET, DROP, DENIED = 0, 51, 52, 53, 12
READ, WRITE, SUBSCRIBE = 1, 2, 4
def levels(J, a, cur, end):
    """arguments cur and end are iterators into one vector of topic levels"""
    E = J.E; v = E.fresh_val(shape_of(J.fn("SubscriptionStore::trySetRetainedMessages").params[1]["t"].noref()), "levels"); l = E.temp(v); i, n = z3.Const("at", I64), v.lv[0]; J.assume(ule(i, n))
    for k, x in ((cur, i), (end, n)): a[k] = Val(a[k].sh, [SIter(l, x)])
    return v, i
def same(E, a, b):
    a, b = E.rv(a), E.rv(b); return z3.And(*[x == y for x, y in zip(a.lv, b.lv)])
@spec.job("MqttPacket::handlePublish")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handlePublish"); a = J.args(f); E = J.E; E.opaque_keeps = "logging and counters route nothing"; responses(J); incoming(J); pd = this.fld("publishData")
    J.ghost("checked", z3.BoolVal(False)); J.ghost("res", bv(0, 32)); J.ghost("kept", z3.BoolVal(False)); J.ghost("routed", bv(0, 32)); J.ghost("topic", E.load(pd.fld("topic")).t)
    J.pure("MqttPacket::parsePublishData", "MqttPacket::setRetain", "MqttPacket::getPayloadView", "MqttPacket::getPayloadCopy", "Publish::resplitTopic", "Publish::getSubtopics", "Publish::getUserProperties", "PublishCopyFactory::PublishCopyFactory", "Logger::wouldLog", "MqttPacket::setPacketId", "startsWith")
    J.assume(ule(J.f(pd, "qos"), bv(2, 8))); top = lambda: E.load(pd.fld("topic")).t
    def acl(E, c):
        E.prove("the write right is what is checked", c.t(2) == WRITE if len(c.args) > 2 and c.args[2] is not None else TRUE, "call"); r = z3.FreshConst(z3.BitVecSort(32), "acl"); J.ghost("checked", TRUE); J.ghost("res", r); J.ghost("topic", top()); return Val(shape_of(c.ret), [r])
    E.contracts["Authentication::aclCheck"] = acl
    def alter(E, c): E.prove("a plugin changes the message before the check", z3.Not(J.ghost("checked")), "call"); E.store(pd.fld("topic"), E.fresh_val(shape_of(E.load(pd.fld("topic")).ty) if False else E.load(pd.fld("topic")).sh, "altered")); return E.fresh_result(c.ret, "alt")
    E.contracts["Authentication::alterPublish"] = alter
    def keep(E, c): E.prove("retained only after the write check succeeded", z3.And(J.ghost("checked"), J.ghost("res") == OK), "call"); E.prove("retained under the topic that was checked", top() == J.ghost("topic"), "call"); J.ghost("kept", TRUE); return E.fresh_result(c.ret, "ret") if c.ret is not None and c.ret.k != "void" else None
    for n in ("SubscriptionStore::trySetRetainedMessages", "SubscriptionStore::setRetainedMessage"): E.contracts[n] = keep
    def route(E, c): E.prove("routed only after the write check succeeded", z3.And(J.ghost("checked"), z3.Or(J.ghost("res") == OK, J.ghost("res") == NORET_SET)), "call"); E.prove("routed under the topic that was checked", top() == J.ghost("topic"), "call"); J.ghost("routed", J.ghost("routed") + 1)
    E.contracts["SubscriptionStore::queuePacketAtSubscribers"] = route
    ok, r = J.run_any(f, this, a); J.post("a refused message is neither routed nor retained", z3.Implies(z3.And(J.ghost("res") != OK, J.ghost("res") != NORET_SET), z3.And(J.ghost("routed") == 0, z3.Not(J.ghost("kept")))))
@spec.job("MqttPacket::handleSubscribe", termination=False)
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handleSubscribe"); a = J.args(f); E = J.E; E.opaque_keeps = "logging, settings and packet building add no subscriptions"; J.pure("MqttPacket::MqttPacket", "MqttPacket::~MqttPacket", "Client::writeMqttPacket"); tsh = []
    J.pure("MqttPacket::readBytesToString", "MqttPacket::readUint8", "MqttPacket::decodeVariableByteIntAtPos", "splitTopic", "isValidSubscribePath", "parseSubscriptionShare", "getFirstWildcardDepth", "SubAck::SubAck", "Logger::wouldLog", "Publish::addUserProperty", "propertyToString", "MqttPacket::getUserProperties", "Authentication::alterSubscribe", "formatString")
    J.ghost("res", bv(DENIED, 32)); J.ghost("cur", bv(DENIED, 32)); J.ghost("sub", z3.Const("unchecked", z3.ArraySort(I64, StrS))); legal = lambda r: z3.Or(*[r == x for x in (OK, NORET_DEL, DROP)])
    def acl(E, c): r = z3.FreshConst(z3.BitVecSort(32), "acl"); E.prove("the subscribe right is what is checked", c.t(6) == SUBSCRIBE, "call"); J.ghost("res", r); J.ghost("sub", E.rv(c.args[3]).lv[1]); return Val(shape_of(c.ret), [r])
    E.contracts["Authentication::aclCheck"] = acl
    def mk(E, c):
        r = c.t(6); E.prove("accepted only after the subscribe check succeeded", z3.And(z3.Or(J.ghost("res") == OK, J.ghost("res") == NORET_DEL, J.ghost("res") == DROP), z3.Or(r == OK, r == NORET_DEL, r == DROP)), "call"); E.prove("a restriction by the check is kept", z3.Implies(J.ghost("res") != OK, r == J.ghost("res")), "call")
        E.prove("the filter accepted is the one checked", E.rv(c.args[1]).lv[1] == J.ghost("sub"), "call"); J.ghost("res", bv(DENIED, 32)); tsh.append(c.this.sh); J.set(c.this, "authResult", to=r)
    E.contracts["SubscriptionTuple::SubscriptionTuple"] = mk
    def add(E, c):
        l = c.args[1]; r = E.load(Loc(l.root, l.path[:-1], tsh[0], l.rsh).fld("authResult")).t; J.ghost("cur", r); E.prove("added only when the check allowed it", z3.Or(r == OK, r == NORET_DEL), "call"); return E.fresh_result(c.ret, "add")
    E.contracts["SubscriptionStore::addSubscription"] = add
    def give(E, c): E.prove("retained messages follow only an unrestricted subscription", J.ghost("cur") == OK, "call"); return E.fresh_result(c.ret, "give") if c.ret is not None and c.ret.k != "void" else None
    E.contracts["SubscriptionStore::giveClientRetainedMessages"] = give
    i = z3.Const("i", I64)
    def gen(E, ctx):
        lens = [m.h for m in ctx.ints(64)]; return [("accepted filters were allowed", z3.ForAll([i], z3.Implies(z3.ULT(i, n), legal(z3.Select(m.h, i))), patterns=[z3.Select(m.h, i)])) for m in ctx.mods if z3.is_array(m.h) and m.h.sort() == z3.ArraySort(I64, z3.BitVecSort(32)) for n in lens]
    E.loop_specs.append(gen)
    J.run_any(f, this, a)
@spec.job("Session::writePacket")
def _(J):
    this = J.this("Session"); f = J.fn("Session::writePacket"); a = J.args(f); J.assume(ule(a[1].t, bv(2, 8))); E = J.E; E.opaque_keeps = "logging, copies of settings and getters deliver nothing"; usedset(J); J.ghost("ok", z3.BoolVal(False)); J.ghost("done", z3.BoolVal(False))
    me, user = E.load(this.fld("client_id")), E.load(this.fld("username"))
    def acl(E, c):
        E.prove("the read right of this subscriber is what is checked", z3.And(c.t(6) == READ, E.rv(c.args[0]).t == me.t, E.rv(c.args[1]).t == user.t), "call"); r = z3.FreshConst(z3.BitVecSort(32), "acl"); J.ghost("ok", r == OK); return Val(shape_of(c.ret), [r])
    E.contracts["Authentication::aclCheck"] = acl
    def only(what):
        def h(E, c):
            E.prove("%s only after the read check succeeded" % what, J.ghost("ok"), "call"); J.ghost("done", TRUE)
            if c.ret is not None and c.ret.k != "void": return E.fresh_result(c.ret, "r")
        return h
    for n, w in (("Session::QoSData::getNextPacketId", "an identifier is taken"), ("Session::QoSData::queuePublish", "queued"), ("Client::writeMqttPacketAndBlameThisClient", "written"), ("QoSPublishQueue::queuePublish", "queued")): E.contracts[n] = only(w)
    J.pure("Session::QoSData::clearExpiredMessagesFromQueue", "Session::QoSData::markQoSLogPrinted", "Session::QoSData::currentPackedIdLogPrinted", "PublishCopyFactory::getEffectiveQos", "PublishCopyFactory::getEffectiveRetain", "PublishCopyFactory::getTopic", "PublishCopyFactory::getSubtopics", "PublishCopyFactory::getPayload", "PublishCopyFactory::getCorrelationData", "PublishCopyFactory::getResponseTopic", "PublishCopyFactory::getContentType", "PublishCopyFactory::getExpiresAt", "PublishCopyFactory::getUserProperties", "startsWith", "Session::QoSData::getQueuedByteSize", "Session::QoSData::getQueuedCount")
    J.run(f, this, a); J.cover("delivered", J.ghost("done")); J.post("nothing without the right", z3.Implies(J.ghost("done"), J.ghost("ok")))
@spec.job("Session::sendAllPendingQosData", termination=False)
def _(J):
    this = J.this("Session"); E = J.E; E.opaque_keeps = "logging and copies of a message deliver nothing"; usedset(J); J.ghost("ok", z3.BoolVal(False)); J.ghost("id", bv(0, 16))
    def acl(E, c): r = z3.FreshConst(z3.BitVecSort(32), "acl"); J.ghost("ok", r == OK); return Val(shape_of(c.ret), [r])
    E.contracts["Authentication::aclCheck"] = acl
    def dec(E, c): E.prove("a message is sent again only after a check succeeded", J.ghost("ok"), "call"); J.ghost("ok", z3.BoolVal(False))
    E.contracts["Session::QoSData::decreaseFlowControlQuotaAgain"] = dec
    J.pure("Session::QoSData::eraseQueuedPublish", "Session::QoSData::flowControlExhausted", "Session::QoSData::releasePacketId", "Logger::logf", "PublishCopyFactory::PublishCopyFactory", "MqttPacket::MqttPacket", "PubResponse::PubResponse", "Client::writeMqttPacketAndBlameThisClient", "Client::isRetainedAvailable", "Client::getProtocolVersion", "Publish::Publish", "Publish::hasExpired")
    J.run("Session::sendAllPendingQosData", this, [])
@spec.job("SubscriptionStore::sendWill")
def _(J):
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::sendWill"); a = J.args(f); E = J.E; E.opaque_keeps = "logging and counters route nothing"; J.ghost("res", bv(DENIED, 32)); J.ghost("n", bv(0, 32))
    def acl(E, c): r = z3.FreshConst(z3.BitVecSort(32), "acl"); E.prove("the write right is what is checked", E.rv(c.args[2]).t == WRITE, "call"); J.ghost("res", r); return Val(shape_of(c.ret), [r])
    E.contracts["Authentication::aclCheck"] = acl
    def route(E, c): E.prove("a will is routed only after the write check succeeded", z3.Or(J.ghost("res") == OK, J.ghost("res") == NORET_SET), "call"); J.ghost("n", J.ghost("n") + 1)
    def keep(E, c): E.prove("a will is retained only after an unrestricted write check", J.ghost("res") == OK, "call"); return E.fresh_result(c.ret, "k") if c.ret is not None and c.ret.k != "void" else None
    E.contracts["SubscriptionStore::queuePacketAtSubscribers"] = route; E.contracts["SubscriptionStore::setRetainedMessage"] = keep; E.contracts["SubscriptionStore::trySetRetainedMessages"] = keep
    J.pure("PublishCopyFactory::PublishCopyFactory", "Publish::getSubtopics", "Session::clearWill")
    J.run(f, this, a); J.post("at most once", ule(J.ghost("n"), bv(1, 32)))
@spec.job("SubscriptionStore::giveClientRetainedMessagesRecursively", termination=False, houdini_ms=60)
def _(J):
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::giveClientRetainedMessagesRecursively"); E = J.E; a = J.args(f); levels(J, a, 0, 1); E.opaque_keeps = "logging and copies of a message deliver nothing"; J.ghost("res", bv(DENIED, 32))
    def acl(E, c): r = z3.FreshConst(z3.BitVecSort(32), "acl"); J.ghost("res", r); return Val(shape_of(c.ret), [r])
    E.contracts["Authentication::aclCheck"] = acl
    def give(E, c): E.prove("a retained message is given only after a check succeeded", J.ghost("res") == OK, "call"); J.ghost("res", bv(DENIED, 32)); return E.fresh_result(c.ret, "g")
    E.contracts["Session::writePacket"] = give
    J.pure("PublishCopyFactory::PublishCopyFactory", "Publish::Publish", "RetainedMessage::hasExpired", "SubscriptionStore::giveClientRetainedMessagesRecursively")
    J.run_any(f, this, a)
