"""C37: topic prefixes of bridges."""
from fvc.spec import *
spec = Spec("C37", ["session.cpp", "mqttpacket.cpp", "client.cpp", "utils.cpp", "types.cpp", "qospacketqueue.cpp"], harness="c37.cpp", harness_secs=10, trusted=["payload and properties of what is delivered: C11"],
            standin="random bridges with prefixes on the real broker (bounded)")
any = z3.BitVec("any", 64); PRE = z3.Function("begins_with", StrS, StrS, z3.BoolSort())
def prefixed(lp, t): return z3.And(lp[0], PRE(t, lp[1]), ugt(slen(t), slen(lp[1])))
def is_expected(x, remove, add, t):
    """x is t without the prefix to remove (where present) and with the prefix to add"""
    cut = z3.If(prefixed(remove, t), slen(remove[1]), bv(0)); pl = z3.If(add[0], slen(add[1]), bv(0))
    return z3.And(slen(x) == pl + slen(t) - cut, z3.Implies(ult(any, pl), sat(x, any) == sat(add[1], any)), z3.Implies(z3.And(uge(any, pl), ult(any, slen(x))), sat(x, any) == sat(t, any - pl + cut)))
def starts(J):
    J.assume(ule(any, bv(1 << 40)))
    def h(E, c): s, n = E.rv(c.args[0]).t, E.rv(c.args[1]).t; E.assume(z3.Implies(PRE(s, n), uge(slen(s), slen(n)))); return E.boolv(PRE(s, n))
    J.E.contracts["startsWith"] = h
@spec.job("startsWith")
def _(J):
    f = J.fn("startsWith"); a = J.args(f); E = J.E; s, n = J.val(a[0]).t, J.val(a[1]).t
    def gen(E, ctx):
        out = []
        for m in ctx.ints(64): out.append(("the same up to here", z3.Implies(ult(any, m.h), sat(s, any) == sat(n, any)))); out.append(("inside", ule(m.h, slen(n))))
        return out
    E.loop_specs.append(gen); wit = z3.BitVec("wit", 64); r = J.run(f, None, a).t; J.cover("yes", r); J.post("begins with it", z3.Implies(r, z3.And(ule(slen(n), slen(s)), z3.Implies(ult(any, slen(n)), sat(s, any) == sat(n, any)))))
    J.post("whenever it does", z3.Implies(z3.And(ule(slen(n), slen(s)), z3.ForAll([wit], z3.Implies(ult(wit, slen(n)), sat(s, wit) == sat(n, wit)))), r))
@spec.job("Session::writePacket")
def _(J):
    this = J.this("Session"); f = J.fn("Session::writePacket"); a = J.args(f); E = J.E; E.opaque_keeps = "logging, copies of settings and getters deliver nothing"; starts(J); t = z3.Const("topic", StrS); lp, rp = [E.load(this.fld(x)).lv for x in ("local_prefix", "remote_prefix")]; J.assume(ule(slen(t), bv(65535))); J.assume(z3.And(ule(slen(lp[1]), bv(65535)), ule(slen(rp[1]), bv(65535)))); J.ghost("n", bv(0, 32)); J.ghost("q", bv(0, 32))
    E.contracts["PublishCopyFactory::getTopic"] = lambda E, c: E.temp(Val(shape_of(c.ret.noref()), [t]))
    def chk(E, c, what):
        l = next(x for x in c.args if isinstance(x, (Val, Loc)) and (x.sh if isinstance(x, Loc) else x.sh).kind == "opt"); ov = E.rv(l).lv; E.prove("%s with the remote prefix added and the local one removed" % what, z3.If(ov[0], is_expected(ov[1], lp, rp, t), z3.And(z3.Not(rp[0]), z3.Not(prefixed(lp, t)))), "call")
    def queue(E, c): chk(E, c, "queued"); J.ghost("q", J.ghost("q") + 1); return E.fresh_result(c.ret, "r") if c.ret is not None and c.ret.k != "void" else None
    def send(E, c): chk(E, c, "sent"); J.ghost("n", J.ghost("n") + 1); return E.fresh_result(c.ret, "r")
    E.contracts["Session::QoSData::queuePublish"] = queue; E.contracts["QoSPublishQueue::queuePublish"] = queue; E.contracts["Client::writeMqttPacketAndBlameThisClient"] = send
    J.pure("PublishCopyFactory::getEffectiveQos", "PublishCopyFactory::getEffectiveRetain", "Client::isRetainedAvailable", "Session::QoSData::getNextPacketId", "Session::QoSData::clearExpiredMessagesFromQueue", "Session::QoSData::markQoSLogPrinted", "Session::QoSData::currentPackedIdLogPrinted", "PublishCopyFactory::getSubtopics", "PublishCopyFactory::getPayload", "PublishCopyFactory::getCorrelationData", "PublishCopyFactory::getResponseTopic", "PublishCopyFactory::getContentType", "PublishCopyFactory::getExpiresAt", "PublishCopyFactory::getUserProperties", "Authentication::aclCheck", "Session::QoSData::getQueuedByteSize", "Session::QoSData::getQueuedCount")
    J.run(f, this, a); J.cover("sent", J.ghost("n") == 1); J.post("at most once", ule(J.ghost("n"), bv(1, 32)))
@spec.job("MqttPacket::handlePublish")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handlePublish"); a = J.args(f); E = J.E; E.opaque_keeps = "logging, counters and getters do not change the topic"; starts(J); top = lambda: J.f(this, "publishData", "topic"); t = top(); J.assume(z3.And(slen(t) != 0, ule(slen(t), bv(65535)))); lp, rp = [(z3.Bool("has_" + x), z3.Const(x, StrS)) for x in ("local_prefix", "remote_prefix")]; J.assume(z3.And(ule(slen(lp[1]), bv(65535)), ule(slen(rp[1]), bv(65535)))); J.ghost("split", FALSE); J.ghost("seen", FALSE); J.ghost("alt", FALSE)
    for n, p in (("Local", lp), ("Remote", rp)): E.contracts["Client::get%sPrefix" % n] = lambda E, c, p=p: E.temp(Val(shape_of(c.ret.noref()), [p[0], p[1]]))
    def resplit(E, c): J.ghost("split", E.str_eq(top(), top())); J.ghost("split", TRUE)
    E.contracts["Publish::resplitTopic"] = resplit; E.contracts["PublishBase::resplitTopic"] = resplit; ch = z3.Or(lp[0], prefixed(rp, t))
    def now(E, c):
        if z3.is_false(J.ghost("seen")): pass
        E.prove("received with the remote prefix removed and the local one added", z3.Implies(z3.Not(J.ghost("seen")), is_expected(top(), rp, lp, t)), "call"); E.prove("the levels follow the new topic, and the packet is not passed on as it came", z3.Implies(ch, z3.And(J.ghost("split"), J.f(this, "dontReuseBites"))), "call"); J.ghost("seen", TRUE); return E.fresh_result(c.ret, "r") if c.ret is not None and c.ret.k != "void" else None
    E.contracts["AckSender::AckSender"] = now
    def alter(E, c): E.prove("plugins see that topic", z3.And(J.ghost("seen"), z3.Or(z3.BoolVal(False), is_expected(E.rv(c.args[1]).t, rp, lp, t))), "call"); J.ghost("alt", TRUE); return E.fresh_result(c.ret, "r")
    E.contracts["Authentication::alterPublish"] = alter
    J.pure("MqttPacket::parsePublishData", "Authentication::aclCheck", "MqttPacket::setRetain", "MqttPacket::getPayloadView", "MqttPacket::getPayloadCopy", "Publish::getSubtopics", "Publish::getUserProperties", "PublishCopyFactory::PublishCopyFactory", "Logger::wouldLog", "MqttPacket::setPacketId", "SubscriptionStore::queuePacketAtSubscribers", "SubscriptionStore::trySetRetainedMessages", "AckSender::sendNow", "AckSender::setAckCode", "Client::getSession", "Client::getMaxQos", "Client::getMqtt3QoSExceedAction", "Client::getProtocolVersion", "Session::incomingQoS2MessageIdInTransit", "Session::addIncomingQoS2MessageId", "ThreadGlobals::getSettings", "Client::getClientId", "Client::getFmqClientGroupId")
    ok, r = J.run_any(f, this, a)
    if ok: J.post("checked", J.ghost("seen"))
for n, fld in (("getLocalPrefix", "local_prefix"), ("getRemotePrefix", "remote_prefix")):
    @spec.job("Client::" + n)
    def _(J, n=n, fld=fld):
        this = J.this("Client"); ses = J.f(this, "session"); E = J.E; ok, r = J.run_any("Client::" + n, this, [])
        if ok: v = E.load(r).lv; p = E.load(E.obj(ses, J.ty("Session")).fld(fld)).lv; J.post("the prefix of its session", z3.And(v[0] == p[0], z3.Implies(v[0], E.str_eq(v[1], p[1]))))
@spec.job("Session::sendAllPendingQosData")
def _(J):
    this = J.this("Session"); f = J.fn("Session::sendAllPendingQosData"); E = J.E; E.opaque_keeps = "x"
    J.pure("Publish::hasExpired", "Authentication::aclCheck", "Session::QoSData::eraseQueuedPublish", "Session::QoSData::releasePacketId", "Session::QoSData::flowControlExhausted", "Session::QoSData::decreaseFlowControlQuotaAgain", "Session::makeSharedClient", "Session::QoSData::getQoSQueueTail", "PublishCopyFactory::PublishCopyFactory", "Client::isRetainedAvailable", "MqttPacket::MqttPacket", "PubResponse::PubResponse", "QueuedPublish::getPacketId", "Client::getProtocolVersion")
    OV = z3.Function("override_of", StrS, StrS); HAS = z3.Function("has_override", StrS, z3.BoolSort())
    E.contracts["QueuedPublish::getTopicOverride"] = lambda E, c: (lambda p: E.temp(Val(shape_of(c.ret.noref()), [HAS(p), OV(p)])))(J.f(c.this, "publish", "payload"))
    def elem(l): o = E.load(l.fld("1")).lv if False else None
    def gen(E, ctx):
        out = []
        for v in E.st.L.values():
            if isinstance(v, Val) and v.sh.kind == "vec" and v.sh.elem.kind == "rec":
                p, h, o = comps(v); out.append(("each with the topic it was queued under", z3.Implies(ult(any, v.lv[0]), z3.And(h == HAS(p), z3.Implies(h, o == OV(p))))))
        return out
    def comps(v):
        f = v.sh.elem.fields; ks = list(f); pub = next(k for k in ks if f[k][1].kind == "rec"); op = next(k for k in ks if f[k][1].kind == "opt"); b = f[pub][0] + f[pub][1].fields["payload"][0]; q = f[op][0]; g = lambda i: z3.Select(v.lv[1 + i], any); return g(b), g(q), g(q + 1)
    E.loop_specs.append(gen)
    def wr(E, c):
        if c.n > 1:
            i = next(x[1] for x in c.args[5].path if x[0] == "i"); p = J.ghost("pay"); ov = E.rv(c.args[5]).lv; E.prove("with the topic it was queued under", z3.Implies(any == i, z3.And(ov[0] == HAS(p), z3.Implies(ov[0], ov[1] == OV(p)))), "call")
        return E.fresh_result(c.ret, "r")
    E.contracts["Client::writeMqttPacketAndBlameThisClient"] = wr; J.ghost("pay", z3.Const("nopay", StrS))
    def fac(E, c): J.ghost("pay", J.f(E.deref(E.rv(c.args[0])), "payload"))
    E.contracts["PublishCopyFactory::PublishCopyFactory"] = fac
    J.run_any(f, this, [])
