"""C27: topic aliases in both directions."""
from fvc.spec import *
spec = Spec("C27", ["client.cpp", "mqttpacket.cpp", "publishcopyfactory.cpp", "types.cpp"], harness="c27.cpp", harness_secs=10, trusted=["the alias lock is held from choosing a new alias until its packet is in the output buffer (locks are not modelled)"],
            standin="random publishers and subscribers with aliases on the real broker (bounded)")
import c11
for n, fn, kw in c11.spec.jobs:
    if n in ("PublishCopyFactory::getOptimumPacket", "MqttPacket(protocol version, Publish, ...)"): spec.job(n, **kw)(fn)
def table(J, loc):
    def at(k): m = J.E.load(loc); return z3.Select(m.lv[1], k), z3.Select(m.lv[2], k)
    return at
@spec.job("Client::setTopicAlias")
def _(J):
    this = J.this("Client"); f = J.fn("Client::setTopicAlias"); a = J.args(f); E = J.E; at = table(J, this.fld("incomingTopicAliases")); id, t = a[0].t, J.val(a[1]).t; mx = J.f(this, "maxIncomingTopicAliasValue"); k = z3.BitVec("other", 16); b, mine = at(k), at(id); bad = z3.Or(id == 0, z3.And(slen(t) != 0, ugt(id, mx))); J.pure("formatString", throws=False)
    J.on_throws(lambda ety, v: (J.post("refused only when the alias is 0 or too high", bad), J.post("nothing is bound then", z3.And(at(k)[0] == b[0], z3.Implies(b[0], at(k)[1] == b[1])))))
    ok, r = J.run_any(f, this, a)
    if ok: J.cover("bound", slen(t) != 0); J.post("alias 0 and aliases above the maximum are refused", z3.Not(bad)); J.post("bound to this topic", z3.Implies(slen(t) != 0, z3.And(at(id)[0], E.str_eq(at(id)[1], t)))); J.post("other aliases stay bound as they were", z3.Implies(z3.Or(k != id, slen(t) == 0), z3.And(at(k)[0] == b[0], z3.Implies(b[0], at(k)[1] == b[1]))))
@spec.job("Client::getTopicAlias")
def _(J):
    this = J.this("Client"); f = J.fn("Client::getTopicAlias"); a = J.args(f); E = J.E; at = table(J, this.fld("incomingTopicAliases")); h, t = at(a[0].t); J.pure("std::to_string", throws=False); J.on_throws(lambda ety, v: J.post("refused only when never bound", z3.Not(h)))
    ok, r = J.run_any(f, this, a)
    if ok: J.cover("known", h); J.post("the topic last bound", z3.And(h, E.str_eq(E.load(r).t if isinstance(r, Loc) else E.rv(r).t, t)))
@spec.job("MqttPacket::parsePublishData", houdini_ms=200)
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::parsePublishData"); a = J.args(f); E = J.E; E.opaque_keeps = "readers and getters do not touch the topic"; J.assume(E.load(a[0]).lv[0] != null); top = lambda: J.f(this, "publishData", "topic"); cl = E.load(a[0]).lv[0]; al = z3.Const("alias_topic", StrS); J.assume(slen(al) != 0); J.ghost("got", bv(0, 32)); J.ghost("first", TRUE); t0 = z3.Const("packet_topic", StrS); J.ghost("two", bv(0, 16)); J.ghost("bound", bv(0, 32)); J.ghost("id", bv(0, 16)); J.ghost("aliases", bv(0, 32)); pv = J.f(this, "protocolVersion")
    def rs(E, c): r = z3.If(J.ghost("first"), t0, z3.Const(fresh_name("text"), StrS)); J.ghost("first", FALSE); E.maybe_throw(E.fresh_val(BOOL, "t").t, "ProtocolError"); return Val(shape_of(c.ret), [r])
    E.contracts["MqttPacket::readBytesToString"] = rs
    def two(E, c): v = z3.BitVec(fresh_name("two"), 16); E.maybe_throw(E.fresh_val(BOOL, "t").t, "ProtocolError"); J.ghost("two", v); return Val(shape_of(c.ret), [v])
    E.contracts["MqttPacket::readTwoBytesToUInt16"] = two
    J.pure("MqttPacket::readUint8", "MqttPacket::readByte", "MqttPacket::readFourBytesToUint32", "MqttPacket::decodeVariableByteIntAtPos", "MqttPacket::withinBound", "MqttPacket::setPosToDataStart", "MqttPacket::remainingAfterPos", "Publish::setExpireAfter", "PublishBase::setExpireAfter", "PublishBase::addUserProperty", "Publish::addUserProperty", "isValidUtf8Generic", "MqttPacket::getPayloadView", "propertyToString", "Client::getUsername", "Client::getClientId", "Client::getClientType", "ThreadGlobals::getSettings", throws=True)
    def get(E, c): E.prove("looked up only when the packet names no topic, with the alias of the packet", z3.And(c.this.root[1] == cl, slen(top()) == 0, c.t(0) == J.ghost("two"), c.t(0) != 0, J.ghost("aliases") == 0), "call"); J.ghost("got", bv(1, 32)); J.ghost("aliases", J.ghost("aliases") + 1); E.maybe_throw(E.fresh_val(BOOL, "t").t, "ProtocolError"); return E.temp(Val(shape_of(c.ret.noref()), [al]))
    def st(E, c): E.prove("bound to the topic of the packet", z3.And(c.this.root[1] == cl, E.str_eq(E.load(c.args[1]).t, t0), slen(t0) != 0, c.t(0) == J.ghost("two"), c.t(0) != 0, J.ghost("aliases") == 0), "call"); J.ghost("bound", bv(1, 32)); J.ghost("aliases", J.ghost("aliases") + 1); E.maybe_throw(E.fresh_val(BOOL, "t").t, "ProtocolError")
    E.contracts["Client::getTopicAlias"] = get; E.contracts["Client::setTopicAlias"] = st
    def gen(E, ctx): return [("the topic of the packet, or the one its alias stands for", z3.And(E.str_eq(top(), z3.If(J.ghost("got") == 1, al, t0)), z3.Implies(J.ghost("got") == 1, slen(t0) == 0), ule(J.ghost("got"), bv(1, 32)), z3.Not(J.ghost("first")))), ("one alias at most", z3.And(J.ghost("aliases") == J.ghost("got") + J.ghost("bound"), ule(J.ghost("bound"), bv(1, 32)), ule(J.ghost("aliases"), bv(1, 32)))), ("not reusing the packet when it has an alias", z3.Implies(J.ghost("aliases") != 0, J.f(this, "dontReuseBites")))] + [("one alias property counted", z3.Select(m.h, bv(2)) == resize(J.ghost("aliases"), 8, False)) for m in ctx.mods if z3.is_array(m.h) and m.h.sort() == A8]
    E.loop_specs.append(gen); ok, r = J.run_any(f, this, a)
    if ok: J.post("the topic of the packet, or the one its alias stands for", E.str_eq(top(), z3.If(slen(t0) != 0, t0, al))); J.post("which is not empty", slen(top()) != 0); J.post("a packet with an alias is not passed on as it is", z3.Implies(J.ghost("aliases") != 0, J.f(this, "dontReuseBites")))
@spec.job("Client::writeMqttPacketAndBlameThisClient")
def _(J):
    this = J.this("Client"); f = J.fn("Client::writeMqttPacketAndBlameThisClient", ["PublishCopyFactory", "char", "short", "bool", "int", "optional"]); a = J.args(f); E = J.E; E.opaque_keeps = "locks"; pk = J.this("MqttPacket", "packet"); oa = J.path(this, "outgoingTopicAliases", "d"); at = table(J, oa.fld("aliases")); cur = lambda: J.f(oa, "cur_alias"); mx = J.f(this, "maxOutgoingTopicAliasValue"); pv = J.f(this, "protocolVersion"); ft = J.temp(J.sym(J.fn("PublishCopyFactory::getTopic").d["ret"] if False else "std::string", "factory_topic")) if False else None
    ftv = z3.Const("factory_topic", StrS); E.contracts["PublishCopyFactory::getTopic"] = lambda E, c: E.temp(Val(shape_of(c.ret.noref()), [ftv])); ov = E.load(a[5]).lv; topic = z3.If(ov[0], ov[1], ftv); k1, k2 = z3.Consts("topic1 topic2", StrS)
    inv = lambda x, y: z3.And(*[z3.Implies(at(x)[0], z3.And(at(x)[1] != 0, ule(at(x)[1], cur())))] + [z3.Implies(z3.And(at(x)[0], at(y)[0], x != y), at(x)[1] != at(y)[1])])
    J.assume(z3.And(*[inv(x, y) for x in (topic, k1, k2) for y in (topic, k1, k2)])); J.assume(ule(cur(), mx)); c0, before, b1 = cur(), at(topic), at(k1); J.ghost("alias", bv(0, 16)); J.ghost("skip", FALSE); J.ghost("built", FALSE); J.ghost("ok", FALSE); J.ghost("wrote", FALSE)
    J.pure("MqttPacket::getQos", "MqttPacket::setPacketId", "MqttPacket::setQos", "MqttPacket::setRetain", "PublishCopyFactory::getEffectiveQos", throws=False)
    def get(E, c):
        al, sk = c.t(2), E.rv(c.args[3]).t; E.prove("an alias without topic only when bound to this topic", z3.Implies(sk, z3.And(before[0], al == before[1])), "call"); E.prove("a new alias comes with the topic and is not used otherwise", z3.Implies(z3.And(al != 0, z3.Not(sk)), z3.And(z3.Not(before[0]), z3.Implies(b1[0], b1[1] != al))), "call"); E.prove("only aliases the client allows", z3.Implies(z3.Or(al != 0, sk), z3.And(pv == 5, al != 0, ule(al, mx))) if True else TRUE, "call"); E.prove("the topic for this receiver", z3.And(E.load(c.args[5]).lv[0] == ov[0], z3.Implies(ov[0], E.str_eq(E.load(c.args[5]).lv[1], ov[1]))), "call")
        J.ghost("alias", al); J.ghost("skip", sk); J.ghost("built", TRUE); return Val(shape_of(c.ret), [pk.root[1]])
    E.contracts["PublishCopyFactory::getOptimumPacket"] = get; J.assume(z3.Or(*[pv == x for x in (0, 3, 4, 5)]))
    one = J.fn("Client::writeMqttPacketAndBlameThisClient", ["MqttPacket"])
    def wr(E, c): E.prove("this packet, once", z3.And(c.args[0].root[1] == pk.root[1], z3.Not(J.ghost("wrote")), J.ghost("built")), "call"); J.ghost("wrote", TRUE); r = E.fresh_val(shape_of(c.ret), "drop"); J.ghost("ok", r.t == 0); return r
    E.contracts[(one.qn, 1)] = wr
    ok, r = J.run_any(f, this, a)
    if ok:
        new = z3.And(J.ghost("ok"), J.ghost("alias") != 0, z3.Not(J.ghost("skip"))); J.post("an introduced alias is bound to its topic", z3.Implies(new, z3.And(at(topic)[0], at(topic)[1] == J.ghost("alias")))); J.post("an alias whose packet was dropped is not bound", z3.Implies(z3.Not(new), z3.And(at(topic)[0] == before[0], z3.Implies(before[0], at(topic)[1] == before[1]), cur() == c0))); J.post("aliases of other topics stay", z3.Implies(k1 != topic, z3.And(at(k1)[0] == b1[0], z3.Implies(b1[0], at(k1)[1] == b1[1])))); J.post("no alias for two topics", z3.And(inv(k1, k2), ule(cur(), mx))); J.cover("new", new)
