"""C11: delivered copies carry the right QoS, retain flag and identifier."""
from fvc.spec import *
spec = Spec("C11", ["publishcopyfactory.cpp", "mqttpacket.cpp", "client.cpp", "session.cpp", "types.cpp", "subscriptionstore.cpp"], harness="c11.cpp", harness_secs=10, trusted=["property lists of a PUBLISH are built by getPropertyBuilder from the fields set here (byte layout: C30)"],
            standin="random publishers and subscribers of all protocol versions on the real broker; every delivered packet compared with what the subscription asks for (bounded)")
def lvl(pv): return z3.If(pv == 0, bv(0, 32), z3.If(z3.Or(pv == 3, pv == 4), bv(10, 32), z3.If(pv == 5, bv(20, 32), bv(30, 32))))
def key(pv, qos): return lvl(pv) + z3.If(qos != 0, bv(1, 32), bv(0, 32))
def legalpv(pv): return z3.Or(*[pv == x for x in (0, 3, 4, 5)])
def mn(a, b): return z3.If(z3.ULT(b, a), b, a)
@spec.job("PublishCopyFactory::getEffectiveQos")
def _(J): this = J.this("PublishCopyFactory"); f = J.fn("PublishCopyFactory::getEffectiveQos"); a = J.args(f); r = J.run(f, this, a); J.post("the lower of the two", r.t == mn(J.f(this, "orgQos"), a[0].t))
@spec.job("PublishCopyFactory::getEffectiveRetain")
def _(J): this = J.this("PublishCopyFactory"); f = J.fn("PublishCopyFactory::getEffectiveRetain"); a = J.args(f); r = J.run(f, this, a); J.post("only when published with it and asked for", r.t == z3.And(J.f(this, "orgRetain"), a[0].t))
@spec.job("PublishCopyFactory::getPublishLayoutCompareKey")
def _(J): f = J.fn("PublishCopyFactory::getPublishLayoutCompareKey"); a = J.args(f); r = J.run(f, None, a); pv = a[0].t; J.assume(legalpv(pv)); J.post("same key only for the same layout", r.t == key(pv, a[1].t))
@spec.job("PublishCopyFactory::getOptimumPacket")
def _(J):
    this = J.this("PublishCopyFactory"); f = J.fn("PublishCopyFactory::getOptimumPacket"); a = J.args(f); E = J.E; pk, pb = J.f(this, "packet"), J.f(this, "publish"); J.assume(z3.And(z3.Or(pk != null, pb != null), ule(a[0].t, bv(2, 8)), ule(J.f(this, "orgQos"), bv(2, 8)))); T = J.ty("MqttPacket")
    E.contracts["PublishCopyFactory::getPublishLayoutCompareKey"] = lambda E, c: Val(shape_of(c.ret), [key(c.t(0), c.t(1))])
    org = E.obj(pk, T); reuse = z3.Bool("no_reuse"); E.contracts["MqttPacket::biteArrayCannotBeReused"] = lambda E, c: E.boolv(reuse); pdl = E.obj(pk, T).fld("publishData"); E.contracts["MqttPacket::getPublishData"] = lambda E, c: c.this.fld("publishData"); E.contracts["MqttPacket::getProtocolVersion"] = lambda E, c: E.load(c.this.fld("protocolVersion"))
    pv = a[1].t; J.assume(legalpv(pv)); q = mn(J.f(this, "orgQos"), a[0].t); J.ghost("built", bv(0, 32)); J.ghost("special", FALSE); J.ghost("plain", FALSE); sameloc = lambda x, y: isinstance(x, Loc) and x.root == y.root and x.path == y.path
    def build(E, c):
        v = [E.rv(x) if i not in (1, 6) else x for i, x in enumerate(c.args)]; E.prove("built from the message being delivered", z3.Or(z3.And(pk != null, z3.BoolVal(sameloc(c.args[1], pdl))), z3.And(pk == null, z3.BoolVal(isinstance(c.args[1], Loc) and c.args[1].path == ()), (c.args[1].root[1] == pb) if isinstance(c.args[1], Loc) and c.args[1].root[0] == "H" else FALSE)), "call")
        E.prove("for the receiver's version and QoS", z3.And(v[0].t == a[1].t, v[2].t == q), "call"); ov = E.load(c.args[6]).lv; o0 = E.load(a[5]).lv; special = z3.And(v[3].t == a[2].t, v[4].t == a[3].t, v[5].t == a[4].t, ov[0] == o0[0], z3.Implies(ov[0], ov[1] == o0[1])); plain = z3.And(v[3].t == 0, z3.Not(v[4].t), v[5].t == 0, z3.Not(ov[0]))
        J.ghost("built", J.ghost("built") + 1); J.ghost("special", special); J.ghost("plain", plain); J.set(c.this, "protocolVersion", to=v[0].t); J.set(c.this, "publishData", "qos", to=v[2].t)
    E.contracts["MqttPacket::MqttPacket"] = build
    cl = this.fld("constructedPacketCache"); kt = z3.Extract(7, 0, key(pv, q)); el = cl.ext(("k", kt), cl.sh.elem); m0 = E.load(cl).lv[1]; cached = lambda: z3.And(z3.Select(E.load(cl).lv[1], kt), E.load(el).lv[0])
    pay = lambda *n: J.f(J.opt(el), *n); inv = lambda: z3.Implies(cached(), key(pay("protocolVersion"), pay("publishData", "qos")) == key(pv, q)); J.assume(inv()); J.assume(z3.Implies(pk != null, (J.f(org, "publishData", "qos") != 0) == (J.f(this, "orgQos") != 0)))
    ok, r = J.run_any(f, this, a)
    if not ok: return
    p = E.deref(r); J.post("the packet has the layout of the receiver's version and QoS", key(J.f(p, "protocolVersion"), J.f(p, "publishData", "qos")) == key(pv, q)); J.post("shared copies stay under their own layout", inv()); need = z3.Or(E.load(a[5]).lv[0], z3.And(pv == 5, a[2].t != 0), a[4].t != 0); J.cover("reused", z3.And(pk != null, J.ghost("built") == 0)); J.cover("special", J.ghost("built") == 1)
    J.post("a copy made for this receiver has its alias, identifier and topic", z3.Implies(z3.Or(need, pk == null), z3.And(J.ghost("built") == 1, J.ghost("special"))))
    J.post("a shared copy has nothing specific to one receiver", z3.Implies(z3.And(J.ghost("built") == 1, z3.Not(z3.Or(need, pk == null))), J.ghost("plain")))
@spec.job("PublishCopyFactory::getNewPublish")
def _(J):
    this = J.this("PublishCopyFactory"); f = J.fn("PublishCopyFactory::getNewPublish"); a = J.args(f); E = J.E; pk, pb = J.f(this, "packet"), J.f(this, "publish"); J.assume(z3.Or(pk != null, pb != null)); E.contracts["MqttPacket::getPublishData"] = lambda E, c: c.this.fld("publishData"); T = J.ty("MqttPacket"); S = lambda *n: z3.If(pk != null, J.f(E.obj(pk, T), "publishData", *n), J.f(E.obj(pb, J.ty("Publish")), *n)); src = {n: S(n) for n in ("topic", "payload")}
    J.pure("MqttPacket::getQos"); ok, r = J.run_any(f, this, a)
    if not ok: return
    l = E.temp(E.rv(r)) if not isinstance(r, Loc) else r
    J.post("QoS", J.f(l, "qos") == mn(J.f(this, "orgQos"), a[0].t)); J.post("retain", J.f(l, "retain") == z3.And(J.f(this, "orgRetain"), a[1].t)); J.post("identifier of the subscription", J.f(l, "subscriptionIdentifier") == a[2].t)
    for n in src: J.post("the %s published" % n, E.str_eq(J.f(l, n), src[n]))

HDR = lambda J, this: J.val(this, "bites")
def header(J, fn, bits, what, argbits):
    """first byte after the change, in the packet object and in its bytes when it has a fixed header"""
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::" + fn); a = J.args(f); E = J.E; by = lambda: HDR(J, this); b0 = J.f(this, "first_byte"); n0 = by().lv[0]; d0 = by().lv[1]; any = z3.Const("any", I64); fh = J.f(this, "fixed_header_length"); J.assume(z3.And(ult(any, n0), z3.Implies(fh != 0, n0 != 0), ule(n0, bv(1 << 40))))
    if fn == "setQos": J.assume(ule(a[0].t, bv(2, 8)))
    ok, r = J.run_any(f, this, a)
    new = (resize(b0, 8, False) & bv(0xff ^ bits, 8)) | argbits(a); J.post("the first byte carries %s" % what, resize(J.f(this, "first_byte"), 8, False) == new)
    if ok: J.post("so do the bytes sent", z3.Implies(fh != 0, z3.Select(by().lv[1], bv(0)) == new)); J.post("no other byte changes", z3.Implies(z3.Or(any != 0, fh == 0), z3.Select(by().lv[1], any) == z3.Select(d0, any))); J.post("same length", by().lv[0] == n0)
    else: J.post("does not fail", FALSE)
@spec.job("MqttPacket::setQos")
def _(J): header(J, "setQos", 6, "the QoS", lambda a: a[0].t << 1)
@spec.job("MqttPacket::setRetain")
def _(J): header(J, "setRetain", 1, "the retain flag", lambda a: z3.If(a[0].t, bv(1, 8), bv(0, 8)))
@spec.job("MqttPacket::setPacketId")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::setPacketId"); a = J.args(f); by = lambda: HDR(J, this); d0, n0 = by().lv[1], by().lv[0]; p = J.f(this, "packet_id_pos"); any = z3.Const("any", I64); J.assume(z3.And(ule(n0, bv(1 << 40)), ule(p + 2, n0), ule(p, n0), ult(any, n0))); ok, r = J.run_any(f, this, a)
    if not ok: J.post("does not fail", FALSE); return
    b = by().lv[1]; hi, lo = z3.Extract(15, 8, a[0].t), z3.Extract(7, 0, a[0].t); J.post("the identifier is in the packet", z3.And(J.f(this, "packet_id") == a[0].t, z3.Select(b, p) == hi, z3.Select(b, p + 1) == lo)); J.post("no other byte changes", z3.Implies(z3.And(any != p, any != p + 1), z3.Select(b, any) == z3.Select(d0, any)))
@spec.job("Client::writeMqttPacketAndBlameThisClient")
def _(J):
    this = J.this("Client"); f = J.fn("Client::writeMqttPacketAndBlameThisClient", ["PublishCopyFactory", "char", "short", "bool", "int", "optional"]); a = J.args(f); E = J.E; E.opaque_keeps = "locks and alias lookups change no packet"; pk = J.this("MqttPacket", "packet"); q = z3.BitVec("eff", 8); J.assume(ule(q, a[1].t)); pq = lambda: J.f(pk, "publishData", "qos"); st = ("qos", "id", "retain"); [J.ghost(x, FALSE) for x in st]; J.ghost("n", bv(0, 32)); J.pure("PublishCopyFactory::getTopic"); E.contracts["PublishCopyFactory::getEffectiveQos"] = lambda E, c: (E.prove("the subscription's QoS", c.t(0) == a[1].t, "call"), Val(shape_of(c.ret), [q]))[1]
    def get(E, c): E.prove("the copy for this receiver", z3.And(c.t(0) == a[1].t, E.rv(c.args[1]).t == J.f(this, "protocolVersion"), c.t(4) == a[4].t), "call"); x = z3.Const("pq", z3.BitVecSort(8)); E.assume((x != 0) == (q != 0)); J.set(pk, "publishData", "qos", to=x); return Val(shape_of(c.ret), [pk.root[1]])
    E.contracts["PublishCopyFactory::getOptimumPacket"] = get
    def sq(E, c): E.prove("the effective QoS", c.t(0) == q, "call"); J.ghost("qos", TRUE); J.set(pk, "publishData", "qos", to=c.t(0))
    def sr(E, c): E.prove("the retain flag decided for this receiver", c.t(0) == a[3].t, "call"); J.ghost("retain", TRUE)
    def si(E, c): E.prove("the identifier taken for this receiver", c.t(0) == a[2].t, "call"); J.ghost("id", TRUE)
    E.contracts["MqttPacket::setQos"] = sq; E.contracts["MqttPacket::setRetain"] = sr; E.contracts["MqttPacket::setPacketId"] = si
    one = J.fn("Client::writeMqttPacketAndBlameThisClient", ["MqttPacket"])
    def wr(E, c):
        E.prove("written after QoS, identifier and retain flag are set", z3.And(J.ghost("retain"), z3.Implies(q != 0, z3.And(J.ghost("qos"), J.ghost("id"))), pq() == q), "call"); E.prove("once", J.ghost("n") == 0, "call"); E.prove("this packet", c.args[0].root[1] == pk.root[1], "call"); J.ghost("n", J.ghost("n") + 1); return E.fresh_result(c.ret, "drop")
    E.contracts[(one.qn, 1)] = wr
    ok, r = J.run_any(f, this, a)
    if ok: J.post("written", J.ghost("n") == 1)
@spec.job("Session::writePacket")
def _(J):
    this = J.this("Session"); f = J.fn("Session::writePacket"); a = J.args(f); J.assume(ule(a[1].t, bv(2, 8))); E = J.E; E.opaque_keeps = "logging, copies of settings and getters deliver nothing"; oq, orr = z3.BitVec("orgQos", 8), z3.Bool("orgRetain"); q = mn(oq, a[1].t); J.assume(ule(oq, bv(2, 8))); ra = E.load(this.fld("clientType")).t; br = 1; ret = z3.And(orr, z3.Or(a[2].t, ra == br)); avail = z3.Bool("retain_available"); idv = z3.BitVec("newid", 16); got = z3.Bool("got_id"); J.assume(z3.Implies(got, idv != 0)); J.ghost("sent", bv(0, 32)); J.ghost("queued", bv(0, 32))
    E.contracts["PublishCopyFactory::getEffectiveQos"] = lambda E, c: Val(shape_of(c.ret), [mn(oq, c.t(0))]); E.contracts["PublishCopyFactory::getEffectiveRetain"] = lambda E, c: E.boolv(z3.And(orr, c.t(0))); E.contracts["Client::isRetainedAvailable"] = lambda E, c: E.boolv(avail)
    E.contracts["Session::QoSData::getNextPacketId"] = lambda E, c: Val(shape_of(c.ret), [got, idv])
    def queue(E, c):
        E.prove("queued with the lower QoS", c.t(2) == q, "call"); E.prove("queued with its identifier", c.t(1) == idv, "call"); E.prove("queued with the retain flag as asked", c.t(3) == ret, "call"); E.prove("queued with the identifier of the subscription", c.t(4) == a[3].t, "call"); J.ghost("queued", J.ghost("queued") + 1)
        return E.fresh_result(c.ret, "r") if c.ret is not None and c.ret.k != "void" else None
    def send(E, c):
        E.prove("sent with the lower QoS", c.t(1) == q, "call"); E.prove("sent with the retain flag as asked", c.t(3) == z3.And(ret, avail), "call"); E.prove("sent with the identifier of the subscription", c.t(4) == a[3].t, "call"); E.prove("sent with its packet identifier", c.t(2) == z3.If(q != 0, idv, bv(0, 16)), "call"); J.ghost("sent", J.ghost("sent") + 1); return E.fresh_result(c.ret, "r")
    E.contracts["Session::QoSData::queuePublish"] = queue; E.contracts["Client::writeMqttPacketAndBlameThisClient"] = send; J.pure("Session::QoSData::clearExpiredMessagesFromQueue", "Session::QoSData::markQoSLogPrinted", "Session::QoSData::currentPackedIdLogPrinted", "PublishCopyFactory::getTopic", "PublishCopyFactory::getSubtopics", "PublishCopyFactory::getPayload", "PublishCopyFactory::getCorrelationData", "PublishCopyFactory::getResponseTopic", "PublishCopyFactory::getContentType", "PublishCopyFactory::getExpiresAt", "PublishCopyFactory::getUserProperties", "Authentication::aclCheck", "startsWith", "Session::QoSData::getQueuedByteSize", "Session::QoSData::getQueuedCount")
    J.run(f, this, a); J.cover("sent", J.ghost("sent") == 1); J.cover("queued", J.ghost("queued") == 1); J.post("at most once", z3.And(ule(J.ghost("sent"), bv(1, 32)), ule(J.ghost("queued"), bv(1, 32))))
@spec.job("MqttPacket(protocol version, Publish, ...)")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::MqttPacket", ["ProtocolVersion", "Publish", "char", "short", "bool", "int", "optional"]); a = J.args(f); E = J.E; J.assume(z3.And(legalpv(a[0].t), ule(a[2].t, bv(2, 8)))); p = lambda *n: J.f(this, "publishData", *n); ov = E.load(a[6]).lv; src = a[1]; top = z3.If(ov[0], ov[1], J.f(src, "topic")); pay = J.f(src, "payload"); J.pure("Publish::getPropertyBuilder", "MqttPacket::writeProperties", "Publish::setExpireAfter", "PublishExpireInfo::getCurrentTimeToExpire", "Mqtt5PropertyBuilder::getLength", "MqttPacket::calculateRemainingLength", "MqttPacket::write", "MqttPacket::writeString"); opts = ("correlationData", "responseTopic", "contentType"); ret = J.f(src, "retain"); o = {n: E.load(src.fld(n)).lv for n in opts}
    ok, r = J.run_any(f, this, a)
    if not ok: return
    J.post("QoS asked for", p("qos") == a[2].t); J.post("type, QoS and retain flag in the first byte", resize(J.f(this, "first_byte"), 8, False) == (bv(0x30, 8) | (a[2].t << 1) | z3.If(ret, bv(1, 8), bv(0, 8)))); J.post("topic of the message unless an alias replaces it", z3.Implies(z3.Not(a[4].t), E.str_eq(p("topic"), top))); J.post("alias", p("topicAlias") == a[3].t); J.post("version", J.f(this, "protocolVersion") == a[0].t); J.post("identifier of the subscription", z3.Implies(a[0].t == 5, p("subscriptionIdentifier") == a[5].t))
    for n in opts: g = E.load(this.fld("publishData").fld(n)).lv; J.post("%s of the message" % n, z3.Implies(a[0].t == 5, z3.And(g[0] == o[n][0], z3.Implies(g[0], E.str_eq(g[1], o[n][1])))))
