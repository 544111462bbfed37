"""C17: an unauthenticated connection can do nothing but authenticate."""
from fvc.spec import *
from qos_c import *
spec = Spec("C17", ["mqttpacket.cpp", "threaddata.cpp", "client.cpp", "types.cpp"], harness="c17.cpp", harness_secs=10, trusted=["logging, counters, getters and packet building do not authenticate a client, register it or change stores (frame)"],
            standin="every packet type, well-formed and random, sent before, during and after (asynchronous) authentication (bounded)")
def b(J, qn, name):
    v = z3.Bool(name); J.E.contracts[qn] = lambda E, c: E.boolv(v); return v
@spec.job("MqttPacket::handle")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handle"); a = J.args(f); E = J.E; E.opaque_keeps = "logging and getters do not change the packet"; t = J.f(this, "packetType"); J.hint("type", t); J.ghost("handled", bv(0, 32))
    auth = b(J, "Client::getAuthenticated", "authenticated"); asy = b(J, "Client::getAsyncAuthenticating", "async"); stage = z3.BitVec("stage", 32); J.assume(ule(stage, bv(2, 32))); E.contracts["Client::getDisconnectStage"] = lambda E, c: Val(shape_of(c.ret), [stage])
    meth = z3.Bool("method_empty"); J.assume(ule(t, bv(15, 32)))
    E.contracts["Client::getExtendedAuthenticationMethod"] = lambda E, c: E.temp(E.fresh_val(shape_of(c.ret.noref()), "method"))
    J.pure("exceptionOnNonMqtt", throws="ProtocolError"); J.pure("packetTypeToString", "Client::repr")
    def on(name, code, free):
        def h(E, c):
            E.prove("%s only for packets of its type" % name, t == code, "call"); E.prove("nothing from a connection being closed is handled (%s)" % name, stage == 0, "call"); E.prove("handled once", J.ghost("handled") == 0, "call"); J.ghost("handled", J.ghost("handled") + 1)
            if not free: E.prove("%s needs an authenticated client" % name, auth, "call")
            if c.ret is not None and c.ret.k != "void": return E.fresh_result(c.ret, "h")
        E.contracts[name] = h
    for n, k, free in (("Publish", 3, 0), ("PubAck", 4, 0), ("PubRec", 5, 0), ("PubRel", 6, 0), ("PubComp", 7, 0), ("Subscribe", 8, 0), ("Unsubscribe", 10, 0), ("SubAck", 9, 0), ("Connect", 1, 1), ("Disconnect", 14, 1), ("ConnAck", 2, 1), ("ExtendedAuth", 15, 1)): on("MqttPacket::handle" + n, k, free)
    on("Client::writePingResp", 12, 0)
    ok, r = J.run_any(f, this, a); free = z3.Or(t == 1, t == 2, t == 14, t == 15); J.cover("handled", z3.And(ok, J.ghost("handled") == 1))
    J.post("a packet of an unauthenticated client is refused or waits, without effect", z3.Implies(z3.And(ok, z3.Not(auth), z3.Not(free)), J.ghost("handled") == 0))
    J.post("packets wait exactly while authentication is under way", z3.Implies(ok, (r.t == 1) == z3.And(stage == 0, z3.Not(auth), asy, z3.Not(free), t != 0)) if r is not None else TRUE)
    J.post("the reserved type is rejected", z3.Implies(z3.And(t == 0, stage == 0), z3.Not(ok)))
    J.post("an authenticated client's packets are handled", z3.Implies(z3.And(ok, auth, stage == 0, z3.Or(free, z3.And(uge(t, bv(3, 32)), ule(t, bv(10, 32))), t == 12)), J.ghost("handled") == 1))
@spec.job("MqttPacket::handleExtendedAuth")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handleExtendedAuth"); a = J.args(f); E = J.E; E.opaque_keeps = "logging and getters do not change the packet"; auth = b(J, "Client::getAuthenticated", "authenticated"); res = z3.BitVec("res", 32); J.ghost("asked", z3.BoolVal(False)); J.ghost("went", bv(0, 32)); J.pure("formatString")
    J.pure("MqttPacket::parseAuthData")
    def ask(E, c): E.prove("a further authentication needs an authenticated client", z3.Implies(c.t(1) == 20, auth), "call"); E.prove("a client does not start authentication with AUTH", c.t(1) != 10, "call"); J.ghost("asked", TRUE); return Val(shape_of(c.ret), [res])
    E.contracts["Authentication::extendedAuth"] = ask
    def cont(E, c): E.prove("the outcome is the plugin's", z3.And(J.ghost("asked"), E.rv(c.args[1]).t == res, res != 50), "call"); J.ghost("went", J.ghost("went") + 1)
    E.contracts["ThreadData::continuationOfAuthentication"] = cont
    def dead(E, c): E.prove("only when the plugin answers later", z3.And(J.ghost("asked"), res == 50), "call"); J.ghost("went", J.ghost("went") + 1)
    E.contracts["Client::setAsyncAuthenticating"] = dead
    J.run(f, this, a); J.post("exactly one continuation", J.ghost("went") == 1)
@spec.job("MqttPacket::handleConnect")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handleConnect"); a = J.args(f); E = J.E; E.opaque_keeps = "logging, settings, counters and getters do not change the packet"; seen = b(J, "Client::hasConnectPacketSeen", "seen"); lres, xres = z3.BitVecs("lres xres", 32); J.ghost("asked", z3.BoolVal(False)); J.ghost("res", bv(0, 32)); J.ghost("went", bv(0, 32)); J.ghost("marked", z3.BoolVal(False))
    J.pure("MqttPacket::parseConnectData", "getSecureRandomString", "containsDangerousCharacters", "Client::getUsernameFromPeerCertificate", "Client::stageConnack", "Client::stageWill", "ConnAck::ConnAck", "MqttPacket::MqttPacket", "ConnAck::~ConnAck", "MqttPacket::~MqttPacket")
    x509, hap = z3.BitVecs("x509 hap", 32); E.contracts["Client::getX509ClientVerification"] = lambda E, c: Val(shape_of(c.ret), [x509]); E.contracts["Client::getHaProxyMode"] = lambda E, c: Val(shape_of(c.ret), [hap])
    def eff(n):
        def h(E, c):
            E.prove("a second CONNECT has no effect (%s)" % n, z3.Not(seen), "call")
            if n == "Client::setHasConnectPacketSeen": J.ghost("marked", TRUE)
            if c.ret is not None and c.ret.k != "void": return E.fresh_result(c.ret, "e")
        E.contracts[n] = h
    for n in ("Client::setHasConnectPacketSeen", "Client::setProtocolVersion", "Client::setClientType", "Client::writeMqttPacket", "Client::setClientId", "Client::setClientIdPrefix", "Client::setClientProperties", "Client::setRegistrationData", "Client::setExtendedAuthenticationMethod", "Client::setDisconnectStage"): eff(n)
    def ask(res):
        def h(E, c): E.prove("asked once", z3.Not(J.ghost("asked")), "call"); J.ghost("asked", TRUE); J.ghost("res", res); return Val(shape_of(c.ret), [res])
        return h
    E.contracts["Authentication::loginCheck"] = ask(lres); E.contracts["Authentication::extendedAuth"] = ask(xres)
    def cont(E, c):
        r = E.rv(c.args[1]).t; E.prove("the packet is the connection's first CONNECT", z3.And(z3.Not(seen), J.ghost("marked")), "call"); E.prove("a checked login has the outcome of the check", z3.Implies(J.ghost("asked"), z3.And(r == J.ghost("res"), r != 50)), "call"); J.ghost("went", J.ghost("went") + 1)
    E.contracts["ThreadData::continuationOfAuthentication"] = cont
    def asy(E, c): E.prove("only when the plugin answers later", z3.And(J.ghost("asked"), J.ghost("res") == 50), "call"); J.ghost("went", J.ghost("went") + 1)
    E.contracts["Client::setAsyncAuthenticating"] = asy
    ok, r = J.run_any(f, this, a); J.post("a second CONNECT is a protocol error", z3.Implies(seen, z3.Not(ok))); J.post("at most one continuation", ule(J.ghost("went"), bv(1, 32)))
@spec.job("MqttPacket::handleConnAck")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handleConnAck"); a = J.args(f); E = J.E; E.opaque_keeps = "logging and getters do not authenticate"; out = b(J, "Client::isOutgoingConnection", "outgoing"); seen = b(J, "Client::hasConnectPacketSeen", "seen"); J.pure("containsDangerousCharacters", "formatString", "reasonCodeToString")
    rc = []
    def parse(E, c): v = E.fresh_val(shape_of(c.ret), "data"); rc.append(J.E.temp(v)); return v
    E.contracts["MqttPacket::parseConnAckData"] = parse
    def sa(E, c): E.prove("a CONNACK authenticates only a connection this broker itself made", z3.And(out, z3.Not(seen)), "call"); E.prove("and only one saying success", J.f(rc[-1], "reasonCode") == 0, "call"); raise_stop(E)
    def raise_stop(E): E.assume(z3.BoolVal(False))
    E.contracts["Client::setAuthenticated"] = sa
    for n in ("Session::resetQoSData", "Client::setClientProperties", "Session::setSessionProperties", "SubscriptionStore::addSubscription", "Session::sendAllPendingQosData", "Client::writeMqttPacketAndBlameThisClient", "ThreadData::publishBridgeState"):
        def h(E, c, n=n):
            E.prove("no effect on a client's own CONNACK (%s)" % n, out, "call")
            if c.ret is not None and c.ret.k != "void": return E.fresh_result(c.ret, "e")
        E.contracts[n] = h
    J.run_any(f, this, a)
@spec.job("ThreadData::continuationOfAuthentication")
def _(J):
    this = J.this("ThreadData"); f = J.fn("ThreadData::continuationOfAuthentication"); a = J.args(f); E = J.E; E.opaque_keeps = "logging, packet building and writing do not authenticate or register a client"; res = E.rv(a[1]).t; J.ghost("auth", z3.Bool("authenticated")); a0 = J.ghost("auth"); J.ghost("registered", z3.BoolVal(False))
    E.contracts["Client::getAuthenticated"] = lambda E, c: E.boolv(J.ghost("auth"))
    def sa(E, c): E.prove("authenticated only on success", res == 0, "call"); E.prove("after it was registered", J.ghost("registered"), "call"); J.ghost("auth", c.t(0))
    def reg(E, c): E.prove("a session is assigned only on success", z3.And(res == 0, z3.Not(a0)), "call"); E.prove("registered once", z3.Not(J.ghost("registered")), "call"); J.ghost("registered", TRUE)
    def late(E, c): E.prove("waiting packets are handled only once authenticated", J.ghost("auth"), "call")
    E.contracts["Client::setAuthenticated"] = sa; E.contracts["SubscriptionStore::registerClientAndKickExistingOne"] = reg; E.contracts["Client::handleAfterAsyncQueue"] = late
    E.contracts["Client::sendConnackSuccess"] = lambda E, c: E.prove("a successful CONNACK only after success", z3.And(res == 0, J.ghost("registered")), "call")
    E.contracts["Session::sendAllPendingQosData"] = lambda E, c: E.prove("queued messages only to an authenticated client", J.ghost("auth"), "call")
    J.pure("Auth::Auth", "MqttPacket::MqttPacket", "MqttPacket::~MqttPacket", "Disconnect::Disconnect", "Authentication::aclCheck", "Client::setWillFromStaged", "Client::getStagedWill", "Client::addAuthReturnDataToStagedConnAck", "authResultToReasonCode", "Client::writeMqttPacket")
    J.run(f, this, a); J.cover("success", z3.And(res == 0, z3.Not(a0)))
    J.post("authenticated afterwards exactly if before or on success", J.ghost("auth") == z3.Or(a0, res == 0)); J.post("a new success registers the client", J.ghost("registered") == z3.And(res == 0, z3.Not(a0)))
@spec.job("Client::setAuthenticated / getAuthenticated")
def _(J):
    this = J.this("Client"); f = J.fn("Client::setAuthenticated"); a = J.args(f); J.run(f, this, a); r = J.run("Client::getAuthenticated", this, []); J.post("reads back", r.t == a[0].t)
@spec.job("Client::setHasConnectPacketSeen / hasConnectPacketSeen")
def _(J):
    this = J.this("Client"); J.run("Client::setHasConnectPacketSeen", this, []); r = J.run("Client::hasConnectPacketSeen", this, []); J.post("the first CONNECT is remembered", r.t)
