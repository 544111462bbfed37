// C17: what a connection can do before it is authenticated, on the real code
#include "broker.h"
static std::string rb(size_t n){ std::string s; for (size_t i = 0; i < n; i++) s.push_back(rnd(256)); return s; }
static std::string pkt(int type, int pv)
{
    std::string pr = pv >= 5 ? std::string(1, 0) : ""; int id = 1 + rnd(5);
    switch (type) { case 3: { int q = rnd(3); return mkpkt(3, q << 1 | rnd(2), mstr("t/" + std::to_string(rnd(3))) + (q ? u16(id) : "") + pr + "x"); } case 4: case 5: case 7: return mkpkt(type, 0, u16(id)); case 6: return mkpkt(6, 2, u16(id));
        case 8: return mkpkt(8, 2, u16(id) + pr + mstr("t/#") + std::string(1, (char)rnd(3))); case 9: return mkpkt(9, 0, u16(id) + pr + std::string(1, 0)); case 10: return mkpkt(10, 2, u16(id) + pr + mstr("t/#")); case 11: return mkpkt(11, 0, u16(id)); case 12: case 13: return mkpkt(type, 0, "");
        case 2: return mkpkt(2, 0, std::string(2, 0) + pr); case 15: return mkpkt(15, 0, std::string("\x18", 1) + std::string(1, 0)); default: return mkpkt(type, 0, rb(rnd(6))); }
}
static std::string conn(int pv, const std::string &id, bool user = false){ std::string s = mstr("MQTT"); s.push_back(pv); s.push_back(2 | (user ? 0x80 : 0)); s += u16(60); if (pv >= 5) s.push_back(0); s += mstr(id); if (user) s += mstr("eve"); return mkpkt(1, 0, s); }
static void before(int pv, bool async)
{
    Broker b([](Settings &s){ s.allowAnonymous = false; }); auto obs = b.connect("obs", ProtocolVersion::Mqtt5, "user", false, 65535, 1000); globals->subscriptionStore->addSubscription(obs->getSession(), splitTopic("t/#"), 2, false, false, "", 0); auto ses0 = obs->getSession();
    const auto subs0 = globals->subscriptionStore->getSubscriptionCount(); { Publish p("t/0", "held", 2); PublishCopyFactory f(&p); ses0->writePacket(f, 2, false, 0); ses0->addIncomingQoS2MessageId(3); } b.out(obs);
    auto c = b.raw(); g_case = "version " + std::to_string(pv) + (async ? ", authentication under way: " : ": "); if (async) { c->setClientProperties(PV(pv), "me", {}, "eve", true, 60, 1000000, 0); c->setHasConnectPacketSeen(); c->setRegistrationData(true, 100, 0); c->stageConnack(std::make_unique<ConnAck>(PV(pv), ReasonCodes::Success, false)); c->setAsyncAuthenticating(); }
    int n = 1 + rnd(12), deferred = 0; bool pub = false, sub = false; bool dead = false;
    for (int i = 0; i < n && !dead; i++) { int t; do t = rnd(16); while (t == 1 || t == 14); std::string p = rnd(6) ? pkt(t, pv) : mkpkt(t, rnd(16), rb(rnd(12))); g_case += "type " + std::to_string(t) + " " + hex(p) + ", "; std::string w; try { b.feed(c, p); } catch (std::exception &e) { dead = true; w = e.what(); }
        if (t == 0 && !dead && c->getDisconnectStage() == DisconnectStage::NotInitiated) FAIL("the reserved packet type is not rejected"); if (c->getAuthenticated()) { FAIL("authenticated by a packet of type " + std::to_string(t)); return; } b.tasks();
        std::string o = b.out(c); bool ok; for (auto &x : split_packets(o, ok)) if (x.type != 14 && x.type != 2) FAIL("answered with a packet of type " + std::to_string(x.type)); if (c->session) FAIL("has a session");
        if (b.out(obs).size()) { FAIL("a message of an unauthenticated client was routed"); return; } if (globals->subscriptionStore->getRetainedMessageCount()) { FAIL("a message of an unauthenticated client was retained"); return; } if (globals->subscriptionStore->getSubscriptionCount() != subs0) { FAIL("an unauthenticated client changed subscriptions"); return; }
        { auto q = ses0->qos.lock(); if (q->getQueuedCount() != 1 || q->incomingQoS2MessageIds.size() != 1) { FAIL("an unauthenticated client changed a session"); return; } }
        if (!dead && async && t >= 3 && t <= 13 && t != 11) deferred++; if (async && !dead && t != 0 && t != 2 && t != 15) { size_t have = c->packetQueueAfterAsync ? c->packetQueueAfterAsync->size() : 0; if (!have) FAIL("a packet sent while authentication is under way is lost"); } }
    if (async && !dead && rnd(3)) { bool deny = rnd(3) == 0; g_case += deny ? "then denied" : "then accepted"; std::string w; size_t have = c->packetQueueAfterAsync ? c->packetQueueAfterAsync->size() : 0; try { b.td->continuationOfAuthentication(c, deny ? AuthResult::login_denied : AuthResult::success, "", ""); } catch (std::exception &e) { w = e.what(); }
        if (c->getAuthenticated() == deny) FAIL(deny ? "authenticated although denied" : "not authenticated although accepted"); if (deny && (b.out(obs).size() || globals->subscriptionStore->getSubscriptionCount() != subs0)) FAIL("waiting packets of a denied client had effect"); if (!deny && w.empty() && c->packetQueueAfterAsync) FAIL("waiting packets were not handled"); if (deny && c->getDisconnectStage() == DisconnectStage::NotInitiated) FAIL("a denied client stays connected"); }
    std::string o; if (!async && !dead && rnd(2)) { g_case += "then CONNECT without credentials"; try { b.feed(c, conn(pv, "me", rnd(2))); } catch (std::exception &e) { } if (c->getAuthenticated()) FAIL("authenticated without valid credentials"); try { b.feed(c, pkt(3, pv)); } catch (std::exception &e) { } if (b.out(obs).size()) FAIL("a message of a refused client was routed"); }
}
static void twice(int pv)
{
    Broker b; auto c = b.raw(); g_case = "CONNECT twice, version " + std::to_string(pv); b.feed(c, conn(pv, "me")); b.tasks(); if (!c->getAuthenticated()) { FAIL("anonymous client was not accepted"); return; } bool ok; auto v = split_packets(b.out(c), ok); if (v.size() != 1 || v[0].type != 2 || v[0].body[1]) FAIL("no CONNACK"); auto s = c->getSession(); bool thrown = false;
    try { b.feed(c, conn(pv, rnd(2) ? "me" : "other")); } catch (ProtocolError &e) { thrown = true; } if (!thrown) FAIL("a second CONNECT is not a protocol error"); if (c->getSession() != s || c->getClientId() != "me") FAIL("a second CONNECT changed the client");
    auto d = b.raw(); try { b.feed(d, mkpkt(2, 0, std::string(2, 0) + (pv >= 5 ? std::string(1, 0) : ""))); } catch (std::exception &e) { } if (d->getAuthenticated()) FAIL("CONNACK from a client authenticates it");
}
int main()
{
    for (int pv : {3, 4, 5}) if (pv > 3) twice(pv);
    while (time_left()) { before(rnd(2) ? 5 : 4, rnd(2)); if (rnd(20) == 0) twice(rnd(2) ? 4 : 5); }
    return done();
}
