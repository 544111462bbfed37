// C29: message expiry on the real code (the clock is not touched: creation times are moved instead)
#include "broker.h"
#include "retainedmessagesdb.h"
#include "sessionsandsubscriptionsdb.h"
using NSEC = std::chrono::nanoseconds; using CLK = std::chrono::steady_clock; static const int64_t G = 1000000000LL;
static int64_t ns(NSEC d){ return d.count(); }
static void unit(uint64_t e, int64_t ago)
{
    g_case = "expiry interval " + std::to_string(e) + " s, published " + std::to_string(ago) + " ns ago"; PublishExpireInfo i; auto t0 = CLK::now(); i.createdAt = t0 - NSEC(ago); i.expiresAfter = std::chrono::seconds(e);
    auto r = i.getCurrentTimeToExpire().count(); int64_t late = ns(CLK::now() - t0); if (ns(i.expiresAt() - i.createdAt) != (int64_t)e * G) FAIL("expiresAt is not the creation time plus the interval");
    int64_t lo = std::max<int64_t>(0, (int64_t)e - (ago + late) / G), hi = std::max<int64_t>(0, (int64_t)e - ago / G); if (r < lo || r > hi) FAIL("remaining time is " + std::to_string(r) + " instead of " + std::to_string(hi));
    Publish p("t", "x", 1); p.expireInfo = i; bool h = p.hasExpired(); late = ns(CLK::now() - t0); if (h && ago + late <= (int64_t)e * G) FAIL("expired too early"); if (!h && ago > (int64_t)e * G) FAIL("not expired in time");
    auto x = p.expiresAt(); if (!x || *x != i.expiresAt()) FAIL("Publish::expiresAt differs"); p.expireInfo.reset(); if (p.hasExpired() || p.expiresAt()) FAIL("a message without interval expires");
    RetainedMessage rm(Publish("t", "x", 1)); rm.publish.expireInfo = i; if (ago > (int64_t)e * G && !rm.hasExpired()) FAIL("an expired retained message is not expired");
}
static void ceil1(bool has, uint64_t e, int64_t ago, uint64_t c)
{
    g_case = "ceiling " + std::to_string(c) + " over " + (has ? std::to_string(e) : "none"); Publish p("t", "x", 1); auto t0 = CLK::now(); if (has) { p.expireInfo.emplace(); p.expireInfo->createdAt = t0 - NSEC(ago); p.expireInfo->expiresAfter = std::chrono::seconds(e); }
    p.setExpireAfterToCeiling(std::chrono::seconds(c)); if (!p.expireInfo) { FAIL("no interval after setting a ceiling"); return; }
    if ((uint64_t)p.expireInfo->expiresAfter.count() != (has ? std::min(e, c) : c)) FAIL("interval is " + std::to_string(p.expireInfo->expiresAfter.count())); if (has && p.expireInfo->createdAt != t0 - NSEC(ago)) FAIL("a ceiling moved the creation time"); if (!has && (p.expireInfo->createdAt < t0 || p.expireInfo->createdAt > CLK::now())) FAIL("creation time is not now");
    p.setExpireAfter(e); if (!p.expireInfo || (uint64_t)p.expireInfo->expiresAfter.count() != (uint32_t)e || p.expireInfo->createdAt < t0) FAIL("setExpireAfter");
}
static Publish mk(const std::string &t, int qos, bool has, uint32_t e, int64_t ago){ Publish p(t, "payload", qos); if (has) { p.expireInfo.emplace(); p.expireInfo->createdAt = CLK::now() - NSEC(ago); p.expireInfo->expiresAfter = std::chrono::seconds(e); } return p; }
struct Item { bool has; uint32_t e; int64_t ago; bool dead() const { return has && ago > e * G; } };
static Item ritem(uint32_t maxe = 4000000000u){ Item i; i.has = rnd(5); i.e = rnd(2) ? rnd(20) : rnd(2) ? 1 + rnd(100000) : 1 + rnd(maxe); i.ago = rnd(3) ? (int64_t)rnd(1000) * i.e * (G / 1000) : (int64_t)i.e * G + G * (1 + rnd(100)); if (rnd(4) == 0) i.ago = (int64_t)i.e * G - G / 2; if (i.ago < 0) i.ago = 0; if (i.ago > ns(CLK::now().time_since_epoch()) + 0 && i.ago > 4000000000LL * G) i.ago = 0; i.ago -= i.ago % (G / 2); return i; }
// i.ago falls on half seconds, so computing time after mk() moves no whole-second boundary when it lies in the upper half; accept one second either way
static bool near1(uint64_t got, const Item &i, int64_t extra = 0){ int64_t want = (int64_t)i.e - (i.ago + extra * G) / G; return (int64_t)got <= want + 0 && (int64_t)got >= want - 1 - (extra ? 1 : 0); }
static std::string str(const Item &i){ return i.has ? std::to_string(i.e) + "s/" + std::to_string(i.ago) + "ns " : "none "; }
static void packet(const Item &i, int qos)
{
    g_case = "packet of a message with " + str(i); Publish p = mk("t/1", qos, i.has, i.e, i.ago); PublishCopyFactory fac(&p); MqttPacket *m = fac.getOptimumPacket(qos, ProtocolVersion::Mqtt5, 0, false, 0, {});
    Pkt k; k.type = 3; k.flags = (uint8_t)m->first_byte & 15; k.body = std::string(m->bites.data(), m->bites.size()); if (qos) k.body.size(); Pub r = parse_publish(k, 5); if (!r.ok) { FAIL("packet is malformed"); return; }
    if (r.has(2) != i.has) FAIL("interval present: " + std::to_string(r.has(2))); if (i.has && !i.dead() && !near1(r.num(2), i)) FAIL("packet carries interval " + std::to_string(r.num(2))); if (i.has && r.num(2) > i.e) FAIL("interval extended");
}
static void session_round(bool db)
{
    Broker b; Scratch s; auto c = b.connect("ses", ProtocolVersion::Mqtt5, "user", false, 65535, 100000); auto ses = c->getSession(); b.peer.erase(c.get()); ses->client = std::shared_ptr<Client>(); b.td->priv->clients.by_fd.clear(); c.reset();
    int n = 1 + rnd(8); std::vector<Item> items; std::string d; for (int i = 0; i < n; i++) { Item it = ritem(); items.push_back(it); d += str(it); Publish p = mk("t/" + std::to_string(i), 1 + rnd(2), it.has, it.e, it.ago); { auto q = ses->qos.lock(); uint16_t id = *q->getNextPacketId(); q->queuePublish(std::move(p), id, std::optional<std::string>()); } }
    g_case = std::string(db ? "queued, saved, loaded" : "queued") + " messages " + d; int64_t extra = 0;
    if (db) { std::string f = s.d + "/sessions.db"; globals->subscriptionStore->saveSessionsAndSubscriptions(f); globals = Globals(); globals->subscriptionStore->loadSessionsAndSubscriptions(f); extra = 1; ses = globals->subscriptionStore->lockSession("ses"); if (!ses) { FAIL("session was not loaded"); return; } }
    auto c2 = b.connect("ses", ProtocolVersion::Mqtt5, "user", false, 65535, 100000); b.out(c2); ses->sendAllPendingQosData(); bool ok; auto ps = pubs(b.out(c2), 5, ok); if (!ok) FAIL("output is not a sequence of packets");
    std::map<std::string, Pub> got; for (auto &p : ps) { if (got.count(p.topic)) FAIL("delivered twice: " + p.topic); got[p.topic] = p; }
    for (int i = 0; i < n; i++) { const Item &it = items[i]; std::string t = "t/" + std::to_string(i); bool in = got.count(t);
        if (it.dead() && in) FAIL("an expired message is delivered: " + str(it)); bool alive = !it.has || it.ago + 2 * G + extra * G < it.e * G; if (alive && !in) FAIL("a message that has not expired is not delivered: " + str(it)); if (!in) continue;
        Pub &p = got[t]; if (p.has(2) != it.has) FAIL("interval present: " + std::to_string(p.has(2))); if (it.has && p.num(2) > it.e) FAIL("interval extended"); if (alive && it.has && !near1(p.num(2), it, 0) && !(db && p.num(2) <= it.e - it.ago / G + 1 && p.num(2) + 3 >= it.e - it.ago / G)) FAIL("delivered with interval " + std::to_string(p.num(2)) + ": " + str(it)); }
}
static void retained_round(bool db)
{
    Broker b; Scratch s; int n = 1 + rnd(8); std::vector<Item> items; std::string d; auto st = globals->subscriptionStore; uint32_t lim = b.settings.expireRetainedMessagesAfterSeconds.count();
    for (int i = 0; i < n; i++) { Item it = ritem(lim); if (!it.has) { it.has = false; } items.push_back(it); d += str(it); Publish p = mk("t/" + std::to_string(i), rnd(3), it.has, it.e, it.ago); st->setRetainedMessage(p, p.getSubtopics()); }
    g_case = std::string(db ? "retained, saved, loaded" : "retained") + " messages " + d;
    if (db) { std::string f = s.d + "/retained.db"; st->saveRetainedMessages(f, false); globals = Globals(); st = globals->subscriptionStore; st->loadRetainedMessages(f); }
    auto c = b.connect("sub"); b.out(c); st->giveClientRetainedMessages(c->getSession(), splitTopic("#"), 2, 0); for (int i = 0; i < 5; i++) b.tasks(); bool ok; auto ps = pubs(b.out(c), 5, ok); if (!ok) FAIL("output is not a sequence of packets");
    std::map<std::string, Pub> got; for (auto &p : ps) got[p.topic] = p;
    for (int i = 0; i < n; i++) { const Item &it = items[i]; std::string t = "t/" + std::to_string(i); bool in = got.count(t); if (it.dead() && in) FAIL("an expired retained message is delivered: " + str(it)); if (!it.has) { if (!in) FAIL("a retained message without interval is not delivered"); continue; }
        bool alive = it.ago + 3 * G < it.e * G && (uint64_t)it.e <= lim; if (alive && !in) FAIL("a retained message that has not expired is not delivered: " + str(it)); if (!in) continue; uint64_t v = got[t].num(2); if (v > it.e) FAIL("interval extended"); if (alive && !(v <= it.e - it.ago / G + (db ? 1 : 0) && v + 3 >= it.e - it.ago / G)) FAIL("delivered with interval " + std::to_string(v) + ": " + str(it)); }
}
int main()
{
    Broker b;
    for (auto &h : hints()) if (h.first == "after") { uint64_t c = 0, n = 0; for (auto &k : hints()) { if (k.first == "created") c = strtoull(k.second.c_str(), 0, 10); if (k.first == "now") n = strtoull(k.second.c_str(), 0, 10); } if (n >= c) unit(strtoull(h.second.c_str(), 0, 10), n - c); }
    for (uint64_t e : {0ull, 1ull, 2ull, 59ull, 65535ull, 65536ull, 2147483647ull, 2147483648ull, 4294967295ull}) for (int64_t a : std::initializer_list<int64_t>{0LL, 1LL, G - 1, G, G + 1, 2 * G, (int64_t)e * G - G, (int64_t)e * G - G / 2, (int64_t)e * G - 1, (int64_t)e * G, (int64_t)e * G + 1, (int64_t)e * G + G, (int64_t)e * G / 2, (int64_t)(e + 100) * G}) { if (a < 0) continue; unit(e, a); Item i{true, (uint32_t)e, a}; packet(i, 1); }
    for (uint64_t e : {0ull, 5ull, 100ull, 4294967295ull}) for (uint64_t c : {0ull, 4ull, 5ull, 6ull, 4294967296ull, 4294967295ull}) for (int has = 0; has < 2; has++) ceil1(has, e, 3 * G, c);
    for (uint32_t a : {0u, 1u, 100u, 86400u, 4000000000u}) { g_case = "age " + std::to_string(a); auto t0 = CLK::now(); auto t = timepointFromAge(a); int64_t x = ns(CLK::now() - t), y = ns(t0 - t); if (x < (int64_t)a * G || y > (int64_t)a * G) FAIL("timepointFromAge"); auto g = ageFromTimePoint(CLK::now() - NSEC((int64_t)a * G + G / 2)); if (g != a && g != a + 1) FAIL("ageFromTimePoint gives " + std::to_string(g)); }
    int k = 0; while (time_left()) { switch (k++ % 6) { case 0: session_round(false); break; case 1: session_round(true); break; case 2: retained_round(false); break; case 3: retained_round(true); break; default: for (int i = 0; i < 100; i++) { Item it = ritem(); unit(it.e, it.ago); packet(it, rnd(3)); } } }
    return done();
}
