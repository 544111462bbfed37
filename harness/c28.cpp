// C28: keep-alive expiry and scheduling on the real Client and ThreadData
#include "broker.h"
using S = std::chrono::seconds; using NSEC = std::chrono::nanoseconds;
static const int64_t G = 1000000000LL;
int main()
{
    Broker b; auto c = b.connect("c28"); ThreadData &td = *b.td;
    auto one = [&](uint16_t ka, int64_t ago) {
        c->keepalive = ka; c->authenticated = true; auto t0 = std::chrono::steady_clock::now(); c->lastActivity = t0 - NSEC(ago); g_case = "keep-alive " + std::to_string(ka) + " s, last packet " + std::to_string(ago) + " ns ago";
        bool e = c->keepAliveExpired(); S when = c->getSecondsTillKeepAliveAction(); td.priv->queuedKeepAliveChecks.clear(); td.queueClientNextKeepAliveCheck(c, true); auto t1 = std::chrono::steady_clock::now();
        int64_t late = std::chrono::duration_cast<NSEC>(t1 - t0).count(); int64_t lim = (int64_t)(ka + ka / 2) * G;
        if (ka == 0) { if (e) FAIL("expired without a keep-alive"); if (when.count()) FAIL("a check is scheduled without a keep-alive"); return; }
        if (e && ago + late <= lim) FAIL("expired before one and a half keep-alive periods"); if (!e && 2 * ago > 3 * (int64_t)ka * G) FAIL("not expired after more than one and a half keep-alive periods");
        if (when.count() < 5) FAIL("no check or a check too soon: " + std::to_string(when.count()));
        if (ago <= lim && ago + when.count() * G > lim + 5 * G) FAIL("next check is more than five seconds late: " + std::to_string(when.count()));
        if (ago > lim + late && when.count() > 5) FAIL("an overdue client is not checked within five seconds: " + std::to_string(when.count()));
        if (when.count() > 5 && ago + late + when.count() * G <= lim) FAIL("next check comes before the client can be expired");
        auto &q = td.priv->queuedKeepAliveChecks; if (q.size() != 1 || q.begin()->second.size() != 1 || q.begin()->second[0].client.lock() != c || !q.begin()->second[0].recheck) { FAIL("the check is not queued for this client"); return; }
        int64_t at = q.begin()->first.count() * G, base = std::chrono::duration_cast<NSEC>(t0.time_since_epoch()).count(); if (at < base + (when.count() - 1) * G - G || at > base + late + when.count() * G + G) FAIL("the check is queued at another second than asked");
    };
    for (auto &h : hints()) if (h.first == "keepalive") { uint64_t l = 0, n = 0; for (auto &k : hints()) { if (k.first == "last") l = strtoull(k.second.c_str(), 0, 10); if (k.first == "now") n = strtoull(k.second.c_str(), 0, 10); } if (n >= l) one(strtoul(h.second.c_str(), 0, 10), n - l); }
    for (int ka : {0, 1, 2, 3, 5, 10, 60, 255, 256, 1000, 21845, 21846, 30000, 32767, 32768, 43690, 43691, 65534, 65535}) for (int64_t d : {-10LL, -2LL, -1LL, 0LL, 1LL, 2LL, 4LL, 7LL, 10LL}) { int64_t a = (int64_t)(ka + ka / 2) * G + d * G + 1000000; if (a >= 0) one(ka, a); a = (int64_t)ka * 3 * G / 2 + d * 1000000; if (a >= 0) one(ka, a); one(ka, 0); }
    // the periodic check removes exactly the expired clients and keeps checking the others
    for (int i = 0; i < 40 && time_left(0.5); i++) {
        Broker bb; ThreadData &t = *bb.td; std::vector<std::shared_ptr<Client>> cs; std::vector<bool> dead; auto now = std::chrono::steady_clock::now(); std::string desc;
        int n = 1 + rnd(5); auto sec = std::chrono::duration_cast<S>(now.time_since_epoch());
        for (int k = 0; k < n; k++) { auto x = bb.connect("k" + std::to_string(k)); x->authenticated = true; x->keepalive = rnd(3) ? 1 + rnd(100) : 0; int64_t lim = (x->keepalive + x->keepalive / 2) * G; bool d = rnd(2) && x->keepalive; x->lastActivity = now - NSEC(d ? lim + G + rnd(100 * G) : rnd(lim + 1) / 2); cs.push_back(x); dead.push_back(d); desc += std::to_string(x->keepalive) + (d ? "! " : " "); }
        t.priv->queuedKeepAliveChecks.clear(); std::vector<bool> due; for (auto &x : cs) { bool du = rnd(3); due.push_back(du); t.priv->queuedKeepAliveChecks[du ? sec - S(rnd(10)) : sec + S(50 + rnd(10))].emplace_back(x); }
        g_case = "periodic check over clients with keep-alive " + desc; t.doKeepAliveCheck();
        for (int k = 0; k < n; k++) { bool in = t.priv->clients.by_fd.count(cs[k]->getFd()); int queued = 0; for (auto &q : t.priv->queuedKeepAliveChecks) for (auto &y : q.second) queued += y.client.lock() == cs[k];
            if (due[k] && dead[k] && in) FAIL("an expired client is not disconnected"); if (!(due[k] && dead[k]) && !in) FAIL("a client that is not expired is disconnected");
            if (!(due[k] && dead[k]) && cs[k]->keepalive && queued != 1) FAIL("a live client has " + std::to_string(queued) + " further checks queued"); }
    }
    while (time_left()) { uint16_t ka = rnd(2) ? rnd(65536) : rnd(20); int64_t lim = (int64_t)ka * 3 * G / 2; one(ka, rnd(2) ? rnd(lim + 10 * G) : std::max<int64_t>(0, lim - 3 * G + (int64_t)rnd(8 * G))); }
    return done();
}
