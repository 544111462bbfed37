// C22: retained store against a map of topics, with overwriting, removing, expiry sweeps and deferred setting
#include "broker.h"
#include "retainedmessage.h"
static void walk(RetainedMessageNode *n, const std::string &pre, bool root, std::map<std::string, std::string> &out, std::string &bad, bool live){ if (n->message && !(live && n->message->hasExpired())) { if (!out.emplace(pre, n->message->publish.payload).second) bad = "two messages for " + pre; if (n->message->publish.topic != pre) bad = "node of '" + pre + "' holds a message for '" + n->message->publish.topic + "'"; if (!n->message->publish.retain) bad = "stored message without retain flag"; } for (auto &c : n->children) walk(c.second.get(), root ? c.first : pre + "/" + c.first, false, out, bad, live); }
static std::map<std::string, std::string> all(bool live, std::string &bad){ std::map<std::string, std::string> m; auto s = globals->subscriptionStore; walk(s->retainedMessagesRoot.get(), "", true, m, bad, live); walk(s->retainedMessagesRootDollar.get(), "", true, m, bad, live); return m; }
static std::string topic(){ static const char *w[] = {"a", "b", "", "$x", "A", "aa", "a b", "c"}; int n = 1 + rnd(4); std::string t; for (int i = 0; i < n; i++) { if (i) t += "/"; t += w[rnd(8)]; } if (t.empty()) t = "/"; if (!rnd(12)) t = "$SYS/" + t; return t; }
static void small(){
    Broker b([](Settings &s){ s.retainedMessageMaxPayloadSize = 50; s.setRetainedMessageDeferTimeout = std::chrono::milliseconds(rnd(2) ? 0 : 1000); s.retainedMessageNodeLifetime = std::chrono::seconds(0); }); auto store = globals->subscriptionStore; std::map<std::string, std::string> want; std::set<std::string> exp; g_case = "retained:"; bool swept = false;
    int k = 1 + rnd(40); for (int i = 0; i < k; i++) {
        int what = rnd(12); if (what == 0) { while (!store->expireRetainedMessages()); swept = true; g_case += " sweep;"; }
        else { std::string t = topic(), pl = rnd(4) ? "p" + std::to_string(i) : ""; if (!rnd(15)) pl = std::string(60, 'x'); Publish p(t, pl, rnd(3)); bool old = !rnd(6) && pl.size(); if (old) { p.setExpireAfter(1); p.expireInfo->createdAt -= std::chrono::seconds(100); }
            bool held = !rnd(6), tryit = rnd(2); if (held) pthread_rwlock_rdlock(&store->retainedMessagesRwlock);
            std::vector<std::string> lv = splitTopic(t); bool would = false; { auto *n = store->retainedMessagesRoot.get(); if (t[0] == '$') n = store->retainedMessagesRootDollar.get(); would = true; for (auto &l : lv) { auto q = n->children.find(l); if (q == n->children.end()) { would = false; break; } n = q->second.get(); } }
            if (held && !(b.td->settingsLocalCopy.setRetainedMessageDeferTimeout.count() != 0) && !would) { pthread_rwlock_unlock(&store->retainedMessagesRwlock); held = false; }
            store->trySetRetainedMessages(p, lv); if (held) { pthread_rwlock_unlock(&store->retainedMessagesRwlock); } (void)tryit;
            if (!rnd(3) || 1) { if (!rnd(3)) b.td->setQueuedRetainedMessages(); }
            g_case += " '" + t + "'=" + (pl.empty() ? "(removed)" : pl) + (old ? " expired" : "") + (held ? " while the store is in use" : "") + ";"; if (pl.size() <= 50) { if (pl.empty()) want.erase(t), exp.erase(t); else { want[t] = pl; exp.erase(t); if (old) exp.insert(t); } } }
    }
    b.td->setQueuedRetainedMessages(); std::string bad; auto got = all(false, bad); if (bad.size()) { FAIL(bad); return; } (void)swept; for (auto &x : want) { auto q = got.find(x.first); if (q == got.end()) { if (!exp.count(x.first)) FAIL("retained message of '" + x.first + "' lost"); } else if (q->second != x.second) FAIL("retained message of '" + x.first + "' is '" + q->second + "' instead of '" + x.second + "'"); }
    for (auto &x : got) if (!want.count(x.first) ) FAIL("retained message for '" + x.first + "' that should not be there"); 
    while (!store->expireRetainedMessages()); bad.clear(); got = all(false, bad); for (auto &e : exp) if (e[0] != '$' && got.count(e)) FAIL("expired message still stored after a sweep"); size_t plain = 0; for (auto &x : got) plain += x.first[0] != '$'; for (auto &x : want) if (!exp.count(x.first) && !got.count(x.first)) FAIL("a sweep removed an unexpired message"); if (store->getRetainedMessageCount() != plain) FAIL("count of retained messages is " + std::to_string(store->getRetainedMessageCount()) + " instead of " + std::to_string(plain));
}
static void counting(){ Broker b; auto store = globals->subscriptionStore; g_case = "count while setting and removing"; long n = 0; std::map<std::string, bool> m; for (int i = 0; i < 60; i++) { std::string t = topic(); bool e = rnd(2); Publish p(t, e ? "" : "x", 0); store->setRetainedMessage(p, splitTopic(t)); n += (e ? 0 : 1) - (m[t] ? 1 : 0); m[t] = !e; if ((long)store->getRetainedMessageCount() != n) { FAIL("count is " + std::to_string(store->getRetainedMessageCount()) + " instead of " + std::to_string(n)); return; } } }
static void large(){ Broker b; auto store = globals->subscriptionStore; g_case = "sweeps of 100000 retained messages"; for (int i = 0; i < 100000; i++) { std::string t = "a" + std::to_string(i % 40) + "/b" + std::to_string(i / 40 % 60) + "/c" + std::to_string(i); Publish p(t, "x", 0); store->setRetainedMessage(p, splitTopic(t)); } int k = 0; while (!store->expireRetainedMessages() && k++ < 10000); std::string bad; if (store->getRetainedMessageCount() != all(false, bad).size()) FAIL("count after sweeping " + std::to_string(store->getRetainedMessageCount())); }
int main(){ for (int r = 0; time_left(); r++) { for (int i = 0; i < 20; i++) small(); counting(); if (r == 3) large(); } return done(); }
