// C19: nothing is routed, retained, subscribed or delivered unless the access check allowed it; the access plugin is a random decision table
#include "broker.h"
static std::map<std::string, AuthResult> table_; static int mode; static std::vector<std::string> asked;
static AuthResult rule(AclAccess a, const std::string &cid, const std::string &topic)
{
    std::string k = std::to_string((int)a) + "|" + cid + "|" + topic; auto i = table_.find(k); if (i != table_.end()) return i->second; AuthResult r = AuthResult::success; int x = rnd(10);
    if (x < 4) r = AuthResult::success; else if (x < 6) r = AuthResult::acl_denied; else if (x == 6) r = AuthResult::error; else if (x == 7) r = (AuthResult)-99; // the plugin throws
    else if (x == 8) r = a == AclAccess::write ? AuthResult::success_without_setting_retained : a == AclAccess::subscribe ? AuthResult::success_without_retained_delivery : AuthResult::acl_denied;
    else r = a == AclAccess::read ? AuthResult::login_denied : AuthResult::success_but_drop; return table_[k] = r;
}
static AuthResult acl(void *, const AclAccess a, const std::string &cid, const std::string &, const std::string &topic, const std::vector<std::string> &, const std::string &share, std::string_view, const uint8_t, const bool, const std::optional<std::string> &, const std::optional<std::string> &, const std::optional<std::string> &, const std::optional<std::chrono::time_point<std::chrono::steady_clock>>, const std::vector<std::pair<std::string, std::string>> *)
{ AuthResult r = rule(a, cid, topic); if ((int)r == -99) throw std::runtime_error("plugin failed"); return r; }
static bool routes(AuthResult r){ return r == AuthResult::success || r == AuthResult::success_without_setting_retained; }
static bool matches(const std::string &f, const std::string &t)
{
    auto a = splitTopic(f), b = splitTopic(t); size_t i = 0; for (; i < a.size(); i++) { if (a[i] == "#") return true; if (i >= b.size()) return false; if (a[i] != "+" && a[i] != b[i]) return false; } return i == b.size();
}
static std::string topic(){ static const char *v[] = {"a", "a/b", "a/c", "b", "b/b", "c/d/e"}; return v[rnd(6)]; }
static std::string filter(){ static const char *v[] = {"a", "a/b", "a/+", "#", "+/b", "b/#", "c/d/e", "+"}; return v[rnd(8)]; }
static void one()
{
    table_.clear(); int depth = rnd(4) ? 0 : 1 + rnd(2); bool deny = rnd(2); Broker b([&](Settings &s){ s.minimumWildcardSubscriptionDepth = depth; s.wildcardSubscriptionDenyMode = deny ? WildcardSubscriptionDenyMode::DenyAll : WildcardSubscriptionDenyMode::DenyRetainedOnly; });
    auto &au = b.td->authentication; au.pluginFamily = PluginFamily::FlashMQ; au.initialized = true; au.flashmqPluginVersionNumber = 5; au.flashmq_plugin_acl_check_v5 = acl;
    g_case = "minimum wildcard depth " + std::to_string(depth) + (deny ? " deny: " : " no retained: ");
    struct C { std::string id; std::shared_ptr<Client> c; std::shared_ptr<Session> s; std::map<std::string, int> subs; }; std::vector<C> cs; for (int i = 0; i < 3; i++) { C c; c.id = std::string("c") + (char)('0' + i); c.c = b.connect(c.id, ProtocolVersion::Mqtt5, "u", true, 65535, 100); c.s = c.c->session; cs.push_back(c); }
    std::map<std::string, std::string> retained; // topic -> publisher
    auto drain = [&]{ b.tasks(); for (auto &c : cs) if (c.c) b.out(c.c); };
    int n = 10 + rnd(30);
    for (int k = 0; k < n; k++)
    {
        C &c = cs[rnd(3)]; if (!c.c) { c.c = b.connect(c.id, ProtocolVersion::Mqtt5, "u", false, 65535, 100); g_case += c.id + " back; "; c.s = c.c->session; drain(); continue; }
        switch (rnd(8))
        {
        case 0: case 1: case 2: { std::string f = filter(); int q = rnd(3); g_case += c.id + " subscribes " + f + "; "; b.tasks(); b.out(c.c); b.feed(c.c, mkpkt(8, 2, u16(1) + std::string(1, 0) + mstr(f) + std::string(1, (char)q))); b.tasks();
            AuthResult r = rule(AclAccess::subscribe, c.id, f); auto lv = splitTopic(f); int fw = 65535; for (size_t i = 0; i < lv.size(); i++) if (lv[i] == "#" || lv[i] == "+") { fw = i; break; } bool broad = depth && fw < depth;
            bool ok = (r == AuthResult::success || r == AuthResult::success_without_retained_delivery) && !(broad && deny), ret = r == AuthResult::success && !broad; if (broad && deny) r = AuthResult::acl_denied;
            bool good; std::string o = b.out(c.c); std::multiset<std::string> got, want; for (auto &p : split_packets(o, good)) { if (p.type == 9 && ((uint8_t)p.body.back() < 128) != (ok || r == AuthResult::success_but_drop)) FAIL("SUBACK of a " + std::string(ok ? "granted" : "refused") + " subscription"); if (p.type == 3) { Pub x = parse_publish(p, 5); got.insert(x.topic); } }
            if (ok && ret) for (auto &x : retained) if (matches(f, x.first) && rule(AclAccess::read, c.id, x.first) == AuthResult::success && rule(AclAccess::write, x.second, x.first) == AuthResult::success) want.insert(x.first);
            if (got != want) { std::string m = "retained messages given:"; for (auto &x : got) m += " " + x; m += " allowed:"; for (auto &x : want) m += " " + x; FAIL(m); return; }
            if (ok) c.subs[f] = q; break; }
        case 3: if (rnd(4) == 0) { g_case += c.id + " offline; "; b.td->removeClient(c.c); c.c.reset(); b.tasks(); } break;
        default: { std::string t = topic(); bool rt = rnd(2); int q = rnd(2); g_case += c.id + " publishes " + t + (rt ? " retained" : "") + "; "; drain(); std::map<std::string, size_t> qn; for (auto &d : cs) if (!d.c) qn[d.id] = d.s->qos.lock()->getQueuedCount();
            std::string pay = "m" + std::to_string(k); b.feed(c.c, mkpkt(3, q << 1 | rt, mstr(t) + (q ? u16(77) : "") + std::string(1, 0) + pay)); b.tasks(); AuthResult r = rule(AclAccess::write, c.id, t);
            if (rt && r == AuthResult::success) retained[t] = c.id;
            for (auto &d : cs) { size_t want = 0, wq = 0; if (routes(r)) for (auto &s : d.subs) if (matches(s.first, t) && rule(AclAccess::read, d.id, t) == AuthResult::success) { want++; if (q && s.second) wq++; }
                if (d.c) { bool good; std::string o = b.out(d.c); size_t got = 0; for (auto &p : split_packets(o, good)) { if (p.type == 3) { Pub x = parse_publish(p, 5); if (x.topic == t && x.payload == pay) got++; else FAIL("unexpected message"); } if (p.type == 4 && &d == &c && q) { bool refused = p.body.size() > 2 && (uint8_t)p.body[2] >= 128; if (refused == (routes(r) || r == AuthResult::success_but_drop)) FAIL("acknowledgement of a message does not tell the access decision"); } } if (got != want) { FAIL(d.id + " received " + std::to_string(got) + " copies, allowed are " + std::to_string(want)); return; } }
                else { size_t now = d.s->qos.lock()->getQueuedCount(); if (now != qn[d.id] + wq) { FAIL("queued for offline " + d.id + ": " + std::to_string(now - qn[d.id]) + " allowed " + std::to_string(wq)); return; } } }
            size_t rc = globals->subscriptionStore->getRetainedMessageCount(); if (rc != retained.size()) { FAIL("retained messages: " + std::to_string(rc) + " allowed: " + std::to_string(retained.size())); return; } } }
    }
    // a will
    for (int k = 0; k < 3; k++) { drain(); C &c = cs[rnd(3)]; std::string t = topic(); bool rt = rnd(2); g_case += "will of " + c.id + " on " + t + (rt ? " retained" : "") + "; "; auto w = std::make_shared<WillPublish>(Publish(t, "will", 0)); w->client_id = c.id; w->username = "u"; w->retain = rt; globals->subscriptionStore->sendWill(w, c.s, "will"); b.tasks();
        AuthResult r = rule(AclAccess::write, c.id, t); if (rt && r == AuthResult::success) retained[t] = c.id;
        for (auto &d : cs) if (d.c) { size_t want = 0, got = 0; if (routes(r)) for (auto &s : d.subs) if (matches(s.first, t) && rule(AclAccess::read, d.id, t) == AuthResult::success) want++; bool good; for (auto &x : pubs(b.out(d.c), 5, good)) got += x.topic == t; if (got != want) { FAIL(d.id + " received a will " + std::to_string(got) + " times, allowed are " + std::to_string(want)); return; } }
        if (globals->subscriptionStore->getRetainedMessageCount() != retained.size()) { FAIL("retained wills"); return; } }
}
int main(){ while (time_left()) one(); return done(); }
