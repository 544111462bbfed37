// C09: random subscribes, unsubscribes, session ends and tree clean-ups on the subscription store, compared with a map of subscriptions
#include "broker.h"
struct S9 { int qos; bool nl, rap; uint32_t id; std::weak_ptr<Session> s; };
using Key = std::tuple<std::string, std::string, std::string>;     // filter, share, client
static std::map<Key, S9> seen; static bool dup9;
static void dump(const std::shared_ptr<SubscriptionNode> &n, const std::string &f, bool top)
{
    if (!n) return;
    auto add = [&](const std::string &share, const std::string &c, const Subscription &x){ if (x.session.expired()) return; if (!seen.insert({Key(f, share, c), S9{x.qos, x.noLocal, x.retainAsPublished, x.subscriptionIdentifier, x.session}}).second) dup9 = true; };
    for (auto &p : n->subscribers) add("", p.first, p.second);
    for (auto &p : n->sharedSubscribers) for (auto &m : p.second.members) if (auto s = m.session.lock()) add(p.first, s->getClientId(), m);
    auto sub = [&](const std::string &l){ return top ? l : f + "/" + l; };
    for (auto &p : n->children) dump(p.second, sub(p.first), false);
    dump(n->childrenPlus, sub("+"), false); dump(n->childrenPound, sub("#"), false);
}
static std::vector<std::string> levels(const std::string &s){ std::vector<std::string> r(1); for (char c : s) if (c == '/') r.emplace_back(); else r.back().push_back(c); return r; }
static void history()
{
    int life = rnd(2); Broker b([&](Settings &s){ if (life) s.subscriptionNodeLifetime = std::chrono::seconds(0); }); auto &st = *globals->subscriptionStore; std::map<std::string, std::shared_ptr<Session>> ses; std::map<Key, S9> want; std::string log; int wide = rnd(3) ? 2 : 40, nc = 1 + rnd(5); if (life) b.td->settingsLocalCopy.subscriptionNodeLifetime = std::chrono::seconds(0);
    auto note = [&](const std::string &s){ log += s + "; "; if (log.size() > 2600) log = "... " + log.substr(log.size() - 2200); g_case = log; };
    auto get = [&](const std::string &c){ auto &s = ses[c]; if (!s) s = std::make_shared<Session>(c, "u", std::optional<std::string>()); return s; };
    auto filter = [&]{ int k = 1 + rnd(4); std::string f; if (!rnd(8)) f = "$SYS/"; for (int i = 0; i < k; i++) { if (i) f += "/"; if (i == k - 1 && !rnd(4)) { f += "#"; break; } if (!rnd(3)) f += "+"; else if (!rnd(6)) f += ""; else f += "w" + std::to_string(rnd(wide)); } return f; };
    for (int k = 3 + rnd(60); k > 0; k--)
    {
        std::string c = "c" + std::to_string(rnd(nc)), f = want.size() && rnd(2) ? std::get<0>(std::next(want.begin(), rnd(want.size()))->first) : filter(), share = rnd(3) ? "" : "s" + std::to_string(rnd(2));
        switch (rnd(8))
        {
        case 0: case 1: case 2: case 3:
        {
            S9 x{(int) rnd(3), !rnd(2), !rnd(2), (uint32_t) rnd(3), get(c)}; note(c + " subscribes " + f + (share.size() ? " in share " + share : "") + " qos " + std::to_string(x.qos)); AddSubscriptionType r = st.addSubscription(get(c), levels(f), x.qos, x.nl, x.rap, share, x.id); Key key(f, share, c);
            if (r != (want.count(key) ? AddSubscriptionType::ExistingSubscription : AddSubscriptionType::NewSubscription)) FAIL("C09: subscription reported as " + std::to_string((int) r)); want[key] = x; break;
        }
        case 4: case 5: { if (want.size() && rnd(4)) { auto it = want.begin(); std::advance(it, rnd(want.size())); std::tie(f, share, c) = it->first; } note(c + " unsubscribes " + f + (share.size() ? " in share " + share : "")); st.removeSubscription(get(c), levels(f), share); want.erase(Key(f, share, c)); break; }
        case 6: if (!rnd(3) && ses.count(c)) { note("session " + c + " ends"); ses.erase(c); for (auto it = want.begin(); it != want.end();) if (std::get<2>(it->first) == c) it = want.erase(it); else ++it; } break;
        case 7: note("clean-up"); for (int i = 0; i < 50 && !st.purgeSubscriptionTree(); i++) {} break;
        }
        seen.clear(); dup9 = false; dump(st.root, "", true); dump(st.rootDollar, "", true); if (dup9) FAIL("C09: a subscription is stored twice");
        for (auto &p : want) { auto it = seen.find(p.first); std::string d = std::get<2>(p.first) + " on " + std::get<0>(p.first) + (std::get<1>(p.first).size() ? " in share " + std::get<1>(p.first) : ""); if (it == seen.end()) { FAIL("C09: the subscription of " + d + " is gone"); return; } auto &x = it->second; auto &y = p.second; if (x.qos != y.qos || x.nl != y.nl || x.rap != y.rap || x.id != y.id || x.s.lock() != y.s.lock()) FAIL("C09: the subscription of " + d + " has other options"); }
        for (auto &p : seen) if (!want.count(p.first)) { FAIL("C09: " + std::get<2>(p.first) + " is still subscribed to " + std::get<0>(p.first)); return; }
    }
}
int main(){ while (time_left()) history(); return done(); }
