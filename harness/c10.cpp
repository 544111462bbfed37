// C10: shared groups: selection in arbitrary states and histories, and routing on the real broker
#include "routeflow.h"
static void selection()
{
    SharedSubscribers g("share", {}); std::vector<std::shared_ptr<Session>> keep; std::map<std::string, std::shared_ptr<Session>> in; std::ostringstream d; size_t n = 1 + rnd(12), steps = 1 + rnd(40);
    for (size_t k = 0; k < steps; k++)
    {
        std::string c = "c" + std::to_string(rnd(n));
        switch (rnd(6))
        {
        case 0: case 1: { auto s = in.count(c) ? in[c] : std::make_shared<Session>(c, "u", std::optional<std::string>()); in[c] = s; Subscription x; x.session = s; x.qos = rnd(3); g[c] = x; d << "join " << c << "; "; break; }
        case 2: g.erase(c); in.erase(c); d << "leave " << c << "; "; break;
        case 3: if (in.count(c)) { in.erase(c); d << "session " << c << " ends; "; } break;
        case 4: if (!rnd(3)) { g.purgeAndReIndex(); d << "purge; "; } break;
        case 5: if (!rnd(4)) { g.roundRobinCounter = rnd(3) ? 2147483647u - rnd(16) : (uint32_t) (rnd(1u << 31)); d << "counter " << g.roundRobinCounter << "; "; } break;
        }
        for (int how = 0; how < 3; how++)
        {
            size_t h = ((uint64_t) rnd(1u << 31) << 33) ^ rnd(1u << 31); const Subscription *s = how == 0 ? g.getFirst() : how == 1 ? g.getNext() : g.getNext(h); g_case = d.str() + (how == 0 ? "first" : how == 1 ? "round robin" : "hash " + std::to_string(h));
            if (!s) { if (in.size()) FAIL("C10: no member chosen although the group has " + std::to_string(in.size())); continue; }
            auto ses = s->session.lock(); if (!ses) { FAIL("C10: a member that is gone was chosen"); continue; } auto it = in.find(ses->getClientId()); if (it == in.end() || it->second != ses) FAIL("C10: " + ses->getClientId() + " was chosen and is not a member");
        }
    }
}
int main(){ while (time_left()) { { Broker b; for (int i = 0; i < 200 && time_left(); i++) selection(); } route("C10", 40 + rnd(60)); } return done(); }
