// C13: the queue of unacknowledged messages against a plain list of what was queued
#include "h.h"
#include "qospacketqueue.h"
struct M { uint16_t id; std::string t, p; long exp; std::optional<std::string> o; std::shared_ptr<QueuedPublish> held; };
static void one(int nops)
{
    QoSPublishQueue q; std::list<M> m; std::string log; uint16_t base = rnd(65000); size_t span = 2 + rnd(rnd(2) ? 8 : 500); auto now0 = std::chrono::steady_clock::now();
    for (int k = 0; k < nops; k++) {
        uint16_t id = base + 1 + rnd(span); auto at = std::find_if(m.begin(), m.end(), [&](M &x){ return x.id == id; }); int op = rnd(10); if (m.size() && op >= 5 && op < 8) { at = m.begin(); int w = rnd(3); if (w == 1) at = std::prev(m.end()); else if (w == 2) std::advance(at, rnd(m.size())); id = at->id; }
        if (op < 5) { if (at != m.end()) continue; M x{id, "t/" + std::string(rnd(6), 'x'), std::string(rnd(4) ? rnd(30) : rnd(3000), 'p'), 0, {}, {}}; x.p += std::to_string(k); if (rnd(3) == 0) x.exp = (long)rnd(4) - 2; bool has = x.exp || rnd(8) == 0; if (rnd(4) == 0) x.o = "o" + std::to_string(rnd(9));
            Publish p(x.t, x.p, 1 + rnd(2)); if (has) { PublishExpireInfo e; e.createdAt = now0 - std::chrono::seconds(1000); e.expiresAfter = std::chrono::seconds(1000 + (x.exp < 0 ? -100 : x.exp == 0 ? -10 : 1000 * x.exp)); p.expireInfo = e; x.exp = x.exp > 0 ? 1 : -1; } else x.exp = 0;
            log += "+" + std::to_string(id) + (x.exp < 0 ? "(expired)" : x.exp > 0 ? "(expires later)" : "") + " "; g_case = log; if (rnd(2)) q.queuePublish(std::move(p), id, x.o); else { PublishCopyFactory f(&p); q.queuePublish(f, id, 1 + rnd(2), rnd(2), 0, x.o); }
            m.push_back(x); }
        else if (op < 8) { log += "-" + std::to_string(id) + " "; g_case = log; if (rnd(5) == 0 && at != m.end()) { auto h = q.getTail(); } bool r = q.erase(id); if (r != (at != m.end())) { FAIL("erase says " + std::to_string(r)); return; } if (at != m.end()) m.erase(at); }
        else if (op == 8) { log += "- "; id = base + span + 5; g_case = log; if (q.erase(id)) FAIL("erase found something that was not queued"); }
        else if (rnd(3) == 0) { log += "expire "; g_case = log; auto r = q.clearExpiredMessages(); std::multiset<uint16_t> a(r.begin(), r.end()), b; for (auto i = m.begin(); i != m.end();) if (i->exp < 0) { b.insert(i->id); i = m.erase(i); } else ++i; if (a != b) { FAIL("expiry removed " + std::to_string(a.size()) + " messages, " + std::to_string(b.size()) + " were due"); return; } }
        size_t bytes = 0; for (auto &x : m) bytes += x.t.size() + x.p.size();
        if (q.size() != m.size()) { FAIL("count is " + std::to_string(q.size()) + " with " + std::to_string(m.size()) + " queued"); return; } if (q.getByteSize() != bytes) { FAIL("byte size is " + std::to_string(q.getByteSize()) + " with " + std::to_string(bytes) + " queued"); return; }
        auto c = q.getTail(); std::shared_ptr<QueuedPublish> last; for (auto &x : m) { if (!c) { FAIL("message " + std::to_string(x.id) + " is not met walking the queue"); return; } if (c->getPacketId() != x.id || c->getPublish().topic != x.t || c->getPublish().payload != x.p || c->getTopicOverride() != x.o) { FAIL("met " + std::to_string(c->getPacketId()) + " where " + std::to_string(x.id) + " is next"); return; } if (c->prev.lock() != last) { FAIL("the way back from " + std::to_string(x.id) + " is wrong"); return; } auto f = q.queue.find(x.id); if (f == q.queue.end() || f->second != c) { FAIL("identifier " + std::to_string(x.id) + " leads elsewhere"); return; } last = c; c = c->next.lock(); }
        if (c) { FAIL("walking the queue meets more than was queued"); return; } if (q.head != last) { FAIL("the newest is not the last queued"); return; }
    }
}
int main(){ while (time_left()) { one(5 + rnd(20)); one(40 + rnd(200)); } return done(); }
