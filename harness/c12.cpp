// C12: packet identifiers on the real code
#include "qosflow.h"
#include "usedids.h"
static void usedids()
{
    UsedIds u; std::set<uint16_t> m; std::string log; int n = 1 + rnd(60); uint16_t base = rnd(65536); auto id = [&]{ uint16_t i = rnd(4) ? base + rnd(12) : rnd(65536); return i ? i : (uint16_t)1; };
    for (int k = 0; k < n; k++) { uint16_t i = id(); if (rnd(5) < 3) { log += "+" + std::to_string(i) + " "; g_case = log; u.insert(i); m.insert(i); } else { log += "-" + std::to_string(i) + " "; g_case = log; u.erase(i); m.erase(i); }
        for (int j = 0; j < 16; j++) { uint16_t x = j < 14 ? base - 1 + j : id(); if (!x) continue; if (u.contains(x) != (m.count(x) > 0)) { FAIL("identifier " + std::to_string(x) + (m.count(x) ? " in use counts as free" : " counts as in use")); return; } } }
}
// choosing identifiers with only some free
static void nearly_full(int freec, uint16_t start)
{
    Session::QoSData q(65535); q.flowControlQuota = 100000; std::set<uint16_t> fr; while ((int)fr.size() < freec) { uint16_t i = rnd(65536); if (i) fr.insert(i); } g_case = std::to_string(freec) + " free identifiers, last used " + std::to_string(start) + ", free: "; for (auto i : fr) g_case += std::to_string(i) + " ";
    for (int i = 1; i < 65536; i++) if (!fr.count(i)) q.usedIds.insert(i); q.nextPacketId = start; size_t n = fr.size();
    for (size_t k = 0; k < n; k++) { auto r = q.getNextPacketId(); if (!r) { FAIL("no identifier although one is free"); return; } if (!fr.erase(*r)) { FAIL("identifier " + std::to_string(*r) + (*r ? " is in use" : "")); return; } if (!q.usedIds.contains(*r)) FAIL("not marked as in use"); }
    if (auto r = q.getNextPacketId()) FAIL("identifier " + std::to_string(*r) + " given while all are in use"); uint16_t x = 1 + rnd(65535); q.increaseFlowControlQuota(x); auto r = q.getNextPacketId(); if (!r || *r != x) FAIL("the released identifier is not given");
}
static void wrap(){ QosFlow f(5, 65535); try { f.start(65535); f.persist = false; for (int i = 0; i < 3; i++) f.publish(2, true); for (int i = 0; i < 2; i++) f.ack(5, f.queue[0].id); { auto ses = globals->subscriptionStore->lockSession("sub"); ses->qos.lock()->nextPacketId = 65500 + rnd(34); } for (int i = 0; i < 60; i++) { f.publish(1 + rnd(2)); if (i == 5) { f.saveLoad(); f.subConnect(65535); } } f.internal(); } catch (Bad &x) { if (x.tag == "C12") FAIL(x.what); } }
int main()
{
    case_timeout(100); for (int i = 0; i < 2000; i++) usedids();
    for (int n : {0, 1, 2, 9, 200}) for (int s : {0, 1, 65535, 30000}) nearly_full(n, s); for (int i = 0; i < 3; i++) wrap();
    case_timeout((int)secs_budget() + 60); while (time_left()) { for (int i = 0; i < 50; i++) usedids(); nearly_full(rnd(4), rnd(65536)); flow("C12", 3, 1, 40 + rnd(100), rnd(3) ? 5 : 4, 1 + rnd(rnd(2) ? 6 : 300)); }
    return done();
}
