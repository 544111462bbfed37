// random QoS 1/2 conversations against the real broker, compared with a model of what MQTT prescribes; shared by C12, C14, C15, C16
#pragma once
#include "broker.h"
struct Bad { std::string tag, what; };
struct QosFlow
{
    struct Item { uint16_t id; int seq, qos; };
    Broker b; Scratch scratch; std::string log; int pv; int limit; int seq = 0; uint16_t rmax = 0; int quota = 0;
    std::shared_ptr<Client> pub, sub; std::deque<Item> queue; std::set<uint16_t> rel, inc; std::map<uint16_t, bool> incPersist; std::vector<Item> offline; bool persist = true, pubClean = false;
    QosFlow(int pv, int limit) : b([&](Settings &s){ s.maxQosMsgPendingPerClient = limit; s.maxQosBytesPendingPerClient = 100000000; }), pv(pv), limit(limit) {}
    [[noreturn]] void bad(const std::string &tag, const std::string &w){ throw Bad{tag, w}; }
    void note(const std::string &s){ log += s + "; "; if (log.size() > 2400) log = "... " + log.substr(log.size() - 2000); g_case = log; }
    std::string connectPkt(const std::string &id, bool clean, unsigned rm)
    {
        std::string s = mstr("MQTT"); s.push_back(pv); s.push_back(clean ? 2 : 0); s += u16(0);
        if (pv >= 5) { std::string p = std::string("\x11") + u32(100000); if (rm) p += std::string("\x21") + u16(rm); s += vbi(p.size()) + p; }
        return mkpkt(1, 0, s + mstr(id));
    }
    std::vector<Pkt> take(std::shared_ptr<Client> &c){ bool ok; auto v = split_packets(b.out(c), ok); if (!ok) bad("C30", "output is not a sequence of packets"); return v; }
    void send(std::shared_ptr<Client> &c, const std::string &s){ try { b.feed(c, s); } catch (std::exception &e) { bad("any", std::string("refused: ") + e.what()); } }
    std::shared_ptr<Client> dial(const std::string &id, bool clean, unsigned rm){ auto c = b.raw(); send(c, connectPkt(id, clean, rm)); for (int i = 0; i < 3; i++) b.tasks(); return c; }
    void hangup(std::shared_ptr<Client> &c){ b.td->priv->clients.by_fd.erase(c->getFd()); close(b.peer[c.get()]); b.peer.erase(c.get()); c.reset(); }
    static uint16_t idof(const Pkt &p){ return p.body.size() < 2 ? 0 : ((uint8_t)p.body[0] << 8) + (uint8_t)p.body[1]; }
    bool inUse(uint16_t id){ if (rel.count(id)) return true; for (auto &i : queue) if (i.id == id) return true; return false; }
    // the ids the broker itself thinks are pending
    void internal()
    {
        auto ses = globals->subscriptionStore->lockSession("sub"); if (!ses) return; auto q = ses->qos.lock(); std::set<uint16_t> pend(q->outgoingQoS2MessageIds.begin(), q->outgoingQoS2MessageIds.end());
        for (auto &k : q->qosPacketQueue.queue) { if (pend.count(k.first)) bad("C12", "identifier " + std::to_string(k.first) + " names both a queued message and a QoS 2 handshake"); pend.insert(k.first); if (k.second->getPacketId() != k.first) bad("C12", "queued message under another identifier"); }
        for (uint16_t id : pend) { if (!id) bad("C12", "identifier 0"); if (!q->usedIds.contains(id)) bad("C12", "pending identifier " + std::to_string(id) + " counts as free"); }
        int used = 0; for (int i = 1; i < 65536; i++) used += q->usedIds.contains(i); if (persist && used != (int)pend.size()) bad("C12", std::to_string(used) + " identifiers in use, " + std::to_string(pend.size()) + " pending");
    }
    void handleRel(const Pkt &p, uint16_t id, int wantRc){ if (p.type != 6 || idof(p) != id) bad("C16", "no PUBREL with the identifier of the PUBREC"); int rc = p.body.size() > 2 ? (uint8_t)p.body[2] : 0; if (pv >= 5 && rc != wantRc) bad("C16", "PUBREL for " + std::to_string(id) + " has reason " + std::to_string(rc)); }
    void subConnect(uint16_t rm)
    {
        note("subscriber connects with receive maximum " + std::to_string(rm)); rmax = pv >= 5 ? std::min<int>(rm, limit) : limit; sub = dial("sub", false, rm); auto v = take(sub); quota = rmax;
        if (v.empty() || v[0].type != 2 || v[0].body.size() < 2 || v[0].body[1]) bad("any", "not connected"); v.erase(v.begin()); if (v.size() && v[0].type == 14) bad("any", "disconnected");
        std::deque<Item> resent; std::set<uint16_t> rels; size_t at = 0, off = 0; for (auto &p : v)
        {
            if (p.type == 6) { if (!rels.insert(idof(p)).second) bad("C16", "PUBREL sent twice"); handleRel(p, idof(p), 0); if (!rel.count(idof(p))) bad("C16", "PUBREL for an identifier not in a handshake on reconnecting"); continue; }
            if (p.type != 3) bad("any", "unexpected packet"); Pub r = parse_publish(p, pv); int n = atoi(r.payload.c_str()); if (--quota < 0) bad("C14", "more messages resent than the receive maximum");
            for (auto &x : resent) if (x.id == r.id) bad("C12", "identifier " + std::to_string(r.id) + " used twice"); if (rel.count(r.id)) bad("C12", "identifier of a QoS 2 handshake used");
            bool old = false; for (; at < queue.size(); at++) if (queue[at].seq == n) { old = true; break; }
            if (old) { if (at != resent.size()) bad("C16", "an unacknowledged message was skipped on reconnecting"); if (queue[at].id != r.id || queue[at].qos != r.qos) bad("C16", "resent with another identifier or QoS"); resent.push_back(queue[at++]); continue; }
            for (; off < offline.size(); off++) if (offline[off].seq == n) break; if (off == offline.size()) bad("C16", "a message was resent that is not pending"); resent.push_back(Item{r.id, n, r.qos}); off++;
        }
        if (rels != rel) bad("C16", "unfinished QoS 2 handshakes not continued on reconnecting"); size_t old = 0; for (auto &x : resent) for (auto &y : queue) old += x.seq == y.seq;
        if (old < std::min<size_t>(queue.size(), rmax)) bad("C16", "an unacknowledged message is not redelivered: " + std::to_string(old) + " of " + std::to_string(queue.size())); queue = resent; offline.clear();
    }
    void start(uint16_t rm){ pub = dial("pub", false, 0); take(pub); subConnect(rm); send(sub, mkpkt(8, 2, u16(1) + (pv >= 5 ? std::string(1, 0) : "") + mstr("t/#") + std::string(1, 2))); take(sub); }
    void publish(int qos, bool fast = false)
    {
        int n = ++seq; if (!fast) note("publish " + std::to_string(n) + " with QoS " + std::to_string(qos)); Publish p("t/x", std::to_string(n), qos); PublishCopyFactory f(&p); globals->subscriptionStore->queuePacketAtSubscribers(f, "pub", {}, false); if (qos == 0) { if (sub) for (auto &x : take(sub)) { Pub r = parse_publish(x, pv); if (r.qos || r.id) bad("C12", "QoS 0 message with identifier"); } return; }
        if (!sub) { offline.push_back(Item{0, n, qos}); return; } expect(n, qos, fast);
    }
    void expect(int n, int qos, bool fast = false)
    {
        auto v = take(sub); if (v.size() > 1) bad("any", "more than one packet"); if (v.empty()) { if (quota > 0 && queue.size() + rel.size() < 65535) bad("C14", "not sent although " + std::to_string(quota) + " slots are free"); return; }
        Pub r = parse_publish(v[0], pv); if (v[0].type != 3 || !r.ok || atoi(r.payload.c_str()) != n || r.qos != qos) bad("any", "wrong message"); if (quota <= 0) bad("C14", "sent although the receive maximum of " + std::to_string(rmax) + " is reached");
        if (!r.id) bad("C12", "identifier 0"); if (!fast && inUse(r.id)) bad("C12", "identifier " + std::to_string(r.id) + " is still in use"); quota--; queue.push_back(Item{r.id, n, qos});
    }
    void ack(int type, uint16_t id, int rc = 0)
    {
        if (!sub) return; note(std::string(type == 4 ? "PUBACK " : type == 5 ? "PUBREC " : "PUBCOMP ") + std::to_string(id) + (rc ? " with error" : "")); std::string body = u16(id); if (pv >= 5 && rc) body.push_back(rc); bool ends = type == 4 || rc >= 128;
        size_t in = 0; for (; in < queue.size(); in++) if (queue[in].id == id) break; send(sub, mkpkt(type, 0, body)); auto v = take(sub);
        if (type == 7) { if (rel.erase(id)) quota = std::min<int>(quota + 1, rmax); if (v.size()) bad("C16", "answer to PUBCOMP"); return; }
        bool known = in < queue.size(); if (known) { if (!ends) rel.insert(id); else quota = std::min<int>(quota + 1, rmax); queue.erase(queue.begin() + in); }
        if (type == 5 && !ends) { if (v.size() != 1) bad("C16", "no single answer to PUBREC"); handleRel(v[0], id, known ? 0 : 0x92); } else if (v.size()) bad("C16", "unexpected answer");
    }
    void disconnectSub(){ note("subscriber loses its connection"); hangup(sub); }
    void saveLoad()
    {
        if (sub) disconnectSub(); hangPub(); pubClean = false; note("sessions saved and loaded"); std::string f = scratch.d + "/s.db"; globals->subscriptionStore->saveSessionsAndSubscriptions(f); globals = Globals(); globals->subscriptionStore->loadSessionsAndSubscriptions(f); pub = dial("pub", false, 0); take(pub);
    }
    // the publisher's side
    void incoming(uint16_t id, bool dup, int qos = 2)
    {
        int n = ++seq; note(std::string("publisher sends ") + (dup ? "duplicate " : "") + "PUBLISH " + std::to_string(n) + " QoS " + std::to_string(qos) + " with identifier " + std::to_string(id)); if (sub) take(sub); send(pub, mkpkt(3, qos << 1 | (dup ? 8 : 0), mstr("t/x") + u16(id) + (pv >= 5 ? std::string(1, 0) : "") + std::to_string(n)));
        auto v = take(pub); if (v.size() != 1 || v[0].type != (qos == 2 ? 5 : 4) || idof(v[0]) != id) bad("C15", "no acknowledgement with the identifier"); bool fresh = qos != 2 || inc.insert(id).second; if (pv >= 5 && v[0].body.size() > 2 && (uint8_t)v[0].body[2] >= 128) bad("C15", "refused");
        if (!fresh) { if (sub && take(sub).size()) bad("C15", "a duplicate of a QoS 2 message was routed"); return; }
        if (!sub) { offline.push_back(Item{0, n, qos}); return; } if (quota > 0) { bool ok; std::string s = b.out(sub); if (s.empty()) bad("C15", "a new QoS message was not routed"); auto v2 = split_packets(s, ok); if (v2.size() != 1) bad("C15", "routed " + std::to_string(v2.size()) + " times"); { auto w = sub->writebuf.lock(); w->buf.ensureFreeSpace(s.size(), 1000000); w->buf.write(s.data(), s.size()); } } expect(n, qos);
    }
    void pubrel(uint16_t id){ note("publisher sends PUBREL " + std::to_string(id)); send(pub, mkpkt(6, 2, u16(id))); auto v = take(pub); if (v.size() != 1 || v[0].type != 7 || idof(v[0]) != id) bad("C15", "PUBREL is not answered with PUBCOMP"); inc.erase(id); }
    void republisher(bool clean){ note(std::string("publisher reconnects") + (clean ? " with a clean start" : "")); hangPub(); pub = dial("pub", clean, 0); auto v = take(pub); if (clean) inc.clear(); pubClean = clean; }
    // a 3.1.1 session with clean session set ends with its connection
    void hangPub(){ hangup(pub); if (pubClean && pv < 5) inc.clear(); }
    uint16_t pick(){ if (queue.size() && rnd(10)) return queue[rnd(2) ? 0 : rnd(queue.size())].id; if (rel.size() && rnd(2)) { auto i = rel.begin(); std::advance(i, rnd(rel.size())); return *i; } return 1 + rnd(rnd(2) ? 20 : 65535); }
    int qosOf(uint16_t id){ for (auto &i : queue) if (i.id == id) return i.qos; return rnd(2) + 1; }
    void step(int subw, int pubw)
    {
        if ((int)rnd(subw + pubw) < subw) switch (rnd(20))
        {
            case 0: if (sub) disconnectSub(); break; case 1: case 2: case 3: if (!sub) subConnect(1 + rnd(rnd(3) ? 6 : 200)); break; case 4: if (rnd(4) == 0) { saveLoad(); } break; case 5: case 6: case 7: case 8: case 9: case 10: publish(rnd(8) ? 1 + rnd(2) : 0); break;
            case 11: if (rel.size()) { auto i = rel.begin(); std::advance(i, rnd(rel.size())); ack(7, *i); } else ack(7, pick()); break; case 12: if (rel.size()) { auto i = rel.begin(); std::advance(i, rnd(rel.size())); ack(rnd(2) ? 7 : 5, *i); } break;
            default: { uint16_t id = pick(); if (rel.count(id) && rnd(3)) { ack(7, id); break; } if (qosOf(id) == 1) { if (!rel.count(id)) ack(4, id); } else ack(5, id, rnd(5) == 0 && pv >= 5 && !rel.count(id) ? 0x80 : 0); }
        }
        else switch (rnd(10)) { case 0: republisher(rnd(4) == 0); break; case 1: case 2: if (inc.size()) { auto i = inc.begin(); std::advance(i, rnd(inc.size())); pubrel(*i); } break; case 3: pubrel(1 + rnd(6)); break; case 4: if (rnd(6) == 0) saveLoad(); break; default: { uint16_t id = 1 + rnd(rnd(4) ? 6 : 65535); incoming(id, inc.count(id), inc.count(id) || rnd(4) ? 2 : 1); } }
    }
};
static void flow(const char *tag, int subw, int pubw, int steps, int pv, int limit)
{
    QosFlow f(pv, limit); try { f.start(1 + rnd(limit)); for (int i = 0; i < steps; i++) { f.step(subw, pubw); if (rnd(8) == 0) f.internal(); } } catch (Bad &x) { if (x.tag == tag || (getenv("FVC_ALLTAGS"))) FAIL((x.tag == tag ? "" : x.tag + ": ") + x.what); }
}
