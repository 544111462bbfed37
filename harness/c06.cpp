// C06: what a client sends, cut into pieces, arrives as the same packets
#include "broker.h"
static std::string show(const std::string &s){ return hex(s.substr(0, 60)) + (s.size() > 60 ? "..(" + std::to_string(s.size()) + " bytes)" : ""); }
// the packets of a stream; bad = the stream ends in something that is refused
static std::vector<std::string> expect(const std::string &s, size_t limit, bool &bad)
{
    std::vector<std::string> r; size_t i = 0; bad = false;
    while (s.size() - i >= 2) { size_t len = 0, k = 1; int sh = 0; bool more = true; while (more && k <= 4 && i + k < s.size()) { uint8_t b = s[i + k++]; len |= (size_t)(b & 127) << sh; sh += 7; more = b & 128; } if (more) { bad = k > 4; return r; } if (len + k > limit) { bad = true; return r; } if (s.size() - i < len + k) return r; r.push_back(s.substr(i, len + k)); i += len + k; }
    return r;
}
static void run(Broker &b, const std::string &s, size_t limit, bool auth, std::function<size_t()> cut, const std::string &what)
{
    auto c = b.raw(); const_cast<uint32_t &>(c->maxIncomingPacketSize) = limit; c->protocolVersion = ProtocolVersion::Mqtt5; c->setAuthenticated(auth); std::vector<std::string> got; bool bad, threw = false; auto want = expect(s, auth ? limit : std::min<size_t>(limit, 1024 * 1024 - 1), bad); size_t at = 0; int idle = 0; int fd = b.peer[c.get()]; std::string cuts; std::string why;
    g_case = what + ", limit " + std::to_string(limit);
    while (!threw && idle < 3)
    {
        size_t n = std::min(cut(), s.size() - at); if (n) { ssize_t k = ::send(fd, s.data() + at, n, MSG_NOSIGNAL); if (k > 0) { at += k; if (cuts.size() < 300) cuts += std::to_string(k) + " "; idle = 0; } else idle++; } else idle++;
        std::vector<MqttPacket> q; try { c->readFdIntoBuffer(); c->bufferToMqttPackets(q, c); } catch (std::exception &e) { threw = true; why = e.what(); } for (auto &p : q) got.push_back(std::string(p.bites.begin(), p.bites.end()));
        if (got.size() > want.size()) break;
    }
    g_case += ", pieces " + cuts;
    for (size_t i = 0; i < std::min(got.size(), want.size()); i++) if (got[i] != want[i]) { FAIL("packet " + std::to_string(i) + " is " + show(got[i]) + " instead of " + show(want[i])); return; }
    if (got.size() > want.size()) FAIL("an additional packet: " + show(got[want.size()])); else if (got.size() < want.size()) FAIL("only " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " packets; next " + show(want[got.size()]) + (threw ? "; " + why : at < s.size() ? "; the broker has stopped reading" : "")); else if (threw != bad) FAIL(threw ? "refused: " + why : "not refused");
    else if (!threw && c->readbuf.usedBytes() + [&]{ size_t n = 0; for (auto &w : want) n += w.size(); return n; }() != s.size()) FAIL("an incomplete packet is not kept as it is");
    close(fd); b.peer.erase(c.get()); b.td->removeClient(c); c.reset(); b.tasks();
}
static std::string pkt(size_t n){ static const int T[] = {3, 4, 5, 6, 7, 8, 10, 12, 13, 14}; int t = T[rnd(10)]; int fl = t == 3 ? (int)rnd(2) : (t == 6 || t == 8 || t == 10) ? 2 : 0; std::string s; for (size_t i = 0; i < n; i++) s.push_back(rnd(256)); return mkpkt(t, fl, s); }
int main()
{
    Broker b; 
    auto any = [&]{ std::string s, d; int n = 1 + rnd(6); size_t limit = rnd(3) ? 268435455 : 100 + rnd(40000); for (int i = 0; i < n; i++) { size_t k = rnd(3) ? rnd(5) : rnd(2) ? 120 + rnd(20) : rnd(8) ? rnd(400) : 16370 + rnd(30); if (rnd(8) == 0 && limit < 50000) k = limit - 5 + rnd(8); auto p = pkt(k); d += std::to_string(p.size()) + " "; s += p; } d = "packets of " + d; if (rnd(4) == 0) { static const std::string E[] = {"\x30\x80\x80\x80\x80\x01", "\x30\xff\xff\xff\xff\x7f", "\x30\x80", "\x30\xff\xff\xff", "\x30", "\x30\x05" "abc", "\x30\xff\xff\xff\x7f" "abc"}; auto e = E[rnd(7)]; s += e; d += "then " + hex(e); }
        int mode = rnd(4); run(b, s, limit, true, [&, mode]() -> size_t { return mode == 0 ? 1 : mode == 1 ? 1 + rnd(4) : mode == 2 ? 1 + rnd(300) : 60000; }, d); };
    auto big = [&](size_t limit, size_t n, const std::string &w){ std::string p(n, 'x'); std::string s = mkpkt(3, 0, p); while (s.size() > n) s = mkpkt(3, 0, std::string(n - (s.size() - p.size()), 'x')), p.resize(n - (s.size() - n)); run(b, s + std::string("\xc0\0", 2), limit, true, []{ return (size_t)60000; }, w + " of " + std::to_string(s.size())); };
    for (int i = 0; i < 30; i++) any();
    run(b, mkpkt(3, 0, std::string(1024 * 1024, 'x')), 268435455, false, []{ return (size_t)60000; }, "1 MB without having logged in");
    { Broker *bb = &b; auto old = b.td->settingsLocalCopy.clientMaxWriteBufferSize; for (size_t w : {4096, 65536, 1048576}) { bb->td->settingsLocalCopy.clientMaxWriteBufferSize = w; for (size_t lim : {3000, 5000, 100000, 131072, 200000, 1500000}) { big(lim, lim, "a packet"); big(lim, lim - 7, "a packet"); big(lim, lim + 1, "a packet too big"); } } b.td->settingsLocalCopy.clientMaxWriteBufferSize = old; }
    while (time_left()) any();
    return done();
}
