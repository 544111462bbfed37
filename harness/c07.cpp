// C07: field readers and packet handlers on the real code, with packets in exactly sized buffers (address sanitizer build)
#include "broker.h"
#include "mp.h"
static std::string rbytes(size_t n){ std::string s; int k = rnd(4); for (size_t i = 0; i < n; i++) s.push_back(k == 0 ? rnd(256) : k == 1 ? "\0\1\2\xff\x80/#+a"[rnd(9)] : k == 2 ? 0 : 'a' + rnd(26)); return s; }
static void readers(const std::string &b, size_t pos)
{
    size_t left = b.size() - pos; auto at = [&](size_t i){ return (uint64_t)(uint8_t)b[pos + i]; };
    for (int w : {1, 2, 4, 8})
    {
        g_case = "reader of " + std::to_string(w) + " bytes at " + std::to_string(pos) + " of " + hex(b); MqttPacket p = mk_packet(b, pos); uint64_t got = 0; bool ok = true;
        try { if (w == 1) got = p.readUint8(); else if (w == 8) got = (uint8_t)p.readByte(); else if (w == 2) got = p.readTwoBytesToUInt16(); else got = p.readFourBytesToUint32(); } catch (ProtocolError &) { ok = false; } catch (std::exception &e) { ok = false; FAIL("refused otherwise than as malformed"); }
        size_t n = w == 8 ? 1 : w; if (ok != (left >= n)) { FAIL(ok ? "read past the end" : "a field inside the packet is refused"); continue; } if (!ok) continue;
        uint64_t want = 0; for (size_t i = 0; i < n; i++) want = want << 8 | at(i); if (got != want) FAIL("wrong value"); if (p.pos != pos + n) FAIL("position did not advance by the field's size"); if (p.remainingAfterPos() != left - n || p.atEnd() != (left == n)) FAIL("remaining bytes wrong");
    }
    for (size_t n : {(size_t)0, (size_t)1, left, left + 1, left ? left - 1 : 0, (size_t)65535})
    {
        g_case = "readBytes(" + std::to_string(n) + ") at " + std::to_string(pos) + " of " + hex(b); MqttPacket p = mk_packet(b, pos); bool ok = true; std::string got; try { got = std::string(p.readBytes(n)); } catch (ProtocolError &) { ok = false; } if (ok != (n <= left)) { FAIL("bounds"); continue; } if (ok && (got != b.substr(pos, n) || p.pos != pos + n)) FAIL("wrong bytes or position");
    }
    for (size_t mx : {(size_t)1, (size_t)5, (size_t)65535}) for (int val = 0; val < 3; val++)
    {
        g_case = "readBytesToString(" + std::to_string(mx) + "," + std::to_string(val) + ") at " + std::to_string(pos) + " of " + hex(b); MqttPacket p = mk_packet(b, pos); bool ok = true; std::string got; try { got = p.readBytesToString(mx, val > 0, val > 1); } catch (ProtocolError &) { ok = false; } catch (std::exception &) { ok = false; }
        bool fits = left >= 2; size_t n = 0; if (fits) { n = at(0) << 8 | at(1); fits = n <= left - 2 && n <= mx; } if (fits && val && !isValidUtf8(b.substr(pos + 2, n), val > 1)) fits = false; if (ok != fits) { FAIL(ok ? "accepted" : "refused"); continue; } if (ok && (got != b.substr(pos + 2, n) || p.pos != pos + 2 + n)) FAIL("wrong text or position");
    }
}
// one packet body of the given type, plausible, then mutated
static std::string props(){ std::string s; int n = rnd(5); static const int ids[] = {1,2,3,8,9,11,17,18,19,21,22,23,24,25,26,28,31,33,34,35,36,37,38,39,40,41,42,7,200}; for (int i = 0; i < n; i++) { int p = ids[rnd(29)]; s.push_back(p); switch (p) { case 2: case 17: case 24: case 39: s += u32(rnd(1000)); break; case 19: case 33: case 34: case 35: s += u16(rnd(70000)); break; case 11: s += vbi(rnd(100000)); break; case 38: s += mstr(rbytes(rnd(5))) + mstr(rbytes(rnd(5))); break; case 1: case 23: case 25: case 36: case 37: case 40: case 41: case 42: s.push_back(rnd(2)); break; default: s += mstr(rnd(2) ? "text" : rbytes(rnd(8))); } } return vbi(s.size()) + s; }
static std::string body(int t, bool v5)
{
    std::string P = v5 ? props() : "";
    switch (t) {
    case 1: { int f = rnd(256) & 0xFE; std::string s = mstr("MQTT") + std::string(1, v5 ? 5 : 4) + std::string(1, f) + u16(60) + P + mstr("id" + std::to_string(rnd(9))); if (f & 4) s += (v5 ? props() : "") + mstr("will/t") + mstr("w"); if (f & 128) s += mstr("user"); if (f & 64) s += mstr("pass"); return s; }
    case 2: return std::string(1, rnd(2)) + std::string(1, rnd(6)) + P; case 3: return mstr("a/b") + (rnd(2) ? u16(1 + rnd(9)) : "") + P + rbytes(rnd(20));
    case 4: case 5: case 6: case 7: return u16(rnd(9)) + (v5 && rnd(2) ? std::string(1, rnd(3)) + (rnd(2) ? props() : "") : ""); case 8: { std::string s = u16(1 + rnd(9)) + P; for (int i = rnd(4); i >= 0; i--) s += mstr(rnd(2) ? "a/#" : "$share/x/a") + std::string(1, rnd(3)); return s; }
    case 9: return u16(3) + P + rbytes(2); case 10: { std::string s = u16(1 + rnd(9)) + P; for (int i = rnd(4); i >= 0; i--) s += mstr("a/#"); return s; } case 14: case 15: return (rnd(4) ? std::string(1, rnd(30)) : "") + P; default: return rbytes(rnd(5)); }
}
int main()
{
    for (auto &h : hints()) if (h.first == "size") { size_t n = strtoull(h.second.c_str(), 0, 10); if (n < 100000) for (size_t p = 0; p <= std::min<size_t>(n, 40); p++) readers(rbytes(n), p); }
    for (size_t n = 0; n < 12; n++) for (size_t p = 0; p <= n; p++) for (int k = 0; k < 20; k++) readers(rbytes(n), p);
    while (time_left())
    {
        for (int i = 0; i < 30; i++) { std::string s = rbytes(rnd(70)); if (rnd(2) && s.size() > 2) { size_t a = rnd(s.size() - 2); s[a] = 0; s[a + 1] = s.size() - a - 2 + (rnd(3) - 1); } readers(s, rnd(s.size() + 1)); }
        Broker b; for (int i = 0; i < 40; i++)
        {
            bool v5 = rnd(3); bool server = rnd(4) == 0; std::shared_ptr<Client> c = server || rnd(3) == 0 ? b.raw() : b.connect("c" + std::to_string(rnd(4)), v5 ? ProtocolVersion::Mqtt5 : ProtocolVersion::Mqtt311); if (server) c->clientType = ClientType::LocalBridge;
            for (int k = 0; k < 4; k++)
            {
                int t = 1 + rnd(15); std::string x = body(t, v5); int fl = t == 8 || t == 10 || t == 6 ? 2 : t == 3 ? rnd(16) : 0; if (rnd(2) && !x.empty()) { int m = rnd(4); if (m == 0) x.resize(rnd(x.size() + 1)); else if (m == 1) x[rnd(x.size())] = rnd(256); else if (m == 2) x.insert(rnd(x.size()), rbytes(1 + rnd(4))); else x += rbytes(rnd(6)); }
                g_case = std::string(v5 ? "v5" : "v3.1.1") + " packet " + hex(mkpkt(t, fl, x)); std::string whole = mkpkt(t, fl, x); 
                try { CirBuf buf(16); buf.ensureFreeSpace(whole.size() + 1); buf.write(whole.data(), whole.size()); std::vector<MqttPacket> q; MqttPacket::bufferToMqttPackets(buf, q, c); for (auto &p : q) { p.bites.shrink_to_fit(); size_t n = p.bites.size(); 
                        try { if (server) switch (t) { case 2: p.parseConnAckData(); break; case 9: p.parseSubAckData(); break; case 14: p.parseDisconnectData(); break; case 15: p.parseAuthData(); break; case 3: p.parsePublishData(c); break; case 1: p.parseConnectData(c); break; default: p.handle(c); } else if (t == 14 && rnd(2)) p.parseDisconnectData(); else p.handle(c); } catch (std::exception &) { throw; }
                        if (p.bites.size() != n || p.pos > n) FAIL("position left the packet"); if (t == 3 && p.payloadStart && p.payloadStart + p.payloadLen != n) FAIL("payload is not the rest of the packet"); } }
                catch (std::exception &) { break; }
            }
        }
    }
    return done();
}
