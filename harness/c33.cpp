// C33: websocket frames in both directions, over a socket pair
#include "broker.h"
static std::string frame(int op, const std::string &pl, bool masked, int form, std::string &plain){
    std::string f; f.push_back((char)(0x80 | op)); size_t n = pl.size(); char m = masked ? (char)0x80 : 0; if (form == 0 && n > 125) form = n > 65535 ? 2 : 1; if (form == 1 && n > 65535) form = 2;
    if (form == 0) f.push_back(m | (char)n); else if (form == 1) { f.push_back(m | 126); f += u16(n); } else { f.push_back(m | 127); for (int i = 7; i >= 0; i--) f.push_back((char)((uint64_t)n >> (8*i))); }
    char k[4] = {0,0,0,0}; if (masked) for (int i = 0; i < 4; i++) { k[i] = rnd(256); f.push_back(k[i]); } for (size_t i = 0; i < n; i++) f.push_back(pl[i] ^ k[i & 3]); if (op == 2) plain += pl; return f; }
static std::string bytes(size_t n){ std::string s(n, 0); for (auto &c : s) c = rnd(256); return s; }
static size_t len(bool big){ static const size_t t[] = {0, 1, 2, 3, 4, 5, 124, 125, 126, 127, 128, 255, 256, 257, 1000, 4095, 4096, 8191}; if (big && !rnd(12)) { static const size_t b[] = {65535, 65536, 65537, 70000, 40000}; return b[rnd(5)]; } return rnd(3) ? t[rnd(18)] : rnd(300); }
static std::string drain(int fd){ std::string s; char b[70000]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
// payloads of the frames sent by the broker; -1 opcode on a malformed stream
static std::vector<std::pair<int, std::string>> unframe(const std::string &s){
    std::vector<std::pair<int, std::string>> r; size_t i = 0; auto bad = [&]{ r.push_back({-1, ""}); return r; };
    while (i < s.size()) { if (s.size() - i < 2) return bad(); uint8_t a = s[i], b = s[i+1]; i += 2; if ((a & 0xf0) != 0x80 || b & 0x80) return bad(); uint64_t n = b; int e = b == 126 ? 2 : b == 127 ? 8 : 0; if (s.size() - i < (size_t)e) return bad(); if (e) { n = 0; while (e--) n = n << 8 | (uint8_t)s[i++]; } if (n > s.size() - i) return bad(); r.push_back({a & 15, s.substr(i, n)}); i += n; }
    return r; }
static void reading(int round){
    Broker b; auto c = b.raw(ClientType::Normal, ConnectionProtocol::WebsocketMqtt); IoWrapper &w = c->ioWrapper; w.websocketState = WebsocketState::Upgraded; int peer = b.peer[c.get()];
    std::string wire, want, desc; std::vector<std::string> pings; int nf = 1 + rnd(12);
    for (int i = 0; i < nf; i++) { int k = rnd(8), op = k == 0 ? 9 : k == 1 ? 10 : 2, form = rnd(4) ? 0 : rnd(3); std::string pl = bytes(len(op == 2)); bool m = rnd(4); if (op == 9) pings.push_back(pl); std::string fr = frame(op, pl, m, form, want); desc += " op" + std::to_string(op) + " len" + std::to_string(pl.size()) + (m ? " masked" : "") + " form" + std::to_string(form) + ","; wire += fr; }
    bool closed = !rnd(4); if (closed) { std::string x; wire += frame(8, rnd(2) ? "" : u16(1000 + rnd(20)) + bytes(rnd(30)), rnd(2), 0, x); if (rnd(2)) wire += frame(2, bytes(5), true, 0, x); desc += " close"; }
    g_case = "frames" + desc + " chunk style " + std::to_string(round % 4); std::string got; size_t at = 0; int idle = 0; bool dis = false;
    std::string buf(70000, 0);
    while ((at < wire.size() || idle < 3) && !dis) {
        if (at < wire.size()) { size_t n = round % 4 == 0 ? 1 + rnd(3) : round % 4 == 1 ? 1 + rnd(200) : round % 4 == 2 ? 1 + rnd(5000) : wire.size(); if (wire.size() > 3000 && n < 50) n = 50 + rnd(100); ssize_t k = ::send(peer, wire.data() + at, std::min(n, wire.size() - at), MSG_NOSIGNAL); if (k > 0) at += k; } else idle++;
        for (int spin = 0; spin < 100000; spin++) { IoWrapResult err = IoWrapResult::Success; size_t nb = rnd(3) ? 1 + rnd(20) : 1 + rnd(65000); if (wire.size() > 5000) nb += 300; ssize_t n; 
            // the caller's buffer is exactly nb bytes
            std::vector<char> small(nb); try { n = w.readWebsocketAndOrSsl(c->getFd(), small.data(), nb, &err); } catch (std::exception &e) { FAIL(std::string("valid frames refused: ") + e.what()); return; }
            if (n > (ssize_t)nb) FAIL("more bytes than asked for"); if (n > 0) got.append(small.data(), n); if (err == IoWrapResult::Disconnected) { dis = true; break; } if (n <= 0 && err != IoWrapResult::WantRead) break; if (n <= 0 && err == IoWrapResult::WantRead && spin > 50) break; } }
    if (closed && !dis) FAIL("a close frame does not end the connection"); if (!closed && dis) FAIL("connection ended without a close frame");
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; FAIL("the MQTT bytes differ from the payloads of the data frames at byte " + std::to_string(i) + " (" + std::to_string(got.size()) + " of " + std::to_string(want.size()) + ")"); }
    auto &r = w.websocketWriteRemainder; std::string out; while (r.usedBytes()) { out.append(r.tailPtr(), r.maxReadSize()); r.advanceTail(r.maxReadSize()); } auto fr = unframe(out); size_t p = 0;
    for (auto &f : fr) { if (f.first != 10) FAIL("answer to a ping is not a pong"); else if (p >= pings.size() || f.second != pings[p]) FAIL("pong does not carry the ping's payload"); p++; } if (p != pings.size()) FAIL("pings unanswered");
}
static void writing(){
    Broker b; auto c = b.raw(ClientType::Normal, ConnectionProtocol::WebsocketMqtt); IoWrapper &w = c->ioWrapper; w.websocketState = WebsocketState::Upgraded; int peer = b.peer[c.get()]; std::string want, wire; if (rnd(2)) { int sz = 4608; setsockopt(c->getFd(), SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
    int k = 1 + rnd(15); g_case = "writes of";
    for (int i = 0; i < k; i++) { std::string d = bytes(len(true)); if (!rnd(30)) d = bytes(300000); if (!d.size()) continue; g_case += " " + std::to_string(d.size()); size_t at = 0; int guard = 0; while (at < d.size() && guard++ < 1000) { IoWrapResult err = IoWrapResult::Success; ssize_t n = w.writeWebsocketAndOrSsl(c->getFd(), d.data() + at, d.size() - at, &err); if (n < 0 || (size_t)n > d.size() - at) { FAIL("wrong count of bytes accepted"); return; } at += n; if (err != IoWrapResult::Success || rnd(2)) wire += drain(peer); } if (at < d.size()) { FAIL("writing does not get on"); return; } want += d; }
    for (int guard = 0; w.hasPendingWrite() && guard < 1000; guard++) { IoWrapResult err; w.writeWebsocketAndOrSsl(c->getFd(), "", 0, &err); wire += drain(peer); } wire += drain(peer);
    std::string got; for (auto &f : unframe(wire)) { if (f.first < 0) { FAIL("malformed frames sent"); return; } if (f.first != 2) FAIL("not a data frame"); if (f.second.empty()) FAIL("empty data frame"); got += f.second; } if (got != want) FAIL("the payloads of the frames sent are not the bytes written");
}
int main()
{
    for (int round = 0; time_left(); round++) { for (int i = 0; i < 5; i++) reading(round + i); for (int i = 0; i < 3; i++) writing(); }
    return done();
}
