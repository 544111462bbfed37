// C32: PROXY v2 headers over a socket pair, whole and in parts, compared with an independent parser
#include "broker.h"
#include "haproxy.h"
static std::string bytes(size_t n){ std::string s(n, 0); for (auto &c : s) c = rnd(256); return s; }
static std::string text(size_t n){ std::string s(n, 0); for (auto &c : s) c = 'a' + rnd(26); return s; }
static std::string field(int t, const std::string &v, int lie = 0){ return std::string(1, (char)t) + u16(v.size() + lie) + v; }
struct Exp { bool ok = true; bool ssl = false; bool has = false; std::string cn; uint32_t verify = 0; };
static bool utf8(const std::string &s){ for (unsigned char c : s) if (c >= 0x80 || c < 0x20 || c == 0x7f) return false; return true; }
static bool fields(const std::string &d, std::map<int, std::string> &out){ size_t i = 0; while (i < d.size()) { if (d.size() - i < 3) return false; int t = (uint8_t)d[i]; size_t n = (uint8_t)d[i+1] << 8 | (uint8_t)d[i+2]; i += 3; if (n > d.size() - i) return false; if (!out.emplace(t, d.substr(i, n)).second) return false; i += n; } return true; }
static Exp expect(const std::string &d){
    Exp e; std::map<int, std::string> f, g; if (!fields(d, f)) { e.ok = false; return e; } auto p = f.find(0x20); if (p == f.end()) return e; const std::string &s = p->second; if (s.size() < 5 || !fields(s.substr(5), g) || g.count(0x20)) { e.ok = false; return e; }
    e.ssl = true; e.verify = (uint32_t)(uint8_t)s[1] << 24 | (uint8_t)s[2] << 16 | (uint8_t)s[3] << 8 | (uint8_t)s[4]; for (int t : {0x21, 0x22}) if (g.count(t) && !utf8(g[t])) e.ok = false; if (g.count(0x22)) { e.has = true; e.cn = g[0x22]; } return e; }
static std::string additional(){
    std::string d; int k = rnd(5); for (int i = 0; i < k; i++) { if (rnd(3)) { static const int t[] = {1, 2, 3, 4, 5, 0x30, 0, 0xff, 0x21, 0x22}; d += field(t[rnd(10)], bytes(rnd(6) ? rnd(20) : 250 + rnd(600))); } else {
        std::string s = bytes(1); for (int j = 0; j < 4; j++) s.push_back(rnd(2) ? 0 : rnd(256)); int m = rnd(4); for (int j = 0; j < m; j++) { int t = 0x21 + rnd(5); if (!rnd(12)) t = 0x20; s += field(t, rnd(10) ? text(rnd(30)) : text(rnd(10)) + "\xff", rnd(15) ? 0 : 1 + rnd(3)); } if (!rnd(10)) s.resize(rnd(5)); d += field(0x20, s, rnd(20) ? 0 : 1); } }
    if (!rnd(6) && d.size()) d.resize(rnd(d.size())); if (!rnd(8)) d += bytes(1 + rnd(3)); return d; }
static void tlv(){
    std::string d = additional(); g_case = "additional data " + hex(d); Exp e = expect(d); std::vector<unsigned char> v(d.begin(), d.end()); v.shrink_to_fit(); int rc = 0; bool ok = true;
    try { auto m = read_ha_proxy_pp2_tlv(v, rc); if (e.ok) { auto p = m.find(PP2_TYPE_SSL); if ((p != m.end()) != e.ssl) { FAIL("SSL field lost or invented"); return; } if (e.ssl) { HaProxySslData s = std::get<HaProxySslData>(p->second); if (s.verify != e.verify) FAIL("verification result is not the four bytes sent"); if (s.ssl_cn.has_value() != e.has || (e.has && *s.ssl_cn != e.cn)) FAIL("certificate name differs"); } std::map<int, std::string> f; fields(d, f); if (f.size() != m.size()) FAIL("fields lost or invented"); for (auto &x : f) if (x.first != 0x20) { auto q = m.find(x.first); if (q == m.end() || std::get<std::string>(q->second) != x.second) FAIL("field differs"); } } } catch (std::exception &) { ok = false; }
    if (ok != e.ok) FAIL(ok ? "malformed fields accepted" : "valid fields refused"); }
static void header(){
    Broker b; auto c = b.raw(ClientType::Normal, ConnectionProtocol::Mqtt); c->ioWrapper.setHaProxy(); int peer = b.peer[c.get()]; int oldfam = c->addr.getFamily();
    int cmd = rnd(8) ? rnd(2) : rnd(16), ver = rnd(10) ? 2 : rnd(16), fam = rnd(8) ? 1 + rnd(2) : rnd(16), prot = rnd(6) ? 1 : rnd(16); static const int al[] = {0, 12, 36, 216}; int want = fam < 4 ? al[fam] : 0; std::string add; if (rnd(2)) { for (int i = 0; i < 10 && !(add.size() && expect(add).ok); i++) add = additional(); }
    int total = want + (int)add.size(); if (!rnd(8)) total = rnd(want + 2); std::string sig("\r\n\r\n\0\r\nQUIT\n", 12); if (!rnd(15)) sig[rnd(12)] ^= 1 + rnd(255); std::string ad = bytes(want), h = sig + (char)(ver << 4 | cmd) + (char)(fam << 4 | prot) + u16(total) + ad; std::string tail = "MQTT bytes"; std::string rest = add.substr(0, std::max(0, total - want)); Exp e = expect(rest);
    bool legal = sig == std::string("\r\n\r\n\0\r\nQUIT\n", 12) && ver == 2 && fam < 4 && total >= want && (cmd == 0 || (cmd == 1 && (prot == 0 || (prot <= 2 && (fam == 1 || fam == 2))))); bool remote = cmd == 1 && prot != 0; bool full = (int)rest.size() == total - want; g_case = "header " + hex(h + add);
    std::string all = h + rest + (full ? tail : ""); size_t first = h.size() + (rest.size() ? rnd(rest.size() + 1) : 0); if (first >= h.size() + rest.size()) first = all.size(); (void)!::write(peer, all.data(), first); bool ok = true, done_ = false;
    try { done_ = c->readHaProxyData() == HaProxyStage::DoneOrNotNeeded; size_t at = first; int guard = 0; while (!done_ && guard++ < 2000 && at <= all.size()) { size_t n = std::min<size_t>(1 + rnd(400), all.size() - at); if (!n) break; (void)!::write(peer, all.data() + at, n); at += n; done_ = c->readHaProxyData() == HaProxyStage::DoneOrNotNeeded; } if (done_ && at < all.size()) (void)!::write(peer, all.data() + at, all.size() - at); } catch (std::exception &) { ok = false; }
    bool good = legal && e.ok; if (total - want < 0) good = false; if (legal && !full) { if (ok && done_) FAIL("incomplete header taken as complete"); return; }
    if (ok != good) { FAIL(ok ? "malformed header accepted" : "valid header refused"); return; } if (!ok) return; if (!done_) { FAIL("complete header not recognised"); return; }
    char buf[100]; ssize_t n = ::read(c->getFd(), buf, sizeof buf); if (std::string(buf, std::max<ssize_t>(n, 0)) != tail) FAIL("bytes after the header lost or header bytes left");
    if (c->getHaProxyConnectionType() != (remote ? HaProxyConnectionType::Remote : HaProxyConnectionType::Local)) FAIL("kind of connection");
    if (remote) { if (c->addr.getFamily() != (fam == 1 ? AF_INET : AF_INET6)) { FAIL("address family"); return; } if (fam == 1) { sockaddr_in a; memcpy(&a, c->addr.getData(), sizeof a); if (memcmp(&a.sin_addr, ad.data(), 4) || memcmp(&a.sin_port, ad.data() + 8, 2)) FAIL("source address"); } else { sockaddr_in6 a; memcpy(&a, c->addr.getData(), sizeof a); if (memcmp(&a.sin6_addr, ad.data(), 16) || memcmp(&a.sin6_port, ad.data() + 32, 2)) FAIL("source address"); } } else if (c->addr.getFamily() != oldfam) FAIL("address changed by a local connection");
    auto &cn = c->getHaProxySslCnName(); if (cn.has_value() != (e.has) || (e.has && *cn != e.cn)) FAIL("certificate name"); }
int main(){ while (time_left()) { for (int i = 0; i < 40; i++) tlv(); for (int i = 0; i < 10; i++) header(); } return done(); }
