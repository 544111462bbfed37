// C34: Network against direct bit comparison
#include "h.h"
#include "network.h"
#include <arpa/inet.h>
static std::string ip6(const unsigned char *a){ char b[64]; inet_ntop(AF_INET6, a, b, sizeof b); return b; }
static std::string ip4(const unsigned char *a){ char b[64]; inet_ntop(AF_INET, a, b, sizeof b); return b; }
static bool pfx(const unsigned char *a, const unsigned char *b, int n){ for (int i = 0; i < n; i++) if (((a[i/8] ^ b[i/8]) >> (7 - i%8)) & 1) return false; return true; }
static void addr(const unsigned char *a, int len, sockaddr_storage &s){ memset(&s, 0, sizeof s); if (len == 4) { auto *p = (sockaddr_in*)&s; p->sin_family = AF_INET; memcpy(&p->sin_addr, a, 4); p->sin_port = rnd(65536); } else { auto *p = (sockaddr_in6*)&s; p->sin6_family = AF_INET6; memcpy(&p->sin6_addr, a, 16); p->sin6_port = rnd(65536); p->sin6_flowinfo = rnd(100); p->sin6_scope_id = rnd(3); } }
static bool m(const Network &n, const sockaddr_storage &s){ bool r = n.match((const sockaddr*)&s); bool r2 = s.ss_family == AF_INET ? n.match((const sockaddr_in*)&s) : n.match((const sockaddr_in6*)&s); if (r != r2) FAIL("overloads of match disagree"); return r; }
int main()
{
    while (time_left()) for (int len : {4, 16}) for (int p = 0; p <= len * 8; p++) {
        unsigned char a[16], b[16]; for (int i = 0; i < 16; i++) { a[i] = rnd(4) ? rnd(256) : (rnd(2) ? 0 : 255); b[i] = a[i]; }
        bool slash = p != len * 8 || (len == 4 && a[0] >= 224) || rnd(2); /* inet_net_pton applies class D/E rules when no length is given */ std::string txt = (len == 4 ? ip4(a) : ip6(a)) + (slash ? "/" + std::to_string(p) : "");
        for (int k = 0; k < 6; k++) {
            if (k == 1 && p) { int q = rnd(p); b[q/8] ^= 1 << (7 - q%8); }
            if (k == 2 && p < len*8) { memcpy(b, a, 16); int q = p + rnd(len*8-p); b[q/8] ^= 1 << (7 - q%8); }
            if (k == 3 && p) { memcpy(b, a, 16); b[(p-1)/8] ^= 1 << (7 - (p-1)%8); }
            if (k == 4 && p < len*8) { memcpy(b, a, 16); b[p/8] ^= 1 << (7 - p%8); }
            if (k == 5) for (int i = 0; i < 16; i++) b[i] = rnd(256);
            sockaddr_storage s; addr(b, len, s); g_case = "network " + txt + " address " + (len == 4 ? ip4(b) : ip6(b));
            try { Network n(txt); bool e = pfx(a, b, p); if (m(n, s) != e) FAIL(e ? "an address inside the network does not match" : "an address outside the network matches");
                sockaddr_storage o; addr(b, 20 - len, o); if (m(n, o)) FAIL("matches an address of the other family"); }
            catch (std::exception &ex) { FAIL(std::string("a valid network is refused: ") + ex.what()); }
        }
    }
    for (std::string t : {"", "abc", "1.2.3.4/33", "1.2.3.4/-1", "1.2.3.256/8", "1.2.3.4/a", "1.2.3.4/8/8", "::1/129", "::1/999", "::1/1000", "::1/-1", "::1/+4", "::1/a", "::1/", "::1/64/3", "::1/64/", "::g/3", "1::2::3/5", ":/3", "12", "/::1", "//::1", "::1/6 4", "::1 /64"}) {
        g_case = "network '" + t + "'"; bool ok = true; try { Network n(t); } catch (std::exception &) { ok = false; } if (ok) FAIL("a malformed network is accepted");
    }
    return done();
}
