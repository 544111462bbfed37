// C02: both UTF-8 checkers against the table of well-formed byte sequences
#include "h.h"
#include "utils.h"
#include "threadlocalutils.h"
static bool allowed(uint32_t cp){ return cp >= 0x20 && !(cp >= 0x7f && cp <= 0x9f) && !(cp >= 0xd800 && cp <= 0xdfff) && !(cp >= 0xfdd0 && cp <= 0xfdef) && (cp & 0xfffe) != 0xfffe && cp <= 0x10ffff; }
static bool ref(const std::string &s, bool flag){
    size_t i = 0; while (i < s.size()) { unsigned char b = s[i]; int w = b < 0x80 ? 1 : b < 0xc2 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf5 ? 4 : 0; if (!w || i + w > s.size()) return false;
        uint32_t cp = w == 1 ? b : b & (0x7f >> w); for (int k = 1; k < w; k++) { unsigned char c = s[i+k]; if (c >> 6 != 2) return false; cp = cp << 6 | (c & 63); }
        if ((w == 3 && cp < 0x800) || (w == 4 && cp < 0x10000) || !allowed(cp)) return false; if (flag && (cp == '#' || cp == '+')) return false; i += w; } return true; }
static std::string enc(uint32_t cp, int w){ std::string o; if (w == 1) { o.push_back(cp); return o; } for (int k = w - 1; k >= 0; k--) { unsigned char c = (cp >> (6*k)) & 63; o.push_back(k == w - 1 ? (c & (0x7f >> w)) | (unsigned char)(0xf00 >> w) : c | 0x80); } return o; }
static int wid(uint32_t cp){ return cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4; }
#ifdef __SSE4_2__
static SimdUtils simd;
#endif
static void chk(const std::string &s){ for (bool f : {false, true}) { g_case = hex(s.substr(0, 300)) + (f ? " (wildcards illegal)" : "") + " length " + std::to_string(s.size()); bool e = ref(s, f);
    auto t = [&](bool r, const char *w){ if (r != e) FAIL(std::string(w) + (e ? " refuses an allowed string" : " accepts a string that is not allowed")); };
    t(isValidUtf8Generic(s, f), "isValidUtf8Generic"); t(isValidUtf8(s, f), "isValidUtf8"); t(isValidUtf8Generic(std::string_view(s), f), "isValidUtf8Generic of a view"); if (s.find('\0') == std::string::npos) t(isValidUtf8Generic(s.c_str(), f), "isValidUtf8Generic of a C string");
#ifdef __SSE4_2__
    t(simd.isValidUtf8(s, f), "SimdUtils::isValidUtf8");
#endif
} }
int main()
{
    for (auto &h : hints()) if (h.first == "s") chk(unhex(h.second));
    chk("");
    for (uint32_t cp = 0; cp <= 0x1fffff; cp++) { if (cp > 0x3000 && cp < 0x1fff00 && (cp & 0xffff) < 0xfd00 && (cp & 0xffff) > 8 && cp % 37 && (cp & 0xff) > 1 && cp < 0xd700) continue; if (cp > 0x11000 && (cp & 0xffff) > 16 && (cp & 0xffff) < 0xfff0 && cp % 211) continue; for (int w = wid(cp); w <= 4; w++) { if (w > wid(cp) && cp > 0x3000 && cp % 17) continue; int at = (cp + w) % 40; std::string e = enc(cp, w); chk(std::string(at, 'a') + e + std::string(cp % 5, 'z')); if (cp % 7 == 0) chk(std::string(at, 'b') + e.substr(0, e.size() - 1)); } }
    for (int len = 0; len <= 50; len++) for (int p = 0; p < len; p++) for (int c = 0; c < 256; c++) { if (len > 34 && (p & 15) && (p & 15) != 15 && p != len - 1) continue; std::string s(len, 'x'); s[p] = c; chk(s); }
    static const uint32_t pts[] = {0x1f, 0x20, '#', '+', '/', 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffd, 0x1fffe, 0x1ffff, 0x10fffd, 0x10fffe, 0x10ffff, 0x110000, 0, 'a', 0xe9, 0x20ac, 0x1f600};
    while (time_left()) for (int k = 0; k < 300; k++) { std::string s; int n = rnd(60); bool clean = rnd(3); for (int i = 0; i < n; i++) { uint32_t cp; do cp = rnd(3) ? 32 + rnd(95) : rnd(2) ? pts[rnd(36)] : rnd(0x110000); while (clean && (!allowed(cp) || cp == '#' || cp == '+')); s += enc(cp, wid(cp)); }
        if (!rnd(3) && s.size()) s[rnd(s.size())] ^= 1 << rnd(8); if (!rnd(4) && s.size()) s.pop_back(); if (!rnd(5)) s = std::string(rnd(17), 'q') + s; chk(s);
        if (!rnd(200)) { std::string l(65535 - rnd(40), 'a'); if (rnd(2)) l[l.size() - 1 - rnd(20)] = rnd(256); chk(l); } }
    return done();
}
