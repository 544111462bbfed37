// C04: splitting topics on the real code
#include "h.h"
#include "utils.h"
static void one(const std::string &t)
{
    g_case = std::to_string(t.size()) + " bytes: " + t.substr(0, 400); std::vector<std::string> r; try { r = splitTopic(t); } catch (std::exception &e) { if (t.size() <= 65535 && (size_t)std::count(t.begin(), t.end(), '/') < 65535) FAIL(std::string("threw ") + e.what()); return; }
    size_t n = std::count(t.begin(), t.end(), '/'); if (r.size() != n + 1) { FAIL(std::to_string(r.size()) + " levels with " + std::to_string(n) + " separators"); return; }
    std::string j; for (size_t i = 0; i < r.size(); i++) { if (r[i].find('/') != std::string::npos) FAIL("a level contains a separator"); j += (i ? "/" : "") + r[i]; } if (j != t) FAIL("joined again it is " + j.substr(0, 400));
}
int main()
{
    for (int n = 0; n < 70; n++) for (int i = 0; i < n; i++) { std::string s(n, 'a'); s[i] = '/'; one(s); for (int j : {0, n - 1, i / 2}) { s[j] = '/'; one(s); } } one(""); for (int n = 0; n < 70; n++) one(std::string(n, '/')); for (int n : {255, 256, 4095, 65519, 65520, 65521, 65534, 65535}) { std::string s(n, 'b'); one(s); s[n - 1] = '/'; one(s); s[0] = '/'; one(s); s[n / 2] = '/'; one(s); } one(std::string(65534, '/'));
    while (time_left()) for (int k = 0; k < 500; k++) { size_t n = rnd(rnd(4) ? 50 : rnd(20) ? 300 : 65536); std::string s(n, 'x'); int d = 1 + rnd(40); for (auto &c : s) c = rnd(d) == 0 ? '/' : rnd(10) ? 'a' + rnd(26) : rnd(256); one(s); }
    return done();
}
