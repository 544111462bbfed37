// C03: legality of filters, topics and share names on the real code
#include "broker.h"
static bool legal_filter(const std::string &s){ for (size_t i = 0; i < s.size(); i++) { bool b = i == 0 || s[i - 1] == '/', l = i + 1 == s.size(); if (s[i] == '+' && !(b && (l || s[i + 1] == '/'))) return false; if (s[i] == '#' && !(b && l)) return false; } return true; }
static bool has(const std::string &s, const char *c){ return s.find_first_of(c) != std::string::npos; }
static void one(const std::string &s)
{
    g_case = "string '" + s + "' hex " + hex(s);
    bool f = isValidSubscribePath(s), p = isValidPublishPath(s), n = isValidShareName(s), d = containsDangerousCharacters(s);
    if (f != legal_filter(s)) FAIL(f ? "an illegal filter is accepted" : "a legal filter is refused");
    if (p != (!s.empty() && !has(s, "#+"))) FAIL(p ? "an illegal topic is accepted" : "a legal topic is refused");
    if (n != (!s.empty() && !has(s, "#+/"))) FAIL(n ? "an illegal share name is accepted" : "a legal share name is refused");
    if (d != has(s, "#+")) FAIL(d ? "harmless string flagged" : "dangerous string not flagged");
}
static std::vector<std::string> levels(const std::string &s){ std::vector<std::string> r; std::string c; for (char x : s) if (x == '/') { r.push_back(c); c.clear(); } else c.push_back(x); r.push_back(c); return r; }
static void share(const std::string &s)
{
    g_case = "shared filter '" + s + "'"; auto st = levels(s); auto lv = st; std::string name, topic = s; bool thrown = false;
    bool shared = lv[0] == "$share" && lv.size() > 1; size_t second = s.find('/', 7); std::string want_topic = shared && second != std::string::npos ? s.substr(second + 1) : ""; bool good = shared && second != std::string::npos && !want_topic.empty() && !lv[1].empty() && !has(lv[1], "#+/");
    try { parseSubscriptionShare(st, name, topic); } catch (ProtocolError &) { thrown = true; }
    if (!shared) { if (thrown || !name.empty() || topic != s || st != lv) FAIL("a filter that is not shared is changed or refused"); return; }
    if (thrown == good) { FAIL(good ? "a legal shared filter is refused" : "an illegal shared filter is accepted"); return; } if (!good) return;
    if (name != lv[1]) FAIL("share name is '" + name + "'"); if (topic != want_topic) FAIL("filter without share name is '" + topic + "' instead of '" + want_topic + "'"); if (st != std::vector<std::string>(lv.begin() + 2, lv.end())) FAIL("levels of the shared filter");
}
// over the protocol: subscribing and publishing are refused (connection error) exactly when illegal
static void broker(const std::string &s, int pv)
{
    Broker b; auto c = b.connect("c", PV(pv)); g_case = "client with version " + std::to_string(pv) + " using '" + s + "'";
    auto attempt = [&](const std::string &pkt){ try { b.feed(c, pkt); return true; } catch (ProtocolError &) { return false; } };
    std::string props = pv == 5 ? std::string(1, 0) : ""; bool shared = s.rfind("$share/", 0) == 0; if (shared || s == "$share") return;
    bool r = attempt(mkpkt(8, 2, u16(7) + props + mstr(s) + std::string(1, 1))); if (r != (!s.empty() && legal_filter(s))) FAIL(r ? "subscribing to an illegal filter is accepted" : "subscribing to a legal filter is refused");
    c->readbuf.reset(); c = b.connect("c2", PV(pv)); r = attempt(mkpkt(10, 2, u16(7) + props + mstr(s))); if (r != (!s.empty() && legal_filter(s))) FAIL(r ? "unsubscribing from an illegal filter is accepted" : "unsubscribing from a legal filter is refused");
    c = b.connect("c3", PV(pv)); r = attempt(mkpkt(3, 0, mstr(s) + props + "x")); if (r != (!s.empty() && !has(s, "#+"))) FAIL(r ? "publishing to an illegal topic is accepted" : "publishing to a legal topic is refused");
}
int main()
{
    Broker b; for (auto &h : hints()) if (h.first == "s") one(unhex(h.second));
    const char *al = "a/+#$"; for (int n = 0; n <= 6; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= 5; for (size_t k = 0; k < tot; k++) { std::string s; size_t x = k; for (int i = 0; i < n; i++) { s.push_back(al[x % 5]); x /= 5; } one(s); } }
    const char *parts[] = {"$share", "g", "", "a", "+", "#", "g+", "b"}; for (int n = 1; n <= 5; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= 8; for (size_t k = 0; k < tot; k++) { std::string s; size_t x = k; for (int i = 0; i < n; i++) { if (i) s += "/"; s += parts[i == 0 ? (x % 4) : x % 8]; x /= 8; } share(s); } }
    for (int pv = 3; pv <= 5; pv++) for (const char *s : {"", "a", "/", "+", "#", "a/#", "a/#/b", "a#", "+a", "a+", "a/+", "a/+/b", "#/", "++", "+/+", "+#", "/#", "/+", "a/+b", "$x/#", "//", "a//#"}) broker(s, pv);
    while (time_left()) { std::string s; int n = rnd(4) ? rnd(12) : rnd(200); for (int i = 0; i < n; i++) s.push_back(rnd(30) ? "abc///+#$"[rnd(rnd(3) ? 6 : 9)] : (char)rnd(256)); one(s); share(rnd(2) ? "$share/" + s : s); if (rnd(50) == 0) { std::string t; for (int i = 0; i < 6; i++) t.push_back("a/+#"[rnd(4)]); broker(t, 3 + rnd(3)); } }
    return done();
}
