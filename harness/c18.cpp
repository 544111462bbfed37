// C18: the access-control file decides as written; random files, loaded and queried through the real code, against the rules read independently
#include "broker.h"
#include <fstream>
struct Rule { int root; std::string user; std::vector<std::string> f; int g; }; // root 0: general, 1: user, 2: pattern; g: 0 deny 1 read 2 write 3 both
static std::vector<std::string> split(const std::string &t){ std::vector<std::string> r; std::string c; for (char x : t) if (x == '/') { r.push_back(c); c.clear(); } else c.push_back(x); r.push_back(c); return r; }
static bool match(const std::vector<std::string> &f, const std::vector<std::string> &t, bool pat, const std::string &user, const std::string &cid)
{
    for (size_t i = 0; i < f.size(); i++)
    {
        if (f[i] == "#") return true; if (i >= t.size()) return false; if (f[i] == "+") continue;
        if (pat && (f[i] == "%u" || f[i] == "%c")) { const std::string &v = f[i] == "%u" ? user : cid; if (v.empty() || v != t[i]) return false; continue; }
        if (f[i] != t[i]) return false;
    }
    return f.size() == t.size();
}
static bool allowed(const std::vector<Rule> &rs, bool write, const std::string &cid, const std::string &user, const std::vector<std::string> &t)
{
    bool ok = false; for (auto &r : rs) { if (r.root == 0 ? !user.empty() : r.root == 1 ? user.empty() || r.user != user : false) continue; if (!match(r.f, t, r.root == 2, user, cid)) continue; if (r.g == 0) return false; if (r.g & (write ? 2 : 1)) ok = true; } return ok;
}
static const char *W[] = {"a", "b", "c", "$SYS", "alice", "bob", "c1", "c2", "%u", "%c", ""};
static std::string level(bool pat, bool wild){ if (wild && rnd(4) == 0) return "+"; if (pat && rnd(2) == 0) return rnd(2) ? "%u" : "%c"; return W[rnd(rnd(2) ? 3 : 11)]; }
static std::string join(const std::vector<std::string> &v){ std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "/" : "") + v[i]; return s; }
static std::string filter(bool pat){ for (;;) { std::vector<std::string> v; int n = 1 + rnd(4); for (int i = 0; i < n; i++) v.push_back(level(pat, true)); if (rnd(4) == 0) v.back() = "#"; std::string s = join(v); if (!s.empty()) return s; } }
static Scratch scr; static int fileno_;
static std::string mixcase(std::string s){ for (char &c : s) if (rnd(6) == 0) c = toupper(c); return s; }
static void query(const std::vector<Rule> &rs, std::function<AuthResult(const std::string &, const std::string &, const std::vector<std::string> &, AclAccess)> ask, bool file)
{
    static const char *users[] = {"", "alice", "bob", "c1", "%u", "%c"}; static const char *cids[] = {"c1", "c2", "alice", "%u", "%c"};
    for (int k = 0; k < 25; k++)
    {
        std::string user = users[rnd(6)], cid = cids[rnd(5)]; std::vector<std::string> t;
        if (rs.size() && rnd(3)) { t = rs[rnd(rs.size())].f; std::vector<std::string> o; for (auto &x : t) { if (x == "+") o.push_back(level(false, false)); else if (x == "#") { int n = rnd(3); for (int i = 0; i < n; i++) o.push_back(level(false, false)); } else if (x == "%u" && rnd(3)) o.push_back(user); else if (x == "%c" && rnd(3)) o.push_back(cid); else o.push_back(x); } t = o; }
        else { int n = 1 + rnd(4); for (int i = 0; i < n; i++) t.push_back(level(rnd(4) == 0, false)); }
        if (t.empty()) t.push_back("a"); if (rnd(6) == 0) t[rnd(t.size())] = W[rnd(11)];
        AclAccess a = rnd(2) ? AclAccess::read : AclAccess::write; if (file && rnd(10) == 0) { if (ask(cid, user, t, AclAccess::subscribe) != AuthResult::success) { FAIL("subscribing is not decided by the file"); return; } }
        AuthResult r = ask(cid, user, t, a); bool want = allowed(rs, a == AclAccess::write, cid, user, t);
        if ((r == AuthResult::success) != want) { FAIL(std::string(a == AclAccess::write ? "writing " : "reading ") + join(t) + " as user '" + user + "' client '" + cid + "': granted " + (r == AuthResult::success ? "yes" : "no") + ", the rules say " + (want ? "yes" : "no")); return; }
    }
}
static void one()
{
    std::vector<Rule> rs, old; Broker b; auto &au = b.td->authentication; static const char *G[] = {"deny", "read", "write", "readwrite"};
    if (rnd(3) == 0)
    {
        AclTree tree; g_case = "added: "; int n = rnd(8); for (int i = 0; i < n; i++) { Rule r; bool pat = rnd(3) == 0; std::string u = rnd(2) ? "alice" : rnd(2) ? "bob" : ""; std::string f = filter(pat); r.f = split(f); r.root = pat ? 2 : u.empty() ? 0 : 1; r.user = u; r.g = rnd(4); rs.push_back(r); static const AclGrant gg[] = {AclGrant::Deny, AclGrant::Read, AclGrant::Write, AclGrant::ReadWrite}; tree.addTopic(f, gg[r.g], pat ? AclTopicType::Patterns : AclTopicType::Strings, u); g_case += (pat ? "pattern " : "topic(" + u + ") ") + std::string(G[r.g]) + " " + f + "; "; }
        query(rs, [&](const std::string &c, const std::string &u, const std::vector<std::string> &t, AclAccess a){ return tree.findPermission(t, a == AclAccess::write ? AclGrant::Write : AclGrant::Read, u, c); }, false); return;
    }
    if (rnd(8) == 0) { g_case = "no file"; for (auto a : {AclAccess::read, AclAccess::write, AclAccess::subscribe, AclAccess::register_will}) if (au.aclCheckFromMosquittoAclFile("c", "u", {"a"}, a) != AuthResult::success) FAIL("without a file everything is allowed"); return; }
    for (int round = 0; round < 2; round++)
    {
        std::string text, user; rs.clear(); bool bad = false; int n = rnd(9);
        for (int i = 0; i < n; i++)
        {
            switch (rnd(12))
            {
            case 0: text += "# comment\n"; break; case 1: text += "  \n"; break; case 2: case 3: { user = rnd(2) ? "alice" : rnd(2) ? "bob" : "%u"; text += mixcase("user") + " " + user + "\n"; break; }
            case 4: if (rnd(3) == 0) { bad = true; static const char *B[] = {"topic", "bogus a/b", "topic rw a", "topic read a/#/b", "pattern read a+/b", "user", "topic a#", "topic # a"}; text += std::string(B[rnd(8)]) + "\n"; } break;
            default: { bool pat = rnd(3) == 0; Rule r; std::string f = filter(pat); r.f = split(f); r.g = rnd(5); r.root = pat ? 2 : user.empty() ? 0 : 1; r.user = user; text += (rnd(4) ? "" : "\t ") + mixcase(pat ? "pattern" : "topic") + " " + (r.g < 4 ? mixcase(G[r.g]) + " " : "") + f + (rnd(5) ? "" : " ") + "\n"; if (r.g == 4) r.g = 3; rs.push_back(r); }
            }
        }
        std::string p = scr.d + "/acl" + std::to_string(fileno_++); { std::ofstream o(p); o << text; } g_case = (round ? "reloaded with: " : "file: "); for (char c : text) g_case += c == '\n' ? ';' : c;
        const_cast<std::string &>(au.mosquittoAclFile) = p; au.mosquittoAclFileLastChange = {}; au.loadMosquittoAclFile(); remove(p.c_str()); if (bad) { rs = old; g_case += " (refused as a whole)"; } old = rs;
        query(rs, [&](const std::string &c, const std::string &u, const std::vector<std::string> &t, AclAccess a){ return au.aclCheckFromMosquittoAclFile(c, u, t, a); }, true); if (g_fails) return;
    }
}
int main(){ while (time_left()) one(); return done(); }
