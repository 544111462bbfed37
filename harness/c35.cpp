// C35: who gets logged in; random password files, plugin outcomes, listeners and connections on the real code
#include "broker.h"
#include <openssl/evp.h>
#include <fstream>
static std::map<std::string, int> verdict; // user -> plugin answer, -1 throws
static const AuthResult res_[] = {AuthResult::success, AuthResult::login_denied, AuthResult::error, AuthResult::acl_denied};
static int pv_(const std::string &u, const std::string &p){ auto k = u + "\1" + p; auto i = verdict.find(k); if (i == verdict.end()) i = verdict.emplace(k, rnd(3) ? 1 + (int)rnd(3) : rnd(4) ? 0 : -1).first; return i->second; }
static bool asked; static std::string ext_user; static int ext_answer;
static AuthResult login(void *, const std::string &, const std::string &u, const std::string &p, const std::vector<std::pair<std::string, std::string>> *, const std::weak_ptr<Client> &){ asked = true; int v = pv_(u, p); if (v < 0) throw std::runtime_error("plugin failed"); return res_[v]; }
static int unpwd(void *, const char *u, const char *p){ asked = true; int v = pv_(u, p); return v < 0 ? 13 : (int)res_[v]; }
static AuthResult ext(void *, const std::string &, ExtendedAuthStage, const std::string &, const std::string &, const std::vector<std::pair<std::string, std::string>> *, std::string &, std::string &, const std::weak_ptr<Client> &){ asked = true; if (ext_answer < 0) throw std::runtime_error("x"); return res_[ext_answer]; }
static std::string b64(const std::string &s){ return base64Encode((const unsigned char *)s.data(), s.size()); }
static std::string hash(const std::string &pw, int kind, int iter, std::string &salt)
{
    salt.clear(); for (int i = 0; i < 12; i++) salt.push_back(rnd(256)); unsigned char md[64]; unsigned l = 0;
    if (kind == 6) { std::string x = pw + salt; EVP_Digest(x.data(), x.size(), md, &l, EVP_sha512(), nullptr); } else { PKCS5_PBKDF2_HMAC(pw.data(), pw.size(), (const unsigned char *)salt.data(), salt.size(), iter, EVP_sha512(), 64, md); }
    return std::string((char *)md, 64);
}
static Scratch scr; static int nfile;
static const char *U[] = {"alice", "bob", "carol", "Alice", "", "eve"}; static std::string PW(){ static const std::string v[] = {"secret", "hunter2", "", "secret ", "Secret", "secre", std::string("secret\0x", 8), "salt"}; return v[rnd(8)]; }
static void one()
{
    verdict.clear(); bool anon = rnd(2), zero = rnd(2); Broker b([&](Settings &s){ s.allowAnonymous = anon; s.zeroByteUsernameIsAnonymous = zero; }); auto &au = b.td->authentication; std::map<std::string, std::string> file; bool have = rnd(3), missing = false; g_case = anon ? "anonymous allowed; " : "anonymous refused; ";
    if (have)
    {
        std::string p = scr.d + "/pw" + std::to_string(nfile++), text; int n = rnd(5); for (int i = 0; i < n; i++) { std::string u = U[rnd(4)]; if (file.count(u)) continue; std::string pw, salt; do pw = PW(); while (pw.empty() || pw.find('\0') != std::string::npos); int kind = rnd(2) ? 6 : 7, iter = 1 + rnd(50); std::string h = hash(pw, kind, iter, salt);
            if (rnd(8) == 0) { static const char *bad[] = {"nonsense\n", ":$6$x$y\n", "x:$5$a$b\n", "y:\n", "a:b:c\n"}; text += bad[rnd(5)]; }
            if (rnd(10) == 0) { h[rnd(64)] ^= 1 << rnd(8); file[u] = std::string("!no"); } else if (rnd(12) == 0) { h.resize(1 + rnd(63)); file[u] = std::string("!no"); } else file[u] = pw;
            text += u + ":$" + (kind == 6 ? "6$" : "7$" + std::to_string(iter) + "$") + b64(salt) + "$" + b64(h) + "\n"; g_case += u + " has password '" + file[u] + "'; "; }
        missing = rnd(12) == 0; if (!missing) { std::ofstream(p) << text; } else { file.clear(); g_case += "password file missing; "; } const_cast<std::string &>(au.mosquittoPasswordFile) = p; au.mosquittoPasswordFileLastLoad = {}; au.loadMosquittoPasswordFile(); remove(p.c_str());
    }
    int fam = rnd(3); bool init = rnd(5); if (fam) { au.pluginFamily = fam == 1 ? PluginFamily::FlashMQ : PluginFamily::MosquittoV2; au.initialized = init; au.flashmq_plugin_login_check_v1 = login; au.unpwd_check_v2 = unpwd; au.flashmq_plugin_extended_auth_v1 = rnd(3) ? ext : nullptr; } g_case += fam == 0 ? "no plugin; " : init ? "plugin; " : "plugin that failed to start; ";
    for (int k = 0; k < 12; k++)
    {
        int over = rnd(3); bool named = rnd(6), method = rnd(5) == 0, x509 = rnd(12) == 0; std::string user = U[rnd(6)], pw = rnd(2) && file.count(user) ? file[user] : PW(); if (pw == "!no") pw = "secret"; int pv = rnd(2) || method ? 5 : 4; bool haspw = named && rnd(8); if (!haspw) pw.clear(); ext_answer = (int)rnd(5) - 1; if (fam == 2) pw = pw.c_str(); ext_answer = std::min(ext_answer, 3);
        auto c = b.raw(); c->setAllowAnonymousOverride(over == 0 ? AllowListenerAnonymous::None : over == 1 ? AllowListenerAnonymous::Yes : AllowListenerAnonymous::No); if (x509) c->x509ClientVerification = X509ClientVerification::X509IsEnough;
        std::string s = mstr("MQTT"); s.push_back(pv); s.push_back(2 | (named ? 0x80 : 0) | (haspw ? 0x40 : 0)); s += u16(60); if (pv >= 5) { std::string pr; if (method) pr = "\x15" + mstr("SCRAM"); s += vbi(pr.size()) + pr; } s += mstr("c" + std::to_string(k)); if (named) s += mstr(user); if (haspw) s += mstr(pw);
        asked = false; std::string at = g_case; g_case += std::string(named ? "user '" + user + "' password '" + pw + "'" : "no username") + (method ? " with an authentication method answered " + std::to_string(ext_answer) : "") + (over == 1 ? ", listener allows anonymous" : over == 2 ? ", listener refuses anonymous" : "") + (x509 ? ", certificate wanted but none given" : "");
        try { b.feed(c, mkpkt(1, 0, s)); } catch (std::exception &e) { } bool eff = over == 0 ? anon : over == 1, want, infile = have && !missing && file.count(user); bool got = c->getAuthenticated();
        bool refuse = named && user.empty() && !zero; if (user.empty()) named = false; if (!named) user.clear(), infile = false;
        if (x509 || refuse) want = false; else if (!named && !method && eff) want = true;
        else if (method) want = fam == 1 && init && au.flashmq_plugin_extended_auth_v1 && ext_answer == 0;
        else if (infile && file[user] == pw) want = true;
        else if (have && missing) want = !fam ? false : init && pv_(user, pw) == 0;
        else if (have && !infile && eff) want = true;
        else if (!fam) want = infile ? false : eff; else want = init && pv_(user, pw) == 0;
        if (asked && !init) FAIL("a plugin that failed to start was asked"); if (got != want) { FAIL(std::string(got ? "logged in, must not be" : "refused, must be accepted")); return; }
        bool okk; std::string o = b.out(c); auto v = split_packets(o, okk); if (want && (v.empty() || v[0].type != 2 || v[0].body[1])) FAIL("no successful CONNACK"); for (auto &x : v) if (!want && x.type == 2 && !x.body[1]) FAIL("a successful CONNACK for a refused login"); if (!want && c->session) FAIL("a refused login has a session");
        if (want) b.td->removeClient(c); b.tasks(); g_case = at;
    }
}
int main(){ while (time_left()) one(); return done(); }
