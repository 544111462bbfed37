// C26: saves that crash, fail or are abandoned at every point; damaged files
#include "broker.h"
#include "retainedmessagesdb.h"
#include "sessionsandsubscriptionsdb.h"
#include <dlfcn.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
static std::string dir, final_path; static long crash_at = -1, ev = 0, fail_sync = 0; static bool watch = false; static std::map<std::string, std::string> durable;
static std::string slurp(const std::string &p){ std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool there(const std::string &p){ struct stat s; return stat(p.c_str(), &s) == 0; }
static void event(){ if (watch && ++ev == crash_at) _exit(77); }
static std::string fdpath(int fd){ char b[4096]; ssize_t n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof b); return n > 0 ? std::string(b, n) : ""; }
extern "C" {
int rename(const char *a, const char *b){ event(); static auto r = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename"); if (watch && b == final_path) { auto d = durable.find(a); if (d == durable.end() || d->second != slurp(a)) { FAIL("the temporary file replaces the state file before its content is on disk"); } } return r(a, b); }
int fsync(int fd){ event(); static auto r = (int (*)(int))dlsym(RTLD_NEXT, "fsync"); if (watch && fail_sync) { errno = EIO; return -1; } std::string p = fdpath(fd); if (watch && p.rfind(dir, 0) == 0 && p.size() > dir.size()) durable[p] = slurp(p); return watch ? 0 : r(fd); }
int fflush(FILE *f){ static auto r = (int (*)(FILE *))dlsym(RTLD_NEXT, "fflush"); if (watch && f != stdout) event(); return r(f); }
int fseek(FILE *f, long o, int w){ static auto r = (int (*)(FILE *, long, int))dlsym(RTLD_NEXT, "fseek"); event(); return r(f, o, w); }
int fclose(FILE *f){ static auto r = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose"); event(); int x = r(f); event(); return x; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f){ static auto r = (size_t (*)(const void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fwrite"); if (watch && f != stdout) event(); return r(p, s, n, f); }
}
static std::vector<std::string> others(){ std::vector<std::string> v; DIR *d = opendir(dir.c_str()); if (!d) return v; while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != ".." && dir + "/" + n != final_path) v.push_back(n); } closedir(d); return v; }
static void cleanup(){ for (auto &n : others()) unlink((dir + "/" + n).c_str()); }
static void fill(int n, size_t pl){ for (int i = 0; i < n; i++) { std::string t = "t" + std::to_string(i % 7) + "/" + std::to_string(i); Publish p(t, std::string(pl, 'x'), 0); globals->subscriptionStore->setRetainedMessage(p, splitTopic(t)); } }
// number of messages in the state file, -1 when it cannot be read
static long count(){ try { RetainedMessagesDB db(final_path); db.openRead(); long n = 0; for (;;) { auto l = db.readData(1000); if (l.empty()) break; n += l.size(); } return n; } catch (std::exception &) { return -1; } }
static long sessions(){ try { SessionsAndSubscriptionsDB db(final_path); db.openRead(); return db.readData().sessions.size(); } catch (std::exception &) { return -1; } }
// runs f in a child; returns exit status
static int child(std::function<void()> f){ fflush(stdout); pid_t p = fork(); if (!p) { watch = true; ev = 0; durable.clear(); try { f(); } catch (std::exception &) {} watch = false; fflush(stdout); _exit(g_fails ? 99 : ev > 250 ? 250 : (int)0); } int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { FAIL("saving ended the process with signal " + std::to_string(WTERMSIG(st))); return -1; } if (WEXITSTATUS(st) == 99) g_fails++; return WEXITSTATUS(st); }
static void check(const std::string &old, long want, bool sess, bool must_old){ std::string now = slurp(final_path); if (now == old) return; if (must_old) { FAIL("the previous state file was replaced although saving failed or was abandoned"); } else { long n = sess ? sessions() : count(); if (n != want) FAIL("the state file is neither the previous one nor a complete new one (" + std::to_string(n) + " entries instead of " + std::to_string(want) + ")"); } { std::ofstream o(final_path, std::ios::binary); o << old; } }
static void limit(rlim_t n){ signal(SIGXFSZ, SIG_IGN); struct rlimit r = {n, n}; setrlimit(RLIMIT_FSIZE, &r); }
struct Raw : PersistenceFile { Raw(const std::string &p) : PersistenceFile(p) {} };
static void round()
{
    Broker b; auto st = globals->subscriptionStore; bool sess = rnd(3) == 0; int n0 = 1 + rnd(20), n1 = 30 + rnd(rnd(5) ? 60 : 2500); size_t pl = 1 + rnd(rnd(3) ? 50 : 3000); std::vector<std::shared_ptr<Client>> cs;
    final_path = dir + (sess ? "/sessions.db" : "/retained.db"); for (auto f : {"/sessions.db", "/retained.db"}) unlink((dir + f).c_str()); cleanup();
    auto conn = [&](int n){ for (int i = 0; i < n; i++) cs.push_back(b.connect("c" + std::to_string(cs.size()), ProtocolVersion::Mqtt5, "user", false, 65535, 1000)); };
    auto save = [&]{ if (sess) st->saveSessionsAndSubscriptions(final_path); else st->saveRetainedMessages(final_path, false); };
    g_case = std::string(sess ? "sessions" : "retained messages") + ": first save";
    if (sess) { conn(n0); n1 = n0 + 1 + rnd(6); } else fill(n0, pl);
    save(); std::string old = slurp(final_path); if ((sess ? sessions() : count()) != n0) { FAIL("a complete save does not read back"); return; } if (others().size()) { FAIL("a complete save leaves other files behind"); cleanup(); }
    if (sess) conn(n1 - n0); else fill(n1, pl);
    g_case += ", second save"; std::string base = g_case; size_t full; { child([&]{ crash_at = -1; save(); }); full = slurp(final_path).size(); if ((sess ? sessions() : count()) != n1) FAIL("a complete save does not read back"); std::ofstream o(final_path, std::ios::binary); o << old; } cleanup();
    for (int i = 0; i < 12 && time_left(); i++) {
        int what = rnd(5); bool must = false; int r = 0;
        if (what == 0) { long k = 1 + rnd(rnd(2) ? 40 : 600); g_case = base + ", process stops at file operation " + std::to_string(k); r = child([&]{ crash_at = k; save(); }); }
        else if (what == 1) { rlim_t l = rnd(2) ? rnd(full) : full - std::min<size_t>(full, 1 + rnd(100)); g_case = base + ", no more than " + std::to_string(l) + " of " + std::to_string(full) + " bytes can be written"; r = child([&]{ limit(l); save(); }); must = true; }
        else if (what == 2) { g_case = base + ", fsync fails"; r = child([&]{ fail_sync = 1; save(); }); must = true; }
        else if (what == 3) { g_case = base + ", abandoned"; r = child([&]{ if (!sess) { globals->quitting = true; st->saveRetainedMessages(final_path, true); } else { Raw p(final_path); p.openWrite("x"); p.writeUint32(1); p.dontSaveTmpFile(); } if (others().size()) FAIL("an abandoned save leaves its temporary file behind"); }); must = true; }
        else if (what == 4) { g_case = base + ", exception while saving"; bool ret = rnd(2); r = child([&]{ if (ret) { RetainedMessagesDB db(final_path); db.openWrite(); RetainedMessage m(Publish("a", "b", 0)); db.saveData({m}); throw std::runtime_error("x"); } Raw p(final_path); p.openWrite("x"); for (int i = 0; i < (int)rnd(5); i++) p.writeUint32(i); throw std::runtime_error("x"); }); must = true; }
        (void)r; check(old, n1, sess, must); cleanup();
    }
    for (int i = 0; i < 6; i++) {
        std::string bad = old; int what = rnd(3); size_t at = 32 + rnd(bad.size() - 32); if (what == 0) { bad[at] ^= 1 << rnd(8); g_case = "state file with bit changed at " + std::to_string(at); } else if (what == 1) { bad.resize(at); g_case = "state file cut off at " + std::to_string(at); } else { bad += std::string(1 + rnd(5), rnd(2) ? 0 : 'x'); g_case = "state file with extra bytes at the end"; }
        { std::ofstream o(final_path, std::ios::binary); o << bad; } bool loaded = false; try { if (sess) { SessionsAndSubscriptionsDB db(final_path); db.openRead(); } else { RetainedMessagesDB db(final_path); db.openRead(); } loaded = true; } catch (std::exception &) {}
        if (loaded) FAIL("a damaged file is loaded"); else if (bad.size() >= 96) { auto o = others(); if (there(final_path) || o.size() != 1 || o[0].find(".corrupt.") == std::string::npos || slurp(dir + "/" + o[0]) != bad) FAIL("a damaged file is not moved aside"); }
        cleanup(); { std::ofstream o(final_path, std::ios::binary); o << old; }
        try { if (sess) { SessionsAndSubscriptionsDB db(final_path); db.openRead(); } else { RetainedMessagesDB db(final_path); db.openRead(); } if (slurp(final_path) != old || others().size()) FAIL("reading changes the state file"); } catch (std::exception &ex) { FAIL(std::string("an intact file is not loaded: ") + ex.what()); }
    }
}
int main()
{
    char t[] = "/tmp/fvc-c26-XXXXXX"; if (!mkdtemp(t)) return 0; dir = t; while (time_left()) round(); for (auto f : {"/sessions.db", "/retained.db"}) unlink((dir + f).c_str()); cleanup(); rmdir(dir.c_str()); return done();
}
