// C25: persistence values round trip through a real file
#include "h.h"
#include "persistencefile.h"
#include <limits>
template<class T, class W, class R> static void one(const std::string &dir, T x, W w, R r, size_t n, const std::string &what)
{
    PersistenceFile p(dir + "/x"); p.buf.assign(1 << 20, 0xa5);
    p.f = fopen((dir + "/data").c_str(), "w+b"); g_case = what;
    unsigned char pre[3] = {1, 2, 3}; fwrite(pre, 1, 3, p.f);
    try {
        w(p, x); long at = ftell(p.f); if ((size_t)at != 3 + n) FAIL("writes " + std::to_string(at - 3) + " bytes instead of " + std::to_string(n));
        fseek(p.f, 3, SEEK_SET); bool eof = false; T y = r(p, eof); if (eof) FAIL("reports end of file although everything is there");
        if (!(y == x)) FAIL("reads back another value"); if (ftell(p.f) != at) FAIL("reads another number of bytes than written");
        long mid = 3L + (long)rnd(n); if (n) for (long cut : {at - 1, mid, 3L}) { fclose(p.f); if (truncate((dir + "/data").c_str(), cut)) {} p.f = fopen((dir + "/data").c_str(), "r+b"); fseek(p.f, 3, SEEK_SET); eof = false; g_case = what + " truncated to " + std::to_string(cut - 3) + " bytes"; try { r(p, eof); if (!eof) FAIL("reading past the end is not reported"); } catch (std::exception &) {} }
    } catch (std::exception &ex) { FAIL(std::string("fails: ") + ex.what()); }
    fclose(p.f); p.f = nullptr;
}
static void i64(const std::string &d, int64_t x){ one<int64_t>(d, x, [](auto &p, auto v){ p.writeInt64(v); }, [](auto &p, bool &e){ return p.readInt64(e); }, 8, "int64 " + std::to_string(x)); }
int main()
{
    std::string d = getenv("FVC_DIR") ? getenv("FVC_DIR") : ".";
    for (auto &h : hints()) if (h.first == "x") i64(d, (int64_t)strtoull(h.second.c_str(), 0, 10));
    for (int64_t x : {0L, 1L, -1L, 127L, 128L, 0x80000000L, 0xffffffffL, 0x8000000000L, 0x7fffffffffffffffL, (long)0x8000000000000000L, 1700000000L}) i64(d, x);
    while (time_left()) {
        uint64_t b = rng() >> rnd(64);
        i64(d, (int64_t)b); i64(d, -(int64_t)b);
        one<uint32_t>(d, b, [](auto &p, auto v){ p.writeUint32(v); }, [](auto &p, bool &e){ return p.readUint32(e); }, 4, "uint32 " + std::to_string((uint32_t)b));
        one<uint16_t>(d, b, [](auto &p, auto v){ p.writeUint16(v); }, [](auto &p, bool &e){ return p.readUint16(e); }, 2, "uint16 " + std::to_string((uint16_t)b));
        one<uint8_t>(d, b, [](auto &p, auto v){ p.writeUint8(v); }, [](auto &p, bool &e){ return p.readUint8(e); }, 1, "uint8 " + std::to_string((uint8_t)b));
        size_t n = rnd(8) ? rnd(50) : rnd(4) ? rnd(65536) : 65535; std::string s(n, 0); for (auto &c : s) c = rnd(256);
        one<std::string>(d, s, [](auto &p, auto &v){ p.writeString(v); }, [](auto &p, bool &e){ return p.readString(e); }, 4 + n, "string of length " + std::to_string(n));
        std::optional<std::string> o; if (rnd(3)) o = rnd(3) ? s : "";
        one<std::optional<std::string>>(d, o, [](auto &p, auto &v){ p.writeOptionalString(v); }, [](auto &p, bool &e){ return p.readOptionalString(e); }, o ? 5 + o->size() : 1, o ? "optional string of length " + std::to_string(o->size()) : "absent optional string");
    }
    return done();
}
