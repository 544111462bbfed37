#include "mp.h"
#include "variablebyteint.h"
#include "mqtt5properties.h"
static std::string enc(uint32_t x){ std::string o; do { unsigned char b=x%128; x/=128; if(x) b|=128; o.push_back(b);} while(x); return o; }
static void check_enc(uint32_t x)
{
    g_case = "encode value " + std::to_string(x);
    VariableByteInt v; bool threw=false;
    try { v = x; } catch(std::exception &e){ threw=true; }
    if (threw != (x > 268435455u)) { FAIL("value refused/accepted wrongly"); return; }
    if (threw) return;
    if (std::string(v.data(), v.getLen()) != enc(x) || v.size()!=enc(x).size()) { FAIL("wrong encoding " + hex(std::string(v.data(), v.getLen() > 8 ? 8 : v.getLen()))); return; }
    VariableByteInt w(x); if (std::string(w.data(), w.getLen()) != enc(x)) FAIL("constructor encodes differently");
    for (size_t pre : {0, 3, 60}) {
        CirBuf buf(64); std::string junk(pre, 'z'); buf.write(junk.data(), pre); buf.readAllToVector();
        w.readIntoBuf(buf); std::vector<char> o = buf.readAllToVector();
        if (std::string(o.begin(), o.end()) != enc(x)) FAIL("bytes put in output buffer differ: " + hex(std::string(o.begin(),o.end())));
    }
    Mqtt5PropertyBuilder b; b.writeSubscriptionIdentifier(x);
    std::string got(b.getBytes().begin(), b.getBytes().end());
    if (got != std::string(1, 11) + enc(x)) FAIL("subscription identifier property encoded as " + hex(got));
    std::string room(12, 'q'); MqttPacket p = mk_packet(room, 2); p.writeVariableByteInt(w);
    std::string exp = room; exp.replace(2, enc(x).size(), enc(x));
    if (std::string(p.bites.begin(), p.bites.end()) != exp || p.pos != 2 + enc(x).size()) FAIL("written into packet as " + hex(std::string(p.bites.begin(), p.bites.end())));
    MqttPacket q = mk_packet(std::string(enc(x).size() - 1, 'q'), 0); bool t2 = false; try { q.writeVariableByteInt(w); } catch (std::exception &) { t2 = true; }
    if (!t2) FAIL("written past the end of the packet");
}
static void check_dec(const std::string &bytes, size_t pos)
{
    g_case = "decode bytes " + hex(bytes) + " at " + std::to_string(pos);
    bool ok=false; size_t val=0, n=0;
    for (int i=0;i<4;i++) { if (pos+i>=bytes.size()) break; unsigned char c=bytes[pos+i]; val |= (size_t)(c&127) << (7*i); if(!(c&128)) { ok=true; n=i+1; break; } }
    MqttPacket p = mk_packet(bytes, pos);
    bool threw=false, proto=false; size_t got=0;
    try { got = p.decodeVariableByteIntAtPos(); } catch (ProtocolError &e) { threw=proto=true; } catch (std::exception &e) { threw=true; }
    if (ok == threw) { FAIL(ok ? "valid encoding rejected" : "malformed encoding accepted as " + std::to_string(got)); return; }
    if (threw && !proto) FAIL("rejected, but not as a protocol error");
    if (ok && got != val) FAIL("decoded as " + std::to_string(got));
    if (ok && p.pos != pos + n) FAIL("consumed " + std::to_string(p.pos - pos) + " bytes");
}
int main()
{
    auto H = hints();
    for (auto r = H.equal_range("x"); r.first != r.second; ++r.first) check_enc(strtoull(r.first->second.c_str(), nullptr, 10));
    std::vector<uint32_t> ed; for (int s=0;s<32;s++) for (int d=-2; d<=2; d++) ed.push_back((1u<<s)+d);
    for (uint32_t e: {268435454u,268435455u,268435456u,0xffffffffu,0u}) ed.push_back(e);
    for (uint32_t x : ed) check_enc(x);
    for (int i=0;i<70000;i++) check_enc(i);
    unsigned char vals[] = {0,1,0x7f,0x80,0x81,0xff,0x40};
    for (int len=0; len<=5; len++) { long n=1; for(int i=0;i<len;i++) n*=7; for(long k=0;k<n;k++){ std::string s; long t=k; for(int i=0;i<len;i++){ s.push_back(vals[t%7]); t/=7;} for (size_t pre : {0,1,5}) { std::string b = std::string(pre,(char)0x85)+s; check_dec(b, pre); if (len < 3) check_dec(b + std::string("\x7f"), pre);} } }
    while (time_left()) { check_enc(rnd(2) ? rng() : rng() >> (32 + rnd(32))); std::string s; for (int i=rnd(7);i>0;i--) s.push_back(rng() | (rnd(2)?128:0)); check_dec(s, rnd(s.size()+1)); }
    return done();
}
