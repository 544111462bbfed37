// a broker inside the harness process: one worker's thread data, clients on socket pairs, no threads
#pragma once
#include "h.h"
#include "mqttpacket.h"
#include "client.h"
#include "session.h"
#include "threaddata.h"
#include "threadglobals.h"
#include "globals.h"
#include "settings.h"
#include "subscriptionstore.h"
#include "pluginloader.h"
#include "publishcopyfactory.h"
#include "exceptions.h"
#include "utils.h"
#include <sys/socket.h>
#include <fcntl.h>
struct Broker
{
    Settings settings; std::shared_ptr<PluginLoader> pl = std::make_shared<PluginLoader>(); std::shared_ptr<ThreadData> td; std::map<Client *, int> peer;
    Broker(std::function<void(Settings &)> adj = nullptr)
    {
        settings.allowAnonymous = true; settings.storageDir = ""; if (adj) adj(settings);
        Logger *l = Logger::getInstance(); l->setFlags({}, true); l->curLogLevel = 0; l->alsoLogToStd = false;
        td = std::make_shared<ThreadData>(0, settings, pl, std::weak_ptr<MainApp>());
        ThreadGlobals::assignThreadData(td); ThreadGlobals::assignSettings(&td->settingsLocalCopy);
        globals = Globals(); 
    }
    ~Broker(){ for (auto &p : peer) close(p.second); }
    std::shared_ptr<Client> raw(ClientType t = ClientType::Normal, ConnectionProtocol cp = ConnectionProtocol::Mqtt, HaProxyMode hp = HaProxyMode::Off)
    {
        int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) abort();
        auto c = std::make_shared<Client>(t, sv[0], td, FmqSsl(), cp, hp, nullptr, settings, false); c->addToEpoll(EPOLLIN);
        td->priv->clients.by_fd[c->getFd()] = c; peer[c.get()] = sv[1]; return c;
    }
    std::shared_ptr<Client> connect(const std::string &id, ProtocolVersion pv = ProtocolVersion::Mqtt5, const std::string &user = "user", bool clean = true, uint16_t rmax = 65535, uint32_t expiry = 0, uint16_t keepalive = 60, uint32_t maxpkt = 268435455, uint16_t aliasmax = 0)
    {
        auto c = raw(); c->setClientProperties(pv, id, {}, user, true, keepalive, maxpkt, aliasmax); c->setAuthenticated(true);
        globals->subscriptionStore->registerClientAndKickExistingOne(c, clean, rmax, expiry); return c;
    }
    // everything written to the client so far (taken out of its write buffer)
    std::string out(const std::shared_ptr<Client> &c)
    {
        auto w = c->writebuf.lock(); std::string s; while (w->buf.usedBytes()) { s.append(w->buf.tailPtr(), w->buf.maxReadSize()); w->buf.advanceTail(w->buf.maxReadSize()); } return s;
    }
    // bytes arriving from the client, handled as the worker thread would
    void feed(std::shared_ptr<Client> c, const std::string &bytes)
    {
        size_t at = 0;
        do { ssize_t n = ::send(peer[c.get()], bytes.data() + at, std::min<size_t>(bytes.size() - at, 60000), MSG_NOSIGNAL); if (n > 0) at += n; step(c); } while (at < bytes.size());
    }
    void step(std::shared_ptr<Client> &c)
    {
        std::vector<MqttPacket> q; c->readFdIntoBuffer(); c->bufferToMqttPackets(q, c); for (auto &p : q) if (p.handle(c) == HandleResult::Defer) c->addPacketToAfterAsyncQueue(std::move(p));
    }
    void tasks(){ td->performAllImmediateTasks(); }
};
struct Pkt { uint8_t type = 0, flags = 0; std::string body; };
// splits a byte stream into MQTT packets; ok=false when it is not a whole number of packets
static std::vector<Pkt> split_packets(const std::string &s, bool &ok)
{
    std::vector<Pkt> r; size_t i = 0; ok = true;
    while (i < s.size())
    {
        Pkt p; p.type = (uint8_t)s[i] >> 4; p.flags = s[i] & 15; i++; size_t len = 0, sh = 0; uint8_t b;
        do { if (i >= s.size() || sh > 21) { ok = false; return r; } b = s[i++]; len |= (size_t)(b & 127) << sh; sh += 7; } while (b & 128);
        if (s.size() - i < len) { ok = false; return r; }
        p.body = s.substr(i, len); i += len; r.push_back(p);
    }
    return r;
}
static std::string u16(unsigned x){ return std::string{(char)(x >> 8), (char)x}; }
static std::string u32(uint32_t x){ return u16(x >> 16) + u16(x & 65535); }
static std::string mstr(const std::string &s){ return u16(s.size()) + s; }
static std::string vbi(size_t n){ std::string o; do { uint8_t b = n % 128; n /= 128; if (n) b |= 128; o.push_back(b); } while (n); return o; }
static std::string mkpkt(int type, int flags, const std::string &body){ return std::string(1, (char)(type << 4 | flags)) + vbi(body.size()) + body; }
// the fields of a PUBLISH packet body as received by a client speaking the given version
struct Pub { bool ok = false; bool dup = false, retain = false; int qos = 0; std::string topic, payload; uint16_t id = 0; std::multimap<int, std::string> props; // property id -> raw value bytes
    bool has(int p) const { return props.count(p); }
    uint64_t num(int p) const { uint64_t x = 0; auto i = props.find(p); if (i != props.end()) for (unsigned char c : i->second) x = x << 8 | c; return x; } };
static bool get_vbi(const std::string &s, size_t &i, size_t &v){ v = 0; int sh = 0; uint8_t b; do { if (i >= s.size() || sh > 21) return false; b = s[i++]; v |= (size_t)(b & 127) << sh; sh += 7; } while (b & 128); return true; }
static bool get_props(const std::string &s, size_t &i, std::multimap<int, std::string> &m)
{
    size_t n; if (!get_vbi(s, i, n) || s.size() - i < n) return false; size_t e = i + n;
    while (i < e) { int p = (uint8_t)s[i++]; size_t len = 0, skip = 0; size_t v;
        switch (p) { case 1: case 23: case 25: case 36: case 37: case 40: case 41: case 42: len = 1; break; case 2: case 17: case 24: case 39: len = 4; break; case 19: case 33: case 34: case 35: len = 2; break;
            case 11: { if (!get_vbi(s, i, v)) return false; std::string o; for (int k = 3; k >= 0; k--) o.push_back(v >> (8 * k)); m.emplace(p, o); continue; }
            case 3: case 8: case 9: case 18: case 21: case 22: case 26: case 28: case 31: if (e - i < 2) return false; len = ((uint8_t)s[i] << 8) + (uint8_t)s[i + 1]; skip = 2; break;
            case 38: { if (e - i < 2) return false; size_t a = ((uint8_t)s[i] << 8) + (uint8_t)s[i + 1]; if (e - i < 4 + a) return false; size_t b = ((uint8_t)s[i + 2 + a] << 8) + (uint8_t)s[i + 3 + a]; len = 4 + a + b; break; }
            default: return false; }
        if (e - i < skip + len) return false; m.emplace(p, s.substr(i + skip, len)); i += skip + len; }
    return i == e;
}
static Pub parse_publish(const Pkt &p, int pv)
{
    Pub r; r.dup = p.flags & 8; r.qos = p.flags >> 1 & 3; r.retain = p.flags & 1; const std::string &s = p.body; size_t i = 0; if (p.type != 3 || s.size() < 2) return r;
    size_t n = ((uint8_t)s[0] << 8) + (uint8_t)s[1]; i = 2; if (s.size() - i < n) return r; r.topic = s.substr(i, n); i += n;
    if (r.qos) { if (s.size() - i < 2) return r; r.id = ((uint8_t)s[i] << 8) + (uint8_t)s[i + 1]; i += 2; }
    if (pv >= 5 && !get_props(s, i, r.props)) return r; r.payload = s.substr(i); r.ok = true; return r;
}
static std::vector<Pub> pubs(const std::string &stream, int pv, bool &ok){ std::vector<Pub> r; for (auto &p : split_packets(stream, ok)) if (p.type == 3) { r.push_back(parse_publish(p, pv)); ok &= r.back().ok; } return r; }
static ProtocolVersion PV(int v){ return v == 3 ? ProtocolVersion::Mqtt31 : v == 4 ? ProtocolVersion::Mqtt311 : ProtocolVersion::Mqtt5; }
// scratch directory removed at exit
struct Scratch { std::string d; Scratch(){ char t[] = "/tmp/fvch.XXXXXX"; d = mkdtemp(t); } ~Scratch(){ std::string c = "rm -rf '" + d + "'"; if (d.rfind("/tmp/fvch.", 0) == 0 && system(c.c_str())) {} } };
