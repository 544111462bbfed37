// C31: maximum packet sizes on the real broker, and every kind of packet against a limit and a full output buffer
#include "routeflow.h"
static void direct()
{
    Broker b([&](Settings &s){ s.clientMaxWriteBufferSize = 4096u << rnd(3); }); b.td->settingsLocalCopy.clientMaxWriteBufferSize = b.settings.clientMaxWriteBufferSize; uint32_t mx = rnd(3) ? 10 + rnd(300) : 268435455; ProtocolVersion pv = rnd(2) ? ProtocolVersion::Mqtt5 : ProtocolVersion::Mqtt311; auto c = b.connect("c", pv, "user", true, 65535, 0, 60, mx); b.out(c);
    std::string want; std::ostringstream d; d << "maximum packet size " << mx << ", buffer limit " << b.settings.clientMaxWriteBufferSize << ": ";
    for (int k = 1 + rnd(60); k > 0; k--)
    {
        std::string pay(rnd(3) ? rnd(400) : rnd(12000), 'x'); int qos = rnd(3); Publish p("t" + std::string(rnd(6), 'o'), pay, qos); std::unique_ptr<MqttPacket> q; if (!rnd(4)) { PubResponse r(pv, PacketType::PUBACK, ReasonCodes::Success, 7); q = std::make_unique<MqttPacket>(r); qos = 9; } else { q = std::make_unique<MqttPacket>(pv, p, qos, 0, false, 0, std::optional<std::string>()); if (qos) q->setPacketId(9); }
        d << (qos == 9 ? "PUBACK" : "PUBLISH qos " + std::to_string(qos) + " " + std::to_string(pay.size())) << "; "; g_case = d.str(); CirBuf ref(1024); q->readIntoBuf(ref); std::string bytes(ref.usedBytes(), 0); { auto v = ref.peekAllToVector(); bytes.assign(v.begin(), v.end()); } if (bytes.size() != q->getSizeIncludingNonPresentHeader()) FAIL("C31: computed size " + std::to_string(q->getSizeIncludingNonPresentHeader()) + " for a packet of " + std::to_string(bytes.size()));
        size_t cap0; { auto w = c->writebuf.lock(); cap0 = w->buf.getCapacity(); } auto r = c->writeMqttPacket(*q); size_t cap, used; { auto w = c->writebuf.lock(); cap = w->buf.getCapacity(); used = w->buf.usedBytes(); } bool written = r == PacketDropReason::Success;
        if (written) want += bytes; if (used != want.size()) { FAIL("C31: " + std::to_string(used) + " bytes in the output buffer instead of " + std::to_string(want.size())); return; }
        if (bytes.size() > mx) { if (written) FAIL("C31: a packet of " + std::to_string(bytes.size()) + " bytes was written"); }
        else if (qos != 0 && !written) FAIL("C31: a packet that fits the limit was dropped"); else if (qos == 0 && !written && used + bytes.size() < b.settings.clientMaxWriteBufferSize / 2) FAIL("C31: a publish was dropped although the buffer has room");
        if (qos == 0 && cap > cap0 && cap > 2 * std::max<size_t>({b.settings.clientMaxWriteBufferSize, 2 * bytes.size(), cap0 / 2})) FAIL("C31: buffer grew to " + std::to_string(cap));
        if (!rnd(12)) { if (b.out(c) != want) FAIL("C31: other bytes than the packets written"); want.clear(); }
    }
    if (b.out(c) != want) FAIL("C31: other bytes than the packets written");
}
int main(){ while (time_left()) { for (int i = 0; i < 60 && time_left(); i++) direct(); route("C31", 40 + rnd(60)); } return done(); }
