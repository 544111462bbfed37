#pragma once
#include "h.h"
#include "mqttpacket.h"
#include "exceptions.h"
// an MqttPacket holding exactly these bytes, positioned at pos
static MqttPacket mk_packet(const std::string &bytes, size_t pos)
{
    PubResponse pr(ProtocolVersion::Mqtt311, PacketType::PUBACK, ReasonCodes::Success, 1);
    MqttPacket p(pr);
    std::vector<char> v; v.reserve(bytes.size()); v.assign(bytes.begin(), bytes.end()); v.shrink_to_fit();
    p.bites = std::move(v); p.pos = pos; return p;
}
