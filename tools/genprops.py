#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Variable byte integers are encoded and decoded exactly",
  "Every length from 0 up to 268435455 is written as the unique shortest 1-4 byte MQTT variable byte integer and larger values are refused. Reading such an encoding at any position of a packet yields the value and consumes exactly its bytes, and an encoding that needs a fifth byte, or that runs off the end of the packet, is rejected as malformed.",
  ["inputs"], "for every 32 bit value, every byte sequence and every read position",
  "Tests encode a handful of boundary values; the property ranges over all 2^28 values and all 2^32 malformed encodings.",
  ["variablebyteint.cpp", "mqttpacket.cpp"],
  [("encode", "VariableByteInt::operator="), ("decode in packet", "MqttPacket::decodeVariableByteIntAtPos"), ("serialise", "VariableByteInt::readIntoBuf")])
p("C02", "A string is accepted exactly when it is UTF-8 MQTT allows",
  "A string is accepted as UTF-8 text if and only if it is well-formed UTF-8 (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated sequence) that contains no NUL, no C0/C1 control or DEL character and no non-character; when a topic to publish on is being checked, it must also contain no '#' and no '+'. The accelerated checker and the generic checker agree on every string up to 65535 bytes, the longest MQTT can carry.",
  ["inputs"], "for every byte string of up to 65535 bytes, with and without the publish-topic restriction",
  "Tests try a fixed list of strings; block boundaries at multiples of 16 bytes combined with every multi-byte sequence position are not enumerable by examples.",
  ["utils.cpp", "threadlocalutils.cpp"],
  [("generic checker", "isValidUtf8Generic"), ("block checker", "SimdUtils::isValidUtf8"), ("entry", "isValidUtf8")])
p("C03", "Topic filters, topic names and share names are accepted exactly when legal",
  "A topic filter is accepted by a subscribe or unsubscribe if and only if it is non-empty, every '#' stands alone in the last level and every '+' stands alone in its level; a topic to publish to is accepted only if it has neither wildcard character. A share name is accepted if and only if it is non-empty and holds none of '#', '+', '/', and the safety filter for client identifiers and usernames flags exactly the strings holding '#' or '+'.",
  ["inputs"], "for every string of every length",
  "Tests enumerate a few dozen filters; the rule is a universal statement about positions in strings of any length.",
  ["utils.cpp"],
  [("filter check", "isValidSubscribePath"), ("publish check", "isValidPublishPath"), ("share name", "isValidShareName"), ("unsafe chars", "containsDangerousCharacters")])
p("C04", "Splitting a topic into levels loses and invents nothing",
  "A topic with n '/' characters is split into exactly n+1 levels, none of which contains a '/', and joining the levels with '/' gives back the original topic, for topics of every length including empty levels at either end.",
  ["inputs"], "for every topic string of every length",
  "Tests split a few topics; the accelerated splitter works in 16 byte blocks so mistakes show only for particular lengths and separator offsets.",
  ["threadlocalutils.cpp", "utils.cpp"],
  [("split", "SimdUtils::splitTopic / splitTopic")])
p("C05", "Connection byte buffers are loss-less first-in first-out queues",
  "The ring buffers between a socket and the protocol code return exactly the bytes written to them, in order and once, whatever the interleaving of writes, reads, peeks, wrap-arounds, growth and shrinking; used plus free space is always capacity minus one and no operation touches memory outside the buffer. Growing or shrinking never drops buffered bytes.",
  ["inputs", "histories"], "for every sequence of buffer operations and every buffer content, size, head and tail position",
  "Tests run a few fixed sequences on small buffers; the property covers every head/tail position and every history.",
  ["cirbuf.cpp", "cirbuf.h"],
  [("space accounting", "CirBuf::usedBytes, CirBuf::freeSpace"), ("write", "CirBuf::write"), ("read", "CirBuf::read, CirBuf::readToVector, CirBuf::peekAllToVector, CirBuf::peakAhead"), ("growth", "CirBuf::ensureFreeSpace, CirBuf::doubleCapacity, CirBuf::resetCapacityIfEligable")],
  [("head, tail, size", "write position, read position, capacity", "cirbuf.h")])
p("C06", "The packet sequence read from a connection does not depend on chunking",
  "Whatever way a client's bytes arrive in pieces, the broker extracts the same sequence of control packets: each is exactly the next fixed header, its remaining length and that many bytes, an incomplete packet stays buffered unconsumed until complete, and nothing is skipped or read twice. A remaining length of more than four bytes, or a packet bigger than the configured limit, ends the connection instead.",
  ["inputs", "schedules"], "for every byte stream and every partition of it into reads",
  "Tests send whole packets over loopback; the number of ways to cut a stream is unbounded.",
  ["mqttpacket.cpp", "cirbuf.cpp"],
  [("extraction", "MqttPacket::bufferToMqttPackets")])
p("C07", "Parsing a packet never reads outside that packet",
  "While a received control packet is parsed, every byte, integer, string or binary field is taken from inside the packet's own bytes, the read position advances by exactly the size of the field, and a field that would extend past the end is rejected as malformed rather than read.",
  ["inputs"], "for every packet content, length and read position",
  "Fuzzing samples inputs; absence of out-of-bounds reads is a statement about all of them.",
  ["mqttpacket.cpp", "mqttpacket.h"],
  [("bounds check", "MqttPacket::advancePos"), ("field readers", "MqttPacket::readByte, readUint8, readTwoBytesToUInt16, readFourBytesToUint32, readBytesToString, readBytes"), ("at end", "MqttPacket::atEnd, remainingAfterPos")])
p("C08", "A published message reaches exactly the matching subscriptions",
  "A message published to a topic is offered to every subscription whose filter matches that topic under the MQTT rules ('+' matches one level, a final '#' matches the parent and any deeper levels, and neither wildcard in the first level matches a topic starting with '$') and to no other subscription, once per matching subscription.",
  ["inputs", "histories"], "for every subscription tree, every topic and every depth",
  "Tests use small trees; the guarantee quantifies over all trees and all topics.",
  ["subscriptionstore.cpp", "utils.cpp"],
  [("tree walk", "SubscriptionStore::publishRecursively"), ("leaf collection", "SubscriptionStore::publishNonRecursively"), ("string matcher", "topicsMatch")])
p("C09", "Subscribing and unsubscribing change exactly the named subscription",
  "After a client subscribes, exactly one subscription exists for that client and filter with the newly given QoS, no-local, retain-as-published and identifier, and no other client's or other filter's subscription changed; subscribing again replaces it. After it unsubscribes, its subscription on that filter (or that shared group) is gone and everything else is as before.",
  ["inputs", "histories"], "for every store state, client, filter, share name and option combination",
  "Tests check one or two clients; the frame condition (nobody else affected) ranges over all other subscriptions.",
  ["subscriptionstore.cpp", "sharedsubscribers.cpp"],
  [("node add/remove", "SubscriptionNode::addSubscriber, SubscriptionNode::removeSubscriber"), ("tree path", "SubscriptionStore::getDeepestNode"), ("share group", "SharedSubscribers::operator[], SharedSubscribers::erase")])
p("C10", "A shared subscription group delivers each message to one present member",
  "For every shared-subscription group with at least one member, each matching message is offered to exactly one current member of that group, also after any sequence of joins, departures and cleanups; a group without members delivers to nobody. Rotating selection never indexes outside the group.",
  ["inputs", "histories"], "for every group content, rotation state and removal history",
  "Tests use a few clients and no removal/cleanup interleavings.",
  ["sharedsubscribers.cpp", "sharedsubscribers.h", "subscriptionstore.cpp"],
  [("selection", "SharedSubscribers::getNext(), SharedSubscribers::getNext(hash)"), ("cleanup", "SharedSubscribers::purgeAndReIndex")])
p("C11", "Delivered copies carry the right QoS, retain flag and identifier",
  "A message delivered for a subscription carries QoS equal to the lower of the message's and the subscription's QoS, the retain flag only if the subscription asked for retain-as-published (or it is sent from the retained store on subscribing), and the subscription's own identifier; topic, payload and end-to-end properties are those published.",
  ["inputs"], "for every message, subscription option combination and protocol version of either side",
  "Tests sample a few QoS pairs; the cross product with sharing of one packet object between subscribers is not covered.",
  ["publishcopyfactory.cpp", "publishcopyfactory.h"],
  [("qos", "PublishCopyFactory::getEffectiveQos"), ("retain", "PublishCopyFactory::getEffectiveRetain"), ("copy", "PublishCopyFactory::getNewPublish, PublishCopyFactory::getOptimumPacket")])
p("C12", "A packet identifier in flight is never reused",
  "The identifier given to an outgoing QoS 1 or 2 message is never 0 and is never one that is still in use by another unacknowledged message or unfinished QoS 2 handshake of that session. Choosing an identifier always terminates, and reports failure when none is free.",
  ["histories"], "for every set of identifiers in use and every counter position, including wrap-around at 65535",
  "Reaching the wrap-around with identifiers still pending takes tens of thousands of messages; tests never do.",
  ["session.cpp", "qospacketqueue.cpp", "usedids.cpp"],
  [("allocation", "Session::QoSData::getNextPacketId"), ("bookkeeping", "UsedIds::set, UsedIds::contains, UsedIds::erase / QoSPublishQueue")])
p("C13", "The queue of unacknowledged messages keeps order, count and byte size",
  "The per-session queue holds each queued message exactly once, retrievable by its packet identifier, iterates in the order the messages were queued, and its reported count and byte size are those of the messages in it, after every sequence of queueing, acknowledging, popping and expiring. Removing one message leaves the others and their order untouched.",
  ["inputs", "histories"], "for every queue content and operation sequence",
  "Tests exercise short sequences; linked-list plus index consistency is a representation invariant over all histories.",
  ["qospacketqueue.cpp", "qospacketqueue.h"],
  [("append", "QoSPublishQueue::queuePublish, QoSPublishQueue::addToHeadOfLinkedList"), ("remove", "QoSPublishQueue::erase, QoSPublishQueue::eraseFromMapAndRelinkList, QoSPublishQueue::popNext"), ("expiry", "QoSPublishQueue::clearExpiredMessages")])
p("C14", "Unacknowledged QoS messages never exceed the receiver's window",
  "The number of QoS 1 and 2 messages sent on a connection and not yet finished by acknowledgements (including QoS 2 handshakes carried over from an earlier connection) never exceeds the lower of the receive maximum that client announced and the configured one; acknowledging a message frees one slot and never more than that maximum become available. Messages that find no slot, or exceed the configured queue limits, are queued or dropped, never sent.",
  ["histories"], "for every interleaving of sends, acknowledgements and reconnects",
  "Counter arithmetic over arbitrary ack histories (duplicates, unknown identifiers, reconnects) is not sampled by tests.",
  ["session.cpp", "session.h"],
  [("quota", "Session::increaseFlowControlQuota, Session::clearQosMessage, Session::writePacket"), ("reset", "Session::resetFlowControlCounters")])
p("C15", "An incoming QoS 2 message is processed exactly once",
  "Between the first PUBLISH of a QoS 2 packet identifier and its PUBREL, further PUBLISH packets with that identifier in the same session are acknowledged with PUBREC but not routed again; after PUBREL the identifier is free. Every PUBREL is answered with PUBCOMP carrying the same identifier.",
  ["histories"], "for every history of PUBLISH and PUBREL packets and every identifier",
  "Tests do not retransmit; duplicates appear only after lost acknowledgements.",
  ["session.cpp", "mqttpacket.cpp", "usedids.cpp"],
  [("registration", "Session::incomingQoS2MessageIdInTransit, Session::addIncomingQoS2MessageId, Session::removeIncomingQoS2MessageId"), ("handler", "MqttPacket::handlePublish, MqttPacket::handlePubRel"), ("id set", "UsedIds")])
p("C16", "Acknowledgements advance only the message they name",
  "PUBACK and PUBREC discard exactly the queued message with the named identifier and no other; PUBREC leaves the identifier reserved until its PUBCOMP unless it carries an error reason, PUBCOMP releases exactly that identifier, and the PUBREL answered to a PUBREC carries the same identifier. Messages not acknowledged stay queued for redelivery, except those dropped because a reconnecting client announces a smaller receive maximum.",
  ["histories"], "for every acknowledgement packet and every state of the session",
  "Out-of-order, duplicate or unknown acknowledgements are barely sampled by tests.",
  ["session.cpp", "mqttpacket.cpp"],
  [("handlers", "MqttPacket::handlePubAck, handlePubRec, handlePubComp"), ("state", "Session::clearQosMessage, addOutgoingQoS2MessageId, removeOutgoingQoS2MessageId")])
p("C17", "An unauthenticated connection can do nothing but authenticate",
  "Before a connection has been authenticated, no packet from it other than CONNECT (or the extended-authentication exchange it started) has any effect: publish, subscribe, unsubscribe and acknowledgement packets are refused or deferred until authentication succeeds (DISCONNECT only ends the sender's own connection), and a second CONNECT is a protocol error. The reserved packet type is rejected, and packet types only a server sends (CONNACK, SUBACK, UNSUBACK, PINGRESP) have no effect on a server.",
  ["inputs", "histories"], "for every packet type, packet content and connection state",
  "Tests connect properly; the guarantee is about every other first packet and every order.",
  ["mqttpacket.cpp"],
  [("dispatch", "MqttPacket::handle"), ("guards", "MqttPacket::handleConnect, handleExtendedAuth")])
p("C18", "The access-control file decides as written",
  "With an access-control file, publishing to or receiving from a topic is granted if and only if some rule that applies (general rules for clients without a username, the rules of this user, or a pattern with this username/clientid substituted) matches the topic with the needed read or write right and no applicable matching rule denies; deny always wins over grants whatever the order of the lines. A pattern substituting an absent username matches nothing. A malformed file is refused as a whole and the rules loaded before stay.",
  ["configurations", "inputs"], "for every rule set, topic, username and clientid",
  "Tests hold a small rule file; wildcard/pattern/deny interplay over all rule trees is unbounded.",
  ["acltree.cpp", "acltree.h", "plugin.cpp"],
  [("evaluation", "AclTree::findPermission, AclTree::findPermissionRecursive"), ("construction", "AclTree::addTopic"), ("grants", "AclGrant")])
p("C19", "No message is routed, subscribed or delivered without passing the access check",
  "A client's publish is routed and retained only after the write check on that topic succeeded; a subscription is registered only after the subscribe check succeeded; and a message is written or queued to a subscriber only after the read check for that subscriber succeeded. A refused check has no effect other than the refusal. Messages without a publishing client (wills of vanished clients, messages of the broker itself) need no write check.",
  ["inputs", "histories"], "for every client, topic, plugin answer and packet",
  "A missing check on one path is invisible unless a test denies exactly on that path.",
  ["mqttpacket.cpp", "session.cpp", "plugin.cpp"],
  [("publish", "MqttPacket::handlePublish"), ("subscribe", "MqttPacket::handleSubscribe"), ("deliver", "Session::writePacket"), ("decision", "Authentication::aclCheck")])
p("C20", "Connecting takes over exactly the client's own session",
  "A new connection resumes an existing session only if the client identifier and user are the same and no clean start was asked for; otherwise it gets a fresh session. The previous connection of the same client is disconnected, at most one connection per client identifier stays registered, and the connect acknowledgement says session-present exactly when stored state was resumed.",
  ["histories"], "for every store state, client identifier, username and clean-start combination",
  "Tests take over a session in one or two ways.",
  ["subscriptionstore.cpp", "client.cpp", "mqttpacket.cpp"],
  [("takeover", "SubscriptionStore::registerClientAndKickExistingOne"), ("session-present", "MqttPacket::handleConnect, ConnAck")])
p("C21", "A session lives exactly as long as its expiry interval after disconnecting",
  "A session without an active connection is removed, with its subscriptions, by the first sweep after its expiry interval (whole seconds) has passed and not before; a session with an active connection, or one that was used again in the meantime, is not removed by an earlier scheduled expiry.",
  ["histories", "schedules"], "for every sequence of connects, disconnects and expiry sweeps",
  "Needs reconnect histories with time passing; tests use one expiry at a time.",
  ["subscriptionstore.cpp", "session.cpp"],
  [("sweep", "SubscriptionStore::removeExpiredSessionsClients"), ("schedule", "SubscriptionStore::queueSessionRemoval"), ("remaining time", "Session::getCurrentSessionExpiryInterval")])
p("C22", "The retained store keeps the last retained message per topic",
  "After a retained message is accepted for a topic, that topic's retained message is exactly it; an empty payload removes it; other topics are untouched and the retained message count changes by exactly the change in stored messages. Messages that cannot be stored at once are stored later in the order they were accepted, never before earlier ones. A sweep removes only expired messages and empty nodes and counts each message it leaves once.",
  ["histories", "inputs"], "for every sequence of retained publishes to any topics",
  "Tests set a few topics; the count and the frame over all other topics are universal statements.",
  ["subscriptionstore.cpp", "retainedmessage.cpp"],
  [("set", "SubscriptionStore::setRetainedMessage, RetainedMessageNode::addPayload"), ("expiry", "RetainedMessage::hasExpired")])
p("C23", "A new subscription receives exactly the matching retained messages",
  "When retained messages are sent for a subscription, they are exactly the unexpired retained messages whose topics match its filter under the MQTT wildcard rules ('$' topics are not matched by a wildcard in the first level), each once, with the retain flag set.",
  ["inputs"], "for every retained tree and every filter",
  "Tests use small trees; the walk is recursive over arbitrary trees.",
  ["subscriptionstore.cpp"],
  [("walk", "SubscriptionStore::giveClientRetainedMessagesRecursively, giveClientRetainedMessages")])
p("C24", "A will is published at most once and only when due",
  "A client's will is published exactly when its connection ends without a normal disconnect, after the will delay or the session's end whichever is sooner, and at most once; a normal disconnect or a reconnect before the delay cancels it.",
  ["histories", "schedules"], "for every order of disconnects, reconnects, delays and sweeps",
  "Timing-dependent histories are sampled once by tests.",
  ["subscriptionstore.cpp", "client.cpp", "session.cpp", "mqttpacket.cpp"],
  [("queue or send", "SubscriptionStore::queueOrSendWillMessage, queueWillMessage, sendWill, sendQueuedWillMessages"), ("cancel", "Client::clearWill, Session::clearWill")])
p("C25", "Values written to the state files read back identical",
  "Every integer, every string of up to 65535 bytes and every optional string written to a persistence file is read back with the same value and the same number of bytes, for the full range of each type; reading past the end is reported, not silently defaulted.",
  ["inputs"], "for every value of every persisted type",
  "Tests save small values; high-bit values (dates after 2038, large counts) are not in them.",
  ["persistencefile.cpp", "persistencefile.h"],
  [("writers", "PersistenceFile::writeInt64, writeUint32, writeUint16, writeUint8, writeString, writeOptionalString"), ("readers", "PersistenceFile::readInt64, readUint32, readUint16, readUint8, readString, readOptionalString")])
p("C26", "A crash while saving never damages the previous state file",
  "The state file visible under its final name is replaced only by a rename of a completely written, hashed and flushed temporary file; an abandoned save leaves the old file as it was. A file whose stored hash does not match its content is never loaded, and is moved aside.",
  ["crash_points"], "for every point at which the process or machine stops while saving",
  "Tests do not stop the process between system calls.",
  ["persistencefile.cpp", "persistencefile.h"],
  [("ordering", "PersistenceFile::openWrite, closeFile, hashFile"), ("verification", "PersistenceFile::verifyHash, openRead")])
p("C27", "Topic aliases resolve to the topic they were last bound to",
  "A publish that uses a topic alias is routed to the topic that connection last bound to the alias; alias 0, an alias above the broker's announced maximum and an alias never bound are protocol errors. The broker sends an alias only within the client's announced maximum, always introduces it together with the full topic, and never uses one alias for two topics.",
  ["histories"], "for every history of publishes on a connection, every alias and maximum",
  "Alias state is per-connection history; tests use one or two aliases.",
  ["client.cpp", "client.h", "mqttpacket.cpp"],
  [("incoming", "Client::setTopicAlias, Client::getTopicAlias"), ("outgoing", "Client::writeMqttPacketAndBlameThisClient")])
p("C28", "A silent client is disconnected after one and a half keep-alive periods",
  "A client is considered expired exactly when its keep-alive is non-zero and more than one and a half times that many seconds passed since bytes were last received from it; the next check is scheduled no earlier than makes sense and no later than a few seconds after that moment, for every keep-alive value up to 65535 (times in whole seconds).",
  ["inputs", "schedules"], "for every keep-alive value and every pair of times",
  "Tests wait for one or two small keep-alives; large values would take hours.",
  ["client.cpp", "threaddata.cpp"],
  [("expiry", "Client::keepAliveExpired"), ("schedule", "Client::getSecondsTillKeepAliveAction")])
p("C29", "Expired messages are not delivered and remaining life is never extended",
  "A message whose expiry interval has elapsed is not delivered, and one delivered later carries an expiry interval reduced by the time it waited, never more than was published and never negative; saving and restoring a message keeps its remaining life.",
  ["inputs", "schedules"], "for every expiry interval and every waiting time",
  "Tests wait a second or two.",
  ["types.cpp", "publishcopyfactory.cpp", "qospacketqueue.cpp"],
  [("expired?", "Publish::hasExpired"), ("remaining", "PublishExpireInfo::getCurrentTimeToExpire, expiresAt")])
p("C30", "Every packet sent is well-formed and exactly as long as announced",
  "Each control packet the broker builds has a fixed header whose remaining length equals the number of bytes that follow it, and its fields (identifier, reason codes, topic, properties, payload) appear in the order and size MQTT prescribes for the receiver's protocol version. No write goes outside the space computed for the packet.",
  ["inputs"], "for every topic, payload, property set, reason code and protocol version",
  "Off-by-one lengths appear only for particular sizes (crossing 127/128, 16383/16384) and property combinations.",
  ["mqttpacket.cpp", "types.cpp", "mqtt5properties.cpp"],
  [("length computation", "SubAck/UnsubAck/PubResponse/ConnAck/Disconnect/Auth getLengthWithoutFixedHeader"), ("builders", "MqttPacket::MqttPacket(...)"), ("property writer", "Mqtt5PropertyBuilder")])
p("C31", "Nothing larger than the client's maximum packet size is sent to it",
  "A packet whose total size exceeds the maximum packet size the client announced is never written to that client; publishes are dropped when the client's output buffer is full instead of growing without bound, and whatever is written appears whole in the output stream.",
  ["inputs", "histories"], "for every packet size, announced maximum and buffer state",
  "Boundary sizes are not sampled by tests.",
  ["client.cpp"],
  [("check and write", "Client::writeMqttPacket")])
p("C32", "Proxy headers are parsed within bounds and mean what they say",
  "The additional data of a PROXY v2 header is parsed without reading outside the bytes received; truncated, over-long, duplicated or too deeply nested fields are rejected. The verification result read for a client certificate is zero only if all four of its bytes are zero, the client name is exactly the bytes of the common name field, and the address taken is the source address in the header. No byte after the header is consumed as part of it.",
  ["inputs"], "for every header content and length",
  "Tests send one or two proxy headers.",
  ["haproxy.cpp", "iowrapper.cpp"],
  [("TLV", "read_ha_proxy_pp2_tlv, read_ha_proxy_pp2_ssl"), ("use", "IoWrapper::readHaProxyAdditionalData")])
p("C33", "Websocket framing is transparent to the MQTT byte stream",
  "The MQTT bytes obtained from a websocket connection are exactly the unmasked payloads of its binary frames in order, however frames and reads are cut; control frames contribute none, fragmented messages are refused, and a frame's length is what its header says. Data sent is wrapped in frames whose headers state exactly the payload that follows.",
  ["inputs", "schedules"], "for every frame size, mask, fragmentation and read size",
  "Tests use a handful of frames; lengths around 125/126/65535/65536 and cuts inside headers are not enumerated.",
  ["iowrapper.cpp"],
  [("decode", "IoWrapper::websocketBytesToReadBuffer"), ("encode", "IoWrapper::writeAsMuchOfBufAsWebsocketFrame"), ("mask", "IncompleteWebsocketRead::getNextMaskingByte")])
p("C34", "Address ranges match exactly the addresses inside them",
  "A configured IPv4 or IPv6 network matches an address if and only if the families are equal and the first prefix-length bits are equal, for every prefix length; a malformed network is refused.",
  ["configurations", "inputs"], "for every network, prefix length and address",
  "Tests try a few prefixes; non-multiple-of-32 prefixes and all addresses are not enumerated.",
  ["network.cpp"],
  [("mask", "Network::Network"), ("match", "Network::match")])
p("C35", "Login succeeds only with a valid credential or where anonymous is allowed",
  "A login is accepted only if the password file holds this user with exactly this password, or the plugin accepts it, or (anonymous access being allowed, by the listener or else by the settings) the client sends neither a username nor an authentication method, or its user is not in a configured password file, or there is neither password file nor plugin; or a verified client certificate was configured to be enough. Whenever the plugin is asked its answer is final, and an uninitialised or failing plugin never results in acceptance; the username of a verified certificate replaces the one in the packet.",
  ["inputs", "configurations"], "for every username, password, file content, plugin outcome and anonymous setting",
  "Tests cover a few combinations of the decision table.",
  ["plugin.cpp"],
  [("decision", "Authentication::loginCheck"), ("file", "Authentication::loginCheckFromMosquittoPasswordFile")])
p("C36", "No-local and client-group publishers do not hear themselves",
  "A message is not delivered back to the client that published it on a (non-shared) subscription with the no-local option, nor on any subscription to a session of the same client group (the group of connections of one bridge) as the publisher; every other matching subscription still receives it, however many subscriptions the node holds and whatever was decided for the others.",
  ["inputs"], "for every publisher, subscriber, group and option combination",
  "Tests check a single no-local client.",
  ["subscriptionstore.cpp"],
  [("filter", "SubscriptionStore::publishNonRecursively")])
p("C37", "Bridge prefixes are added and removed exactly",
  "With a local or remote prefix configured on a bridge, a topic crossing it is the original topic with exactly the one prefix removed where present and the other added, and topics without the prefix are left alone; bridged messages keep payload and properties.",
  ["configurations", "inputs"], "for every prefix pair and topic",
  "Tests use one prefix pair.",
  ["mqttpacket.cpp", "client.cpp", "session.cpp"],
  [("incoming", "MqttPacket::handlePublish"), ("outgoing", "Client::writeMqttPacketAndBlameThisClient")])
p("C38", "Shared state is only touched under its lock",
  "For every schedule of worker threads, session tables, subscription and retained trees, per-session queues and per-client output buffers are read or changed only while the owning lock is held, so that no data race exists.",
  ["schedules"], "for every interleaving of worker threads",
  "Tests see a few interleavings.",
  ["subscriptionstore.cpp", "session.cpp", "client.cpp", "mutexowned.h", "rwlockguard.cpp"],
  [("locks", "MutexOwned, RWLockGuard")])
p("C39", "An accepted QoS 1 or 2 message is eventually delivered",
  "A message acknowledged to its publisher with QoS 1 or 2 eventually reaches every matching subscriber that stays or comes back within its session expiry and keeps acknowledging, unless it expires or a configured limit drops it.",
  ["histories", "schedules", "fault_sequences"], "for every history of publishes, disconnects, restarts and acknowledgements",
  "Liveness over unbounded histories.",
  ["session.cpp", "subscriptionstore.cpp", "qospacketqueue.cpp"],
  [("redelivery", "Session::sendAllPendingQosData")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
