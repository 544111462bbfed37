From 658ff3300b59a8149c8eae80c1034e673fbf252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:00 +0000
Subject: [PATCH 01/24] fix: CirBuf contiguous read/write size at 2 GB capacity

The intermediate results were computed as int, so with the largest allowed
capacity (2^31) maxReadSize() reported 2^31 readable bytes when the tail was at 0.
---
 cirbuf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cirbuf.cpp b/cirbuf.cpp
index 239903a..0690387 100644
--- a/cirbuf.cpp
+++ b/cirbuf.cpp
@@ -57,17 +57,17 @@ uint32_t CirBuf::freeSpace() const
 
 uint32_t CirBuf::maxWriteSize() const
 {
-    int end = size - 1 - head;
-    int n = (end + tail) & (size-1);
-    int result = n <= end ? n : end+1;
+    const uint32_t end = size - 1 - head;
+    const uint32_t n = (end + tail) & (size-1);
+    const uint32_t result = n <= end ? n : end+1;
     return result;
 }
 
 uint32_t CirBuf::maxReadSize() const
 {
-    int end = size - tail;
-    int n = (head + end) & (size-1);
-    int result = n < end ? n : end;
+    const uint32_t end = size - tail;
+    const uint32_t n = (head + end) & (size-1);
+    const uint32_t result = n < end ? n : end;
     return result;
 }
 
-- 
2.43.0


From 2991ef47701e7efadefb621ed4aef07a864d4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 02/24] fix: refuse malformed IPv6 networks with a second or
 empty prefix length

'::1/64/3' was accepted as '::1/128' and '::1/' as '::1/128'.
---
 network.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/network.cpp b/network.cpp
index 3a3c4ed..fa78cb8 100644
--- a/network.cpp
+++ b/network.cpp
@@ -42,16 +42,19 @@ Network::Network(const std::string &network)
 
         tmpaddr.sin6_family = AF_INET6;
 
-        std::vector<std::string> parts = splitToVector(network, '/', 2, false);
+        std::vector<std::string> parts = splitToVector(network, '/', 2, true);
         std::string &addrPart = parts[0];
         int maskbits = 128;
 
+        if (parts.size() > 2)
+            throw std::runtime_error(formatString("Network '%s' is not a valid network notation.", network.c_str()));
+
         if (parts.size() == 2)
         {
             const std::string &maskstring = parts[1];
 
             const bool invalid_chars = std::any_of(maskstring.begin(), maskstring.end(), [](const char &c) { return c < '0' || c > '9'; });
-            if (invalid_chars || maskstring.length() > 3)
+            if (invalid_chars || maskstring.empty() || maskstring.length() > 3)
                 throw std::runtime_error(formatString("Mask '%s' is not valid", maskstring.c_str()));
 
             maskbits = std::stoi(maskstring);
-- 
2.43.0


From a1143a963ad97d31ce5e464083ebfc0467841447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 03/24] fix: sign extension when reading 64 bit integers from
 persistence files

Each half was assembled as int, so a byte >= 0x80 in the top position of the
lower half set all bits of the upper half.
---
 persistencefile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..61262dd 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -254,8 +254,8 @@ int64_t PersistenceFile::readInt64(bool &eofFound)
         eofFound = true;
 
     unsigned char *buf_ = buf.data();
-    const uint64_t val1 = ((buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
-    const uint64_t val2 = ((buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
+    const uint64_t val1 = (static_cast<uint32_t>(buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
+    const uint64_t val2 = (static_cast<uint32_t>(buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
     const int64_t val = (val1 << 32) | val2;
     return val;
 }
-- 
2.43.0


From cb0f6768973b83c12816f4ef45c62bbdb51a0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 04/24] fix: report end of file when a string in a persistence
 file is truncated

---
 persistencefile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 61262dd..9a9c3d6 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -300,7 +300,8 @@ std::string PersistenceFile::readString(bool &eofFound)
         throw std::runtime_error("In MQTT world, strings are never longer than 65535 bytes.");
 
     makeSureBufSize(size);
-    readCheck(buf.data(), 1, size, f);
+    if (readCheck(buf.data(), 1, size, f) < 0)
+        eofFound = true;
     std::string result = make_string(buf, 0, size);
     return result;
 }
-- 
2.43.0


From 55cecc7a19b7f91de98717dfb9bb829ca97186e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 05/24] fix: message expiry counted twice after loading saved
 state

---
 retainedmessagesdb.cpp         | 4 ++++
 sessionsandsubscriptionsdb.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..d1de201 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -222,7 +222,11 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         pub.username = username;
 
         if (pub.expireInfo)
+        {
+            // The interval in the saved packet is what was left at the time of saving.
+            pub.expireInfo.value().expiresAfter += std::chrono::seconds(originalPubAge);
             pub.expireInfo.value().createdAt = timepointFromAge(newPubAge);
+        }
 
         RetainedMessage msg(pub);
         if (logger->wouldLog(LOG_DEBUG))
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..5639607 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -190,7 +190,11 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
                     const uint32_t newPubAge = persistence_state_age + originalPubAge;
                     if (pub.expireInfo)
+                    {
+                        // The interval in the saved packet is what was left at the time of saving.
+                        pub.expireInfo->expiresAfter += std::chrono::seconds(originalPubAge);
                         pub.expireInfo->createdAt = timepointFromAge(newPubAge);
+                    }
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
-- 
2.43.0


From 7a1fd97097d26f9479ddd21b3d5f217e8cbb9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:38 +0000
Subject: [PATCH 06/24] fix: first empty level of a shared subscription's
 filter lost from its topic

---
 utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 3b1c55c..7e92249 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -666,11 +666,11 @@ void parseSubscriptionShare(std::vector<std::string> &subtopics, std::string &sh
 
     topic.clear();
 
-    for(const std::string &s : subtopics)
+    for (size_t i = 0; i < subtopics.size(); i++)
     {
-        if (!topic.empty())
+        if (i > 0)
             topic.append("/");
-        topic.append(s);
+        topic.append(subtopics[i]);
     }
 
     shareName = _shareName;
-- 
2.43.0


From 2546bafaf75f0ff5658e803b795288a6698a23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:00 +0000
Subject: [PATCH 07/24] fix: endless loop when every packet ID of a session is
 in use

---
 session.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/session.cpp b/session.cpp
index 29310b8..da91d42 100644
--- a/session.cpp
+++ b/session.cpp
@@ -124,26 +124,23 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
     if (flowControlQuota == 0)
         return {};
 
-    const uint16_t end = nextPacketId;
-    for(;;)
+    // Each of the 65535 valid IDs is tried once.
+    for (int tries = 0; tries < 0xFFFF; tries++)
     {
         nextPacketId++;
 
         if (nextPacketId == 0)
-            continue;
+            nextPacketId++;
 
         if (usedIds.contains(nextPacketId))
             continue;
 
-        if (nextPacketId == end)
-            return {};
-
-        break;
+        flowControlQuota--;
+        usedIds.insert(nextPacketId);
+        return nextPacketId;
     }
 
-    flowControlQuota--;
-    usedIds.insert(nextPacketId);
-    return nextPacketId;
+    return {};
 }
 
 uint16_t Session::QoSData::getInternalNextPacketId() const
-- 
2.43.0


From ae16b2adba24cde9fac266ec2d9853ffd419e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 08/24] fix: packet IDs pending in a loaded session not marked
 as used

---
 session.cpp                    | 8 ++++++++
 session.h                      | 1 +
 sessionsandsubscriptionsdb.cpp | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/session.cpp b/session.cpp
index da91d42..f305d80 100644
--- a/session.cpp
+++ b/session.cpp
@@ -154,6 +154,14 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+/**
+ * @brief For initial state loading: the ID of a message or QoS 2 handshake that is still pending.
+ */
+void Session::QoSData::loadUsedPacketId(const uint16_t id)
+{
+    usedIds.insert(id);
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
diff --git a/session.h b/session.h
index 6dbcbac..fb04546 100644
--- a/session.h
+++ b/session.h
@@ -80,6 +80,7 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        void loadUsedPacketId(const uint16_t id);
     };
 
     friend class SessionsAndSubscriptionsDB;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 5639607..6a870a3 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -199,6 +199,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
                     qos_locked->queuePublish(std::move(pub), id, topic_override);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint32_t nrOfIncomingPacketIds = readUint32(eofFound);
@@ -219,6 +220,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded outgoing QoS2 message id %d.", id);
                     qos_locked->outgoingQoS2MessageIds.insert(id);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint16_t nextPacketId = readUint16(eofFound);
-- 
2.43.0


From 9da3353e2cbe5212becb2a7bbda90bfd07262f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 09/24] fix: acknowledging an unknown packet ID raises the flow
 control quota

---
 session.cpp | 7 ++++++-
 session.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/session.cpp b/session.cpp
index f305d80..8ce5ba5 100644
--- a/session.cpp
+++ b/session.cpp
@@ -162,6 +162,11 @@ void Session::QoSData::loadUsedPacketId(const uint16_t id)
     usedIds.insert(id);
 }
 
+bool Session::QoSData::packetIdAwaitsAck(const uint16_t id) const
+{
+    return usedIds.contains(id) && outgoingQoS2MessageIds.find(id) == outgoingQoS2MessageIds.end();
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
@@ -327,7 +332,7 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
         result = qos_locked->eraseQueuedPublish(packet_id);
     else
     {
-        result = true;
+        result = qos_locked->packetIdAwaitsAck(packet_id);
     }
 
     if (qosHandshakeEnds && result)
diff --git a/session.h b/session.h
index fb04546..27d1a1f 100644
--- a/session.h
+++ b/session.h
@@ -81,6 +81,7 @@ class Session
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
         void loadUsedPacketId(const uint16_t id);
+        bool packetIdAwaitsAck(const uint16_t id) const;
     };
 
     friend class SessionsAndSubscriptionsDB;
-- 
2.43.0


From 22805e83574cd6242cc30e137588e06c809e3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 10/24] fix: PUBREC for an unknown packet ID starts a QoS 2
 handshake

---
 mqttpacket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..113aa56 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2415,7 +2415,8 @@ void MqttPacket::handlePubRec(std::shared_ptr<Client> &sender)
     // that contains that Packet Identifier as being a new Application Message."
     if (!publishTerminatesHere)
     {
-        sender->getSession()->addOutgoingQoS2MessageId(packet_id);
+        if (foundAndRemoved)
+            sender->getSession()->addOutgoingQoS2MessageId(packet_id);
 
         // MQTT5: "[The sender] MUST send a PUBREL packet when it receives a PUBREC packet from the receiver with a Reason Code value less than 0x80"
         const ReasonCodes reason = foundAndRemoved ? ReasonCodes::Success : ReasonCodes::PacketIdentifierNotFound;
-- 
2.43.0


From 7b186ab37d1f3bf40b3459fc7c69a36dcec913ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:17 +0000
Subject: [PATCH 11/24] fix: control characters before a multi-byte character
 accepted as valid UTF-8

---
 threadlocalutils.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a66ab66..19b2da1 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -92,6 +92,15 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
         int index = _mm_cmpestri(non_ascii_mask, 1, loaded_AND_non_ascii, len_left, 0);
         n += index;
 
+        // The ASCII chars up to the first multi-byte char, or the whole block.
+        const int ascii_chars = (1 << index) - 1;
+
+        if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)) & ascii_chars)
+            return false;
+
+        if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)) & ascii_chars)
+            return false;
+
         // Checking multi-byte chars one by one. With some effort, this may be done using SIMD too, but the majority of uses will
         // have a minimum of multi byte chars.
         if (index < 16)
@@ -157,15 +166,6 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             if (plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))
                 return false;
         }
-        else
-        {
-            if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)))
-                return false;
-
-            if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)))
-                return false;
-        }
-
     }
 
     return true;
-- 
2.43.0


From 61bcc7aaf38803d809d5a2866403c01059a618bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:17 +0000
Subject: [PATCH 12/24] fix: code points above U+10FFFF accepted as valid UTF-8

---
 threadlocalutils.cpp | 2 +-
 utils.h              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index 19b2da1..728925e 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -148,7 +148,7 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
                 return false;
             else if (total_char_len == 3 && cur_code_point < 0x800)
                 return false;
-            else if (total_char_len == 4 && cur_code_point < 0x10000)
+            else if (total_char_len == 4 && (cur_code_point < 0x10000 || cur_code_point > 0x10FFFF))
                 return false;
 
             if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
diff --git a/utils.h b/utils.h
index 2de4ab5..4e1d613 100644
--- a/utils.h
+++ b/utils.h
@@ -124,7 +124,7 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
                 return false;
             else if (total_char_len == 3 && cur_code_point < 0x800)
                 return false;
-            else if (total_char_len == 4 && cur_code_point < 0x10000)
+            else if (total_char_len == 4 && (cur_code_point < 0x10000 || cur_code_point > 0x10FFFF))
                 return false;
 
             if (cur_code_point <= 0x001F)
-- 
2.43.0


From bd793eb0c728877fe904b4e78656ca39039d56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:17 +0000
Subject: [PATCH 13/24] fix: subscription identifier missing from queued
 messages not made from a packet

---
 publishcopyfactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/publishcopyfactory.cpp b/publishcopyfactory.cpp
index 80d96fe..d17a7ac 100644
--- a/publishcopyfactory.cpp
+++ b/publishcopyfactory.cpp
@@ -162,6 +162,7 @@ Publish PublishCopyFactory::getNewPublish(uint8_t new_max_qos, bool retainAsPubl
     Publish p(*publish);
     p.qos = actualQos;
     p.retain = getEffectiveRetain(retainAsPublished);
+    p.subscriptionIdentifier = subscriptionIdentifier;
     return p;
 }
 
-- 
2.43.0


From a2f740100891c888480f291a60df476f867b2e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:17 +0000
Subject: [PATCH 14/24] fix: deferred retained messages stored in reverse order

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..1354caa 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -627,7 +627,7 @@ void ThreadData::queueSettingRetainedMessage(const Publish &p, const std::vector
 {
     assert(pthread_self() == thread_id);
     const bool wakeup_required = priv->queuedRetainedMessages.empty();
-    priv->queuedRetainedMessages.emplace_front(p, subtopics, limit);
+    priv->queuedRetainedMessages.emplace_back(p, subtopics, limit);
     this->deferredRetainedMessagesSet.inc(1);
 
     if (wakeup_required)
-- 
2.43.0


From d36c71d928df67497e4f6d033c0d3851a63028cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 15/24] fix: HAProxy client certificate verify result only kept
 its last byte

---
 haproxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haproxy.cpp b/haproxy.cpp
index ab68616..0cd4996 100644
--- a/haproxy.cpp
+++ b/haproxy.cpp
@@ -71,7 +71,7 @@ HaProxySslData read_ha_proxy_pp2_ssl(const std::vector<unsigned char> &data, int
 
     for (int shift = 24; shift >= 0; shift -= 8)
     {
-        result.verify = (data.at(pos++) << shift);
+        result.verify |= (static_cast<uint32_t>(data.at(pos++)) << shift);
     }
 
     auto sub_vec = make_vector<unsigned char>(data, pos, data.size() - pos);
-- 
2.43.0


From e930d0797b833886b1e9937692fed1182b15016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 16/24] fix: websocket frame with an extended payload length of
 zero read as 126 or 127 bytes

---
 iowrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index c2e7cfa..3e47a72 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -847,7 +847,7 @@ ssize_t IoWrapper::websocketBytesToReadBuffer(void *buf, const size_t nbytes, Io
                 extendedPayloadLength += (byte << shift);
             }
 
-            if (extendedPayloadLength > 0)
+            if (extendedPayloadLengthLength > 0)
                 realPayloadLength = extendedPayloadLength;
 
             if (headerLength > websocketPendingBytes.usedBytes())
-- 
2.43.0


From 1a90f3f4cb0c1a7ba9c3c7c51aa2a07b85a8d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 17/24] fix: retain handling value 3 accepted in subscription
 options

---
 types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index bac5fa9..03555b8 100644
--- a/types.cpp
+++ b/types.cpp
@@ -49,8 +49,8 @@ RetainHandling SubscriptionOptionsByte::getRetainHandling() const
     uint8_t x = b & 0b00110000;
     x = x >> 4;
 
-    if (x == 4)
-        throw ProtocolError("Retain Handling value of 4 is protocol error", ReasonCodes::ProtocolError);
+    if (x == 3)
+        throw ProtocolError("Retain Handling value of 3 is protocol error", ReasonCodes::ProtocolError);
 
     return static_cast<RetainHandling>(x);
 }
-- 
2.43.0


From 9fb53d1b791cd244de81caf1a6b3eb0a9e17492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 18/24] fix: session removed early by a removal queued at a
 previous disconnect

---
 subscriptionstore.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..f600989 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1274,6 +1274,9 @@ void SubscriptionStore::removeExpiredSessionsClients()
     // Collect sessions to remove for a separate step, to avoid holding two locks at the same time.
     std::vector<std::shared_ptr<Session>> sessionsToRemove;
 
+    // Sessions picked up again and disconnected since the removal was queued.
+    std::vector<std::pair<std::chrono::seconds, std::shared_ptr<Session>>> sessionsToKeep;
+
     int removedSessions = 0;
     int processedRemovals = 0;
     int queuedRemovalsLeft = -1;
@@ -1300,7 +1303,12 @@ void SubscriptionStore::removeExpiredSessionsClients()
                 // A session could have been picked up again, so we have to verify its expiration status.
                 if (lockedSession && !lockedSession->hasActiveClient())
                 {
-                    sessionsToRemove.push_back(lockedSession);
+                    const std::chrono::seconds timeLeft(lockedSession->getCurrentSessionExpiryInterval());
+
+                    if (timeLeft > std::chrono::seconds(0))
+                        sessionsToKeep.emplace_back(secondsSinceEpoch + timeLeft, lockedSession);
+                    else
+                        sessionsToRemove.push_back(lockedSession);
                 }
             }
             it = queuedSessionRemovals.erase(it);
@@ -1308,6 +1316,11 @@ void SubscriptionStore::removeExpiredSessionsClients()
             processedRemovals++;
         }
 
+        for (auto &p : sessionsToKeep)
+        {
+            queuedSessionRemovals[p.first].push_back(p.second);
+        }
+
         queuedRemovalsLeft = queuedSessionRemovals.size();
     }
 
-- 
2.43.0


From d75be5c89ace9e0e2500c7ca6d67abc21a11fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 19/24] fix: ACL patterns match topics literally containing %u
 or %c

---
 acltree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acltree.cpp b/acltree.cpp
index d0952b9..7b6c920 100644
--- a/acltree.cpp
+++ b/acltree.cpp
@@ -195,7 +195,11 @@ void AclTree::findPermissionRecursive(std::vector<std::string>::const_iterator c
 
     const auto next_subtopic_it = ++cur_published_subtopic_it;
 
-    if (this_node->hasChild(cur_published_subtop))
+    // The nodes of the pattern variables must not match topics that literally contain "%u" or "%c".
+    const bool isPatternVariable = (this_node->hasUserWildcard() && cur_published_subtop == "%u") ||
+                                   (this_node->hasClientidWildcard() && cur_published_subtop == "%c");
+
+    if (!isPatternVariable && this_node->hasChild(cur_published_subtop))
     {
         const AclNode *sub_node = this_node->getChildren(cur_published_subtop);
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
-- 
2.43.0


From d402d6f81a849b47e0e8eb1c5d8b86bdc4f4c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 20/24] fix: ACL pattern for an absent username matches an
 empty topic level

---
 acltree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acltree.cpp b/acltree.cpp
index 7b6c920..b7a9727 100644
--- a/acltree.cpp
+++ b/acltree.cpp
@@ -205,13 +205,13 @@ void AclTree::findPermissionRecursive(std::vector<std::string>::const_iterator c
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
     }
 
-    if (this_node->hasUserWildcard() && cur_published_subtop == username)
+    if (this_node->hasUserWildcard() && !username.empty() && cur_published_subtop == username)
     {
         const AclNode *sub_node = this_node->getChildren("%u");
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
     }
 
-    if (this_node->hasClientidWildcard() && cur_published_subtop == clientid)
+    if (this_node->hasClientidWildcard() && !clientid.empty() && cur_published_subtop == clientid)
     {
         const AclNode *sub_node = this_node->getChildren("%c");
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
-- 
2.43.0


From 30e6f861988bfa3ef4ef3f8202af52456fc1dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:42 +0000
Subject: [PATCH 21/24] fix: retained messages counted twice when a sweep runs
 out of time

---
 subscriptionstore.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index f600989..d9f2623 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1641,7 +1641,10 @@ void SubscriptionStore::expireRetainedMessages(
         _++;
         const std::shared_ptr<RetainedMessageNode> &child = cur->second;
 
-        if (std::chrono::steady_clock::now() <= limit)
+        // Nodes that are deferred must not also have been processed and counted here.
+        const bool time_left = std::chrono::steady_clock::now() <= limit;
+
+        if (time_left)
             expireRetainedMessages(child.get(), limit, deferred, real_message_counter);
 
         // See setRetainedMessage(..). It does two stage (re) locking, so we need to check this.
@@ -1656,7 +1659,7 @@ void SubscriptionStore::expireRetainedMessages(
                 this_node->children.erase(cur);
             }
         }
-        else if (std::chrono::steady_clock::now() > limit)
+        else if (!time_left)
         {
             deferred.push_back(child);
         }
-- 
2.43.0


From 6f05686bd6fe70f3d918b0f4021471fa9147fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:10 +0000
Subject: [PATCH 22/24] fix: round robin over a shared group skips members when
 the counter overflows

The counter is an int, and after 2^31 deliveries it overflows (undefined
behaviour). In practice it becomes negative, and its conversion to size_t makes
the position jump, so that one selection may look at some members twice and
never at others: a message is then dropped although the group has a member.
---
 sharedsubscribers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sharedsubscribers.h b/sharedsubscribers.h
index 772ec91..6dddf8a 100644
--- a/sharedsubscribers.h
+++ b/sharedsubscribers.h
@@ -28,7 +28,7 @@ class SharedSubscribers
 #endif
     std::vector<Subscription> members;
     std::unordered_map<std::string, int> index;
-    int roundRobinCounter = 0;
+    size_t roundRobinCounter = 0;
 
 public:
     const std::string shareName;
-- 
2.43.0


From 92a3ddb806a3aa9d44d2f207499431d5ab837c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:06 +0000
Subject: [PATCH 23/24] fix: let the read buffer grow until a packet of the
 allowed size fits

The buffer stopped growing when doubling it would exceed the largest of the
packet size limit and the buffer limit. With a packet size limit that isn't
far above the buffer limit, a packet within the limit could then never be
received completely, and the connection stalled.
---
 client.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.cpp b/client.cpp
index 840fda6..26b9a0e 100644
--- a/client.cpp
+++ b/client.cpp
@@ -343,10 +343,11 @@ DisconnectStage Client::readFdIntoBuffer()
             const Settings *settings = ThreadGlobals::getSettings();
             // I guess I should have just made a 'max buffer size' option, and not distinguish between read/write?
             const uint32_t maxBufSize = this->maxReadBufSizeOverride.value_or(settings->clientMaxWriteBufferSize);
-            const uint32_t maxBufOrBigPacketSize= std::max<uint32_t>(this->maxIncomingPacketSize, maxBufSize);
+            // One byte of the buffer is never used, so a packet of the allowed size only fits in something bigger.
+            const bool roomForBigPacketNeeded = readbuf.getCapacity() <= this->maxIncomingPacketSize;
 
             // We always grow for another iteration when there are still decoded websocket/SSL bytes, because epoll doesn't tell us that buffer has data.
-            if (readbuf.getCapacity() * 2 <= maxBufOrBigPacketSize || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
+            if (roomForBigPacketNeeded || readbuf.getCapacity() * 2 <= maxBufSize || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
             {
                 readbuf.doubleCapacity();
             }
-- 
2.43.0


From 0fe86caa8725492fafd5ec7ab619d422138eddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:57 +0000
Subject: [PATCH 24/24] fix: don't replace the saved state with an incomplete
 file

When saving failed halfway (disk full, or any exception), the destructor still
hashed the incomplete temp file and renamed it over the previous good one, so
that good state was lost. Write errors that were already flagged on the stream
and a failing fsync were also ignored. Failing in ~RetainedMessagesDB
terminated the process. A read error while hashing looped forever.
---
 persistencefile.cpp    | 37 +++++++++++++++++++++++++++++--------
 persistencefile.h      |  2 ++
 retainedmessagesdb.cpp | 10 +++++++++-
 3 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 9a9c3d6..71996ff 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -55,6 +55,9 @@ PersistenceFile::~PersistenceFile()
     {
         fclose(f); // fclose was already attempted and error handled if it was possible. In case an early fault happend, we need to still make sure.
         f = nullptr;
+
+        if (openMode == FileMode::write)
+            unlink(filePathTemp.c_str());
     }
 }
 
@@ -101,6 +104,10 @@ void PersistenceFile::hashFile()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error hashing '%s'.", filePath.c_str()));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -138,6 +145,10 @@ void PersistenceFile::verifyHash()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error hashing '%s'.", filePath.c_str()));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -342,7 +353,7 @@ void PersistenceFile::openWrite(const std::string &versionString)
     openMode = FileMode::write;
 
     writeCheck(buf.data(), 1, MAGIC_STRING_LENGH, f);
-    rewind(f);
+    fseek(f, 0, SEEK_SET);
     writeCheck(versionString.c_str(), 1, versionString.length(), f);
     fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
     writeCheck(buf.data(), 1, HASH_SIZE, f);
@@ -424,16 +435,26 @@ void PersistenceFile::closeFile()
 
     if (openMode == FileMode::write)
     {
+        // When saving was aborted by an exception, what we have is incomplete.
+        if (std::uncaught_exceptions() > uncaughtExceptionsAtConstruction)
+            discard = true;
+
         if (!discard)
+        {
             hashFile();
 
-        if (fflush(f) != 0)
-        {
-            std::string msg(strerror(errno));
-            throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
-        }
+            if (fflush(f) != 0 || ferror(f) != 0)
+            {
+                std::string msg(strerror(errno));
+                throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            }
 
-        fsync(f->_fileno);
+            if (fsync(f->_fileno) != 0)
+            {
+                std::string msg(strerror(errno));
+                throw std::runtime_error(formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            }
+        }
     }
 
     if (f != nullptr)
@@ -441,7 +462,7 @@ void PersistenceFile::closeFile()
         FILE *f2 = f;
         f = nullptr;
 
-        if (fclose(f2) < 0)
+        if (fclose(f2) < 0 && !discard)
         {
             std::string msg(strerror(errno));
             throw std::runtime_error(formatString("Close of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
diff --git a/persistencefile.h b/persistencefile.h
index d297a71..eb1e307 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -16,6 +16,7 @@ See LICENSE for license details.
 #include <string>
 #include <stdio.h>
 #include <openssl/evp.h>
+#include <exception>
 #include <stdexcept>
 #include <cstring>
 #include <optional>
@@ -43,6 +44,7 @@ class PersistenceFile
     std::string filePathCorrupt;
     std::string dirPath;
     bool discard = false;
+    const int uncaughtExceptionsAtConstruction = std::uncaught_exceptions();
 
     std::unique_ptr<EVP_MD_CTX, void(*)(EVP_MD_CTX*)> digestContext;
     const EVP_MD *sha512 = EVP_sha512();
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index d1de201..fecbe7f 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,15 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        closeFile();
+    }
+    catch (std::exception &ex)
+    {
+        dontSaveTmpFile();
+        logger->log(LOG_WARNING) << ex.what();
+    }
 }
 
 void RetainedMessagesDB::openWrite()
-- 
2.43.0

