From 3877cc7fc8b919471da6a1bfeaf1fa7b3e713b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 01/31] fix: Timepoint::advance_from with negative durations

The amount to advance was computed in unsigned microseconds, so a negative
duration in any unit but microseconds left a garbage remainder (and, for
finer units, advanced by a garbage amount).
---
 src/clock/clock_timepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clock/clock_timepoint.hpp b/src/clock/clock_timepoint.hpp
index 25fd481..a9ce0d3 100644
--- a/src/clock/clock_timepoint.hpp
+++ b/src/clock/clock_timepoint.hpp
@@ -76,7 +76,7 @@ inline Timepoint Timepoint::epoch() noexcept {
 
 template<typename ChronoDuration>
 inline Timepoint Timepoint::advance_from(ChronoDuration& duration) const noexcept {
-    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);
+    auto advance = std::chrono::duration_cast<Duration>(duration);
     duration -= std::chrono::duration_cast<ChronoDuration>(advance);
     return Timepoint{m_value + advance};
 }
-- 
2.43.0


From 2d8ea6a627b6e579c0d16ff2a5eb50cfcd65ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 02/31] fix: NONCE attribute number is 0x0015 (RFC 5389,
 section 18.2)

---
 src/stun/details/stun_attr_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/details/stun_attr_registry.hpp b/src/stun/details/stun_attr_registry.hpp
index 5012024..a7701eb 100644
--- a/src/stun/details/stun_attr_registry.hpp
+++ b/src/stun/details/stun_attr_registry.hpp
@@ -19,7 +19,7 @@ static constexpr uint16_t MESSAGE_INTEGRITY  = 0x0008;
 static constexpr uint16_t ERROR_CODE         = 0x0009;
 static constexpr uint16_t UNKNOWN_ATTRIBUTES = 0x000A;
 static constexpr uint16_t REALM              = 0x0014;
-static constexpr uint16_t NONCE              = 0x0016;
+static constexpr uint16_t NONCE              = 0x0015;
 static constexpr uint16_t XOR_MAPPED_ADDRESS = 0x0020;
 // RFC8445:
 // 20.1.  STUN Attributes
-- 
2.43.0


From 073569f0022b292685d7e42abad72ad4561bafcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 03/31] fix: make client_udp::Handle comparable by order

A defaulted operator<=> declared to return bool is defined as deleted, so
any use of <, >, <=, >= or <=> on handles did not compile.
---
 src/stun/stun_client_udp_handle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp_handle.hpp b/src/stun/stun_client_udp_handle.hpp
index 2b29bdf..4b6b148 100644
--- a/src/stun/stun_client_udp_handle.hpp
+++ b/src/stun/stun_client_udp_handle.hpp
@@ -9,13 +9,14 @@
 #pragma once
 
 #include <stddef.h>
+#include <compare>
 #include <functional>
 
 namespace freewebrtc::stun::client_udp {
 
 struct Handle {
     unsigned value;
-    bool operator<=>(const Handle&) const noexcept = default;
+    auto operator<=>(const Handle&) const noexcept = default;
 };
 
 struct HandleHash {
-- 
2.43.0


From 0565a9ef63eeb0161e000ac100975d1a655395ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 04/31] fix: define stun::Method::value

It was declared but never defined, so any use failed to link.
---
 src/stun/stun_method.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stun/stun_method.hpp b/src/stun/stun_method.hpp
index 4471ce1..f7068ce 100644
--- a/src/stun/stun_method.hpp
+++ b/src/stun/stun_method.hpp
@@ -34,6 +34,10 @@ inline Method::Method(unsigned v)
     : m_value(v)
 {}
 
+inline unsigned Method::value() const {
+    return m_value;
+}
+
 inline Method Method::from_msg_type(uint16_t v) noexcept {
     //   0                 1
     //   2  3  4 5 6 7 8 9 0 1 2 3 4 5
-- 
2.43.0


From f7214fa4c923723e0c84cac4c269e62bbe790da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 05/31] fix: encode the address family of MAPPED-ADDRESS and
 ALTERNATE-SERVER

The family was shifted the wrong way and always written as zero, so that
no peer (and not even Message::parse) could read the attribute.
---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 3788ec5..f86b028 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -121,7 +121,7 @@ util::ByteVec MappedAddressAttribute::build() const {
                     return std::make_pair(attr_registry::FAMILY_IPV6, a.view());
                 }
             }, addr.value());
-    const uint32_t first_word = util::host_to_network_u32(port.value() | (family >> 16));
+    const uint32_t first_word = util::host_to_network_u32(port.value() | (family << 16));
     return util::ConstBinaryView::concat({
             util::ConstBinaryView(&first_word, sizeof(first_word)),
             view
-- 
2.43.0


From bc08942875e153c3937bb33c6cf5a7261b6c78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 06/31] fix: count messages rejected for a truncated
 MAPPED-ADDRESS

Neither the error counter nor any cause was raised.
---
 src/stun/stun_attribute.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index f86b028..21fd04c 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -80,7 +80,15 @@ Result<MappedAddressAttribute> MappedAddressAttribute::parse(const util::ConstBi
     auto family_rv = vv.read_u8(1).require();
     auto port_rv = vv.read_u16be(2)
         .require()
+        .bind_err([&](auto&& err) {
+            stat.error.inc();
+            stat.invalid_mapped_address.inc();
+            return err;
+        })
         .fmap(net::Port::from_uint16);
+    if (port_rv.is_err()) {
+        return port_rv.unwrap_err();
+    }
     const auto addr_view_rv = vv.subview(4).require();
     return combine(
         [&](auto&& family, auto&& port, auto&& addr_view) {
-- 
2.43.0


From 51d8c63df22230537a184c3ac22f46c3d84ac89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 07/31] fix: ignore the reserved bits of ERROR-CODE

Only three bits hold the class; the 21 bits above are reserved and should
be ignored, but were taken as part of the class.
---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 21fd04c..2f13350 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -338,7 +338,7 @@ Result<ErrorCodeAttribute> ErrorCodeAttribute::parse(const util::ConstBinaryView
         })
         .fmap([&](uint32_t first_word) {
             return ErrorCodeAttribute{
-                .code = (first_word >> 8) * 100 + (first_word & 0xFF),
+                .code = ((first_word >> 8) & 0x7) * 100 + (first_word & 0xFF),
                 .reason_phrase = maybe_reason.fmap(
                     [](auto&& view) {
                         return std::string(view.begin(), view.end());
-- 
2.43.0


From 788efed7e55bcc8090b6525a270d1ef0ad3466a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 08/31] fix: ignore a MESSAGE-INTEGRITY that follows
 MESSAGE-INTEGRITY

A second one moved the protected interval while the first digest was
kept, so an authentic message was reported as not valid.
---
 src/stun/stun_message.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 237d54f..a979aea 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -285,8 +285,12 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
             // The text used as input to HMAC is the STUN message,
             // including the header, up to and including the attribute
             // preceding the MESSAGE-INTEGRITY attribute.
-            raw_attrs.emplace_back(raw_attr);
-            maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            // Attributes (except of FINGERPRINT) that follow the first one
+            // must be ignored.
+            if (!maybe_integrity_interval.is_some()) {
+                raw_attrs.emplace_back(raw_attr);
+                maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            }
             break;
         default:
             if (!maybe_integrity_interval.is_some()) {
-- 
2.43.0


From ce0f2a141ca795a8480a7af1659fa6238a36072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 09/31] fix: reject messages whose two most significant bits
 are not zero

Such datagrams (RTP among them) are not STUN, but were parsed with a
method out of range.
---
 src/stun/stun_error.cpp      | 1 +
 src/stun/stun_error.hpp      | 3 ++-
 src/stun/stun_message.cpp    | 7 +++++++
 src/stun/stun_parse_stat.hpp | 1 +
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_error.cpp b/src/stun/stun_error.cpp
index 0f0e9c6..1f2ea7b 100644
--- a/src/stun/stun_error.cpp
+++ b/src/stun/stun_error.cpp
@@ -38,6 +38,7 @@ public:
         case ParseError::error_code_attribute_size: return "invalid error code attribute size";
         case ParseError::unknown_attributes_attribute_size: return "invalid unknown attributes attribute size";
         case ParseError::unknown_addr_family:       return "unknown addr family";
+        case ParseError::invalid_message_type:      return "invalid message type";
         }
         return "unknown stun error";
     }
diff --git a/src/stun/stun_error.hpp b/src/stun/stun_error.hpp
index 2521942..725440d 100644
--- a/src/stun/stun_error.hpp
+++ b/src/stun/stun_error.hpp
@@ -33,7 +33,8 @@ enum class ParseError {
     use_candidate_size,
     error_code_attribute_size,
     unknown_attributes_attribute_size,
-    unknown_addr_family
+    unknown_addr_family,
+    invalid_message_type
 };
 
 enum class ClientError {
diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index a979aea..4970ab7 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -62,6 +62,13 @@ Result<Message> Message::parse(const util::ConstBinaryView& vv, ParseStat& stat)
     const uint16_t msg_length = vv.assured_read_u16be(2);
     const uint32_t magic_cookie = vv.assured_read_u32be(4);
 
+    // The most significant 2 bits of every STUN message MUST be zeroes.
+    if ((msg_type & 0xC000) != 0) {
+        stat.error.inc();
+        stat.invalid_message_type.inc();
+        return make_error_code(ParseError::invalid_message_type);
+    }
+
     // The message length MUST contain the size, in bytes, of the message
     // not including the 20-byte STUN header.  Since all STUN attributes are
     // padded to a multiple of 4 bytes, the last 2 bits of this field are
diff --git a/src/stun/stun_parse_stat.hpp b/src/stun/stun_parse_stat.hpp
index 7105cef..372eeb4 100644
--- a/src/stun/stun_parse_stat.hpp
+++ b/src/stun/stun_parse_stat.hpp
@@ -34,6 +34,7 @@ struct ParseStat {
     stat::Counter invalid_error_code_size;
     stat::Counter invalid_unknown_attributes_attr_size;
     stat::Counter unknown_comprehension_required_attr;
+    stat::Counter invalid_message_type;
 };
 
 }
-- 
2.43.0


From 25dba7d129cb0cd583f7f6a331af4b52824abd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 10/31] fix: dangling view of the hashed key when the HMAC key
 is longer than 64 bytes

The key was copied out of a hash object that had been destroyed already.
---
 src/crypto/crypto_hmac.hpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/crypto/crypto_hmac.hpp b/src/crypto/crypto_hmac.hpp
index afcb894..a56bcf9 100644
--- a/src/crypto/crypto_hmac.hpp
+++ b/src/crypto/crypto_hmac.hpp
@@ -67,21 +67,15 @@ template<uint8_t xorv>
 template<typename HashFunc>
 inline Result<PadKey<xorv>> PadKey<xorv>::from_key(const util::ConstBinaryView& view, HashFunc h)
 {
-    using ViewRV = Result<util::ConstBinaryView>;
-    return ViewRV(view)
-        .bind([&](auto&& v) -> ViewRV {
-            if (v.size() > B) {
-                // TODO: is result of v.view is valid after exit from this function?
-                return h({v}).fmap([](auto&& v) { return v.view(); });
-            } else {
-                return v;
-            }
-        })
-        .fmap([](auto&& v) {
-            Data data = {0};
-            std::copy(v.begin(), v.end(), data.begin());
-            return PadKey<xorv>(std::move(data));
-        });
+    const auto from_view = [](const util::ConstBinaryView& v) {
+        Data data = {0};
+        std::copy(v.begin(), v.end(), data.begin());
+        return PadKey<xorv>(std::move(data));
+    };
+    if (view.size() > B) {
+        return h({view}).fmap([&](auto&& hash) { return from_view(hash.view()); });
+    }
+    return from_view(view);
 }
 
 template<uint8_t xorv>
-- 
2.43.0


From 34a658e5f8f93c8c3009a0445d6a3f1d56037897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 11/31] fix: end every client transaction exactly once

A response that arrived while the final effect of its transaction was still
queued, or a timer that was due at that moment, produced a second final
effect or a SendData with a view of an already destroyed message.
---
 src/stun/stun_client_udp.cpp | 49 ++++++++++++++++++++----------------
 src/stun/stun_client_udp.hpp |  3 +++
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 47d70d2..93e30f4 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -82,18 +82,18 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
+        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
-            auto se = t.rtx_algo->next(now)
-                .fmap([&](auto&& next) -> Effect {
-                    m_stat.retransmits.inc();
-                    t.rtx_count++;
-                    m_tid_timeline.emplace(std::make_pair(next, hnd));
-                    return SendData{hnd, util::ConstBinaryView(t.msg_data)};
-                })
-                .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
-            m_effects.emplace(std::move(se));
-        } // When not found transaction were cleaned before.
+            const auto maybe_next = t.rtx_algo->next(now);
+            if (maybe_next.is_none()) {
+                finish(t, TransactionFailed{hnd, TransactionFailed::Timeout{}});
+                continue;
+            }
+            m_stat.retransmits.inc();
+            t.rtx_count++;
+            m_tid_timeline.emplace(std::make_pair(maybe_next.unwrap(), hnd));
+            m_effects.emplace(SendData{hnd, util::ConstBinaryView(t.msg_data)});
+        } // When not found or finished transaction needs no more steps.
     }
     if (!m_effects.empty()) {
         auto next = std::move(m_effects.front());
@@ -120,7 +120,7 @@ Result<ClientUDP::TransactionRef> ClientUDP::find_transaction(const TransactionI
     }
     auto hnd = i->second;
     auto j = m_tmap.find(hnd);
-    if (j == m_tmap.end()) {
+    if (j == m_tmap.end() || j->second.finished) {
         m_stat.transaction_not_found.inc();
         return make_error_code(ClientError::transaction_not_found);
     }
@@ -216,7 +216,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -255,7 +255,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
                     return TransactionFailed{t.hnd, std::move(reason)};
                 });
         });
-    m_effects.emplace(effect);
+    finish(t, std::move(effect));
 
     return success();
 }
@@ -270,7 +270,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -278,7 +278,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (maybe_msg_error_code.is_none()) {
         m_stat.no_error_code.inc();
         auto reason = TransactionFailed::Error{make_error_code(ClientError::no_error_code_in_response)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     const auto& msg_error_code = maybe_msg_error_code.unwrap().get();
@@ -289,13 +289,13 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         if (maybe_alt_srv.is_none()) {
             m_stat.no_alternate_server_attr.inc();
             auto reason = TransactionFailed::Error{make_error_code(ClientError::no_alternate_server_in_response)};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         const auto& alt_srv = maybe_alt_srv.unwrap().get();
         m_stat.try_alternate_responses.inc();
         auto reason = TransactionFailed::AlternateServer{{alt_srv.addr, alt_srv.port}};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -309,7 +309,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         // Alternate server is checked above.
         m_stat.response_3xx.inc();
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 4: {
@@ -322,12 +322,12 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             const auto& maybe_ua = msg.attribute_set.unknown_attributes();
             if (maybe_ua.is_some()) {
                 auto reason = TransactionFailed::UnknownAttributeReported{maybe_ua.unwrap().get().types};
-                m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+                finish(t, TransactionFailed{t.hnd, std::move(reason)});
                 return success();
             }
         }
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 5: {
@@ -340,7 +340,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         }
@@ -371,6 +371,11 @@ ClientUDP::RetransmitAlgoPtr ClientUDP::allocate_rtx_algo(const net::Path& path,
             m_settings.retransmit);
 }
 
+void ClientUDP::finish(Transaction& t, Effect&& effect) {
+    t.finished = true;
+    m_effects.emplace(std::move(effect));
+}
+
 void ClientUDP::cleanup(const Handle& hnd) {
     if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
         const auto& tid = it->second.tid;
diff --git a/src/stun/stun_client_udp.hpp b/src/stun/stun_client_udp.hpp
index ef7ee7e..85bd314 100644
--- a/src/stun/stun_client_udp.hpp
+++ b/src/stun/stun_client_udp.hpp
@@ -120,6 +120,8 @@ private:
         Timepoint create_time;
         MaybeAuth maybe_auth;
         unsigned rtx_count = 0;
+        // Final effect is already queued and waits for delivery.
+        bool finished = false;
     };
     using TransactionRef = std::reference_wrapper<Transaction>;
     using TimelineItem = std::pair<Timepoint, Handle>;
@@ -136,6 +138,7 @@ private:
     MaybeError handle_error_response(Timepoint now, Transaction& trans, Message&& msg);
     Handle allocate_handle() noexcept;
     RetransmitAlgoPtr allocate_rtx_algo(const net::Path& path, Timepoint now);
+    void finish(Transaction&, Effect&&);
     void cleanup(const Handle&);
 
     const Settings m_settings;
-- 
2.43.0


From 100e063393f9a3ddfa3cdf01ca18be9a5b55c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 12/31] fix: max_rto is an upper bound of the retransmission
 interval

---
 src/stun/stun_client_udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 93e30f4..b52f89d 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -469,7 +469,7 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
 
     auto timeout = m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::max(current, settings_max_rto);
+            return std::min<Duration>(current, settings_max_rto);
         })
         .value_or(current);
     return std::make_pair(now.advance(timeout), timeout);
-- 
2.43.0


From 203bd49d4ea65ecb5bb56cf6dd37da13f37860c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 13/31] fix: resend the request after the server error delay

The time set by a 5xx response was never put on the timeline, and the request
that was last without server errors was still followed by the long last wait.
---
 src/stun/stun_client_udp.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index b52f89d..a949d75 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -25,6 +25,7 @@ public:
     };
     Process5xxResult process_5xx(Timepoint, int code);
     Duration last_timeout() const;
+    MaybeTimepoint next_time() const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
     const Duration m_initial_rto;
@@ -80,10 +81,18 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
 ClientUDP::Effect ClientUDP::next(Timepoint now) {
     // Progress with pending transactions
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
-        Handle hnd = m_tid_timeline.top().second;
+        const Timepoint time = m_tid_timeline.top().first;
+        const Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
         if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
+            const auto is_actual = t.rtx_algo->next_time()
+                .fmap([&](auto&& next) { return next == time; })
+                .value_or(false);
+            if (!is_actual) {
+                // Rescheduled by 5xx response
+                continue;
+            }
             const auto maybe_next = t.rtx_algo->next(now);
             if (maybe_next.is_none()) {
                 finish(t, TransactionFailed{hnd, TransactionFailed::Timeout{}});
@@ -337,6 +346,10 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         m_stat.response_5xx.inc();
         switch (t.rtx_algo->process_5xx(now, msg_error_code.code)) {
         case RetransmitAlgo::Process5xxResult::RetransmitScheduled:
+            t.rtx_algo->next_time()
+                .with_inner([&](Timepoint&& timepoint) {
+                    m_tid_timeline.emplace(timepoint, t.hnd);
+                });
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
@@ -459,11 +472,15 @@ ClientUDP::Duration ClientUDP::RetransmitAlgo::last_timeout() const {
     return m_last_timeout;
 }
 
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::next_time() const {
+    return m_maybe_next;
+}
+
 std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::RetransmitAlgo::calc_next(Timepoint now) const noexcept {
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
     }
-    auto current = m_rtx_count + 2 == m_settings.request_count
+    auto current = m_rtx_count + 2 == m_settings.request_count + m_5xx_count
         ? m_initial_rto * m_settings.retransmission_multiplier
         : m_last_timeout * 2;
 
-- 
2.43.0


From be3bcf58b57be4b010442e0417f5170a537730b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 14/31] fix: forget outdated RTO history on every measurement

An outdated entry was refreshed instead of forgotten by a measurement of its
own path, and a backoff of a new path did not forget outdated entries.
---
 src/stun/details/stun_client_udp_rto.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stun/details/stun_client_udp_rto.cpp b/src/stun/details/stun_client_udp_rto.cpp
index fd7362f..104e312 100644
--- a/src/stun/details/stun_client_udp_rto.cpp
+++ b/src/stun/details/stun_client_udp_rto.cpp
@@ -35,6 +35,7 @@ Duration ClientUDPRtoCalculator::rto(const net::Path& path) const {
 }
 
 void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Duration rtt) {
+    clear_outdated(now);
     auto it = m_by_path.find(path);
     if (it == m_by_path.end()) {
         auto [it2, _] = m_by_path.emplace(path, Data{path, now});
@@ -43,7 +44,6 @@ void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Durat
     auto& data = it->second;
     data.last_update = now;
     m_timeline.push_back(data);
-    clear_outdated(now);
     // Clear backoff value for further requests
     data.backoff = none();
     // Update SRTT
@@ -72,6 +72,7 @@ void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Durat
 }
 
 void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Duration backoff) {
+    clear_outdated(now);
     auto it = m_by_path.find(path);
     if (it == m_by_path.end()) {
         auto [it, _] = m_by_path.emplace(path, Data{path, now, backoff});
@@ -82,7 +83,6 @@ void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Durat
     data.last_update = now;
     m_timeline.push_back(data);
     data.backoff = backoff;
-    clear_outdated(now);
 }
 
 void ClientUDPRtoCalculator::clear_outdated(Timepoint now) {
-- 
2.43.0


From 9bfe0e84bc03e34fe3b0a3248192dca06c39d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 15/31] fix: first retransmission interval obeys max_rto and
 request_count of one

The interval after the first request was not limited by max_rto, and a single
request was followed by the initial timeout instead of the last wait.
---
 src/stun/stun_client_udp.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index a949d75..964e453 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -28,6 +28,7 @@ public:
     MaybeTimepoint next_time() const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
+    Duration limit(Duration) const noexcept;
     const Duration m_initial_rto;
     const Settings::RetransmitDefault m_settings;
     MaybeTimepoint m_maybe_next;
@@ -431,6 +432,9 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
+    m_last_timeout = limit(m_settings.request_count > 1
+        ? m_initial_rto
+        : m_initial_rto * m_settings.retransmission_multiplier);
     m_maybe_next = now.advance(m_last_timeout);
     return m_maybe_next;
 }
@@ -483,14 +487,16 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
     auto current = m_rtx_count + 2 == m_settings.request_count + m_5xx_count
         ? m_initial_rto * m_settings.retransmission_multiplier
         : m_last_timeout * 2;
+    const auto timeout = limit(current);
+    return std::make_pair(now.advance(timeout), timeout);
+}
 
-    auto timeout = m_settings.max_rto
+ClientUDP::Duration ClientUDP::RetransmitAlgo::limit(Duration timeout) const noexcept {
+    return m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::min<Duration>(current, settings_max_rto);
+            return std::min<Duration>(timeout, settings_max_rto);
         })
-        .value_or(current);
-    return std::make_pair(now.advance(timeout), timeout);
+        .value_or(timeout);
 }
 
 }
-
-- 
2.43.0


From a262cb6f191bad66e3f56fc63799bebabd078c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 16/31] fix: AddressHash can be used by unordered containers

---
 src/net/ip/ip_address_hash.cpp | 2 +-
 src/net/ip/ip_address_hash.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/ip/ip_address_hash.cpp b/src/net/ip/ip_address_hash.cpp
index b1ce7b0..846d547 100644
--- a/src/net/ip/ip_address_hash.cpp
+++ b/src/net/ip/ip_address_hash.cpp
@@ -12,7 +12,7 @@
 
 namespace freewebrtc::net::ip {
 
-std::size_t AddressHash::operator()(const net::ip::Address& addr) {
+std::size_t AddressHash::operator()(const net::ip::Address& addr) const {
     return std::visit(
         util::overloaded {
             [](const AddressV4& v4) {
diff --git a/src/net/ip/ip_address_hash.hpp b/src/net/ip/ip_address_hash.hpp
index d8a3f12..df35a77 100644
--- a/src/net/ip/ip_address_hash.hpp
+++ b/src/net/ip/ip_address_hash.hpp
@@ -15,7 +15,7 @@
 namespace freewebrtc::net::ip {
 
 struct AddressHash {
-    std::size_t operator()(const net::ip::Address&);
+    std::size_t operator()(const net::ip::Address&) const;
 };
 
 
-- 
2.43.0


From ec38ea96d877538c73883e49a3cc76514253964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 17/31] fix: reject IP address text with an embedded NUL

---
 src/net/ip/ip_address.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ip/ip_address.cpp b/src/net/ip/ip_address.cpp
index b6c0ccb..0bc65c3 100644
--- a/src/net/ip/ip_address.cpp
+++ b/src/net/ip/ip_address.cpp
@@ -20,6 +20,10 @@ Result<AddressType> inet_pton_adapter(const std::string_view& v) {
     // succeeds, with the address pointed to by dst in network byte
     // order.
     std::string copy(v.begin(), v.end());
+    if (copy.find('\0') != std::string::npos) {
+        // inet_pton would ignore everything after the terminator
+        return make_error_code(Error::ip_address_parse_error);
+    }
     int rc = inet_pton(INET_FAMILY, copy.c_str(), &ip_addr);
     if (rc > 0) {
         return AddressType::from_view(util::ConstBinaryView(&ip_addr, sizeof(ip_addr)));
-- 
2.43.0


From 35f8a4c6f6aea5b2d42896c90e0869879e1ca689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 18/31] fix: reject RTP packets whose padding count is zero

---
 src/rtp/rtp_packet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtp/rtp_packet.cpp b/src/rtp/rtp_packet.cpp
index 4cc7353..e33b670 100644
--- a/src/rtp/rtp_packet.cpp
+++ b/src/rtp/rtp_packet.cpp
@@ -144,7 +144,8 @@ Result<Packet> Packet::parse(const util::ConstBinaryView& vv, const PayloadMap&
             })
             .bind([&](auto&& size) -> MaybeError {
                 padding_size = size;
-                if (padding_size > payload_with_padding_size) {
+                // the count includes itself, so zero is not a valid value
+                if (padding_size == 0 || padding_size > payload_with_padding_size) {
                     stat.invalid_padding.inc();
                     stat.error.inc();
                     return make_error_code(Error::invalid_packet_padding);
-- 
2.43.0


From dcc614a8d9cd99c8619952cfb109fe1bc5d77379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 19/31] fix: reject ICE component ids above 256 read from text

---
 src/ice/candidate/ice_candidate_component_id.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ice/candidate/ice_candidate_component_id.cpp b/src/ice/candidate/ice_candidate_component_id.cpp
index a7f5c94..915c27f 100644
--- a/src/ice/candidate/ice_candidate_component_id.cpp
+++ b/src/ice/candidate/ice_candidate_component_id.cpp
@@ -35,6 +35,9 @@ Result<ComponentId> ComponentId::from_string(const std::string_view& v) noexcept
     }
     std::string vstr{v};
     auto value = std::atoi(vstr.c_str());
+    if (value > 256) {
+        return make_error_code(Error::invalid_component_id_value);
+    }
     return ComponentId(value);
 }
 
-- 
2.43.0


From f5da97fad0670a32e93edb5cfe0fe27d0c2edafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 20/31] fix: a candidate line without connection address is an
 error

---
 src/ice/candidate/ice_candidate_sdp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ice/candidate/ice_candidate_sdp.cpp b/src/ice/candidate/ice_candidate_sdp.cpp
index d47fa32..ab60216 100644
--- a/src/ice/candidate/ice_candidate_sdp.cpp
+++ b/src/ice/candidate/ice_candidate_sdp.cpp
@@ -59,7 +59,10 @@ Result<SDPAttrParseResult> parse_sdp_attr(std::string_view inv) {
         return make_error_code(Error::invalid_attr_prefix);
     }
     auto& v = maybev.unwrap();
-    auto tstr = util::TokenStream{util::string_view::split_all(v, ' ')};
+    auto tokens = util::string_view::split_all(v, ' ');
+    // foundation, component, transport, priority and connection address
+    const bool has_connection_addr = tokens.size() >= 5;
+    auto tstr = util::TokenStream{std::move(tokens)};
 
     auto foundation_rv      = tstr.required_bind(Foundation::from_string).add_context("foundation");
     auto component_id_rv    = tstr.required_bind(ComponentId::from_string).add_context("component");
@@ -106,7 +109,7 @@ Result<SDPAttrParseResult> parse_sdp_attr(std::string_view inv) {
     const auto unsupported = any_is_err(connection_addr_rv, type_rv, transport_rv);
     if (unsupported.is_err()) {
         auto error = unsupported.unwrap_err();
-        if (connection_addr_rv.is_err()
+        if ((connection_addr_rv.is_err() && has_connection_addr)
             || error == make_error_code(Error::unknown_candidate_type)
             || error == make_error_code(Error::unknown_transport_type)) {
             return SDPAttrParseResult{ Unsupported{ error.message() } };
-- 
2.43.0


From 78ce5f8a0abf01b5b121201a9d54e7a4ddb7c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 21/31] fix: a copied token stream reads its own tokens

The position was an iterator into the tokens of the original stream, so a
copy never found its end and read past it.
---
 src/util/util_token_stream.cpp | 6 ++----
 src/util/util_token_stream.hpp | 7 ++++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util/util_token_stream.cpp b/src/util/util_token_stream.cpp
index b1c0d2a..fa402f7 100644
--- a/src/util/util_token_stream.cpp
+++ b/src/util/util_token_stream.cpp
@@ -40,19 +40,17 @@ std::string TokenStreamErrorCategory::message(int code) const {
 
 TokenStream::TokenStream(const Container& d)
     : m_data(d)
-    , m_pos(m_data.cbegin())
 {}
 
 TokenStream::TokenStream(Container&& d)
     : m_data(std::move(d))
-    , m_pos(m_data.cbegin())
 {}
 
 TokenStream::MaybToken TokenStream::optional() noexcept {
-    if (m_pos == m_data.cend()) {
+    if (m_pos == m_data.size()) {
         return None{};
     }
-    return *(m_pos++);
+    return m_data[m_pos++];
 }
 
 ::freewebrtc::Error TokenStream::make_error_code(Error code) {
diff --git a/src/util/util_token_stream.hpp b/src/util/util_token_stream.hpp
index 6a1016e..5720155 100644
--- a/src/util/util_token_stream.hpp
+++ b/src/util/util_token_stream.hpp
@@ -45,7 +45,8 @@ private:
     ::freewebrtc::Error make_error_code(Error);
 
     const Container m_data;
-    Container::const_iterator m_pos;
+    // index and not iterator to keep copies of the stream valid
+    size_t m_pos = 0;
 };
 
 
@@ -68,10 +69,10 @@ inline MaybeError TokenStream::required(const std::string_view& expected) noexce
 }
 
 inline Result<TokenStream::TokenType> TokenStream::required() noexcept {
-    if (m_pos == m_data.end()) {
+    if (m_pos == m_data.size()) {
         return make_error_code(Error::no_required_token);
     }
-    return Result<TokenType>{*(m_pos++)};
+    return Result<TokenType>{m_data[m_pos++]};
 }
 
 
-- 
2.43.0


From c75c0a88f1b44b4042075012484e3ac59594ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 22/31] fix: move assignment of an intrusive list takes over
 the link member

As the move constructor does. Otherwise an element of the assigned list
pushed again was linked by another member and so was in the list twice.
---
 src/util/util_intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/util_intrusive_list.hpp b/src/util/util_intrusive_list.hpp
index da6b27c..70348c9 100644
--- a/src/util/util_intrusive_list.hpp
+++ b/src/util/util_intrusive_list.hpp
@@ -215,6 +215,7 @@ IntrusiveList<T>& IntrusiveList<T>::operator=(IntrusiveList&& other) {
         return *this;
     }
     clear();
+    m_link_member = other.m_link_member;
     if (other.empty()) {
         return *this;
     }
-- 
2.43.0


From 2b2539abedcee7a07d88ed2e8209a022bdbfd87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 23/31] fix: move assignment of an intrusive list link relinks
 the neighbours

The default one copied the owner and left the neighbours pointing to the
other link.
---
 src/util/util_intrusive_list.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/util/util_intrusive_list.hpp b/src/util/util_intrusive_list.hpp
index 70348c9..cfdfa60 100644
--- a/src/util/util_intrusive_list.hpp
+++ b/src/util/util_intrusive_list.hpp
@@ -76,7 +76,8 @@ public:
     ~Link();
     // No any types of copy
     Link& operator=(const Link&) = delete;
-    Link& operator=(Link&&) = default;
+    // Takes place of the other link, the owner stays the same
+    Link& operator=(Link&&) noexcept;
 
     T& get() noexcept;
     const T& get() const noexcept;
@@ -122,6 +123,27 @@ IntrusiveList<T>::Link::Link(T& t, Link&& other)
     other.m_prev = none();
 }
 
+template<typename T>
+typename IntrusiveList<T>::Link& IntrusiveList<T>::Link::operator=(Link&& other) noexcept {
+    if (&other == this) { // self assignment
+        return *this;
+    }
+    remove();
+    m_next = other.m_next;
+    m_prev = other.m_prev;
+    m_prev.fmap([&](auto&& prev) {
+        prev.get().m_next = LinkRef{*this};
+        return Unit::create();
+    });
+    m_next.fmap([&](auto&& next) {
+        next.get().m_prev = LinkRef{*this};
+        return Unit::create();
+    });
+    other.m_next = none();
+    other.m_prev = none();
+    return *this;
+}
+
 template<typename T>
 IntrusiveList<T>::Link::~Link() {
     remove();
-- 
2.43.0


From 5d6f934f75ad31dfe4975450cbd396bb02f62fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 24/31] fix: the client answers only responses to Binding
 requests

A message of an unsupported method has to be discarded (RFC 8489, 6.3);
it ended the transaction if it carried its id.
---
 src/stun/stun_client_udp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 964e453..76bdc4d 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -59,7 +59,10 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
     // message validation if we don't know anything about
     // transaction
     auto trans_ref_rv = msg_rv
-        .bind([&](const Message& msg) {
+        .bind([&](const Message& msg) -> Result<TransactionRef> {
+            if (msg.header.method != Method::binding()) {
+                return make_error_code(ClientError::transaction_not_found);
+            }
             return find_transaction(msg.header.transaction_id);
         });
 
-- 
2.43.0


From f1593a795401e3cd7d21cb66b5bc1c914a81718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 25/31] fix: the server binding ignores messages it cannot
 describe

Describing an ignored message of an unknown method failed, so process()
threw for a datagram anybody may send.
---
 node/node_stun/node_stun_server_stateless.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/node/node_stun/node_stun_server_stateless.cpp b/node/node_stun/node_stun_server_stateless.cpp
index fe495fd..6ac9fc1 100644
--- a/node/node_stun/node_stun_server_stateless.cpp
+++ b/node/node_stun/node_stun_server_stateless.cpp
@@ -6,6 +6,7 @@
 // Mapping of stateless STUN server to NAPI
 //
 
+#include "util/util_maybe.hpp"
 #include "util/util_result_sugar.hpp"
 #include "stun/stun_server_stateless.hpp"
 #include "node/openssl/node_openssl_hash.hpp"
@@ -65,8 +66,14 @@ Result<Value> process_message(Env& env, const CallbackInfo& info) {
                             env.create_object({
                                 {"result", env.create_string("ignore")},
                                 {"message",
-                                        std::move(ign.message).fmap([&](const auto& msg) {
-                                            return node_stun::message(env, msg);
+                                        ign.message.bind([&](const auto& msg) -> Maybe<RVO> {
+                                            // Not every ignored message has a description
+                                            // (for example if method is unknown)
+                                            auto rv = node_stun::message(env, msg);
+                                            if (rv.is_err()) {
+                                                return none();
+                                            }
+                                            return rv;
                                         })}
                             });
                     },
-- 
2.43.0


From 7982417b39a1a5aceb47478ac40cbe418f2f04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 26/31] fix: the server binding rejects ports out of range

They were cut to 16 bits and reported to the client as its port.
---
 node/node_stun/node_stun_server_stateless.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/node/node_stun/node_stun_server_stateless.cpp b/node/node_stun/node_stun_server_stateless.cpp
index 6ac9fc1..7020d4b 100644
--- a/node/node_stun/node_stun_server_stateless.cpp
+++ b/node/node_stun/node_stun_server_stateless.cpp
@@ -6,12 +6,15 @@
 // Mapping of stateless STUN server to NAPI
 //
 
+#include <limits>
+
 #include "util/util_maybe.hpp"
 #include "util/util_result_sugar.hpp"
 #include "stun/stun_server_stateless.hpp"
 #include "node/openssl/node_openssl_hash.hpp"
 #include "node_stun_server_stateless.hpp"
 #include "node_stun_message.hpp"
+#include "node_stun_error.hpp"
 #include <craftnapi/error.hpp>
 
 namespace freewebrtc::node_stun {
@@ -39,11 +42,17 @@ Result<net::Endpoint> extract_rinfo(const Value& v) {
     auto port_rv = (v_as_obj
         > [](auto obj) { return obj.named_property("port"); }
         > [](const auto& v) { return v.as_int32(); }
+        > [](auto v) -> Result<net::Port> {
+            if (v < 0 || v > std::numeric_limits<uint16_t>::max()) {
+                return make_error_code(Error::invalid_port_number);
+            }
+            return net::Port(v);
+        }
         ).add_context("rinfo.port");
 
     return combine(
         [](auto&& addr, auto&& port) -> Result<net::Endpoint> {
-            return net::Endpoint(net::UdpEndpoint{addr, net::Port(port)});
+            return net::Endpoint(net::UdpEndpoint{addr, port});
         },
         std::move(addr_rv),
         std::move(port_rv));
-- 
2.43.0


From b6673413b5ad1ea9df05126cddae13eae2c4efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 27/31] fix: the client binding names the transaction of every
 effect

Only failures had the handle that create() returned, so with several
transactions sends and successes could not be told apart.
---
 node/node_stun/node_stun_client_udp_effects.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node/node_stun/node_stun_client_udp_effects.cpp b/node/node_stun/node_stun_client_udp_effects.cpp
index 3005824..23e27c9 100644
--- a/node/node_stun/node_stun_client_udp_effects.cpp
+++ b/node/node_stun/node_stun_client_udp_effects.cpp
@@ -21,6 +21,7 @@ namespace {
 Result<craftnapi::Object> send_data_to_craftnapi(craftnapi::Env& env, const stun::ClientUDP::SendData& d) {
     return env.create_object({
         {"type", env.create_string("send_data")},
+        {"handle", client_udp_handle_to_craftnapi(env, d.handle)},
         {"message", env.create_buffer(d.message_view)}
     });
 }
@@ -28,6 +29,7 @@ Result<craftnapi::Object> send_data_to_craftnapi(craftnapi::Env& env, const stun
 Result<craftnapi::Object> transaction_ok_to_craftnapi(craftnapi::Env& env, const stun::ClientUDP::TransactionOk& t) {
     return env.create_object({
         {"type", env.create_string("transaction_ok")},
+        {"handle", client_udp_handle_to_craftnapi(env, t.handle)},
         {"result", env.create_object({
                 { "addr", t.result.address.to_string() > [&](auto&& s) { return env.create_string(std::move(s)); }},
                 { "port", env.create_int32(t.result.port.value()) }
-- 
2.43.0


From 029c3d9cfa83cb7cadff7842242a59313b20857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 28/31] fix: the node hash functions report failed updates

The error was dropped and the digest of other data returned.
---
 node/openssl/node_openssl_hash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/openssl/node_openssl_hash.cpp b/node/openssl/node_openssl_hash.cpp
index bfc341c..178310e 100644
--- a/node/openssl/node_openssl_hash.cpp
+++ b/node/openssl/node_openssl_hash.cpp
@@ -55,7 +55,9 @@ typename Hash::Result MessageDigest::calc(const typename Hash::Input& input) {
     }
 
     for (const auto& chunk: input) {
-        update(chunk);
+        if (auto maybe_err = update(chunk); maybe_err.is_err()) {
+            return maybe_err.unwrap_err();
+        }
     }
 
     typename Hash::Value v;
-- 
2.43.0


From e9ff5a1a3a17967b25963d0454af1139e27c2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 29/31] fix: transaction identifiers of the client binding are
 random

They came from random() without a seed, so every process used the same
ones and the top bit of each word was never set (RFC 8489, 5: chosen
uniformly at random and unpredictable).
---
 node/node_stun/node_stun_client_udp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/node/node_stun/node_stun_client_udp.cpp b/node/node_stun/node_stun_client_udp.cpp
index ff79d5d..0befe2f 100644
--- a/node/node_stun/node_stun_client_udp.cpp
+++ b/node/node_stun/node_stun_client_udp.cpp
@@ -7,6 +7,7 @@
 
 #include <memory>
 #include <iostream>
+#include <random>
 
 #include "util/util_result_sugar.hpp"
 #include "stun/stun_client_udp.hpp"
@@ -23,6 +24,12 @@ namespace freewebrtc::node_stun {
 
 namespace {
 
+// Random source of transaction identifiers
+uint32_t random_word() {
+    static thread_local std::random_device device;
+    return device();
+}
+
 Result<craftnapi::Value> constructor(craftnapi::Env&, const craftnapi::CallbackInfo& info) {
     auto settings_rv = info[0] > craftnapi::Value::to_object > client_udp_settings_from_craftnapi;
     return
@@ -80,7 +87,7 @@ Result<craftnapi::Value> create(craftnapi::Env& env, const craftnapi::CallbackIn
     auto client_rv = info.this_arg.unwrap<stun::ClientUDP>();
     return combine(
         [](auto&& client, stun::ClientUDP::Request&& req) {
-            return client.get().create(random, clock::steady_clock_now(), std::move(req));
+            return client.get().create(random_word, clock::steady_clock_now(), std::move(req));
         }
         , std::move(client_rv)
         , std::move(request_rv))
-- 
2.43.0


From fe90b3ef2925a8812950e17ef648a48e28e411c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 30/31] fix: parse STUN attributes without copying the list for
 each of them

The fold over the raw attributes returned a copy of the vector collected so
far for every attribute, so a 64 KB datagram of 16000 empty attributes took
seconds to parse. Move the vector on instead.
---
 src/stun/stun_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 4970ab7..3242aad 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -322,7 +322,7 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
         return Attribute::parse(attr_view, attr_type, stat)
             .fmap([&](Attribute::ParseResult&& attr) {
                 result.emplace_back(std::move(attr));
-                return result;
+                return std::move(result);
             });
     }).fmap([&](Result&& attrs) {
         return ParseAttrsResult {
-- 
2.43.0


From dc2a2f2d8002dea052eedeec780a8d8a606c427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:44 +0000
Subject: [PATCH 31/31] fix: compare text without regard to case independently
 of the locale

---
 src/abnf/abnf.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/abnf/abnf.hpp b/src/abnf/abnf.hpp
index 72fb84e..479ffad 100644
--- a/src/abnf/abnf.hpp
+++ b/src/abnf/abnf.hpp
@@ -10,7 +10,6 @@
 #pragma once
 
 #include <string_view>
-#include <cctype>
 
 namespace freewebrtc::abnf {
 
@@ -18,6 +17,7 @@ namespace freewebrtc::abnf {
 bool is_ALPHA(char c);
 // DIGIT  =  %x30-39
 bool is_DIGIT(char c);
+char to_lower(char c);
 
 // 2.3.  Terminal Values
 // ABNF strings are case insensitive and the character set for these
@@ -36,12 +36,16 @@ inline bool is_DIGIT(char c) {
     return 0x30 <= c && c <= 0x39;
 }
 
+inline char to_lower(char c) {
+    return (0x41 <= c && c <= 0x5a) ? static_cast<char>(c + 0x20) : c;
+}
+
 inline bool eq_string(std::string_view v1, std::string_view v2) {
     if (v1.size() != v2.size()) {
         return false;
     }
     for (std::string_view::size_type i = 0; i < v1.size(); ++i) {
-        if (std::tolower(v1[i]) != std::tolower(v2[i])) {
+        if (to_lower(v1[i]) != to_lower(v2[i])) {
             return false;
         }
     }
-- 
2.43.0

