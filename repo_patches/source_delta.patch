From 4ec7126b603f54f25eaeaa3f7ec40a24c63c1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 01/44] verif: derive Clone/Debug on connection state under
 cfg(mqtt_verif)

Hooks for the out-of-tree model checker; off in every normal build.
---
 src/lib.rs                               | 2 ++
 src/mqtt/common/value_allocator.rs       | 1 +
 src/mqtt/connection/core.rs              | 1 +
 src/mqtt/connection/packet_builder.rs    | 1 +
 src/mqtt/connection/packet_id_manager.rs | 1 +
 src/mqtt/connection/role.rs              | 3 +++
 src/mqtt/connection/store.rs             | 1 +
 src/mqtt/packet/topic_alias_recv.rs      | 1 +
 src/mqtt/packet/topic_alias_send.rs      | 1 +
 9 files changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f72a3b9..cc201e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![cfg_attr(not(feature = "std"), no_std)]
+// `mqtt_verif` is set (RUSTFLAGS="--cfg mqtt_verif") only by the verification harness.
+#![allow(unexpected_cfgs)]
 
 //! # MQTT Protocol Core
 //!
diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 7c22238..41fe46c 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -74,6 +74,7 @@ impl<T: PrimInt> Ord for ValueInterval<T> {
 }
 
 #[derive(Clone)]
+#[cfg_attr(mqtt_verif, derive(Debug))]
 pub struct ValueAllocator<T>
 where
     T: PrimInt + One + Debug,
diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 75f227e..4158f5d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -136,6 +136,7 @@ pub type Event = GenericEvent<u16>;
 /// let events = connection.recv(&mut cursor);
 /// // Process events...
 /// ```
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct GenericConnection<Role, PacketIdType>
 where
     Role: RoleType,
diff --git a/src/mqtt/connection/packet_builder.rs b/src/mqtt/connection/packet_builder.rs
index a4265a9..ce1b036 100644
--- a/src/mqtt/connection/packet_builder.rs
+++ b/src/mqtt/connection/packet_builder.rs
@@ -90,6 +90,7 @@ pub enum PacketBuildResult {
 }
 
 /// Builder for constructing MQTT packet byte sequences
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct PacketBuilder {
     /// Current read state
     state: ReadState,
diff --git a/src/mqtt/connection/packet_id_manager.rs b/src/mqtt/connection/packet_id_manager.rs
index 738dac3..284d2db 100644
--- a/src/mqtt/connection/packet_id_manager.rs
+++ b/src/mqtt/connection/packet_id_manager.rs
@@ -24,6 +24,7 @@ use crate::mqtt::packet::IsPacketId;
 use crate::mqtt::result_code::MqttError;
 use crate::mqtt::ValueAllocator;
 
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct PacketIdManager<T>
 where
     T: IsPacketId,
diff --git a/src/mqtt/connection/role.rs b/src/mqtt/connection/role.rs
index a349b41..5a51f6c 100644
--- a/src/mqtt/connection/role.rs
+++ b/src/mqtt/connection/role.rs
@@ -118,6 +118,7 @@ pub trait RoleType: 'static {
 /// assert_eq!(mqtt::connection::Client::IS_CLIENT, true);
 /// assert_eq!(mqtt::connection::Client::IS_SERVER, false);
 /// ```
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct Client;
 
 /// MQTT Server/Broker role type
@@ -154,6 +155,7 @@ pub struct Client;
 /// assert_eq!(mqtt::connection::Server::IS_CLIENT, false);
 /// assert_eq!(mqtt::connection::Server::IS_SERVER, true);
 /// ```
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct Server;
 
 /// Generic MQTT role type
@@ -188,6 +190,7 @@ pub struct Server;
 /// assert_eq!(mqtt::connection::Any::IS_SERVER, false);
 /// assert_eq!(mqtt::connection::Any::IS_ANY, true);
 /// ```
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct Any;
 
 /// Implementation of `RoleType` for `Client`
diff --git a/src/mqtt/connection/store.rs b/src/mqtt/connection/store.rs
index afb0106..d956d4e 100644
--- a/src/mqtt/connection/store.rs
+++ b/src/mqtt/connection/store.rs
@@ -29,6 +29,7 @@ use crate::mqtt::result_code::MqttError;
 use alloc::vec::Vec;
 
 /// A store that holds packets in insertion order and allows O(1) insert/remove by id.
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct GenericStore<PacketIdType: IsPacketId> {
     map: IndexMap<PacketIdType, GenericStorePacket<PacketIdType>>,
 }
diff --git a/src/mqtt/packet/topic_alias_recv.rs b/src/mqtt/packet/topic_alias_recv.rs
index ce67523..b71c740 100644
--- a/src/mqtt/packet/topic_alias_recv.rs
+++ b/src/mqtt/packet/topic_alias_recv.rs
@@ -33,6 +33,7 @@ pub type TopicAliasType = u16;
 ///
 /// This manages the mapping between numeric aliases and topic names for incoming
 /// MQTT PUBLISH packets to reduce packet size for frequently used topics.
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct TopicAliasRecv {
     max_alias: TopicAliasType,
     aliases: HashMap<TopicAliasType, String>,
diff --git a/src/mqtt/packet/topic_alias_send.rs b/src/mqtt/packet/topic_alias_send.rs
index 73b479c..b37e894 100644
--- a/src/mqtt/packet/topic_alias_send.rs
+++ b/src/mqtt/packet/topic_alias_send.rs
@@ -39,6 +39,7 @@ pub type TopicAliasType = u16;
 /// MQTT PUBLISH packets to reduce packet size for frequently used topics.
 ///
 /// According to MQTT v5.0 specification, one topic can have multiple aliases.
+#[cfg_attr(mqtt_verif, derive(Clone, Debug))]
 pub struct TopicAliasSend {
     max_alias: TopicAliasType,
     // alias -> topic mapping with insertion order preserved
-- 
2.43.0


From 4381d35ffe09ae414db220e9316ccddaabfa0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 02/44] fix: discard a partially received frame when the
 transport is closed

---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 4158f5d..74112a2 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -732,6 +732,9 @@ where
         // Set status to disconnected
         self.status = ConnectionStatus::Disconnected;
 
+        // Discard a partially received frame. It belongs to the closed transport
+        self.packet_builder.reset();
+
         // Clear topic alias management
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
-- 
2.43.0


From 8ad15916ca8f32b274c9984c576b29687fb335a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 03/44] fix: accept Topic Alias Maximum 0 in a received CONNECT
 without panicking

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 74112a2..d24ba03 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2619,7 +2619,7 @@ where
                     self.clear_store_related();
                 }
                 packet.props().iter().for_each(|prop| match prop {
-                    Property::TopicAliasMaximum(p) => {
+                    Property::TopicAliasMaximum(p) if p.val() != 0 => {
                         self.topic_alias_send = Some(TopicAliasSend::new(p.val()));
                     }
                     Property::ReceiveMaximum(p) => {
-- 
2.43.0


From 0f3e29586c0c95cbda5259c190521692cbddc713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 04/44] fix: do not carry receive maximum and keep alive values
 over to the next connection

---
 src/mqtt/connection/core.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d24ba03..68cb6c9 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -739,6 +739,12 @@ where
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
 
+        // Clear flow control state
+        self.publish_send_max = None;
+        self.publish_recv_max = None;
+        self.publish_send_count = 0;
+        self.publish_recv.clear();
+
         // Release packet IDs for SUBACK
         for packet_id in self.pid_suback.drain() {
             if self.pid_man.is_used_id(packet_id) {
@@ -1230,6 +1236,7 @@ where
         self.is_client = is_client;
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
     }
 
     fn clear_store_related(&mut self) {
-- 
2.43.0


From ec9f50b2038ed470b55118f22950734b05b60330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 05/44] fix: clear the store when a connection without session
 state is closed

---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 68cb6c9..ba74a64 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -788,6 +788,9 @@ where
                     events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 }
             }
+
+            // The packet IDs of the stored packets have been released above
+            self.store.clear();
         }
 
         // Cancel all timers
-- 
2.43.0


From 652a79f947e9a7b6d3dafb3260b38934749d5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 06/44] fix: forget handled QoS2 packet ids when a new session
 starts

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index ba74a64..490be6f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1248,6 +1248,7 @@ where
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
         self.store.clear();
+        self.qos2_publish_handled.clear();
     }
 
     /// Send all stored packets for retransmission
-- 
2.43.0


From 1f78934eb2f9edd36b757242b092dcbcd3bdb300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 07/44] fix: treat CONNACK on an established connection as a
 protocol error

---
 src/mqtt/connection/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 490be6f..f952aec 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2677,6 +2677,10 @@ where
         raw_packet: RawPacket,
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        if self.status == ConnectionStatus::Connected {
+            Self::handle_v3_1_1_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
 
         match v3_1_1::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
@@ -2705,6 +2709,10 @@ where
         raw_packet: RawPacket,
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        if self.status == ConnectionStatus::Connected {
+            self.handle_v5_0_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
 
         match v5_0::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
-- 
2.43.0


From 9b71c931987e4346d0605f9d1603c1e3f72bfdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 08/44] fix: never accept a QoS1/QoS2 PUBLISH that is neither
 sent nor stored

---
 src/mqtt/connection/core.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f952aec..5d70fe7 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1325,6 +1325,15 @@ where
     }
 
     /// Process v3.1.1 CONNECT packet - C++ constexpr if implementation
+    /// Check whether a QoS1 or QoS2 PUBLISH packet is stored in the current state
+    fn is_publish_storable(&self) -> bool {
+        match self.status {
+            ConnectionStatus::Connected => self.need_store,
+            ConnectionStatus::Connecting => self.need_store || self.offline_publish,
+            ConnectionStatus::Disconnected => self.offline_publish,
+        }
+    }
+
     pub(crate) fn process_send_v3_1_1_connect(
         &mut self,
         packet: v3_1_1::Connect,
@@ -1529,10 +1538,8 @@ where
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             // Register packet ID for QoS 1 or 2
             let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
-            {
+            let storable = self.is_publish_storable();
+            if self.status != ConnectionStatus::Connected && !storable {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
                     self.pid_man.release_id(packet_id);
@@ -1547,9 +1554,7 @@ where
                 ));
                 return events;
             }
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if storable {
                 let store_packet = packet.clone().set_dup(true);
                 self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
@@ -1589,10 +1594,8 @@ where
         let mut topic_alias_validated = false;
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
-            {
+            let storable = self.is_publish_storable();
+            if self.status != ConnectionStatus::Connected && !storable {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
                     self.pid_man.release_id(packet_id);
@@ -1610,9 +1613,7 @@ where
                 return events;
             }
 
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if storable {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
                     // Topic name is empty, must validate topic alias
-- 
2.43.0


From a0a062c02f7500040a4d06a22cf55070bad3b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 09/44] fix: count retransmitted packets for the receive
 maximum of the peer

---
 src/mqtt/connection/core.rs | 38 ++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 5d70fe7..e3bdd0f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -175,7 +175,7 @@ where
     publish_recv_max: Option<u16>,
     // Maximum number of concurrent PUBLISH packets for sending
     // Current count of PUBLISH packets being sent
-    publish_send_count: u16,
+    publish_send_count: usize,
 
     // Set of received PUBLISH packets (for flow control)
     publish_recv: HashSet<PacketIdType>,
@@ -854,7 +854,7 @@ where
     pub fn get_receive_maximum_vacancy_for_send(&self) -> Option<u16> {
         // If publish_recv_max is set, return the remaining capacity
         self.publish_send_max
-            .map(|max| max.saturating_sub(self.publish_send_count))
+            .map(|max| (max as usize).saturating_sub(self.publish_send_count) as u16)
     }
 
     /// Enable or disable offline publishing
@@ -1158,9 +1158,7 @@ where
             self.pid_pubrec.remove(&packet_id);
 
             // For V5.0, decrement publish send count if flow control is enabled
-            if self.publish_send_max.is_some() && self.publish_send_count > 0 {
-                self.publish_send_count -= 1;
-            }
+            self.decrement_publish_send_count();
 
             // Release the packet ID if it's managed
             if self.pid_man.is_used_id(packet_id) {
@@ -1254,13 +1252,21 @@ where
     /// Send all stored packets for retransmission
     fn send_stored(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
+        // Every resent packet is an incomplete exchange of this connection
+        self.publish_send_count = 0;
         self.store.for_each(|packet| {
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+                self.pid_pubcomp.remove(&packet_id);
                 self.pid_man.release_id(packet_id);
                 events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 return false; // Remove from store
             }
+            if self.publish_send_max.is_some() {
+                self.publish_send_count += 1;
+            }
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
@@ -1282,6 +1288,12 @@ where
     /// # Returns
     /// * `Some(topic_name)` if the topic alias is valid and found
     /// * `None` if the topic alias is invalid, not provided, or not found
+    fn decrement_publish_send_count(&mut self) {
+        if self.publish_send_max.is_some() {
+            self.publish_send_count = self.publish_send_count.saturating_sub(1);
+        }
+    }
+
     fn validate_topic_alias(&mut self, topic_alias_opt: Option<u16>) -> Option<String> {
         let topic_alias = topic_alias_opt?;
 
@@ -1726,7 +1738,9 @@ where
         // Check receive_maximum for sending (QoS 1 and 2 packets)
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             if let Some(max) = self.publish_send_max {
-                if self.publish_send_count == max {
+                if self.status == ConnectionStatus::Connected
+                    && self.publish_send_count >= max as usize
+                {
                     events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
                     if let Some(packet_id) = packet_id_opt {
                         if self.pid_man.is_used_id(packet_id) {
@@ -3066,9 +3080,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.decrement_publish_send_count();
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
@@ -3140,9 +3152,7 @@ where
                             self.pid_man.release_id(packet_id);
                             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                         }
-                        if self.publish_send_max.is_some() {
-                            self.publish_send_count -= 1;
-                        }
+                        self.decrement_publish_send_count();
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
@@ -3270,9 +3280,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.decrement_publish_send_count();
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
-- 
2.43.0


From 9ebcad8706d8b63feb1c3f65b594ae2d12b27980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 10/44] fix: report a value outside of the range as not used

---
 src/mqtt/common/value_allocator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 41fe46c..0b9948d 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -168,7 +168,9 @@ where
     }
 
     pub fn is_used(&self, value: T) -> bool {
-        !self.pool.iter().any(|iv| iv.contains(value))
+        self.lowest <= value
+            && value <= self.highest
+            && !self.pool.iter().any(|iv| iv.contains(value))
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 33d917defe9646944a1008e15e2af97a9b59def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 11/44] fix: releasing the free maximum value must not overflow

---
 src/mqtt/common/value_allocator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 0b9948d..84b8e1f 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -118,6 +118,9 @@ where
 
     pub fn deallocate(&mut self, value: T) {
         assert!(self.lowest <= value && value <= self.highest);
+        if !self.is_used(value) {
+            return;
+        }
 
         let right = self
             .pool
-- 
2.43.0


From 8549d90b57467dc29855e2507589445f6f1a4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 12/44] fix: end the exchange that owns a packet id when the id
 is released

---
 src/mqtt/connection/core.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index e3bdd0f..70d9215 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -980,6 +980,15 @@ where
         let mut events = Vec::new();
 
         if self.pid_man.is_used_id(packet_id) {
+            // The exchange that owns the packet ID ends here, e.g. on send error
+            self.pid_suback.remove(&packet_id);
+            self.pid_unsuback.remove(&packet_id);
+            let puback = self.pid_puback.remove(&packet_id);
+            let pubrec = self.pid_pubrec.remove(&packet_id);
+            let pubcomp = self.pid_pubcomp.remove(&packet_id);
+            if puback || pubrec || pubcomp {
+                self.decrement_publish_send_count();
+            }
             self.pid_man.release_id(packet_id);
             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
         }
-- 
2.43.0


From 0fd1c2432359565b6650fe43bea40b8dda2ff8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 13/44] fix: continue the QoS2 exchange on every PUBREC reason
 code that is not a failure

---
 src/mqtt/connection/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 70d9215..84176de 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -61,7 +61,7 @@ use crate::mqtt::packet::ResponsePacket;
 use crate::mqtt::packet::{Property, TopicAliasRecv, TopicAliasSend};
 use crate::mqtt::prelude::GenericPacketTrait;
 use crate::mqtt::result_code::{
-    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError, PubrecReasonCode,
+    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError,
 };
 
 /// MQTT protocol maximum packet size limit
@@ -3147,8 +3147,8 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
-                    let reason_code = packet.reason_code();
-                    if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                    let refused = packet.reason_code().is_some_and(|rc| rc.is_failure());
+                    if !refused {
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
-- 
2.43.0


From c6fe19e7df8d5539a920ae4b09460e3341ae86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 14/44] fix: expect PUBCOMP for a PUBREL stored while not
 connected

---
 src/mqtt/connection/core.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 84176de..f5673ae 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1883,17 +1883,18 @@ where
             return events;
         }
         if self.need_store {
-            self.store.add(packet.clone().try_into().unwrap()).unwrap();
+            // Already stored if the application sends PUBREL again
+            let _ = self.store.add(packet.clone().try_into().unwrap());
         }
+        self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -1919,17 +1920,18 @@ where
             return events;
         }
         if self.need_store {
-            self.store.add(packet.clone().try_into().unwrap()).unwrap();
+            // Already stored if the application sends PUBREL again
+            let _ = self.store.add(packet.clone().try_into().unwrap());
         }
+        self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
-- 
2.43.0


From ccaad33be9f8840d5826b9afd3fd9bc97047ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 15/44] fix: keep a QoS2 exchange in the session between PUBREC
 and PUBREL

---
 src/mqtt/connection/core.rs  | 58 ++++++++++++++++++++++++++++--------
 src/mqtt/connection/store.rs |  5 ++++
 2 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f5673ae..9b6ee83 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -151,6 +151,8 @@ where
     pid_unsuback: HashSet<PacketIdType>,
     pid_puback: HashSet<PacketIdType>,
     pid_pubrec: HashSet<PacketIdType>,
+    // PUBREC has been received but PUBREL has not been sent yet
+    pid_pubrel: HashSet<PacketIdType>,
     pid_pubcomp: HashSet<PacketIdType>,
 
     need_store: bool,
@@ -261,6 +263,7 @@ where
             pid_unsuback: HashSet::default(),
             pid_puback: HashSet::default(),
             pid_pubrec: HashSet::default(),
+            pid_pubrel: HashSet::default(),
             pid_pubcomp: HashSet::default(),
             need_store: false,
             store: GenericStore::new(),
@@ -781,6 +784,14 @@ where
                 }
             }
 
+            // Release packet IDs for PUBREL
+            for packet_id in self.pid_pubrel.drain() {
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
+            }
+
             // Release packet IDs for PUBCOMP
             for packet_id in self.pid_pubcomp.drain() {
                 if self.pid_man.is_used_id(packet_id) {
@@ -985,8 +996,9 @@ where
             self.pid_unsuback.remove(&packet_id);
             let puback = self.pid_puback.remove(&packet_id);
             let pubrec = self.pid_pubrec.remove(&packet_id);
+            let pubrel = self.pid_pubrel.remove(&packet_id);
             let pubcomp = self.pid_pubcomp.remove(&packet_id);
-            if puback || pubrec || pubcomp {
+            if puback || pubrec || pubrel || pubcomp {
                 self.decrement_publish_send_count();
             }
             self.pid_man.release_id(packet_id);
@@ -1253,6 +1265,7 @@ where
         self.pid_man.clear();
         self.pid_puback.clear();
         self.pid_pubrec.clear();
+        self.pid_pubrel.clear();
         self.pid_pubcomp.clear();
         self.store.clear();
         self.qos2_publish_handled.clear();
@@ -1268,6 +1281,7 @@ where
                 let packet_id = packet.packet_id();
                 self.pid_puback.remove(&packet_id);
                 self.pid_pubrec.remove(&packet_id);
+                self.pid_pubrel.remove(&packet_id);
                 self.pid_pubcomp.remove(&packet_id);
                 self.pid_man.release_id(packet_id);
                 events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
@@ -1276,6 +1290,10 @@ where
             if self.publish_send_max.is_some() {
                 self.publish_send_count += 1;
             }
+            let packet_id = packet.packet_id();
+            if self.pid_pubrel.remove(&packet_id) {
+                self.pid_pubcomp.insert(packet_id);
+            }
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
@@ -1883,9 +1901,10 @@ where
             return events;
         }
         if self.need_store {
-            // Already stored if the application sends PUBREL again
-            let _ = self.store.add(packet.clone().try_into().unwrap());
+            self.store
+                .add_or_update(packet.clone().try_into().unwrap());
         }
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
@@ -1920,9 +1939,10 @@ where
             return events;
         }
         if self.need_store {
-            // Already stored if the application sends PUBREL again
-            let _ = self.store.add(packet.clone().try_into().unwrap());
+            self.store
+                .add_or_update(packet.clone().try_into().unwrap());
         }
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
 
         if self.status == ConnectionStatus::Connected {
@@ -3117,11 +3137,17 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
+                    let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
+                        .packet_id(packet_id)
+                        .build()
+                        .unwrap();
+                    self.pid_pubrel.insert(packet_id);
+                    if self.need_store {
+                        // The exchange is a part of the session until PUBCOMP is received
+                        self.store
+                            .add_or_update(pubrel.clone().try_into().unwrap());
+                    }
                     if self.auto_pub_response && self.status == ConnectionStatus::Connected {
-                        let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
-                            .packet_id(packet_id)
-                            .build()
-                            .unwrap();
                         events.extend(self.process_send_v3_1_1_pubrel(pubrel));
                     }
                     events.extend(self.refresh_pingreq_recv());
@@ -3151,11 +3177,17 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let refused = packet.reason_code().is_some_and(|rc| rc.is_failure());
                     if !refused {
+                        let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
+                            .packet_id(packet_id)
+                            .build()
+                            .unwrap();
+                        self.pid_pubrel.insert(packet_id);
+                        if self.need_store {
+                            // The exchange is a part of the session until PUBCOMP is received
+                            self.store
+                                .add_or_update(pubrel.clone().try_into().unwrap());
+                        }
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
-                            let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
-                                .packet_id(packet_id)
-                                .build()
-                                .unwrap();
                             events.extend(self.process_send_v5_0_pubrel(pubrel));
                         }
                     } else {
diff --git a/src/mqtt/connection/store.rs b/src/mqtt/connection/store.rs
index d956d4e..57d3de8 100644
--- a/src/mqtt/connection/store.rs
+++ b/src/mqtt/connection/store.rs
@@ -55,6 +55,11 @@ impl<PacketIdType: IsPacketId> GenericStore<PacketIdType> {
         Ok(())
     }
 
+    /// Add a packet to the store, or replace the packet that has the same id in place.
+    pub fn add_or_update(&mut self, packet: GenericStorePacket<PacketIdType>) {
+        self.map.insert(packet.packet_id(), packet);
+    }
+
     /// Erase a packet by its response type and packet id.
     /// Returns true if removed, false otherwise.
     pub fn erase(&mut self, response: ResponsePacket, packet_id: PacketIdType) -> bool {
-- 
2.43.0


From 7c6c3bb1cceed8062d1c65a581e414da6195bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 16/44] fix: a server that reports no session present must not
 resend the stored packets

---
 src/mqtt/connection/core.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9b6ee83..e51f662 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1269,6 +1269,7 @@ where
         self.pid_pubcomp.clear();
         self.store.clear();
         self.qos2_publish_handled.clear();
+        self.publish_send_count = 0;
     }
 
     /// Send all stored packets for retransmission
@@ -1474,6 +1475,7 @@ where
         }
         let mut events = Vec::new();
         let rc = packet.return_code();
+        let session_present = packet.session_present();
         events.push(GenericEvent::RequestSendPacket {
             packet: packet.into(),
             release_packet_id_if_send_error: None,
@@ -1486,7 +1488,11 @@ where
         }
 
         self.status = ConnectionStatus::Connected;
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -1506,6 +1512,7 @@ where
 
         let mut events = Vec::new();
         let rc = packet.reason_code();
+        let session_present = packet.session_present();
         if rc == ConnectReasonCode::Success {
             // Process properties
             for prop in packet.props() {
@@ -1561,7 +1568,11 @@ where
 
         self.status = ConnectionStatus::Connected;
 
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -1901,8 +1912,7 @@ where
             return events;
         }
         if self.need_store {
-            self.store
-                .add_or_update(packet.clone().try_into().unwrap());
+            self.store.add_or_update(packet.clone().try_into().unwrap());
         }
         self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
@@ -1939,8 +1949,7 @@ where
             return events;
         }
         if self.need_store {
-            self.store
-                .add_or_update(packet.clone().try_into().unwrap());
+            self.store.add_or_update(packet.clone().try_into().unwrap());
         }
         self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
@@ -3144,8 +3153,7 @@ where
                     self.pid_pubrel.insert(packet_id);
                     if self.need_store {
                         // The exchange is a part of the session until PUBCOMP is received
-                        self.store
-                            .add_or_update(pubrel.clone().try_into().unwrap());
+                        self.store.add_or_update(pubrel.clone().try_into().unwrap());
                     }
                     if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                         events.extend(self.process_send_v3_1_1_pubrel(pubrel));
@@ -3184,8 +3192,7 @@ where
                         self.pid_pubrel.insert(packet_id);
                         if self.need_store {
                             // The exchange is a part of the session until PUBCOMP is received
-                            self.store
-                                .add_or_update(pubrel.clone().try_into().unwrap());
+                            self.store.add_or_update(pubrel.clone().try_into().unwrap());
                         }
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             events.extend(self.process_send_v5_0_pubrel(pubrel));
-- 
2.43.0


From ce312d3bf7f73129ab8bc2d876eb78ece80f48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 17/44] fix: Session Expiry Interval 0 in CONNACK must not drop
 the present session

---
 src/mqtt/connection/core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index e51f662..6d141af 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2773,6 +2773,7 @@ where
             Ok((packet, _consumed)) => {
                 if packet.reason_code() == ConnectReasonCode::Success {
                     self.status = ConnectionStatus::Connected;
+                    let mut session_ends_on_close = false;
 
                     // Process properties
                     for prop in packet.props() {
@@ -2812,12 +2813,8 @@ where
                                 }
                             }
                             Property::SessionExpiryInterval(val) => {
-                                if val.val() == 0 {
-                                    self.need_store = false;
-                                    self.clear_store_related();
-                                } else {
-                                    self.need_store = true;
-                                }
+                                self.need_store = val.val() != 0;
+                                session_ends_on_close = val.val() == 0;
                             }
                             _ => {
                                 // Ignore other properties
@@ -2827,6 +2824,9 @@ where
 
                     if packet.session_present() {
                         events.extend(self.send_stored());
+                        if session_ends_on_close {
+                            self.store.clear();
+                        }
                     } else {
                         self.clear_store_related();
                     }
-- 
2.43.0


From 2121697de7ec741b8630c9b4b74b6c36c90a9d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 18/44] fix: honour the Session Expiry Interval that the server
 sends in CONNACK

---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 6d141af..d7f9a4f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1530,6 +1530,9 @@ where
                         debug_assert!(val.val() != 0, "MaximumPacketSize must not be 0");
                         self.maximum_packet_size_recv = val.val();
                     }
+                    Property::SessionExpiryInterval(val) => {
+                        self.need_store = val.val() != 0;
+                    }
                     Property::ServerKeepAlive(val) => {
                         let val = val.val();
                         if val == 0 {
-- 
2.43.0


From 2df621a2e983d4dcc1506fe9768bf9645b492acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 19/44] fix: report a QoS2 duplicate that cannot be answered
 instead of swallowing it

---
 src/mqtt/connection/core.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d7f9a4f..bcbf9cb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2885,8 +2885,9 @@ where
                                 let packet_id = packet.packet_id().unwrap();
                                 let already_handled = !self.qos2_publish_handled.insert(packet_id);
 
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
+                                if already_handled
+                                    || (self.auto_pub_response
+                                        && self.status == ConnectionStatus::Connected)
                                 {
                                     let pubrec = v3_1_1::GenericPubrec::builder()
                                         .packet_id(packet_id)
@@ -2966,8 +2967,9 @@ where
                                 if !self.qos2_publish_handled.insert(packet_id) {
                                     already_handled = true;
                                 }
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
+                                if already_handled
+                                    || (self.auto_pub_response
+                                        && self.status == ConnectionStatus::Connected)
                                 {
                                     pubrec_send = true;
                                 }
-- 
2.43.0


From 07a71e9aac7755010b3cf84190bfb1ac6f25fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 20/44] fix: record the packet id of a received PUBLISH only
 after its topic alias is validated

---
 src/mqtt/connection/core.rs | 98 ++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index bcbf9cb..2cd31ec 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2930,55 +2930,6 @@ where
                         let mut puback_send = false;
                         let mut pubrec_send = false;
 
-                        let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
-                                if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
-                                        self.handle_v5_0_error(
-                                            MqttError::ReceiveMaximumExceeded,
-                                            events,
-                                        );
-                                        return false;
-                                    }
-                                }
-                                true
-                            };
-
-                        match packet.qos() {
-                            Qos::AtLeastOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-                                if self.auto_pub_response
-                                    && self.status == ConnectionStatus::Connected
-                                {
-                                    puback_send = true;
-                                }
-                            }
-                            Qos::ExactlyOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-
-                                if !self.qos2_publish_handled.insert(packet_id) {
-                                    already_handled = true;
-                                }
-                                if already_handled
-                                    || (self.auto_pub_response
-                                        && self.status == ConnectionStatus::Connected)
-                                {
-                                    pubrec_send = true;
-                                }
-                            }
-                            Qos::AtMostOnce => {
-                                // No packet ID handling for QoS 0
-                            }
-                        }
-
                         // Topic Alias handling
                         if packet.topic_name().is_empty() {
                             // Extract topic from topic_alias
@@ -3040,6 +2991,55 @@ where
                             }
                         }
 
+                        let mut check_receive_maximum =
+                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
+                                if let Some(max) = self.publish_recv_max {
+                                    if self.publish_recv.len() >= max as usize {
+                                        self.handle_v5_0_error(
+                                            MqttError::ReceiveMaximumExceeded,
+                                            events,
+                                        );
+                                        return false;
+                                    }
+                                }
+                                true
+                            };
+
+                        match packet.qos() {
+                            Qos::AtLeastOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                if !check_receive_maximum(&mut events) {
+                                    return events;
+                                }
+                                self.publish_recv.insert(packet_id);
+                                if self.auto_pub_response
+                                    && self.status == ConnectionStatus::Connected
+                                {
+                                    puback_send = true;
+                                }
+                            }
+                            Qos::ExactlyOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                if !check_receive_maximum(&mut events) {
+                                    return events;
+                                }
+                                self.publish_recv.insert(packet_id);
+
+                                if !self.qos2_publish_handled.insert(packet_id) {
+                                    already_handled = true;
+                                }
+                                if already_handled
+                                    || (self.auto_pub_response
+                                        && self.status == ConnectionStatus::Connected)
+                                {
+                                    pubrec_send = true;
+                                }
+                            }
+                            Qos::AtMostOnce => {
+                                // No packet ID handling for QoS 0
+                            }
+                        }
+
                         // Send response packets
                         if puback_send {
                             let puback = v5_0::GenericPuback::builder()
-- 
2.43.0


From a962cd7565b10fce81a9fe1de495f7f981342fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 21/44] fix: a retransmitted PUBLISH does not consume the
 receive maximum again

---
 src/mqtt/connection/core.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2cd31ec..e1ab4cd 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2992,9 +2992,12 @@ where
                         }
 
                         let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
+                            |packet_id: PacketIdType,
+                             events: &mut Vec<GenericEvent<PacketIdType>>| {
                                 if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
+                                    if self.publish_recv.len() >= max as usize
+                                        && !self.publish_recv.contains(&packet_id)
+                                    {
                                         self.handle_v5_0_error(
                                             MqttError::ReceiveMaximumExceeded,
                                             events,
@@ -3008,7 +3011,7 @@ where
                         match packet.qos() {
                             Qos::AtLeastOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
+                                if !check_receive_maximum(packet_id, &mut events) {
                                     return events;
                                 }
                                 self.publish_recv.insert(packet_id);
@@ -3020,7 +3023,7 @@ where
                             }
                             Qos::ExactlyOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
+                                if !check_receive_maximum(packet_id, &mut events) {
                                     return events;
                                 }
                                 self.publish_recv.insert(packet_id);
-- 
2.43.0


From efa42e2e69154f820f7c007361274a4a6443449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 22/44] fix: do not track a restored packet that is skipped
 because its id is in use

---
 src/mqtt/connection/core.rs | 54 +++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index e1ab4cd..8b5480f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1044,23 +1044,20 @@ where
         for packet in packets {
             match &packet {
                 GenericStorePacket::V3_1_1Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    // QoS 0 shouldn't be in store, but handle gracefully
+                    if p.qos() == Qos::AtMostOnce {
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if p.qos() == Qos::AtLeastOnce {
+                            self.pid_puback.insert(packet_id);
+                        } else {
+                            self.pid_pubrec.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1069,23 +1066,20 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    // QoS 0 shouldn't be in store, but handle gracefully
+                    if p.qos() == Qos::AtMostOnce {
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if p.qos() == Qos::AtLeastOnce {
+                            self.pid_puback.insert(packet_id);
+                        } else {
+                            self.pid_pubrec.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1094,11 +1088,11 @@ where
                     }
                 }
                 GenericStorePacket::V3_1_1Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1107,11 +1101,11 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
-- 
2.43.0


From 125ff46f689325b4f8939d3d07fc6991d2669e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 23/44] fix: release the packet id of every refused PUBLISH,
 SUBSCRIBE and UNSUBSCRIBE

---
 src/mqtt/connection/core.rs | 41 +++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 8b5480f..d92a56c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -400,7 +400,16 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            let packet_id = match &packet {
+                GenericPacket::V3_1_1Publish(p) => p.packet_id(),
+                GenericPacket::V5_0Publish(p) => p.packet_id(),
+                GenericPacket::V3_1_1Subscribe(p) => Some(p.packet_id()),
+                GenericPacket::V5_0Subscribe(p) => Some(p.packet_id()),
+                GenericPacket::V3_1_1Unsubscribe(p) => Some(p.packet_id()),
+                GenericPacket::V5_0Unsubscribe(p) => Some(p.packet_id()),
+                _ => None,
+            };
+            return self.refuse_send(MqttError::VersionMismatch, packet_id);
         }
 
         match packet {
@@ -451,28 +460,28 @@ where
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Subscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V3_1_1Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             // SUBACK/UNSUBACK - Server/Any can send
@@ -1359,6 +1368,22 @@ where
     }
 
     /// Process v3.1.1 CONNECT packet - C++ constexpr if implementation
+    /// Report that a packet is not sent, and release the packet ID it carries
+    fn refuse_send(
+        &mut self,
+        e: MqttError,
+        packet_id: Option<PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let mut events = vec![GenericEvent::NotifyError(e)];
+        if let Some(packet_id) = packet_id {
+            if self.pid_man.is_used_id(packet_id) {
+                self.pid_man.release_id(packet_id);
+                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+            }
+        }
+        events
+    }
+
     /// Check whether a QoS1 or QoS2 PUBLISH packet is stored in the current state
     fn is_publish_storable(&self) -> bool {
         match self.status {
@@ -1633,7 +1658,7 @@ where
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, packet.packet_id());
         }
 
         let mut events = Vec::new();
@@ -2040,7 +2065,7 @@ where
         packet: v5_0::GenericSubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2146,7 +2171,7 @@ where
         packet: v5_0::GenericUnsubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
-- 
2.43.0


From 2d3814b24a222d35bee8fdd1b380bf947962cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 24/44] fix: bind a topic alias only when the PUBLISH that
 carries it is sent

---
 src/mqtt/connection/core.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d92a56c..6353ff7 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1685,6 +1685,15 @@ where
                 return events;
             }
 
+            // Check receive_maximum for sending before any state is updated
+            if let Some(max) = self.publish_send_max {
+                if self.status == ConnectionStatus::Connected
+                    && self.publish_send_count >= max as usize
+                {
+                    return self.refuse_send(MqttError::ReceiveMaximumExceeded, Some(packet_id));
+                }
+            }
+
             if storable {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
@@ -1748,8 +1757,11 @@ where
                     packet.topic_name(),
                     ta
                 );
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
-                    topic_alias_send.insert_or_update(packet.topic_name(), ta);
+                // The receiver learns the alias only if the packet is actually sent
+                if self.status == ConnectionStatus::Connected {
+                    if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                        topic_alias_send.insert_or_update(packet.topic_name(), ta);
+                    }
                 }
             } else {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
@@ -1795,24 +1807,9 @@ where
             }
         }
 
-        // Check receive_maximum for sending (QoS 1 and 2 packets)
+        // Count for receive_maximum (QoS 1 and 2 packets)
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            if let Some(max) = self.publish_send_max {
-                if self.status == ConnectionStatus::Connected
-                    && self.publish_send_count >= max as usize
-                {
-                    events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
-                    if let Some(packet_id) = packet_id_opt {
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            self.store.erase_publish(packet_id);
-                            self.pid_puback.remove(&packet_id);
-                            self.pid_pubrec.remove(&packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                    }
-                    return events;
-                }
+            if self.publish_send_max.is_some() {
                 self.publish_send_count += 1;
             }
         }
-- 
2.43.0


From 72e131e71a1fd981939d6e6e9b1c326364132231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 25/44] fix: automatic topic alias must not exceed the maximum
 packet size of the peer

---
 src/mqtt/connection/core.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 6353ff7..7b69366 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1786,11 +1786,18 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= self.maximum_packet_size_send as usize {
+                            packet = aliased;
+                        }
                     } else {
                         let lru_ta = topic_alias_send.get_lru_alias();
-                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
-                        packet = packet.add_topic_alias(lru_ta);
+                        let aliased = packet.clone().add_topic_alias(lru_ta);
+                        // Send as is if the alias doesn't fit in the limit of the peer
+                        if aliased.size() <= self.maximum_packet_size_send as usize {
+                            topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+                            packet = aliased;
+                        }
                     }
                 }
             } else if self.auto_replace_topic_alias_send {
@@ -1801,7 +1808,10 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= self.maximum_packet_size_send as usize {
+                            packet = aliased;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 646e9ab385ff736b1faf664f1c7b32d5fbbf3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 26/44] fix: do not arm the PINGREQ receive timer while
 disconnected

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 7b69366..2c77825 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3735,7 +3735,7 @@ where
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        if self.pingreq_recv_timeout_ms != 0 {
+        if self.pingreq_recv_timeout_ms != 0 && self.status != ConnectionStatus::Disconnected {
             self.pingreq_recv_set = true;
             events.push(GenericEvent::RequestTimerReset {
                 kind: TimerKind::PingreqRecv,
-- 
2.43.0


From 52c6814c4bcc96343c211a42991a18d647ed4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 27/44] fix: re-arm the PINGREQ send timer when stored packets
 are resent

---
 src/mqtt/connection/core.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2c77825..9d6954b 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2771,7 +2771,14 @@ where
                 if packet.return_code() == ConnectReturnCode::Accepted {
                     self.status = ConnectionStatus::Connected;
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        let stored_events = self.send_stored();
+                        let resent = stored_events
+                            .iter()
+                            .any(|e| matches!(e, GenericEvent::RequestSendPacket { .. }));
+                        events.extend(stored_events);
+                        if resent {
+                            self.send_post_process(&mut events);
+                        }
                     } else {
                         self.clear_store_related();
                     }
@@ -2852,7 +2859,14 @@ where
                     }
 
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        let stored_events = self.send_stored();
+                        let resent = stored_events
+                            .iter()
+                            .any(|e| matches!(e, GenericEvent::RequestSendPacket { .. }));
+                        events.extend(stored_events);
+                        if resent {
+                            self.send_post_process(&mut events);
+                        }
                         if session_ends_on_close {
                             self.store.clear();
                         }
-- 
2.43.0


From 14453edac5ce7bc5760f1edaa550784e9da4ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 28/44] fix: close the connection when the DISCONNECT exceeds
 the maximum packet size of the peer

---
 src/mqtt/connection/core.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9d6954b..d88a23d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -683,7 +683,7 @@ where
                                 .reason_code(DisconnectReasonCode::KeepAliveTimeout)
                                 .build()
                             {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
+                                events.extend(self.disconnect_v5_0(disconnect));
                             }
                         }
                     }
@@ -708,7 +708,7 @@ where
                                 .reason_code(DisconnectReasonCode::KeepAliveTimeout)
                                 .build()
                             {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
+                                events.extend(self.disconnect_v5_0(disconnect));
                             }
                         }
                     }
@@ -2379,6 +2379,21 @@ where
         events
     }
 
+    /// Disconnect on behalf of the library.
+    /// The connection is closed even if the peer can't receive the DISCONNECT packet.
+    fn disconnect_v5_0(&mut self, packet: v5_0::Disconnect) -> Vec<GenericEvent<PacketIdType>> {
+        if self.status == ConnectionStatus::Connected
+            && !self.validate_maximum_packet_size_send(packet.size())
+        {
+            let mut events = Vec::new();
+            self.status = ConnectionStatus::Disconnected;
+            self.cancel_timers(&mut events);
+            events.push(GenericEvent::RequestClose);
+            return events;
+        }
+        self.process_send_v5_0_disconnect(packet)
+    }
+
     pub(crate) fn process_send_v5_0_auth(
         &mut self,
         packet: v5_0::Auth,
@@ -2467,7 +2482,7 @@ where
                 .build()
                 .unwrap();
             // Send disconnect packet directly without generic constraints
-            events.extend(self.process_send_v5_0_disconnect(disconnect_packet));
+            events.extend(self.disconnect_v5_0(disconnect_packet));
             events.push(GenericEvent::NotifyError(MqttError::PacketTooLarge));
             return events;
         }
@@ -3743,7 +3758,7 @@ where
             .reason_code(e.into())
             .build()
             .unwrap();
-        events.extend(self.process_send_v5_0_disconnect(disconnect));
+        events.extend(self.disconnect_v5_0(disconnect));
         events.push(GenericEvent::NotifyError(e));
     }
 
-- 
2.43.0


From e2076a8f2bdbbaed8d268b0098fe0e219d6f9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 29/44] fix: reject more than one Subscription Identifier in
 SUBSCRIBE

---
 src/mqtt/packet/v5_0/subscribe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index ae98c80..e662926 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -867,12 +867,16 @@ where
 /// // This would be valid for SUBSCRIBE packets
 /// ```
 fn validate_subscribe_properties(props: &Properties) -> Result<(), MqttError> {
+    let mut count_subscription_identifier = 0;
     for prop in props {
         match prop {
-            Property::SubscriptionIdentifier(_) => {}
+            Property::SubscriptionIdentifier(_) => count_subscription_identifier += 1,
             Property::UserProperty(_) => {}
             _ => return Err(MqttError::ProtocolError),
         }
     }
+    if count_subscription_identifier > 1 {
+        return Err(MqttError::ProtocolError);
+    }
     Ok(())
 }
-- 
2.43.0


From 079cb4cce84b5922aeb53c61076bb81c4b83d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 30/44] fix: Remaining Length of v3.1.1 UNSUBACK with 32-bit
 packet identifiers

---
 src/mqtt/packet/v3_1_1/unsuback.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 70ca4b3..6ed7ad7 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -467,7 +467,8 @@ where
         self.validate()?;
 
         let packet_id_buf = self.packet_id_buf.unwrap();
-        let remaining_length = VariableByteInteger::from_u32(2).unwrap(); // packet_id(2)
+        let remaining_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
-- 
2.43.0


From e7516bc274f99ca5106345caac3c185f52c42a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 31/44] fix: reject PUBLISH with packet identifier 0

---
 src/mqtt/packet/v3_1_1/publish.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index e8075aa..4627424 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -644,6 +644,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6d38a21..2750f56 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -983,6 +983,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
-- 
2.43.0


From fcb4c4a5e6dd8d757786b0455a89fe6cc9df1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 32/44] fix: reject SUBSCRIBE, SUBACK, UNSUBSCRIBE and UNSUBACK
 with packet identifier 0

---
 src/mqtt/packet/v3_1_1/suback.rs      | 3 +++
 src/mqtt/packet/v3_1_1/subscribe.rs   | 3 +++
 src/mqtt/packet/v3_1_1/unsuback.rs    | 3 +++
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 3 +++
 src/mqtt/packet/v5_0/suback.rs        | 3 +++
 src/mqtt/packet/v5_0/subscribe.rs     | 3 +++
 src/mqtt/packet/v5_0/unsuback.rs      | 3 +++
 src/mqtt/packet/v5_0/unsubscribe.rs   | 3 +++
 8 files changed, 24 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 2ce652b..bb81490 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -322,6 +322,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index f9049ff..a440d7f 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -316,6 +316,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 6ed7ad7..ee1ac7b 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -349,6 +349,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1898c15..ee52a45 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -331,6 +331,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 1367aa0..528e3d2 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -366,6 +366,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index e662926..1baddd7 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -336,6 +336,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c63e7ee..c4ac22b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -361,6 +361,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 178f354..20b1f5e 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -347,6 +347,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
-- 
2.43.0


From 6fc56d9cd2ccfa9e2455fd30b3ee822358d983e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:58 +0000
Subject: [PATCH 33/44] fix: reject received PUBLISH whose topic name contains
 wildcards

---
 src/mqtt/packet/v3_1_1/publish.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 4627424..a617b22 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -627,6 +627,9 @@ where
         let mut cursor = 0;
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
+        if topic_name.as_str().contains('#') || topic_name.as_str().contains('+') {
+            return Err(MqttError::MalformedPacket);
+        }
         cursor += consumed;
 
         let qos = match qos_value {
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 2750f56..0fa2b8e 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -966,6 +966,9 @@ where
         let mut cursor = 0;
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
+        if topic_name.as_str().contains('#') || topic_name.as_str().contains('+') {
+            return Err(MqttError::MalformedPacket);
+        }
         cursor += consumed;
 
         let qos = match qos_value {
-- 
2.43.0


From 71f29018763989d35a8741cf5f0f69e55831fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 34/44] fix: reject reserved subscription option bits in v3.1.1
 SUBSCRIBE

---
 src/mqtt/packet/v3_1_1/subscribe.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index a440d7f..44df0c7 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -35,6 +35,7 @@ use getset::{CopyGetters, Getters};
 use crate::mqtt::packet::packet_type::{FixedHeader, PacketType};
 use crate::mqtt::packet::variable_byte_integer::VariableByteInteger;
 use crate::mqtt::packet::GenericPacketDisplay;
+use crate::mqtt::packet::RetainHandling;
 use crate::mqtt::packet::GenericPacketTrait;
 use crate::mqtt::packet::IsPacketId;
 use crate::mqtt::packet::SubEntry;
@@ -325,6 +326,7 @@ where
         let mut entries = Vec::new();
         while cursor < data.len() {
             let (entry, consumed) = SubEntry::parse(&data[cursor..])?;
+            validate_sub_opts(&entry)?;
             entries.push(entry);
             cursor += consumed;
         }
@@ -510,6 +512,9 @@ where
         if self.entries.as_ref().map_or(true, |e| e.is_empty()) {
             return Err(MqttError::ProtocolError);
         }
+        for entry in self.entries.iter().flatten() {
+            validate_sub_opts(entry)?;
+        }
 
         Ok(())
     }
@@ -746,3 +751,12 @@ where
         core::fmt::Display::fmt(self, f)
     }
 }
+
+/// Check the upper 6 bits of the requested QoS byte, they are reserved in MQTT v3.1.1
+fn validate_sub_opts(entry: &SubEntry) -> Result<(), MqttError> {
+    let opts = entry.sub_opts();
+    if opts.nl() || opts.rap() || opts.rh() != RetainHandling::SendRetained {
+        return Err(MqttError::MalformedPacket);
+    }
+    Ok(())
+}
-- 
2.43.0


From adb4d600a4e27aae0b4ba9d54511a77ebae0bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:23 +0000
Subject: [PATCH 35/44] fix: reject CONNECT with invalid connect flags

---
 src/mqtt/packet/v3_1_1/connect.rs | 12 ++++++++++++
 src/mqtt/packet/v5_0/connect.rs   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 3bb1dc2..efa3e76 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -560,6 +560,18 @@ impl Connect {
         let connect_flags_buf = [connect_flags];
         cursor += 1;
 
+        // The reserved bit must be 0
+        if (connect_flags & 0b0000_0001) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Will QoS must be 0, 1 or 2. Will QoS and Will Retain must be 0 without Will Flag
+        let will_bits = connect_flags & 0b0011_1000;
+        if (connect_flags & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && will_bits != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
+
         // Keep Alive
         if data.len() < cursor + 2 {
             return Err(MqttError::MalformedPacket);
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7a27792..8c14a60 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -590,6 +590,18 @@ impl Connect {
         let connect_flags_buf = [connect_flags];
         cursor += 1;
 
+        // The reserved bit must be 0
+        if (connect_flags & 0b0000_0001) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
+        // Will QoS must be 0, 1 or 2. Will QoS and Will Retain must be 0 without Will Flag
+        let will_bits = connect_flags & 0b0011_1000;
+        if (connect_flags & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && will_bits != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
+
         // Keep Alive
         if data.len() < cursor + 2 {
             return Err(MqttError::MalformedPacket);
-- 
2.43.0


From 20930f18801b52b95da5cbbc494b2638f8f41cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 36/44] fix: reject CONNACK with reserved acknowledge flags

---
 src/mqtt/packet/v3_1_1/connack.rs | 3 +++
 src/mqtt/packet/v5_0/connack.rs   | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/connack.rs b/src/mqtt/packet/v3_1_1/connack.rs
index e8ec6ec..697362b 100644
--- a/src/mqtt/packet/v3_1_1/connack.rs
+++ b/src/mqtt/packet/v3_1_1/connack.rs
@@ -388,6 +388,9 @@ impl Connack {
         }
 
         let flags = data[0];
+        if (flags & 0b1111_1110) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
         let session_present = (flags & 0x01) != 0;
 
         let code = data[1];
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 63fe40b..14c2250 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -410,7 +410,9 @@ impl Connack {
         }
         let flags = data[cursor];
         cursor += 1;
-        let _session = (flags & 0x01) != 0;
+        if (flags & 0b1111_1110) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
         let code = data[cursor];
         cursor += 1;
         let _reason = ConnectReasonCode::try_from(code).map_err(|_| MqttError::MalformedPacket)?;
-- 
2.43.0


From dda3834823e962e9f5b8eafc7e369849cc4e08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 37/44] fix: reject UTF-8 strings that contain the null
 character

---
 src/mqtt/packet/mqtt_string.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt/packet/mqtt_string.rs b/src/mqtt/packet/mqtt_string.rs
index 6bfaa4e..85058ca 100644
--- a/src/mqtt/packet/mqtt_string.rs
+++ b/src/mqtt/packet/mqtt_string.rs
@@ -158,6 +158,11 @@ impl MqttString {
             return Err(MqttError::MalformedPacket);
         }
 
+        // The null character U+0000 is not allowed
+        if s_ref.as_bytes().contains(&0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let total_encoded_len = 2 + len;
 
         // Try to fit in Small variant if SSO is enabled
@@ -453,6 +458,11 @@ impl MqttString {
             return Err(MqttError::MalformedPacket);
         }
 
+        // The null character U+0000 is not allowed
+        if data[2..2 + string_len].contains(&0) {
+            return Err(MqttError::MalformedPacket);
+        }
+
         let total_encoded_len = 2 + string_len;
 
         // Try to fit in Small variant if SSO is enabled
-- 
2.43.0


From 792b75a2950f08773c9ad906059d0d9c2ebde96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 38/44] fix: reject variable byte integers that are not
 minimally encoded

---
 src/mqtt/packet/variable_byte_integer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/packet/variable_byte_integer.rs b/src/mqtt/packet/variable_byte_integer.rs
index 5f29816..5839859 100644
--- a/src/mqtt/packet/variable_byte_integer.rs
+++ b/src/mqtt/packet/variable_byte_integer.rs
@@ -111,6 +111,9 @@ impl VariableByteInteger {
             read.push(b);
 
             if (b & 0x80) == 0 {
+                if i > 0 && b == 0 {
+                    return DecodeResult::Err("VariableByteInteger not minimally encoded");
+                }
                 // complete
                 return match Self::from_u32(value) {
                     Some(vbi) => DecodeResult::Ok(vbi, i + 1),
-- 
2.43.0


From 886b2507526eb1e434f21dac5cab74dfe37f4255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 39/44] fix: reject received PUBLISH with neither topic name
 nor topic alias

---
 src/mqtt/packet/v3_1_1/publish.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs   | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index a617b22..73cf662 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -627,6 +627,9 @@ where
         let mut cursor = 0;
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
+        if topic_name.as_str().is_empty() {
+            return Err(MqttError::MalformedPacket);
+        }
         if topic_name.as_str().contains('#') || topic_name.as_str().contains('+') {
             return Err(MqttError::MalformedPacket);
         }
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 0fa2b8e..3fffc3e 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -998,12 +998,16 @@ where
         let (property_length, props) = if cursor < data_arc.len() {
             let (props, consumed) = Properties::parse(&data_arc[cursor..])?;
             cursor += consumed;
-            validate_publish_properties(&props)?;
             let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
             (prop_len, props)
         } else {
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
         };
+        if validate_publish_properties(&props)? == PropertyValidation::ValidWithoutTopicAlias
+            && topic_name.as_str().is_empty()
+        {
+            return Err(MqttError::TopicAliasInvalid);
+        }
 
         let payload_len = data_arc.len() - cursor;
         let payload = if payload_len > 0 {
-- 
2.43.0


From a61006aac1e756515c864fb3eadf489852f246a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 40/44] fix: packets longer than the maximum Remaining Length
 are an error, not a panic

---
 src/mqtt/packet/v3_1_1/connect.rs        |  4 ++--
 src/mqtt/packet/v3_1_1/puback.rs         |  4 ++--
 src/mqtt/packet/v3_1_1/pubcomp.rs        |  4 ++--
 src/mqtt/packet/v3_1_1/publish.rs        |  4 ++--
 src/mqtt/packet/v3_1_1/pubrec.rs         |  4 ++--
 src/mqtt/packet/v3_1_1/pubrel.rs         |  4 ++--
 src/mqtt/packet/v3_1_1/suback.rs         |  4 ++--
 src/mqtt/packet/v3_1_1/subscribe.rs      |  4 ++--
 src/mqtt/packet/v3_1_1/unsuback.rs       |  4 ++--
 src/mqtt/packet/v3_1_1/unsubscribe.rs    |  4 ++--
 src/mqtt/packet/v5_0/auth.rs             |  8 ++++----
 src/mqtt/packet/v5_0/connack.rs          |  8 ++++----
 src/mqtt/packet/v5_0/connect.rs          | 12 ++++++------
 src/mqtt/packet/v5_0/disconnect.rs       |  8 ++++----
 src/mqtt/packet/v5_0/puback.rs           |  8 ++++----
 src/mqtt/packet/v5_0/pubcomp.rs          |  8 ++++----
 src/mqtt/packet/v5_0/publish.rs          |  8 ++++----
 src/mqtt/packet/v5_0/pubrec.rs           |  8 ++++----
 src/mqtt/packet/v5_0/pubrel.rs           |  8 ++++----
 src/mqtt/packet/v5_0/suback.rs           |  8 ++++----
 src/mqtt/packet/v5_0/subscribe.rs        |  8 ++++----
 src/mqtt/packet/v5_0/unsuback.rs         |  8 ++++----
 src/mqtt/packet/v5_0/unsubscribe.rs      |  8 ++++----
 src/mqtt/packet/variable_byte_integer.rs |  9 +++++++++
 24 files changed, 83 insertions(+), 74 deletions(-)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index efa3e76..6f6eb9f 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -628,7 +628,7 @@ impl Connect {
 
         let connect = Connect {
             fixed_header: [FixedHeader::Connect as u8],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(cursor)?,
             protocol_name,
             protocol_version_buf,
             connect_flags_buf,
@@ -1045,7 +1045,7 @@ impl ConnectBuilder {
             remaining += password_buf.size(); // password
         }
 
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(Connect {
             fixed_header: [FixedHeader::Connect as u8],
diff --git a/src/mqtt/packet/v3_1_1/puback.rs b/src/mqtt/packet/v3_1_1/puback.rs
index c800724..07c650a 100644
--- a/src/mqtt/packet/v3_1_1/puback.rs
+++ b/src/mqtt/packet/v3_1_1/puback.rs
@@ -440,7 +440,7 @@ where
 
         let puback = GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
         };
@@ -597,7 +597,7 @@ where
         if reason_code_buf.is_some() {
             remaining += 1;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
diff --git a/src/mqtt/packet/v3_1_1/pubcomp.rs b/src/mqtt/packet/v3_1_1/pubcomp.rs
index 46b053b..74973a0 100644
--- a/src/mqtt/packet/v3_1_1/pubcomp.rs
+++ b/src/mqtt/packet/v3_1_1/pubcomp.rs
@@ -444,7 +444,7 @@ where
 
         let pubcomp = GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
         };
@@ -611,7 +611,7 @@ where
         if reason_code_buf.is_some() {
             remaining += 1;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 73cf662..1af99fb 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -674,7 +674,7 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             payload_buf: payload,
@@ -1073,7 +1073,7 @@ where
             remaining += mem::size_of::<PacketIdType>();
         }
         remaining += payload.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPublish {
             fixed_header,
diff --git a/src/mqtt/packet/v3_1_1/pubrec.rs b/src/mqtt/packet/v3_1_1/pubrec.rs
index 4782fa0..9044561 100644
--- a/src/mqtt/packet/v3_1_1/pubrec.rs
+++ b/src/mqtt/packet/v3_1_1/pubrec.rs
@@ -423,7 +423,7 @@ where
 
         let pubrec = GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
         };
@@ -602,7 +602,7 @@ where
         if reason_code_buf.is_some() {
             remaining += 1;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
diff --git a/src/mqtt/packet/v3_1_1/pubrel.rs b/src/mqtt/packet/v3_1_1/pubrel.rs
index 64aeae5..63a9a68 100644
--- a/src/mqtt/packet/v3_1_1/pubrel.rs
+++ b/src/mqtt/packet/v3_1_1/pubrel.rs
@@ -409,7 +409,7 @@ where
 
         let pubrel = GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
         };
@@ -564,7 +564,7 @@ where
         if reason_code_buf.is_some() {
             remaining += 1;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index bb81490..76416f4 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -341,7 +341,7 @@ where
         }
 
         let remaining_size = buffer_size + return_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
@@ -625,7 +625,7 @@ where
         let return_codes_size = return_codes_buf.len();
 
         let remaining = packet_id_size + return_codes_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index 44df0c7..e40dfd4 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -336,7 +336,7 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
@@ -562,7 +562,7 @@ where
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index ee1ac7b..6ff4fee 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -356,7 +356,7 @@ where
         cursor += buffer_size;
 
         let remaining_size = buffer_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let unsuback = GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
@@ -471,7 +471,7 @@ where
 
         let packet_id_buf = self.packet_id_buf.unwrap();
         let remaining_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index ee52a45..e85d391 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -349,7 +349,7 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
@@ -600,7 +600,7 @@ where
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
diff --git a/src/mqtt/packet/v5_0/auth.rs b/src/mqtt/packet/v5_0/auth.rs
index 295762c..8237d6b 100644
--- a/src/mqtt/packet/v5_0/auth.rs
+++ b/src/mqtt/packet/v5_0/auth.rs
@@ -350,7 +350,7 @@ impl Auth {
         let (property_length, props) = if reason_code_buf.is_some() && cursor < data.len() {
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len = VariableByteInteger::from_len(props.size())?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -369,7 +369,7 @@ impl Auth {
 
         let auth = Auth {
             fixed_header: [FixedHeader::Auth.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             reason_code_buf,
             property_length,
             props,
@@ -506,7 +506,7 @@ impl AuthBuilder {
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_len(props_size)?)
         } else {
             None
         };
@@ -520,7 +520,7 @@ impl AuthBuilder {
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(Auth {
             fixed_header: [FixedHeader::Auth.as_u8()],
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 14c2250..084a4a1 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -421,11 +421,11 @@ impl Connack {
         let (props, consumed) = Properties::parse(&data[cursor..])?;
         cursor += consumed;
         validate_connack_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len = VariableByteInteger::from_len(props.size())?;
 
         let connack = Connack {
             fixed_header: [FixedHeader::Connack.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(cursor)?,
             ack_flags: [flags],
             reason_code_buf: [code],
             property_length: prop_len,
@@ -596,11 +596,11 @@ impl ConnackBuilder {
         let reason_code_buf = self.reason_code_buf.unwrap_or([0]);
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size: usize = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props_size)?;
 
         // remaining length: ack_flags(1) + reason(1) + prop_length_size + props_size
         let remaining = 1 + 1 + property_length.size() + props_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(Connack {
             fixed_header: [FixedHeader::Connack.as_u8()],
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 8c14a60..a77bd20 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -613,7 +613,7 @@ impl Connect {
         let (props, consumed) = Properties::parse(&data[cursor..])?;
         cursor += consumed;
         validate_connect_properties(&props)?;
-        let property_length = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props.size())?;
 
         // Client Identifier
         let (client_id_buf, consumed) =
@@ -633,7 +633,7 @@ impl Connect {
             cursor += consumed;
             validate_will_properties(&w_props)?;
             will_props = w_props;
-            will_property_length = VariableByteInteger::from_u32(will_props.size() as u32).unwrap();
+            will_property_length = VariableByteInteger::from_len(will_props.size())?;
 
             // Will Topic
             let (w_topic, consumed) = MqttString::decode(&data[cursor..])?;
@@ -673,7 +673,7 @@ impl Connect {
 
         let connect = Connect {
             fixed_header: [FixedHeader::Connect as u8],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(cursor)?,
             protocol_name,
             protocol_version_buf,
             connect_flags_buf,
@@ -1060,13 +1060,13 @@ impl ConnectBuilder {
         let connect_flags = connect_flags_buf[0];
         let keep_alive_buf = self.keep_alive_buf.unwrap_or([0, 0]);
         let props = self.props.unwrap_or_else(Properties::new);
-        let property_length = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props.size())?;
 
         let client_id_buf = self.client_id_buf.unwrap_or_default();
 
         let will_flag = (connect_flags & 0b0000_0100) != 0;
         let will_props = self.will_props.unwrap_or_else(Properties::new);
-        let will_property_length = VariableByteInteger::from_u32(will_props.size() as u32).unwrap();
+        let will_property_length = VariableByteInteger::from_len(will_props.size())?;
         let will_topic_buf = self.will_topic_buf.unwrap_or_default();
         let will_payload_buf = self.will_payload_buf.unwrap_or_default();
 
@@ -1096,7 +1096,7 @@ impl ConnectBuilder {
             remaining += password_buf.size(); // password
         }
 
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(Connect {
             fixed_header: [FixedHeader::Connect as u8],
diff --git a/src/mqtt/packet/v5_0/disconnect.rs b/src/mqtt/packet/v5_0/disconnect.rs
index 5b1c870..5f96967 100644
--- a/src/mqtt/packet/v5_0/disconnect.rs
+++ b/src/mqtt/packet/v5_0/disconnect.rs
@@ -409,7 +409,7 @@ impl Disconnect {
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_disconnect_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len = VariableByteInteger::from_len(props.size())?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -422,7 +422,7 @@ impl Disconnect {
 
         let disconnect = Disconnect {
             fixed_header: [FixedHeader::Disconnect.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             reason_code_buf,
             property_length,
             props,
@@ -554,7 +554,7 @@ impl DisconnectBuilder {
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_len(props_size)?)
         } else {
             None
         };
@@ -568,7 +568,7 @@ impl DisconnectBuilder {
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(Disconnect {
             fixed_header: [FixedHeader::Disconnect.as_u8()],
diff --git a/src/mqtt/packet/v5_0/puback.rs b/src/mqtt/packet/v5_0/puback.rs
index 05cf5e3..688e339 100644
--- a/src/mqtt/packet/v5_0/puback.rs
+++ b/src/mqtt/packet/v5_0/puback.rs
@@ -442,7 +442,7 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_puback_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len = VariableByteInteger::from_len(props.size())?;
 
             (prop_len, Some(props))
         } else {
@@ -460,7 +460,7 @@ where
 
         let puback = GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -634,7 +634,7 @@ where
         let reason_code_buf = self.reason_code_buf.flatten();
         let props = self.props.flatten();
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props_size)?;
 
         let mut remaining = mem::size_of::<PacketIdType>();
         // add reason code if present
@@ -645,7 +645,7 @@ where
         if props.is_some() {
             remaining += property_length.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
diff --git a/src/mqtt/packet/v5_0/pubcomp.rs b/src/mqtt/packet/v5_0/pubcomp.rs
index cd77e35..7dfbe26 100644
--- a/src/mqtt/packet/v5_0/pubcomp.rs
+++ b/src/mqtt/packet/v5_0/pubcomp.rs
@@ -450,7 +450,7 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_pubcomp_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len = VariableByteInteger::from_len(props.size())?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -464,7 +464,7 @@ where
 
         let pubcomp = GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -617,7 +617,7 @@ where
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_len(props_size)?)
         } else {
             None
         };
@@ -631,7 +631,7 @@ where
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 3fffc3e..dd8e1fb 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -998,7 +998,7 @@ where
         let (property_length, props) = if cursor < data_arc.len() {
             let (props, consumed) = Properties::parse(&data_arc[cursor..])?;
             cursor += consumed;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len = VariableByteInteger::from_len(props.size())?;
             (prop_len, props)
         } else {
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
@@ -1026,7 +1026,7 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             property_length,
@@ -1391,7 +1391,7 @@ where
         let packet_id_buf = self.packet_id_buf.flatten();
         let props = self.props.unwrap_or(Properties::new());
         let props_size: usize = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props_size)?;
         let payload = self.payload_buf.unwrap_or_else(ArcPayload::default);
 
         let mut remaining = topic_name_buf.size();
@@ -1400,7 +1400,7 @@ where
         }
         remaining += property_length.size() + props_size;
         remaining += payload.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPublish {
             fixed_header,
diff --git a/src/mqtt/packet/v5_0/pubrec.rs b/src/mqtt/packet/v5_0/pubrec.rs
index 41ac1d4..dcb41d0 100644
--- a/src/mqtt/packet/v5_0/pubrec.rs
+++ b/src/mqtt/packet/v5_0/pubrec.rs
@@ -492,7 +492,7 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_pubrec_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len = VariableByteInteger::from_len(props.size())?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -506,7 +506,7 @@ where
 
         let pubrec = GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -711,7 +711,7 @@ where
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_len(props_size)?)
         } else {
             None
         };
@@ -725,7 +725,7 @@ where
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
diff --git a/src/mqtt/packet/v5_0/pubrel.rs b/src/mqtt/packet/v5_0/pubrel.rs
index dbdd32c..5438814 100644
--- a/src/mqtt/packet/v5_0/pubrel.rs
+++ b/src/mqtt/packet/v5_0/pubrel.rs
@@ -459,7 +459,7 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_pubrel_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len = VariableByteInteger::from_len(props.size())?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -473,7 +473,7 @@ where
 
         let pubrel = GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_len(remaining_size)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -640,7 +640,7 @@ where
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_len(props_size)?)
         } else {
             None
         };
@@ -654,7 +654,7 @@ where
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 528e3d2..dda0982 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -375,7 +375,7 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_suback_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len = VariableByteInteger::from_len(props.size())?;
 
         let mut reason_codes_buf = Vec::new();
         while cursor < data.len() {
@@ -390,7 +390,7 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
@@ -690,14 +690,14 @@ where
 
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props_size)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let reason_codes_size = reason_codes_buf.len();
 
         let remaining = packet_id_size + prop_len_size + props_size + reason_codes_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 1baddd7..657d328 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -345,7 +345,7 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_subscribe_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len = VariableByteInteger::from_len(props.size())?;
 
         let mut entries = Vec::new();
         while cursor < data.len() {
@@ -365,7 +365,7 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
@@ -634,14 +634,14 @@ where
 
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props_size)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + prop_len_size + props_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c4ac22b..d492462 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -370,7 +370,7 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_unsuback_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len = VariableByteInteger::from_len(props.size())?;
 
         let mut reason_codes_buf = Vec::new();
         while cursor < data.len() {
@@ -385,7 +385,7 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let unsuback = GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
@@ -679,14 +679,14 @@ where
 
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props_size)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let reason_codes_size = reason_codes_buf.len();
 
         let remaining = packet_id_size + prop_len_size + props_size + reason_codes_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 20b1f5e..c28559b 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -356,7 +356,7 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_unsubscribe_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len = VariableByteInteger::from_len(props.size())?;
 
         let mut entries = Vec::new();
         while cursor < data.len() {
@@ -376,7 +376,7 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining_size)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
@@ -673,14 +673,14 @@ where
         let entries = self.entry_bufs.unwrap_or_default();
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length = VariableByteInteger::from_len(props_size)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + prop_len_size + props_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_len(remaining)?;
 
         Ok(GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
diff --git a/src/mqtt/packet/variable_byte_integer.rs b/src/mqtt/packet/variable_byte_integer.rs
index 5839859..ab62055 100644
--- a/src/mqtt/packet/variable_byte_integer.rs
+++ b/src/mqtt/packet/variable_byte_integer.rs
@@ -24,6 +24,7 @@ use alloc::vec::Vec;
 use arrayvec::ArrayVec;
 use core::convert::{From, TryFrom};
 use core::fmt;
+use crate::mqtt::result_code::MqttError;
 use serde::{Serialize, Serializer};
 #[cfg(feature = "std")]
 use std::io::IoSlice;
@@ -58,6 +59,14 @@ impl VariableByteInteger {
         Some(Self { encoded: buf })
     }
 
+    /// Create from a length. Error if it can't be represented.
+    pub(crate) fn from_len(len: usize) -> Result<Self, MqttError> {
+        u32::try_from(len)
+            .ok()
+            .and_then(Self::from_u32)
+            .ok_or(MqttError::MalformedPacket)
+    }
+
     /// Decode back to `u32`.
     pub fn to_u32(&self) -> u32 {
         let mut multiplier = 1u32;
-- 
2.43.0


From 18d4e0abbd7ea71fc787c66af51c5d6213e95070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:02 +0000
Subject: [PATCH 41/44] fix: release the packet id when checked_send refuses a
 packet of another version

---
 src/mqtt/connection/core.rs            |  2 +-
 src/mqtt/connection/sendable.rs        |  7 +++++-
 src/mqtt/connection/sendable_helper.rs | 35 +++++++++++++++-----------
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d88a23d..541dcd5 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1369,7 +1369,7 @@ where
 
     /// Process v3.1.1 CONNECT packet - C++ constexpr if implementation
     /// Report that a packet is not sent, and release the packet ID it carries
-    fn refuse_send(
+    pub(crate) fn refuse_send(
         &mut self,
         e: MqttError,
         packet_id: Option<PacketIdType>,
diff --git a/src/mqtt/connection/sendable.rs b/src/mqtt/connection/sendable.rs
index 921c635..1d42f03 100644
--- a/src/mqtt/connection/sendable.rs
+++ b/src/mqtt/connection/sendable.rs
@@ -63,6 +63,11 @@ where
     Role: RoleType,
     PacketIdType: IsPacketId,
 {
+    /// The packet id acquired by the application that is released when the send is refused
+    fn owned_packet_id(&self) -> Option<PacketIdType> {
+        None
+    }
+
     // v3.1.1 methods
     fn send_connect_v3_1_1(
         self,
@@ -287,7 +292,7 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         // Version check first
         if !T::check(&connection.get_protocol_version()) {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            return connection.refuse_send(MqttError::VersionMismatch, self.owned_packet_id());
         }
 
         trace!("Static dispatch sent: {}", self);
diff --git a/src/mqtt/connection/sendable_helper.rs b/src/mqtt/connection/sendable_helper.rs
index 8b12e83..0a1d2cf 100644
--- a/src/mqtt/connection/sendable_helper.rs
+++ b/src/mqtt/connection/sendable_helper.rs
@@ -29,11 +29,16 @@ use crate::mqtt::packet::{v3_1_1, v5_0};
 use alloc::vec::Vec;
 
 macro_rules! impl_sendable_helper {
-    ($role:ty, $packet_type:ty, $method:ident, $process_method:ident) => {
+    ($role:ty, $packet_type:ty, $method:ident, $process_method:ident $(, owns $owned_packet_id:expr)?) => {
         impl<PacketIdType> SendableHelper<$role, PacketIdType> for $packet_type
         where
             PacketIdType: IsPacketId,
         {
+            $(
+                fn owned_packet_id(&self) -> Option<PacketIdType> {
+                    $owned_packet_id(self)
+                }
+            )?
             fn $method(
                 self,
                 connection: &mut GenericConnection<$role, PacketIdType>,
@@ -50,8 +55,8 @@ mod unformatted {
     // Client
     impl_sendable_helper!(role::Client, v3_1_1::Connect,                           send_connect_v3_1_1,         process_send_v3_1_1_connect);
     impl_sendable_helper!(role::Client, v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, owns <v3_1_1::GenericPublish<PacketIdType>>::packet_id);
+    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, owns <v5_0::GenericPublish<PacketIdType>>::packet_id);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Client, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -60,10 +65,10 @@ mod unformatted {
     impl_sendable_helper!(role::Client, v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Client, v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, owns |p: &v3_1_1::GenericSubscribe<PacketIdType>| Some(p.packet_id()));
+    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, owns |p: &v5_0::GenericSubscribe<PacketIdType>| Some(p.packet_id()));
+    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, owns |p: &v3_1_1::GenericUnsubscribe<PacketIdType>| Some(p.packet_id()));
+    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, owns |p: &v5_0::GenericUnsubscribe<PacketIdType>| Some(p.packet_id()));
     impl_sendable_helper!(role::Client, v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
     impl_sendable_helper!(role::Client, v5_0::Pingreq,                             send_pingreq_v5_0,           process_send_v5_0_pingreq);
     impl_sendable_helper!(role::Client, v3_1_1::Disconnect,                        send_disconnect_v3_1_1,      process_send_v3_1_1_disconnect);
@@ -73,8 +78,8 @@ mod unformatted {
     // Server
     impl_sendable_helper!(role::Server, v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Server, v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, owns <v3_1_1::GenericPublish<PacketIdType>>::packet_id);
+    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, owns <v5_0::GenericPublish<PacketIdType>>::packet_id);
     impl_sendable_helper!(role::Server, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Server, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Server, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -98,8 +103,8 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
     impl_sendable_helper!(role::Any,    v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Any,    v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, owns <v3_1_1::GenericPublish<PacketIdType>>::packet_id);
+    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, owns <v5_0::GenericPublish<PacketIdType>>::packet_id);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Any,    v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -108,12 +113,12 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Any,    v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, owns |p: &v3_1_1::GenericSubscribe<PacketIdType>| Some(p.packet_id()));
+    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, owns |p: &v5_0::GenericSubscribe<PacketIdType>| Some(p.packet_id()));
     impl_sendable_helper!(role::Any,    v3_1_1::GenericSuback<PacketIdType>,       send_suback_v3_1_1,          process_send_v3_1_1_suback);
     impl_sendable_helper!(role::Any,    v5_0::GenericSuback<PacketIdType>,         send_suback_v5_0,            process_send_v5_0_suback);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, owns |p: &v3_1_1::GenericUnsubscribe<PacketIdType>| Some(p.packet_id()));
+    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, owns |p: &v5_0::GenericUnsubscribe<PacketIdType>| Some(p.packet_id()));
     impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsuback<PacketIdType>,     send_unsuback_v3_1_1,        process_send_v3_1_1_unsuback);
     impl_sendable_helper!(role::Any,    v5_0::GenericUnsuback<PacketIdType>,       send_unsuback_v5_0,          process_send_v5_0_unsuback);
     impl_sendable_helper!(role::Any,    v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
-- 
2.43.0


From 281959ddf8768dc1ccb25b8dfd8f303b5a5f77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 42/44] fix: a PUBLISH near the maximum Remaining Length can
 not panic when its topic or alias is replaced

---
 src/mqtt/connection/core.rs     | 22 ++++++++++++----------
 src/mqtt/packet/v5_0/publish.rs | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 541dcd5..235e7e3 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1708,11 +1708,13 @@ where
                         return events;
                     }
                     topic_alias_validated = true;
-                    let store_packet = packet
+                    let store_packet = match packet
                         .clone()
                         .remove_topic_alias_add_topic(topic_opt.unwrap())
-                        .unwrap()
-                        .set_dup(true);
+                    {
+                        Ok(store_packet) => store_packet.set_dup(true),
+                        Err(e) => return self.refuse_send(e, Some(packet_id)),
+                    };
                     self.store.add(store_packet.try_into().unwrap()).unwrap();
                 } else {
                     // Topic name is not empty, remove topic alias if present
@@ -1776,7 +1778,10 @@ where
                 }
                 return events;
             }
-        } else if self.status == ConnectionStatus::Connected {
+        } else if self.status == ConnectionStatus::Connected
+            // The TopicAlias property can make the packet up to 4 bytes larger
+            && packet.size() + 4 < MQTT_PACKET_SIZE_NO_LIMIT as usize
+        {
             // process auto applying TopicAlias if the option is enabled
             if self.auto_map_topic_alias_send {
                 if let Some(ref mut topic_alias_send) = self.topic_alias_send {
@@ -3006,12 +3011,9 @@ where
                                             Ok(extracted) => {
                                                 packet = extracted;
                                             }
-                                            Err(_e) => {
-                                                error!("topic alias extract failed: {_e}");
-                                                self.handle_v5_0_error(
-                                                    MqttError::TopicAliasInvalid,
-                                                    &mut events,
-                                                );
+                                            Err(e) => {
+                                                error!("topic alias extract failed: {e}");
+                                                self.handle_v5_0_error(e, &mut events);
                                                 return events;
                                             }
                                         }
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index dd8e1fb..1d3ece9 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -543,7 +543,7 @@ where
             .retain(|prop| !matches!(prop, crate::mqtt::packet::Property::TopicAlias(_)));
 
         // Recalculate property_length and remaining_length
-        self.recalculate_lengths();
+        self.recalculate_lengths()?;
 
         Ok(self)
     }
@@ -581,7 +581,8 @@ where
             .retain(|prop| !matches!(prop, crate::mqtt::packet::Property::TopicAlias(_)));
 
         // Recalculate property_length and remaining_length
-        self.recalculate_lengths();
+        self.recalculate_lengths()
+            .expect("the packet only gets smaller");
         self
     }
 
@@ -643,7 +644,7 @@ where
         self.topic_name_extracted = true;
 
         // Recalculate remaining_length (property_length stays the same)
-        self.recalculate_lengths();
+        self.recalculate_lengths()?;
 
         Ok(self)
     }
@@ -738,7 +739,8 @@ where
         self.props.push(topic_alias_property);
 
         // Recalculate lengths
-        self.recalculate_lengths();
+        self.recalculate_lengths()
+            .expect("the packet with the topic alias must be encodable");
 
         self
     }
@@ -752,10 +754,10 @@ where
     /// The method calculates:
     /// - Property length based on the current properties
     /// - Remaining length including topic name, packet ID (if QoS > 0), properties, and payload
-    fn recalculate_lengths(&mut self) {
+    fn recalculate_lengths(&mut self) -> Result<(), MqttError> {
         // Calculate property length
         let props_size: usize = self.props.size();
-        self.property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        self.property_length = VariableByteInteger::from_len(props_size)?;
 
         // Calculate remaining length
         let mut remaining_size = self.topic_name_buf.size();
@@ -775,7 +777,9 @@ where
         // Add payload size
         remaining_size += self.payload_buf.len();
 
-        self.remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        self.remaining_length =
+            VariableByteInteger::from_len(remaining_size).map_err(|_| MqttError::PacketTooLarge)?;
+        Ok(())
     }
 
     /// Returns the total size of the PUBLISH packet in bytes
-- 
2.43.0


From dc46c394884ea71fd3e0c5a32ba10555e0e78242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 43/44] fix: a second will_message() replaces the Will QoS and
 Will retain of the first

---
 src/mqtt/packet/v3_1_1/connect.rs | 1 +
 src/mqtt/packet/v5_0/connect.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 6f6eb9f..bb198b1 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -800,6 +800,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Will QoS and Will retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index a77bd20..d582dea 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -848,6 +848,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Will QoS and Will retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
-- 
2.43.0


From e7dccc76d3eb9362bc103d6cda2e0e170f854593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 44/44] fix: a CONNECT without a will carries no will
 properties

---
 src/mqtt/packet/v5_0/connect.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index d582dea..819b6c2 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -1066,7 +1066,11 @@ impl ConnectBuilder {
         let client_id_buf = self.client_id_buf.unwrap_or_default();
 
         let will_flag = (connect_flags & 0b0000_0100) != 0;
-        let will_props = self.will_props.unwrap_or_else(Properties::new);
+        // Will properties are part of the packet only if there is a will
+        let will_props = self
+            .will_props
+            .filter(|_| will_flag)
+            .unwrap_or_else(Properties::new);
         let will_property_length = VariableByteInteger::from_len(will_props.size())?;
         let will_topic_buf = self.will_topic_buf.unwrap_or_default();
         let will_payload_buf = self.will_payload_buf.unwrap_or_default();
-- 
2.43.0

