From f839db0359983352017b625492c06ac3d1768c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 01/24] fix: refuse variable byte integers longer than four
 bytes

---
 src/byte_reader.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 48da1a3..a8147da 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -160,13 +160,11 @@ impl<R: Read> ByteReader<R> {
             num += mult * (next & VARBYTEINT_MASK);
             mult *= 0x80;
             if next & VARBYTEINT_FIN_MASK == 0 {
-                break;
+                return Ok(num);
             }
         }
-        if num > VARBYTEINT_MAX {
-            return Err(format!("Invalid variable int {}", num));
-        }
-        Ok(num)
+        // a fourth byte must not announce a continuation
+        Err(format!("Invalid variable int, longer than 4 bytes {}", num))
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From c45ac3ebb7885b59039624efe880e3334bb108e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 02/24] fix: keep the enclosing limit when a nested one is at
 least as long

---
 src/byte_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index a8147da..c10384b 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -49,10 +49,11 @@ impl<R: Read> ByteReader<R> {
     /// sets a limit of reading, has to be used together
     /// with has_more() and reset_limit()
     pub fn take(&mut self, len: u32) {
+        let mut len = len;
         if let Some(l) = self.curr_limit {
-            if len >= l {
-                return;
-            }
+            // never reach beyond the enclosing limit, but always remember it
+            // since reset_limit() is called once for every take()
+            len = len.min(l);
             // push alread subtracted number
             self.read_limits.push(l - len);
         }
-- 
2.43.0


From 2e2264a5be829650c56872c45b24ac44f79fc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 03/24] fix: refuse a property block longer than its packet

---
 src/byte_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index c10384b..21d7e2f 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -184,6 +184,7 @@ impl<R: Read> ByteReader<R> {
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
         if length > 0 {
+            self.ensure_limit(length)?;
             self.take(length);
         }
         Ok(length)
-- 
2.43.0


From 5fd6dd5e4d9a1296579fee965bdb3528c1e86e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 04/24] fix: always continue decoding right behind the current
 packet

---
 src/byte_reader.rs | 20 +++++++++++++++++++-
 src/packet.rs      | 15 ++++++++-------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 21d7e2f..9756d4d 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -29,8 +29,9 @@ impl<R: Read> ByteReader<R> {
             Err(e) => {
                 if let Ok(len) = length {
                     self.take(len);
-                    self.consume()?;
+                    let rest = self.consume();
                     self.reset_limit();
+                    rest?;
                 }
                 return Err(e);
             }
@@ -90,6 +91,23 @@ impl<R: Read> ByteReader<R> {
         }
     }
 
+    /// number of limits that enclose the current one
+    pub(crate) fn limit_depth(&self) -> usize {
+        self.read_limits.len()
+    }
+
+    /// discards whatever is left of the packet whose limit was set when
+    /// `depth` limits enclosed it, and removes that limit together with
+    /// those an aborted decode left inside of it
+    pub(crate) fn finish_packet(&mut self, depth: usize) -> Res<()> {
+        while self.read_limits.len() > depth {
+            self.reset_limit();
+        }
+        let rest = self.consume();
+        self.reset_limit();
+        rest.map(|_| ())
+    }
+
     pub fn read_len(&mut self, len: u32) -> Result<Vec<u8>, String> {
         self.ensure_limit(len)?;
         let mut buf = vec![0; len as usize];
diff --git a/src/packet.rs b/src/packet.rs
index 389d327..7297215 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -168,14 +168,15 @@ impl<R: io::Read> PacketDecoder<R> {
     /// ```
     pub fn decode_packet(&mut self, protocol_version: u8) -> Res<MqttPacket> {
         let (length, fixed) = self.reader.read_header()?;
+        let depth = self.reader.limit_depth();
         let dec = self.decode_by_type(fixed, length, protocol_version);
-        if dec.is_err() {
-            // TODO: this should probably return an Error that indicates some
-            // critical failure
-            self.reader.consume()?;
-        }
-        self.reader.reset_limit();
-        dec
+        // always continue right behind this packet
+        // TODO: this should probably return an Error that indicates some
+        // critical failure
+        let rest = self.reader.finish_packet(depth);
+        let packet = dec?;
+        rest?;
+        Ok(packet)
     }
 
     pub fn has_more(&mut self) -> bool {
-- 
2.43.0


From dab71e1ce0a980593f8f0032a52fd81f421d46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 05/24] fix: do not mistake a failing read for the end of the
 data

---
 src/byte_reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 9756d4d..bd19c87 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -1,5 +1,5 @@
 use crate::structure::*;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
@@ -193,9 +193,13 @@ impl<R: Read> ByteReader<R> {
             return false;
         }
         // TODO: switch to a better way to do this
-        match self.reader.fill_buf() {
-            Ok(v) => !v.is_empty(),
-            Err(_) => false,
+        loop {
+            match self.reader.fill_buf() {
+                Ok(v) => return !v.is_empty(),
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                // inside of a limit there is more to read, let the read fail
+                Err(_) => return self.curr_limit.is_some(),
+            }
         }
     }
 
-- 
2.43.0


From 81b32327b0cb7797cf54c8cf3daec3db8703f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 06/24] fix: do not reserve memory for data that has only been
 announced

---
 src/byte_reader.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index bd19c87..64b92bf 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -3,6 +3,8 @@ use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 static VARBYTEINT_MASK: u32 = 0x7F;
 static VARBYTEINT_FIN_MASK: u32 = 0x80;
+/// most that is reserved for a single read before any of its data arrived
+static READ_CAPACITY_MAX: u32 = 4096;
 
 pub struct ByteReader<R: Read> {
     reader: BufReader<R>,
@@ -110,12 +112,18 @@ impl<R: Read> ByteReader<R> {
 
     pub fn read_len(&mut self, len: u32) -> Result<Vec<u8>, String> {
         self.ensure_limit(len)?;
-        let mut buf = vec![0; len as usize];
-        match self.reader.read_exact(&mut buf) {
-            Ok(_) => {
-                self.limit(len);
-                Ok(buf)
-            }
+        // the length might just be claimed by the peer, only reserve more
+        // memory once that much data has arrived
+        let mut buf = Vec::with_capacity(len.min(READ_CAPACITY_MAX) as usize);
+        let result = (&mut self.reader).take(len.into()).read_to_end(&mut buf);
+        self.limit(buf.len() as u32);
+        match result {
+            Ok(n) if n == len as usize => Ok(buf),
+            Ok(_) => Err(format!(
+                "Failed to read {} bytes. Reason: {:?}",
+                len,
+                ErrorKind::UnexpectedEof
+            )),
             Err(e) => Err(format!("Failed to read {} bytes. Reason: {:?}", len, e)),
         }
     }
-- 
2.43.0


From 0f1ad8f8546b714d792bf2490b5bafcfe31884cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 07/24] fix: count the reason code in the length of
 acknowledgements

---
 src/confirmation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index ae6d084..3753b59 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -225,7 +225,10 @@ impl Packet for ConfirmationPacket {
         // Remaining Length of 2.
         match (code, properties_data.is_empty()) {
             (Some(0), true) => length = 2,
-            _ => length += properties_data.len() + props_len.len(),
+            // reason code and properties
+            (Some(_), _) => length += 1 + properties_data.len() + props_len.len(),
+            // neither exists in MQTT < 5
+            (None, _) => {}
         };
 
         let mut writer = MqttWriter::new(length);
-- 
2.43.0


From e81a65fdac23816284272d76397a0b5f62f1a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 08/24] fix: write an empty property set as the single length
 byte 0

---
 src/mqtt_writer.rs          | 14 ++++++--------
 src/structure/properties.rs |  3 ---
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index cb92fda..5e1bdb6 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -97,27 +97,25 @@ impl MqttWriter {
 
     pub fn encode_variable_num(mut length: u32) -> Vec<u8> {
         let mut v = Vec::<u8>::with_capacity(4);
-        while length > 0 {
+        loop {
             let mut next = length % 128;
             length /= 128;
             if length > 0 {
                 next |= 0x80;
             }
             v.push(next as u8);
+            // 0 takes a byte as well
+            if length == 0 {
+                return v;
+            }
         }
-        v
     }
 
     pub fn write_variable_num(&mut self, num: u32) -> Res<()> {
         if num > VARBYTEINT_MAX {
             return Err(format!("Invalid variable int {}", num));
         }
-        let mut encoded = if num == 0 {
-            vec![0]
-        } else {
-            Self::encode_variable_num(num)
-        };
-        self.buf.append(&mut encoded);
+        self.buf.append(&mut Self::encode_variable_num(num));
         Ok(())
     }
 
diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index 6ffcf10..b70bf2f 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -15,9 +15,6 @@ pub(crate) trait Properties: Sized {
     fn encode(&self) -> Res<Vec<u8>> {
         // Confirm should not add empty property length with no properties (rfc 3.4.2.2.1)
         let pairs = self.to_pairs()?;
-        if pairs.is_empty() {
-            return Ok(vec![0]); // empty properties
-        }
         // TODO: calculate size of properties before allocating buffer
         let mut writer = MqttWriter::new(100);
         writer.write_properties(pairs)?;
-- 
2.43.0


From 87870cb70acdabcb2e0a33f3546841700b8fd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 09/24] fix: accept a DISCONNECT without property length

---
 src/disconnect.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 5a03629..c637e82 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -24,11 +24,14 @@ impl Packet for DisconnectPacket {
             } else {
                 packet.reason_code = Some(DisconnectCode::NormalDisconnection);
             }
-            // properies mqtt 5
-            packet.properties = match reader.read_properties()? {
-                None => None,
-                Some(props) => Some(DisconnectProperties::from_properties(props)?),
-            };
+            // properies mqtt 5, the property length can be omitted as well
+            // if there are none
+            if length > 1 {
+                packet.properties = match reader.read_properties()? {
+                    None => None,
+                    Some(props) => Some(DisconnectProperties::from_properties(props)?),
+                };
+            }
         }
 
         Ok(packet)
-- 
2.43.0


From 4b4905af3e93bf560b12585916414c153d229490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 10/24] fix: write the default reason of a DISCONNECT instead
 of leaving it out

---
 src/disconnect.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index c637e82..363b1a8 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -49,8 +49,11 @@ impl Packet for DisconnectPacket {
         // Length
         writer.write_variable_num(length as u32)?;
         // reason code in header
-        if protocol_version == 5 && self.reason_code.is_some() {
-            writer.write_u8(self.reason_code.as_ref().unwrap().to_byte());
+        if protocol_version == 5 {
+            writer.write_u8(match self.reason_code.as_ref() {
+                Some(code) => code.to_byte(),
+                None => DisconnectCode::NormalDisconnection.to_byte(),
+            });
         }
         // properies mqtt 5
         writer.write_sized(&properties_data, &props_len)?;
-- 
2.43.0


From 0a9bf96cb105ff3d6358ced5e8809cc024e1c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 11/24] fix: accept an AUTH without reason code and properties

---
 src/auth.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auth.rs b/src/auth.rs
index b5bd7e2..c876490 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -38,7 +38,7 @@ impl Packet for AuthPacket {
     fn decode<R: io::Read>(
         reader: &mut ByteReader<R>,
         _: FixedHeader,
-        _: u32,
+        length: u32,
         protocol_version: u8,
     ) -> Res<AuthPacket> {
         if protocol_version != 5 {
@@ -49,6 +49,11 @@ impl Packet for AuthPacket {
             reason_code: AuthCode::Success,
             properties: None,
         };
+        // reason code and properties can be omitted if the code is Success
+        // and there are no properties
+        if length == 0 {
+            return Ok(packet);
+        }
         packet.reason_code = AuthCode::from_byte(reader.read_u8()?)?;
         // properies mqtt 5
         packet.properties = match reader.read_properties()? {
-- 
2.43.0


From b2870ed48b94aeecae90d4a79d004d67fe0d1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 12/24] fix: refuse to encode a will without topic

---
 src/connect.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 728bb0b..56eebf2 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -83,12 +83,12 @@ impl Packet for ConnectPacket {
             will_qos = Some(qos);
             // It must have non-empty topic
             // add topic length if any
-            if let Some(t) = topic.as_ref() {
-                if t.is_empty() {
-                    return Err("Not allowed to use empty will topic".to_string());
+            match topic.as_ref() {
+                Some(t) if !t.is_empty() => {
+                    will_topic = t;
+                    length += t.len() + 2;
                 }
-                will_topic = t;
-                length += t.len() + 2;
+                _ => return Err("Not allowed to use empty will topic".to_string()),
             }
             // Payload
             length += 2; // payload length
-- 
2.43.0


From 67cdb61a2bafaf3c851d31870c4d5efebf896552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 13/24] fix: refuse strings and binary data longer than their
 length prefix can tell

---
 src/connect.rs     | 10 +++++-----
 src/mqtt_writer.rs | 45 +++++++++++++++++++++++++++------------------
 src/publish.rs     |  2 +-
 src/subscribe.rs   |  2 +-
 src/unsubscribe.rs |  2 +-
 5 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 56eebf2..bce2d1a 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -149,24 +149,24 @@ impl Packet for ConnectPacket {
 
         writer.write_sized(&properties_data, &props_len)?;
         // client id
-        writer.write_utf8_str(client_id);
+        writer.write_utf8_str(client_id)?;
         // will properties
         if protocol_version == 5 {
             writer.write_sized(&will_properties, &will_props_len)?;
         }
         // will topic and payload
         if has_will {
-            writer.write_utf8_str(will_topic);
-            writer.write_utf8_str(will_payload);
+            writer.write_utf8_str(will_topic)?;
+            writer.write_utf8_str(will_payload)?;
         }
 
         // username
         if let Some(u) = user_name {
-            writer.write_utf8_str(u);
+            writer.write_utf8_str(u)?;
         }
         // password
         if let Some(p) = password {
-            writer.write_utf8_str(p);
+            writer.write_utf8_str(p)?;
         }
         Ok(writer.into_vec())
     }
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index 5e1bdb6..6f3dc51 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -34,19 +34,19 @@ impl MqttWriter {
                 }
                 (code, PropType::String(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_string(v)
+                    self.write_utf8_string(v)?
                 }
                 (code, PropType::Str(v)) => {
                     self.write_u8(code);
-                    self.write_utf8_str(v)
+                    self.write_utf8_str(v)?
                 }
                 (code, PropType::Binary(v)) => {
                     self.write_u8(code);
-                    self.write_binary(v)
+                    self.write_binary(v)?
                 }
                 (code, PropType::BinaryRef(v)) => {
                     self.write_u8(code);
-                    self.write_binary_ref(v)
+                    self.write_binary_ref(v)?
                 }
                 // should never happen actually
                 (_, PropType::Pair(_, _)) => {}
@@ -57,8 +57,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(&k);
-                            self.write_utf8_str(&val);
+                            self.write_utf8_str(&k)?;
+                            self.write_utf8_str(&val)?;
                         }
                     }
                 }
@@ -67,8 +67,8 @@ impl MqttWriter {
                         // split into pairs
                         for val in v {
                             self.write_u8(code);
-                            self.write_utf8_str(k);
-                            self.write_utf8_str(val);
+                            self.write_utf8_str(k)?;
+                            self.write_utf8_str(val)?;
                         }
                     }
                 }
@@ -119,29 +119,38 @@ impl MqttWriter {
         Ok(())
     }
 
-    pub fn write_utf8_string(&mut self, s: String) {
-        self.write_u16(s.len() as u16);
-        for b in s.bytes() {
-            self.buf.push(b);
+    // length prefix of strings and binary data
+    fn write_len(&mut self, len: usize) -> Res<()> {
+        if len > u16::MAX as usize {
+            return Err(format!("Data of {} bytes does not fit into a field", len));
         }
+        self.write_u16(len as u16);
+        Ok(())
+    }
+
+    pub fn write_utf8_string(&mut self, s: String) -> Res<()> {
+        self.write_utf8_str(&s)
     }
 
-    pub fn write_utf8_str(&mut self, s: &str) {
-        self.write_u16(s.len() as u16);
+    pub fn write_utf8_str(&mut self, s: &str) -> Res<()> {
+        self.write_len(s.len())?;
         for b in s.bytes() {
             self.buf.push(b);
         }
+        Ok(())
     }
 
     /// a Binary vector should never be empty
-    pub fn write_binary(&mut self, s: Vec<u8>) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary(&mut self, s: Vec<u8>) -> Res<()> {
+        self.write_len(s.len())?;
         self.write_vec(s);
+        Ok(())
     }
 
-    pub fn write_binary_ref(&mut self, s: &[u8]) {
-        self.write_u16(s.len() as u16);
+    pub fn write_binary_ref(&mut self, s: &[u8]) -> Res<()> {
+        self.write_len(s.len())?;
         self.write_slice(s);
+        Ok(())
     }
 
     pub fn write_u16(&mut self, length: u16) {
diff --git a/src/publish.rs b/src/publish.rs
index 766e571..29abeba 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -86,7 +86,7 @@ impl Packet for PublishPacket {
         writer.write_variable_num(length as u32)?;
 
         // Topic
-        writer.write_utf8_str(topic);
+        writer.write_utf8_str(topic)?;
 
         // Message ID
         if *qos > 0 {
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 76043cb..1372b9e 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -127,7 +127,7 @@ impl Packet for SubscribePacket {
 
         // subscriptions payload
         for sub in self.subscriptions.iter() {
-            writer.write_utf8_str(&sub.topic);
+            writer.write_utf8_str(&sub.topic)?;
             let mut options = sub.qos.to_byte();
             if protocol_version == 5 {
                 let nl = (sub.nl as u8) << SUBSCRIBE_OPTIONS_NL_SHIFT;
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index c9e4989..bc61530 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -34,7 +34,7 @@ impl Packet for UnsubscribePacket {
 
     // Unsubs
     for unsub in self.unsubscriptions.iter() {
-      writer.write_utf8_str(unsub);
+      writer.write_utf8_str(unsub)?;
     }
     Ok(writer.into_vec())
   }
-- 
2.43.0


From 9ba6abf5589f71318cf79f4ae2cbabc34128724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 14/24] fix: refuse QoS 3 in a will and when encoding a PUBLISH

---
 src/connect.rs | 5 +++++
 src/publish.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index bce2d1a..f09874c 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -80,6 +80,9 @@ impl Packet for ConnectPacket {
             } = will;
             has_will = true;
             will_retain = *retain;
+            if *qos > 2 {
+                return Err("Invalid will QoS, must be <= 2".to_string());
+            }
             will_qos = Some(qos);
             // It must have non-empty topic
             // add topic length if any
@@ -287,6 +290,8 @@ impl ConnectFlags {
             if connect_flags.will_qos != 0 {
                 return Err("Will QoS must be set to zero when Will Flag is set to 0".to_string());
             }
+        } else if connect_flags.will_qos > 2 {
+            return Err("Invalid will QoS, must be <= 2".to_string());
         }
 
         let will_flags = if connect_flags.will {
diff --git a/src/publish.rs b/src/publish.rs
index 29abeba..fc83d00 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -61,6 +61,9 @@ impl Packet for PublishPacket {
         // Get the payload length
         length += payload.len();
 
+        if *qos > 2 {
+            return Err("Invalid QoS, must be <= 2".to_string());
+        }
         // Message ID must a number if qos > 0
         if *qos > 0 {
             if message_id.is_none() {
-- 
2.43.0


From aac1c107b1f57dd57d388d14e3831dc22410b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 15/24] fix: leave the codes of an UNSUBACK out below version 5

---
 src/unsuback.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/unsuback.rs b/src/unsuback.rs
index 60bc6fd..09400a9 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -9,8 +9,10 @@ impl Packet for UnsubackPacket {
         // Check message ID
         let mut length = 2;
 
-        // add length of unsubscriptions
-        length += self.granted.len();
+        // add length of unsubscriptions, there are none in MQTT < 5
+        if protocol_version == 5 {
+            length += self.granted.len();
+        }
 
         // properies mqtt 5
         let (props_len, properties_data) =
@@ -30,8 +32,10 @@ impl Packet for UnsubackPacket {
         writer.write_sized(&properties_data, &props_len)?;
 
         // Granted
-        for g in self.granted.iter() {
-            writer.write_u8(g.to_byte());
+        if protocol_version == 5 {
+            for g in self.granted.iter() {
+                writer.write_u8(g.to_byte());
+            }
         }
         Ok(writer.into_vec())
     }
-- 
2.43.0


From e6da593d93f4a814977edc7822963b42fe0899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 16/24] fix: refuse to encode SUBSCRIBE, SUBACK and UNSUBSCRIBE
 without entries

---
 src/suback.rs      | 3 +++
 src/subscribe.rs   | 3 +++
 src/unsubscribe.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/suback.rs b/src/suback.rs
index 3d60ed8..7495a84 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -89,6 +89,9 @@ impl Packet for SubackPacket {
         } else {
             self.granted.iter().map(|code| code.to_byte()).collect()
         };
+        if granted.is_empty() {
+            return Err("Invalid suback, no granted QoS or reason code".to_string());
+        }
         length += granted.len();
 
         // properies mqtt 5
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 1372b9e..814c441 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -91,6 +91,9 @@ impl Packet for SubscribePacket {
         let mut length = 2;
 
         // check subscriptions
+        if self.subscriptions.is_empty() {
+            return Err("Invalid subscriptions - no subscription".to_string());
+        }
         for sub in self.subscriptions.iter() {
             if sub.topic.is_empty() {
                 return Err("Invalid subscriptions - empty topic".to_string());
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index bc61530..a15c699 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -10,6 +10,9 @@ impl Packet for UnsubscribePacket {
     let mut length = 2;
 
     // add length of unsubscriptions
+    if self.unsubscriptions.is_empty() {
+      return Err("Invalid unsubscriptions - no topic".to_string());
+    }
     length += self
       .unsubscriptions
       .iter()
-- 
2.43.0


From 2f691cbf7066753e61492218d82c639a107e2201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 17/24] fix: subscription features absent from a CONNACK are
 available

---
 src/structure/properties.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index b70bf2f..f8583c1 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -406,9 +406,10 @@ impl Default for ConnackProperties {
             maximum_qos: 2,
             // retained messages available by default
             retain_available: true,
-            wildcard_subscription_available: false,
-            subscription_identifiers_available: false,
-            shared_subscription_available: false,
+            // all kinds of subscriptions are available by default
+            wildcard_subscription_available: true,
+            subscription_identifiers_available: true,
+            shared_subscription_available: true,
         }
     }
 }
-- 
2.43.0


From 3afa6f7792e2ce7c7c91297950d4b47910605c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 18/24] fix: refuse to encode a maximum QoS above 2

---
 src/structure/properties.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/structure/properties.rs b/src/structure/properties.rs
index f8583c1..1ed1aae 100644
--- a/src/structure/properties.rs
+++ b/src/structure/properties.rs
@@ -481,6 +481,9 @@ impl Properties for ConnackProperties {
         out.push((0x22, PropType::U16(self.topic_alias_maximum)));
         // }
         // if let v = self.maximum_qos {
+        if self.maximum_qos > 2 {
+            return Err(format!("Invalid maximum_qos: {}", self.maximum_qos));
+        }
         out.push((0x24, PropType::U8(self.maximum_qos)));
         // }
         // if let v = self.retain_available {
-- 
2.43.0


From 0171bf3d77b79fbf237e865f70ffb9a1c0cce347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 19/24] fix: allow a topic alias to replace the topic of a
 PUBLISH

---
 src/publish.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index fc83d00..7acd513 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -52,9 +52,14 @@ impl Packet for PublishPacket {
             retain,
         } = &self;
 
-        // Topic must be a non-empty string or Buffer
+        // Topic must be a non-empty string or Buffer, unless an alias
+        // stands in for it
         length += 2 + topic.len();
-        if topic.is_empty() {
+        let has_alias = match properties {
+            Some(p) => protocol_version == 5 && p.topic_alias.is_some(),
+            None => false,
+        };
+        if topic.is_empty() && !has_alias {
             return Err("Invalid topic".to_string());
         }
 
-- 
2.43.0


From f8b82fbd50bcbf087c26ce0706befb21298dc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 20/24] fix: refuse acknowledgements that name another packet
 type

---
 src/confirmation.rs |  8 +++++++-
 src/packet.rs       | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/confirmation.rs b/src/confirmation.rs
index 3753b59..ac0131a 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -212,7 +212,13 @@ impl Packet for ConfirmationPacket {
                 }
             }
         } else {
-            None
+            match cmd {
+                PacketType::Puback
+                | PacketType::Pubrec
+                | PacketType::Pubrel
+                | PacketType::Pubcomp => None,
+                t => return Err(format!("Invalid confirmation type {:?}", t)),
+            }
         };
 
         // properies mqtt 5
diff --git a/src/packet.rs b/src/packet.rs
index 7297215..81fe300 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -69,6 +69,20 @@ impl MqttPacket {
     /// ```
     ///
     pub fn encode(self, protocol_version: u8) -> Res<Vec<u8>> {
+        // acknowledgements name their type twice
+        match &self {
+            MqttPacket::Puback(p) if p.cmd == PacketType::Puback => {}
+            MqttPacket::Pubrec(p) if p.cmd == PacketType::Pubrec => {}
+            MqttPacket::Pubrel(p) if p.cmd == PacketType::Pubrel => {}
+            MqttPacket::Pubcomp(p) if p.cmd == PacketType::Pubcomp => {}
+            MqttPacket::Puback(p)
+            | MqttPacket::Pubrec(p)
+            | MqttPacket::Pubrel(p)
+            | MqttPacket::Pubcomp(p) => {
+                return Err(format!("Invalid confirmation type {:?}", p.cmd))
+            }
+            _ => {}
+        }
         match self {
             MqttPacket::Puback(packet)
             | MqttPacket::Pubrec(packet)
-- 
2.43.0


From 021e2bec5a5bbd28eef8ab442fbbedc93b1858ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 21/24] fix: do not wrap the length of packets beyond 4 GiB

---
 src/auth.rs         | 2 +-
 src/confirmation.rs | 2 +-
 src/connack.rs      | 2 +-
 src/connect.rs      | 2 +-
 src/disconnect.rs   | 2 +-
 src/mqtt_writer.rs  | 8 ++++++++
 src/publish.rs      | 2 +-
 src/suback.rs       | 2 +-
 src/subscribe.rs    | 2 +-
 src/unsuback.rs     | 2 +-
 src/unsubscribe.rs  | 2 +-
 11 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/auth.rs b/src/auth.rs
index c876490..ea0e67b 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -24,7 +24,7 @@ impl Packet for AuthPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Auth));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // reason code
         writer.write_u8(self.reason_code.to_byte());
diff --git a/src/confirmation.rs b/src/confirmation.rs
index ac0131a..58aa0b2 100644
--- a/src/confirmation.rs
+++ b/src/confirmation.rs
@@ -249,7 +249,7 @@ impl Packet for ConfirmationPacket {
         writer.write_u8(header);
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(*message_id);
diff --git a/src/connack.rs b/src/connack.rs
index 32af8fa..cc04b4c 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -23,7 +23,7 @@ impl Packet for ConnackPacket {
         let mut writer = MqttWriter::new(length);
         writer.write_u8(FixedHeader::for_type(PacketType::Connack).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         writer.write_u8(if self.session_present { 0x01 } else { 0x0 });
         writer.write_u8(rc);
         writer.write_sized(&properties_data, &props_len)?;
diff --git a/src/connect.rs b/src/connect.rs
index f09874c..5855a8a 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -129,7 +129,7 @@ impl Packet for ConnectPacket {
         // write header
         writer.write_u8(FixedHeader::for_type(PacketType::Connect).encode());
         // length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // protocol id and protocol version
         let proto_vec = match protocol_id {
             Protocol::MQIsdp => MQISDP_BUF.to_vec(),
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 363b1a8..cde652b 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -47,7 +47,7 @@ impl Packet for DisconnectPacket {
         // Header
         writer.write_header(FixedHeader::for_type(PacketType::Disconnect));
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
         // reason code in header
         if protocol_version == 5 {
             writer.write_u8(match self.reason_code.as_ref() {
diff --git a/src/mqtt_writer.rs b/src/mqtt_writer.rs
index 6f3dc51..5d3c606 100644
--- a/src/mqtt_writer.rs
+++ b/src/mqtt_writer.rs
@@ -119,6 +119,14 @@ impl MqttWriter {
         Ok(())
     }
 
+    /// remaining length of a packet
+    pub fn write_length(&mut self, length: usize) -> Res<()> {
+        if length > VARBYTEINT_MAX as usize {
+            return Err(format!("Invalid packet length {}", length));
+        }
+        self.write_variable_num(length as u32)
+    }
+
     // length prefix of strings and binary data
     fn write_len(&mut self, len: usize) -> Res<()> {
         if len > u16::MAX as usize {
diff --git a/src/publish.rs b/src/publish.rs
index 7acd513..afd3ff0 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -91,7 +91,7 @@ impl Packet for PublishPacket {
         });
 
         // Remaining length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Topic
         writer.write_utf8_str(topic)?;
diff --git a/src/suback.rs b/src/suback.rs
index 7495a84..5a5d5de 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -103,7 +103,7 @@ impl Packet for SubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Suback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 814c441..856b3c4 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -120,7 +120,7 @@ impl Packet for SubscribePacket {
         });
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 09400a9..876c9a3 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -23,7 +23,7 @@ impl Packet for UnsubackPacket {
         writer.write_header(FixedHeader::for_type(PacketType::Unsuback));
 
         // Length
-        writer.write_variable_num(length as u32)?;
+        writer.write_length(length)?;
 
         // Message ID
         writer.write_u16(self.message_id);
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index a15c699..38641eb 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -27,7 +27,7 @@ impl Packet for UnsubscribePacket {
     writer.write_header(FixedHeader::for_type(PacketType::Unsubscribe));
 
     // Length
-    writer.write_variable_num(length as u32)?;
+    writer.write_length(length)?;
 
     // Message ID
     writer.write_u16(self.message_id);
-- 
2.43.0


From e3bdb4b6e88ef8fea6cad322b1fa14166a30fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 22/24] fix: set the reserved flag bits in the header of a
 PUBREL

---
 src/structure/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure/common.rs b/src/structure/common.rs
index 6076842..3a83e18 100644
--- a/src/structure/common.rs
+++ b/src/structure/common.rs
@@ -216,7 +216,7 @@ impl FixedHeader {
             PacketType::Publish => {
                 message_type | ((self.dup as u8) << 3) | (self.qos << 1) | self.retain as u8
             }
-            PacketType::Unsubscribe | PacketType::Subscribe => {
+            PacketType::Unsubscribe | PacketType::Subscribe | PacketType::Pubrel => {
                 message_type | 2 // Bits 3,2,1 and 0 need to ALWAYS be set to 0, 0, 1, 0 respectively
             }
             _ => message_type,
-- 
2.43.0


From b3f6fcc9ea46e0f6693db9493c345e894a717997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 23/24] fix: refuse a packet that reaches beyond the enclosing
 limit

---
 src/byte_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 64b92bf..9efc26b 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -43,6 +43,8 @@ impl<R: Read> ByteReader<R> {
         match length {
             Err(e) => Err(e),
             Ok(len) => {
+                // a packet has to end within the enclosing limit, if there is one
+                self.ensure_limit(len)?;
                 self.take(len);
                 Ok((len, fixed))
             }
-- 
2.43.0


From 4f198fb0ecd058f06dc50b6a8146bc1d640ed224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 24/24] fix: do not take the end of the stream for the end of a
 packet's list

---
 src/byte_reader.rs | 11 ++++++++++-
 src/connack.rs     |  2 +-
 src/suback.rs      |  2 +-
 src/subscribe.rs   |  2 +-
 src/unsuback.rs    |  2 +-
 src/unsubscribe.rs |  2 +-
 6 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/byte_reader.rs b/src/byte_reader.rs
index 9efc26b..39578f0 100644
--- a/src/byte_reader.rs
+++ b/src/byte_reader.rs
@@ -213,6 +213,15 @@ impl<R: Read> ByteReader<R> {
         }
     }
 
+    /// has_more() for the inside of a packet: all of it has to be there,
+    /// the end of the stream is not the end of a list
+    pub(crate) fn has_left(&mut self) -> bool {
+        match self.curr_limit {
+            Some(left) => left > 0,
+            None => self.has_more(),
+        }
+    }
+
     fn start_properties_decode(&mut self) -> Res<u32> {
         let length = self.read_variable_int()?;
         if length > 0 {
@@ -264,7 +273,7 @@ impl<R: Read> ByteReader<R> {
         // let mut subscription_identifiers = vec![];
 
         // TODO: return Err when key is repeated, but not allowed to
-        while self.has_more() {
+        while self.has_left() {
             let prop = self.decode_property()?;
             match prop {
                 (0x26, PropType::Pair(k, v)) => {
diff --git a/src/connack.rs b/src/connack.rs
index cc04b4c..a83d2bc 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -61,7 +61,7 @@ impl Packet for ConnackPacket {
             packet.return_code = Some(reader.read_u8()?);
         }
         // mqtt 5 properties
-        if protocol_version == 5 && reader.has_more() {
+        if protocol_version == 5 && reader.has_left() {
             packet.properties = match reader.read_properties()? {
                 None => None,
                 Some(props) => Some(ConnackProperties::from_properties(props)?),
diff --git a/src/suback.rs b/src/suback.rs
index 5a5d5de..dc629d3 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -63,7 +63,7 @@ impl Packet for SubackPacket {
         }
 
         // Parse granted QoSes
-        while reader.has_more() {
+        while reader.has_left() {
             let code = reader.read_u8()?;
             if protocol_version == 5 {
                 packet
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 856b3c4..f80f1dd 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -38,7 +38,7 @@ impl Packet for SubscribePacket {
             return Err("Malformed subscribe, no payload specified".to_string());
         }
 
-        while reader.has_more() {
+        while reader.has_left() {
             // Parse topic
             let topic = reader.read_utf8_string()?;
             let options = reader.read_u8()?;
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 876c9a3..ee55e08 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -67,7 +67,7 @@ impl Packet for UnsubackPacket {
             };
             // Parse granted QoSes
 
-            while reader.has_more() {
+            while reader.has_left() {
                 let code = UnsubackCode::from_byte(reader.read_u8()?)?;
                 packet.granted.push(code);
             }
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 38641eb..22c954d 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -68,7 +68,7 @@ impl Packet for UnsubscribePacket {
       return Err("Malformed unsubscribe, no payload specified".to_string());
     }
 
-    while reader.has_more() {
+    while reader.has_left() {
       // Parse topic
       let topic = reader.read_utf8_string()?;
       // Push topic to unsubscriptions
-- 
2.43.0

