From 7f6c5f0525d294220d6a8243b69a67a673bef207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 01/36] fix: a crashed child thread must not crash the thread
 that joins it

---
 src/thread.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/thread.rs b/src/thread.rs
index f3ace3a..47514d8 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -33,7 +33,9 @@ pub trait Stoppable {
 impl Stoppable for ThreadHandle {
     /// Join the given Thread, blocking until it exits.
     fn join(self) {
-        self.handle.join().expect("Failed to join child thread!");
+        if self.handle.join().is_err() {
+            error!("Child thread crashed before it was joined!");
+        }
     }
 
     /// Gracefully shutdown the given Thread, blocking until it exists.
-- 
2.43.0


From e4fe12e9ea79e766ea4e93c8cb7359662a7cb7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 02/36] fix: sinks wait for a Shutdown from every upstream

---
 src/sink/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 1252e0d..3714833 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -184,6 +184,7 @@ where
                                 self.state.shutdown();
                                 return;
                             }
+                            break;
                         }
                     },
                     Valve::Closed => {
-- 
2.43.0


From b8cd3e1b4bd050891f05bd23da52fd827f241c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 03/36] fix: filters forward a single Shutdown, after every
 upstream has shut down

---
 src/filter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e6ae4ac..7c995e9 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -81,13 +81,13 @@ pub trait Filter {
             match recv.next() {
                 None => attempts += 1,
                 Some(metric::Event::Shutdown) => {
-                    util::send(&mut chans, metric::Event::Shutdown);
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
                         trace!(
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
                 }
-- 
2.43.0


From c4e0626abd201f7a165042c214c3b38f3d185cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 04/36] fix: reject unknown forwards of the native source like
 those of any other stage

---
 src/bin/cernan.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index fea9357..4567ec1 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -344,6 +344,7 @@ fn main() {
     //
     if let Some(ref configs) = args.native_server_config {
         for (config_path, config) in configs {
+            config_topology.insert(config_path.clone(), config.forwards.clone());
             adjacency_matrix.add_edges(
                 &config_path.clone(),
                 config.forwards.clone(),
-- 
2.43.0


From 6b052be42de5bbed641c9a18aa65607274ea9e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 05/36] fix: stop stages that nothing forwards to at shutdown

---
 src/bin/cernan.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 4567ec1..57345af 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -420,6 +420,13 @@ fn main() {
         }
     }
 
+    // Nothing will ever forward a Shutdown to these.
+    let mut orphans: cernan::util::Channel = senders
+        .iter()
+        .filter(|&(path, _)| !config_topology.values().any(|fwds| fwds.contains(path)))
+        .map(|(_, snd)| snd.clone())
+        .collect();
+
     // SINKS
     //
     if let Some(config) = mem::replace(&mut args.null, None) {
@@ -803,6 +810,8 @@ fn main() {
         source_worker.shutdown();
     }
 
+    cernan::util::send(&mut orphans, metric::Event::Shutdown);
+
     join_all(sinks);
     join_all(filters);
 }
-- 
2.43.0


From 5da20cc4d4e0ddd1e65d6ce0fec5497f31b18817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 06/36] fix: fail when a forward cannot be fulfilled

---
 src/bin/cernan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 57345af..33437b8 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -52,7 +52,7 @@ fn populate_forwards(
                     "Unable to fulfill configured forward: {} => {}",
                     config_path, fwd
                 );
-                process::exit(0);
+                process::exit(1);
             }
         }
     }
@@ -782,7 +782,7 @@ fn main() {
                     "Unable to fulfill configured top-level flush to {}",
                     destination
                 );
-                process::exit(0);
+                process::exit(1);
             }
         }
     }
-- 
2.43.0


From 44f48a066d1b59fbfda3e196b22d737bf3e846aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 07/36] fix: the native sink must flush what it writes and
 retry when that fails

---
 src/sink/native.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2cd6203..c0bd7e8 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -10,7 +10,7 @@ use protobuf::repeated::RepeatedField;
 use protobuf::stream::CodedOutputStream;
 use protobuf::Message;
 use std::collections::HashMap;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -183,9 +183,11 @@ impl Sink<NativeConfig> for Native {
                 let mut sz_buf = [0; 4];
                 let pyld_len = pyld.compute_size();
                 BigEndian::write_u32(&mut sz_buf, pyld_len);
-                stream.write_raw_bytes(&sz_buf).unwrap();
-                let res = pyld.write_to_with_cached_sizes(&mut stream);
-                if res.is_ok() {
+                let res = stream
+                    .write_raw_bytes(&sz_buf)
+                    .and_then(|_| pyld.write_to_with_cached_sizes(&mut stream))
+                    .and_then(|_| stream.flush());
+                if res.is_ok() && bufwrite.flush().is_ok() {
                     self.buffer.clear();
                     return;
                 } else {
-- 
2.43.0


From 5e40f197ca7ea99bd7c12276d006b5ec0018423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 08/36] fix: back off when a sink cannot reach its server at
 all

---
 src/sink/influxdb.rs  | 9 ++++++++-
 src/sink/native.rs    | 3 +++
 src/sink/wavefront.rs | 3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index b694b35..36d0db7 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -252,7 +252,11 @@ impl Sink<InfluxDBConfig> for InfluxDB {
                 .body(buffer.clone())
                 .send()
             {
-                Err(e) => debug!("hyper error doing POST: {:?}", e),
+                Err(e) => {
+                    debug!("hyper error doing POST: {:?}", e);
+                    self.delivery_attempts =
+                        self.delivery_attempts.saturating_add(1);
+                }
                 Ok(resp) => {
                     // https://docs.influxdata.com/influxdb/v1.
                     // 2/guides/writing_data/#http-response-summary
@@ -270,6 +274,9 @@ impl Sink<InfluxDBConfig> for InfluxDB {
                         self.delivery_attempts =
                             self.delivery_attempts.saturating_add(1);
                         INFLUX_FAILURE_SERVER.fetch_add(1, Ordering::Relaxed);
+                    } else {
+                        self.delivery_attempts =
+                            self.delivery_attempts.saturating_add(1);
                     }
                 }
             }
diff --git a/src/sink/native.rs b/src/sink/native.rs
index c0bd7e8..0dc02e4 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -197,6 +197,9 @@ impl Sink<NativeConfig> for Native {
             } else {
                 time::delay(self.delivery_attempts);
                 self.stream = connect(&self.host, self.port);
+                if self.stream.is_none() {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                }
             }
             if delivery_failure {
                 self.stream = None
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 4e5e5c1..7c375dc 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -629,6 +629,9 @@ impl Sink<WavefrontConfig> for Wavefront {
                 time::delay(self.delivery_attempts);
                 WAVEFRONT_CONNECT_ATTEMPTS.fetch_add(1, Ordering::Relaxed);
                 self.stream = connect(&self.host, self.port);
+                if self.stream.is_none() {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                }
             }
             if delivery_failure {
                 self.stream = None
-- 
2.43.0


From 917599564c17623039c07c28e15a598c4d1b4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 09/36] fix: identify telemetry by its tags and not by the
 order of a map's buckets

---
 src/metric/mod.rs       | 26 +++++++++++++++++---------
 src/metric/telemetry.rs | 18 +++++++-----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/metric/mod.rs b/src/metric/mod.rs
index b918448..272b7be 100644
--- a/src/metric/mod.rs
+++ b/src/metric/mod.rs
@@ -19,6 +19,17 @@ use std::collections::{hash_map, HashSet};
 /// A common type in cernan, a map from string to string
 pub type TagMap = util::HashMap<String, String>;
 
+/// The tags of a tagmap, ordered by key
+///
+/// The iteration order of a map depends on how it was built. Equal tagmaps give
+/// equal vectors here, whichever way they came to be. A missing tagmap is an
+/// empty one.
+pub fn sorted_tags(tags: &Option<TagMap>) -> Vec<(&String, &String)> {
+    let mut pairs: Vec<(&String, &String)> = tags.iter().flatten().collect();
+    pairs.sort();
+    pairs
+}
+
 /// Compare two tagmaps
 ///
 /// K/Vs are compared lexographically unless the maps are of different length,
@@ -27,15 +38,12 @@ pub fn cmp_tagmap(
     lhs: &Option<TagMap>,
     rhs: &Option<TagMap>,
 ) -> Option<cmp::Ordering> {
-    match (lhs, rhs) {
-        (&Some(ref l), &Some(ref r)) => {
-            if l.len() != r.len() {
-                l.len().partial_cmp(&r.len())
-            } else {
-                l.iter().partial_cmp(r)
-            }
-        }
-        _ => Some(cmp::Ordering::Equal),
+    let l = sorted_tags(lhs);
+    let r = sorted_tags(rhs);
+    if l.len() != r.len() {
+        l.len().partial_cmp(&r.len())
+    } else {
+        l.partial_cmp(&r)
     }
 }
 
diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 94629a2..977320f 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -1,4 +1,4 @@
-use crate::metric::{cmp_tagmap, TagIter, TagMap};
+use crate::metric::{cmp_tagmap, sorted_tags, TagIter, TagMap};
 use crate::time;
 use quantiles::ckms::CKMS;
 #[cfg(test)]
@@ -844,11 +844,9 @@ impl Telemetry {
     pub fn hash(&self) -> u64 {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
-        if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
+        for (k, v) in sorted_tags(&self.tags) {
+            k.hash(&mut hasher);
+            v.hash(&mut hasher);
         }
         self.kind().hash(&mut hasher);
         hasher.finish()
@@ -863,11 +861,9 @@ impl Telemetry {
     pub fn name_tag_hash(&self) -> u64 {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
-        if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
+        for (k, v) in sorted_tags(&self.tags) {
+            k.hash(&mut hasher);
+            v.hash(&mut hasher);
         }
         hasher.finish()
     }
-- 
2.43.0


From 67857af95715f86400fe6ddc8c652b6d0029ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 10/36] fix: keep a length prefix that arrives in pieces, and
 take an empty payload for what it is

---
 src/source/nonblocking.rs | 55 +++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 6257d96..6fff6a0 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,6 +1,6 @@
 //! Handy interfaces for nonblocking streams.
 
-use byteorder::{BigEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
 use std::{io, mem};
@@ -71,6 +71,12 @@ impl From<String> for PayloadErr {
 ///
 /// For use on blocking or non-blocking streams.
 pub struct BufferedPayload {
+    /// Bytes of the length prefix received so far.
+    length: [u8; 4],
+
+    /// Position in the length prefix receiving.
+    length_pos: usize,
+
     /// Size of the expected payload in bytes. When None, this value is read
     /// off the underlying stream as a big-endian u32.
     payload_size: Option<usize>,
@@ -93,6 +99,8 @@ impl BufferedPayload {
     /// Constructs a new BufferedPayload.
     pub fn new(stream: mio::net::TcpStream, max_payload_size: usize) -> Self {
         BufferedPayload {
+            length: [0; 4],
+            length_pos: 0,
             payload_size: None,
             max_payload_size: max_payload_size,
             payload_pos: 0,
@@ -130,9 +138,25 @@ impl BufferedPayload {
     ///
     /// If a cached value already exists, this function noops.
     fn read_length(&mut self) -> Result<(), PayloadErr> {
-        if self.payload_size.is_none() {
-            self.payload_size = Some(self.buffer.read_u32::<BigEndian>()? as usize);
-        };
+        while self.payload_size.is_none() {
+            match self.buffer.read(&mut self.length[self.length_pos..]) {
+                Ok(0) => return Err(PayloadErr::EOF),
+
+                Ok(bytes_read) => {
+                    // The prefix may arrive in pieces. Keep the ones we have.
+                    self.length_pos += bytes_read;
+                    if self.length_pos == self.length.len() {
+                        let size = BigEndian::read_u32(&self.length);
+                        self.payload_size = Some(size as usize);
+                        self.length_pos = 0;
+                    }
+                }
+
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+
+                Err(e) => return Err(e.into()),
+            }
+        }
         Ok(())
     }
 
@@ -149,30 +173,29 @@ impl BufferedPayload {
             self.payload.resize(payload_size, 0);
         }
 
-        loop {
+        while self.payload_pos < payload_size {
             match self
                 .buffer
                 .read(&mut self.payload[self.payload_pos..payload_size])
             {
                 Ok(0) => return Err(PayloadErr::EOF),
 
-                Ok(bytes_read) if (self.payload_pos + bytes_read) == payload_size => {
-                    // We successfully pulled a payload off the wire.
-                    // Reset bytes remaining for the next payload.
-                    self.payload_size = None;
-                    self.payload_pos = 0;
-                    return Ok(());
-                }
-
                 Ok(bytes_read) => {
-                    // We read some data, but not yet enough.
-                    // Store the difference and try again later.
+                    // We may not have enough yet. Store the difference and
+                    // try again later.
                     self.payload_pos += bytes_read;
-                    continue;
                 }
 
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+
                 Err(e) => return Err(e.into()),
             }
         }
+
+        // We successfully pulled a payload off the wire.
+        // Reset bytes remaining for the next payload.
+        self.payload_size = None;
+        self.payload_pos = 0;
+        Ok(())
     }
 }
-- 
2.43.0


From 20987ff56a2293c4e2ae393aca81f6d8dc3460e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 11/36] fix: treat an avro payload that is cut short as invalid
 instead of panicking

---
 src/source/avro.rs | 65 +++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f84591a..80f76d5 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,7 +7,7 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
@@ -31,7 +31,7 @@ pub struct Header {
     pub order_by: u64,
 }
 
-impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
+impl Header {
     // Parses payload headers from raw bytes.
     // All values assumed to be big endian.
     // Diagram below describes packet layout.
@@ -77,17 +77,17 @@ impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
     //    * Value Length - Length of Value data (max 65535)
     //    * Value - N Bytes of Value data, no encoding enforced (max 65535 bytes)
 
-    fn from(cursor: &'a mut Cursor<Vec<u8>>) -> Self {
-        let version = cursor.read_u32::<BigEndian>().unwrap();
-        let control = cursor.read_u32::<BigEndian>().unwrap();
-        let id = cursor.read_u64::<BigEndian>().unwrap();
-        let order_by = cursor.read_u64::<BigEndian>().unwrap();
-        Header {
+    fn read(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Header> {
+        let version = cursor.read_u32::<BigEndian>()?;
+        let control = cursor.read_u32::<BigEndian>()?;
+        let id = cursor.read_u64::<BigEndian>()?;
+        let order_by = cursor.read_u64::<BigEndian>()?;
+        Ok(Header {
             version: version,
             control: control,
             id: id,
             order_by: order_by,
-        }
+        })
     }
 }
 
@@ -111,30 +111,47 @@ enum Payload {
     },
 }
 
+/// Parses the metadata that follows the header from version 2 on.
+fn read_metadata(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Option<Metadata>> {
+    let num_kv = cursor.read_u8()?;
+    if num_kv < 1 {
+        return Ok(None);
+    }
+    let mut m: Metadata = Metadata::default();
+    for _ in 0..num_kv {
+        let key_len = cursor.read_u8()?;
+        let mut key = vec![0; key_len as usize];
+        cursor.read_exact(&mut key)?;
+        let val_len = cursor.read_u16::<BigEndian>()?;
+        let mut val = vec![0; val_len as usize];
+        cursor.read_exact(&mut val)?;
+        m.insert(key, val);
+    }
+    Ok(Some(m))
+}
+
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
         let mut cursor = Cursor::new(vec);
-        let header: Header = (&mut cursor).into();
+        let header = match Header::read(&mut cursor) {
+            Ok(header) => header,
+            Err(e) => {
+                return Payload::Invalid(format!("Failed to read header - {:?}.", e));
+            }
+        };
 
         let metadata = if header.version < 2 {
             None
         } else {
-            let num_kv = cursor.read_u8().unwrap();
-            if num_kv < 1 {
-                None
-            } else {
-                let mut m: Metadata = Metadata::default();
-                for _ in 0..num_kv {
-                    let key_len = cursor.read_u8().unwrap();
-                    let mut key = vec![0; key_len as usize];
-                    cursor.read_exact(&mut key).unwrap();
-                    let val_len = cursor.read_u16::<BigEndian>().unwrap();
-                    let mut val = vec![0; val_len as usize];
-                    cursor.read_exact(&mut val).unwrap();
-                    m.insert(key, val);
+            match read_metadata(&mut cursor) {
+                Ok(metadata) => metadata,
+                Err(e) => {
+                    return Payload::Invalid(format!(
+                        "Failed to read metadata - {:?}.",
+                        e
+                    ));
                 }
-                Some(m)
             }
         };
 
-- 
2.43.0


From abad371905521c61bab985d2786354d5b8e8d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 12/36] fix: a metadata key that is not UTF-8 must not crash
 the Kafka sink

---
 src/sink/kafka.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 453fbe8..2c6ed8f 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -157,7 +157,7 @@ impl KafkaMessageSender for FutureProducer<STFUContext> {
         let mut headers = OwnedHeaders::new();
         if let Some(m) = metadata {
             for (k, v) in m {
-                headers = headers.clone().add(str::from_utf8(&k).unwrap(), &v);
+                headers = headers.clone().add(&String::from_utf8_lossy(&k), &v);
             }
         };
         Box::new(KafkaPublishResult {
-- 
2.43.0


From 21771b76a3039894cf4d1048dd1154e9f09fe6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 13/36] fix: end a graphite stream with its peer, and keep
 nothing of a bad line for the next

---
 src/source/graphite.rs | 53 +++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9ec883c..9d4f4be 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -6,7 +6,7 @@ use crate::util;
 use crate::util::send;
 use mio;
 use std::io::prelude::*;
-use std::io::BufReader;
+use std::io::{BufReader, ErrorKind};
 use std::str;
 use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -62,10 +62,11 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut res = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
+        GRAPHITE_NEW_PEER.fetch_add(1, Ordering::Relaxed);
 
         loop {
             let mut events = mio::Events::with_capacity(1024);
@@ -75,37 +76,57 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => return,
-                            _stream_token => {
-                                while let Ok(len) = line_reader.read_line(&mut line) {
-                                    if len > 0 {
-                                        if parse_graphite(
-                                            &line,
-                                            &mut res,
-                                            &basic_metric,
-                                        ) {
+                            _stream_token => loop {
+                                match line_reader.read_until(b'\n', &mut line) {
+                                    Ok(0) => {
+                                        // Client went away.
+                                        return;
+                                    }
+
+                                    Ok(_) => {
+                                        let parsed = match str::from_utf8(&line) {
+                                            Ok(val) => parse_graphite(
+                                                val,
+                                                &mut res,
+                                                &basic_metric,
+                                            ),
+                                            Err(_) => false,
+                                        };
+                                        if parsed {
                                             assert!(!res.is_empty());
                                             GRAPHITE_GOOD_PACKET
                                                 .fetch_add(1, Ordering::Relaxed);
                                             GRAPHITE_TELEM
-                                                .fetch_add(1, Ordering::Relaxed);
+                                                .fetch_add(res.len(), Ordering::Relaxed);
                                             for m in res.drain(..) {
                                                 send(
                                                     &mut chans,
                                                     metric::Event::Telemetry(m),
                                                 );
                                             }
-                                            line.clear();
                                         } else {
                                             GRAPHITE_BAD_PACKET
                                                 .fetch_add(1, Ordering::Relaxed);
-                                            error!("bad packet: {:?}", line);
-                                            line.clear();
+                                            error!(
+                                                "bad packet: {:?}",
+                                                String::from_utf8_lossy(&line)
+                                            );
+                                            res.clear();
                                         }
-                                    } else {
+                                        line.clear();
+                                    }
+
+                                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
+                                        // What there is of a line stays in `line`.
                                         break;
                                     }
+
+                                    Err(e) => {
+                                        error!("Failed to read from peer: {:?}", e);
+                                        return;
+                                    }
                                 }
-                            }
+                            },
                         }
                     }
                 }
-- 
2.43.0


From 4c2c57d7f33de18a58c9c5e626741fa5a6d1e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 14/36] fix: keep nothing of a bad statsd packet for the next,
 and drop a socket that fails

---
 src/source/statsd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index aa8030f..06bd9a6 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -112,9 +112,11 @@ impl Statsd {
                         } else {
                             STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                             error!("BAD PACKET: {:?}", val);
+                            metrics.clear();
                         }
                     }
                     Err(e) => {
+                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                         error!("Payload not valid UTF-8: {:?}", e);
                     }
                 },
@@ -193,6 +195,7 @@ impl source::Source<StatsdConfig> for Statsd {
                                         "Deregistering {:?} due to unrecoverable error!",
                                         *socket
                                     );
+                                    let _ = poller.deregister(socket);
                                 }
                             }
                         }
-- 
2.43.0


From c4982d6eaf12f69d8fe3f61d5384bdab2eaa24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 15/36] fix: deliver a tailed line whole, once its writer has
 finished it

---
 src/source/file/file_watcher.rs | 37 +++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a486c0a..ea78531 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -3,6 +3,7 @@ use std::fs;
 use std::io;
 use std::io::BufRead;
 use std::io::Seek;
+use std::mem;
 use std::os::unix::fs::MetadataExt;
 use std::path::PathBuf;
 
@@ -19,6 +20,8 @@ pub struct FileWatcher {
     file_id: Option<(u64, u64)>,
     previous_size: u64,
     reopen: bool,
+    /// What has been read so far of a line that is not complete yet
+    partial: Vec<u8>,
 }
 
 type Devno = u64;
@@ -36,6 +39,18 @@ fn file_id(path: &PathBuf) -> Option<FileId> {
     }
 }
 
+/// Move a line into the buffer, returning its length
+fn take_line(line: &mut Vec<u8>, buffer: &mut String) -> io::Result<usize> {
+    let bytes = mem::replace(line, Vec::new());
+    match String::from_utf8(bytes) {
+        Ok(line) => {
+            buffer.push_str(&line);
+            Ok(line.len())
+        }
+        Err(e) => Err(io::Error::new(io::ErrorKind::InvalidData, e)),
+    }
+}
+
 impl FileWatcher {
     /// Create a new `FileWatcher`
     ///
@@ -56,6 +71,7 @@ impl FileWatcher {
                     file_id: Some((dev, ino)),
                     previous_size: 0,
                     reopen: false,
+                    partial: Vec::new(),
                 })
             }
             Err(e) => match e.kind() {
@@ -67,6 +83,7 @@ impl FileWatcher {
                             file_id: None,
                             previous_size: 0,
                             reopen: false,
+                            partial: Vec::new(),
                         }
                     };
                     Ok(fw)
@@ -115,7 +132,10 @@ impl FileWatcher {
     /// This function will attempt to read a new line from its file, blocking,
     /// up to some maximum but unspecified amount of time. `read_line` will open
     /// a new file handler at need, transparently to the caller.
-    pub fn read_line(&mut self, mut buffer: &mut String) -> io::Result<usize> {
+    ///
+    /// A line that its writer has not finished yet is kept until the rest of it
+    /// arrives, or until the file is replaced by another.
+    pub fn read_line(&mut self, buffer: &mut String) -> io::Result<usize> {
         if self.reopen {
             self.open_at_start();
         }
@@ -146,6 +166,7 @@ impl FileWatcher {
             let current_size = reader.get_ref().metadata().unwrap().size();
             if self.previous_size > current_size {
                 assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());
+                self.partial.clear();
                 report_full_telemetry(
                     "cernan.sources.file.truncation",
                     (self.previous_size - current_size) as f64,
@@ -158,17 +179,21 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_line(&mut buffer) {
+            match reader.read_until(b'\n', &mut self.partial) {
                 Ok(0) => {
                     if file_id(&self.path) != self.file_id {
                         self.reopen = true;
+                        return take_line(&mut self.partial, buffer);
                     }
                     Ok(0)
                 }
-                Ok(sz) => {
-                    assert_eq!(sz, buffer.len());
-                    buffer.pop();
-                    Ok(buffer.len())
+                Ok(_) => {
+                    if self.partial.last() == Some(&b'\n') {
+                        self.partial.pop();
+                        take_line(&mut self.partial, buffer)
+                    } else {
+                        Ok(0)
+                    }
                 }
                 Err(e) => {
                     if let io::ErrorKind::NotFound = e.kind() {
-- 
2.43.0


From a21a82ff0d5af3ef0bf9653d265b1dfbc155d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 16/36] fix: a script's mistake must not break the filter that
 runs it

---
 src/filter/programmable_filter.rs | 144 +++++++++++++++++++++++++-----
 1 file changed, 124 insertions(+), 20 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index cb1a120..9f7cafb 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -13,11 +13,14 @@ struct Payload<'a> {
     path: &'a str,
 }
 
-fn idx(n: i64, top: usize) -> usize {
-    if n < 0 {
-        (top - (n.abs() as usize))
+/// Find the place that a script's index refers to, if there is such a place.
+/// Indices start at 1; negative ones count from the end.
+fn idx(n: i64, top: usize) -> Option<usize> {
+    let place = if n < 0 { n + (top as i64) } else { n - 1 };
+    if 0 <= place && place < (top as i64) {
+        Some(place as usize)
     } else {
-        (n - 1) as usize
+        None
     }
 }
 
@@ -61,7 +64,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = match idx(state.to_integer(2), (*pyld).metrics.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[metric_name] no such metric");
+                state.push_nil();
+                return 1;
+            }
+        };
         state.push_string(&(*pyld).metrics[idx].name);
         1
     }
@@ -70,7 +80,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_value] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         state.push_string(&(*pyld).logs[idx].value);
         1
     }
@@ -79,7 +96,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_path] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         state.push_string(&(*pyld).logs[idx].path);
         1
     }
@@ -88,7 +112,13 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = match idx(state.to_integer(2), (*pyld).metrics.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[set_metric_name] no such metric");
+                return 0;
+            }
+        };
         (*pyld).metrics[idx].name = state.check_string(3).into();
         0
     }
@@ -168,7 +198,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_tag_value] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -192,7 +229,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_field_value] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
@@ -214,7 +258,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = match idx(state.to_integer(2), (*pyld).metrics.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[metric_tag_value] no such metric");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -238,7 +289,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = match idx(state.to_integer(2), (*pyld).metrics.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[metric_set_tag] no such metric");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
@@ -266,7 +324,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_set_tag] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
@@ -294,7 +359,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_set_field] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
@@ -322,7 +394,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_set_value] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
@@ -339,7 +418,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = match idx(state.to_integer(2), (*pyld).metrics.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[metric_remove_tag] no such metric");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -361,7 +447,14 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[log_remove_tag] no such log");
+                state.push_nil();
+                return 1;
+            }
+        };
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -384,7 +477,14 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
         let prcnt = state.to_number(2);
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = match idx(state.to_integer(2), (*pyld).metrics.len()) {
+            Some(idx) => idx,
+            None => {
+                error!("[metric_query] no such metric");
+                state.push_nil();
+                return 1;
+            }
+        };
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
                 state.push_number(v);
@@ -587,8 +687,10 @@ fn run_lua_func(
         .unwrap();
     let fail = metric::Event::Telemetry(filter_telem);
 
+    let top = state.get_top();
     state.get_global(func_name);
     if !state.is_fn(-1) {
+        state.set_top(top);
         return Err(filter::FilterError::NoSuchFunction(func_name, fail));
     }
 
@@ -612,7 +714,9 @@ fn run_lua_func(
             error
         } else {
             "While handling a lua error, lua error message was not a string"
-        };
-        Err(filter::FilterError::LuaError(error.to_owned(), fail))
+        }
+        .to_owned();
+        state.set_top(top);
+        Err(filter::FilterError::LuaError(error, fail))
     }
 }
-- 
2.43.0


From 2ba2050d6c897e6c18ba78100fe0893f5cdeb263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 17/36] fix: let scripts query a metric for a quantile of their
 choice

---
 src/filter/programmable_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 9f7cafb..3318bbf 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -476,7 +476,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let prcnt = state.to_number(2);
+        let prcnt = state.to_number(3);
         let idx = match idx(state.to_integer(2), (*pyld).metrics.len()) {
             Some(idx) => idx,
             None => {
-- 
2.43.0


From bbd1f64ed48c2fe1e16cc08243a59f559aec920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 18/36] fix: do not hold back what a filter emits before it
 fails

---
 src/filter/mod.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 7c995e9..9d9a4ea 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -93,20 +93,17 @@ pub trait Filter {
                 }
                 Some(event) => {
                     attempts = 0;
-                    match self.process(event, &mut events) {
-                        Ok(()) => {
-                            for ev in events.drain(..) {
-                                util::send(&mut chans, ev)
-                            }
-                        }
-                        Err(fe) => {
-                            error!(
-                                "Failed to run filter with error: {:?}",
-                                msg_in_fe(&fe)
-                            );
-                            let event = event_in_fe(fe);
-                            util::send(&mut chans, event);
-                        }
+                    let result = self.process(event, &mut events);
+                    for ev in events.drain(..) {
+                        util::send(&mut chans, ev)
+                    }
+                    if let Err(fe) = result {
+                        error!(
+                            "Failed to run filter with error: {:?}",
+                            msg_in_fe(&fe)
+                        );
+                        let event = event_in_fe(fe);
+                        util::send(&mut chans, event);
                     }
                 }
             }
-- 
2.43.0


From 3b8d5cf6f72344cf51e707d5ee3d5ba8aab5699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 19/36] fix: let events without a timestamp through the flush
 boundary filter

---
 src/filter/flush_boundary_filter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 8e3b634..48c07bf 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -84,6 +84,9 @@ impl filter::Filter for FlushBoundaryFilter {
                         self.holds.insert(idx, hold)
                     }
                 }
+            } else {
+                // There's no telling which flush this belongs to.
+                res.push(event);
             }
         }
         Ok(())
-- 
2.43.0


From 58c89e391d9fa5a41bdf2fc42c8e3a0904434afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 20/36] fix: emit what the flush boundary filter holds before
 it stops

---
 src/filter/flush_boundary_filter.rs |  6 ++++++
 src/filter/mod.rs                   | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 48c07bf..4ce3a94 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -91,4 +91,10 @@ impl filter::Filter for FlushBoundaryFilter {
         }
         Ok(())
     }
+
+    fn drain(&mut self, res: &mut Vec<metric::Event>) {
+        for mut hold in self.holds.drain(..) {
+            res.append(&mut hold.events);
+        }
+    }
 }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 9d9a4ea..2b567bf 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -61,6 +61,12 @@ pub trait Filter {
         res: &mut Vec<metric::Event>,
     ) -> Result<(), FilterError>;
 
+    /// Give up the events held back
+    ///
+    /// This is called once, when the filter has seen its last event. Filters
+    /// which hold on to events must emit them here.
+    fn drain(&mut self, _res: &mut Vec<metric::Event>) {}
+
     /// Run the Filter
     ///
     /// It is not expected that most Filters will re-implement this. If this is
@@ -87,6 +93,10 @@ pub trait Filter {
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        self.drain(&mut events);
+                        for ev in events.drain(..) {
+                            util::send(&mut chans, ev)
+                        }
                         util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
-- 
2.43.0


From b1eb0571caf658557fe1ed3c45a0a067bdd65843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 21/36] fix: age held events once per flush, not once per copy
 of it

---
 src/filter/flush_boundary_filter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 4ce3a94..e1d7b23 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -9,6 +9,7 @@ use std::mem;
 /// likelyhood of cross-flush splits of timestamps.
 pub struct FlushBoundaryFilter {
     tolerance: usize,
+    last_flush_idx: u64,
     holds: Vec<Hold>,
 }
 
@@ -48,6 +49,7 @@ impl FlushBoundaryFilter {
     pub fn new(config: &FlushBoundaryFilterConfig) -> FlushBoundaryFilter {
         FlushBoundaryFilter {
             tolerance: config.tolerance,
+            last_flush_idx: 0,
             holds: Vec::new(),
         }
     }
@@ -59,7 +61,12 @@ impl filter::Filter for FlushBoundaryFilter {
         event: metric::Event,
         res: &mut Vec<metric::Event>,
     ) -> Result<(), filter::FilterError> {
-        if event.is_timer_flush() {
+        if let metric::Event::TimerFlush(flush_idx) = event {
+            if self.last_flush_idx >= flush_idx {
+                // This flush came by another way before.
+                return Ok(());
+            }
+            self.last_flush_idx = flush_idx;
             for hold in &mut self.holds {
                 hold.age += 1;
             }
-- 
2.43.0


From 0cd1a660772aa5023e7454ba54f5189d37572685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 22/36] fix: accept exactly the times within the delay filter's
 tolerance

---
 src/filter/delay_filter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 2756070..8df7f19 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -47,6 +47,12 @@ impl DelayFilter {
             tolerance: config.tolerance,
         }
     }
+
+    /// Is some time within the tolerance of current time?
+    fn timely(&self, timestamp: i64) -> bool {
+        let age = time::now().saturating_sub(timestamp);
+        0i64.saturating_sub(self.tolerance) <= age && age <= self.tolerance
+    }
 }
 
 impl filter::Filter for DelayFilter {
@@ -57,7 +63,7 @@ impl filter::Filter for DelayFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Telemetry(telem) => {
-                if (telem.timestamp - time::now()).abs() < self.tolerance {
+                if self.timely(telem.timestamp) {
                     DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Telemetry(telem));
                 } else {
@@ -65,7 +71,7 @@ impl filter::Filter for DelayFilter {
                 }
             }
             metric::Event::Log(log) => {
-                if (log.time - time::now()).abs() < self.tolerance {
+                if self.timely(log.time) {
                     DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Log(log));
                 } else {
-- 
2.43.0


From da3f4d27f4f8fbe62f8f019d7ed0a39e80c06afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 23/36] fix: a bulk response about a line that is not buffered
 must not crash the sink

---
 src/sink/elasticsearch.rs | 45 ++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a3d962a..7a50c2b 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -10,7 +10,6 @@ use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
 use elastic::prelude::*;
-use std::cmp;
 use std::error::Error;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid;
@@ -123,6 +122,12 @@ pub struct Elasticsearch {
 }
 
 impl Elasticsearch {
+    /// Find the line that an item of a response is about, if there is one.
+    fn position(&self, id: &str) -> Option<usize> {
+        let uuid = uuid::Uuid::parse_str(id).ok()?;
+        self.buffer.iter().position(|line| line.uuid == uuid)
+    }
+
     fn bulk_body(&self, buffer: &mut String) {
         assert!(!self.buffer.is_empty());
         use serde_json::{to_string, Value};
@@ -198,39 +203,21 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                     for item in bulk.iter() {
                         match item {
                             Ok(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
+                                if let Some(idx) = self.position(item.id()) {
+                                    self.buffer.remove(idx);
+                                    ELASTIC_RECORDS_TOTAL_DELIVERED
+                                        .fetch_add(1, Ordering::Relaxed);
                                 }
-                                self.buffer.remove(idx);
-                                ELASTIC_RECORDS_TOTAL_DELIVERED
-                                    .fetch_add(1, Ordering::Relaxed);
                             }
                             Err(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
+                                if let Some(idx) = self.position(item.id()) {
+                                    let attempts =
+                                        self.buffer[idx].attempts.saturating_add(1);
+                                    self.buffer[idx].attempts = attempts;
+                                    if attempts > self.delivery_attempt_limit {
+                                        self.buffer.remove(idx);
                                     }
                                 }
-                                self.buffer[idx].attempts += 1;
-                                if self.buffer[idx].attempts
-                                    > self.delivery_attempt_limit
-                                {
-                                    self.buffer.remove(idx);
-                                }
                                 ELASTIC_RECORDS_TOTAL_FAILED
                                     .fetch_add(1, Ordering::Relaxed);
                                 if let Some(source) = item.source() {
-- 
2.43.0


From d81bbe6d511067efe53488d8f57f1c55692f355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 24/36] fix: timestamps no date exists for must not crash
 whoever prints them

---
 src/filter/json_encode_filter.rs |  4 ++--
 src/sink/console.rs              |  4 ++--
 src/sink/elasticsearch.rs        |  6 +++---
 src/sink/native.rs               |  4 ++--
 src/time.rs                      | 13 +++++++++++++
 5 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/filter/json_encode_filter.rs b/src/filter/json_encode_filter.rs
index 4fdf7ed..8b336d3 100644
--- a/src/filter/json_encode_filter.rs
+++ b/src/filter/json_encode_filter.rs
@@ -10,7 +10,7 @@
 
 use crate::filter;
 use crate::metric;
-use chrono::naive::NaiveDateTime;
+use crate::time;
 use chrono::offset::Utc;
 use chrono::DateTime;
 use rand::random;
@@ -72,7 +72,7 @@ impl filter::Filter for JSONEncodeFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Log(log) => {
-                let naive_time = NaiveDateTime::from_timestamp(log.time, 0);
+                let naive_time = time::datetime(log.time);
                 let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
                 let metadata = json_to_object(json!({
                     "time": utc_time.to_rfc3339(),
diff --git a/src/sink/console.rs b/src/sink/console.rs
index 917427f..7aebf7c 100644
--- a/src/sink/console.rs
+++ b/src/sink/console.rs
@@ -4,7 +4,7 @@ use crate::buckets::Buckets;
 use crate::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time;
 use chrono::offset::Utc;
 use chrono::DateTime;
 
@@ -202,7 +202,7 @@ impl Sink<ConsoleConfig> for Console {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
+    let naive_time = time::datetime(time);
     let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
     format!("{}", utc_time.format("%Y-%m-%dT%H:%M:%S%.3fZ"))
 }
diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index 7a50c2b..6d9b871 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,7 +3,7 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time;
 use chrono::offset::Utc;
 use chrono::DateTime;
 use elastic::client::responses::bulk;
@@ -345,14 +345,14 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
+    let naive_time = time::datetime(time);
     let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
     format!("{}", utc_time.format("%+"))
 }
 
 #[inline]
 fn idx(prefix: &Option<String>, time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
+    let naive_time = time::datetime(time);
     let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
     match *prefix {
         Some(ref p) => format!("{}-{}", p, utc_time.format("%Y-%m-%d")),
diff --git a/src/sink/native.rs b/src/sink/native.rs
index 0dc02e4..2c5a035 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -143,7 +143,7 @@ impl Sink<NativeConfig> for Native {
                         meta.insert(k.to_string(), v.to_string());
                     }
                     telem.set_metadata(meta);
-                    telem.set_timestamp_ms(m.timestamp * 1000); // FIXME #166
+                    telem.set_timestamp_ms(m.timestamp.saturating_mul(1000)); // FIXME #166
                     telem.set_samples(m.samples());
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
@@ -163,7 +163,7 @@ impl Sink<NativeConfig> for Native {
                     ll.set_path(l.path);
                     ll.set_value(l.value);
                     ll.set_metadata(meta);
-                    ll.set_timestamp_ms(l.time * 1000); // FIXME #166
+                    ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
                     lines.push(ll);
                 }
diff --git a/src/time.rs b/src/time.rs
index 19ec2a8..8af23e9 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -4,6 +4,7 @@
 //! for cernan and update it ourselves periodically. See `update_time` in this
 //! module for more details.
 
+use chrono::naive::{NaiveDateTime, MAX_DATE, MIN_DATE};
 use chrono::offset::Utc;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{thread, time};
@@ -17,6 +18,18 @@ pub fn now() -> i64 {
     NOW.load(Ordering::Relaxed) as i64
 }
 
+/// Return the date and time of some epoch seconds
+///
+/// Timestamps come from the outside world. The ones there is no date for are
+/// taken for the first or the last date there is.
+pub fn datetime(timestamp: i64) -> NaiveDateTime {
+    match NaiveDateTime::from_timestamp_opt(timestamp, 0) {
+        Some(datetime) => datetime,
+        None if timestamp < 0 => MIN_DATE.and_hms(0, 0, 0),
+        None => MAX_DATE.and_hms(23, 59, 59),
+    }
+}
+
 /// Update cernan's view of time every 500ms. Time is in UTC.
 pub fn update_time() {
     let dur = time::Duration::from_millis(500);
-- 
2.43.0


From f3450db84c193454aab67db5a7a1e69060ce3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 25/36] fix: count wavefront sets as sets

---
 src/sink/wavefront.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 7c375dc..1bf2c01 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -429,9 +429,12 @@ impl Wavefront {
                         AggregationMethod::Histogram => {
                             WAVEFRONT_AGGR_HISTO.fetch_add(1, Ordering::Relaxed)
                         }
-                        AggregationMethod::Sum | AggregationMethod::Set => {
+                        AggregationMethod::Sum => {
                             WAVEFRONT_AGGR_SUM.fetch_add(1, Ordering::Relaxed)
                         }
+                        AggregationMethod::Set => {
+                            WAVEFRONT_AGGR_SET.fetch_add(1, Ordering::Relaxed)
+                        }
                         AggregationMethod::Summarize => {
                             WAVEFRONT_AGGR_SUMMARIZE.fetch_add(1, Ordering::Relaxed);
                             WAVEFRONT_AGGR_TOT_PERCENT
-- 
2.43.0


From 1600197407d6e61d36d4aff47ed6461c1693be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 26/36] fix: a stage without neighbours has none, which is no
 reason to crash

---
 src/matrix.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 79b081b..2d6e60f 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -81,11 +81,10 @@ impl<M: Clone + Debug> Adjacency<M> {
     where
         for<'r> F: FnMut(&'r (&String, &Option<M>)) -> bool,
     {
-        self.edges[id]
-            .iter()
-            .filter(f)
-            .map(|(k, _v)| k.clone())
-            .collect()
+        match self.edges.get(id) {
+            Some(edges) => edges.iter().filter(f).map(|(k, _v)| k.clone()).collect(),
+            None => Vec::new(),
+        }
     }
 
     /// Iterates over edge relations in the matrix.
-- 
2.43.0


From fbc13ee2ec4a3244cce37a1291c553f0b8f8f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 27/36] fix: tell acks of payloads on one Avro connection apart

All payloads of a connection shared the id acks are filed under. An ack that
came late for an earlier payload (one sent without asking for an ack, or one
acked by a second sink) then passed as the ack of a later one, and the client
was told a payload was published that was not.
---
 src/source/avro.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 80f76d5..d3b5ba2 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -189,7 +189,6 @@ impl TCPStreamHandler for AvroStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let connection_id = Uuid::new_v4();
         let mut streaming = true;
         let mut reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);
         while streaming {
@@ -207,6 +206,10 @@ impl TCPStreamHandler for AvroStreamHandler {
                                 while streaming {
                                     match reader.read() {
                                         Ok(payload) => {
+                                            // Acks are told apart by this id. Were
+                                            // payloads to share one, a late ack for
+                                            // one would pass as an ack for the next.
+                                            let connection_id = Uuid::new_v4();
                                             let handle_res = self.handle_avro_payload(
                                                 chans.clone(),
                                                 payload,
-- 
2.43.0


From 2a887e3eeb73d2b9d646dd9d2a7bbe5605b045f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 28/36] fix: announce the true length of native telemetry with
 16 samples or more

---
 src/protocols/native.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/native.rs b/src/protocols/native.rs
index 002f250..31ddaf6 100644
--- a/src/protocols/native.rs
+++ b/src/protocols/native.rs
@@ -915,7 +915,7 @@ impl ::protobuf::Message for Telemetry {
             my_size += ::protobuf::rt::string_size(1, &v);
         }
         if !self.samples.is_empty() {
-            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size(self.samples.len() as u32) + (self.samples.len() * 8) as u32;
+            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size((self.samples.len() * 8) as u32) + (self.samples.len() * 8) as u32;
         }
         if let Some(v) = self.persisted {
             my_size += 2;
-- 
2.43.0


From b9cf594195511bcb14fccd0c1a0a1cbb380ba1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 29/36] fix: a client gone before its ack must not crash its
 connection's handler

---
 src/source/avro.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index d3b5ba2..5aab65c 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -233,10 +233,18 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     .expect(
                                                         "Failed to write response id!",
                                                     );
-                                                write_all(&stream, resp.get_ref())
-                                                    .expect(
-                                                        "Failed to write response!",
+                                                if let Err(e) =
+                                                    write_all(&stream, resp.get_ref())
+                                                {
+                                                    error!(
+                                                        "Failed to write response: {:?}",
+                                                        e
                                                     );
+                                                    AVRO_PAYLOAD_IO_FAILURE_SUM
+                                                        .fetch_add(1, Ordering::Relaxed);
+                                                    streaming = false;
+                                                    break;
+                                                }
                                                 trace!("Acked {:?}", id);
                                             }
                                         }
-- 
2.43.0


From 8e60f8caaa2915f56af31bd2cc967e5928664ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 30/36] fix: report elasticsearch's buffer as a state, and
 every purge prometheus makes

---
 src/sink/prometheus.rs | 2 +-
 src/source/internal.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 023b8d9..a2a0959 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -655,7 +655,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn flush(&mut self) {
         let total_purged = self.aggrs.lock().unwrap().purge();
-        PROMETHEUS_AGGR_WINDOWED_PURGED.store(total_purged, Ordering::Relaxed);
+        PROMETHEUS_AGGR_WINDOWED_PURGED.fetch_add(total_purged, Ordering::Relaxed);
     }
 
     fn deliver(&mut self, telem: Telemetry) {
diff --git a/src/source/internal.rs b/src/source/internal.rs
index 9a8ed7c..3743dca 100644
--- a/src/source/internal.rs
+++ b/src/source/internal.rs
@@ -194,7 +194,7 @@ impl source::Source<InternalConfig> for Internal {
                             sink::elasticsearch::ELASTIC_RECORDS_DELIVERY,
                             chans
                         );
-                        atom_telem!(
+                        atom_set_telem!(
                             "cernan.sinks.elasticsearch.internal.buffer_len",
                             sink::elasticsearch::ELASTIC_INTERNAL_BUFFER_LEN,
                             chans
-- 
2.43.0


From b83c302edf3601a3f0a131c1581a6af20bdb9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 31/36] fix: keep a Prometheus time-series per tagmap, not per
 name

---
 src/sink/prometheus.rs | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index a2a0959..0a672a7 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -17,7 +17,7 @@ use crate::time;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use quantiles::histogram::Bound;
-use std::collections::hash_map::{Entry, HashMap, Values};
+use std::collections::hash_map::{Entry, HashMap};
 use std::collections::HashSet;
 use std::f64;
 use std::io;
@@ -27,6 +27,7 @@ use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Mutex;
 use std::time::Instant;
+use std::vec;
 
 /// Total reportable metrics
 pub static PROMETHEUS_AGGR_REPORTABLE: AtomicUsize = AtomicUsize::new(0);
@@ -225,18 +226,40 @@ struct PrometheusAggr {
     // The idea being that there's no good reason to flush these things,
     // according to this conversation:
     // https://github.com/postmates/cernan/pull/306#discussion_r139770087
+    //
+    // Keys are those of `series_key`: there's one accumulator per name, tags
+    // pair.
     data: HashMap<String, Accumulator>,
     // Summarize metrics are kept in a time-based sliding window. The
     // capacity_in_seconds determines how wide this window is.
     capacity_in_seconds: usize,
 }
 
+/// Identify the time-series to which a Telemetry belongs
+///
+/// Telemetry of the same name belong to the same time-series only if their
+/// tagmaps are the same. The key starts with the name, followed by tags in
+/// sorted order.
+fn series_key(telem: &Telemetry) -> String {
+    let defaults = TagMap::default();
+    let mut tags: Vec<(&String, &String)> = telem.tags(&defaults).collect();
+    tags.sort();
+    let mut key = telem.name.clone();
+    for (k, v) in tags {
+        key.push('\0');
+        key.push_str(k);
+        key.push('\0');
+        key.push_str(v);
+    }
+    key
+}
+
 impl PrometheusAggr {
     /// Return a reference to the stored Telemetry if it matches the passed
     /// Telemetry
     #[cfg(test)]
     fn find_match(&self, telem: &Telemetry) -> Option<Telemetry> {
-        if let Some(accum) = self.data.get(&telem.name) {
+        if let Some(accum) = self.data.get(&series_key(telem)) {
             match *accum {
                 Accumulator::Perpetual(ref t) => Some(t.clone()),
                 Accumulator::Windowed {
@@ -262,8 +285,11 @@ impl PrometheusAggr {
     /// This function returns all the stored Telemetry points that are available
     /// for shipping to Prometheus.
     fn reportable(&self) -> Iter {
+        // Exposition requires that all lines of a metric be kept together.
+        let mut samples: Vec<(&String, &Accumulator)> = self.data.iter().collect();
+        samples.sort_by_key(|&(key, _)| key);
         Iter {
-            samples: self.data.values(),
+            samples: samples.into_iter(),
         }
     }
 
@@ -277,7 +303,7 @@ impl PrometheusAggr {
     /// end, this function returns False if a Telemetry is inserted that differs
     /// only in its aggregation method from a Telemetry stored previously.
     fn insert(&mut self, telem: Telemetry) -> bool {
-        let entry: Entry<String, Accumulator> = self.data.entry(telem.name.clone());
+        let entry: Entry<String, Accumulator> = self.data.entry(series_key(&telem));
         match entry {
             Entry::Occupied(mut oe) => {
                 let prev = oe.get_mut();
@@ -333,7 +359,7 @@ impl PrometheusAggr {
 
 /// Iteration struct for the bucket. Created by `Buckets.iter()`.
 pub struct Iter<'a> {
-    samples: Values<'a, String, Accumulator>,
+    samples: vec::IntoIter<(&'a String, &'a Accumulator)>,
 }
 
 impl<'a> Iterator for Iter<'a> {
@@ -342,13 +368,13 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Telemetry> {
         loop {
             match self.samples.next() {
-                Some(&Accumulator::Perpetual(ref t)) => return Some(t.clone()),
-                Some(&Accumulator::Windowed {
+                Some((_, &Accumulator::Perpetual(ref t))) => return Some(t.clone()),
+                Some((_, &Accumulator::Windowed {
                     ref samples,
                     count,
                     sum,
                     ..
-                }) => match samples.len() {
+                })) => match samples.len() {
                     0 => continue,
                     1 => {
                         return Some(
-- 
2.43.0


From f779887be4e103342e256db9d3e9cd648cb0364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 32/36] fix: announce the type of a sanitized Prometheus metric
 once

---
 src/sink/prometheus.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 0a672a7..2f80e4e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -532,7 +532,7 @@ where
         match value.kind() {
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "counter", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -540,7 +540,7 @@ where
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "gauge", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -548,7 +548,7 @@ where
             }
             AggregationMethod::Histogram => {
                 if let Some(bin_iter) = value.bins() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "histogram", &mut w)?;
                     }
                     let mut running_sum = 0;
@@ -589,7 +589,7 @@ where
                 }
             }
             AggregationMethod::Summarize => {
-                if seen.insert(value.name.clone()) {
+                if seen.insert(sanitized_name.clone()) {
                     write_type(&sanitized_name, "summary", &mut w)?;
                 }
                 for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
-- 
2.43.0


From c97a06d116ce80ede13201e24f691c7ca978be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 33/36] fix: escape label values in the Prometheus exposition

---
 src/sink/prometheus.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 2f80e4e..598d11e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -476,7 +476,14 @@ where
 {
     s.write_all(k.as_bytes())?;
     s.write_all(b"=\"")?;
-    s.write_all(v.as_bytes())?;
+    for b in v.as_bytes() {
+        match *b {
+            b'\\' => s.write_all(b"\\\\")?,
+            b'"' => s.write_all(b"\\\"")?,
+            b'\n' => s.write_all(b"\\n")?,
+            c => s.write_all(&[c])?,
+        }
+    }
     s.write_all(b"\"")
 }
 
-- 
2.43.0


From a3d8355eef80b9819ce8b84e05f3a2bcd3114b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 34/36] fix: count every sample of a summary in the Prometheus
 window

---
 src/sink/prometheus.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 598d11e..709600e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -161,12 +161,13 @@ impl Accumulator {
                 assert_eq!(telem.kind(), AggregationMethod::Summarize);
                 // u64::wrapping_add makes a new u64. We need this to be
                 // in-place. Oops!
-                if (u64::MAX - *count) <= 1 {
-                    *count = 1;
+                let total = telem.count() as u64;
+                if (u64::MAX - *count) <= total {
+                    *count = total;
                 } else {
-                    *count += 1;
+                    *count += total;
                 }
-                let val = telem.query(1.0).unwrap();
+                let val = telem.samples_sum().unwrap_or(0.0);
                 // There's no wrapping_add for f64. Since it's rude to crash
                 // cernan because we've been summing for too long we knock
                 // together our own wrap.
@@ -320,11 +321,12 @@ impl PrometheusAggr {
                     | AggregationMethod::Histogram => Accumulator::Perpetual(telem),
                     AggregationMethod::Summarize => {
                         let mut samples = Vec::new();
-                        let sum = telem.query(1.0).unwrap();
+                        let count = telem.count() as u64;
+                        let sum = telem.samples_sum().unwrap_or(0.0);
                         samples.push(telem);
                         Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
-                            count: 1,
+                            count,
                             sum,
                             samples,
                         }
-- 
2.43.0


From 5e09658d1236cacd396ad3511258626772e668cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 35/36] fix: a value that is not a number must not crash the
 sinks that cache what values display as

---
 src/sink/influxdb.rs  | 8 ++++++--
 src/sink/wavefront.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 36d0db7..3b1970b 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -89,12 +89,16 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
-    match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
+    // NaN compares to nothing: it has no place in the cache, nor can it be found
+    // there, but it must not crash the sink.
+    match cache.binary_search_by(|probe| {
+        probe.0.partial_cmp(&val).unwrap_or(cmp::Ordering::Less)
+    }) {
         Ok(idx) => &cache[idx].1,
         Err(idx) => {
             let str_val = val.to_string();
             cache.insert(idx, (val, str_val));
-            get_from_cache(cache, val)
+            &cache[idx].1
         }
     }
 }
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 1bf2c01..86ac50b 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -346,12 +346,16 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
-    match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
+    // NaN compares to nothing: it has no place in the cache, nor can it be found
+    // there, but it must not crash the sink.
+    match cache.binary_search_by(|probe| {
+        probe.0.partial_cmp(&val).unwrap_or(cmp::Ordering::Less)
+    }) {
         Ok(idx) => &cache[idx].1,
         Err(idx) => {
             let str_val = val.to_string();
             cache.insert(idx, (val, str_val));
-            get_from_cache(cache, val)
+            &cache[idx].1
         }
     }
 }
-- 
2.43.0


From 9745c1dd022658359b0f09be5bd629ef022bd3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 36/36] fix: the native sink's delay between attempts starts
 over after a delivery

---
 src/sink/native.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2c5a035..bb92f86 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -189,6 +189,7 @@ impl Sink<NativeConfig> for Native {
                     .and_then(|_| stream.flush());
                 if res.is_ok() && bufwrite.flush().is_ok() {
                     self.buffer.clear();
+                    self.delivery_attempts = 0;
                     return;
                 } else {
                     self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-- 
2.43.0

