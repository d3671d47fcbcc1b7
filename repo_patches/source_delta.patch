From 3481d3da1cc553306005d598e4f16ba6a68f9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 01/21] fix: report a cut-off domain name pointer as EOF
 instead of panicking

---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index ee710bd..d00b1a2 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -110,7 +110,7 @@ impl<'a> Reader<'a> {
             match length & 0b1100_0000 {
                 0b1100_0000 => {
                     // 16-bit pointer to somewhere else in the UDP message.
-                    let ptr = usize::from(copy.read_u16().unwrap() & 0b0011_1111_1111_1111);
+                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                     if ptr >= min_pos {
                         // We require pointers to point to an earlier part of the message, to
                         // prevent loops. The specification is unclear about what exactly is
-- 
2.43.0


From 2dc0f1a08d63ec0f79082a01f92f08ae5783f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 02/21] fix: continue after the first pointer of a compressed
 domain name

The furthest position reached while following pointers was used, so a name whose
target extends past the pointer itself swallowed the bytes behind it.
---
 src/packet/decoder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index d00b1a2..aa24060 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -1,7 +1,7 @@
 //! DNS packet decoder.
 
 use core::mem;
-use std::{any::TypeId, cell::Cell, cmp, fmt, marker::PhantomData, mem::size_of};
+use std::{any::TypeId, cell::Cell, fmt, marker::PhantomData, mem::size_of};
 
 use bytemuck::AnyBitPattern;
 
@@ -104,6 +104,8 @@ impl<'a> Reader<'a> {
     pub(crate) fn read_domain_name(&self) -> Result<DomainName, Error> {
         let mut domain_name = DomainName::ROOT;
         let mut min_pos = self.pos.get();
+        // Position after the first pointer, where decoding continues after this name.
+        let mut end_pos = None;
         let mut copy = self.clone();
         loop {
             let length = copy.peek_u8()?;
@@ -117,7 +119,7 @@ impl<'a> Reader<'a> {
                         // allowed.
                         return Err(Error::PointerLoop);
                     } else {
-                        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+                        end_pos.get_or_insert(copy.pos.get());
                         min_pos = ptr;
                         copy.pos = ptr.into();
                     }
@@ -137,7 +139,7 @@ impl<'a> Reader<'a> {
             }
         }
 
-        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+        self.pos.set(end_pos.unwrap_or(copy.pos.get()));
         Ok(domain_name)
     }
 
-- 
2.43.0


From 384e1d2ad25b83d2c4b74118b68e664eaa485c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 03/21] fix: only strip the unicast-response bit from the
 question class

---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index aa24060..b0da043 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -148,7 +148,7 @@ impl<'a> Reader<'a> {
         let qtype = QType(self.read_u16()?);
         let qclass = self.read_u16()?;
         let prefer_unicast = qclass & 0x8000 != 0;
-        let qclass = QClass(qclass & 0xff);
+        let qclass = QClass(qclass & 0x7fff);
         Ok(Question {
             qname,
             qtype,
-- 
2.43.0


From 196651eb0820e06c8b05b8955292043a3f47167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 04/21] fix: treat more than 65535 entries in a section as
 truncation

The section counters overflowed, panicking in debug builds and reporting a wrong
count otherwise.
---
 src/packet/encoder.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index d6a7e6d..583ee9c 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -160,10 +160,14 @@ impl<'a> MessageEncoder<'a, section::Question> {
 
     /// Adds a question to the *Question* section.
     pub fn question(&mut self, question: Question<'_>) {
+        let Some(count) = self.inner.qdcount.checked_add(1) else {
+            self.inner.w.trunc = true;
+            return;
+        };
         self.inner.w.write_domain_name(question.name);
         self.inner.w.write_u16(question.ty.0);
         self.inner.w.write_u16(question.class.0);
-        self.inner.qdcount += 1;
+        self.inner.qdcount = count;
     }
 
     /// Moves the encoder to the *Answer* section.
@@ -207,8 +211,12 @@ impl<'a, S: Section> MessageEncoder<'a, S> {
 
 impl<'a> MessageEncoder<'a, section::Answer> {
     pub fn add_answer(&mut self, rr: ResourceRecord<'_>) {
+        let Some(count) = self.inner.ancount.checked_add(1) else {
+            self.inner.w.trunc = true;
+            return;
+        };
         self.write_rr(rr);
-        self.inner.ancount += 1;
+        self.inner.ancount = count;
     }
 
     /// Moves the encoder to the *Authority* section.
@@ -223,8 +231,12 @@ impl<'a> MessageEncoder<'a, section::Answer> {
 
 impl<'a> MessageEncoder<'a, section::Authority> {
     pub fn add_authority(&mut self, rr: ResourceRecord<'_>) {
+        let Some(count) = self.inner.nscount.checked_add(1) else {
+            self.inner.w.trunc = true;
+            return;
+        };
         self.write_rr(rr);
-        self.inner.nscount += 1;
+        self.inner.nscount = count;
     }
 
     /// Moves the encoder to the *Additional Records* section.
@@ -239,8 +251,12 @@ impl<'a> MessageEncoder<'a, section::Authority> {
 
 impl<'a> MessageEncoder<'a, section::Additional> {
     pub fn add_additional(&mut self, rr: ResourceRecord<'_>) {
+        let Some(count) = self.inner.arcount.checked_add(1) else {
+            self.inner.w.trunc = true;
+            return;
+        };
         self.write_rr(rr);
-        self.inner.arcount += 1;
+        self.inner.arcount = count;
     }
 }
 
-- 
2.43.0


From ce6c57eeeea8f7acbb52811781ab4812d6569da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 05/21] fix: detect multicast resolvers by the server address

The unspecified bind address never is a multicast address, so `add_server` did
not panic for multicast resolvers as documented.
---
 src/resolver.rs             | 2 +-
 uwuhi-async/src/resolver.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6a98bf1..c7b2669 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -42,7 +42,7 @@ impl SyncResolver {
             servers: vec![sock],
             sock: UdpSocket::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: sock.ip().is_multicast(),
         };
         this.set_timeout(Self::DEFAULT_TIMEOUT)?;
         Ok(this)
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c1221eb..f9301a4 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -33,7 +33,7 @@ impl AsyncResolver {
             servers: vec![server],
             sock: Async::<UdpSocket>::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: server.ip().is_multicast(),
             timeout: Self::DEFAULT_TIMEOUT,
         })
     }
-- 
2.43.0


From a5b96b5439122a0531b8bdc5fc67444861558622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 06/21] fix: ignore responses to other queries in the resolver

Packets that don't match the query are documented to be ignored.
---
 src/resolver.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index c7b2669..a13fd3d 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -148,13 +148,16 @@ impl SyncResolver {
     }
 }
 
+/// Message ID used by all queries.
+const QUERY_ID: u16 = 12345;
+
 /// Writes a DNS query asking for IPv4 and IPv6 addresses of `name` into `buf`.
 ///
 /// The given buffer must be large enough to fit the query, or this method will panic.
 pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
     let mut header = Header::default();
     header.set_recursion_desired(true);
-    header.set_id(12345);
+    header.set_id(QUERY_ID);
     let mut enc = MessageEncoder::new(buf);
     enc.set_header(header);
     enc.question(Question::new(&name).ty(QType::A));
@@ -164,11 +167,13 @@ pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
 }
 
 /// Decodes an answer packet from a DNS resolver, adding any contained IP addresses to `ip_buf`.
+///
+/// Packets that are not a response to a query created by [`encode_query`] are ignored.
 pub fn decode_answer(msg: &[u8], ip_buf: &mut Vec<IpAddr>) -> Result<(), Error> {
     let dec = MessageDecoder::new(msg)?;
     let h = dec.header();
     log::trace!("header: {:?}", h);
-    if !h.is_response() {
+    if !h.is_response() || h.id() != QUERY_ID {
         return Ok(());
     }
 
-- 
2.43.0


From 8ed0c1467d04082b068ba0c1973c0fb2428c5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 07/21] fix: don't keep addresses from a malformed response in
 the resolver

---
 src/resolver.rs             | 2 ++
 uwuhi-async/src/resolver.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index a13fd3d..5ca416c 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -141,6 +141,8 @@ impl SyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Drop addresses read before the error.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index f9301a4..85afcdb 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -138,6 +138,8 @@ impl AsyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Drop addresses read before the error.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
-- 
2.43.0


From 4a75b0d3d373d70c0df9dfacfa0d3ee54989b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 08/21] fix: receive full-size mDNS responses in the resolver

mDNS responses may be larger than 512 bytes and were cut off.
---
 src/resolver.rs             | 4 ++--
 uwuhi-async/src/resolver.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 5ca416c..3b887d0 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -18,7 +18,7 @@ use crate::{
     Error,
 };
 
-use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use crate::MDNS_BUFFER_SIZE;
 
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
@@ -128,7 +128,7 @@ impl SyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 85afcdb..365f711 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -9,7 +9,7 @@ use std::{
 use async_io::{Async, Timer};
 use futures_lite::future;
 pub use uwuhi::resolver::*;
-use uwuhi::{name::DomainName, DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use uwuhi::{name::DomainName, MDNS_BUFFER_SIZE};
 
 pub struct AsyncResolver {
     servers: Vec<SocketAddr>,
@@ -121,7 +121,7 @@ impl AsyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let timeout = async {
                 Timer::after(self.timeout).await;
                 Err(io::ErrorKind::TimedOut.into())
-- 
2.43.0


From b576936b3855cbb602de9c0180dae8f1edd5988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 09/21] fix: ignore TXT entries without a key

As required by RFC 6763. Notably, the single empty string of a service without
metadata was reported as a metadata entry.
---
 src/service.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index cb0a898..03a1f76 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -277,6 +277,10 @@ impl TxtRecords {
         for entry in txt.entries() {
             let mut split = entry.splitn(2, |&b| b == b'=');
             let key = split.next().unwrap();
+            if key.is_empty() {
+                // RFC 6763: entries with a missing key must be ignored.
+                continue;
+            }
             let key = match String::from_utf8(key.to_vec()) {
                 Ok(key) => key,
                 Err(e) => {
-- 
2.43.0


From 66515525e7a5ea2288658d207b5a9dd49ad4306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 10/21] fix: reject service names without leading underscore in
 PTR records

`Service` and `ServiceInstance` guarantee the underscore, `Service::new` panics
without it.
---
 src/service.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 03a1f76..fcb9566 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -81,6 +81,9 @@ impl Service {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(Service {
             name: service_name.clone(),
             transport: match transport.as_bytes() {
@@ -156,6 +159,9 @@ impl ServiceInstance {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(ServiceInstance {
             instance_name: instance_name.clone(),
             service: Service {
-- 
2.43.0


From 9785ee578d4bffcbe008b2fadc5e1778f466ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 11/21] fix: wait for both the SRV and the TXT record of a
 service instance

A TXT record following the SRV record was ignored, dropping the metadata.
---
 src/service/discovery.rs             | 14 ++++++++------
 uwuhi-async/src/service/discovery.rs | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index f1dc031..aa171b9 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -102,9 +102,7 @@ impl SyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            details.get_or_insert(det);
                         }
                         Err(e) => {
                             log::debug!(
@@ -112,15 +110,19 @@ impl SyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
                 Record::TXT(txt) => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+            // The SRV and TXT records may arrive in any order.
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })?;
 
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 0acd1f6..dacd075 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -97,9 +97,7 @@ impl AsyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            details.get_or_insert(det);
                         }
                         Err(e) => {
                             log::debug!(
@@ -107,15 +105,19 @@ impl AsyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
                 Record::TXT(txt) => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+            // The SRV and TXT records may arrive in any order.
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })
         .await?;
-- 
2.43.0


From 9f718230e24629c4c42421cc110568d48a54031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 12/21] fix: escape TXT keys in the text form of TxtRecords

Like values, keys come from the network and could inject control characters.
---
 src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index fcb9566..70faca5 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -351,7 +351,7 @@ impl fmt::Display for TxtRecords {
                 f.write_str(" ")?;
             }
 
-            f.write_str(&rec.key)?;
+            rec.key.as_bytes().escape_ascii().fmt(f)?;
             match &rec.value {
                 Some(v) => {
                     f.write_str("=")?;
-- 
2.43.0


From ae3c24847b9266a6d1f12accd0dd84de5a0b8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 13/21] fix: don't answer a resolve call with the response to
 an earlier one

---
 src/resolver.rs             | 5 +++++
 uwuhi-async/src/resolver.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index 3b887d0..1f14f28 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -122,6 +122,11 @@ impl SyncResolver {
 
         log::trace!("resolving '{}', raw query: {}", name, Hex(data));
 
+        // Discard late responses to previous queries, they don't answer this one.
+        self.sock.set_nonblocking(true)?;
+        while self.sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+        self.sock.set_nonblocking(false)?;
+
         // FIXME: retransmit
         for addr in &self.servers {
             self.sock.send_to(data, addr)?;
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 365f711..76ca2d8 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -115,6 +115,10 @@ impl AsyncResolver {
 
         log::trace!("resolving '{}', raw query: {:x?}", name, data);
 
+        // Discard late responses to previous queries, they don't answer this one.
+        let sock: &UdpSocket = self.sock.as_ref();
+        while sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+
         // FIXME: retransmit
         for addr in &self.servers {
             self.sock.send_to(data, *addr).await?;
-- 
2.43.0


From d1b5212fd404b80d4d1db17fcae35c71eeb4a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 14/21] fix: don't answer a discovery query with the response
 to an earlier one

---
 src/service/discovery.rs             | 5 +++++
 uwuhi-async/src/service/discovery.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index aa171b9..6504394 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -232,6 +232,11 @@ impl SyncDiscoverer {
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, domain, qtypes);
 
+        // Discard late responses to previous queries, they don't answer this one.
+        self.sock.set_nonblocking(true)?;
+        while self.sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+        self.sock.set_nonblocking(false)?;
+
         let discovery_start = Instant::now();
         'retransmit: loop {
             self.sock.send_to(data, self.server)?;
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index dacd075..727e10c 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -234,6 +234,10 @@ impl AsyncDiscoverer {
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, domain, qtypes);
 
+        // Discard late responses to previous queries, they don't answer this one.
+        let sock: &UdpSocket = self.sock.as_ref();
+        while sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+
         let discovery_start = Instant::now();
         'retransmit: loop {
             self.sock.send_to(data, self.server).await?;
-- 
2.43.0


From d80dac4349278a96cf50bba0bd3893ce2616e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 15/21] fix: keep advertising when a response cannot be sent

A query with source port 0, a broadcast or an unroutable source address made
send_to fail, which ended the listen loop of the synchronous and asynchronous
advertisers.
---
 src/service/advertising.rs             | 5 ++++-
 uwuhi-async/src/service/advertising.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 2d97c53..325ea70 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -57,7 +57,10 @@ impl SyncAdvertiser {
 
             match self.adv.handle_packet(packet) {
                 Ok(Some(resp)) => {
-                    sock.send_to(resp, addr)?;
+                    // Not every peer can be replied to, which must not keep others from it.
+                    if let Err(e) = sock.send_to(resp, addr) {
+                        log::debug!("failed to send response to {}: {}", addr, e);
+                    }
                 }
                 Ok(None) => {}
                 Err(e) => {
diff --git a/uwuhi-async/src/service/advertising.rs b/uwuhi-async/src/service/advertising.rs
index c97e0f9..48c145e 100644
--- a/uwuhi-async/src/service/advertising.rs
+++ b/uwuhi-async/src/service/advertising.rs
@@ -51,7 +51,10 @@ impl AsyncAdvertiser {
 
             match self.adv.handle_packet(packet) {
                 Ok(Some(resp)) => {
-                    self.sock.send_to(resp, addr).await?;
+                    // Not every peer can be replied to, which must not keep others from it.
+                    if let Err(e) = self.sock.send_to(resp, addr).await {
+                        log::debug!("failed to send response to {}: {}", addr, e);
+                    }
                 }
                 Ok(None) => {}
                 Err(e) => {
-- 
2.43.0


From c029a5991a3806e975170e670e16770aa90869b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 16/21] fix: show the bytes of non-UTF-8 TXT values in debug
 output

---
 src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 70faca5..dd3360b 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -377,7 +377,7 @@ impl<'a> fmt::Debug for TxtRecordValue<'a> {
                 Ok(s) => s.fmt(f),
                 Err(_) => {
                     for byte in *v {
-                        byte.escape_ascii().fmt(f)?;
+                        fmt::Display::fmt(&byte.escape_ascii(), f)?;
                     }
                     Ok(())
                 }
-- 
2.43.0


From 76b5fc16417381bf14c8646445d0a8298a552f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 17/21] fix: don't send another query when the discovery time
 is over

---
 src/service/discovery.rs             | 4 ++++
 uwuhi-async/src/service/discovery.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 6504394..764e6f8 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -254,6 +254,10 @@ impl SyncDiscoverer {
                         if e.kind() == io::ErrorKind::WouldBlock
                             || e.kind() == io::ErrorKind::TimedOut =>
                     {
+                        if discovery_start.elapsed() >= self.discovery_timeout {
+                            // Nobody would receive the response to another query.
+                            return Ok(());
+                        }
                         continue 'retransmit;
                     }
                     Err(e) => return Err(e),
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 727e10c..f7e8cd2 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -257,7 +257,13 @@ impl AsyncDiscoverer {
                 let (b, addr) = match future::or(recv, timeout).await {
                     Ok(Ok(res)) => res,
                     Ok(Err(e)) => return Err(e),
-                    Err(()) => continue 'retransmit,
+                    Err(()) => {
+                        if discovery_start.elapsed() >= self.discovery_timeout {
+                            // Nobody would receive the response to another query.
+                            return Ok(());
+                        }
+                        continue 'retransmit;
+                    }
                 };
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, recv.escape_ascii());
-- 
2.43.0


From 2771e7a8b00252982d5b25b10a4c53c08421522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 18/21] fix: do not let a flood of packets keep a call from
 sending its query

Late responses are discarded before a query is sent. If packets arrive faster than they are
discarded, that went on for as long as they did, beyond the time set for discovery.
---
 src/resolver.rs                      | 7 ++++++-
 src/service/discovery.rs             | 7 ++++++-
 uwuhi-async/src/resolver.rs          | 7 ++++++-
 uwuhi-async/src/service/discovery.rs | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 1f14f28..79fd893 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -124,7 +124,12 @@ impl SyncResolver {
 
         // Discard late responses to previous queries, they don't answer this one.
         self.sock.set_nonblocking(true)?;
-        while self.sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+        // No receive queue holds this many, but a flood of packets could go on forever.
+        for _ in 0..u16::MAX {
+            if self.sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_err() {
+                break;
+            }
+        }
         self.sock.set_nonblocking(false)?;
 
         // FIXME: retransmit
diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 764e6f8..3ea889e 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -234,7 +234,12 @@ impl SyncDiscoverer {
 
         // Discard late responses to previous queries, they don't answer this one.
         self.sock.set_nonblocking(true)?;
-        while self.sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+        // No receive queue holds this many, but a flood of packets could go on forever.
+        for _ in 0..u16::MAX {
+            if self.sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_err() {
+                break;
+            }
+        }
         self.sock.set_nonblocking(false)?;
 
         let discovery_start = Instant::now();
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 76ca2d8..6b95218 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -117,7 +117,12 @@ impl AsyncResolver {
 
         // Discard late responses to previous queries, they don't answer this one.
         let sock: &UdpSocket = self.sock.as_ref();
-        while sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+        // No receive queue holds this many, but a flood of packets could go on forever.
+        for _ in 0..u16::MAX {
+            if sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_err() {
+                break;
+            }
+        }
 
         // FIXME: retransmit
         for addr in &self.servers {
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index f7e8cd2..07fccc1 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -236,7 +236,12 @@ impl AsyncDiscoverer {
 
         // Discard late responses to previous queries, they don't answer this one.
         let sock: &UdpSocket = self.sock.as_ref();
-        while sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_ok() {}
+        // No receive queue holds this many, but a flood of packets could go on forever.
+        for _ in 0..u16::MAX {
+            if sock.recv_from(&mut [0; MDNS_BUFFER_SIZE]).is_err() {
+                break;
+            }
+        }
 
         let discovery_start = Instant::now();
         'retransmit: loop {
-- 
2.43.0


From 9528e598d2e875c6ea3ded43227eafdd50f2af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 19/21] fix: let other tasks run while packets keep arriving

An asynchronous receive that is ready at once does not suspend the task, so that resolving,
discovering or listening kept all other tasks of a single-threaded executor from running (and
from cancelling it) for as long as packets arrived fast enough.
---
 uwuhi-async/src/resolver.rs            | 3 +++
 uwuhi-async/src/service/advertising.rs | 4 ++++
 uwuhi-async/src/service/discovery.rs   | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 6b95218..125a89a 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -152,6 +152,9 @@ impl AsyncResolver {
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
+
+            // Let other tasks run, even if packets keep arriving.
+            future::yield_now().await;
         }
     }
 }
diff --git a/uwuhi-async/src/service/advertising.rs b/uwuhi-async/src/service/advertising.rs
index 48c145e..dd994eb 100644
--- a/uwuhi-async/src/service/advertising.rs
+++ b/uwuhi-async/src/service/advertising.rs
@@ -4,6 +4,7 @@ use std::net::UdpSocket;
 use std::{io, net::IpAddr};
 
 use async_io::Async;
+use futures_lite::future;
 use uwuhi::{
     name::Label,
     service::{InstanceDetails, ServiceInstance},
@@ -61,6 +62,9 @@ impl AsyncAdvertiser {
                     log::debug!("failed to handle packet: {}", e);
                 }
             }
+
+            // Let other tasks run, even if packets keep arriving.
+            future::yield_now().await;
         }
     }
 }
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 07fccc1..61cf698 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -282,6 +282,9 @@ impl AsyncDiscoverer {
                         log::warn!("failed to decode response: {:?}", err);
                     }
                 }
+
+                // Let other tasks run, even if packets keep arriving.
+                future::yield_now().await;
             }
         }
     }
-- 
2.43.0


From 79ee6955507f9f2fe7bc87abd8768330473526de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 20/21] fix: escape TXT keys from the network in log messages

---
 src/service.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index dd3360b..9d3970a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -296,7 +296,10 @@ impl TxtRecords {
             };
             let entry = map.entry(key.to_ascii_lowercase());
             if let Entry::Occupied(_) = entry {
-                log::debug!("TXT key '{}' already occupied, ignoring", entry.key());
+                log::debug!(
+                    "TXT key '{}' already occupied, ignoring",
+                    entry.key().as_bytes().escape_ascii()
+                );
             }
 
             match split.next() {
-- 
2.43.0


From 8f39a3f7131d36baf30b63c34b0650d31fc6578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 21/21] fix: do not let signals end calls and listen loops

---
 src/lib.rs                 | 26 ++++++++++++++++++++++++++
 src/resolver.rs            |  4 ++--
 src/service/advertising.rs |  4 ++--
 src/service/discovery.rs   |  4 ++--
 src/tap.rs                 |  4 ++--
 5 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 205b243..62975b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,12 @@ pub mod tap;
 
 pub use error::Error;
 
+use std::{
+    io,
+    net::{SocketAddr, UdpSocket},
+    time::Instant,
+};
+
 /// Size of unicast DNS message buffers.
 ///
 /// Unicast DNS messages are limited to 512 Bytes.
@@ -24,3 +30,23 @@ pub const DNS_BUFFER_SIZE: usize = 512;
 /// This constant is the size of packet receive buffers and does not have to accomodate IP and UDP
 /// headers. It still does, because I cannot be bothered.
 pub const MDNS_BUFFER_SIZE: usize = 1500;
+
+/// Receives a packet, waiting no longer than the read timeout of `sock`.
+///
+/// Unlike [`UdpSocket::recv_from`], this does not fail when a signal interrupts it.
+fn recv_from(sock: &UdpSocket, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+    let start = Instant::now();
+    loop {
+        match sock.recv_from(buf) {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {
+                // Receiving again starts a new timeout, which must not go on forever.
+                if let Some(timeout) = sock.read_timeout()? {
+                    if start.elapsed() >= timeout {
+                        return Err(io::ErrorKind::WouldBlock.into());
+                    }
+                }
+            }
+            res => return res,
+        }
+    }
+}
diff --git a/src/resolver.rs b/src/resolver.rs
index 79fd893..2805512 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -18,7 +18,7 @@ use crate::{
     Error,
 };
 
-use crate::MDNS_BUFFER_SIZE;
+use crate::{recv_from, MDNS_BUFFER_SIZE};
 
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
@@ -139,7 +139,7 @@ impl SyncResolver {
 
         loop {
             let mut recv_buf = [0; MDNS_BUFFER_SIZE];
-            let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
+            let (b, addr) = recv_from(&self.sock, &mut recv_buf)?;
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
 
diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 325ea70..649d030 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -16,7 +16,7 @@ use crate::{
 };
 use socket2::{Domain, Protocol, Socket, Type};
 
-use crate::MDNS_BUFFER_SIZE;
+use crate::{recv_from, MDNS_BUFFER_SIZE};
 
 use super::{InstanceDetails, ServiceInstance, TxtRecordValue};
 
@@ -50,7 +50,7 @@ impl SyncAdvertiser {
         let sock = self.adv.create_socket()?;
         let mut recv_buf = [0; MDNS_BUFFER_SIZE];
         loop {
-            let (len, addr) = sock.recv_from(&mut recv_buf)?;
+            let (len, addr) = recv_from(&sock, &mut recv_buf)?;
             let packet = &recv_buf[..len];
 
             log::trace!("raw recv from {}: {:x?}", addr, packet);
diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 3ea889e..891a924 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -20,7 +20,7 @@ use crate::{
     Error,
 };
 
-use crate::MDNS_BUFFER_SIZE;
+use crate::{recv_from, MDNS_BUFFER_SIZE};
 
 use super::{InstanceDetails, Service, ServiceInstance, TxtRecords};
 
@@ -253,7 +253,7 @@ impl SyncDiscoverer {
                 }
 
                 let mut recv_buf = [0; MDNS_BUFFER_SIZE];
-                let (b, addr) = match self.sock.recv_from(&mut recv_buf) {
+                let (b, addr) = match recv_from(&self.sock, &mut recv_buf) {
                     Ok(res) => res,
                     Err(e)
                         if e.kind() == io::ErrorKind::WouldBlock
diff --git a/src/tap.rs b/src/tap.rs
index 4628f5c..52c13d8 100644
--- a/src/tap.rs
+++ b/src/tap.rs
@@ -8,7 +8,7 @@ use std::{
 use crate::{hex::Hex, packet::decoder::MessageDecoder, Error};
 use socket2::{Domain, Protocol, Socket, Type};
 
-use crate::MDNS_BUFFER_SIZE;
+use crate::{recv_from, MDNS_BUFFER_SIZE};
 
 /// An mDNS tap that will log every received mDNS packet.
 pub struct SyncTap {
@@ -31,7 +31,7 @@ impl SyncTap {
     pub fn listen(self) -> io::Result<()> {
         loop {
             let mut buf = [0; MDNS_BUFFER_SIZE];
-            let (len, addr) = self.sock.recv_from(&mut buf)?;
+            let (len, addr) = recv_from(&self.sock, &mut buf)?;
 
             let buf = &buf[..len];
             match self.process(addr, buf) {
-- 
2.43.0

