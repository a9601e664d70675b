From e52050a7ec8b973ea9bb732876cd140fca0229b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 01/44] fix: reject compression pointers past the end of the
 message

---
 src/shared/buffer/buffer.rs | 5 +++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..c583ffb 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -66,6 +66,11 @@ impl BitsBuf {
         self.buf
     }
 
+    /// Returns the length of the buffer, expressed in bits.
+    pub fn len(&self) -> usize {
+        self.last
+    }
+
     /// Returns the current reading position in the buffer.
     /// Note that the reading position is expressed in bits.
     pub fn read_pos(&self) -> usize {
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..5599a3d 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -55,8 +55,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = jump_pos as usize * 8;
+                    if jump_pos >= buffer.len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From 27098e576f103dfd026a8cf2e1469522a91bc47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 02/44] fix: enforce the length limits of labels and names,
 refuse dots inside labels

---
 src/shared/dns/name.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 5599a3d..274eed5 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -76,6 +76,9 @@ impl Name {
                         name_bytes.push('.' as u8);
                     }
                     let label_bytes = check_end(buffer.read_bytes_vec(len_byte as usize))?;
+                    if label_bytes.contains(&('.' as u8)) {
+                        return Err(NameErr::MalformedLabel("dot in label"));
+                    }
                     name_bytes.extend(label_bytes);
                     if name_bytes.len() > 255 {
                         return Err(NameErr::LongName);
@@ -121,7 +124,8 @@ fn validate_name(name: &str) -> Result<(), NameErr> {
     if name == "." {
         return Ok(());
     }
-    if name.len() > 255 {
+    // The wire format takes one byte more than the text (255 bytes at most).
+    if name.len() > 254 {
         return Err(NameErr::LongName);
     }
     if !name.ends_with('.') {
@@ -149,6 +153,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if label.len() == 0 {
         return Err(NameErr::MalformedLabel("empty label"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let first = label.chars().next().unwrap();
     let last = label.chars().last().unwrap();
     if !first.is_ascii_alphanumeric() {
-- 
2.43.0


From 16db3b35c6570d0a63075766f61a7b1d75b927f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 03/44] fix: encode the root name as one byte, let it contain
 every name and serve as origin

---
 src/nameserver/zones/utils.rs | 4 +++-
 src/shared/dns/name.rs        | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..fcaa494 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -68,7 +68,9 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
     if !name.ends_with('.') {
         name.push('.');
-        name.push_str(current_origin.as_ref());
+        if current_origin.as_ref() != "." {
+            name.push_str(current_origin.as_ref());
+        }
     }
     match dns::Name::from_string(name) {
         Ok(name) => Ok(name),
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 274eed5..d94e541 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -108,6 +108,9 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
+        if self.0 == "." {
+            return vec![0];
+        }
         let mut vec = Vec::with_capacity(self.0.len());
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
@@ -188,6 +191,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From 62bbcc3c3bf7f895c44fe645ed74957066afb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 04/44] fix: compare and hash names ignoring the case

---
 src/shared/dns/name.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index d94e541..98a4938 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -1,15 +1,31 @@
 use crate::shared::buffer::*;
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::str;
 
 /// A wrapper for domain names. The [`Name`] struct is used to hold valid
 /// absolute domain names. This is the invariant that must be guaranteed
 /// in every method that creates or modifies names. [`Name`] implements
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Name(String);
 
+// Names are compared (and hashed) ignoring the case, as stated in RFC 1035.
+impl PartialEq for Name {
+    fn eq(&self, other: &Self) -> bool {
+        self.0.eq_ignore_ascii_case(&other.0)
+    }
+}
+
+impl Eq for Name {}
+
+impl Hash for Name {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_ascii_lowercase().hash(state);
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
@@ -201,7 +217,7 @@ impl Name {
                 None => return false,
                 Some(v) => v,
             };
-            if nl != zl {
+            if !nl.eq_ignore_ascii_case(zl) {
                 return false;
             }
         }
-- 
2.43.0


From 932affc10bf56b3cff7a1af8da5729848d07cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 05/44] fix: compare record data lengths without overflowing

---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..3f59c71 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From 97f43e33cc4630227e4c25a161be04c2a0cc6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 06/44] fix: decode TXT records from their first string and
 without overflowing

---
 src/shared/dns/records.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3f59c71..e0a2fa2 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -514,8 +514,8 @@ fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, P
     loop {
         let pos = buffer.read_pos();
         let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
-        if read + len + 1 > data_len {
+        buffer.set_read_pos(pos);
+        if read as u32 + len as u32 + 1 > data_len as u32 {
             return Err(ParsingErr::DataLenMismatch);
         }
         strings.push(decode_character_string(buffer)?);
-- 
2.43.0


From 708d5cd43d6b0c56b93c8903e5955ff2d8a74154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 07/44] fix: decode and encode the WKS port bit map as RFC 1035
 defines it

---
 src/shared/dns/records.rs | 43 +++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index e0a2fa2..fafa47f 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -183,7 +183,7 @@ impl Record {
             Record::A { address, .. } => encode_a_data(buffer, address),
             Record::NS { name, .. } => encode_ns_data(buffer, name)?,
             Record::CNAME { name, .. } => encode_cname_data(buffer, name)?,
-            Record::WKS { address, protocol, ports, .. } => encode_wks_data(buffer, address, *protocol, ports),
+            Record::WKS { address, protocol, ports, .. } => encode_wks_data(buffer, address, *protocol, ports)?,
             Record::PTR { name, .. } => encode_ptr_data(buffer, &name)?,
             Record::HINFO { cpu, os, .. } => encode_hinfo_data(buffer, cpu, os)?,
             Record::MX { priority, name, .. } => encode_mx_data(buffer, *priority, name)?,
@@ -409,10 +409,13 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
     let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
+        let ports_bytes = check_end(buffer.read_bytes_vec((data_len - 5) as usize))?;
         parse_wks_ports(&ports_bytes)
     } else {
         vec![]
@@ -421,24 +424,38 @@ fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, Parsi
     Ok((address, protocol, ports))
 }
 
-fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
+fn encode_wks_data(
+    buffer: &mut BitsBuf,
+    address: &[u8; 4],
+    protocol: u8,
+    ports: &[u32],
+) -> Result<(), ParsingErr> {
+    // Ports are represented as a bit map, where the
+    // first bit (the highest) corresponds to port 0.
+    let mut ports_bytes: Vec<u8> = vec![];
+    for &p in ports {
+        let i = p as usize / 8;
+        if i + 1 + 5 > u16::MAX as usize {
+            return Err(ParsingErr::DataLenMismatch);
+        }
+        if i >= ports_bytes.len() {
+            ports_bytes.resize(i + 1, 0);
+        }
+        ports_bytes[i] |= 0b10000000 >> (p % 8);
+    }
+    buffer.write_u16((5 + ports_bytes.len()) as u16);
     buffer.write_bytes(address);
     buffer.write_u8(protocol);
-    for p in ports {
-        buffer.write_u32(*p);
-    }
+    buffer.write_bytes(&ports_bytes);
+    Ok(())
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
     let mut ports = vec![];
     for (i, &byte) in ports_bytes.iter().enumerate() {
-        if byte == 0 {
-            continue;
-        }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
+        for j in 0..8 {
+            if byte & (0b10000000 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
             };
         }
     }
-- 
2.43.0


From ad9ea0f8059c7e2cd57d225ea50dd1594af1a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 08/44] fix: keep header counts in step with the decoded
 sections when unknown types are skipped

---
 src/shared/dns/message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 8dce77e..7c4af44 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -27,7 +27,7 @@ impl Message {
     pub fn decode_from_bytes(bytes: &[u8]) -> Result<Message, MessageErr> {
         let mut buffer = BitsBuf::from_raw_bytes(&bytes);
 
-        let header = match Header::decode_from_buf(&mut buffer) {
+        let mut header = match Header::decode_from_buf(&mut buffer) {
             Err(err) => return Err(MessageErr::HeaderErr(err)),
             Ok(header) => header,
         };
@@ -73,6 +73,13 @@ impl Message {
             };
         }
 
+        // Questions and records of unknown types are not part of the message
+        // returned, so the counts must be adjusted.
+        header.questions_count = questions.len() as u16;
+        header.answers_count = answers.len() as u16;
+        header.authorities_count = authorities.len() as u16;
+        header.additionals_count = additionals.len() as u16;
+
         Ok(Message {
             header,
             questions,
-- 
2.43.0


From d4ede8c9ed37f29496d253a7c3d10d422a4ecc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 09/44] fix: reply to undecodable and unsupported requests
 instead of panicking

---
 src/nameserver/handler.rs | 6 +++++-
 src/resolver/handler.rs   | 6 +++++-
 src/shared/dns/header.rs  | 5 ++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..cbd46eb 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -164,7 +164,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..d309e94 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -93,7 +93,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..b15ba7a 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -85,10 +85,9 @@ impl Header {
     }
 
     /// Encode a dns [`Header`] to raw bytes, writing them into the provided
-    /// buffer. The function panics if some unsupported op codes are provided
-    /// (this helps maintaining invariants about supported features).
+    /// buffer. Unsupported op codes are encoded too, since responses must copy
+    /// the op code of the request (even if it was not implemented).
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From a93df732eee302d08bc19099beb9499ac4b14e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 10/44] fix: never reply to messages that are responses
 themselves

---
 src/nameserver/handler.rs | 7 +++++++
 src/resolver/handler.rs   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index cbd46eb..16141b8 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -14,6 +14,13 @@ impl DnsHandler for NameserverHandler {
 
 fn handle_dns_request<R: DnsRead, W: DnsWrite>(req: R, resp: W, zones: &ManagedZone) {
     let dns_request = match req.read() {
+        // Replying to responses could start endless loops between servers.
+        DnsReadResult::FullMessage(dns::Message { header, .. }) | DnsReadResult::HeaderOnly(header, _)
+            if !header.is_request() =>
+        {
+            log::warn!("[{}] Response received, discarding it.", header.id);
+            return;
+        }
         DnsReadResult::FullMessage(req) => req,
         DnsReadResult::HeaderOnly(hdr, err) => {
             handle_decode_err(resp, hdr, err);
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index d309e94..1ef78d9 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -13,6 +13,13 @@ impl DnsHandler for ResolverHandler {
 
 fn handle_request<R: DnsRead, W: DnsWrite>(req: R, resp: W, resolver: &Resolver) {
     let dns_request = match req.read() {
+        // Replying to responses could start endless loops between servers.
+        DnsReadResult::FullMessage(dns::Message { header, .. }) | DnsReadResult::HeaderOnly(header, _)
+            if !header.is_request() =>
+        {
+            log::warn!("[{}] Response received, discarding it.", header.id);
+            return;
+        }
         DnsReadResult::FullMessage(req) => req,
         DnsReadResult::HeaderOnly(header, err) => {
             handle_decode_err(resp, header, err);
-- 
2.43.0


From 35048ec99d204fcc3db6440f63e57fa31af37ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 11/44] fix: do not copy the truncation flag of the request
 into the response

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 16141b8..667d52b 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -244,6 +244,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: false,
         z: 0,
         resp_code,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 1ef78d9..979f05d 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -151,6 +151,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: true,
         z: 0,
         resp_code,
-- 
2.43.0


From 966a242b6f922febc9c9d5a4d7793114b94eee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 12/44] fix: truncate TCP responses that do not fit the length
 prefix

---
 src/shared/dns/message.rs    | 14 ++++++++++----
 src/shared/net/tcp_server.rs |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 7c4af44..5e05bdd 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -128,6 +128,12 @@ impl Message {
     /// is truncated before reaching [`MAX_UDP_LEN`] bytes of length (512 bytes). In
     /// this case the header is modified appropriately.
     pub fn encode_to_bytes_trunc(&self) -> Result<Vec<u8>, MessageErr> {
+        self.encode_to_bytes_max(MAX_UDP_LEN_BYTES)
+    }
+
+    /// Encode a dns [`Message`] to raw bytes, as [Message::encode_to_bytes_trunc]
+    /// does, but truncating the message at the provided length (in bytes).
+    pub fn encode_to_bytes_max(&self, max_len: usize) -> Result<Vec<u8>, MessageErr> {
         let mut buffer = BitsBuf::new();
         buffer.write_bytes(&[0; 12]);
         let mut header = dns::Header {
@@ -144,7 +150,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::QuestionErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -161,7 +167,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -178,7 +184,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AuthorityErr(i, err)),
                 Ok(v) => v,
             }
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -195,7 +201,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..830e8ab 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -41,7 +41,8 @@ pub struct TcpResponse(net::TcpStream);
 
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes().unwrap();
+        // The length of the message must fit in two bytes.
+        let resp_bytes = response.encode_to_bytes_max(u16::MAX as usize).unwrap();
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From 0794ea87974efa99716a370e58f5c68faf5c6eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 13/44] fix: refuse zone file strings and TXT data too long to
 be encoded

---
 src/nameserver/zones/parser_auth.rs | 8 ++++++++
 src/nameserver/zones/utils.rs       | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..96cb151 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -456,6 +456,14 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
         };
     }
 
+    // At least one string is needed, and all of them (each one
+    // preceded by its length) must fit in the record data.
+    let data_len: usize = txts.iter().map(|txt| txt.len() + 1).sum();
+    if data_len == 0 || data_len > u16::MAX as usize {
+        let err_msg = format!("invalid data length for TXT record: {}", data_len);
+        return Err(ParseErr::MalformedData(err_msg));
+    }
+
     Ok(dns::Record::TXT {
         node: rec_data.0,
         class: rec_data.1,
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index fcaa494..182c26c 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -85,7 +85,7 @@ pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
         _ => return Err(ParseErr::UnexpectedToken(token)),
     };
-    if !is_valid {
+    if !is_valid || str.len() > 255 {
         Err(ParseErr::MalformedData(str))
     } else {
         Ok(str)
-- 
2.43.0


From 4f673b186b84bbdd3c0ebfa1eaf8e02d7ee70e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 14/44] fix: treat every whitespace character as blank, so that
 the tokenizer always advances

---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..f433c34 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -83,7 +83,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From 161a69306581a9ce59810047352198f9371835e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 15/44] fix: limit the depth of nested includes in zone files

---
 src/nameserver/zones/parser_auth.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 96cb151..5481461 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -22,8 +22,12 @@ struct AuthParsingState<'a> {
     pub current_orig: dns::Name,
     pub current_ttl: u32,
     pub min_ttl: u32,
+    pub depth: usize,
 }
 
+// The max number of nested 'include' directives (files could include themselves).
+const MAX_INCLUDE_DEPTH: usize = 100;
+
 /// Parse the zone file related to the authoritative zone managed by the nameserver.
 /// A [`Zone`] object is returned, holding the zone records. The zone file could use
 /// the 'include' directive further files.
@@ -42,6 +46,7 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
         current_orig: conf.zone.clone(),
         current_ttl: conf.starting_ttl,
         min_ttl: 0,
+        depth: 0,
     };
 
     let soa_record = parse_starting_soa_record(&mut tokenizer, &mut parsing_state);
@@ -63,6 +68,10 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
 /// the parent parsing state is left untouched.
 fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsingState) -> Result<Zone, ParseErrCtx> {
     log::info!("Including {:?}", file_path);
+    if p_state.depth >= MAX_INCLUDE_DEPTH {
+        let err_msg = format!("too many nested includes, last one: {:?}", file_path);
+        return Err((ParseErr::MalformedZone(err_msg), p_state.current_file.to_string()));
+    }
     let mut tokenizer = match Tokenizer::from_file(&file_path) {
         Err(err) => return Err((ParseErr::ReadingErr(err), p_state.current_file.to_string())),
         Ok(v) => v,
@@ -75,6 +84,7 @@ fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsi
         current_orig: origin,
         current_ttl: p_state.current_ttl,
         min_ttl: p_state.min_ttl,
+        depth: p_state.depth + 1,
     };
 
     parse_entries(&mut tokenizer, &mut child_state)
-- 
2.43.0


From 612408af0d49403fa5341bb431a95df050472415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 16/44] fix: skip parentheses and comments iteratively, long
 runs of them exhausted the stack

---
 src/nameserver/zones/tokens.rs | 64 ++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index f433c34..82bf783 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -66,39 +66,41 @@ impl Tokenizer {
             return Ok(self.peeked.remove(0));
         }
 
-        if self.line_chars.len() == self.pos {
-            let new_line_load = self.load_new_line()?;
-            if let None = new_line_load {
-                return if self.multiline {
-                    Err(TokenErr::MlMissingClose)
-                } else {
-                    Ok(Token::End)
-                };
-            }
-            if !self.multiline {
-                return Ok(Token::NewLine);
+        loop {
+            if self.line_chars.len() == self.pos {
+                let new_line_load = self.load_new_line()?;
+                if let None = new_line_load {
+                    return if self.multiline {
+                        Err(TokenErr::MlMissingClose)
+                    } else {
+                        Ok(Token::End)
+                    };
+                }
+                if !self.multiline {
+                    return Ok(Token::NewLine);
+                }
             }
-        }
 
-        // Parse the token. Note that some branches only consume
-        // some characters and invoke 'next' recursively.
-        match self.line_chars[self.pos] {
-            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
-            '$' => self.process_directive(),
-            '"' => self.process_quoted_string(),
-            '(' => {
-                self.process_multi_line()?;
-                self.next()
-            }
-            ')' => {
-                self.process_close_multi()?;
-                self.next()
-            }
-            ';' => {
-                self.process_comment();
-                self.next()
-            }
-            _ => self.process_string_or_number(),
+            // Parse the token. Note that some branches only consume
+            // some characters and look for the next token.
+            return match self.line_chars[self.pos] {
+                ch if ch.is_whitespace() => Ok(self.process_whitespace()),
+                '$' => self.process_directive(),
+                '"' => self.process_quoted_string(),
+                '(' => {
+                    self.process_multi_line()?;
+                    continue;
+                }
+                ')' => {
+                    self.process_close_multi()?;
+                    continue;
+                }
+                ';' => {
+                    self.process_comment();
+                    continue;
+                }
+                _ => self.process_string_or_number(),
+            };
         }
     }
 
-- 
2.43.0


From ac2d1dcad6c84198d149448679f8dccf88f77980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 17/44] fix: keep the workers of the thread pool alive when a
 job panics

---
 src/shared/thread_pool.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/shared/thread_pool.rs b/src/shared/thread_pool.rs
index 0e83e0f..4d58cb7 100644
--- a/src/shared/thread_pool.rs
+++ b/src/shared/thread_pool.rs
@@ -1,5 +1,5 @@
 use std::sync::{mpsc, Arc, Mutex};
-use std::thread;
+use std::{panic, thread};
 
 /// Represents and controls a pool of OS threads, which can receive jobs (`FnOnce`
 /// pointers) to be executed. Threads are spawned when the pool is created via the
@@ -78,7 +78,12 @@ impl Worker {
             drop(receiver_guard);
             match worker_message {
                 WorkerMessage::Stop => return,
-                WorkerMessage::Job(job_fn) => job_fn(),
+                WorkerMessage::Job(job_fn) => {
+                    // A panic in a job must not terminate the worker.
+                    if let Err(_) = panic::catch_unwind(panic::AssertUnwindSafe(job_fn)) {
+                        log::error!("A job of the thread pool panicked.");
+                    }
+                }
             }
         });
 
-- 
2.43.0


From 8e3e07a72d13d40ce1f6eec853036f5cfa40ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 18/44] fix: check the stop signal once bound, the wake up
 message could have been sent before

---
 src/shared/net/tcp_server.rs | 5 +++++
 src/shared/net/udp_server.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index 830e8ab..69d2101 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -83,6 +83,11 @@ where
         }
     };
 
+    // The signal to exit could have been sent before the socket was bound.
+    if stop.load(atomic::Ordering::SeqCst) {
+        return;
+    }
+
     // Loop accepting TCP connections. When a new one is accepted, read
     // it and delegate the request processing to a thread in the pool.
     loop {
diff --git a/src/shared/net/udp_server.rs b/src/shared/net/udp_server.rs
index 14f9c09..75bd5e2 100644
--- a/src/shared/net/udp_server.rs
+++ b/src/shared/net/udp_server.rs
@@ -72,6 +72,11 @@ where
         }
     };
 
+    // The signal to exit could have been sent before the socket was bound.
+    if stop.load(atomic::Ordering::SeqCst) {
+        return;
+    }
+
     // Loop receiving UDP messages. When a new request arrives, read
     // it and delegate request handling to a thread in the pool.
     loop {
-- 
2.43.0


From ef11431fa3e8465488ed30f7d26695413d963b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 19/44] fix: wake up servers listening on IPv6 addresses too,
 never waiting long for a connection

---
 src/shared/net/setup.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 2d1a8d2..6786245 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -2,6 +2,7 @@ use crate::shared::net::tcp_server::*;
 use crate::shared::net::traits::*;
 use crate::shared::net::udp_server::*;
 use std::io::Write;
+use std::net::ToSocketAddrs;
 use std::sync::{atomic, mpsc, Arc};
 use std::{net, thread, time};
 
@@ -48,13 +49,16 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
 #[allow(unused_must_use)]
 fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
     let udp_server_addr: (&str, u16) = (&udp_conf.address, udp_conf.port);
-    match net::UdpSocket::bind("0.0.0.0:0") {
-        Ok(udp_sock) => udp_sock.send_to(&[0], udp_server_addr),
-        Err(_) => return,
-    };
+    for udp_addr in udp_server_addr.to_socket_addrs().into_iter().flatten() {
+        let local_addr = if udp_addr.is_ipv4() { "0.0.0.0:0" } else { "[::]:0" };
+        if let Ok(udp_sock) = net::UdpSocket::bind(local_addr) {
+            udp_sock.send_to(&[0], udp_addr);
+        }
+    }
     let tcp_server_addr: (&str, u16) = (&tcp_conf.address, tcp_conf.port);
-    match net::TcpStream::connect(tcp_server_addr) {
-        Ok(mut tcp_sock) => tcp_sock.write_all(&[0]),
-        Err(_) => return,
-    };
+    for tcp_addr in tcp_server_addr.to_socket_addrs().into_iter().flatten() {
+        if let Ok(mut tcp_sock) = net::TcpStream::connect_timeout(&tcp_addr, time::Duration::from_secs(1)) {
+            tcp_sock.write_all(&[0]);
+        }
+    }
 }
-- 
2.43.0


From 23ab3c5a6607bfd31f7954dbdf084fdd68908cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 20/44] fix: stop the other server also when a server panics or
 is still serving requests

---
 src/shared/net/setup.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 6786245..579c767 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -4,7 +4,7 @@ use crate::shared::net::udp_server::*;
 use std::io::Write;
 use std::net::ToSocketAddrs;
 use std::sync::{atomic, mpsc, Arc};
-use std::{net, thread, time};
+use std::{net, panic, thread, time};
 
 /// Setup and start UDP and TCP dns servers. Every server runs in its own
 /// thread, when one of them errors or exits, the current thread is notified
@@ -19,9 +19,12 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let stop_clone = Arc::clone(&stop);
     let tx_clone = tx.clone();
     thread::spawn(move || {
-        start_udp_server(handler_clone, udp_params_clone, &stop_clone);
+        let start = || start_udp_server(handler_clone, udp_params_clone, &stop_clone);
+        if let Err(_) = panic::catch_unwind(panic::AssertUnwindSafe(start)) {
+            log::error!("UDP server panicked.");
+        }
         log::warn!("UDP server shut down.");
-        tx_clone.send(()).unwrap();
+        let _ = tx_clone.send(());
     });
 
     // Setup tcp parameters and spawn the tcp server in a new thread.
@@ -30,9 +33,12 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let stop_clone = Arc::clone(&stop);
     let tx_clone = tx.clone();
     thread::spawn(move || {
-        start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
+        let start = || start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
+        if let Err(_) = panic::catch_unwind(panic::AssertUnwindSafe(start)) {
+            log::error!("TCP server panicked.");
+        }
         log::warn!("TCP server shut down.");
-        tx_clone.send(()).unwrap();
+        let _ = tx_clone.send(());
     });
 
     // Wait for errors or teardowns. Note that in any case
@@ -40,7 +46,9 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     rx.recv().unwrap();
     stop.store(true, atomic::Ordering::SeqCst);
     wake_up_servers(&udp_params, &tcp_params);
-    rx.recv_timeout(time::Duration::from_secs(4)).unwrap();
+    if let Err(_) = rx.recv_timeout(time::Duration::from_secs(4)) {
+        log::error!("Some requests are still being served, not waiting for them.");
+    }
 }
 
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
-- 
2.43.0


From 31352b373205a63410031d09d2f392903bf7bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 21/44] fix: refuse configurations with a zero TCP read
 timeout, no TCP request could be served

---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..0298aed 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -83,6 +83,9 @@ impl Conf {
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.threads == 0 {
             return Err("invalid tcp threads: 0".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..650207e 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -91,6 +91,9 @@ impl Conf {
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.threads == 0 {
             return Err("invalid tcp threads: 0".to_string());
         }
-- 
2.43.0


From fc961d492116e999201df684951c1a3ff234430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 22/44] fix: do not let the section counts wrap for very large
 record sets

---
 src/nameserver/handler.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 667d52b..311aae4 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -102,7 +102,7 @@ fn handle_auth_zone<W: DnsWrite>(resp: W, request: dns::Message, auth_zone: &Zon
     let mut resp_header = resp_header_from_req_header(&request.header, dns::RespCode::NoError);
     resp_header.auth_answer = true;
     resp_header.questions_count = 1;
-    resp_header.answers_count = searched_records.len() as u16;
+    resp_header.answers_count = section_count(searched_records.len());
     resp_header.authorities_count = 0;
     resp_header.additionals_count = 0;
     let response = dns::Message {
@@ -135,8 +135,8 @@ fn handle_subzone<W: DnsWrite>(resp: W, request: dns::Message, sub_zone: &Zone,
     resp_header.auth_answer = false;
     resp_header.questions_count = 1;
     resp_header.answers_count = 0;
-    resp_header.authorities_count = authorities.len() as u16;
-    resp_header.additionals_count = additionals.len() as u16;
+    resp_header.authorities_count = section_count(authorities.len());
+    resp_header.additionals_count = section_count(additionals.len());
     let response = dns::Message {
         header: resp_header,
         questions: request.questions,
@@ -252,6 +252,12 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     }
 }
 
+// Returns the count to be used in the header for a section with n records. Larger
+// sections never fit in a response, which will be truncated when it is encoded.
+fn section_count(n: usize) -> u16 {
+    u16::try_from(n).unwrap_or(u16::MAX)
+}
+
 // Validate a client dns request against some minimal requirements.
 fn validate_dns_request(dns_req: &dns::Message) -> Result<&Question, String> {
     if !dns_req.header.is_request() {
-- 
2.43.0


From 1d2f4073894a56322ec6f75940234756d424ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 23/44] fix: try the next nameserver when the name of one does
 not exist, instead of panicking

---
 src/resolver/back_end/recursive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..b321eab 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -263,7 +263,10 @@ impl<'a> Lookup<'a> {
         let (response, sub_trace) = resolver.perform();
         self.trace.add_sub_trace(sub_trace);
         match response {
-            Ok(mut v) => Ok(extract_records(&mut v.0, dns::RecordType::A, node)),
+            Ok(mut v) => match extract_records(&mut v.0, dns::RecordType::A, node) {
+                addrs if addrs.is_empty() => Err((node.to_string(), LookupErr::UnexpectedEmptyResp)),
+                addrs => Ok(addrs),
+            },
             Err(err) => return Err(err),
         }
     }
-- 
2.43.0


From 5afd2e3468b4ff8c2abbef81607a44b3449e3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 24/44] fix: match nameserver zones label by label and ignoring
 the case

---
 src/resolver/back_end/requests.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..ab360fb 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -129,7 +129,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -178,7 +178,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -201,7 +201,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From 92c5fa4ae0d6052b8e0c5851779370d9e0f4a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 25/44] fix: cache the nameservers of each zone under the name
 of that zone

---
 src/resolver/back_end/recursive.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index b321eab..cb265ea 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -4,6 +4,7 @@ use crate::resolver::back_end::requests::*;
 use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
+use std::collections::HashMap;
 use std::sync::Arc;
 use std::{mem, time};
 
@@ -383,14 +384,19 @@ fn save_records_in_cache(cache: &RecordsCache, mut records: Vec<dns::Record>) {
 
 // Save nameserver records in cache, both the NS record and eventual A ones.
 fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>) {
-    let mut ns_records = vec![];
+    let mut ns_records: HashMap<dns::Name, Vec<dns::Record>> = HashMap::new();
     for next_ns in next_nss {
-        ns_records.push(next_ns.ns_record);
+        ns_records
+            .entry(next_ns.zone().clone())
+            .or_default()
+            .push(next_ns.ns_record);
         if next_ns.a_records.len() > 0 {
             save_records_in_cache(cache, next_ns.a_records);
         }
     }
-    save_records_in_cache(cache, ns_records);
+    for (_, zone_ns_records) in ns_records {
+        save_records_in_cache(cache, zone_ns_records);
+    }
 }
 
 // Generate a list of domains from the passed one, in increasing order.
-- 
2.43.0


From 118284db8ca3d1377e7202c5b78584fd8afe73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 26/44] fix: accept datagrams only from the nameserver that was
 queried

---
 src/resolver/back_end/requests.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index ab360fb..5eabd53 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -272,8 +272,10 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
     udp_socket.set_read_timeout(Some(request.r_timeout))?;
-    udp_socket.send_to(&bytes, (addr, 53))?;
+    // Once connected, datagrams coming from other sources are discarded.
+    udp_socket.connect((addr, 53))?;
+    udp_socket.send(&bytes)?;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
-    let (n_recv, _) = udp_socket.recv_from(&mut buffer)?;
+    let n_recv = udp_socket.recv(&mut buffer)?;
     Ok((buffer, n_recv))
 }
-- 
2.43.0


From 98020242eccbdc5c37860cc4612a96af0fbfa69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 27/44] fix: accept only responses that repeat the question
 asked

---
 src/resolver/back_end/requests.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 5eabd53..b7f6c70 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -247,6 +247,18 @@ fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
         )));
     }
 
+    // The message must be a response, to the question actually asked.
+    let same_question = match response.questions.as_slice() {
+        [q] => q.node == ns_request.searched_node && q.record_type == ns_request.searched_type,
+        _ => false,
+    };
+    if response.header.is_request() || !same_question {
+        return Err(LookupErr::MalformedResp(format!(
+            "not a response to the question asked: {:?}, {:?}",
+            response.header, response.questions
+        )));
+    }
+
     return Ok(response);
 }
 
-- 
2.43.0


From b2ab203b505c304143acf406ac08e7055b8c019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 28/44] fix: trust nameservers and addresses only inside the
 zone of the queried nameserver

---
 src/resolver/back_end/requests.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index b7f6c70..0129554 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -102,7 +102,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     let cname = extract_record(&mut dns_resp.answers, dns::RecordType::CNAME, searched_node);
     if let Some(cname_rec) = cname {
         let cname = cname_rec.cname_data();
-        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname);
+        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname, ns_req.nameserver.zone());
         return Ok(NsResponse::Alias {
             header: dns_resp.header,
             cname_rec,
@@ -111,7 +111,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     }
 
     let current_zone = ns_req.nameserver.zone();
-    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
+    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
             header: dns_resp.header,
@@ -124,15 +124,16 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
 /// Extracts from the [`dns::Message`] response all records useful to re-start
 /// the cname resolution. Those are typically NS records and their addresses.
-fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
+/// Only records inside the zone of the queried nameserver can be trusted.
+fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut response.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.is_in_zone(rec.node()))
+        .filter(|rec| cname.is_in_zone(rec.node()) && rec.node().is_in_zone(zone))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
-            let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_glue_records(&mut response.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: next_record,
                 a_records: ns_addrs,
@@ -143,19 +144,19 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
-fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
         .filter(|rec| {
             let is_auth = is_nameserver_authoritative_over_node(rec.node(), node);
-            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone);
+            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone.as_ref());
             is_auth && is_sub
         })
         .map(|ns_record| {
             let ns_node = ns_record.ns_data();
-            let ns_addrs = extract_records(&mut resp.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_glue_records(&mut resp.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: ns_record,
                 a_records: ns_addrs,
@@ -174,6 +175,16 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
         .collect()
 }
 
+// Extract the addresses of a nameserver, as provided by the nameserver of the queried
+// zone. Addresses of names outside that zone cannot be trusted, they must be resolved
+// separately.
+fn extract_glue_records(additionals: &mut Vec<dns::Record>, ns_node: &Name, zone: &Name) -> Vec<dns::Record> {
+    if !ns_node.is_in_zone(zone) {
+        return vec![];
+    }
+    extract_records(additionals, dns::RecordType::A, ns_node)
+}
+
 // Make sure the zone managed by the queried nameserver contains the node we
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
-- 
2.43.0


From 6ce2cc6a86b8797d7a3a576d537a67dc0547e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 29/44] fix: do not shorten the life of a cached cname every
 time it is used

---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index cb265ea..c88699c 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -145,7 +145,8 @@ impl<'a> Lookup<'a> {
                 }
                 // Cname found. Stash the cname, save data in cache and restart.
                 NsResponse::Alias { cname_rec, next_nss, .. } => {
-                    self.handle_cname(cname_rec, next_nss)?;
+                    self.handle_cname(cname_rec.clone(), next_nss)?;
+                    save_records_in_cache(&self.cache, vec![cname_rec]);
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
@@ -169,11 +170,10 @@ impl<'a> Lookup<'a> {
     fn handle_cname(&mut self, cname_record: dns::Record, next_nss: Vec<NextSubzoneNs>) -> Result<(), LookupErrCtx> {
         let cname = cname_record.cname_data().clone();
         detect_cname_loops(&cname_record, &self.previous_cnames)?;
-        self.previous_cnames.push(cname_record.clone());
+        self.previous_cnames.push(cname_record);
         if self.conf.no_follow_cname {
             return Err((cname.to_string(), LookupErr::UnexpectedCname));
         }
-        save_records_in_cache(&self.cache, vec![cname_record]);
         self.next_nss = next_nss;
         self.searched_node = cname;
         Ok(())
-- 
2.43.0


From 55d845ef90955b09d58fb0e2456107d06c6f5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 30/44] fix: start again from the root when cached nameservers
 have lost their addresses

---
 src/resolver/back_end/recursive.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index c88699c..3267362 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -125,8 +125,12 @@ impl<'a> Lookup<'a> {
                 continue;
             }
 
+            // The addresses of cached nameservers could expire first, and some
+            // of them could be found only starting again from the root.
+            let mut retry_from_root = false;
             if self.next_nss.is_empty() {
                 let cached_nss = self.search_nss_in_cache_with_trace();
+                retry_from_root = cached_nss.iter().any(|next_ns| next_ns.addrs().is_empty());
                 self.next_nss = if cached_nss.is_empty() {
                     root_zone_nameservers()
                 } else {
@@ -134,7 +138,12 @@ impl<'a> Lookup<'a> {
                 }
             }
 
-            match self.query_nameservers_iteratively()? {
+            let mut ns_response = self.query_nameservers_iteratively();
+            if ns_response.is_err() && retry_from_root {
+                self.next_nss = root_zone_nameservers();
+                ns_response = self.query_nameservers_iteratively();
+            }
+            match ns_response? {
                 // Some answers found. Return answers along with previous cnames.
                 NsResponse::Answer { answers, additionals, .. } => {
                     debug_assert!(answers.len() > 0);
-- 
2.43.0


From 78329f278e0ff1e70027d638c1b202223d829f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 31/44] fix: bound the requests and the nested sub-lookups of a
 lookup

---
 src/resolver/back_end/errors.rs    |  1 +
 src/resolver/back_end/recursive.rs | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/resolver/back_end/errors.rs b/src/resolver/back_end/errors.rs
index 84ba1e7..ea94563 100644
--- a/src/resolver/back_end/errors.rs
+++ b/src/resolver/back_end/errors.rs
@@ -17,6 +17,7 @@ pub enum LookupErr {
     CnamesLoop,
     UnexpectedCname,
     MaxCnameRedir,
+    MaxRequests,
 
     // Error resolving a sub-lookup,
     // usually resolving a NS name.
diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 3267362..fa2c8f5 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -5,9 +5,15 @@ use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
 use std::collections::HashMap;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 use std::{mem, time};
 
+// Hostile nameservers could make a lookup (along with its sub-lookups) endless,
+// so limit both the requests sent to nameservers and the nested sub-lookups.
+const MAX_REQUESTS: usize = 500;
+const MAX_SUB_LOOKUPS_DEPTH: usize = 16;
+
 /// The resolver parameters passed to the [`Resolver`] constructor.
 /// A good default configuration is provided via the [`Default`] trait.
 #[derive(Debug, Clone)]
@@ -66,6 +72,7 @@ impl Resolver {
             previous_cnames: vec![],
             cache: &self.cache,
             next_nss: vec![],
+            requests: Arc::new(AtomicUsize::new(0)),
             conf: self.rsv_conf.clone(),
             trace,
         }
@@ -82,6 +89,7 @@ pub struct Lookup<'a> {
     previous_cnames: Vec<dns::Record>,
     next_nss: Vec<NextSubzoneNs>,
     cache: &'a RecordsCache,
+    requests: Arc<AtomicUsize>,
     trace: Trace,
     conf: ResolverParams,
 }
@@ -252,6 +260,9 @@ impl<'a> Lookup<'a> {
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
         detect_zones_loop(zone, &self.previous_zones)?;
+        if self.previous_zones.len() >= MAX_SUB_LOOKUPS_DEPTH {
+            return Err((node.to_string(), LookupErr::MaxRequests));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
@@ -267,6 +278,7 @@ impl<'a> Lookup<'a> {
             cache: &self.cache,
             trace: self.trace.clone_empty(),
             next_nss: vec![],
+            requests: Arc::clone(&self.requests),
             conf,
         };
 
@@ -283,6 +295,9 @@ impl<'a> Lookup<'a> {
 
     // Perform the request to a nameserver and trace the result.
     fn perform_request_with_trace(&mut self, ns_req: NsRequest) -> Result<NsResponse, LookupErr> {
+        if self.requests.fetch_add(1, Ordering::Relaxed) >= MAX_REQUESTS {
+            return Err(LookupErr::MaxRequests);
+        }
         self.trace
             .t_ns_req(&ns_req.searched_node.as_ref(), ns_req.searched_type, &ns_req.nameserver);
         match perform_request(ns_req, &mut self.trace) {
-- 
2.43.0


From 4f13257c5a42896038496daeccb4e6bbb9744a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 32/44] fix: keep silent traces empty when there are
 sub-lookups

---
 src/resolver/back_end/trace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 783019e..c438461 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -213,6 +213,7 @@ impl Trace {
 
     /// Consume another trace and add to the present one as a sub trace.
     pub fn add_sub_trace(&mut self, sub_trace: Trace) {
+        skip_if_silent!(self);
         let item = TraceLine::SubResolution(sub_trace.lines);
         self.lines.push(item);
     }
-- 
2.43.0


From f42b2a3477c519fa07e3d4f7d09a8395ce608f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 33/44] fix: ask again over TCP when the response of a
 nameserver is truncated

---
 src/resolver/back_end/requests.rs | 49 ++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 0129554..824ca13 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -4,6 +4,7 @@ use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
 use crate::shared::dns::Name;
 use std::fmt::Debug;
+use std::io::{Read, Write};
 use std::net::IpAddr;
 use std::{io, mem, net, time};
 
@@ -241,7 +242,23 @@ fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
     let request_bytes = request.encode_to_bytes().unwrap();
 
     let (response_bytes, n_recv) = send_udp_packet(ns_request, &request_bytes)?;
-    let response = dns::Message::decode_from_bytes(&response_bytes[..n_recv]);
+    let response = decode_response(ns_request, &request, &response_bytes[..n_recv])?;
+    if !response.header.truncated {
+        return Ok(response);
+    }
+
+    // What didn't fit in the datagram can be obtained only via TCP.
+    let response_bytes = send_tcp_packet(ns_request, &request_bytes)?;
+    decode_response(ns_request, &request, &response_bytes)
+}
+
+// Decode the response and make sure it is related to our request.
+fn decode_response(
+    ns_request: &NsRequest,
+    request: &dns::Message,
+    response_bytes: &[u8],
+) -> Result<dns::Message, LookupErr> {
+    let response = dns::Message::decode_from_bytes(response_bytes);
     let response = match response {
         Ok(v) => v,
         Err(err) => {
@@ -302,3 +319,33 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     let n_recv = udp_socket.recv(&mut buffer)?;
     Ok((buffer, n_recv))
 }
+
+fn send_tcp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<Vec<u8>> {
+    let addr = *request.nameserver.addrs().first().unwrap();
+    let mut tcp_stream = net::TcpStream::connect_timeout(&(addr, 53).into(), request.w_timeout)?;
+    tcp_stream.set_write_timeout(Some(request.w_timeout))?;
+    tcp_stream.write_all(&[&(bytes.len() as u16).to_be_bytes(), bytes].concat())?;
+
+    let deadline = time::Instant::now() + request.r_timeout;
+    let mut len = [0_u8; 2];
+    read_exact_until(&mut tcp_stream, &mut len, deadline)?;
+    let mut response = vec![0_u8; u16::from_be_bytes(len) as usize];
+    read_exact_until(&mut tcp_stream, &mut response, deadline)?;
+    Ok(response)
+}
+
+// Fill the buffer before the deadline, no matter how slowly the bytes arrive.
+fn read_exact_until(tcp_stream: &mut net::TcpStream, mut buf: &mut [u8], deadline: time::Instant) -> io::Result<()> {
+    while !buf.is_empty() {
+        let remaining = deadline.saturating_duration_since(time::Instant::now());
+        if remaining.is_zero() {
+            return Err(io::ErrorKind::TimedOut.into());
+        }
+        tcp_stream.set_read_timeout(Some(remaining))?;
+        match tcp_stream.read(buf)? {
+            0 => return Err(io::ErrorKind::UnexpectedEof.into()),
+            n => buf = &mut buf[n..],
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From ffc07a1f741cefc70c64584eeffec64e91d55bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 34/44] fix: do not overflow when more bytes than any buffer
 can hold are read

---
 src/shared/buffer/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index c583ffb..608fbd3 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -196,7 +196,7 @@ impl BitsBuf {
     /// bytes to be read. After the method call the reading
     /// positions is advanced by n * 8.
     pub fn read_bytes_vec(&mut self, n: usize) -> Option<Vec<u8>> {
-        if self.r_pos + n * 8 > self.last {
+        if n > (self.last - self.r_pos) / 8 {
             return None;
         }
         let mut buf = Vec::with_capacity(n);
-- 
2.43.0


From adae68e34b7341a716eff7f4c52e29e70615a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 35/44] fix: zone files: '@' is accepted as name in the data of
 all records

---
 src/nameserver/zones/parser_auth.rs | 37 ++++-------------------------
 src/nameserver/zones/utils.rs       |  9 +++++++
 2 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 5481461..0f71082 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -277,12 +277,7 @@ pub fn parse_a_record(tokens: &mut Tokenizer, rec_data: RecData) -> Result<dns::
 
 pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let name = tokens.next_after_blanks()?;
-    let name = if let Token::String(mut s) = name {
-        let s = adjust_name(origin, &mut s)?;
-        s
-    } else {
-        return Err(ParseErr::UnexpectedToken(name));
-    };
+    let name = parse_name(name, origin)?;
 
     Ok(dns::Record::NS {
         node: rec_data.0,
@@ -295,14 +290,7 @@ pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: Rec
 
 fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let name = tokens.next_after_blanks()?;
-    let name = match name {
-        Token::At => origin.clone(),
-        Token::String(mut s) => {
-            let s = adjust_name(origin, &mut s)?;
-            s
-        }
-        _ => return Err(ParseErr::UnexpectedToken(name)),
-    };
+    let name = parse_name(name, origin)?;
 
     Ok(dns::Record::CNAME {
         node: rec_data.0,
@@ -315,20 +303,10 @@ fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecD
 
 fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let token = tokens.next_after_blanks()?;
-    let ns_name = if let Token::String(mut name) = token {
-        let name = adjust_name(origin, &mut name)?;
-        name
-    } else {
-        return Err(ParseErr::UnexpectedToken(token));
-    };
+    let ns_name = parse_name(token, origin)?;
 
     let token = tokens.next_after_blanks()?;
-    let mail_name = if let Token::String(mut name) = token {
-        let name = adjust_name(origin, &mut name)?;
-        name
-    } else {
-        return Err(ParseErr::UnexpectedToken(token));
-    };
+    let mail_name = parse_name(token, origin)?;
 
     let mut zone_auth_params = [0_u32; 5];
     for i in 0..5 {
@@ -434,12 +412,7 @@ fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData
     };
 
     let next = tokens.next_after_blanks()?;
-    let name = if let Token::String(mut mail) = next {
-        let mail = adjust_name(origin, &mut mail)?;
-        mail
-    } else {
-        return Err(ParseErr::UnexpectedToken(next));
-    };
+    let name = parse_name(next, origin)?;
 
     Ok(dns::Record::MX {
         node: rec_data.0,
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index 182c26c..2c127c9 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -78,6 +78,15 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
 }
 
+/// Parse the passed token as a domain name, '@' being the current origin.
+pub fn parse_name(token: Token, current_origin: &dns::Name) -> Result<dns::Name, ParseErr> {
+    match token {
+        Token::At => Ok(current_origin.clone()),
+        Token::String(mut name) => adjust_name(current_origin, &mut name),
+        _ => Err(ParseErr::UnexpectedToken(token)),
+    }
+}
+
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
     let (is_valid, str) = match token {
-- 
2.43.0


From ac8e2e759afbeef2e9254531477c77a2e9382380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 36/44] fix: zone files: numbers are accepted as names and
 character strings

---
 src/nameserver/zones/parser_auth.rs | 14 +++++++-------
 src/nameserver/zones/parser_sub.rs  |  4 ++--
 src/nameserver/zones/tokens.rs      |  5 +++--
 src/nameserver/zones/utils.rs       |  8 ++++----
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 0f71082..65437ca 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -110,7 +110,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Res
         let entry = match &next_token {
             Token::OriginDir => parse_origin(tokenizer, &state),
             Token::IncludeDir => parse_include(tokenizer, &state),
-            Token::String(_) => parse_record(tokenizer, &state),
+            Token::String(_) | Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => Err(ParseErr::UnexpectedToken(next_token)),
@@ -166,13 +166,13 @@ fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<
 
     let file_name = tokenizer.next_after_blanks()?;
     let file_name = match file_name {
-        Token::Number(n) => n.to_string(),
+        Token::Number(_, s) => s,
         Token::String(s) => s,
         _ => return Err(ParseErr::UnexpectedToken(file_name)),
     };
 
     let mut domain_or_newline = tokenizer.next_after_blanks()?;
-    let origin = if let Token::String(mut name) = domain_or_newline {
+    let origin = if let Token::String(mut name) | Token::Number(_, mut name) = domain_or_newline {
         domain_or_newline = tokenizer.next_after_blanks()?;
         let name = adjust_name(&state.current_orig, &mut name)?;
         ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
@@ -195,7 +195,7 @@ fn parse_record(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<Z
     let node = match tokenizer.next() {
         Ok(Token::Blank) => state.current_orig.clone(),
         Ok(Token::At) => state.current_orig.clone(),
-        Ok(Token::String(mut name)) => {
+        Ok(Token::String(mut name)) | Ok(Token::Number(_, mut name)) => {
             let name = adjust_name(&state.current_orig, &mut name)?;
             ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
             name
@@ -311,7 +311,7 @@ fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecDat
     let mut zone_auth_params = [0_u32; 5];
     for i in 0..5 {
         let next = tokens.next_after_blanks()?;
-        if let Token::Number(n) = next {
+        if let Token::Number(n, _) = next {
             zone_auth_params[i] = n;
         } else {
             return Err(ParseErr::UnexpectedToken(next));
@@ -405,7 +405,7 @@ fn parse_hinfo_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dn
 
 fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let next = tokens.next_after_blanks()?;
-    let priority = if let Token::Number(num) = next {
+    let priority = if let Token::Number(num, _) = next {
         num.try_into().or(Err(ParseErr::MalformedData(num.to_string())))?
     } else {
         return Err(ParseErr::UnexpectedToken(next));
@@ -461,7 +461,7 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
 /// in parsing parameters. The SOA must be owned by the top node of the zone.
 fn parse_starting_soa_record(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Result<dns::Record, ParseErr> {
     let node = match tokenizer.next()? {
-        Token::String(mut name) => adjust_name(&state.zone, &mut name)?,
+        Token::String(mut name) | Token::Number(_, mut name) => adjust_name(&state.zone, &mut name)?,
         Token::Blank => state.zone.clone(),
         Token::At => state.zone.clone(),
         v => return Err(ParseErr::UnexpectedToken(v)),
diff --git a/src/nameserver/zones/parser_sub.rs b/src/nameserver/zones/parser_sub.rs
index cd41fbc..35fba63 100644
--- a/src/nameserver/zones/parser_sub.rs
+++ b/src/nameserver/zones/parser_sub.rs
@@ -51,7 +51,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut SubParsingState) -> Resu
         // Analyze the first token and start the record parsing.
         let line = tokenizer.line();
         let record = match &next_token {
-            Token::String(_) => parse_record(tokenizer, &state),
+            Token::String(_) | Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => {
@@ -79,7 +79,7 @@ fn parse_record(tokenizer: &mut Tokenizer, state: &SubParsingState) -> Result<dn
     let node = match tokenizer.next() {
         Ok(Token::Blank) => state.zone.clone(),
         Ok(Token::At) => state.zone.clone(),
-        Ok(Token::String(mut node)) => {
+        Ok(Token::String(mut node)) | Ok(Token::Number(_, mut node)) => {
             let node = adjust_name(&state.zone, &mut node)?;
             ensure_name_in_zone(&node, &state.zone)?;
             node
diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 82bf783..0a68b60 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -8,7 +8,8 @@ pub enum Token {
     IncludeDir,
     QString(String),
     String(String),
-    Number(u32),
+    // The number and its original representation.
+    Number(u32, String),
     Blank,
     NewLine,
     End,
@@ -281,7 +282,7 @@ impl Tokenizer {
         }
         match str.parse::<u32>() {
             Err(_) => Ok(Token::String(str)),
-            Ok(n) => Ok(Token::Number(n)),
+            Ok(n) => Ok(Token::Number(n, str)),
         }
     }
 
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index 2c127c9..a9215a7 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -9,7 +9,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
     let next_token = tokenizer.peek_after_blanks()?;
 
     // Try the ttl [class] format.
-    if let Token::Number(n) = next_token {
+    if let Token::Number(n, _) = next_token {
         tokenizer.next().unwrap(); // discard the peeked token
         let class_or_type = tokenizer.peek_after_blanks()?;
         return if let Ok(class) = try_to_class(&class_or_type) {
@@ -43,7 +43,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
 }
 
 fn try_to_ttl(token: &Token) -> Result<u32, ()> {
-    if let Token::Number(n) = token {
+    if let Token::Number(n, _) = token {
         Ok(*n)
     } else {
         Err(())
@@ -82,7 +82,7 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
 pub fn parse_name(token: Token, current_origin: &dns::Name) -> Result<dns::Name, ParseErr> {
     match token {
         Token::At => Ok(current_origin.clone()),
-        Token::String(mut name) => adjust_name(current_origin, &mut name),
+        Token::String(mut name) | Token::Number(_, mut name) => adjust_name(current_origin, &mut name),
         _ => Err(ParseErr::UnexpectedToken(token)),
     }
 }
@@ -90,7 +90,7 @@ pub fn parse_name(token: Token, current_origin: &dns::Name) -> Result<dns::Name,
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
     let (is_valid, str) = match token {
-        Token::String(s) => (dns::is_valid_character_string(&s, false), s),
+        Token::String(s) | Token::Number(_, s) => (dns::is_valid_character_string(&s, false), s),
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
         _ => return Err(ParseErr::UnexpectedToken(token)),
     };
-- 
2.43.0


From 1a34493b8c941543a5a601ed82754964a75be121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 37/44] fix: zone files: '\DDD' escapes are decoded

---
 src/nameserver/zones/tokens.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 0a68b60..9999933 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -292,11 +292,23 @@ impl Tokenizer {
         self.pos = self.line_chars.len();
     }
 
+    // Parse an escape sequence: '\DDD' is the octet with that decimal value,
+    // while any other escaped character represents the character itself.
     fn parse_escape(&mut self) -> Result<char, TokenErr> {
         assert_eq!(self.line_chars[self.pos], '\\');
         if self.pos + 1 >= self.line_chars.len() {
             return Err(TokenErr::InvalidEscape);
         }
+
+        let end = self.line_chars.len().min(self.pos + 4);
+        let digits = &self.line_chars[self.pos + 1..end];
+        if digits.len() == 3 && digits.iter().all(|ch| ch.is_ascii_digit()) {
+            let value: String = digits.iter().collect();
+            let value: u8 = value.parse().or(Err(TokenErr::InvalidEscape))?;
+            self.pos += 4;
+            return Ok(char::from(value));
+        }
+
         let ch_esc = Ok(self.line_chars[self.pos + 1]);
         self.pos += 2;
         ch_esc
-- 
2.43.0


From 1f5900ac9f8b9647dd8f34698cbf176077af85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 38/44] fix: zone files: escapes at the end of a line no longer
 panic

---
 src/nameserver/zones/tokens.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 9999933..a95f89d 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -160,7 +160,7 @@ impl Tokenizer {
     // Consume all consecutive whitespaces and return the corresponding token.
     fn process_whitespace(&mut self) -> Token {
         assert!(self.line_chars[self.pos].is_whitespace());
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch.is_whitespace() {
                 self.pos += 1;
@@ -177,7 +177,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -209,7 +209,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -260,7 +260,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From 3c770ebb3961dd27df6d347fe93435e0a729efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 39/44] fix: sub-lookups that send no request count towards the
 work of a lookup

---
 src/resolver/back_end/recursive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index fa2c8f5..0036613 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -263,6 +263,10 @@ impl<'a> Lookup<'a> {
         if self.previous_zones.len() >= MAX_SUB_LOOKUPS_DEPTH {
             return Err((node.to_string(), LookupErr::MaxRequests));
         }
+        // With cached delegations a sub-lookup could send no request at all.
+        if self.requests.fetch_add(1, Ordering::Relaxed) >= MAX_REQUESTS {
+            return Err((node.to_string(), LookupErr::MaxRequests));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
-- 
2.43.0


From 502ccc323633100268333901e98f809f2efcbd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 40/44] fix: enormous read timeouts do not make lookups over
 TCP panic

---
 src/resolver/back_end/requests.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 824ca13..fafb74f 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -326,7 +326,8 @@ fn send_tcp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<Vec<u8>> {
     tcp_stream.set_write_timeout(Some(request.w_timeout))?;
     tcp_stream.write_all(&[&(bytes.len() as u16).to_be_bytes(), bytes].concat())?;
 
-    let deadline = time::Instant::now() + request.r_timeout;
+    // There is no deadline if the timeout is too far in the future to be represented.
+    let deadline = time::Instant::now().checked_add(request.r_timeout);
     let mut len = [0_u8; 2];
     read_exact_until(&mut tcp_stream, &mut len, deadline)?;
     let mut response = vec![0_u8; u16::from_be_bytes(len) as usize];
@@ -335,13 +336,13 @@ fn send_tcp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<Vec<u8>> {
 }
 
 // Fill the buffer before the deadline, no matter how slowly the bytes arrive.
-fn read_exact_until(tcp_stream: &mut net::TcpStream, mut buf: &mut [u8], deadline: time::Instant) -> io::Result<()> {
+fn read_exact_until(tcp_stream: &mut net::TcpStream, mut buf: &mut [u8], deadline: Option<time::Instant>) -> io::Result<()> {
     while !buf.is_empty() {
-        let remaining = deadline.saturating_duration_since(time::Instant::now());
-        if remaining.is_zero() {
+        let remaining = deadline.map(|d| d.saturating_duration_since(time::Instant::now()));
+        if remaining.map_or(false, |r| r.is_zero()) {
             return Err(io::ErrorKind::TimedOut.into());
         }
-        tcp_stream.set_read_timeout(Some(remaining))?;
+        tcp_stream.set_read_timeout(remaining)?;
         match tcp_stream.read(buf)? {
             0 => return Err(io::ErrorKind::UnexpectedEof.into()),
             n => buf = &mut buf[n..],
-- 
2.43.0


From 8e158ced7f4677371f377589a24b489a315ba23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 41/44] fix: clients sending a request one byte at a time
 cannot hold a TCP worker past the read timeout

---
 src/shared/net/tcp_server.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index 69d2101..bcde516 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -12,13 +12,16 @@ pub struct TcpRequest(net::TcpStream);
 
 impl DnsRead for TcpRequest {
     fn read(mut self) -> DnsReadResult {
+        // The timeout bounds the arrival of the whole request, not of each piece of it.
+        let timeout = self.0.read_timeout().unwrap_or(None);
+        let deadline = timeout.and_then(|timeout| time::Instant::now().checked_add(timeout));
         let mut buf: [u8; 2] = [0; 2];
-        if let Err(err) = self.0.read_exact(&mut buf) {
+        if let Err(err) = read_exact_until(&mut self.0, &mut buf, deadline) {
             return DnsReadResult::IoErr(err);
         };
         let req_len = ((buf[0] as u16) << 8) | (buf[1] as u16);
         let mut buf = vec![0_u8; req_len as usize];
-        if let Err(err) = self.0.read_exact(&mut buf) {
+        if let Err(err) = read_exact_until(&mut self.0, &mut buf, deadline) {
             return DnsReadResult::IoErr(err);
         };
 
@@ -34,6 +37,30 @@ impl DnsRead for TcpRequest {
     }
 }
 
+/// Fill the buffer before the deadline, no matter how slowly the bytes arrive.
+fn read_exact_until(
+    tcp_stream: &mut net::TcpStream,
+    mut buf: &mut [u8],
+    deadline: Option<time::Instant>,
+) -> io::Result<()> {
+    while !buf.is_empty() {
+        if let Some(deadline) = deadline {
+            let remaining = deadline.saturating_duration_since(time::Instant::now());
+            if remaining.is_zero() {
+                return Err(io::ErrorKind::TimedOut.into());
+            }
+            tcp_stream.set_read_timeout(Some(remaining))?;
+        }
+        match tcp_stream.read(buf) {
+            Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
+            Ok(n) => buf = &mut buf[n..],
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
+            Err(err) => return Err(err),
+        }
+    }
+    Ok(())
+}
+
 /// A wrapper around the an established TCP connection. Implements [DnsWrite],
 /// writing directly into the underlying connection. It is required to write
 /// the length of the message itself before writing the actual response.
-- 
2.43.0


From f024befa74104c69064c1b5fd7eec64eb626d09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 42/44] fix: escaped dots and '@' in zone files are text, not
 separators or the origin

---
 src/nameserver/zones/tokens.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a95f89d..6767515 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -259,11 +259,13 @@ impl Tokenizer {
     // Parse a string or a number and return the corresponding token.
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
+        let mut literal = false;
 
         while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
+                literal |= ch == '.' || ch == '@';
                 str.push(ch);
                 continue;
             }
@@ -277,6 +279,11 @@ impl Tokenizer {
             str.push(ch);
         }
 
+        // Escaped, a dot doesn't separate labels and '@' is not the origin: such
+        // strings are only plain text, as the quoted ones.
+        if literal {
+            return Ok(Token::QString(str));
+        }
         if str == "@" {
             return Ok(Token::At);
         }
-- 
2.43.0


From b572d581391da5b4a27e1f0e94f66b51388fc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:37 +0000
Subject: [PATCH 43/44] fix: a number in a zone file has no plus sign

A TTL or an MX priority such as '+300' was taken for a number, although it is
not one in the syntax of zone files. It is refused as other malformed data.
---
 src/nameserver/zones/tokens.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 6767515..b5fced5 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -288,8 +288,8 @@ impl Tokenizer {
             return Ok(Token::At);
         }
         match str.parse::<u32>() {
-            Err(_) => Ok(Token::String(str)),
-            Ok(n) => Ok(Token::Number(n, str)),
+            Ok(n) if !str.starts_with('+') => Ok(Token::Number(n, str)),
+            _ => Ok(Token::String(str)),
         }
     }
 
-- 
2.43.0


From e9511342878da46308f85e665149b0e088da4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:59 +0000
Subject: [PATCH 44/44] fix: a cached cname searched for itself is never
 followed

The lookup of a cname searched the cache twice, for an answer and then for a
cname to follow. When another thread cached the cname between the two searches
it was followed, and its target searched for a cname: the answer was lost.
---
 src/resolver/back_end/recursive.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 0036613..dc21e7e 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -127,10 +127,14 @@ impl<'a> Lookup<'a> {
                 answers.extend(cached_answers);
                 return Ok(LookupResponse(answers, vec![], vec![], false));
             }
-            let mut cached_cnames = self.search_records_in_cache_with_trace(dns::RecordType::CNAME);
-            if cached_cnames.len() > 0 {
-                self.handle_cname(cached_cnames.swap_remove(0), vec![])?;
-                continue;
+            // A cname searched for itself is an answer, not something to be followed (it
+            // could have been cached by another lookup after the search done above).
+            if self.searched_kind != dns::RecordType::CNAME {
+                let mut cached_cnames = self.search_records_in_cache_with_trace(dns::RecordType::CNAME);
+                if cached_cnames.len() > 0 {
+                    self.handle_cname(cached_cnames.swap_remove(0), vec![])?;
+                    continue;
+                }
             }
 
             // The addresses of cached nameservers could expire first, and some
-- 
2.43.0

