From 57d9052cbd67b19a759073dc9e5161a658a9bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 01/34] fix: reject compression pointers beyond the end of the
 message

A pointer past the end made set_read_pos panic, and the offset in bits
overflowed u16 for pointers >= 8192.
---
 src/shared/buffer/buffer.rs | 5 +++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..3f11ff2 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -66,6 +66,11 @@ impl BitsBuf {
         self.buf
     }
 
+    /// Returns the length of the buffer (expressed in bits).
+    pub fn len(&self) -> usize {
+        self.last
+    }
+
     /// Returns the current reading position in the buffer.
     /// Note that the reading position is expressed in bits.
     pub fn read_pos(&self) -> usize {
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..2ccb2a0 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -55,8 +55,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = jump_pos as usize * 8;
+                    if jump_pos > buffer.len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From 70ecf5d0aac5ecf42161f2c18de72b8cb3298e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 02/34] fix: encode the root name as a single zero byte

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 2ccb2a0..5d902ad 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -105,6 +105,9 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
+        if self.0 == "." {
+            return vec![0];
+        }
         let mut vec = Vec::with_capacity(self.0.len());
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
-- 
2.43.0


From 27024bec113c1d3266550587d735707836e8e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 03/34] fix: every name is contained in the root zone

is_in_zone compared the empty labels of the root zone with the ones of
the name, so nothing was in '.', and relative names could not be made
absolute with the root as origin.
---
 src/nameserver/zones/utils.rs | 4 +++-
 src/shared/dns/name.rs        | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..fcaa494 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -68,7 +68,9 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
     if !name.ends_with('.') {
         name.push('.');
-        name.push_str(current_origin.as_ref());
+        if current_origin.as_ref() != "." {
+            name.push_str(current_origin.as_ref());
+        }
     }
     match dns::Name::from_string(name) {
         Ok(name) => Ok(name),
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 5d902ad..3636a0d 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -184,6 +184,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From 0272b21d7ea323198545d83314c7fd63116fbe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 04/34] fix: enforce the limits of labels and names lengths

Labels longer than 63 bytes were encoded as pointers or reserved label
types. The limit of 255 bytes for names refers to the encoded form, which
is one byte longer than the textual form.
---
 src/shared/dns/name.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 3636a0d..a0fa717 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -124,7 +124,7 @@ fn validate_name(name: &str) -> Result<(), NameErr> {
     if name == "." {
         return Ok(());
     }
-    if name.len() > 255 {
+    if name.len() > 254 {
         return Err(NameErr::LongName);
     }
     if !name.ends_with('.') {
@@ -152,6 +152,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if label.len() == 0 {
         return Err(NameErr::MalformedLabel("empty label"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let first = label.chars().next().unwrap();
     let last = label.chars().last().unwrap();
     if !first.is_ascii_alphanumeric() {
-- 
2.43.0


From 1e283b899e06fde9984a7cc0a690f40683ba071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 05/34] fix: avoid overflows checking the data length of
 records

---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..3f59c71 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From 894d3b8e7d750abb0e75ce795693f5bbb2566b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 06/34] fix: decode and encode the ports bitmap of WKS records

Decoding never terminated (or overflowed) with a non-zero bitmap, panicked
with truncated data and ignored data lengths lower than 5. Encoding wrote
four bytes per port while counting one.
---
 src/shared/dns/records.rs | 44 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3f59c71..d12de20 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -409,37 +409,47 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
-    let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
-        parse_wks_ports(&ports_bytes)
-    } else {
-        vec![]
-    };
+    let ports_bytes = buffer
+        .read_bytes_vec((data_len - 5) as usize)
+        .ok_or(ParsingErr::BytesEnd)?;
 
-    Ok((address, protocol, ports))
+    Ok((address, protocol, parse_wks_ports(&ports_bytes)))
 }
 
 fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
+    let ports_bytes = encode_wks_ports(ports);
+    buffer.write_u16((5 + ports_bytes.len()) as u16);
     buffer.write_bytes(address);
     buffer.write_u8(protocol);
-    for p in ports {
-        buffer.write_u32(*p);
+    buffer.write_bytes(&ports_bytes);
+}
+
+// The ports are encoded as a bitmap, the most significant bit
+// of the first byte corresponds to the port number zero.
+fn encode_wks_ports(ports: &[u32]) -> Vec<u8> {
+    let mut ports_bytes = vec![];
+    for port in ports {
+        let index = (*port / 8) as usize;
+        if index >= ports_bytes.len() {
+            ports_bytes.resize(index + 1, 0);
+        }
+        ports_bytes[index] |= 0b10000000 >> (*port % 8);
     }
+    ports_bytes
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
     let mut ports = vec![];
     for (i, &byte) in ports_bytes.iter().enumerate() {
-        if byte == 0 {
-            continue;
-        }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
-            };
+        for j in 0..8 {
+            if byte & (0b10000000 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
+            }
         }
     }
     ports
-- 
2.43.0


From 03f017912b9e3e937173e6e93734cca75db7f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 07/34] fix: re-read the length byte of TXT strings from its
 own position

The reading position is in bits, going back by one bit shifted all the
following bytes. The count of bytes read could also overflow.
---
 src/shared/dns/records.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index d12de20..b84254f 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -520,11 +520,12 @@ fn encode_mx_data(buffer: &mut BitsBuf, priority: u16, name: &Name) -> Result<()
 // TXT records data encoding and decoding functions.
 fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, ParsingErr> {
     let mut strings = vec![];
-    let mut read: u16 = 0;
+    let data_len = data_len as usize;
+    let mut read: usize = 0;
     loop {
         let pos = buffer.read_pos();
-        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
+        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as usize;
+        buffer.set_read_pos(pos);
         if read + len + 1 > data_len {
             return Err(ParsingErr::DataLenMismatch);
         }
-- 
2.43.0


From fc998a0cb2859ad2b69900101c5caf0029337782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 08/34] fix: refuse zone file character strings which cannot be
 encoded

Strings longer than 255 bytes were accepted when loading the zone, then
the server panicked encoding them in a response.
---
 src/shared/dns/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/utils.rs b/src/shared/dns/utils.rs
index 793b631..6b4bff2 100644
--- a/src/shared/dns/utils.rs
+++ b/src/shared/dns/utils.rs
@@ -30,6 +30,9 @@ pub fn encode_character_string(string: &str) -> Result<Vec<u8>, ParsingErr> {
 }
 
 pub fn is_valid_character_string(s: &str, quoted: bool) -> bool {
+    if s.len() > 255 {
+        return false;
+    }
     if quoted {
         s.chars().all(|ch| ch.is_ascii())
     } else {
-- 
2.43.0


From 44d296be17c827d31a7f6e1baf0856dfe4d03ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 09/34] fix: refuse TXT records without strings or too long to
 be encoded

---
 src/nameserver/zones/parser_auth.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..f4f7215 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -443,6 +443,7 @@ fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData
 
 fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let mut txts = vec![];
+    let mut data_len = 0;
     loop {
         let next = tokenizer.peek_after_blanks()?;
         match next {
@@ -451,11 +452,19 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
             tok => {
                 tokenizer.next_after_blanks().unwrap();
                 let txt = parse_char_string(tok)?;
+                data_len += txt.len() + 1;
                 txts.push(txt);
             }
         };
     }
 
+    // At least one string is mandatory, and the
+    // encoded data length must fit in 16 bits.
+    if txts.is_empty() || data_len > u16::MAX as usize {
+        let err_msg = format!("invalid TXT data length: {}", data_len);
+        return Err(ParseErr::MalformedData(err_msg));
+    }
+
     Ok(dns::Record::TXT {
         node: rec_data.0,
         class: rec_data.1,
-- 
2.43.0


From ba20691a6353d7315e7d3b7e12d81796aa32b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 10/34] fix: set the counts of responses from the records they
 carry

The counts were copied from the request header, while questions of unknown
types are dropped during decoding and error responses have no records: the
encoding panicked accessing the missing items (e.g. for AAAA queries).
---
 src/nameserver/handler.rs |  8 +++++++-
 src/resolver/handler.rs   | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..cb21cf3 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -164,7 +164,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
@@ -183,6 +187,7 @@ fn handle_nx_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, soa_record: dns::
 
     let mut resp_header = resp_header_from_req_header(&dns_req.header, dns::RespCode::NxDomain);
     resp_header.auth_answer = true;
+    resp_header.questions_count = dns_req.questions.len() as u16;
     resp_header.answers_count = 0;
     resp_header.authorities_count = 1;
     resp_header.additionals_count = 0;
@@ -202,6 +207,7 @@ fn handle_nx_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, soa_record: dns::
 fn handle_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, resp_code: dns::RespCode) {
     let mut resp_header = resp_header_from_req_header(&dns_req.header, resp_code);
     resp_header.auth_answer = true;
+    resp_header.questions_count = dns_req.questions.len() as u16;
     resp_header.answers_count = 0;
     resp_header.authorities_count = 0;
     resp_header.additionals_count = 0;
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..0951e72 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -68,6 +68,7 @@ fn handle_query<W: DnsWrite>(req: dns::Message, resp: W, resolver: &Resolver) {
     // An invariant that we must maintain is that dns messages formed
     // internally must be valid, so it's fine to unwrap after encoding.
     let mut resp_header = resp_header_from_req_header(&req.header, dns::RespCode::NoError);
+    resp_header.questions_count = 1;
     resp_header.answers_count = answers.len() as u16;
     resp_header.authorities_count = authorities.len() as u16;
     resp_header.additionals_count = additionals.len() as u16;
@@ -93,7 +94,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
@@ -109,6 +114,7 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
 /// Questions are included in the response.
 fn handle_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, resp_code: dns::RespCode) {
     let mut resp_header = resp_header_from_req_header(&dns_req.header, resp_code);
+    resp_header.questions_count = dns_req.questions.len() as u16;
     resp_header.answers_count = 0;
     resp_header.authorities_count = 0;
     resp_header.additionals_count = 0;
@@ -152,7 +158,7 @@ fn validate_dns_request(dns_req: &dns::Message) -> Result<(), String> {
     if !dns_req.header.is_request() {
         return Err(format!("resp flag set in query"));
     }
-    if dns_req.header.questions_count != 1 {
+    if dns_req.questions.len() != 1 {
         return Err(format!("invalid # of questions: {:?}", dns_req.header.questions_count));
     }
     if dns_req.header.answers_count != 0 {
-- 
2.43.0


From a73239a0ec42101f5cdb9b8e0ebd0c5cf70d34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 11/34] fix: reply to requests with unsupported op codes

The op code of the request is copied into the 'not implemented' response,
but encoding the header panicked for unsupported op codes.
---
 src/shared/dns/header.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..5dbbea2 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -85,10 +85,9 @@ impl Header {
     }
 
     /// Encode a dns [`Header`] to raw bytes, writing them into the provided
-    /// buffer. The function panics if some unsupported op codes are provided
-    /// (this helps maintaining invariants about supported features).
+    /// buffer. Unsupported op codes can be encoded, since they are copied from
+    /// the request into the response which signals they are not implemented.
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From 20e361a07b871797aec2273c0efacf4b0d6de3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 12/34] fix: do not copy the truncation flag of requests into
 responses

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index cb21cf3..f5a27fd 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -239,6 +239,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: false,
         z: 0,
         resp_code,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 0951e72..a41e858 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -146,6 +146,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: true,
         z: 0,
         resp_code,
-- 
2.43.0


From afefed755f3a05887d11707c0df86d4a5259412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 13/34] fix: refuse to send TCP responses longer than their
 length prefix allows

---
 src/shared/net/tcp_server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..c733ca7 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -42,6 +42,9 @@ pub struct TcpResponse(net::TcpStream);
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
         let resp_bytes = response.encode_to_bytes().unwrap();
+        if resp_bytes.len() > u16::MAX as usize {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "response too long"));
+        }
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From 4c950223a82d1397875d56a0e7218fc5c70d6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 14/34] fix: compare whole labels deciding if delegations are
 related to a node

Comparing the text suffixes made 'badexample.com.' part of 'example.com.'.
---
 src/resolver/back_end/requests.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..ab360fb 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -129,7 +129,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -178,7 +178,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -201,7 +201,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From c315c58b305e61f28e09a2420ea813659d4b4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 15/34] fix: cache NS records under the zone they refer to

Records of different zones in the same delegation were all cached
under the zone of the first one.
---
 src/resolver/back_end/recursive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..5b43276 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -387,7 +387,12 @@ fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>) {
             save_records_in_cache(cache, next_ns.a_records);
         }
     }
-    save_records_in_cache(cache, ns_records);
+    // Nameservers could refer to different zones, save them separately.
+    while let Some(ns_record) = ns_records.first() {
+        let zone = ns_record.node().clone();
+        let zone_ns_records = extract_records(&mut ns_records, dns::RecordType::NS, &zone);
+        save_records_in_cache(cache, zone_ns_records);
+    }
 }
 
 // Generate a list of domains from the passed one, in increasing order.
-- 
2.43.0


From 4b7db7efd05a51148790370bfe9b8c54e3907e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 16/34] fix: skip nameservers whose names have no address

A sub-lookup ending with 'nx_domain' returns no addresses, and sending
the query to that nameserver panicked.
---
 src/resolver/back_end/recursive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 5b43276..be6f9c2 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -193,6 +193,10 @@ impl<'a> Lookup<'a> {
                 // If no address is present start a separate lookup.
                 if next_ns.addrs().is_empty() {
                     match self.resolve_ns_subquery(next_ns.node(), next_ns.zone()) {
+                        Ok(addrs) if addrs.is_empty() => {
+                            error.get_or_insert((format!("{:?}", next_ns), LookupErr::UnexpectedEmptyResp));
+                            continue;
+                        }
                         Ok(addrs) => next_ns.a_records = addrs,
                         Err(err) => {
                             let err = LookupErr::SubLookupErr(Box::new(err));
-- 
2.43.0


From c89019ba36c320de3595648bbc924740e58415b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 17/34] fix: ignore delegations and addresses outside the zone
 of the nameserver

Any nameserver could provide nameservers and addresses for zones it does
not manage. Those were cached and used for unrelated lookups.
---
 src/resolver/back_end/requests.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index ab360fb..5f623ee 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -99,10 +99,11 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
+    let current_zone = ns_req.nameserver.zone();
     let cname = extract_record(&mut dns_resp.answers, dns::RecordType::CNAME, searched_node);
     if let Some(cname_rec) = cname {
         let cname = cname_rec.cname_data();
-        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname);
+        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname, current_zone);
         return Ok(NsResponse::Alias {
             header: dns_resp.header,
             cname_rec,
@@ -110,8 +111,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
-    let current_zone = ns_req.nameserver.zone();
-    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
+    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
             header: dns_resp.header,
@@ -124,15 +124,16 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
 /// Extracts from the [`dns::Message`] response all records useful to re-start
 /// the cname resolution. Those are typically NS records and their addresses.
-fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut response.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
         .filter(|rec| cname.is_in_zone(rec.node()))
+        .filter(|rec| rec.node().is_in_zone(zone))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
-            let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_ns_addrs(&mut response.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: next_record,
                 a_records: ns_addrs,
@@ -143,19 +144,20 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
-fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
         .filter(|rec| {
             let is_auth = is_nameserver_authoritative_over_node(rec.node(), node);
-            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone);
+            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone.as_ref());
+            let is_sub = is_sub && rec.node().is_in_zone(zone);
             is_auth && is_sub
         })
         .map(|ns_record| {
             let ns_node = ns_record.ns_data();
-            let ns_addrs = extract_records(&mut resp.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_ns_addrs(&mut resp.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: ns_record,
                 a_records: ns_addrs,
@@ -174,6 +176,16 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
         .collect()
 }
 
+// Extract the addresses of a nameserver. They are accepted only if the nameserver
+// is in the zone of the queried nameserver: it must not provide (and we must not
+// cache) records about other zones. Addresses are resolved separately in that case.
+fn extract_ns_addrs(records: &mut Vec<dns::Record>, ns_node: &Name, zone: &Name) -> Vec<dns::Record> {
+    if !ns_node.is_in_zone(zone) {
+        return vec![];
+    }
+    extract_records(records, dns::RecordType::A, ns_node)
+}
+
 // Make sure the zone managed by the queried nameserver contains the node we
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
-- 
2.43.0


From b813061cbf384bb9f5ee458c6cb80358c20a7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 18/34] fix: accept only responses from the queried nameserver
 to the query sent

Datagrams of any source, other queries and responses about other questions
were accepted as long as the id was the right one.
---
 src/resolver/back_end/requests.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 5f623ee..5877567 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -251,6 +251,14 @@ fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
         }
     };
 
+    let same_question = match response.questions.as_slice() {
+        [q] => q.node == ns_request.searched_node && q.record_type == ns_request.searched_type,
+        _ => false,
+    };
+    if response.header.is_request() || !same_question {
+        let err_msg = format!("response not related to the request: {:?}", response.questions);
+        return Err(LookupErr::MalformedResp(err_msg));
+    }
     if response.header.id != request.header.id {
         return Err(LookupErr::MalformedResp(format!(
             "expected header id: {}, got: {}",
@@ -284,8 +292,9 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
     udp_socket.set_read_timeout(Some(request.r_timeout))?;
-    udp_socket.send_to(&bytes, (addr, 53))?;
+    udp_socket.connect((addr, 53))?;
+    udp_socket.send(&bytes)?;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
-    let (n_recv, _) = udp_socket.recv_from(&mut buffer)?;
+    let n_recv = udp_socket.recv(&mut buffer)?;
     Ok((buffer, n_recv))
 }
-- 
2.43.0


From f30f4b8464e4bedbe5d65fdededfbd7cbbc510e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 19/34] fix: limit the nesting of the lookups of nameservers
 addresses

A chain of delegations to nameservers without addresses, always in new
zones, started nested lookups until the stack was exhausted.
---
 src/resolver/back_end/recursive.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index be6f9c2..ee8d4bd 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -42,6 +42,9 @@ pub struct Resolver {
     trc_conf: TraceParams,
 }
 
+// The max number of nested lookups started to find the addresses of nameservers.
+const MAX_SUB_LOOKUPS: usize = 8;
+
 pub type RecordsCache = Cache<(dns::Name, dns::RecordType), Vec<dns::Record>>;
 
 impl Resolver {
@@ -245,6 +248,10 @@ impl<'a> Lookup<'a> {
     /// recursive sub-lookup to resolve the passed nameserver name. Cnames are
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
+        if self.previous_zones.len() >= MAX_SUB_LOOKUPS {
+            let err_msg = format!("too many nested lookups: {:?}", self.previous_zones);
+            return Err((err_msg, LookupErr::ZonesLoop));
+        }
         detect_zones_loop(zone, &self.previous_zones)?;
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
-- 
2.43.0


From 330a7b78a538464f23ff6d33a2c68a82e0a6a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 20/34] fix: ignore cached nameservers which need their own
 zone to be found

Once the cached addresses of such nameservers were expired the lookups of
all the names in the zone failed, until the NS records expired as well.
---
 src/resolver/back_end/recursive.rs | 27 ++++++++++++++-------------
 src/resolver/back_end/requests.rs  |  2 +-
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index ee8d4bd..6a45ec1 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -310,17 +310,26 @@ impl<'a> Lookup<'a> {
     // Search records related to nameserver in cache and trace the outcome.
     fn search_nss_in_cache_with_trace(&mut self) -> Vec<NextSubzoneNs> {
         let domains = generate_domain_hierarchy(&self.searched_node.as_ref());
-        let ns_records: Option<Vec<dns::Record>> = domains.iter().find_map(|name| {
+        let cached_next_nss: Option<Vec<NextSubzoneNs>> = domains.iter().find_map(|name| {
             let name = dns::Name::from_string(name).unwrap();
-            let records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
-            if records.len() > 0 {
-                Some(records)
+            let next_nss: Vec<NextSubzoneNs> = search_records_in_cache(&self.cache, &name, dns::RecordType::NS)
+                .into_iter()
+                .map(|ns_record| {
+                    let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
+                    NextSubzoneNs { ns_record, a_records }
+                })
+                // The addresses could expire before the NS records. Without them
+                // a nameserver cannot be found through the zone it manages.
+                .filter(|ns| !is_nameserver_in_subzone_without_glue(ns.node(), ns.zone(), ns.a_records.is_empty()))
+                .collect();
+            if next_nss.len() > 0 {
+                Some(next_nss)
             } else {
                 None
             }
         });
 
-        let ns_records: Vec<dns::Record> = match ns_records {
+        let cached_next_nss: Vec<NextSubzoneNs> = match cached_next_nss {
             Some(v) => v,
             None => {
                 self.trace.t_cache_ns_miss(&self.searched_node.as_ref());
@@ -328,14 +337,6 @@ impl<'a> Lookup<'a> {
             }
         };
 
-        let cached_next_nss: Vec<NextSubzoneNs> = ns_records
-            .into_iter()
-            .map(|ns_record| {
-                let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
-                NextSubzoneNs { ns_record, a_records }
-            })
-            .collect();
-
         self.trace
             .t_cache_ns_hit(&self.searched_node.as_ref(), &cached_next_nss);
         cached_next_nss
diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 5877567..371c518 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -212,7 +212,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // A loop arises if the indicated sub zone nameserver is in a child zone of the queried
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
-fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
+pub fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
     if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
-- 
2.43.0


From d5e39aa6edd5e60e5d5216dfc00e827ee2cb9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 21/34] fix: handle escape sequences up to the end of the line

Escape sequences are two characters long, so the loops bounded by the number
of characters read past the end of the line and panicked.
---
 src/nameserver/zones/tokens.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..dff6361 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -174,7 +174,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -206,7 +206,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -257,7 +257,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From 52e7e125d246d0105a46704a09187b458777e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 22/34] fix: treat all whitespaces as blanks when reading zone
 files

Whitespaces other than space and tab produced empty string tokens forever.
---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index dff6361..0e0ff59 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -83,7 +83,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From 42283559020578324a3fb3cd03b238bcb3748f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 23/34] fix: skip parentheses and comments in zone files
 without recursion

A long sequence of parentheses exhausted the stack.
---
 src/nameserver/zones/tokens.rs | 53 +++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 0e0ff59..a670fae 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -66,39 +66,32 @@ impl Tokenizer {
             return Ok(self.peeked.remove(0));
         }
 
-        if self.line_chars.len() == self.pos {
-            let new_line_load = self.load_new_line()?;
-            if let None = new_line_load {
-                return if self.multiline {
-                    Err(TokenErr::MlMissingClose)
-                } else {
-                    Ok(Token::End)
-                };
-            }
-            if !self.multiline {
-                return Ok(Token::NewLine);
+        loop {
+            if self.line_chars.len() == self.pos {
+                let new_line_load = self.load_new_line()?;
+                if let None = new_line_load {
+                    return if self.multiline {
+                        Err(TokenErr::MlMissingClose)
+                    } else {
+                        Ok(Token::End)
+                    };
+                }
+                if !self.multiline {
+                    return Ok(Token::NewLine);
+                }
             }
-        }
 
-        // Parse the token. Note that some branches only consume
-        // some characters and invoke 'next' recursively.
-        match self.line_chars[self.pos] {
-            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
-            '$' => self.process_directive(),
-            '"' => self.process_quoted_string(),
-            '(' => {
-                self.process_multi_line()?;
-                self.next()
-            }
-            ')' => {
-                self.process_close_multi()?;
-                self.next()
-            }
-            ';' => {
-                self.process_comment();
-                self.next()
+            // Parse the token. Note that some branches only
+            // consume some characters and then try again.
+            match self.line_chars[self.pos] {
+                ch if ch.is_whitespace() => return Ok(self.process_whitespace()),
+                '$' => return self.process_directive(),
+                '"' => return self.process_quoted_string(),
+                '(' => self.process_multi_line()?,
+                ')' => self.process_close_multi()?,
+                ';' => self.process_comment(),
+                _ => return self.process_string_or_number(),
             }
-            _ => self.process_string_or_number(),
         }
     }
 
-- 
2.43.0


From d714bfa566990a1d55b8b6ad63e6c74cbd36d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 24/34] fix: limit the depth of included zone files

A file including itself, even indirectly, exhausted the stack.
---
 src/nameserver/zones/parser_auth.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index f4f7215..b6dfd45 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -22,8 +22,12 @@ struct AuthParsingState<'a> {
     pub current_orig: dns::Name,
     pub current_ttl: u32,
     pub min_ttl: u32,
+    pub depth: usize,
 }
 
+// The max depth of files included by other included files.
+const MAX_INCLUDE_DEPTH: usize = 16;
+
 /// Parse the zone file related to the authoritative zone managed by the nameserver.
 /// A [`Zone`] object is returned, holding the zone records. The zone file could use
 /// the 'include' directive further files.
@@ -42,6 +46,7 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
         current_orig: conf.zone.clone(),
         current_ttl: conf.starting_ttl,
         min_ttl: 0,
+        depth: 0,
     };
 
     let soa_record = parse_starting_soa_record(&mut tokenizer, &mut parsing_state);
@@ -63,6 +68,10 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
 /// the parent parsing state is left untouched.
 fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsingState) -> Result<Zone, ParseErrCtx> {
     log::info!("Including {:?}", file_path);
+    if p_state.depth >= MAX_INCLUDE_DEPTH {
+        let err_msg = format!("too many nested included files, including {:?}", file_path);
+        return Err((ParseErr::MalformedZone(err_msg), p_state.current_file.to_string()));
+    }
     let mut tokenizer = match Tokenizer::from_file(&file_path) {
         Err(err) => return Err((ParseErr::ReadingErr(err), p_state.current_file.to_string())),
         Ok(v) => v,
@@ -75,6 +84,7 @@ fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsi
         current_orig: origin,
         current_ttl: p_state.current_ttl,
         min_ttl: p_state.min_ttl,
+        depth: p_state.depth + 1,
     };
 
     parse_entries(&mut tokenizer, &mut child_state)
-- 
2.43.0


From 4cecf727efa06a03e35e417b9199f22d443d7915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 25/34] fix: refuse configurations with no TCP read timeout

A timeout of 0 seconds is refused by the sockets, no request was served.
---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..3e0b9bb 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -80,6 +80,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..244df2f 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -88,6 +88,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
-- 
2.43.0


From e7c43fdb78d6c740e4bdc2a9c7b9225a0ff5480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 26/34] fix: refuse labels which contain dots when decoding
 names

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index a0fa717..fbf4d02 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -76,6 +76,9 @@ impl Name {
                         name_bytes.push('.' as u8);
                     }
                     let label_bytes = check_end(buffer.read_bytes_vec(len_byte as usize))?;
+                    if label_bytes.contains(&('.' as u8)) {
+                        return Err(NameErr::MalformedLabel("dot in label"));
+                    }
                     name_bytes.extend(label_bytes);
                     if name_bytes.len() > 255 {
                         return Err(NameErr::LongName);
-- 
2.43.0


From 75ff5f6c28c73ff611c09ba709ed638ea4fca7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 27/34] hook: expose the tokenizer to the verification harness

---
 src/nameserver/zones/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nameserver/zones/mod.rs b/src/nameserver/zones/mod.rs
index 6029a66..9b848e6 100644
--- a/src/nameserver/zones/mod.rs
+++ b/src/nameserver/zones/mod.rs
@@ -6,3 +6,10 @@ mod tokens;
 mod utils;
 
 pub use parser::{parse_zone_files, ManagedZone, ParsingParams, SubParsingParams, Zone};
+
+// Gives the verification harness access to private items.
+#[allow(unexpected_cfgs)]
+#[cfg(ariadne_verif)]
+pub mod verif {
+    pub use super::tokens::*;
+}
-- 
2.43.0


From fd1b72cc2c2eb9079b275d558d45f0e401b81aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 28/34] fix: refuse sub zones which contain the authoritative
 zone

---
 src/nameserver/zones/parser_auth.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index b6dfd45..4fbdbae 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -39,6 +39,11 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
     };
 
     let subzones_nodes: Vec<dns::Name> = conf.sub_zones.iter().map(|s| s.zone.clone()).collect();
+    // The zone itself cannot be contained in one of its sub zones.
+    if let Err(err) = ensure_name_in_auth_zone(&conf.zone, &conf.zone, &subzones_nodes) {
+        return Err((err, "checking sub zones".to_string()));
+    }
+
     let mut parsing_state = AuthParsingState {
         zone: &conf.zone,
         sub_zones: subzones_nodes.as_slice(),
-- 
2.43.0


From 7067a015e767d4f5c58e2eb7b3d6c42174a72f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 29/34] fix: use the TTL of the SOA record for next records
 without TTL

---
 src/nameserver/zones/parser_auth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 4fbdbae..5d00e74 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -532,6 +532,7 @@ fn parse_starting_soa_record(tokenizer: &mut Tokenizer, state: &mut AuthParsingS
     match soa_record {
         dns::Record::SOA { ttl, minimum, .. } => {
             ensure_min_ttl(minimum, ttl)?;
+            state.current_ttl = ttl;
             state.min_ttl = minimum;
         }
         _ => unreachable!(),
-- 
2.43.0


From baafc79fd22785e2280e6dfea94c747856a6f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 30/34] fix: never serve cached records with a TTL above the
 saved one

The clock is read before the cache is locked. If another thread saves the entry
while this one waits for the lock, the remaining time could be higher than the
TTL of the records (and overflow for the max TTL).
---
 src/resolver/back_end/recursive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 6a45ec1..56fb94b 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -5,7 +5,7 @@ use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
 use std::sync::Arc;
-use std::{mem, time};
+use std::{cmp, mem, time};
 
 /// The resolver parameters passed to the [`Resolver`] constructor.
 /// A good default configuration is provided via the [`Default`] trait.
@@ -357,16 +357,17 @@ fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::Re
 
     assert!(records.len() > 0);
     let rec_type = records[0].record_type();
-    let rec_ttl = records[0].ttl();
+    let rec_ttl = *records[0].ttl();
     for rec in &records {
         assert_eq!(rec.record_type(), rec_type);
-        assert_eq!(rec.ttl(), rec_ttl);
+        assert_eq!(*rec.ttl(), rec_ttl);
         assert!(exp > before_get);
     }
 
-    // Correct records TTLs.
+    // Correct records TTLs. The entry could be saved after the clock was read (while
+    // waiting for the cache), make sure TTLs are not increased.
     for record in &mut records {
-        let ttl = (exp - before_get).as_secs();
+        let ttl = cmp::min((exp - before_get).as_secs(), rec_ttl.into());
         let remaining_ttl = u32::try_from(ttl).unwrap();
         record.set_ttl(remaining_ttl);
     }
-- 
2.43.0


From 383650f945ac379bb8e149cc57e6087a0c6ed829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 31/34] fix: a CNAME record which points to itself is a loop

It was noticed only when found again in the cache. With a TTL of zero the upstream
was queried again for the same name, whose records could be returned after it.
---
 src/resolver/back_end/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/utils.rs b/src/resolver/back_end/utils.rs
index 1ad1d49..13d513f 100644
--- a/src/resolver/back_end/utils.rs
+++ b/src/resolver/back_end/utils.rs
@@ -95,8 +95,13 @@ pub fn sort_nameservers(nameservers: &mut Vec<NextSubzoneNs>) {
 }
 
 /// Detect if the passed cname record points to one of the cnames already
-/// encountered. If yes, a loop is detected and a proper error is returned.
+/// encountered (or to itself). If yes, a loop is detected and a proper error is
+/// returned.
 pub fn detect_cname_loops(cname_record: &Record, previous_cnames: &Vec<Record>) -> Result<(), LookupErrCtx> {
+    if cname_record.node() == cname_record.cname_data() {
+        let err_msg = format!("record: {:?} points to itself", cname_record);
+        return Err((err_msg, LookupErr::CnamesLoop));
+    }
     for prev_cname in previous_cnames {
         if prev_cname.node() == cname_record.cname_data() {
             let err_msg = format!("record: {:?}, previous cnames: '{:?}'", prev_cname, previous_cnames);
-- 
2.43.0


From 58395b1fdc2a1e580051d06c7e484a7b3b3abe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 32/34] fix: do not save again the aliases found in the cache

Every lookup which found an alias in the cache stored it again with its
remaining time to live rounded down to whole seconds, and a popular alias
lost one second of its life with each lookup.
---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 56fb94b..1ad81ec 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -147,7 +147,8 @@ impl<'a> Lookup<'a> {
                 }
                 // Cname found. Stash the cname, save data in cache and restart.
                 NsResponse::Alias { cname_rec, next_nss, .. } => {
-                    self.handle_cname(cname_rec, next_nss)?;
+                    self.handle_cname(cname_rec.clone(), next_nss)?;
+                    save_records_in_cache(&self.cache, vec![cname_rec]);
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
@@ -171,11 +172,10 @@ impl<'a> Lookup<'a> {
     fn handle_cname(&mut self, cname_record: dns::Record, next_nss: Vec<NextSubzoneNs>) -> Result<(), LookupErrCtx> {
         let cname = cname_record.cname_data().clone();
         detect_cname_loops(&cname_record, &self.previous_cnames)?;
-        self.previous_cnames.push(cname_record.clone());
+        self.previous_cnames.push(cname_record);
         if self.conf.no_follow_cname {
             return Err((cname.to_string(), LookupErr::UnexpectedCname));
         }
-        save_records_in_cache(&self.cache, vec![cname_record]);
         self.next_nss = next_nss;
         self.searched_node = cname;
         Ok(())
-- 
2.43.0


From 67072f15465e68890f2dc1554cf408394c71e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 33/34] fix: do not end a worker when a connection cannot be
 duplicated

---
 src/shared/net/tcp_server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index c733ca7..3a404aa 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -113,7 +113,13 @@ where
                 return;
             };
 
-            let request = TcpRequest(tcp_stream.try_clone().unwrap());
+            let request = match tcp_stream.try_clone() {
+                Ok(stream) => TcpRequest(stream),
+                Err(err) => {
+                    log::error!("Cloning the conn: {}", err);
+                    return;
+                }
+            };
             let response = TcpResponse(tcp_stream);
             handler.handle_request(request, response);
         })
-- 
2.43.0


From 89fc8ecc798a737e1103c8341baa896888b48a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 34/34] fix: replies do not count more records in a section
 than 16 bits can hold

---
 src/nameserver/handler.rs | 9 +++++++--
 src/resolver/handler.rs   | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index f5a27fd..e720b3e 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -91,7 +91,9 @@ fn handle_auth_zone<W: DnsWrite>(resp: W, request: dns::Message, auth_zone: &Zon
         };
     }
 
-    // Reply to client, this is an authoritative response.
+    // Reply to client, this is an authoritative response. A
+    // section cannot hold more records than its 16 bits count.
+    searched_records.truncate(u16::MAX as usize);
     let mut resp_header = resp_header_from_req_header(&request.header, dns::RespCode::NoError);
     resp_header.auth_answer = true;
     resp_header.questions_count = 1;
@@ -123,7 +125,10 @@ fn handle_subzone<W: DnsWrite>(resp: W, request: dns::Message, sub_zone: &Zone,
         additionals.extend(glue_records);
     }
 
-    // Reply to client, this is NOT an authoritative response.
+    // Reply to client, this is NOT an authoritative response. A
+    // section cannot hold more records than its 16 bits count.
+    authorities.truncate(u16::MAX as usize);
+    additionals.truncate(u16::MAX as usize);
     let mut resp_header = resp_header_from_req_header(&request.header, dns::RespCode::NoError);
     resp_header.auth_answer = false;
     resp_header.questions_count = 1;
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index a41e858..0901a94 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -52,7 +52,7 @@ fn handle_query<W: DnsWrite>(req: dns::Message, resp: W, resolver: &Resolver) {
     }
 
     // If we have no records use 'nx_domain' else 'serv_fail' always.
-    let LookupResponse(answers, authorities, additionals, _) = match lookup_result {
+    let LookupResponse(mut answers, authorities, additionals, _) = match lookup_result {
         Err(err) => {
             log::error!("[{}] Performing lookup: {:?}", req.id(), err);
             handle_err(resp, &req, dns::RespCode::ServFail);
@@ -67,6 +67,8 @@ fn handle_query<W: DnsWrite>(req: dns::Message, resp: W, resolver: &Resolver) {
 
     // An invariant that we must maintain is that dns messages formed
     // internally must be valid, so it's fine to unwrap after encoding.
+    // A section cannot hold more records than its 16 bits count.
+    answers.truncate(u16::MAX as usize);
     let mut resp_header = resp_header_from_req_header(&req.header, dns::RespCode::NoError);
     resp_header.questions_count = 1;
     resp_header.answers_count = answers.len() as u16;
-- 
2.43.0

