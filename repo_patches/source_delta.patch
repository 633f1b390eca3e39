From 99a39592c8c8ab60dc2c30a9488614f5524b8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 01/22] fix: report EXT frames as unrecognized instead of
 panicking

Frame::decode hit unimplemented!() on the type code 0x3F, so any peer could
panic the decoder with six bytes.
---
 binate/src/frame/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..73cb193 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -171,7 +171,9 @@ impl Frame {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    FrameType::EXT.value(),
+                ));
             }
         })
     }
-- 
2.43.0


From 02ed88fad2f59c272ac92c79b3001f7ea3e8510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 02/22] fix: do not count an absent resume token in the length
 of SETUP

The two bytes of the token length are encoded only with a token, but were
always counted, so len() exceeded the encoding by two.
---
 binate/src/frame/codec/setup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..ab64fa0 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -167,12 +167,12 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
 
+        // len(token_length): 2
         // len(resume_token)
         if let Some(resume_token) = &self.resume_token {
-            len += resume_token.len();
+            len += 2 + resume_token.len();
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From 7b0844c109394a4b2f0e97f4f3a704d9d999a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 03/22] fix: encode the token length of SETUP whenever the
 resume flag is set

With the resume flag but no token, the token length was left out although the
decoder reads it, so the following fields were decoded from wrong positions.
---
 binate/src/frame/codec/setup.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index ab64fa0..f084379 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -148,6 +148,8 @@ impl Encode for SetupFrame {
         if let Some(token) = &self.resume_token {
             buf.put_u16(token.len() as u16);
             buf.put_slice(token);
+        } else if self.is_resume() {
+            buf.put_u16(0);
         }
         buf.put_u8(self.metadata_mimetype.len() as u8);
         buf.put_slice(&self.metadata_mimetype);
@@ -173,6 +175,8 @@ impl Encode for SetupFrame {
         // len(resume_token)
         if let Some(resume_token) = &self.resume_token {
             len += 2 + resume_token.len();
+        } else if self.is_resume() {
+            len += 2;
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From 929ec6274f99a81f768da8286b8285d8ca49be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 04/22] fix: refuse mime types of 256 bytes, whose length does
 not fit its byte

A length of 256 was encoded as 0, so the mime type was decoded as the fields
that follow it.
---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index f084379..1473006 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -312,7 +312,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -321,7 +321,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -333,7 +333,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -342,7 +342,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From 5422845fbec2dfabc37c40ee0cb2392539d5b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 05/22] fix: encode and expect a metadata length only with the
 METADATA flag

The RSocket protocol puts the 24-bit metadata length in a frame only if the
METADATA flag is set. It was always written and always read, so frames without
metadata from other implementations were misread, and metadata that is present
but empty was lost while its flag remained.
---
 binate/src/frame/codec/payload.rs          | 19 +++++++++++--------
 binate/src/frame/codec/request_channel.rs  | 19 +++++++++++--------
 binate/src/frame/codec/request_fnf.rs      | 19 +++++++++++--------
 binate/src/frame/codec/request_response.rs | 19 +++++++++++--------
 binate/src/frame/codec/request_stream.rs   | 19 +++++++++++--------
 binate/src/frame/codec/setup.rs            | 16 +++++++++-------
 binate/src/frame/visit.rs                  |  7 +++----
 7 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/binate/src/frame/codec/payload.rs b/binate/src/frame/codec/payload.rs
index 71033d5..769bacc 100644
--- a/binate/src/frame/codec/payload.rs
+++ b/binate/src/frame/codec/payload.rs
@@ -91,20 +91,23 @@ impl Encode for PayloadFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -116,7 +119,7 @@ impl Decode for PayloadFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(PayloadFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_channel.rs b/binate/src/frame/codec/request_channel.rs
index a3942b2..3949da7 100644
--- a/binate/src/frame/codec/request_channel.rs
+++ b/binate/src/frame/codec/request_channel.rs
@@ -103,21 +103,24 @@ impl Encode for RequestChannelFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_CHANNEL.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let mut len = 10 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -130,7 +133,7 @@ impl Decode for RequestChannelFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestChannelFrame {
             stream_id,
             flags,
diff --git a/binate/src/frame/codec/request_fnf.rs b/binate/src/frame/codec/request_fnf.rs
index fedc700..14d526d 100644
--- a/binate/src/frame/codec/request_fnf.rs
+++ b/binate/src/frame/codec/request_fnf.rs
@@ -75,20 +75,23 @@ impl Encode for RequestFnfFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_FNF.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -100,7 +103,7 @@ impl Decode for RequestFnfFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestFnfFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_response.rs b/binate/src/frame/codec/request_response.rs
index aaeabb1..3420cc3 100644
--- a/binate/src/frame/codec/request_response.rs
+++ b/binate/src/frame/codec/request_response.rs
@@ -75,20 +75,23 @@ impl Encode for RequestResponseFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_RESPONSE.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -100,7 +103,7 @@ impl Decode for RequestResponseFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestResponseFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_stream.rs b/binate/src/frame/codec/request_stream.rs
index ab09fb4..b70762b 100644
--- a/binate/src/frame/codec/request_stream.rs
+++ b/binate/src/frame/codec/request_stream.rs
@@ -92,21 +92,24 @@ impl Encode for RequestStreamFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_STREAM.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let mut len = 10 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -119,7 +122,7 @@ impl Decode for RequestStreamFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestStreamFrame { stream_id, flags, initial_request_n, payload })
     }
 }
diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 1473006..4ba2eca 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -155,11 +155,9 @@ impl Encode for SetupFrame {
         buf.put_slice(&self.metadata_mimetype);
         buf.put_u8(self.data_mimetype.len() as u8);
         buf.put_slice(&self.data_mimetype);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
@@ -186,8 +184,12 @@ impl Encode for SetupFrame {
         len += 1 + self.metadata_mimetype.len() + 1 + self.data_mimetype.len();
 
         // len(metadata_length): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        len += 3 + self.payload.len();
+        len += self.payload.len();
 
         len
     }
@@ -210,7 +212,7 @@ impl Decode for SetupFrame {
             eat_bytes(buf, metadata_mimetype_len as usize)?;
         let data_mimetype_len = eat_u8(buf)?;
         let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(SetupFrame {
             flags,
             version,
diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 0556ba6..4ef49e5 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -84,11 +84,10 @@ pub(super) fn eat_bytes<B: Buf>(buf: &mut B, len: usize) -> Result<Bytes> {
 
 pub(super) fn eat_payload<B: Buf>(
     buf: &mut B,
-    can_have_data: bool,
+    flags: Flags,
 ) -> Result<Payload> {
-    let metadata_len =
-        if can_have_data { eat_u24(buf)?.into_usize() } else { 0 };
-    let metadata = if metadata_len > 0 {
+    let metadata = if flags.contains(Flags::METADATA) {
+        let metadata_len = eat_u24(buf)?.into_usize();
         Some(eat_bytes(buf, metadata_len)?)
     } else {
         None
-- 
2.43.0


From e74e537dafa20fd3776d39accd378aedc81b8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 06/22] fix: require one byte, not two, to read a byte

A SETUP frame that ends in an empty data mime type was reported as incomplete.
---
 binate/src/frame/visit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 4ef49e5..8d8af04 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -41,7 +41,7 @@ pub(super) fn eat_version<B: Buf>(buf: &mut B) -> Result<Version> {
 }
 
 pub(super) fn eat_u8<B: Buf>(buf: &mut B) -> Result<u8> {
-    incomplete_if_less_than!(buf, 2);
+    incomplete_if_less_than!(buf, 1);
 
     Ok(buf.get_u8())
 }
-- 
2.43.0


From ef082611bb7c1efa87cda80bb900dca117446fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 07/22] fix: accept all 32 bits of an error code

Application error codes go up to MAX_APPLICATION_ERROR_CODE (0xFFFFFFFE), but
ErrorFrame::new panicked on codes above 31 bits in debug builds and turned them
into other codes (e.g. 0x80000001 into INVALID_SETUP) in release builds.
---
 binate/src/frame/codec/error.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..c0d8f5b 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,16 +108,11 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
-        ErrorFrame {
-            stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
-            data,
-        }
+        ErrorFrame { stream_id: stream_id & MAX_U31, code: error_code, data }
     }
 
     /// Returns the stream ID of this frame.
-- 
2.43.0


From b88dfa3c7477e0ad76be1e4cd179b0e7b06757ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 08/22] fix: keep the reserved bits of LEASE fields zero

Like all other frames, reduce out-of-range values to 31 bits, so that a frame
does not decode to other values than it reports.
---
 binate/src/frame/codec/lease.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 13c7dd7..264ef49 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -46,6 +46,8 @@ impl LeaseFrame {
         metadata: Option<Bytes>,
     ) -> Self {
         debug_assert_max_u31!(ttl, number_of_requests);
+        let ttl = ttl & MAX_U31;
+        let number_of_requests = number_of_requests & MAX_U31;
         LeaseFrame { ttl, number_of_requests, metadata }
     }
 
-- 
2.43.0


From 898c7d15f6a4c6fb0eea918145c5dd2f59be3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 09/22] fix: refuse RESUME tokens whose length does not fit its
 field

The token length was silently truncated to 16 bits, so the frame decoded to
other values. SetupFrameBuilder::set_resume_token already refuses such tokens.
---
 binate/src/frame/codec/resume.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binate/src/frame/codec/resume.rs b/binate/src/frame/codec/resume.rs
index 2db1d2d..d7356db 100644
--- a/binate/src/frame/codec/resume.rs
+++ b/binate/src/frame/codec/resume.rs
@@ -45,12 +45,17 @@ impl ResumeFrame {
     /// - The length of `resume_token` MUST be <= `65,535` bytes long.
     /// - Both `last_received_server_position` and `first_available_client_position` MUST be <=
     /// [`MAX_U63`].
+    ///
+    /// # Panics
+    ///
+    /// This function panics if the length of the given token is greater than 65,535 bytes.
     pub fn new(
         version: Version,
         resume_token: Bytes,
         mut last_received_server_position: u64,
         mut first_available_client_position: u64,
     ) -> Self {
+        assert!(resume_token.len() <= 65_535);
         debug_assert_max_u63!(
             last_received_server_position,
             first_available_client_position
-- 
2.43.0


From e95cbc0b7f4d1319b2b156b091c6bdc2ef0b2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 10/22] fix: report the exact number of payload chunks

The count was computed in f32, which is off for parts of more than 2^24 bytes,
ignored parts that are present but empty although they yield a chunk, and was
not reflected by size_hint as ExactSizeIterator requires. A fragmented request
therefore marked the wrong fragment as the last one.
---
 binate/src/payload.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..d6b4e28 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,14 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        // A part that is present takes at least one chunk, even if it is empty.
+        let chunks = |part: &Option<Bytes>| match part {
+            Some(bytes) if bytes.is_empty() => 1,
+            Some(bytes) => (bytes.len() - 1) / self.chunk_size + 1,
+            None => 0,
+        };
+
+        cmp::max(chunks(&self.metadata), chunks(&self.data))
     }
 }
 
@@ -237,6 +237,11 @@ impl Iterator for PayloadChunks {
         }
         Some(Payload::new(meta, data))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = ExactSizeIterator::len(self);
+        (len, Some(len))
+    }
 }
 
 impl iter::FusedIterator for PayloadChunks {}
-- 
2.43.0


From 9284ce6dd5b37d3c30a5344ebdc989c164484742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 11/22] fix: send fire-and-forget requests with an empty
 payload when fragmenting

A payload without metadata and data has no chunks, so the request was reported
as sent although no frame was.
---
 binate/src/connection/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..12d09e1 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -148,7 +148,9 @@ impl RSocket for RSocketMachine {
     fn fire_and_forget(&self, payload: Payload) -> Result<()> {
         let stream_id = self.stream_id.next_stream_id(&self.receivers);
 
-        if let Some(chunk_size) = self.chunk_payload {
+        // An empty payload has no chunks, it takes a single frame.
+        let chunk_size = self.chunk_payload.filter(|_| !payload.is_empty());
+        if let Some(chunk_size) = chunk_size {
             let chunks = payload.chunks(chunk_size);
             let chunks_len = chunks.len();
             for (idx, chunked) in chunks.enumerate() {
-- 
2.43.0


From 9193436fdeedb2ac78748397fad119633e16bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 12/22] fix: never hand out the reserved stream ID 0

The server-side provider returned 0 when wrapping around after 0x7FFFFFFE.
---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..4a92131 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 is reserved for the connection.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 72d73914cc7cd323c34edc25b493b5b125adb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 13/22] fix: do not wrap around when adding request permits

Adding permits beyond 2^31-1 in total made the count negative, so granting more
credit stalled the requester.
---
 binate/src/connection/counter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index d85523a..bfcd6ea 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -23,8 +23,15 @@ impl RequestCounter {
     }
 
     /// Adds permits to this counter.
+    ///
+    /// The count saturates at the maximum value 31-bit unsigned integer can hold.
     pub fn add(&self, n: u32) {
-        self.0.fetch_add(n as i32, Ordering::SeqCst);
+        let n = n.min(COUNTER_MASK) as i32;
+        let _ = self.0.fetch_update(
+            Ordering::SeqCst,
+            Ordering::SeqCst,
+            |count| Some(count.saturating_add(n)),
+        );
     }
 
     /// Returns the count this counter stores.
-- 
2.43.0


From f14106db61fc88bff36eabea045df55838975070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 14/22] fix: describe REJECTED errors as such

They were displayed as CONNECTION_ERROR (0x00000202).
---
 binate/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/error.rs b/binate/src/error.rs
index 2662325..5b7c1ef 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -211,7 +211,7 @@ impl Error {
             ConnectionError => "CONNECTION_ERROR (0x00000101)",
             ConnectionClose => "CONNECTION_CLOSE (0x00000102)",
             ApplicationError => "APPLICATION_ERROR (0x00000201)",
-            Rejected => "CONNECTION_ERROR (0x00000202)",
+            Rejected => "REJECTED (0x00000202)",
             Canceled => "CANCELED (0x00000203)",
             Invalid => "INVALID (0x00000204)",
             Decode(_) => "error decoding frame",
-- 
2.43.0


From aa4bce28b3ea3142640a4afce00b189b2eda34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 15/22] fix: subscribe to the connection status once

connection_status() returns a stream that immediately publishes the current
status. A new one was requested for every status, so the task handled the
current status over and over without ever waiting, and missed updates.
---
 binate/src/connection/socket.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 12d09e1..0e17418 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -70,9 +70,8 @@ impl RSocketMachine {
         // Listens to the connection status.
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
-            while let Some(status) =
-                cloned_rsm.connection.connection_status().next().await
-            {
+            let mut statuses = cloned_rsm.connection.connection_status();
+            while let Some(status) = statuses.next().await {
                 match status {
                     ConnectionStatus::Closed => {
                         cloned_rsm.handle_transport_close();
-- 
2.43.0


From a72b4ec2b248c79814825e0c8173c0c8897ce462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 16/22] fix: use the registered names of the RSocket mime types

RSocket's well-known mime types are named mime-type, accept-mime-types,
tracing-zipkin and composite-metadata; other names are not recognized by peers,
and theirs were unparseable here.
---
 binate/src/mimetype.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..befbe54 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -106,12 +106,12 @@ impl From<&str> for WellKnownMimeType {
             "application/x-hessian" => APPLICATION_X_HESSIAN,
             "application/x-java-object" => APPLICATION_X_JAVA_OBJECT,
             "application/cloudevents+json" => APPLICATION_CLOUDEVENTS_JSON,
-            "message/x.rsocket.mime.type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
-            "message/x.rsocket.accept.time.types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
+            "message/x.rsocket.mime-type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
+            "message/x.rsocket.accept-mime-types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
             "message/x.rsocket.authentication.v0" => MESSAGE_X_RSOCKET_AUTHENTICATION_V0,
-            "message/x.rsocket.tracing.zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
+            "message/x.rsocket.tracing-zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
             "message/x.rsocket.routing.v0" => MESSAGE_X_RSOCKET_ROUTING_V0,
-            "message/x.rsocket.composite.metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
+            "message/x.rsocket.composite-metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
             _ => UNPARSEABLE,
         }
     }
-- 
2.43.0


From 883aa888ae784d367f6bc6c6170ad2625794bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 17/22] fix: convert well-known mime types to their names

The conversion called itself for every type but UNPARSEABLE and overflowed the
stack.
---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index befbe54..8cf97a1 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime-type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept-mime-types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing-zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite-metadata.v0",
         }
     }
 }
-- 
2.43.0


From d614a5e1c70468abb078bb59cc1c765d3f5c3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 18/22] verif: expose crate-private items under --cfg
 binate_verif

Hooks for the verification machinery in /verif. Nothing changes unless the crate
is compiled with --cfg binate_verif.
---
 binate/src/connection/counter.rs   |   4 +
 binate/src/connection/mod.rs       |   4 +
 binate/src/connection/socket.rs    |  20 +++++
 binate/src/connection/stream_id.rs |   7 ++
 binate/src/connection/verif.rs     | 136 +++++++++++++++++++++++++++++
 5 files changed, 171 insertions(+)
 create mode 100644 binate/src/connection/verif.rs

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index bfcd6ea..a62b5fd 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -1,5 +1,9 @@
+#[cfg(not(all(loom, binate_verif)))]
 use std::sync::atomic::{AtomicI32, Ordering};
 
+#[cfg(all(loom, binate_verif))]
+use loom::sync::atomic::{AtomicI32, Ordering};
+
 const COUNTER_MASK: u32 = 0x7FFFFFFF;
 
 /// Atomic counter for counting request permits.
diff --git a/binate/src/connection/mod.rs b/binate/src/connection/mod.rs
index d8f323f..b8537d2 100644
--- a/binate/src/connection/mod.rs
+++ b/binate/src/connection/mod.rs
@@ -6,6 +6,10 @@ mod counter;
 mod socket;
 mod stream_id;
 
+#[cfg(binate_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 pub use self::conn::{ConnectionStatus, DuplexConnection};
 pub use self::counter::RequestCounter;
 pub use self::stream_id::StreamIdProvider;
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 0e17418..f9000f4 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -121,6 +121,26 @@ impl RSocketMachine {
     }
 }
 
+#[cfg(binate_verif)]
+impl RSocketMachine {
+    pub(crate) fn verif_configure(
+        &mut self,
+        mtu: Option<usize>,
+        next_id: Option<i32>,
+    ) {
+        self.chunk_payload = mtu;
+        if let Some(id) = next_id {
+            self.stream_id = Arc::new(StreamIdProvider::verif_starting_at(id));
+        }
+    }
+
+    pub(crate) fn verif_receivers(
+        &self,
+    ) -> &DashMap<u32, Box<dyn Subject<Item = Frame>>> {
+        &self.receivers
+    }
+}
+
 impl RequestHanlder {
     pub(crate) async fn set_request_handler(&self, handler: Box<dyn RSocket>) {
         let mut wtr = self.0.write().await;
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index 4a92131..91c8bb6 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -40,6 +40,13 @@ impl StreamIdProvider {
         sid
     }
 
+    #[cfg(binate_verif)]
+    #[doc(hidden)]
+    #[allow(missing_docs)]
+    pub fn verif_starting_at(init: i32) -> StreamIdProvider {
+        StreamIdProvider::_new(init)
+    }
+
     // for testing only
     fn _new(init: i32) -> StreamIdProvider {
         let sid = AtomicI32::new(init);
diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
new file mode 100644
index 0000000..d3d1109
--- /dev/null
+++ b/binate/src/connection/verif.rs
@@ -0,0 +1,136 @@
+//! Access to crate-private items for the verification machinery, compiled only with
+//! `--cfg binate_verif`.
+#![allow(missing_docs, missing_debug_implementations)]
+
+use super::buf::BufList;
+use super::conn::DuplexConnection;
+use super::socket::{RSocketMachine, Role};
+use crate::error::Kind;
+use crate::frame::{DecodeError, Frame};
+use crate::payload::{Metadata, Payload};
+use crate::types::Subject;
+use crate::{Error, Mono, RSocket, Result};
+
+use bytes::{Buf, Bytes};
+use std::convert::TryInto;
+use std::io::IoSlice;
+use std::time::Duration;
+
+/// The fragment buffer list.
+pub struct BufQueue<T>(BufList<T>);
+
+impl<T: Buf> BufQueue<T> {
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Self {
+        BufQueue(BufList::new())
+    }
+
+    pub fn push(&mut self, buf: T) {
+        self.0.push(buf)
+    }
+
+    pub fn segments(&self) -> usize {
+        self.0.len()
+    }
+
+    pub fn reassemble(self) -> std::result::Result<Payload, DecodeError> {
+        self.0.try_into()
+    }
+}
+
+impl<T: Buf> Buf for BufQueue<T> {
+    fn remaining(&self) -> usize {
+        self.0.remaining()
+    }
+
+    fn chunk(&self) -> &[u8] {
+        self.0.chunk()
+    }
+
+    fn advance(&mut self, cnt: usize) {
+        self.0.advance(cnt)
+    }
+
+    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
+        self.0.chunks_vectored(dst)
+    }
+
+    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+        self.0.copy_to_bytes(len)
+    }
+}
+
+struct Occupied;
+
+impl Subject for Occupied {
+    type Item = Frame;
+
+    fn on_next(&mut self, _item: Frame) -> Result<()> {
+        Ok(())
+    }
+
+    fn on_error(&mut self, _err: Error) {}
+
+    fn on_complete(&mut self) -> Result<()> {
+        Ok(())
+    }
+}
+
+/// A session.
+#[derive(Clone)]
+pub struct Session(RSocketMachine);
+
+impl Session {
+    pub async fn new(
+        server: bool,
+        connection: impl DuplexConnection + 'static,
+        keepalive_timeout: Duration,
+    ) -> Session {
+        let role = if server { Role::Server } else { Role::Client };
+        Session(RSocketMachine::new(role, connection, keepalive_timeout).await)
+    }
+
+    /// Sets the fragment size and the next candidate stream ID.
+    pub fn configure(&mut self, mtu: Option<usize>, next_id: Option<i32>) {
+        self.0.verif_configure(mtu, next_id)
+    }
+
+    pub fn occupy(&self, stream_id: u32) {
+        self.0.verif_receivers().insert(stream_id, Box::new(Occupied));
+    }
+
+    pub fn release(&self, stream_id: u32) {
+        self.0.verif_receivers().remove(&stream_id);
+    }
+
+    pub fn fire_and_forget(&self, payload: Payload) -> Result<()> {
+        RSocket::fire_and_forget(&self.0, payload)
+    }
+
+    pub fn metadata_push(&self, metadata: Metadata) -> Mono<Result<()>> {
+        RSocket::metadata_push(&self.0, metadata)
+    }
+
+    pub fn close(&mut self) {
+        self.0.close()
+    }
+}
+
+/// An error of the given kind.
+pub fn error(kind: &str, source: Option<String>) -> Error {
+    let kind = match kind {
+        "InvalidSetup" => Kind::InvalidSetup,
+        "UnsupportedSetup" => Kind::UnsupportedSetup,
+        "RejectedSetup" => Kind::RejectedSetup,
+        "RejectedResume" => Kind::RejectedResume,
+        "ConnectionError" => Kind::ConnectionError,
+        "ConnectionClose" => Kind::ConnectionClose,
+        "ApplicationError" => Kind::ApplicationError,
+        "Rejected" => Kind::Rejected,
+        "Canceled" => Kind::Canceled,
+        "Invalid" => Kind::Invalid,
+        "Io" => Kind::Io,
+        _ => Kind::Decode(DecodeError::InComplete),
+    };
+    Error::new(kind, source)
+}
-- 
2.43.0


From 046b0ca82c9b22aeb1417f829e0ac7eea190cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 19/22] fix: add permits exactly when the count is negative

---
 binate/src/connection/counter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index a62b5fd..24f1f9f 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -30,11 +30,13 @@ impl RequestCounter {
     ///
     /// The count saturates at the maximum value 31-bit unsigned integer can hold.
     pub fn add(&self, n: u32) {
-        let n = n.min(COUNTER_MASK) as i32;
         let _ = self.0.fetch_update(
             Ordering::SeqCst,
             Ordering::SeqCst,
-            |count| Some(count.saturating_add(n)),
+            |count| {
+                let sum = i64::from(count) + i64::from(n);
+                Some(sum.min(i64::from(COUNTER_MASK)) as i32)
+            },
         );
     }
 
-- 
2.43.0


From 76d884f114310270240ca91e4995906f8b0dbb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 20/22] fix: put the header flags at the bits the protocol
 assigns

The frame type takes the upper six bits of the header word, and the flags
start right below it, as the diagrams in the docs of the frames show: the
ignore flag is 0x200, the metadata flag 0x100, and so on.
---
 binate/src/frame/flags.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/frame/flags.rs b/binate/src/frame/flags.rs
index eae215a..b3a7e98 100644
--- a/binate/src/frame/flags.rs
+++ b/binate/src/frame/flags.rs
@@ -155,21 +155,21 @@ bitflags! {
     /// Frame header flags.
     pub struct Flags: u16 {
         /// The frame can be ignored.
-        const IGNORE           = 0b01_0000_0000;
+        const IGNORE           = 0b10_0000_0000;
         /// Metadata present.
-        const METADATA         = 0b00_1000_0000;
+        const METADATA         = 0b01_0000_0000;
         /// More fragments follow this fragment.
-        const FOLLOWS          = 0b00_0100_0000;
+        const FOLLOWS          = 0b00_1000_0000;
         /// Client requests resume capability if possible.
-        const RESUME           = 0b00_0100_0000;
+        const RESUME           = 0b00_1000_0000;
         /// Respond with KEEPALIVE.
-        const RESPOND          = 0b00_0100_0000;
+        const RESPOND          = 0b00_1000_0000;
         /// Bit to indicate stream completion.
-        const COMPLETE         = 0b00_0010_0000;
+        const COMPLETE         = 0b00_0100_0000;
         /// Will honor LEASE.
-        const LEASE            = 0b00_0010_0000;
+        const LEASE            = 0b00_0100_0000;
         /// Bit to indicate Next (Payload Data and/or Metadata present).
-        const NEXT             = 0b00_0001_0000;
+        const NEXT             = 0b00_0010_0000;
     }
 }
 
-- 
2.43.0


From 1eeb86ec7b7e7df9650a377767381b818440ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 21/22] Verification hooks: a level without session fields

---
 binate/src/connection/socket.rs | 2 +-
 binate/src/connection/verif.rs  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index f9000f4..bfe21bd 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -121,7 +121,7 @@ impl RSocketMachine {
     }
 }
 
-#[cfg(binate_verif)]
+#[cfg(all(binate_verif, not(binate_verif_bare)))]
 impl RSocketMachine {
     pub(crate) fn verif_configure(
         &mut self,
diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
index d3d1109..761e441 100644
--- a/binate/src/connection/verif.rs
+++ b/binate/src/connection/verif.rs
@@ -1,5 +1,5 @@
 //! Access to crate-private items for the verification machinery, compiled only with
-//! `--cfg binate_verif`.
+//! `--cfg binate_verif`; `--cfg binate_verif_bare` leaves out what needs the fields of a session.
 #![allow(missing_docs, missing_debug_implementations)]
 
 use super::buf::BufList;
@@ -90,15 +90,18 @@ impl Session {
         Session(RSocketMachine::new(role, connection, keepalive_timeout).await)
     }
 
+    #[cfg(not(binate_verif_bare))]
     /// Sets the fragment size and the next candidate stream ID.
     pub fn configure(&mut self, mtu: Option<usize>, next_id: Option<i32>) {
         self.0.verif_configure(mtu, next_id)
     }
 
+    #[cfg(not(binate_verif_bare))]
     pub fn occupy(&self, stream_id: u32) {
         self.0.verif_receivers().insert(stream_id, Box::new(Occupied));
     }
 
+    #[cfg(not(binate_verif_bare))]
     pub fn release(&self, stream_id: u32) {
         self.0.verif_receivers().remove(&stream_id);
     }
-- 
2.43.0


From f1caed59dfc405e29f44f50d87869d095142c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 22/22] verif: hooks that can be left out one by one

---
 binate/src/connection/stream_id.rs |   2 +-
 binate/src/connection/verif.rs     | 252 ++++++++++++++++-------------
 2 files changed, 144 insertions(+), 110 deletions(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index 91c8bb6..49312db 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -40,7 +40,7 @@ impl StreamIdProvider {
         sid
     }
 
-    #[cfg(binate_verif)]
+    #[cfg(all(binate_verif, not(binate_verif_no_ids)))]
     #[doc(hidden)]
     #[allow(missing_docs)]
     pub fn verif_starting_at(init: i32) -> StreamIdProvider {
diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
index 761e441..e59767a 100644
--- a/binate/src/connection/verif.rs
+++ b/binate/src/connection/verif.rs
@@ -1,139 +1,173 @@
 //! Access to crate-private items for the verification machinery, compiled only with
-//! `--cfg binate_verif`; `--cfg binate_verif_bare` leaves out what needs the fields of a session.
+//! `--cfg binate_verif`.  Parts of it can be left out: what needs the fields of a session
+//! (`binate_verif_bare`), sessions (`binate_verif_no_session`), the buffer list
+//! (`binate_verif_no_buf`), errors by kind (`binate_verif_no_error`) and stream IDs from a start
+//! (`binate_verif_no_ids`).
 #![allow(missing_docs, missing_debug_implementations)]
 
-use super::buf::BufList;
-use super::conn::DuplexConnection;
-use super::socket::{RSocketMachine, Role};
-use crate::error::Kind;
-use crate::frame::{DecodeError, Frame};
-use crate::payload::{Metadata, Payload};
-use crate::types::Subject;
-use crate::{Error, Mono, RSocket, Result};
-
-use bytes::{Buf, Bytes};
-use std::convert::TryInto;
-use std::io::IoSlice;
-use std::time::Duration;
-
-/// The fragment buffer list.
-pub struct BufQueue<T>(BufList<T>);
-
-impl<T: Buf> BufQueue<T> {
-    #[allow(clippy::new_without_default)]
-    pub fn new() -> Self {
-        BufQueue(BufList::new())
-    }
+#[cfg(not(binate_verif_no_buf))]
+pub use self::queue::BufQueue;
 
-    pub fn push(&mut self, buf: T) {
-        self.0.push(buf)
-    }
+#[cfg(not(binate_verif_no_session))]
+pub use self::session::Session;
 
-    pub fn segments(&self) -> usize {
-        self.0.len()
-    }
+#[cfg(not(binate_verif_no_error))]
+pub use self::errors::error;
 
-    pub fn reassemble(self) -> std::result::Result<Payload, DecodeError> {
-        self.0.try_into()
-    }
-}
+#[cfg(not(binate_verif_no_buf))]
+mod queue {
+    use super::super::buf::BufList;
+    use crate::frame::DecodeError;
+    use crate::payload::Payload;
 
-impl<T: Buf> Buf for BufQueue<T> {
-    fn remaining(&self) -> usize {
-        self.0.remaining()
-    }
+    use bytes::{Buf, Bytes};
+    use std::convert::TryInto;
+    use std::io::IoSlice;
 
-    fn chunk(&self) -> &[u8] {
-        self.0.chunk()
-    }
+    /// The fragment buffer list.
+    pub struct BufQueue<T>(BufList<T>);
 
-    fn advance(&mut self, cnt: usize) {
-        self.0.advance(cnt)
-    }
+    impl<T: Buf> BufQueue<T> {
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> Self {
+            BufQueue(BufList::new())
+        }
 
-    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
-        self.0.chunks_vectored(dst)
-    }
+        pub fn push(&mut self, buf: T) {
+            self.0.push(buf)
+        }
 
-    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
-        self.0.copy_to_bytes(len)
+        pub fn segments(&self) -> usize {
+            self.0.len()
+        }
+
+        pub fn reassemble(self) -> std::result::Result<Payload, DecodeError> {
+            self.0.try_into()
+        }
     }
-}
 
-struct Occupied;
+    impl<T: Buf> Buf for BufQueue<T> {
+        fn remaining(&self) -> usize {
+            self.0.remaining()
+        }
 
-impl Subject for Occupied {
-    type Item = Frame;
+        fn chunk(&self) -> &[u8] {
+            self.0.chunk()
+        }
 
-    fn on_next(&mut self, _item: Frame) -> Result<()> {
-        Ok(())
-    }
+        fn advance(&mut self, cnt: usize) {
+            self.0.advance(cnt)
+        }
 
-    fn on_error(&mut self, _err: Error) {}
+        fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
+            self.0.chunks_vectored(dst)
+        }
 
-    fn on_complete(&mut self) -> Result<()> {
-        Ok(())
+        fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+            self.0.copy_to_bytes(len)
+        }
     }
 }
 
-/// A session.
-#[derive(Clone)]
-pub struct Session(RSocketMachine);
-
-impl Session {
-    pub async fn new(
-        server: bool,
-        connection: impl DuplexConnection + 'static,
-        keepalive_timeout: Duration,
-    ) -> Session {
-        let role = if server { Role::Server } else { Role::Client };
-        Session(RSocketMachine::new(role, connection, keepalive_timeout).await)
-    }
-
+#[cfg(not(binate_verif_no_session))]
+mod session {
+    use super::super::conn::DuplexConnection;
+    use super::super::socket::{RSocketMachine, Role};
     #[cfg(not(binate_verif_bare))]
-    /// Sets the fragment size and the next candidate stream ID.
-    pub fn configure(&mut self, mtu: Option<usize>, next_id: Option<i32>) {
-        self.0.verif_configure(mtu, next_id)
-    }
-
+    use crate::frame::Frame;
+    use crate::payload::{Metadata, Payload};
     #[cfg(not(binate_verif_bare))]
-    pub fn occupy(&self, stream_id: u32) {
-        self.0.verif_receivers().insert(stream_id, Box::new(Occupied));
-    }
-
+    use crate::types::Subject;
     #[cfg(not(binate_verif_bare))]
-    pub fn release(&self, stream_id: u32) {
-        self.0.verif_receivers().remove(&stream_id);
-    }
+    use crate::Error;
+    use crate::{Mono, RSocket, Result};
 
-    pub fn fire_and_forget(&self, payload: Payload) -> Result<()> {
-        RSocket::fire_and_forget(&self.0, payload)
-    }
+    use std::time::Duration;
 
-    pub fn metadata_push(&self, metadata: Metadata) -> Mono<Result<()>> {
-        RSocket::metadata_push(&self.0, metadata)
-    }
+    #[cfg(not(binate_verif_bare))]
+    struct Occupied;
 
-    pub fn close(&mut self) {
-        self.0.close()
+    #[cfg(not(binate_verif_bare))]
+    impl Subject for Occupied {
+        type Item = Frame;
+
+        fn on_next(&mut self, _item: Frame) -> Result<()> {
+            Ok(())
+        }
+
+        fn on_error(&mut self, _err: Error) {}
+
+        fn on_complete(&mut self) -> Result<()> {
+            Ok(())
+        }
+    }
+
+    /// A session.
+    #[derive(Clone)]
+    pub struct Session(RSocketMachine);
+
+    impl Session {
+        pub async fn new(
+            server: bool,
+            connection: impl DuplexConnection + 'static,
+            keepalive_timeout: Duration,
+        ) -> Session {
+            let role = if server { Role::Server } else { Role::Client };
+            Session(RSocketMachine::new(role, connection, keepalive_timeout).await)
+        }
+
+        #[cfg(not(binate_verif_bare))]
+        /// Sets the fragment size and the next candidate stream ID.
+        pub fn configure(&mut self, mtu: Option<usize>, next_id: Option<i32>) {
+            self.0.verif_configure(mtu, next_id)
+        }
+
+        #[cfg(not(binate_verif_bare))]
+        pub fn occupy(&self, stream_id: u32) {
+            self.0.verif_receivers().insert(stream_id, Box::new(Occupied));
+        }
+
+        #[cfg(not(binate_verif_bare))]
+        pub fn release(&self, stream_id: u32) {
+            self.0.verif_receivers().remove(&stream_id);
+        }
+
+        pub fn fire_and_forget(&self, payload: Payload) -> Result<()> {
+            RSocket::fire_and_forget(&self.0, payload)
+        }
+
+        pub fn metadata_push(&self, metadata: Metadata) -> Mono<Result<()>> {
+            RSocket::metadata_push(&self.0, metadata)
+        }
+
+        pub fn close(&mut self) {
+            self.0.close()
+        }
     }
 }
 
-/// An error of the given kind.
-pub fn error(kind: &str, source: Option<String>) -> Error {
-    let kind = match kind {
-        "InvalidSetup" => Kind::InvalidSetup,
-        "UnsupportedSetup" => Kind::UnsupportedSetup,
-        "RejectedSetup" => Kind::RejectedSetup,
-        "RejectedResume" => Kind::RejectedResume,
-        "ConnectionError" => Kind::ConnectionError,
-        "ConnectionClose" => Kind::ConnectionClose,
-        "ApplicationError" => Kind::ApplicationError,
-        "Rejected" => Kind::Rejected,
-        "Canceled" => Kind::Canceled,
-        "Invalid" => Kind::Invalid,
-        "Io" => Kind::Io,
-        _ => Kind::Decode(DecodeError::InComplete),
-    };
-    Error::new(kind, source)
+#[cfg(not(binate_verif_no_error))]
+mod errors {
+    use crate::error::Kind;
+    use crate::frame::DecodeError;
+    use crate::Error;
+
+    /// An error of the given kind.
+    pub fn error(kind: &str, source: Option<String>) -> Error {
+        let kind = match kind {
+            "InvalidSetup" => Kind::InvalidSetup,
+            "UnsupportedSetup" => Kind::UnsupportedSetup,
+            "RejectedSetup" => Kind::RejectedSetup,
+            "RejectedResume" => Kind::RejectedResume,
+            "ConnectionError" => Kind::ConnectionError,
+            "ConnectionClose" => Kind::ConnectionClose,
+            "ApplicationError" => Kind::ApplicationError,
+            "Rejected" => Kind::Rejected,
+            "Canceled" => Kind::Canceled,
+            "Invalid" => Kind::Invalid,
+            "Io" => Kind::Io,
+            _ => Kind::Decode(DecodeError::InComplete),
+        };
+        Error::new(kind, source)
+    }
 }
-- 
2.43.0

