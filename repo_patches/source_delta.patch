From 6e7d77343706d7dfe79a2fa9c69a42d5b907b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 01/19] verif: hooks behind --cfg binate_verif for the
 verification harness

---
 binate/src/connection/counter.rs   |  4 ++
 binate/src/connection/mod.rs       |  4 ++
 binate/src/connection/socket.rs    | 36 +++++++++++
 binate/src/connection/stream_id.rs |  9 +++
 binate/src/connection/verif.rs     | 95 ++++++++++++++++++++++++++++++
 binate/src/error.rs                | 21 +++++++
 6 files changed, 169 insertions(+)
 create mode 100644 binate/src/connection/verif.rs

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index d85523a..099f04c 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -1,5 +1,9 @@
+#[cfg(not(all(loom, binate_verif)))]
 use std::sync::atomic::{AtomicI32, Ordering};
 
+#[cfg(all(loom, binate_verif))]
+use loom::sync::atomic::{AtomicI32, Ordering};
+
 const COUNTER_MASK: u32 = 0x7FFFFFFF;
 
 /// Atomic counter for counting request permits.
diff --git a/binate/src/connection/mod.rs b/binate/src/connection/mod.rs
index d8f323f..8ea9e1f 100644
--- a/binate/src/connection/mod.rs
+++ b/binate/src/connection/mod.rs
@@ -9,3 +9,7 @@ mod stream_id;
 pub use self::conn::{ConnectionStatus, DuplexConnection};
 pub use self::counter::RequestCounter;
 pub use self::stream_id::StreamIdProvider;
+
+#[cfg(binate_verif)]
+#[doc(hidden)]
+pub mod verif;
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..0412dd1 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -173,3 +173,39 @@ impl RSocket for RSocketMachine {
         self.connection.send(frame)
     }
 }
+
+#[cfg(binate_verif)]
+impl RSocketMachine {
+    /// Verification hook: sets the fragment size, the position of the stream
+    /// ID sequence and the stream IDs in use.
+    pub(super) fn verif_configure(
+        &mut self,
+        chunk_payload: Option<usize>,
+        first_stream_id: Option<i32>,
+        in_use: &[u32],
+    ) {
+        struct Idle;
+
+        impl Subject for Idle {
+            type Item = Frame;
+
+            fn on_next(&mut self, _: Frame) -> Result<()> {
+                Ok(())
+            }
+
+            fn on_error(&mut self, _: crate::Error) {}
+
+            fn on_complete(&mut self) -> Result<()> {
+                Ok(())
+            }
+        }
+
+        self.chunk_payload = chunk_payload;
+        if let Some(init) = first_stream_id {
+            self.stream_id = Arc::new(StreamIdProvider::verif_at(init));
+        }
+        for &id in in_use {
+            self.receivers.insert(id, Box::new(Idle));
+        }
+    }
+}
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..ef75b08 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -46,6 +46,15 @@ impl StreamIdProvider {
     }
 }
 
+#[cfg(binate_verif)]
+impl StreamIdProvider {
+    /// Verification hook: a provider at the given position of its sequence.
+    #[doc(hidden)]
+    pub fn verif_at(init: i32) -> StreamIdProvider {
+        StreamIdProvider::_new(init)
+    }
+}
+
 #[cfg(all(test, not(loom)))]
 mod tests {
     use super::*;
diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
new file mode 100644
index 0000000..b12905b
--- /dev/null
+++ b/binate/src/connection/verif.rs
@@ -0,0 +1,95 @@
+//! Verification hooks, compiled only with `--cfg binate_verif`.
+//!
+//! They make the crate-private buffer list and requester reachable from an
+//! external test harness, and change nothing else.
+#![allow(missing_docs, missing_debug_implementations)]
+
+use super::buf::BufList;
+use super::socket::{RSocketMachine, Role};
+use super::DuplexConnection;
+use crate::frame::DecodeError;
+use crate::payload::Payload;
+use crate::{Metadata, Mono, RSocket, Result};
+
+use bytes::{Buf, Bytes};
+use std::convert::TryInto;
+use std::io::IoSlice;
+use std::time::Duration;
+
+/// The connection's buffer list.
+pub struct Buffers<T>(BufList<T>);
+
+impl<T: Buf> Buffers<T> {
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Self {
+        Buffers(BufList::new())
+    }
+
+    pub fn push(&mut self, buf: T) {
+        self.0.push(buf)
+    }
+
+    pub fn pieces(&self) -> usize {
+        self.0.len()
+    }
+
+    pub fn reassemble(self) -> std::result::Result<Payload, DecodeError> {
+        self.0.try_into()
+    }
+}
+
+impl<T: Buf> Buf for Buffers<T> {
+    fn remaining(&self) -> usize {
+        self.0.remaining()
+    }
+
+    fn chunk(&self) -> &[u8] {
+        self.0.chunk()
+    }
+
+    fn advance(&mut self, cnt: usize) {
+        self.0.advance(cnt)
+    }
+
+    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
+        self.0.chunks_vectored(dst)
+    }
+
+    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+        self.0.copy_to_bytes(len)
+    }
+}
+
+/// The requester.
+#[derive(Clone)]
+pub struct Requester(RSocketMachine);
+
+impl Requester {
+    /// Must be called within a tokio runtime.
+    pub async fn new(
+        client: bool,
+        connection: impl DuplexConnection + 'static,
+        keepalive_timeout: Duration,
+        chunk_payload: Option<usize>,
+        first_stream_id: Option<i32>,
+        in_use: &[u32],
+    ) -> Requester {
+        let role = if client { Role::Client } else { Role::Server };
+        let mut machine =
+            RSocketMachine::new(role, connection, keepalive_timeout).await;
+        machine.verif_configure(chunk_payload, first_stream_id, in_use);
+        Requester(machine)
+    }
+
+    pub fn fire_and_forget(&self, payload: Payload) -> Result<()> {
+        self.0.fire_and_forget(payload)
+    }
+
+    pub fn metadata_push(&self, metadata: Metadata) -> Mono<Result<()>> {
+        self.0.metadata_push(metadata)
+    }
+
+    pub fn close(&mut self) {
+        self.0.close()
+    }
+}
diff --git a/binate/src/error.rs b/binate/src/error.rs
index 2662325..bc5d395 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -260,6 +260,27 @@ impl From<io::Error> for Error {
     }
 }
 
+#[cfg(binate_verif)]
+impl Error {
+    /// Verification hook: the error for a protocol error code.
+    #[doc(hidden)]
+    pub fn verif_protocol(code: Code, source: Option<String>) -> Error {
+        let kind = match code {
+            Code::InvalidSetup => Kind::InvalidSetup,
+            Code::UnsupportedSetup => Kind::UnsupportedSetup,
+            Code::RejectedSetup => Kind::RejectedSetup,
+            Code::RejectedResume => Kind::RejectedResume,
+            Code::ConnectionError => Kind::ConnectionError,
+            Code::ConnectionClose => Kind::ConnectionClose,
+            Code::ApplicationError => Kind::ApplicationError,
+            Code::Rejected => Kind::Rejected,
+            Code::Canceled => Kind::Canceled,
+            Code::Invalid => Kind::Invalid,
+        };
+        Error::new(kind, source)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From fa6f61c4c96cff6f22fbca105eafb5efd569b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 02/19] fix: reject extension frames instead of panicking when
 decoding one

---
 binate/src/frame/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..73cb193 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -171,7 +171,9 @@ impl Frame {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    FrameType::EXT.value(),
+                ));
             }
         })
     }
-- 
2.43.0


From b45263ae27a86235e21322e64518090e2e194e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 03/19] fix: count the resume token length of a setup frame
 only when it is sent

---
 binate/src/frame/codec/setup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..ab64fa0 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -167,12 +167,12 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
 
+        // len(token_length): 2
         // len(resume_token)
         if let Some(resume_token) = &self.resume_token {
-            len += resume_token.len();
+            len += 2 + resume_token.len();
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From d7b959b4665843f6cad5b88286da3d1c2c13cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 04/19] fix: send an (empty) resume token whenever the resume
 flag is set

---
 binate/src/frame/codec/setup.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index ab64fa0..29b532b 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -250,7 +250,12 @@ impl Default for SetupFrameBuilder {
 
 impl SetupFrameBuilder {
     /// Sets the `Resume` flag.
+    ///
+    /// The resume identification token is empty unless [`set_resume_token`] is also called.
+    ///
+    /// [`set_resume_token`]: SetupFrameBuilder::set_resume_token
     pub fn set_resume_flag(mut self) -> Self {
+        self.resume_token.get_or_insert_with(Bytes::new);
         self.flags |= Flags::RESUME;
         self
     }
-- 
2.43.0


From be0c9c4a1a9c3011c4b4705f04d58348839cf218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 05/19] fix: refuse MIME types whose length does not fit in one
 byte

---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 29b532b..eb914e7 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -313,7 +313,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -322,7 +322,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -334,7 +334,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -343,7 +343,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From e938e5e1bc1966a9244aba9494370f31d25ea973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 06/19] fix: carry the metadata length exactly when the
 metadata flag is set

---
 binate/src/frame/codec/payload.rs          | 19 +++++++++++--------
 binate/src/frame/codec/request_channel.rs  | 19 +++++++++++--------
 binate/src/frame/codec/request_fnf.rs      | 19 +++++++++++--------
 binate/src/frame/codec/request_response.rs | 19 +++++++++++--------
 binate/src/frame/codec/request_stream.rs   | 19 +++++++++++--------
 binate/src/frame/codec/setup.rs            | 16 +++++++++-------
 binate/src/frame/visit.rs                  |  7 +++----
 7 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/binate/src/frame/codec/payload.rs b/binate/src/frame/codec/payload.rs
index 71033d5..6c52665 100644
--- a/binate/src/frame/codec/payload.rs
+++ b/binate/src/frame/codec/payload.rs
@@ -91,20 +91,23 @@ impl Encode for PayloadFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -116,7 +119,7 @@ impl Decode for PayloadFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(PayloadFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_channel.rs b/binate/src/frame/codec/request_channel.rs
index a3942b2..4ba46d9 100644
--- a/binate/src/frame/codec/request_channel.rs
+++ b/binate/src/frame/codec/request_channel.rs
@@ -103,21 +103,24 @@ impl Encode for RequestChannelFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_CHANNEL.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let mut len = 10 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -130,7 +133,7 @@ impl Decode for RequestChannelFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestChannelFrame {
             stream_id,
             flags,
diff --git a/binate/src/frame/codec/request_fnf.rs b/binate/src/frame/codec/request_fnf.rs
index fedc700..e53d824 100644
--- a/binate/src/frame/codec/request_fnf.rs
+++ b/binate/src/frame/codec/request_fnf.rs
@@ -75,20 +75,23 @@ impl Encode for RequestFnfFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_FNF.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -100,7 +103,7 @@ impl Decode for RequestFnfFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestFnfFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_response.rs b/binate/src/frame/codec/request_response.rs
index aaeabb1..31c1bbd 100644
--- a/binate/src/frame/codec/request_response.rs
+++ b/binate/src/frame/codec/request_response.rs
@@ -75,20 +75,23 @@ impl Encode for RequestResponseFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_RESPONSE.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -100,7 +103,7 @@ impl Decode for RequestResponseFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestResponseFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_stream.rs b/binate/src/frame/codec/request_stream.rs
index ab09fb4..e00f800 100644
--- a/binate/src/frame/codec/request_stream.rs
+++ b/binate/src/frame/codec/request_stream.rs
@@ -92,21 +92,24 @@ impl Encode for RequestStreamFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_STREAM.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let mut len = 10 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -119,7 +122,7 @@ impl Decode for RequestStreamFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestStreamFrame { stream_id, flags, initial_request_n, payload })
     }
 }
diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index eb914e7..b474006 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -153,11 +153,9 @@ impl Encode for SetupFrame {
         buf.put_slice(&self.metadata_mimetype);
         buf.put_u8(self.data_mimetype.len() as u8);
         buf.put_slice(&self.data_mimetype);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
@@ -182,8 +180,12 @@ impl Encode for SetupFrame {
         len += 1 + self.metadata_mimetype.len() + 1 + self.data_mimetype.len();
 
         // len(metadata_length): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        len += 3 + self.payload.len();
+        len += self.payload.len();
 
         len
     }
@@ -206,7 +208,7 @@ impl Decode for SetupFrame {
             eat_bytes(buf, metadata_mimetype_len as usize)?;
         let data_mimetype_len = eat_u8(buf)?;
         let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(SetupFrame {
             flags,
             version,
diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 0556ba6..81b503d 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -84,11 +84,10 @@ pub(super) fn eat_bytes<B: Buf>(buf: &mut B, len: usize) -> Result<Bytes> {
 
 pub(super) fn eat_payload<B: Buf>(
     buf: &mut B,
-    can_have_data: bool,
+    has_metadata: bool,
 ) -> Result<Payload> {
-    let metadata_len =
-        if can_have_data { eat_u24(buf)?.into_usize() } else { 0 };
-    let metadata = if metadata_len > 0 {
+    let metadata = if has_metadata {
+        let metadata_len = eat_u24(buf)?.into_usize();
         Some(eat_bytes(buf, metadata_len)?)
     } else {
         None
-- 
2.43.0


From 764def910dc2c88a783ba005c6aa6d86f59c50bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 07/19] fix: do not demand two bytes to decode one

---
 binate/src/frame/visit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 81b503d..ab9abd1 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -41,7 +41,7 @@ pub(super) fn eat_version<B: Buf>(buf: &mut B) -> Result<Version> {
 }
 
 pub(super) fn eat_u8<B: Buf>(buf: &mut B) -> Result<u8> {
-    incomplete_if_less_than!(buf, 2);
+    incomplete_if_less_than!(buf, 1);
 
     Ok(buf.get_u8())
 }
-- 
2.43.0


From a709bc49cf42f6fd7d8a5fcc98ced69aa38d2a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 08/19] fix: put the header flags at the bits the protocol
 assigns

---
 binate/src/frame/flags.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/frame/flags.rs b/binate/src/frame/flags.rs
index eae215a..b3a7e98 100644
--- a/binate/src/frame/flags.rs
+++ b/binate/src/frame/flags.rs
@@ -155,21 +155,21 @@ bitflags! {
     /// Frame header flags.
     pub struct Flags: u16 {
         /// The frame can be ignored.
-        const IGNORE           = 0b01_0000_0000;
+        const IGNORE           = 0b10_0000_0000;
         /// Metadata present.
-        const METADATA         = 0b00_1000_0000;
+        const METADATA         = 0b01_0000_0000;
         /// More fragments follow this fragment.
-        const FOLLOWS          = 0b00_0100_0000;
+        const FOLLOWS          = 0b00_1000_0000;
         /// Client requests resume capability if possible.
-        const RESUME           = 0b00_0100_0000;
+        const RESUME           = 0b00_1000_0000;
         /// Respond with KEEPALIVE.
-        const RESPOND          = 0b00_0100_0000;
+        const RESPOND          = 0b00_1000_0000;
         /// Bit to indicate stream completion.
-        const COMPLETE         = 0b00_0010_0000;
+        const COMPLETE         = 0b00_0100_0000;
         /// Will honor LEASE.
-        const LEASE            = 0b00_0010_0000;
+        const LEASE            = 0b00_0100_0000;
         /// Bit to indicate Next (Payload Data and/or Metadata present).
-        const NEXT             = 0b00_0001_0000;
+        const NEXT             = 0b00_0010_0000;
     }
 }
 
-- 
2.43.0


From 12ac52775ec16b65c251f6e023970ce6d4864a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 09/19] fix: count the chunks of a payload exactly, and as its
 iterator yields them

---
 binate/src/payload.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..8e2d492 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,15 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        // An empty part still takes a chunk.
+        let count = |part: &Option<Bytes>| match part {
+            Some(bytes) => {
+                bytes.len().saturating_sub(1) / self.chunk_size + 1
+            }
+            None => 0,
+        };
+
+        cmp::max(count(&self.metadata), count(&self.data))
     }
 }
 
@@ -237,6 +238,11 @@ impl Iterator for PayloadChunks {
         }
         Some(Payload::new(meta, data))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl iter::FusedIterator for PayloadChunks {}
-- 
2.43.0


From 9c36604ce664a2999a39a156a4ba811b28fbed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 10/19] fix: send a frame for a payload without parts when
 chunking is on

---
 binate/src/connection/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 0412dd1..1edd4d3 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -148,7 +148,9 @@ impl RSocket for RSocketMachine {
     fn fire_and_forget(&self, payload: Payload) -> Result<()> {
         let stream_id = self.stream_id.next_stream_id(&self.receivers);
 
-        if let Some(chunk_size) = self.chunk_payload {
+        // A payload without any part has no chunks, but still is one request.
+        let has_chunks = payload.has_metadata() || payload.has_data();
+        if let Some(chunk_size) = self.chunk_payload.filter(|_| has_chunks) {
             let chunks = payload.chunks(chunk_size);
             let chunks_len = chunks.len();
             for (idx, chunked) in chunks.enumerate() {
-- 
2.43.0


From 3bb4535c51cf6d19190e2f5277bdff4e8b211fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 11/19] fix: do not hand out stream ID 0 when a server's stream
 IDs wrap around

---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index ef75b08..e57d1e2 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 is the connection's own.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 25b615c73c6aeaf4a68cf12b1f3336531f79a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 12/19] fix: saturate the permit count instead of overflowing
 it

---
 binate/src/connection/counter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index 099f04c..9153c21 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -26,9 +26,12 @@ impl RequestCounter {
         self.0.load(Ordering::SeqCst) == 0
     }
 
-    /// Adds permits to this counter.
+    /// Adds permits to this counter, up to a count of 2,147,483,647.
     pub fn add(&self, n: u32) {
-        self.0.fetch_add(n as i32, Ordering::SeqCst);
+        let n = (n & COUNTER_MASK) as i32;
+        let _ = self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| {
+            Some(v.saturating_add(n))
+        });
     }
 
     /// Returns the count this counter stores.
-- 
2.43.0


From c9e7f36d29b8a2e86223237cc9378677ea5139c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 13/19] fix: describe REJECTED errors by their own name

---
 binate/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/error.rs b/binate/src/error.rs
index bc5d395..e0e24e2 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -211,7 +211,7 @@ impl Error {
             ConnectionError => "CONNECTION_ERROR (0x00000101)",
             ConnectionClose => "CONNECTION_CLOSE (0x00000102)",
             ApplicationError => "APPLICATION_ERROR (0x00000201)",
-            Rejected => "CONNECTION_ERROR (0x00000202)",
+            Rejected => "REJECTED (0x00000202)",
             Canceled => "CANCELED (0x00000203)",
             Invalid => "INVALID (0x00000204)",
             Decode(_) => "error decoding frame",
-- 
2.43.0


From a8a5ef20dad416685c99c8e3554bfdf14bb3b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 14/19] fix: convert well-known MIME types to their names
 without recursing forever

---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..5526ee4 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
         }
     }
 }
-- 
2.43.0


From 47bd25c8b2dc1285bd629b5c7261b699e359a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 15/19] fix: use the registered names of the RSocket message
 MIME types

---
 binate/src/mimetype.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 5526ee4..8cf97a1 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -106,12 +106,12 @@ impl From<&str> for WellKnownMimeType {
             "application/x-hessian" => APPLICATION_X_HESSIAN,
             "application/x-java-object" => APPLICATION_X_JAVA_OBJECT,
             "application/cloudevents+json" => APPLICATION_CLOUDEVENTS_JSON,
-            "message/x.rsocket.mime.type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
-            "message/x.rsocket.accept.time.types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
+            "message/x.rsocket.mime-type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
+            "message/x.rsocket.accept-mime-types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
             "message/x.rsocket.authentication.v0" => MESSAGE_X_RSOCKET_AUTHENTICATION_V0,
-            "message/x.rsocket.tracing.zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
+            "message/x.rsocket.tracing-zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
             "message/x.rsocket.routing.v0" => MESSAGE_X_RSOCKET_ROUTING_V0,
-            "message/x.rsocket.composite.metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
+            "message/x.rsocket.composite-metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
             _ => UNPARSEABLE,
         }
     }
@@ -164,12 +164,12 @@ impl From<WellKnownMimeType> for &'static str {
             APPLICATION_X_HESSIAN => "application/x-hessian",
             APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
             APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
-            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
-            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime-type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept-mime-types.v0",
             MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
-            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing-zipkin.v0",
             MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
-            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite-metadata.v0",
         }
     }
 }
-- 
2.43.0


From ededa729502698e7abbe46b93839ebeffcbc5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 16/19] fix: keep the reserved bits of a lease frame clear

---
 binate/src/frame/codec/lease.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 13c7dd7..33251d7 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -46,7 +46,11 @@ impl LeaseFrame {
         metadata: Option<Bytes>,
     ) -> Self {
         debug_assert_max_u31!(ttl, number_of_requests);
-        LeaseFrame { ttl, number_of_requests, metadata }
+        LeaseFrame {
+            ttl: ttl & MAX_U31,
+            number_of_requests: number_of_requests & MAX_U31,
+            metadata,
+        }
     }
 
     /// Returns the validity time (in milliseconds) of LEASE from time of reception.
-- 
2.43.0


From 132e1646514527120a753c4bc2b6f6b5a462a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 17/19] fix: refuse resume tokens whose length does not fit in
 two bytes

---
 binate/src/frame/codec/resume.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binate/src/frame/codec/resume.rs b/binate/src/frame/codec/resume.rs
index 2db1d2d..d7356db 100644
--- a/binate/src/frame/codec/resume.rs
+++ b/binate/src/frame/codec/resume.rs
@@ -45,12 +45,17 @@ impl ResumeFrame {
     /// - The length of `resume_token` MUST be <= `65,535` bytes long.
     /// - Both `last_received_server_position` and `first_available_client_position` MUST be <=
     /// [`MAX_U63`].
+    ///
+    /// # Panics
+    ///
+    /// This function panics if the length of the given token is greater than 65,535 bytes.
     pub fn new(
         version: Version,
         resume_token: Bytes,
         mut last_received_server_position: u64,
         mut first_available_client_position: u64,
     ) -> Self {
+        assert!(resume_token.len() <= 65_535);
         debug_assert_max_u63!(
             last_received_server_position,
             first_available_client_position
-- 
2.43.0


From 306eee1e7ac9ca22fa64426334c0580a4addbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 18/19] fix: keep all 32 bits of an error code

---
 binate/src/frame/codec/error.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..034bd9e 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,14 +108,13 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
         ErrorFrame {
             stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
+            code: error_code,
             data,
         }
     }
-- 
2.43.0


From 4bae21e2341c45eedb35fab289fc47c09190b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 19/19] fix: subscribe to the connection status once instead of
 spinning

---
 binate/src/connection/socket.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 1edd4d3..61003b6 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -70,9 +70,8 @@ impl RSocketMachine {
         // Listens to the connection status.
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
-            while let Some(status) =
-                cloned_rsm.connection.connection_status().next().await
-            {
+            let mut statuses = cloned_rsm.connection.connection_status();
+            while let Some(status) = statuses.next().await {
                 match status {
                     ConnectionStatus::Closed => {
                         cloned_rsm.handle_transport_close();
-- 
2.43.0

