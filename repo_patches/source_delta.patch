From 82bb4544bb05636fab4e174dc7260d3f5a09570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 01/27] fix: do not lose bytes following a WebSocket frame, nor
 fail on short reads

---
 puck/src/ws/frame.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..2bf2f63 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,12 +19,13 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
+        // note: the stream must not be buffered here, because whatever is read beyond the end of
+        // this frame would be lost to the frames which follow it
 
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
+            if stream.read_exact(&mut buffer).is_err() {
                 return Err(ParseFrameError::InsufficientData);
             }
             (buffer[0], buffer[1])
@@ -51,8 +52,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -62,13 +63,13 @@ impl Frame {
 
         let decoded = if payload_length > 0 {
             let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
+            if stream.read_exact(&mut masking_key).is_err() {
                 return Err(ParseFrameError::InsufficientData);
             }
 
             let mut encoded = Vec::with_capacity(payload_length as usize);
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
-- 
2.43.0


From b17c34bbe7d65e7ad6d6acd484020c49f1373e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 02/27] fix: consume the masking key of an empty masked
 WebSocket frame

---
 puck/src/ws/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 2bf2f63..7dc72b7 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -61,7 +61,7 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
+        let decoded = if masked {
             let mut masking_key = [0_u8; 4];
             if stream.read_exact(&mut masking_key).is_err() {
                 return Err(ParseFrameError::InsufficientData);
-- 
2.43.0


From 1e0c778a8a5da5a19d7929fdf387c851e996bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 03/27] fix: do not trust the declared length of a WebSocket
 frame

---
 puck/src/ws/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 7dc72b7..5edf449 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -67,10 +67,11 @@ impl Frame {
                 return Err(ParseFrameError::InsufficientData);
             }
 
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+            // the declared length is not trustworthy, so don't allocate that much in advance
+            let mut encoded = Vec::new();
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
-            if n != payload_length as usize {
+            if n as u64 != payload_length {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
                 }
-- 
2.43.0


From 0f62789b7e62e9efd22fcbcf59aacefc96ed697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 04/27] fix: use the 16-bit length form for 65535 byte
 WebSocket frames

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 5edf449..3e8d607 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -133,7 +133,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -145,7 +145,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From ac7ef1579696e21e279c9ffb75887bb8808d974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 05/27] fix: a WebSocket is closed after a protocol violation
 or the loss of the client

---
 puck/src/ws/websocket.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 9df687d..1f3a76e 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -104,6 +104,8 @@ impl Iterator for WebSocket {
                 }
                 Err(e) => match e {
                     super::message::DecodeMessageError::ClientProtocolViolationError => {
+                        // there is no way to find the start of the next message
+                        self.state = WebSocketState::Closed;
                         Err(NextMessageError::ClientError)
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
-- 
2.43.0


From 90fac74333ac9e6544a418a0fcaa4db6aa60581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 06/27] fix: do not panic when a pong or close frame cannot be
 written

---
 puck/src/ws/websocket.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 1f3a76e..84b1835 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -59,7 +59,7 @@ impl WebSocket {
     pub fn close(self) -> Result<UsedStream, SendFrameError> {
         match self.state {
             WebSocketState::Open => {
-                send_close_frame(self.stream.clone());
+                send_close_frame(self.stream.clone())?;
             }
             WebSocketState::Closed => {}
         };
@@ -87,7 +87,8 @@ impl Iterator for WebSocket {
             WebSocketState::Open => match Message::next(self.stream.clone()) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
-                        send_frame(
+                        // if the client has gone, then reading from the stream will report that
+                        let _ = send_frame(
                             self.stream.clone(),
                             Frame {
                                 fin: true,
@@ -97,8 +98,7 @@ impl Iterator for WebSocket {
                                 op_code: super::frame::OpCode::Pong,
                                 decoded: payload.clone().unwrap_or_default(),
                             },
-                        )
-                        .expect("failed to send pong");
+                        );
                     }
                     Ok(msg)
                 }
@@ -110,7 +110,8 @@ impl Iterator for WebSocket {
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
                         self.state = WebSocketState::Closed;
-                        send_close_frame(self.stream.clone());
+                        // the client might not wait for the reply
+                        let _ = send_close_frame(self.stream.clone());
                         Err(NextMessageError::ConnectionClosed)
                     }
                 },
@@ -131,7 +132,7 @@ pub enum NextMessageError {
     ConnectionClosed,
 }
 
-fn send_close_frame(stream: impl Write) {
+fn send_close_frame(stream: impl Write) -> Result<(), SendFrameError> {
     trace!("Sending close frame");
     send_frame(
         stream,
@@ -144,5 +145,4 @@ fn send_close_frame(stream: impl Write) {
             decoded: vec![],
         },
     )
-    .expect("failed to send close frame");
 }
-- 
2.43.0


From 373f7699378bb40340728f05bf313c98c645af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 07/27] fix: reject WebSocket frames which break the framing
 rules

---
 puck/src/ws/message.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 835b195..a9c3e33 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -24,7 +24,7 @@ impl Message {
     /// Parse the next message from the stream.
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
         log::trace!("trying to parse next message");
-        let first = Frame::parse(stream.clone())?;
+        let first = parse_frame(stream.clone())?;
 
         if first.op_code() == &OpCode::Terminate {
             trace!("Client asked to close connection");
@@ -60,10 +60,14 @@ impl Message {
 
         let op_code = *first.op_code();
 
+        if op_code == OpCode::Continue {
+            return Err(DecodeMessageError::ClientProtocolViolationError);
+        }
+
         let mut payload = first.take_decoded();
 
         loop {
-            let msg = Frame::parse(stream.clone())?;
+            let msg = parse_frame(stream.clone())?;
 
             if msg.op_code() == &OpCode::Terminate {
                 trace!("Client asked to close connection");
@@ -103,6 +107,27 @@ impl Message {
     }
 }
 
+/// Parses the next frame, and checks the rules which apply to every frame.
+fn parse_frame(stream: impl Read) -> Result<Frame, DecodeMessageError> {
+    let frame = Frame::parse(stream)?;
+
+    let is_control = matches!(
+        frame.op_code(),
+        OpCode::Terminate | OpCode::Ping | OpCode::Pong
+    );
+
+    if frame.rsv1
+        || frame.rsv2
+        || frame.rsv3
+        || frame.op_code() == &OpCode::Reserved
+        || (is_control && (!frame.fin() || frame.decoded().len() > 125))
+    {
+        return Err(DecodeMessageError::ClientProtocolViolationError);
+    }
+
+    Ok(frame)
+}
+
 #[derive(thiserror::Error, Debug)]
 /// An error encountered when trying to decode a WebSocket message.
 #[allow(missing_docs)]
-- 
2.43.0


From b86e39943ca6aee339b3b70ed07273438c5ec672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 08/27] fix: deliver pings and pongs between the fragments of a
 WebSocket message

---
 puck/src/ws/frame.rs     |  2 +-
 puck/src/ws/message.rs   | 42 +++++++++++++++++++++++++++++++++++++++-
 puck/src/ws/websocket.rs | 11 +++++++++--
 3 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 3e8d607..9296225 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -153,7 +153,7 @@ impl Frame {
     }
 }
 
-#[derive(Debug, Copy, Clone, Eq, PartialEq)]
+#[derive(Debug, Copy, Clone, Eq, PartialEq, serde::Serialize, serde::Deserialize)]
 /// The operation code (from the specification) of this frame.
 #[allow(missing_docs)]
 pub enum OpCode {
diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index a9c3e33..68c437b 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -23,7 +23,27 @@ pub enum Message {
 impl Message {
     /// Parse the next message from the stream.
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
+        let mut partial = None;
+        let message = Self::next_with_partial(stream, &mut partial)?;
+        if partial.is_some() {
+            // there is nowhere to keep the fragments which precede this message
+            return Err(DecodeMessageError::ClientProtocolViolationError);
+        }
+        Ok(message)
+    }
+
+    /// Parse the next message from the stream. The start of a fragmented message which is
+    /// interrupted by the returned message (a ping or a pong) is kept in `partial`.
+    pub(crate) fn next_with_partial(
+        stream: impl Read + Clone,
+        partial: &mut Option<(OpCode, Vec<u8>)>,
+    ) -> Result<Self, DecodeMessageError> {
         log::trace!("trying to parse next message");
+
+        if let Some((op_code, payload)) = partial.take() {
+            return Self::next_fragments(stream, op_code, payload, partial);
+        }
+
         let first = parse_frame(stream.clone())?;
 
         if first.op_code() == &OpCode::Terminate {
@@ -64,8 +84,17 @@ impl Message {
             return Err(DecodeMessageError::ClientProtocolViolationError);
         }
 
-        let mut payload = first.take_decoded();
+        let payload = first.take_decoded();
+
+        Self::next_fragments(stream, op_code, payload, partial)
+    }
 
+    fn next_fragments(
+        stream: impl Read + Clone,
+        op_code: OpCode,
+        mut payload: Vec<u8>,
+        partial: &mut Option<(OpCode, Vec<u8>)>,
+    ) -> Result<Self, DecodeMessageError> {
         loop {
             let msg = parse_frame(stream.clone())?;
 
@@ -74,6 +103,17 @@ impl Message {
                 return Err(DecodeMessageError::ClientSentCloseFrame);
             }
 
+            if msg.op_code() == &OpCode::Ping || msg.op_code() == &OpCode::Pong {
+                *partial = Some((op_code, payload));
+                let is_ping = msg.op_code() == &OpCode::Ping;
+                let data = Some(msg.take_decoded()).filter(|data| !data.is_empty());
+                return Ok(if is_ping {
+                    Self::Ping(data)
+                } else {
+                    Self::Pong(data)
+                });
+            }
+
             if msg.op_code() != &OpCode::Continue {
                 return Err(DecodeMessageError::ClientProtocolViolationError);
             }
diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 84b1835..ff9f21f 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -6,7 +6,7 @@ use lunatic::net::TcpStream;
 use crate::core::UsedStream;
 
 use super::{
-    frame::Frame,
+    frame::{Frame, OpCode},
     message::Message,
     send::{self, send_frame, SendFrameError},
 };
@@ -20,6 +20,8 @@ use super::{
 pub struct WebSocket {
     stream: TcpStream,
     state: WebSocketState,
+    /// The fragments of a message which was interrupted by a ping or a pong.
+    partial: Option<(OpCode, Vec<u8>)>,
 }
 
 #[derive(Debug, serde::Serialize, serde::Deserialize, Clone, Copy)]
@@ -37,6 +39,7 @@ impl WebSocket {
         Self {
             stream,
             state: WebSocketState::Open,
+            partial: None,
         }
     }
 
@@ -75,6 +78,7 @@ impl WebSocket {
         Self {
             stream: self.stream.clone(),
             state: self.state,
+            partial: self.partial.clone(),
         }
     }
 }
@@ -84,7 +88,10 @@ impl Iterator for WebSocket {
 
     fn next(&mut self) -> Option<Result<Message, NextMessageError>> {
         Some(match self.state {
-            WebSocketState::Open => match Message::next(self.stream.clone()) {
+            WebSocketState::Open => match Message::next_with_partial(
+                self.stream.clone(),
+                &mut self.partial,
+            ) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
                         // if the client has gone, then reading from the stream will report that
-- 
2.43.0


From d200665f2eda7ff93bc912e1da6c96b619061847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 09/27] fix: look up the WebSocket upgrade headers as RFC 6455
 requires

---
 puck/src/ws/upgrade.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..cadeda9 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -6,17 +6,24 @@ use sha1::{Digest, Sha1};
 
 use crate::{err_400, write_response, Response};
 
+/// Finds the value of the header with the provided name (header names are case-insensitive.)
+fn find_header<'a>(req: &'a crate::Request, name: &str) -> Option<&'a String> {
+    req.headers
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, value)| value)
+}
+
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    req.headers
-        .get("Upgrade")
+    find_header(req, "Upgrade")
         .map(|val| val.to_ascii_lowercase() == "websocket")
         .unwrap_or_default()
-        // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
-            .map(|val| val.to_ascii_lowercase().contains("upgrade"))
+        && find_header(req, "Connection")
+            .map(|val| {
+                val.split(',')
+                    .any(|token| token.trim().eq_ignore_ascii_case("upgrade"))
+            })
             .unwrap_or_default()
 }
 
@@ -28,7 +35,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match find_header(req, "Sec-WebSocket-Key") {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From 4c011bfcb5e0893ed664cc5a7b496e1617180f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/27] fix: take the length of a response's body from its
 Content-Length

---
 puck/src/response/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..35c391a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -108,7 +108,7 @@ impl Response {
             reader,
             headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
+                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
         );
 
-- 
2.43.0


From 26ec62c0073f46e71d90d2f0591c20d7a993dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 11/27] fix: report a malformed response as an error

---
 puck/src/response/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 35c391a..89a6fad 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,7 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        let _ = res.parse(&buf)?;
 
         let headers = {
             let mut map = HashMap::new();
@@ -142,6 +142,8 @@ impl Response {
 pub enum ParseResponseError {
     #[error("io error")]
     IoError(io::Error),
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
     #[error("the status code was not supplied")]
     MissingStatusCode,
     #[error("a reason was not supplied")]
@@ -155,3 +157,9 @@ impl From<io::Error> for ParseResponseError {
         Self::IoError(error)
     }
 }
+
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
+}
-- 
2.43.0


From 630aaacf70f507c64f7f63839f5fd158ea5e647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 12/27] fix: write the query of a request's URL

---
 puck/src/request/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..a940073 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -118,7 +118,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " ")?;
         write!(write, "HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
-- 
2.43.0


From 7efce073113ea5d7a02b6d95ad226c6ce7aeebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 13/27] fix: write and parse the HEAD method

---
 puck/src/request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index a940073..0c830b9 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -227,6 +227,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
@@ -236,7 +237,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From e6d26aeff155d0783077d0c992d1f503b48f650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 14/27] fix: do not trust the declared length of a body

---
 puck/src/body/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..1ef52cc 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,8 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        // the declared length is not trustworthy, so don't allocate that much in advance
+        let mut result = String::new();
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From c7aaf68e3f92978900d782a0e328dc90131a2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 15/27] fix: answer malformed requests with 400 in every
 serving mode

---
 puck/src/core/mod.rs        | 6 ++++--
 puck/src/core/router/mod.rs | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 571f59f..7ecb725 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -48,7 +48,7 @@ where
                     |(stream, ints, state), _: Mailbox<()>| {
                         let router = Router::<STATE>::from_ints(ints);
 
-                        let req = if let Some(req) = Request::parse(stream.clone()).unwrap() {
+                        let req = if let Ok(Some(req)) = Request::parse(stream.clone()) {
                             req
                         } else {
                             let stream = Stream::new(stream, false);
@@ -98,7 +98,9 @@ where
                                 let _recovered_stream = (reconstructed_func)(req, stream, state);
                             }
                             _ => {
-                                todo!()
+                                let stream = Stream::new(stream, false);
+                                // can't do much if this fails
+                                let _ = stream.respond(crate::err_400());
                             }
                         }
                     },
diff --git a/puck/src/core/router/mod.rs b/puck/src/core/router/mod.rs
index e1e4d39..023373d 100644
--- a/puck/src/core/router/mod.rs
+++ b/puck/src/core/router/mod.rs
@@ -108,6 +108,9 @@ impl<STATE: Serialize + DeserializeOwned + Clone> Router<STATE> {
                     if let Ok(Some(req)) = Request::parse(stream.clone()) {
                         let router = Router::<STATE>::from_ints(ints);
                         router.respond(req, Stream::new(stream, false), state);
+                    } else {
+                        // can't do much if this fails
+                        let _ = Stream::new(stream, false).respond(crate::err_400());
                     }
                 },
             );
-- 
2.43.0


From 3b036ec8f86223dbd653143c85a8b24b35c92817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 16/27] fix: refuse to encode a response with line breaks in
 its head

---
 puck/src/response/encoder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/encoder.rs b/puck/src/response/encoder.rs
index 3598763..0f0c49f 100644
--- a/puck/src/response/encoder.rs
+++ b/puck/src/response/encoder.rs
@@ -1,6 +1,6 @@
 //! Encodes HTTP responses.
 
-use std::io::Write;
+use std::io::{Error, ErrorKind, Write};
 
 use crate::Response;
 
@@ -18,6 +18,17 @@ impl Encoder {
 
     /// Write the current response to the given stream.
     pub fn write_tcp_stream(&mut self, mut stream: impl Write) -> std::io::Result<()> {
+        let has_line_break = |text: &str| text.contains(|c| c == '\r' || c == '\n');
+        if has_line_break(&self.response.reason)
+            || (self.response.headers.iter())
+                .any(|(header, value)| has_line_break(header) || has_line_break(value))
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "line break in the head of a response",
+            ));
+        }
+
         write!(
             stream,
             "HTTP/1.1 {} {}\r\n",
-- 
2.43.0


From 4924f1f922f7d12671c8d6fb72440b30934dcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 17/27] fix: the last Host and Content-Length sent are the ones
 used

---
 puck/src/request/mod.rs  | 14 +++++++++-----
 puck/src/response/mod.rs |  9 +++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 0c830b9..39c88a4 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -81,8 +81,15 @@ impl Request {
             map
         };
 
+        // the last value, in the order in which the headers were sent
+        let find_header = |name: &str| {
+            (req.headers.iter().rev())
+                .find(|header| header.name.eq_ignore_ascii_case(name))
+                .and_then(|header| std::str::from_utf8(header.value).ok())
+        };
+
         let url =
-            if let Some((_, host)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
+            if let Some(host) = find_header("host") {
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
                 if url.starts_with("http://") || url.starts_with("https://") {
                     Url::parse(url)
@@ -100,10 +107,7 @@ impl Request {
 
         let body = Body::from_reader(
             reader,
-            headers
-                .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
+            find_header("content-length").and_then(|len| len.parse::<usize>().ok()),
         );
 
         Ok(Some(Self {
diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 89a6fad..76fa034 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -106,10 +106,11 @@ impl Response {
 
         let body = Body::from_reader(
             reader,
-            headers
-                .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
+            // the last value, in the order in which the headers were sent
+            (res.headers.iter().rev())
+                .find(|header| header.name.eq_ignore_ascii_case("content-length"))
+                .and_then(|header| std::str::from_utf8(header.value).ok())
+                .and_then(|len| len.parse::<usize>().ok()),
         );
 
         Ok(Some(Self {
-- 
2.43.0


From a1057ad78e6208d59d1e3e5741f5d83ac8b449e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 18/27] fix: reject a head which contains a blank line

---
 puck/src/request/mod.rs  | 5 ++++-
 puck/src/response/mod.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 39c88a4..d45ada3 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -68,7 +68,10 @@ impl Request {
             }
         }
 
-        let _ = req.parse(&buf)?;
+        if req.parse(&buf)? != httparse::Status::Complete(buf.len()) {
+            // there was a blank line (with a different line ending) before the end of the head
+            return Err(From::from(httparse::Error::NewLine));
+        }
         let method = Method::new_from_str(req.method.ok_or(RequestParseError::MissingMethod)?);
         let headers = {
             let mut map = HashMap::new();
diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 76fa034..ef1bf2c 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,10 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf)?;
+        if res.parse(&buf)? != httparse::Status::Complete(buf.len()) {
+            // there was a blank line (with a different line ending) before the end of the head
+            return Err(From::from(httparse::Error::NewLine));
+        }
 
         let headers = {
             let mut map = HashMap::new();
-- 
2.43.0


From 351d23ca1e75de9d6f7a5e4ab4e071004812de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 19/27] fix: stop reading from the WebSocket of a component
 once it is closed

---
 puck_liveview/src/component/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..e5d3cb7 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -68,11 +68,12 @@ where
 
             Process::spawn(
                 (stream, process.clone()),
-                |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                |(websocket, process), _: Mailbox<()>| {
+                    for msg in websocket {
+                        let closed = matches!(msg, Err(NextMessageError::ConnectionClosed));
+                        process.send(WsOrInput::Ws(msg));
+                        if closed {
+                            break;
                         }
                     }
                 },
-- 
2.43.0


From 6991e7ff2d7ef151adb461550e45183dce6c6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 20/27] fix: drop a component whose client leaves before the
 first paint

---
 puck_liveview/src/component/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index e5d3cb7..99ee140 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -111,7 +111,8 @@ fn main_loop<COMPONENT, DATA, INPUT>(
 
     let payload = serde_json::to_string(&InstructionSerializer(instructions)).unwrap();
 
-    stream.send(Message::Text(payload)).unwrap();
+    // if the client has gone already, then reading from the stream will report that
+    let _ = stream.send(Message::Text(payload));
 
     loop {
         let msg = mailbox.receive();
-- 
2.43.0


From 2c94c98df86a62402c526a0f3cbc3d1e68ec138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 21/27] fix: a diff changes the right DOM nodes

Every instruction which addresses an existing node uses the id it had, ids are
changed without two nodes having the same one in between, and only then new nodes
are created.  Children with keys are compared by position when that would need
nodes to be moved or inserted, as the instructions for that say neither what to
insert nor where (and the client does not know them).
---
 .../src/dom/element/diff/changeset/mod.rs     |   2 +
 puck_liveview/src/dom/element/diff/mod.rs     | 249 ++++++++++--------
 2 files changed, 148 insertions(+), 103 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/changeset/mod.rs b/puck_liveview/src/dom/element/diff/changeset/mod.rs
index e3d3c12..cd2b642 100644
--- a/puck_liveview/src/dom/element/diff/changeset/mod.rs
+++ b/puck_liveview/src/dom/element/diff/changeset/mod.rs
@@ -51,9 +51,11 @@ pub(crate) enum Instruction<'a> {
     InsertChild {
         new_child_id: String,
     },
+    #[allow(unused)]
     InsertAfter {
         after_id: String,
     },
+    #[allow(unused)]
     InsertBefore {
         before_id: String,
     },
diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 9c4660f..c3a2d94 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -4,7 +4,7 @@ pub(crate) mod changeset;
 #[allow(unused_parens)]
 mod test_diffing;
 
-use std::borrow::Cow;
+use std::{borrow::Cow, collections::HashSet};
 
 use self::changeset::{Changeset, Instruction, Op};
 
@@ -17,14 +17,12 @@ impl Element {
         let mut c = Changeset::empty();
 
         if let Some(other) = other {
-            // we need to apply all these updates...
-            c.ops.extend(self.diff_name(other));
-            c.ops.extend(self.diff_attributes(other));
-            c.ops.extend(self.diff_text(other));
-            c.ops.extend(self.diff_listeners(other));
-            // ... before we change the id
-            c.ops.extend(self.diff_children(other));
-            c.ops.extend(self.diff_id(other));
+            // all these instructions address elements by the ids they had...
+            c.extend(self.diff_in_place(other));
+            // ... so only now they can take on the new ids...
+            c.extend(self.diff_ids(other));
+            // ... and only after that there can be new elements with the new ids
+            c.extend(self.diff_additions(other));
         } else {
             c.ops.extend(self.create_from_scratch(None))
         }
@@ -32,11 +30,25 @@ impl Element {
         c
     }
 
+    /// Compares two elements and everything below them, and emits the instructions which change or
+    /// delete existing DOM nodes (and leave their IDs as they are).
+    fn diff_in_place<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+        let mut c = Changeset::empty();
+
+        c.extend(self.diff_name(other));
+        c.extend(self.diff_attributes(other));
+        c.extend(self.diff_text(other));
+        c.extend(self.diff_listeners(other));
+        c.extend(self.diff_children(other));
+
+        c
+    }
+
     /// Create a new element from scratch – generally used for the first application paint.
     ///
     /// In the future we should just send this as a serialized HTML string, rather than a series of
     /// Javascript instructions.
-    fn create_from_scratch(&self, parent: Option<&Element>) -> Changeset {
+    fn create_from_scratch<'a>(&'a self, parent: Option<&Element>) -> Changeset<'a> {
         let mut cs = Changeset::empty();
 
         cs.ops.push(Op {
@@ -57,7 +69,7 @@ impl Element {
             })
         }
 
-        cs.extend(self.generate_listeners());
+        cs.extend(self.generate_listeners(self.id()));
 
         if let Some(ref value) = self.text {
             cs.ops.push(Op {
@@ -98,16 +110,57 @@ impl Element {
         cs
     }
 
-    /// Compares the ID's of two elements and emits instructions to update the underlying DOM node
-    /// so that it has the new ID.
-    fn diff_id<'a>(&'a self, other: &'a Element) -> Changeset {
+    /// Compares the IDs of the elements which stay and emits instructions to update the underlying
+    /// DOM nodes so that they have the new IDs. No node takes on an ID which another one still has.
+    fn diff_ids<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+        let mut cs = Changeset::empty();
+
+        let mut changed = vec![];
+        self.collect_changed_ids(other, &mut changed);
+        let mut taken: HashSet<usize> = changed.iter().map(|(old, _)| *old).collect();
+
+        while !changed.is_empty() {
+            let before = changed.len();
+            // IDs mostly grow (or shrink) in document order, so alternate between the directions
+            changed.reverse();
+            changed.retain(|(old, new)| {
+                if taken.contains(new) {
+                    return true;
+                }
+                taken.remove(old);
+                cs.ops.push(Op {
+                    id: old.to_string(),
+                    instruction: Instruction::SetId {
+                        value: new.to_string(),
+                    },
+                });
+                false
+            });
+            if changed.len() == before {
+                // these swap their IDs, so one of them has to make room
+                let spare = usize::MAX;
+                let (old, _) = changed[0];
+                taken.remove(&old);
+                changed[0].0 = spare;
+                cs.ops.push(Op {
+                    id: old.to_string(),
+                    instruction: Instruction::SetId {
+                        value: spare.to_string(),
+                    },
+                });
+            }
+        }
+
+        cs
+    }
+
+    /// Finds the (old and new) IDs of the elements which stay, but change their ID.
+    fn collect_changed_ids(&self, other: &Element, changed: &mut Vec<(usize, usize)>) {
         if self.id != other.id {
-            Changeset::from_op(Op {
-                id: self.id(),
-                instruction: Instruction::SetId { value: other.id() },
-            })
-        } else {
-            Changeset::empty()
+            changed.push((self.id, other.id));
+        }
+        for (my_child, their_child) in self.pair_children(other).kept {
+            my_child.collect_changed_ids(their_child, changed);
         }
     }
 
@@ -116,7 +169,7 @@ impl Element {
     fn diff_name<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         if self.name != other.name {
             Changeset::from_op(Op {
-                id: other.id(),
+                id: self.id(),
                 instruction: Instruction::SetTagName {
                     name: Cow::Borrowed(&other.name),
                 },
@@ -184,19 +237,20 @@ impl Element {
                 id: self.id(),
                 instruction: Instruction::RemoveListeners,
             });
-            c.ops.extend(other.generate_listeners())
+            c.extend(other.generate_listeners(self.id()))
         }
 
         c
     }
 
-    /// Generates all the listeners which should be attached to a given `Element`.
-    fn generate_listeners(&'_ self) -> Changeset<'_> {
+    /// Generates all the listeners of a given `Element`, to be attached to the node with the
+    /// provided ID.
+    fn generate_listeners(&'_ self, id: String) -> Changeset<'_> {
         let mut c = Changeset::empty();
 
         for listener in self.listeners.iter() {
             c.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::AttachListener {
                     name: listener.listener_name().to_string(),
                     on: listener.js_event().to_string(),
@@ -207,92 +261,73 @@ impl Element {
         c
     }
 
-    /// Tries to find a child with the provided key. Returns `None` if a child cannot be found.
-    fn locate_child_by_key(&self, key: &str) -> Option<&Element> {
-        self.children
-            .iter()
-            .find(|el| el.key.as_ref().unwrap().eq(key))
+    /// Pairs the children of two nodes: by key if all of them have one and if that works out, and
+    /// by position otherwise.
+    fn pair_children<'a>(&'a self, other: &'a Element) -> PairedChildren<'a> {
+        if self.children_are_all_keyed() && other.children_are_all_keyed() {
+            if let Some(paired) = self.pair_children_by_key(other) {
+                return paired;
+            }
+        }
+
+        let shared = self.children.len().min(other.children.len());
+        PairedChildren {
+            kept: self.children.iter().zip(&other.children).collect(),
+            removed: self.children[shared..].iter().collect(),
+            added: other.children[shared..].iter().collect(),
+        }
     }
 
-    /// Compares the children of two nodes and emits instructions to update the old children to
-    /// assume the form of the new children.
+    /// Pairs the (keyed) children of two nodes, unless that would require to move children or to
+    /// insert them anywhere but at the end (which there are no instructions for).
+    fn pair_children_by_key<'a>(&'a self, other: &'a Element) -> Option<PairedChildren<'a>> {
+        let mut paired = PairedChildren::default();
+        let mut theirs = other.children.iter().peekable();
+
+        for my_child in self.children.iter() {
+            match theirs.next_if(|their_child| their_child.key == my_child.key) {
+                Some(their_child) => paired.kept.push((my_child, their_child)),
+                None => paired.removed.push(my_child),
+            }
+        }
+        paired.added.extend(theirs);
+
+        let reused = |child: &&Element| paired.removed.iter().any(|old| old.key == child.key);
+        if paired.added.iter().any(reused) {
+            return None;
+        }
+        Some(paired)
+    }
+
+    /// Compares the children of two nodes and emits instructions to delete the old children which
+    /// are gone, and to update the others to assume the form of the new children.
     fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         let mut changeset = Changeset::empty();
+        let children = self.pair_children(other);
 
-        if self.children_are_all_keyed() && other.children_are_all_keyed() {
-            // nodes which are shared between us and the other node
-            let mut unpaired = vec![];
-            for (i, their_child) in other.children.iter().enumerate() {
-                if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
-                {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                } else {
-                    unpaired.push(i);
-                }
-            }
+        for our_child in children.removed {
+            changeset.ops.push(Op {
+                id: our_child.id(),
+                instruction: Instruction::DeleteEl,
+            })
+        }
+        for (my_child, their_child) in children.kept {
+            changeset.extend(my_child.diff_in_place(their_child));
+        }
 
-            // generate all the new nodes (the ones that exist for them, but not for us)
-            let len = unpaired.len();
-            for each in unpaired {
-                changeset.ops.push(Op {
-                    id: other.children[each].id(),
-                    instruction: if each == 0 {
-                        Instruction::InsertBefore {
-                            before_id: other.children[1].id(),
-                        }
-                    } else if each == len {
-                        Instruction::InsertAfter {
-                            after_id: other.children[each].id(),
-                        }
-                    } else {
-                        Instruction::InsertBefore {
-                            before_id: other.children[each - 1].id(),
-                        }
-                    },
-                })
-            }
+        changeset
+    }
 
-            // delete all the nodes that we have that they don't
-            for our_child in self.children.iter() {
-                if other
-                    .locate_child_by_key(our_child.key.as_ref().unwrap())
-                    .is_none()
-                {
-                    changeset.ops.push(Op {
-                        id: our_child.id(),
-                        instruction: Instruction::DeleteEl,
-                    })
-                }
-            }
-        } else {
-            let self_len = self.children.len();
-            let other_len = other.children.len();
+    /// Generates all the new elements (the ones that exist for them, but not for us).
+    fn diff_additions<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+        let mut changeset = Changeset::empty();
+        let children = self.pair_children(other);
 
-            #[allow(clippy::comparison_chain)]
-            if self_len == other_len {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-                // we are done
-            } else if self_len > other_len {
-                for el in self.children[other_len..].iter() {
-                    changeset.ops.push(Op {
-                        id: el.id(),
-                        instruction: Instruction::DeleteEl,
-                    })
-                }
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-            } else {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-                // add all the elements that they have, but we don't
-                for el in other.children[self_len..].iter() {
-                    changeset.ops.extend(el.create_from_scratch(Some(self)));
-                }
-            }
+        for (my_child, their_child) in children.kept {
+            changeset.extend(my_child.diff_additions(their_child));
+        }
+        for their_child in children.added {
+            changeset.extend(their_child.create_from_scratch(Some(other)));
         }
 
         changeset
@@ -303,3 +338,11 @@ impl Element {
         self.children.iter().all(|el| el.key.is_some())
     }
 }
+
+/// Which children of two nodes belong to each other.
+#[derive(Default)]
+struct PairedChildren<'a> {
+    kept: Vec<(&'a Element, &'a Element)>,
+    removed: Vec<&'a Element>,
+    added: Vec<&'a Element>,
+}
-- 
2.43.0


From 9a69c7204cd2cd62bbfeee06e1be5a0494987c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 22/27] fix: attribute values and listener names may contain a
 "+"

---
 puck_liveview/client/index.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c356ddd..6f8ac5e 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -16,10 +16,10 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
             console.log(document.getElementById(data.el));
-            let split = data["payload"].split("+");
-            console.log(split[1]);
+            // the value might contain a "+"
+            let split = data["payload"].indexOf("+");
             let el = document.getElementById(data.el);
-            el.setAttribute(split[0], split[1]);
+            el.setAttribute(data["payload"].slice(0, split), data["payload"].slice(split + 1));
         } else if (data.ty == "removeAttr") {
             document.getElementById(data.el).removeAttribute(data.payload);
         } else if (data.ty === "setTagName") {
@@ -37,7 +37,9 @@ ws.onmessage = (msg) => {
             console.log(data);
             document.getElementById(data["el"]).textContent = data["payload"];
         } else if (data.ty === "attachListener") {
-            let split = data.payload.split("+");
+            // the name might contain a "+"
+            let at = data.payload.lastIndexOf("+");
+            let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
             document.getElementById(data.el).addEventListener(split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
-- 
2.43.0


From 903ffd17acb184ae11883e73840ce5b0f4124ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 23/27] fix: changing the text of an element keeps its
 children, and removing it works

---
 puck_liveview/client/index.js | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 6f8ac5e..94fa6e0 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,15 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// The text of an element comes before its children.
+function setText(el, text) {
+    while (el.firstChild && el.firstChild.nodeType === 3) {
+        el.removeChild(el.firstChild);
+    }
+    if (text !== "") {
+        el.insertBefore(document.createTextNode(text), el.firstChild);
+    }
+}
+
 ws.onmessage = (msg) => {
     let data = JSON.parse(msg.data);
     data.map((data) => {
@@ -35,7 +45,9 @@ ws.onmessage = (msg) => {
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            document.getElementById(data["el"]).textContent = data["payload"];
+            setText(document.getElementById(data["el"]), data["payload"]);
+        } else if (data.ty === "removeText") {
+            setText(document.getElementById(data["el"]), "");
         } else if (data.ty === "attachListener") {
             // the name might contain a "+"
             let at = data.payload.lastIndexOf("+");
-- 
2.43.0


From 8503846e4ded1b39204680b68ff59a4624ec24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 24/27] fix: changing the tag or listeners of an element keeps
 what is below it

---
 puck_liveview/client/index.js | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 94fa6e0..d8a7415 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,16 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// the listeners attached to each element, as [event, function]
+let listeners = new WeakMap();
+
+function addListener(el, event, call) {
+    if (!listeners.has(el)) {
+        listeners.set(el, []);
+    }
+    listeners.get(el).push([event, call]);
+    el.addEventListener(event, call);
+}
+
 // The text of an element comes before its children.
 function setText(el, text) {
     while (el.firstChild && el.firstChild.nodeType === 3) {
@@ -35,7 +46,12 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setTagName") {
             let old_tag = document.getElementById(data.el);
             let new_tag = document.createElement(data.payload);
-            new_tag.innerHTML = old_tag.innerHTML;
+            while (old_tag.firstChild) {
+                new_tag.appendChild(old_tag.firstChild);
+            }
+            for (let [event, call] of listeners.get(old_tag) || []) {
+                addListener(new_tag, event, call);
+            }
             for (var i = 0, l = old_tag.attributes.length; i < l; ++i) {
                 let name = old_tag.attributes.item(i).nodeName;
                 var value = old_tag.attributes.item(i).nodeValue;
@@ -52,7 +68,7 @@ ws.onmessage = (msg) => {
             // the name might contain a "+"
             let at = data.payload.lastIndexOf("+");
             let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
-            document.getElementById(data.el).addEventListener(split[1], function (e) {
+            addListener(document.getElementById(data.el), split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
                 console.log(data);
@@ -76,9 +92,11 @@ ws.onmessage = (msg) => {
                 }
             })
         } else if (data.ty === "removeListeners") {
-            let old = document.getElementById(data.el);
-            let new_el = old.cloneNode(true);
-            old.parentNode.replaceChild(new_el, old);
+            let el = document.getElementById(data.el);
+            for (let [event, call] of listeners.get(el) || []) {
+                el.removeEventListener(event, call);
+            }
+            listeners.delete(el);
         } else if (data.ty === "deleteEl") {
             let el = document.getElementById(data.el);
             console.log("deleting");
-- 
2.43.0


From bc4f80798c56b4e45366e58d88c4ed2e6fca2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 25/27] fix: select and noscript nodes become elements with
 their own tag

---
 puck_liveview/src/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index b064502..1a31400 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -145,7 +145,7 @@ impl WrappedBodyNode {
                 let select = select.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("select"),
                     attributes: select.attrs,
                     listeners: self.listeners,
                     children: self
@@ -162,7 +162,7 @@ impl WrappedBodyNode {
                 let noscript = noscript.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("noscript"),
                     attributes: HashMap::new(),
                     listeners: vec![],
                     children: vec![],
-- 
2.43.0


From 06af825ee2fe6f53923d0bfa8189364a14e9804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 26/27] fix: write a WebSocket frame at once, so that no other
 frame ends up inside it

---
 puck/src/ws/send.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index cd329a5..4300029 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -10,8 +10,12 @@ pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameErro
 }
 
 pub(crate) fn send_frame(mut stream: impl Write, frame: Frame) -> Result<(), SendFrameError> {
-    frame.format(&mut stream)?;
-    stream.write_all(frame.decoded())?;
+    // the frame is written at once, so that a frame which another process sends at the same time (e.g.
+    // to answer a ping) does not end up inside it
+    let mut bytes = Vec::with_capacity(frame.decoded().len() + 10);
+    frame.format(&mut bytes)?;
+    bytes.extend_from_slice(frame.decoded());
+    stream.write_all(&bytes)?;
 
     Ok(())
 }
-- 
2.43.0


From a0ba4bd2b92f8be8fc631dc71e7bfeab15202336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 27/27] fix: the process which passes on a component's inputs
 outlived the connection

Every page that was ever shown left a process (a file descriptor and gigabytes
of reserved address space) behind, until the server could take no more
connections.
---
 puck_liveview/src/component/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 99ee140..f4f69bb 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -66,7 +66,8 @@ where
 
             process.send(WsOrInput::WhoAmI(mailbox.this()));
 
-            Process::spawn(
+            // linked, so that this process does not outlive the connection
+            Process::spawn_link(
                 (stream, process.clone()),
                 |(websocket, process), _: Mailbox<()>| {
                     for msg in websocket {
@@ -76,6 +77,8 @@ where
                             break;
                         }
                     }
+                    // only a process that fails ends those which are linked to it
+                    std::process::abort();
                 },
             );
 
-- 
2.43.0

