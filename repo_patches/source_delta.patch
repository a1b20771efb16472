From 99f8d1f3c7272ea1bcc2e1ba0437936190b4d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 01/13] fix: import WorkspaceDiagnosticRefresh so that the
 crate compiles

Client::workspace_diagnostic_refresh() names a request type that is not in scope (lsp_types 0.94.1
only has it in its request module), so the crate as a whole does not build.
---
 src/service/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/service/client.rs b/src/service/client.rs
index dd7e843..41bfe02 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -347,6 +347,7 @@ impl Client {
     ///
     /// This request was introduced in specification version 3.17.0.
     pub async fn workspace_diagnostic_refresh(&self) -> jsonrpc::Result<()> {
+        use lsp_types::request::WorkspaceDiagnosticRefresh;
         self.send_request::<WorkspaceDiagnosticRefresh>(()).await
     }
 
-- 
2.43.0


From 374780294f8a0545a89783bfabf98334c61f12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 02/13] fix: keep decoding after a zero-length message

---
 src/codec.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 7d1d896..2b6a7ea 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -162,11 +162,8 @@ fn number_of_digits(mut n: usize) -> usize {
     num_digits
 }
 
-impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
-    type Item = T;
-    type Error = ParseError;
-
-    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+impl<T: DeserializeOwned> LanguageServerCodec<T> {
+    fn decode_message(&mut self, src: &mut BytesMut) -> Result<Option<T>, ParseError> {
         if let Some(content_len) = self.content_len {
             if src.len() < content_len {
                 return Ok(None);
@@ -201,7 +198,7 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                 Ok(content_len) => {
                     src.advance(headers_len);
                     self.content_len = Some(content_len);
-                    self.decode(src) // Recurse right back in, now that `Content-Length` is known.
+                    self.decode_message(src) // Recurse right back in, now that `Content-Length` is known.
                 }
                 Err(err) => {
                     match err {
@@ -218,6 +215,22 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     }
 }
 
+impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
+    type Item = T;
+    type Error = ParseError;
+
+    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        loop {
+            let available = src.len();
+            match self.decode_message(src)? {
+                // Skipped over a zero-length message, another one may be available already.
+                None if self.content_len.is_none() && src.len() < available => continue,
+                result => return Ok(result),
+            }
+        }
+    }
+}
+
 fn decode_headers(headers: &[httparse::Header<'_>]) -> Result<usize, ParseError> {
     let mut content_len = None;
 
-- 
2.43.0


From c717ed795998cbba59e648ef9b420433dcd94d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 03/13] fix: skip message bodies which are not valid UTF-8

---
 src/codec.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 2b6a7ea..e1a4285 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -170,16 +170,16 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
             }
 
             let bytes = &src[..content_len];
-            let message = std::str::from_utf8(bytes)?;
-
-            let result = if message.is_empty() {
-                Ok(None)
-            } else {
-                trace!("<- {}", message);
-                match serde_json::from_str(message) {
-                    Ok(parsed) => Ok(Some(parsed)),
-                    Err(err) => Err(err.into()),
+            let result = match std::str::from_utf8(bytes) {
+                Ok("") => Ok(None),
+                Ok(message) => {
+                    trace!("<- {}", message);
+                    match serde_json::from_str(message) {
+                        Ok(parsed) => Ok(Some(parsed)),
+                        Err(err) => Err(err.into()),
+                    }
                 }
+                Err(err) => Err(err.into()),
             };
 
             src.advance(content_len);
-- 
2.43.0


From 974f13cc7c9916752c64d3c5e7d7d3f953bcd908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 04/13] fix: make progress past headers which cannot be parsed

---
 src/codec.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index e1a4285..7e9b0f5 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -189,9 +189,13 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
         } else {
             let mut dst = [httparse::EMPTY_HEADER; 2];
 
-            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst)? {
-                httparse::Status::Complete(output) => output,
-                httparse::Status::Partial => return Ok(None),
+            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst) {
+                Ok(httparse::Status::Complete(output)) => output,
+                Ok(httparse::Status::Partial) => return Ok(None),
+                Err(err) => {
+                    skip_garbage(src, 1);
+                    return Err(err.into());
+                }
             };
 
             match decode_headers(headers) {
@@ -202,12 +206,10 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
                 }
                 Err(err) => {
                     match err {
-                        ParseError::MissingContentLength => {}
-                        _ => src.advance(headers_len),
+                        ParseError::MissingContentLength => skip_garbage(src, 1),
+                        _ => skip_garbage(src, headers_len),
                     }
 
-                    // Skip any garbage bytes by scanning ahead for another potential message.
-                    src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
                     Err(err)
                 }
             }
@@ -231,6 +233,19 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     }
 }
 
+/// Discards at least `min` garbage bytes, up to the start of another potential message.
+fn skip_garbage(src: &mut BytesMut, min: usize) {
+    const START: &[u8] = b"Content-Length";
+
+    src.advance(min);
+    let garbage_len = memmem::find(src, START).unwrap_or_else(|| {
+        // Keep any trailing bytes which may turn out to begin a message once more is received.
+        let is_partial_start = |&n: &usize| src.ends_with(&START[..n]);
+        src.len() - (1..START.len()).rev().find(is_partial_start).unwrap_or(0)
+    });
+    src.advance(garbage_len);
+}
+
 fn decode_headers(headers: &[httparse::Header<'_>]) -> Result<usize, ParseError> {
     let mut content_len = None;
 
-- 
2.43.0


From 8893486ad4ff1525dce5a487dbf3642609ace9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 05/13] fix: keep reading after a malformed message

---
 src/transport.rs | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index a8bda1d..6f3f1a9 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,15 +1,16 @@
 //! Generic server for multiplexing bidirectional streams through a transport.
 
 #[cfg(feature = "runtime-agnostic")]
-use async_codec_lite::{FramedRead, FramedWrite};
+use async_codec_lite::{Decoder, FramedRead, FramedWrite};
 #[cfg(feature = "runtime-agnostic")]
 use futures::io::{AsyncRead, AsyncWrite};
 
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncRead, AsyncWrite};
 #[cfg(feature = "runtime-tokio")]
-use tokio_util::codec::{FramedRead, FramedWrite};
+use tokio_util::codec::{Decoder, FramedRead, FramedWrite};
 
+use bytes::BytesMut;
 use futures::channel::mpsc;
 use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
@@ -110,7 +111,8 @@ where
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
-        let mut framed_stdin = FramedRead::new(self.stdin, LanguageServerCodec::default());
+        let mut framed_stdin =
+            FramedRead::new(self.stdin, Resilient(LanguageServerCodec::default()));
         let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
 
         let process_server_tasks = server_tasks_rx
@@ -128,7 +130,7 @@ where
         let read_input = async {
             while let Some(msg) = framed_stdin.next().await {
                 match msg {
-                    Ok(Message::Request(req)) => {
+                    Ok(Ok(Message::Request(req))) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
                             return;
@@ -141,17 +143,22 @@ where
 
                         server_tasks_tx.send(fut).await.unwrap();
                     }
-                    Ok(Message::Response(res)) => {
+                    Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
                             return;
                         }
                     }
-                    Err(err) => {
+                    Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
                         responses_tx.send(Message::Response(res)).await.unwrap();
                     }
+                    Err(err) => {
+                        error!("failed to read message: {}", err);
+                        let res = Response::from_error(Id::Null, Error::parse_error());
+                        responses_tx.send(Message::Response(res)).await.unwrap();
+                    }
                 }
             }
 
@@ -172,18 +179,23 @@ fn display_sources(error: &dyn std::error::Error) -> String {
     }
 }
 
-#[cfg(feature = "runtime-tokio")]
-fn to_jsonrpc_error(err: ParseError) -> Error {
-    match err {
-        ParseError::Body(err) if err.is_data() => Error::invalid_request(),
-        _ => Error::parse_error(),
+/// Decoder which yields malformed messages as items.
+///
+/// [`FramedRead`] ends as soon as its decoder returns an error, but these are recoverable.
+struct Resilient<D>(D);
+
+impl<D: Decoder<Error = ParseError>> Decoder for Resilient<D> {
+    type Item = Result<D::Item, ParseError>;
+    type Error = ParseError;
+
+    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        Ok(self.0.decode(src).transpose())
     }
 }
 
-#[cfg(feature = "runtime-agnostic")]
-fn to_jsonrpc_error(err: impl std::error::Error) -> Error {
-    match err.source().and_then(|e| e.downcast_ref()) {
-        Some(ParseError::Body(err)) if err.is_data() => Error::invalid_request(),
+fn to_jsonrpc_error(err: ParseError) -> Error {
+    match err {
+        ParseError::Body(err) if err.is_data() => Error::invalid_request(),
         _ => Error::parse_error(),
     }
 }
-- 
2.43.0


From 36ed9c20cd19fedc1ef8963c865721128c4a4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 06/13] fix: finish serving after the service or the socket has
 exited

---
 src/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 6f3f1a9..c875d02 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -133,7 +133,7 @@ where
                     Ok(Ok(Message::Request(req))) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
-                            return;
+                            break;
                         }
 
                         let fut = service.call(req).unwrap_or_else(|err| {
@@ -146,7 +146,7 @@ where
                     Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
-                            return;
+                            break;
                         }
                     }
                     Ok(Err(err)) => {
-- 
2.43.0


From 757ae0378308b3a6df7038cea1ba11d47998fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 07/13] fix: do not panic when the output fails

---
 src/transport.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index c875d02..323bbe6 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -119,7 +119,11 @@ where
             .buffer_unordered(self.max_concurrency)
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
-            .forward(responses_tx.clone().sink_map_err(|_| unreachable!()))
+            .forward(
+                responses_tx
+                    .clone()
+                    .sink_map_err(|_| error!("failed to send response")),
+            )
             .map(|_| ());
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
@@ -141,7 +145,9 @@ where
                             None
                         });
 
-                        server_tasks_tx.send(fut).await.unwrap();
+                        if server_tasks_tx.send(fut).await.is_err() {
+                            break; // The output has failed.
+                        }
                     }
                     Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
@@ -152,12 +158,16 @@ where
                     Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break; // The output has failed.
+                        }
                     }
                     Err(err) => {
                         error!("failed to read message: {}", err);
                         let res = Response::from_error(Id::Null, Error::parse_error());
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break; // The output has failed.
+                        }
                     }
                 }
             }
-- 
2.43.0


From 57cf61d3d11de60d97e00606b899b3a4cd01419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 08/13] fix: ignore responses to abandoned client requests

---
 src/service/client/pending.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index af7ad06..197d116 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -32,7 +32,9 @@ impl Pending {
                         _ => entry.get_mut().remove(0),
                     };
 
-                    tx.send(r).expect("receiver already dropped");
+                    if let Err(r) = tx.send(r) {
+                        warn!("received response to abandoned request: {}", r.id());
+                    }
                 }
             },
         }
-- 
2.43.0


From dbcde6c0b995c1007d5aa67648165024b3a899a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 09/13] fix: forward client messages until all handlers have
 finished

---
 src/transport.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 323bbe6..809b66f 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -124,7 +124,7 @@ where
                     .clone()
                     .sink_map_err(|_| error!("failed to send response")),
             )
-            .map(|_| ());
+            .map(|_| client_abort.abort()); // Handlers may send messages until they are finished.
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
             .map(Ok)
@@ -174,7 +174,6 @@ where
 
             server_tasks_tx.disconnect();
             responses_tx.disconnect();
-            client_abort.abort();
         };
 
         join!(print_output, read_input, process_server_tasks);
-- 
2.43.0


From 9fcf9d373181a18f5825dc4bdea85382f87245b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 10/13] fix: run one initialize request at a time and never
 leave the exited state

---
 src/service.rs        |  1 -
 src/service/layers.rs | 36 ++++++++++++++++++++++++++++++++----
 src/service/state.rs  |  7 +++++++
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 9c3c759..3c99a62 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -107,7 +107,6 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         match self.state.get() {
-            State::Initializing => Poll::Pending,
             State::Exited => Poll::Ready(Err(ExitedError(()))),
             _ => self.inner.poll_ready(cx),
         }
diff --git a/src/service/layers.rs b/src/service/layers.rs
index 512ed00..787601f 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -62,16 +62,20 @@ where
     }
 
     fn call(&mut self, req: Request) -> Self::Future {
-        if self.state.get() == State::Uninitialized {
-            let state = self.state.clone();
+        let guard = match req.id() {
+            Some(_) => InitializingGuard::new(&self.state),
+            None => None,
+        };
+
+        if let Some(guard) = guard {
             let fut = self.inner.call(req);
 
             Box::pin(async move {
                 let response = fut.await?;
 
                 match &response {
-                    Some(res) if res.is_ok() => state.set(State::Initialized),
-                    _ => state.set(State::Uninitialized),
+                    Some(res) if res.is_ok() => guard.initialized(),
+                    _ => drop(guard),
                 }
 
                 Ok(response)
@@ -84,6 +88,30 @@ where
     }
 }
 
+/// Leaves the `Initializing` state once the `initialize` request is finished or dropped.
+///
+/// This has no effect if the server has exited in the meantime.
+struct InitializingGuard(Arc<ServerState>);
+
+impl InitializingGuard {
+    /// Enters the `Initializing` state, if the server is not initialized or initializing yet.
+    fn new(state: &Arc<ServerState>) -> Option<Self> {
+        state
+            .transition(State::Uninitialized, State::Initializing)
+            .then(|| InitializingGuard(state.clone()))
+    }
+
+    fn initialized(self) {
+        self.0.transition(State::Initializing, State::Initialized);
+    }
+}
+
+impl Drop for InitializingGuard {
+    fn drop(&mut self) {
+        self.0.transition(State::Initializing, State::Uninitialized);
+    }
+}
+
 /// Middleware which implements `shutdown` request semantics.
 ///
 /// # Specification
diff --git a/src/service/state.rs b/src/service/state.rs
index e404e8d..9b4a753 100644
--- a/src/service/state.rs
+++ b/src/service/state.rs
@@ -31,6 +31,13 @@ impl ServerState {
         self.0.store(state as u8, Ordering::SeqCst);
     }
 
+    /// Switches from state `from` to state `to`, returns whether the state was `from`.
+    pub fn transition(&self, from: State, to: State) -> bool {
+        self.0
+            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst)
+            .is_ok()
+    }
+
     pub fn get(&self) -> State {
         match self.0.load(Ordering::SeqCst) {
             0 => State::Uninitialized,
-- 
2.43.0


From 450d76128a95ff95c485419c2a2adeb2362fcca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 11/13] fix: do not drop error responses of handlers whose data
 starts with `$/`

---
 src/service.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 3c99a62..a9f3490 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -117,6 +117,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
             return future::err(ExitedError(())).boxed();
         }
 
+        let method = req.method().to_owned();
         let fut = self.inner.call(req);
 
         Box::pin(async move {
@@ -127,7 +128,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
                     code: ErrorCode::MethodNotFound,
                     data: Some(Value::String(m)),
                     ..
-                }) if m.starts_with("$/") => Ok(None),
+                }) if m.starts_with("$/") && *m == method => Ok(None),
                 _ => Ok(response),
             }
         })
-- 
2.43.0


From e5fb95bc8ceda59ed84865ed3d5bb917d9590b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:41 +0000
Subject: [PATCH 12/13] fix: release senders waiting for the client channel
 once exited

A handler waiting in the client channel when exit arrived was never woken,
so the server did not return even after its input had ended.
---
 src/service/client/socket.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/service/client/socket.rs b/src/service/client/socket.rs
index 5006895..19c8912 100644
--- a/src/service/client/socket.rs
+++ b/src/service/client/socket.rs
@@ -43,6 +43,7 @@ impl Stream for ClientSocket {
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         if self.state.get() == State::Exited || self.rx.is_terminated() {
+            self.rx.close(); // Releases the senders still waiting for capacity.
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
@@ -99,6 +100,7 @@ impl Stream for RequestStream {
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         if self.state.get() == State::Exited || self.rx.is_terminated() {
+            self.rx.close(); // Releases the senders still waiting for capacity.
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
-- 
2.43.0


From 96b7fb31910d6ee0e633374bf4f88f5aa000bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 13/13] fix: keep the id of a cancelled request in use until it
 is answered

---
 src/service/pending.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service/pending.rs b/src/service/pending.rs
index f0c446f..b3fd082 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -57,7 +57,9 @@ impl Pending {
     /// This will force the future to resolve to a "canceled" error response. If the future has
     /// already completed, this method call will do nothing.
     pub fn cancel(&self, id: &Id) {
-        if let Some((_, handle)) = self.0.remove(id) {
+        // The ID remains in use until the request has been answered, see `execute()` above.
+        let handle = self.0.get(id).map(|entry| entry.value().clone());
+        if let Some(handle) = handle {
             handle.abort();
             info!("successfully cancelled request with ID: {}", id);
         } else {
-- 
2.43.0

