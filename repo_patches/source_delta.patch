From 32aeae8484cfa573a0086ec524410b295399d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 01/17] fix: append to the partial frame when reading more of
 it

---
 app/roster/src/application/server/connection.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/connection.rs b/app/roster/src/application/server/connection.rs
index 7341ae6..8a49b31 100644
--- a/app/roster/src/application/server/connection.rs
+++ b/app/roster/src/application/server/connection.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::io::{self, Cursor};
 
 use bytes::BytesMut;
+use monoio::buf::IoBufMut;
 use monoio::io::{
     AsyncReadRent, BufReader, BufWriter, OwnedReadHalf, OwnedWriteHalf,
     Splitable,
@@ -63,9 +64,15 @@ impl ReadConnection {
             let mut in_going = BytesMut::new();
             std::mem::swap(&mut self.buffer, &mut in_going);
 
+            // A read fills the buffer it is given from its start: only hand it
+            // the spare capacity after the part of a frame we already have.
+            let filled = in_going.len();
+            in_going.reserve(1024);
+
             // TODO: Timeout
-            let (size, buf) = self.stream_r.read(in_going).await;
-            self.buffer = buf;
+            let (size, buf) =
+                self.stream_r.read(in_going.slice_mut(filled..)).await;
+            self.buffer = buf.into_inner();
 
             // There is not enough buffered data to read a frame. Attempt to
             // read more data from the socket.
-- 
2.43.0


From 621c222a922beffd7653bb67038550775c2e5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 02/17] fix: write every reply whole, whatever its size and
 however little the socket accepts

---
 .../src/application/server/connection.rs      | 29 +++++++++---------
 .../src/application/server/frame/write.rs     | 30 ++++++++++++++++++-
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/app/roster/src/application/server/connection.rs b/app/roster/src/application/server/connection.rs
index 8a49b31..30e9868 100644
--- a/app/roster/src/application/server/connection.rs
+++ b/app/roster/src/application/server/connection.rs
@@ -4,12 +4,12 @@ use std::io::{self, Cursor};
 use bytes::BytesMut;
 use monoio::buf::IoBufMut;
 use monoio::io::{
-    AsyncReadRent, BufReader, BufWriter, OwnedReadHalf, OwnedWriteHalf,
-    Splitable,
+    AsyncReadRent, AsyncWriteRent, AsyncWriteRentExt, BufReader, OwnedReadHalf,
+    OwnedWriteHalf, Splitable,
 };
 use monoio::net::TcpStream;
 
-use super::frame::write::write_frame;
+use super::frame::write::{write_frame, EncodeBuffer};
 use super::frame::Frame;
 
 /// Send and receive `Frame` values from a remote peer.
@@ -25,9 +25,9 @@ use super::frame::Frame;
 /// When sending frames, the frame is first encoded into the write buffer.
 /// The contents of the write buffer are then written to the socket.
 pub struct WriteConnection {
-    // The `TcpStream`. It is decorated with a `BufWriter`, which provides
-    // write level buffering.
-    stream_w: BufWriter<OwnedWriteHalf<TcpStream>>,
+    // The writing half of the `TcpStream`. Frames are encoded in memory first
+    // and written as a whole.
+    stream_w: OwnedWriteHalf<TcpStream>,
 }
 
 pub struct ReadConnection {
@@ -168,7 +168,7 @@ impl WriteConnection {
 
         (
             WriteConnection {
-                stream_w: BufWriter::new(write),
+                stream_w: write,
             },
             ReadConnection {
                 stream_r: BufReader::new(read),
@@ -179,18 +179,17 @@ impl WriteConnection {
 
     /// Write a single `Frame` value to the underlying stream.
     ///
-    /// The `Frame` value is written to the socket using the various `write_*`
-    /// functions provided by `AsyncWrite`. Calling these functions directly on
-    /// a `TcpStream` is **not** advised, as this will result in a large number
-    /// of syscalls. However, it is fine to call these functions on a
-    /// *buffered* write stream. The data will be written to the buffer.
-    /// Once the buffer is full, it is flushed to the underlying socket.
+    /// The `Frame` value is encoded in memory, then the whole of it is written
+    /// to the socket, however little of it the socket accepts at once.
     pub async fn write_frame(&mut self, frame: &Frame) -> io::Result<()> {
-        write_frame(&mut self.stream_w, frame).await
+        let mut encoded = EncodeBuffer::default();
+        write_frame(&mut encoded, frame).await?;
+        self.stream_w.write_all(encoded.0).await.0?;
+        self.stream_w.flush().await
     }
 
     pub fn into_inner(self) -> OwnedWriteHalf<TcpStream> {
-        self.stream_w.into_inner()
+        self.stream_w
     }
 
     pub fn reunite(self, read: ReadConnection) -> TcpStream {
diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index 6b869f4..2b4ff88 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -1,11 +1,39 @@
 use std::io;
 use std::io::Cursor;
 
-use monoio::buf::IoBuf;
+use monoio::buf::{IoBuf, IoVecBuf};
 use monoio::io::AsyncWriteRent;
+use monoio::BufResult;
 
 use crate::application::server::frame::Frame;
 
+/// An in-memory writer, which accepts everything it is given.
+#[derive(Default)]
+pub struct EncodeBuffer(pub Vec<u8>);
+
+impl AsyncWriteRent for EncodeBuffer {
+    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        let len = buf.bytes_init();
+        // SAFETY: an `IoBuf` has `bytes_init` initialized bytes.
+        self.0.extend_from_slice(unsafe {
+            std::slice::from_raw_parts(buf.read_ptr(), len)
+        });
+        (Ok(len), buf)
+    }
+
+    async fn writev<T: IoVecBuf>(&mut self, buf_vec: T) -> BufResult<usize, T> {
+        (Err(io::ErrorKind::Unsupported.into()), buf_vec)
+    }
+
+    async fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+
+    async fn shutdown(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
 /// Write a decimal value
 async fn write_decimal(
     buf_w: &mut impl AsyncWriteRent,
-- 
2.43.0


From ba66906c237c604ccd43f4fdc1e14d8373772e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 03/17] fix: a connection error ends that connection only,
 answers what it received, and is forgotten

---
 app/roster/src/application/server/handle.rs    | 18 +++++++++---------
 .../src/application/server/server_thread.rs    | 14 ++++++++------
 .../src/application/server/supervisor/mod.rs   |  5 +++++
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 8a9c78c..67de0fd 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -82,7 +82,10 @@ impl Handler {
                         None => return Ok::<_, anyhow::Error>(()),
                     };
 
-                    tx.send(frame).unwrap();
+                    // Nobody answers on this connection anymore.
+                    if tx.send(frame).is_err() {
+                        return Ok(());
+                    }
                 }
             };
 
@@ -170,13 +173,10 @@ impl Handler {
             Ok::<_, anyhow::Error>(())
         });
 
-        monoio::select! {
-            r = accepting_frames_handle => {
-                r
-            }
-            r = answer_in_order_handle => {
-                r
-            }
-        }
+        // Every frame received is answered, even if the stream has ended since;
+        // when answering ends, reading does too, as its shutdown channel closes.
+        let answered = answer_in_order_handle.await;
+        let read = accepting_frames_handle.await;
+        answered.and(read)
     }
 }
diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 4e184d7..36f698a 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -93,8 +93,11 @@ impl ServerMonoThreadedHandle {
                     let supervisor = self.supervisor.clone();
 
                     conn.set_nodelay(true).unwrap();
-                    let ctx =
-                        Context::new(storage, supervisor, meta_conn.clone());
+                    let ctx = Context::new(
+                        storage,
+                        supervisor.clone(),
+                        meta_conn.clone(),
+                    );
 
                     // We map it to an `Handler` which is able to understand
                     // the Redis protocol
@@ -108,14 +111,13 @@ impl ServerMonoThreadedHandle {
                             shard,
                         };
 
+                        // An error ends this connection and nothing else.
                         if let Err(err) = handler.run(ctx).await {
-                            dbg!(err.backtrace());
-                            dbg!(&err);
-                            // error!(?err);
-                            panic!("blbl");
+                            tracing::debug!(?err, "connection ended");
                         }
 
                         meta_conn.stop();
+                        supervisor.remove_connection(meta_conn.id());
                         // handler.connection.stop().await.unwrap();
                     });
                 }
diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c5f59fe..e023a36 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -64,6 +64,11 @@ impl Supervisor {
         conn
     }
 
+    /// Forget a connection which is over.
+    pub fn remove_connection(&self, id: u64) {
+        self.current_connections.remove(&id);
+    }
+
     /// Get the list of [MetadataConnection] for normal connection.
     pub async fn get_normal_connection(&self) -> Vec<Arc<MetadataConnection>> {
         let mut result = Vec::new();
-- 
2.43.0


From 279476e0f01a898845d4751773084f34b8ac1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 04/17] fix: set a key in one step, so that a concurrent
 removal cannot lose it

---
 app/roster/src/domain/storage/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index c02d037..a86616e 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -84,11 +84,14 @@ impl StorageSegment {
             dbg!(old);
         }
 
-        if let Err((key, val)) = self.db.insert(key, val) {
-            let old = self.db.update(&key, |_, _| val);
-            Ok(old)
-        } else {
-            Ok(None)
+        match self.db.entry(key) {
+            scc::hash_map::Entry::Occupied(mut oqp) => {
+                Ok(Some(oqp.insert(val)))
+            }
+            scc::hash_map::Entry::Vacant(vacant) => {
+                vacant.insert_entry(val);
+                Ok(None)
+            }
         }
     }
 
-- 
2.43.0


From db75ee6c99a2f7781af445fd888e9e5ce38d8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 05/17] fix: keep the error for an unknown command on one line

---
 app/roster/src/application/server/cmd/unknown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/unknown.rs b/app/roster/src/application/server/cmd/unknown.rs
index b9e0dc8..a6b9747 100644
--- a/app/roster/src/application/server/cmd/unknown.rs
+++ b/app/roster/src/application/server/cmd/unknown.rs
@@ -28,9 +28,10 @@ impl CommandExecution for Unknown {
         dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
+        // An error is a single line.
         let response = Frame::Error(ByteString::from(format!(
             "ERR unknown command '{}'",
-            self.command_name
+            self.command_name.replace(['\r', '\n'], " ")
         )));
 
         info!(?response);
-- 
2.43.0


From e7ad4a3cf2d0bfcb3cb7109c50de4aaa62770bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 06/17] fix: refuse client names that would break the client
 listing

---
 .../src/application/server/cmd/client/set_name.rs   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/set_name.rs b/app/roster/src/application/server/cmd/client/set_name.rs
index 5f1929d..9ea9a8b 100644
--- a/app/roster/src/application/server/cmd/client/set_name.rs
+++ b/app/roster/src/application/server/cmd/client/set_name.rs
@@ -52,9 +52,16 @@ impl ClientSetName {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        ctx.connection.set_name(self.name).await;
-
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        // A name is shown as a field of a line.
+        let response = if self.name.bytes().all(|b| b.is_ascii_graphic()) {
+            ctx.connection.set_name(self.name).await;
+            Frame::Simple(ByteString::from_static("OK"))
+        } else {
+            Frame::Error(ByteString::from_static(
+                "ERR Client names cannot contain spaces, newlines or special \
+                 characters.",
+            ))
+        };
         dst.write_frame(&response).await?;
 
         Ok(())
-- 
2.43.0


From 440ac47ddd5304bc5f1700f21e9f1017cab69f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 07/17] fix: an empty client name clears it

---
 app/roster/src/application/server/supervisor/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index e023a36..e8092d0 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -119,10 +119,10 @@ impl MetadataConnection {
             .store(true, std::sync::atomic::Ordering::Relaxed);
     }
 
-    /// Set the name of the connection
+    /// Set the name of the connection, an empty name clears it.
     pub async fn set_name(&self, name: ByteString) {
         let mut lock = self.name.write().await;
-        *lock = Some(name);
+        *lock = Some(name).filter(|name| !name.is_empty());
     }
 
     /// Set the name of the connection
-- 
2.43.0


From 7070da6553c429122aef6268254b373f0744167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 08/17] fix: answer ACL CAT with an error instead of panicking

---
 app/roster/src/application/server/cmd/acl/cat.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index b989834..519217b 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -3,6 +3,7 @@ use bytestring::ByteString;
 use super::super::parse::Parse;
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
+use crate::application::server::frame::Frame;
 
 /// The command shows the available ACL categories if called without arguments.
 /// If a category name is given, the command shows all the Redis commands in the
@@ -54,15 +55,13 @@ impl AclCat {
     /// to execute a received command.
     pub(crate) async fn apply(
         self,
-        _dst: &mut WriteConnection,
+        dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
-        unimplemented!()
-
-        /*
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        let response = Frame::Error(ByteString::from_static(
+            "ERR ACL CAT is not supported yet",
+        ));
         dst.write_frame(&response).await?;
         Ok(())
-        */
     }
 }
-- 
2.43.0


From 567646d27204e631204a12e783ef4792290ed422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 09/17] fix: errors while accepting a connection do not stop
 the server

---
 .../src/application/server/server_thread.rs   | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 36f698a..e86a8d1 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,6 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
 use std::thread::JoinHandle;
+use std::time::Duration;
 
 use monoio::net::{ListenerConfig, TcpListener};
 
@@ -80,19 +81,29 @@ impl ServerMonoThreadedHandle {
                     let shard = shard.clone();
 
                     // We accept the TCP Connection
-                    let (conn, addr) = listener
-                        .accept()
-                        .await
-                        .expect("Unable to accept connections");
+                    let (conn, addr) = match listener.accept().await {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            // Aborted connection, no descriptor left, ...: try
+                            // again, but not too eagerly.
+                            tracing::warn!(?err, "unable to accept");
+                            monoio::time::sleep(Duration::from_millis(10))
+                                .await;
+                            continue;
+                        }
+                    };
 
-                    let laddr = conn.local_addr()?;
+                    let Ok(laddr) = conn.local_addr() else {
+                        continue;
+                    };
                     let fd = conn.as_raw_fd();
 
                     let meta_conn =
                         self.supervisor.assign_new_connection(addr, laddr, fd);
                     let supervisor = self.supervisor.clone();
 
-                    conn.set_nodelay(true).unwrap();
+                    // Only a latency matter.
+                    let _ = conn.set_nodelay(true);
                     let ctx = Context::new(
                         storage,
                         supervisor.clone(),
-- 
2.43.0


From 7e09d281ae3b5f9af745c25ebe795347df3cda95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 10/17] fix: a very long expiration does not overflow

---
 app/roster/src/application/server/cmd/set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/cmd/set.rs b/app/roster/src/application/server/cmd/set.rs
index 51f1e8c..936138b 100644
--- a/app/roster/src/application/server/cmd/set.rs
+++ b/app/roster/src/application/server/cmd/set.rs
@@ -52,6 +52,10 @@ pub struct Set {
     expire: Option<Duration>,
 }
 
+/// An [Instant](coarsetime::Instant) counts seconds on 32 bits: longer
+/// expirations (68 years) are shortened to that.
+const MAX_EXPIRE: Duration = Duration::from_secs(i32::MAX as u64);
+
 static OK_STR: ByteString = ByteString::from_static("OK");
 
 impl Set {
@@ -124,7 +128,8 @@ impl CommandExecution for Set {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        let expired = self.expire.map(|dur| ctx.now() + dur.into());
+        let expired =
+            self.expire.map(|dur| ctx.now() + dur.min(MAX_EXPIRE).into());
 
         // let now = Instant::now();
         let response = match ctx.storage.set_async(
-- 
2.43.0


From 4e99c3b8d9aeb656b6c366a580521fce67c64c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 11/17] fix: enforce the connection limit

---
 app/roster/src/application/server/mod.rs       | 18 ++++++++++++++++--
 .../src/application/server/server_thread.rs    |  8 ++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index 8ee156f..c012e21 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -1,6 +1,6 @@
 //! The whole redis server implementation is here.
 use std::net::SocketAddr;
-use std::sync::atomic::AtomicU16;
+use std::sync::atomic::{AtomicU16, Ordering};
 use std::sync::Arc;
 use std::thread::JoinHandle;
 
@@ -27,11 +27,25 @@ use crate::infrastructure::hash::HASH_SLOT_MAX;
 #[builder(pattern = "owned", setter(into, strip_option))]
 pub struct ServerConfig {
     bind_addr: SocketAddr,
-    #[allow(dead_code)]
+    /// How many more connections can be served.
     connections_limit: Arc<AtomicU16>,
 }
 
 impl ServerConfig {
+    /// Count a new connection, unless the limit is reached.
+    fn acquire_connection(&self) -> bool {
+        self.connections_limit
+            .fetch_update(Ordering::AcqRel, Ordering::Relaxed, |left| {
+                left.checked_sub(1)
+            })
+            .is_ok()
+    }
+
+    /// A connection counted by `acquire_connection` is over.
+    fn release_connection(&self) {
+        self.connections_limit.fetch_add(1, Ordering::Release);
+    }
+
     /// Initialize a Server by starting the thread for each core and assigning
     /// the storage segment & hash slots based on the configuration.
     pub fn initialize(self) -> ServerHandle {
diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index e86a8d1..90db8dd 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -98,6 +98,13 @@ impl ServerMonoThreadedHandle {
                     };
                     let fd = conn.as_raw_fd();
 
+                    // The limit is shared by every thread: wait for a
+                    // connection to end when it is reached.
+                    while !self.config.acquire_connection() {
+                        monoio::time::sleep(Duration::from_millis(10)).await;
+                    }
+                    let config = self.config.clone();
+
                     let meta_conn =
                         self.supervisor.assign_new_connection(addr, laddr, fd);
                     let supervisor = self.supervisor.clone();
@@ -129,6 +136,7 @@ impl ServerMonoThreadedHandle {
 
                         meta_conn.stop();
                         supervisor.remove_connection(meta_conn.id());
+                        config.release_connection();
                         // handler.connection.stop().await.unwrap();
                     });
                 }
-- 
2.43.0


From b33cbcf5c4f6a0f8528798659d8a9e598e4f788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 12/17] fix: reject frames that would overflow, nest too deep
 or are not valid strings

---
 .../src/application/server/frame/mod.rs       | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index c641924..d797f7d 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -45,9 +45,9 @@ impl core::hash::Hash for Frame {
             Frame::Array(f0) => {
                 f0.hash(ra_expand_state);
             }
-            Frame::Map(_) => {
-                // TODO: Should test the behavior of redis in this case.
-                unimplemented!("")
+            Frame::Map(f0) => {
+                // Two maps are equal whatever the order of their entries.
+                f0.len().hash(ra_expand_state);
             }
         }
     }
@@ -64,9 +64,25 @@ pub enum Error {
     Other(#[from] anyhow::Error),
 }
 
+/// How deep the arrays and maps of a frame can be nested.
+const MAX_DEPTH: usize = 64;
+
+const TOO_LARGE: &str = "protocol error; frame too large";
+
 impl Frame {
     /// Checks if an entire message can be decoded from `src`
     pub fn check(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
+        Frame::check_nested(src, 0)
+    }
+
+    fn check_nested(
+        src: &mut Cursor<&BytesMut>,
+        depth: usize,
+    ) -> Result<(), Error> {
+        if depth > MAX_DEPTH {
+            return Err("protocol error; frame nested too deep".into());
+        }
+
         match get_u8_mut(src)? {
             b'+' => {
                 get_line_mut_no_return(src)?;
@@ -89,14 +105,15 @@ impl Frame {
                     let len: usize = get_decimal_mut(src)?.try_into()?;
 
                     // skip that number of bytes + 2 (\r\n).
-                    skip_mut(src, len + 2)
+                    let n = len.checked_add(2).ok_or(TOO_LARGE)?;
+                    skip_mut(src, n)
                 }
             }
             b'*' => {
                 let len = get_decimal_mut(src)?;
 
                 for _ in 0..len {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth + 1)?;
                 }
 
                 Ok(())
@@ -105,8 +122,8 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 // Key and value frames
-                for _ in 0..(len * 2) {
-                    Frame::check(src)?;
+                for _ in 0..len.checked_mul(2).ok_or(TOO_LARGE)? {
+                    Frame::check_nested(src, depth + 1)?;
                 }
 
                 Ok(())
@@ -125,14 +142,16 @@ impl Frame {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)
+                    .map_err(|_| "protocol error; invalid string")?;
 
                 Ok(Frame::Simple(string))
             }
             b'-' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line)
+                    .map_err(|_| "protocol error; invalid string")?;
 
                 Ok(Frame::Error(string))
             }
-- 
2.43.0


From a06b26d522a2434e38c0da1f8dffe7d73371e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 13/17] fix: list a connection once, even if the table is
 resized meanwhile

---
 app/roster/src/application/server/supervisor/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index e8092d0..678c991 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -84,6 +84,10 @@ impl Supervisor {
             })
             .await;
 
+        // A scan visits an entry again if the map is resized meanwhile.
+        result.sort_unstable_by_key(|conn| conn.id);
+        result.dedup_by_key(|conn| conn.id);
+
         result
     }
 }
-- 
2.43.0


From 7f4ada1d4fbb0f21cac368a3d675bdf84207b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 14/17] fix: settings in the environment override the file

A separator for nested keys also cut BIND_ADDR and MAX_CONNECTION in two, so
that ROSTER_BIND_ADDR and ROSTER_MAX_CONNECTION had no effect.
---
 app/roster/src/infrastructure/config/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/app/roster/src/infrastructure/config/mod.rs b/app/roster/src/infrastructure/config/mod.rs
index c9e3af1..5847886 100644
--- a/app/roster/src/infrastructure/config/mod.rs
+++ b/app/roster/src/infrastructure/config/mod.rs
@@ -25,9 +25,7 @@ impl Cfg {
         let settings = Config::builder()
             .add_source(config::File::with_name(&file_location))
             .add_source(
-                config::Environment::with_prefix("ROSTER")
-                    .try_parsing(false)
-                    .separator("_"),
+                config::Environment::with_prefix("ROSTER").try_parsing(false),
             )
             .build()?;
 
-- 
2.43.0


From 6b52c6c69287aaf6c5dd2a7d8fb430395b8176f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 15/17] fix: refuse a bulk string that does not end where it
 should

---
 app/roster/src/application/server/frame/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index d797f7d..fb5aaa4 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -106,7 +106,17 @@ impl Frame {
 
                     // skip that number of bytes + 2 (\r\n).
                     let n = len.checked_add(2).ok_or(TOO_LARGE)?;
-                    skip_mut(src, n)
+                    skip_mut(src, n)?;
+
+                    let end = src.position() as usize;
+                    if !src.get_ref()[..end].ends_with(b"\r\n") {
+                        return Err(
+                            "protocol error; bulk string longer than announced"
+                                .into(),
+                        );
+                    }
+
+                    Ok(())
                 }
             }
             b'*' => {
-- 
2.43.0


From bb5ff64ce0cd57657ef329eeb4f30d36f335272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 16/17] fix: do not print from the serving threads

Printing panics when standard error is closed or full, and never ends when
nobody drains it: the first SET after that ended or blocked the server.
---
 app/roster/src/application/server/mod.rs | 1 -
 app/roster/src/domain/storage/mod.rs     | 7 +------
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/app/roster/src/application/server/mod.rs b/app/roster/src/application/server/mod.rs
index c012e21..22eb174 100644
--- a/app/roster/src/application/server/mod.rs
+++ b/app/roster/src/application/server/mod.rs
@@ -64,7 +64,6 @@ impl ServerConfig {
         let main_dialer = RootDialer::new(mesh, &storage);
 
         for cpu in 0..cpus {
-            dbg!(cpu);
             // TODO(@miaxos): There are some links between those two, mb we
             // should modelise it again.
             let config = self.clone();
diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index a86616e..218974e 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -76,14 +76,9 @@ impl StorageSegment {
         let mut key = key.into_bytes().to_vec();
         key.shrink_to_fit();
 
-        let old = self
-            .count
+        self.count
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
 
-        if old % 1_000_000 == 0 {
-            dbg!(old);
-        }
-
         match self.db.entry(key) {
             scc::hash_map::Entry::Occupied(mut oqp) => {
                 Ok(Some(oqp.insert(val)))
-- 
2.43.0


From 01ef47c9df72f95c56cc7d493bc73ae99033a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 17/17] fix: go on serving when the banner cannot be printed

---
 app/roster/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/main.rs b/app/roster/src/main.rs
index 5fea4d9..7787b8b 100644
--- a/app/roster/src/main.rs
+++ b/app/roster/src/main.rs
@@ -4,6 +4,7 @@ mod application;
 mod domain;
 mod infrastructure;
 
+use std::io::Write;
 use std::sync::Arc;
 
 use application::server::ServerConfigBuilder;
@@ -41,7 +42,9 @@ fn main() -> anyhow::Result<()> {
         .initialize();
 
     // From: https://ascii.co.uk/art/rooster
-    println!(
+    // It does not matter to the server what becomes of it.
+    let _ = writeln!(
+        std::io::stdout(),
         r###"
                       ~-.
     ,,,;            ~-.~-.~-            Roster {version}
-- 
2.43.0

