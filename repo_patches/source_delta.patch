From fc1b5cfab6ec8804e346acba6935a34a930c4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:48 +0000
Subject: [PATCH 01/37] verif: hooks behind cfg(clickhouse_verif): mock socket,
 timers, codec entry points

---
 src/connecting_stream.rs |   4 +-
 src/io/stream.rs         |   6 +-
 src/lib.rs               |   6 +
 src/pool/mod.rs          |   9 ++
 src/retry_guard.rs       |   3 +
 src/types/block/mod.rs   |   4 +
 src/verif_hooks.rs       | 282 +++++++++++++++++++++++++++++++++++++++
 7 files changed, 312 insertions(+), 2 deletions(-)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/connecting_stream.rs b/src/connecting_stream.rs
index cab0132..b23a4c9 100644
--- a/src/connecting_stream.rs
+++ b/src/connecting_stream.rs
@@ -9,11 +9,13 @@ use futures_util::future::{select_ok, BoxFuture, SelectOk, TryFutureExt};
 #[cfg(feature = "tls")]
 use futures_util::FutureExt;
 
+#[cfg(clickhouse_verif)]
+use crate::verif_hooks::TcpStream;
 #[cfg(feature = "async_std")]
 use async_std::net::TcpStream;
 #[cfg(feature = "tls")]
 use native_tls::TlsConnector;
-#[cfg(feature = "tokio_io")]
+#[cfg(all(feature = "tokio_io", not(clickhouse_verif)))]
 use tokio::net::TcpStream;
 
 use pin_project::pin_project;
diff --git a/src/io/stream.rs b/src/io/stream.rs
index 14a4d45..3d931d0 100644
--- a/src/io/stream.rs
+++ b/src/io/stream.rs
@@ -5,8 +5,12 @@ use std::{
     time::Duration,
 };
 
+#[cfg(clickhouse_verif)]
+use crate::verif_hooks::TcpStream;
 #[cfg(feature = "tokio_io")]
-use tokio::{io::ReadBuf, net::TcpStream};
+use tokio::io::ReadBuf;
+#[cfg(all(feature = "tokio_io", not(clickhouse_verif)))]
+use tokio::net::TcpStream;
 #[cfg(feature = "tls")]
 use tokio_native_tls::TlsStream;
 
diff --git a/src/lib.rs b/src/lib.rs
index c475868..7296fa3 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,6 +144,9 @@ pub mod pool;
 mod retry_guard;
 /// Clickhouse types.
 pub mod types;
+#[cfg(clickhouse_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
 
 /// This macro is a convenient way to pass row into a block.
 ///
@@ -638,6 +641,9 @@ async fn with_timeout<F, T>(future: F, timeout: Duration) -> F::Output
 where
     F: Future<Output = Result<T>>,
 {
+    #[cfg(clickhouse_verif)]
+    use crate::verif_hooks as tokio;
+
     tokio::time::timeout(timeout, future).await?
 }
 
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..86aaeb4 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -276,6 +276,15 @@ impl Pool {
     }
 }
 
+#[cfg(clickhouse_verif)]
+impl Pool {
+    /// (connections being opened, idle, lent out, waiting tasks)
+    pub(crate) fn verif_counts(&self) -> (usize, usize, usize, usize) {
+        let info = self.info();
+        (info.new_len, info.idle_len, info.ongoing, info.tasks_len)
+    }
+}
+
 impl Drop for ClientHandle {
     fn drop(&mut self) {
         if let (pool, Some(inner)) = (self.pool.take(), self.inner.take()) {
diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..72142c4 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -44,6 +44,9 @@ pub(crate) async fn retry_guard(
 
                 #[cfg(not(feature = "async_std"))]
                 {
+                    #[cfg(clickhouse_verif)]
+                    use crate::verif_hooks as tokio;
+
                     tokio::time::sleep(duration).await;
                 }
             }
diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..09625e7 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -34,7 +34,11 @@ mod chunk_iterator;
 mod compressed;
 mod row;
 
+#[cfg(not(clickhouse_verif))]
 pub(crate) const INSERT_BLOCK_SIZE: usize = 1_048_576;
+// Scaled down, so that an insert of several chunks fits into a check.
+#[cfg(clickhouse_verif)]
+pub(crate) const INSERT_BLOCK_SIZE: usize = 2;
 
 const DEFAULT_CAPACITY: usize = 100;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..a840f3a
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,282 @@
+//! Verification hooks, compiled only with `--cfg clickhouse_verif`.
+//!
+//! They give a checker outside of the crate (a) access to the internal codec entry points and
+//! (b) an environment that stands in for the operating system: the TCP socket and the timers.
+//! No behaviour of the driver itself is changed.
+
+use std::{
+    future::Future,
+    io::{self, Cursor},
+    net::SocketAddr,
+    pin::Pin,
+    sync::Mutex,
+    task::{Context, Poll},
+    time::Duration,
+};
+
+use chrono_tz::Tz;
+use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+
+use crate::{
+    binary::{Encoder, Parser, ReadEx},
+    errors::{DriverError, Error, Result, ServerError},
+    io::transport::TransportInfo,
+    types::{column::StringPool, Block, Complex, Packet},
+    Pool,
+};
+
+/// A byte stream that stands in for a connected socket.
+pub trait MockIo: Send {
+    fn poll_read(&mut self, buf: &mut [u8]) -> Poll<io::Result<usize>>;
+    fn poll_write(&mut self, buf: &[u8]) -> Poll<io::Result<usize>>;
+}
+
+/// Stands in for the network and the clock.
+pub trait Environment: Send {
+    fn connect(&mut self, addr: SocketAddr) -> Poll<io::Result<Box<dyn MockIo>>>;
+    /// Tells whether a timer of the given duration fires now (it is asked on each poll).
+    fn timer(&mut self, duration: Duration, sleep: bool) -> bool;
+}
+
+pub static ENVIRONMENT: Mutex<Option<Box<dyn Environment>>> = Mutex::new(None);
+
+fn with_env<R>(f: impl FnOnce(&mut dyn Environment) -> R) -> R {
+    let mut guard = ENVIRONMENT.lock().unwrap();
+    f(guard.as_mut().expect("environment").as_mut())
+}
+
+/// Stand-in for `tokio::net::TcpStream`.
+pub struct TcpStream(Box<dyn MockIo>);
+
+impl TcpStream {
+    pub async fn connect(addr: SocketAddr) -> io::Result<Self> {
+        std::future::poll_fn(move |_| with_env(|e| e.connect(addr)))
+            .await
+            .map(TcpStream)
+    }
+
+    pub fn set_nodelay(&self, _nodelay: bool) -> io::Result<()> {
+        Ok(())
+    }
+}
+
+impl AsyncRead for TcpStream {
+    fn poll_read(
+        self: Pin<&mut Self>,
+        _cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<io::Result<()>> {
+        let dst = buf.initialize_unfilled();
+        match self.get_mut().0.poll_read(dst) {
+            Poll::Ready(Ok(n)) => {
+                buf.advance(n);
+                Poll::Ready(Ok(()))
+            }
+            Poll::Ready(Err(err)) => Poll::Ready(Err(err)),
+            Poll::Pending => Poll::Pending,
+        }
+    }
+}
+
+impl AsyncWrite for TcpStream {
+    fn poll_write(
+        self: Pin<&mut Self>,
+        _cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        self.get_mut().0.poll_write(buf)
+    }
+
+    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Poll::Ready(Ok(()))
+    }
+
+    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Poll::Ready(Ok(()))
+    }
+}
+
+/// Stand-in for `tokio::time::error::Elapsed`.
+pub struct Elapsed;
+
+impl From<Elapsed> for Error {
+    fn from(_: Elapsed) -> Self {
+        Error::Driver(DriverError::Timeout)
+    }
+}
+
+/// Stand-in for `tokio::time`.
+pub mod time {
+    use super::*;
+
+    pub async fn timeout<F: Future>(
+        duration: Duration,
+        future: F,
+    ) -> std::result::Result<F::Output, Elapsed> {
+        let mut future = std::pin::pin!(future);
+        std::future::poll_fn(move |cx| {
+            if let Poll::Ready(value) = future.as_mut().poll(cx) {
+                return Poll::Ready(Ok(value));
+            }
+            if with_env(|e| e.timer(duration, false)) {
+                return Poll::Ready(Err(Elapsed));
+            }
+            Poll::Pending
+        })
+        .await
+    }
+
+    pub async fn sleep(duration: Duration) {
+        std::future::poll_fn(move |_| {
+            if with_env(|e| e.timer(duration, true)) {
+                Poll::Ready(())
+            } else {
+                Poll::Pending
+            }
+        })
+        .await
+    }
+}
+
+pub fn encode_uvarint(value: u64) -> Vec<u8> {
+    let mut encoder = Encoder::new();
+    encoder.uvarint(value);
+    encoder.get_buffer()
+}
+
+pub fn encode_string(value: &[u8]) -> Vec<u8> {
+    let mut encoder = Encoder::new();
+    encoder.byte_string(value);
+    encoder.get_buffer()
+}
+
+fn consume<T>(bytes: &[u8], f: impl FnOnce(&mut Cursor<&[u8]>) -> Result<T>) -> (Result<T>, usize) {
+    let mut cursor = Cursor::new(bytes);
+    let result = f(&mut cursor);
+    (result, cursor.position() as usize)
+}
+
+pub fn decode_uvarint(bytes: &[u8]) -> (Result<u64>, usize) {
+    consume(bytes, |c| c.read_uvarint())
+}
+
+pub fn decode_string(bytes: &[u8]) -> (Result<String>, usize) {
+    consume(bytes, |c| c.read_string())
+}
+
+pub fn skip_string(bytes: &[u8]) -> (Result<()>, usize) {
+    consume(bytes, |c| c.skip_string())
+}
+
+/// Reads `n` strings into a string pool and returns what the pool holds.
+pub fn pool_strings(bytes: &[u8], n: usize) -> (Result<Vec<Vec<u8>>>, usize) {
+    consume(bytes, |c| {
+        let mut pool = StringPool::with_capacity(n);
+        for _ in 0..n {
+            c.read_str_into_buffer(&mut pool)?;
+        }
+        Ok((0..pool.len()).map(|i| pool.get(i).to_vec()).collect())
+    })
+}
+
+pub fn encode_block(block: &Block, compress: bool) -> Vec<u8> {
+    let mut encoder = Encoder::new();
+    block.write(&mut encoder, compress);
+    encoder.get_buffer()
+}
+
+pub fn decode_block(bytes: &[u8], tz: Tz, compress: bool) -> (Result<Block>, usize) {
+    consume(bytes, |c| Block::load(c, tz, compress))
+}
+
+pub fn chunks(block: Block, n: usize) -> impl Iterator<Item = Block> {
+    block.chunks(n)
+}
+
+pub fn concat(blocks: &[Block]) -> Block<Complex> {
+    Block::concat(blocks)
+}
+
+pub fn cast(block: &Block, header: &Block) -> Result<Block> {
+    block.cast_to(header)
+}
+
+/// What a server packet was understood as.
+#[derive(Debug)]
+pub enum PacketView {
+    Hello {
+        name: String,
+        major: u64,
+        minor: u64,
+        revision: u64,
+        timezone: Tz,
+        display_name: String,
+        patch: u64,
+    },
+    Pong,
+    Progress([u64; 5]),
+    ProfileInfo {
+        rows: u64,
+        blocks: u64,
+        bytes: u64,
+        applied_limit: bool,
+        rows_before_limit: u64,
+        calculated_rows_before_limit: bool,
+    },
+    TableColumns(String, String),
+    Exception(ServerError),
+    Block(Block),
+    Eof,
+}
+
+pub fn decode_packet(
+    bytes: &[u8],
+    revision: u64,
+    timezone: Option<Tz>,
+    compress: bool,
+) -> (Result<PacketView>, usize) {
+    let info = TransportInfo {
+        timezone,
+        revision,
+        compress,
+    };
+    consume(bytes, |c| {
+        let packet = Parser::new(c, &info).parse_packet(revision)?;
+        Ok(match packet {
+            Packet::Hello(_, i) => PacketView::Hello {
+                name: i.name,
+                major: i.major_version,
+                minor: i.minor_version,
+                revision: i.revision,
+                timezone: i.timezone,
+                display_name: i.display_name,
+                patch: i.patch_version,
+            },
+            Packet::Pong(_) => PacketView::Pong,
+            Packet::Progress(p) => PacketView::Progress([
+                p.rows,
+                p.bytes,
+                p.total_rows,
+                p.written_rows,
+                p.written_bytes,
+            ]),
+            Packet::ProfileInfo(p) => PacketView::ProfileInfo {
+                rows: p.rows,
+                blocks: p.blocks,
+                bytes: p.bytes,
+                applied_limit: p.applied_limit,
+                rows_before_limit: p.rows_before_limit,
+                calculated_rows_before_limit: p.calculated_rows_before_limit,
+            },
+            Packet::TableColumns(t) => PacketView::TableColumns(t.table_name, t.columns),
+            Packet::Exception(e) => PacketView::Exception(e),
+            Packet::Block(b) => PacketView::Block(b),
+            Packet::Eof(_) => PacketView::Eof,
+        })
+    })
+}
+
+/// (connections being opened, idle, lent out, waiting tasks)
+pub fn pool_counts(pool: &Pool) -> (usize, usize, usize, usize) {
+    pool.verif_counts()
+}
-- 
2.43.0


From 9df2971ba8e70856fa988511535695e8cc8bb695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:08 +0000
Subject: [PATCH 02/37] fix: report an overflow instead of a shift overflow
 panic on a varint of more than ten bytes

---
 src/binary/read_ex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index cb47f22..7a94787 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -90,6 +90,10 @@ where
                 return Ok(x | (u64::from(b) << s));
             }
 
+            if i >= 9 {
+                return Err(Error::Driver(DriverError::Overflow));
+            }
+
             x |= u64::from(b & 0x7f) << s;
             s += 7;
 
-- 
2.43.0


From 74b1a43f25919eccca6478254f23b205395ff1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:57 +0000
Subject: [PATCH 03/37] fix: read SimpleAggregateFunction columns whose nested
 type has parameters

---
 src/types/column/factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..bfbd430 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -296,7 +296,7 @@ fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
         return None;
     }
 
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
+    let args = &source[24..source.len() - 1];
     let sep_index = args.find(',')?;
 
     let agg_func = args[..sep_index].trim();
-- 
2.43.0


From b444b3bd8b5bb5fc35ec04b6bbfd92f15931a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:06 +0000
Subject: [PATCH 04/37] fix: write Array and Map columns of an insert chunk
 relative to the chunk's first row

---
 src/types/column/array.rs | 12 +++++++++---
 src/types/column/map.rs   | 14 ++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..2caa615 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -49,14 +49,20 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        // Offsets are relative to the first row of the saved range.
+        let base = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut offset = base;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - base);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, base as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..15fdca2 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -54,15 +54,21 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        // Offsets are relative to the first row of the saved range.
+        let base = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut offset = base;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - base);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, base as usize, offset as usize);
+        self.values.save(encoder, base as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From dbed01256735643a65d39c9c2d26132d17524453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:02 +0000
Subject: [PATCH 05/37] fix: do not discard packets which arrive together with
 the end of the stream

---
 src/io/transport.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..3c09d78 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -286,13 +286,13 @@ impl Stream for ClickhouseTransport {
             }
         }
 
-        if *this.done {
+        // Try to parse the new data! It may have come together with the end of the stream.
+        let ret = this.try_parse_msg();
+
+        if *this.done && ret.is_pending() {
             return Poll::Ready(None);
         }
 
-        // Try to parse the new data!
-        let ret = this.try_parse_msg();
-
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
         ret
-- 
2.43.0


From ee29d9a0ff137607cb0ac4442357369f698807dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:02 +0000
Subject: [PATCH 06/37] fix: report a connection closed by the server as an
 error instead of a panic

---
 src/io/transport.rs | 7 ++++---
 src/lib.rs          | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 3c09d78..828afcb 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -18,7 +18,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -119,7 +119,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -316,7 +316,8 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        let h = h.ok_or(Error::Connection(ConnectionError::Broken))?;
+        Ok((h, b))
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index 7296fa3..93b21a7 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -327,7 +327,7 @@ impl ClientHandle {
         }
 
         self.inner = h;
-        self.context.server_info = info.unwrap();
+        self.context.server_info = info.ok_or(Error::Connection(ConnectionError::Broken))?;
         Ok(())
     }
 
@@ -425,7 +425,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or(Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -501,7 +501,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or(Error::Driver(DriverError::UnexpectedPacket))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From d3c49a9bf02a6dae845d0bb00211408001d26293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:02 +0000
Subject: [PATCH 07/37] fix: do not panic when a client handle is used again
 after a failed query

---
 src/pool/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 86aaeb4..b46e00b 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -83,15 +83,19 @@ impl PoolBinding {
 
     pub(crate) fn attach(&mut self) {
         match self.take() {
-            PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+            PoolBinding::Attached(pool) | PoolBinding::Detached(pool) => {
+                *self = PoolBinding::Attached(pool)
+            }
+            PoolBinding::None => {}
         }
     }
 
     pub(crate) fn detach(&mut self) {
         match self.take() {
-            PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+            PoolBinding::Attached(pool) | PoolBinding::Detached(pool) => {
+                *self = PoolBinding::Detached(pool)
+            }
+            PoolBinding::None => {}
         }
     }
 }
-- 
2.43.0


From aa8df0ddbe9a7ac455510b6c46c31e5d0b582bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:08 +0000
Subject: [PATCH 08/37] fix: do not keep a connection whose stream of blocks
 ended in an error

---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From 3dade70dfd48aa9cc7d8ac4f3a0f1f90519f9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:08 +0000
Subject: [PATCH 09/37] fix: finish an abandoned query before the next one also
 without ping_before_query

---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 93b21a7..d3649f8 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -553,9 +553,17 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
+        // The previous query may have been left before its end.
+        let inconsistent = self.inner.as_ref().is_some_and(|t| t.inconsistent);
+
+        if ping_before_query || inconsistent {
             let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
+                let ready = if ping_before_query {
+                    self.check_connection().await
+                } else {
+                    self.clear_connection().await
+                };
+                let inner: BoxStream<'a, Result<Block>> = match ready {
                     Ok(_) => match f(self) {
                         Ok(s) => Box::pin(s),
                         Err(err) => Box::pin(stream::once(future::err(err))),
@@ -574,6 +582,12 @@ impl ClientHandle {
         }
     }
 
+    async fn clear_connection(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
+    }
+
     /// Check connection and try to reconnect if necessary.
     pub async fn check_connection(&mut self) -> Result<()> {
         self.pool.detach();
-- 
2.43.0


From 09553620b033d22c28561735fd4d8109433c512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 10/37] fix: wake the tasks that wait for a connection when the
 attempt they share ends or is abandoned

---
 src/pool/futures/get_handle.rs | 11 +++++++++--
 src/pool/mod.rs                | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index df584e8..6fb2eb5 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -4,12 +4,12 @@ use std::{
     task::{Context, Poll},
 };
 
-use pin_project::pin_project;
+use pin_project::{pin_project, pinned_drop};
 
 use crate::{errors::Result, pool::Pool, ClientHandle};
 
 /// Future that resolves to a `ClientHandle`.
-#[pin_project]
+#[pin_project(PinnedDrop)]
 pub struct GetHandle {
     #[pin]
     pool: Pool,
@@ -21,6 +21,13 @@ impl GetHandle {
     }
 }
 
+#[pinned_drop]
+impl PinnedDrop for GetHandle {
+    fn drop(self: Pin<&mut Self>) {
+        self.project().pool.abandon();
+    }
+}
+
 impl Future for GetHandle {
     type Output = Result<ClientHandle>;
 
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index b46e00b..7126594 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -33,6 +33,10 @@ pub(crate) struct Inner {
 impl Inner {
     pub(crate) fn release_conn(&self) {
         self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        self.wake_tasks();
+    }
+
+    fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
@@ -229,6 +233,7 @@ impl Pool {
             match new.poll_unpin(cx) {
                 Poll::Ready(Ok(client)) => {
                     self.inner.idle.push(client).unwrap();
+                    self.inner.wake_tasks();
                 }
                 Poll::Pending => {
                     // NOTE: it is okay to drop the construction task
@@ -237,6 +242,8 @@ impl Pool {
                     let _ = self.inner.new.push(new);
                 }
                 Poll::Ready(Err(err)) => {
+                    // Other tasks may wait for this attempt, too.
+                    self.inner.wake_tasks();
                     return Err(err);
                 }
             }
@@ -273,6 +280,14 @@ impl Pool {
         }
     }
 
+    /// A task which waited for a handle goes away.
+    fn abandon(&self) {
+        // It may be the only one that is notified about the connection being opened.
+        if !self.inner.new.is_empty() {
+            self.inner.wake_tasks();
+        }
+    }
+
     pub(crate) fn get_addr(&self) -> &Url {
         let n = self.inner.hosts.len();
         let index = self.inner.connections_num.fetch_add(1, Ordering::SeqCst);
-- 
2.43.0


From e497d6fa65891e93c6f0c5c3f48facd320c065c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 11/37] fix: do not reserve memory for the sizes a server
 declares before the data arrives

---
 src/binary/mod.rs                |  7 ++++++-
 src/binary/read_ex.rs            | 28 ++++++++++++++++++++++------
 src/types/column/array.rs        |  4 +---
 src/types/column/date.rs         |  6 +-----
 src/types/column/datetime64.rs   |  6 +-----
 src/types/column/fixed_string.rs | 15 ++++++---------
 src/types/column/ip.rs           |  8 +++++---
 src/types/column/list.rs         | 29 ++++++++++++++++++++++-------
 src/types/column/map.rs          |  4 +---
 src/types/column/nullable.rs     |  3 +--
 src/types/column/numeric.rs      |  6 +-----
 src/types/column/string.rs       |  5 ++++-
 12 files changed, 71 insertions(+), 50 deletions(-)

diff --git a/src/binary/mod.rs b/src/binary/mod.rs
index f128314..17bb337 100644
--- a/src/binary/mod.rs
+++ b/src/binary/mod.rs
@@ -1,4 +1,9 @@
-pub(crate) use self::{encoder::Encoder, parser::Parser, read_ex::ReadEx, uvarint::put_uvarint};
+pub(crate) use self::{
+    encoder::Encoder,
+    parser::Parser,
+    read_ex::{ReadEx, MAX_RESERVED_LEN},
+    uvarint::put_uvarint,
+};
 
 mod encoder;
 mod parser;
diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index 7a94787..963797c 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -7,6 +7,7 @@ use crate::{
 
 pub(crate) trait ReadEx {
     fn read_bytes(&mut self, rv: &mut [u8]) -> Result<()>;
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>>;
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer;
@@ -18,6 +19,9 @@ pub(crate) trait ReadEx {
 
 const MAX_STACK_BUFFER_LEN: usize = 1024;
 
+/// Sizes come from the other side, so memory is reserved only as data arrives.
+pub(crate) const MAX_RESERVED_LEN: usize = 1024 * 1024;
+
 impl<T> ReadEx for T
 where
     T: io::Read,
@@ -41,6 +45,16 @@ where
         Ok(())
     }
 
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>> {
+        let mut buffer = Vec::new();
+        while buffer.len() < len {
+            let start = buffer.len();
+            buffer.resize(start + (len - start).min(MAX_RESERVED_LEN), 0_u8);
+            self.read_bytes(&mut buffer[start..])?;
+        }
+        Ok(buffer)
+    }
+
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer,
@@ -52,8 +66,7 @@ where
 
     fn read_string(&mut self) -> Result<String> {
         let str_len = self.read_uvarint()? as usize;
-        let mut buffer = vec![0_u8; str_len];
-        self.read_bytes(buffer.as_mut())?;
+        let buffer = self.read_vec(str_len)?;
         Ok(String::from_utf8(buffer)?)
     }
 
@@ -69,8 +82,7 @@ where
                 )?;
             }
         } else {
-            let mut buffer = vec![0_u8; str_len];
-            self.read_bytes(buffer.as_mut())?;
+            self.read_vec(str_len)?;
         }
 
         Ok(())
@@ -103,8 +115,12 @@ where
 
     fn read_str_into_buffer(&mut self, pool: &mut StringPool) -> Result<()> {
         let str_len = self.read_uvarint()? as usize;
-        let buffer = pool.allocate(str_len);
-        self.read_bytes(buffer)?;
+        if str_len > MAX_RESERVED_LEN {
+            let buffer = self.read_vec(str_len)?;
+            pool.allocate(str_len).copy_from_slice(&buffer);
+        } else {
+            self.read_bytes(pool.allocate(str_len))?;
+        }
         Ok(())
     }
 }
diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 2caa615..a63a233 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -27,9 +27,7 @@ impl ArrayColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
+        let offsets: List<u64> = List::load(reader, rows)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 534ee44..83e54f8 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -63,11 +63,7 @@ where
         size: usize,
         tz: Tz,
     ) -> Result<DateColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateColumnData { data, tz })
     }
 }
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..c1f9763 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -31,11 +31,7 @@ impl DateTime64ColumnData {
         precision: u32,
         tz: Tz,
     ) -> Result<DateTime64ColumnData> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateTime64ColumnData {
             data,
             params: (precision, tz),
diff --git a/src/types/column/fixed_string.rs b/src/types/column/fixed_string.rs
index 024c433..6bcb45c 100644
--- a/src/types/column/fixed_string.rs
+++ b/src/types/column/fixed_string.rs
@@ -3,7 +3,7 @@ use std::cmp;
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{
             column_data::{BoxColumnData, LowCardinalityAccessor},
@@ -40,15 +40,12 @@ impl FixedStringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize, str_len: usize) -> Result<Self> {
-        let mut instance = Self::with_capacity(size, str_len);
+        let len = size
+            .checked_mul(str_len)
+            .ok_or(Error::Driver(DriverError::Overflow))?;
+        let buffer = reader.read_vec(len)?;
 
-        for _ in 0..size {
-            let old_len = instance.buffer.len();
-            instance.buffer.resize(old_len + str_len, 0_u8);
-            reader.read_bytes(&mut instance.buffer[old_len..old_len + str_len])?;
-        }
-
-        Ok(instance)
+        Ok(Self { buffer, str_len })
     }
 }
 
diff --git a/src/types/column/ip.rs b/src/types/column/ip.rs
index 3d66239..8ef54a6 100644
--- a/src/types/column/ip.rs
+++ b/src/types/column/ip.rs
@@ -7,7 +7,7 @@ use std::{
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{column_data::BoxColumnData, nullable::NullableColumnData, ColumnWrapper},
         SqlType, Value, ValueRef,
@@ -272,8 +272,10 @@ impl<V: IpVersion> IpColumnData<V> {
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<Self> {
-        let mut inner = vec![0; size * V::size()];
-        reader.read_bytes(inner.as_mut())?;
+        let len = size
+            .checked_mul(V::size())
+            .ok_or(Error::Driver(DriverError::Overflow))?;
+        let inner = reader.read_vec(len)?;
 
         Ok(Self {
             inner,
diff --git a/src/types/column/list.rs b/src/types/column/list.rs
index a873be9..b953c99 100644
--- a/src/types/column/list.rs
+++ b/src/types/column/list.rs
@@ -1,6 +1,10 @@
-use std::{fmt, mem, slice};
+use std::{fmt, mem, ptr, slice};
 
-use crate::types::{Marshal, StatBuffer, Unmarshal};
+use crate::{
+    binary::{ReadEx, MAX_RESERVED_LEN},
+    errors::Result,
+    types::{Marshal, StatBuffer, Unmarshal},
+};
 
 #[derive(Clone)]
 pub struct List<T>
@@ -37,12 +41,23 @@ where
         }
     }
 
-    pub fn resize(&mut self, new_len: usize, value: T) {
-        self.data.resize(new_len, value);
-    }
+    pub(super) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<List<T>> {
+        let item_size = mem::size_of::<T>();
+        let mut data: Vec<T> = Vec::new();
+
+        while data.len() < size {
+            let start = data.len();
+            let count = (size - start).min(MAX_RESERVED_LEN / item_size);
+            data.reserve(count);
+            unsafe {
+                let ptr = data.as_mut_ptr().add(start) as *mut u8;
+                ptr::write_bytes(ptr, 0, count * item_size);
+                reader.read_bytes(slice::from_raw_parts_mut(ptr, count * item_size))?;
+                data.set_len(start + count);
+            }
+        }
 
-    pub(super) unsafe fn set_len(&mut self, new_len: usize) {
-        self.data.set_len(new_len);
+        Ok(List { data })
     }
 
     pub(super) unsafe fn as_ptr(&self) -> *const T {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 15fdca2..6fb2c62 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -27,9 +27,7 @@ impl MapColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
+        let offsets: List<u64> = List::load(reader, rows)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..75267b6 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -27,8 +27,7 @@ impl NullableColumnData {
         size: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut nulls = vec![0; size];
-        reader.read_bytes(nulls.as_mut())?;
+        let nulls = reader.read_vec(size)?;
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
         Ok(NullableColumnData { inner, nulls })
diff --git a/src/types/column/numeric.rs b/src/types/column/numeric.rs
index 239aa83..8a70b89 100644
--- a/src/types/column/numeric.rs
+++ b/src/types/column/numeric.rs
@@ -161,11 +161,7 @@ where
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<VectorColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(Self { data })
     }
 
diff --git a/src/types/column/string.rs b/src/types/column/string.rs
index 8d337f9..d7f9a37 100644
--- a/src/types/column/string.rs
+++ b/src/types/column/string.rs
@@ -20,6 +20,9 @@ use super::{
     ColumnFrom,
 };
 
+/// The number of rows comes from the other side.
+const MAX_RESERVED_STRINGS: usize = 65_536;
+
 pub(crate) struct StringColumnData {
     pool: StringPool,
 }
@@ -36,7 +39,7 @@ impl StringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize) -> Result<Self> {
-        let mut data = Self::with_capacity(size);
+        let mut data = Self::with_capacity(size.min(MAX_RESERVED_STRINGS));
 
         for _ in 0..size {
             reader.read_str_into_buffer(&mut data.pool)?;
-- 
2.43.0


From 38926093a13efd7588cf7960ba93a3b3ab34ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:20 +0000
Subject: [PATCH 12/37] fix: reject malformed type names instead of panicking

---
 src/types/column/factory.rs | 97 +++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 46 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index bfbd430..5dc3d10 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -242,24 +242,23 @@ impl dyn ColumnData {
     }
 }
 
-fn parse_fixed_string(source: &str) -> Option<usize> {
-    if !source.starts_with("FixedString") {
-        return None;
-    }
+/// The text between the parentheses of `name(...)`.
+fn parse_type_args<'a>(source: &'a str, name: &str) -> Option<&'a str> {
+    source
+        .strip_prefix(name)?
+        .strip_prefix('(')?
+        .strip_suffix(')')
+}
 
-    let inner_size = &source[12..source.len() - 1];
-    match inner_size.parse::<usize>() {
-        Err(_) => None,
+fn parse_fixed_string(source: &str) -> Option<usize> {
+    match parse_type_args(source, "FixedString")?.parse::<usize>() {
+        Err(_) | Ok(0) => None,
         Ok(value) => Some(value),
     }
 }
 
 fn parse_nullable_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Nullable") {
-        return None;
-    }
-
-    let inner_type = &source[9..source.len() - 1];
+    let inner_type = parse_type_args(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
         return None;
@@ -269,21 +268,12 @@ fn parse_nullable_type(source: &str) -> Option<&str> {
 }
 
 fn parse_array_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Array") {
-        return None;
-    }
-
-    let inner_type = &source[6..source.len() - 1];
-    Some(inner_type)
+    parse_type_args(source, "Array")
 }
 
 fn parse_map_type(source: &str) -> Option<(&str, &str)> {
-    if !source.starts_with("Map") {
-        return None;
-    }
-
-    let body = &source[4..source.len() - 1];
-    let comma_pos = body.chars().position(|c| c == ',')?;
+    let body = parse_type_args(source, "Map")?;
+    let comma_pos = find_type_separator(body)?;
 
     let key = body[0..comma_pos].trim();
     let value = body[comma_pos + 1..].trim();
@@ -291,6 +281,28 @@ fn parse_map_type(source: &str) -> Option<(&str, &str)> {
     Some((key, value))
 }
 
+/// The position of the first comma which is not a part of a nested type.
+fn find_type_separator(source: &str) -> Option<usize> {
+    let mut depth = 0_usize;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for (idx, c) in source.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '\'' => quoted = !quoted,
+            _ if quoted => {}
+            '(' => depth += 1,
+            ')' => depth = depth.checked_sub(1)?,
+            ',' if depth == 0 => return Some(idx),
+            _ => {}
+        }
+    }
+
+    None
+}
+
 fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
     if !source.starts_with("SimpleAggregateFunction(") || !source.ends_with(')') {
         return None;
@@ -345,7 +357,7 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
     }
 
     let params_indexes = match params_indexes {
-        (Some(start), Some(end)) => (start, end),
+        (Some(start), Some(end)) if start < end => (start, end),
         _ => return None,
     };
 
@@ -383,6 +395,9 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
                 NoBits::N32 => 9,
                 NoBits::N64 => 18,
             };
+            if scale > precision {
+                return None;
+            }
             Some((precision, scale, bits))
         }
         _ => None,
@@ -395,16 +410,10 @@ enum EnumSize {
 }
 
 fn parse_enum8(input: &str) -> Option<Vec<(String, i8)>> {
-    match parse_enum(EnumSize::Enum8, input) {
-        Some(result) => {
-            let res: Vec<(String, i8)> = result
-                .iter()
-                .map(|(key, val)| (key.clone(), *val as i8))
-                .collect();
-            Some(res)
-        }
-        None => None,
-    }
+    parse_enum(EnumSize::Enum8, input)?
+        .into_iter()
+        .map(|(key, val)| Some((key, i8::try_from(val).ok()?)))
+        .collect()
 }
 fn parse_enum16(input: &str) -> Option<Vec<(String, i16)>> {
     parse_enum(EnumSize::Enum16, input)
@@ -481,6 +490,8 @@ fn parse_date_time(source: &str) -> Option<Option<String>> {
     }
 }
 
+const MAX_DATE_TIME64_PRECISION: u32 = 9;
+
 fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
     let integer = many1::<String, _, _>(digit()).and_then(|digits| {
         digits
@@ -511,7 +522,9 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
         .skip(token(')'));
 
     match parser.parse(source) {
-        Ok((pair, remain)) if remain.is_empty() => Some(pair),
+        Ok((pair, remain)) if remain.is_empty() && pair.0 <= MAX_DATE_TIME64_PRECISION => {
+            Some(pair)
+        }
         _ => None,
     }
 }
@@ -521,16 +534,8 @@ fn parse_low_cardinality(source: &str) -> Option<&str> {
         return None;
     }
 
-    let mut lo = 14;
-    let mut hi = source.len() - 1;
-
-    while lo < source.len() && &source[lo..lo + 1] != "(" {
-        lo += 1;
-    }
-
-    while hi > lo && &source[hi..hi + 1] != ")" {
-        hi -= 1;
-    }
+    let lo = source.find('(')?;
+    let hi = source.rfind(')')?;
 
     if lo >= hi {
         return None;
-- 
2.43.0


From 618981ada2e1d264b0610467fd980ea8823d9d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 13/37] fix: reject array offsets, low cardinality keys and
 bool values which are out of range

---
 src/types/column/array.rs           |  7 +------
 src/types/column/factory.rs         |  6 +++++-
 src/types/column/list.rs            | 23 +++++++++++++++++++++--
 src/types/column/low_cardinality.rs | 20 ++++++++++++++++++--
 src/types/column/map.rs             |  7 +------
 5 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index a63a233..c094135 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -27,12 +27,7 @@ impl ArrayColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let offsets: List<u64> = List::load(reader, rows)?;
-
-        let size = match rows {
-            0 => 0,
-            _ => offsets.at(rows - 1) as usize,
-        };
+        let (offsets, size) = List::load_offsets(reader, rows)?;
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
 
diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 5dc3d10..5481449 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -62,7 +62,11 @@ impl dyn ColumnData {
         tz: Tz,
     ) -> Result<W::Wrapper> {
         Ok(match_str!(type_name, {
-            "Bool" => W::wrap(VectorColumnData::<bool>::load(reader, size)?),
+            "Bool" => {
+                // Not every byte is a valid `bool`.
+                let data = List::<u8>::load(reader, size)?.map(|value| value != 0);
+                W::wrap(VectorColumnData::<bool> { data })
+            },
             "UInt8" => W::wrap(VectorColumnData::<u8>::load(reader, size)?),
             "UInt16" => W::wrap(VectorColumnData::<u16>::load(reader, size)?),
             "UInt32" => W::wrap(VectorColumnData::<u32>::load(reader, size)?),
diff --git a/src/types/column/list.rs b/src/types/column/list.rs
index b953c99..0210a7f 100644
--- a/src/types/column/list.rs
+++ b/src/types/column/list.rs
@@ -1,8 +1,8 @@
-use std::{fmt, mem, ptr, slice};
+use std::{borrow::Cow, fmt, mem, ptr, slice};
 
 use crate::{
     binary::{ReadEx, MAX_RESERVED_LEN},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{Marshal, StatBuffer, Unmarshal},
 };
 
@@ -60,6 +60,25 @@ where
         Ok(List { data })
     }
 
+    /// Reads the offsets of arrays or maps and returns them with the number of items.
+    pub(super) fn load_offsets<R: ReadEx>(reader: &mut R, rows: usize) -> Result<(Self, usize)>
+    where
+        T: Into<u64>,
+    {
+        let offsets = Self::load(reader, rows)?;
+        let mut prev = 0_u64;
+        for offset in &offsets.data {
+            let offset: u64 = (*offset).into();
+            if offset < prev {
+                return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+                    "Offsets are not in ascending order.",
+                ))));
+            }
+            prev = offset;
+        }
+        Ok((offsets, prev as usize))
+    }
+
     pub(super) unsafe fn as_ptr(&self) -> *const T {
         self.data.as_ptr()
     }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..ce9d834 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -255,8 +255,24 @@ fn read_inner<R: ReadEx>(
     )?;
 
     let keys_rows: u64 = reader.read_scalar()?;
-    let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
-    assert_eq!(flags, keys.get_flags());
+    if keys_rows != size as u64 {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Wrong number of low cardinality keys.",
+        ))));
+    }
+
+    let keys = LowCardinalityIndex::load(reader, size, index_type)?;
+    if flags != keys.get_flags() {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Unsupported low cardinality flags.",
+        ))));
+    }
+
+    if (0..size).any(|i| keys.get_by_index(i) >= inner.len()) {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Low cardinality key is out of range.",
+        ))));
+    }
 
     Ok((inner, keys))
 }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 6fb2c62..3b7d7ef 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -27,12 +27,7 @@ impl MapColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let offsets: List<u64> = List::load(reader, rows)?;
-
-        let size = match rows {
-            0 => 0,
-            _ => offsets.at(rows - 1) as usize,
-        };
+        let (offsets, size) = List::load_offsets(reader, rows)?;
 
         let keys = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, types.0, size, tz)?;
         let values = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, types.1, size, tz)?;
-- 
2.43.0


From 292db7b8facf29d70337c71d46313fa062401552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 14/37] fix: report malformed compressed frames as errors

---
 src/types/block/compressed.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index d2c43a8..45af444 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -15,6 +15,7 @@ use crate::{
 };
 
 const DBMS_MAX_COMPRESSED_SIZE: u32 = 0x4000_0000; // 1GB
+const COMPRESSED_HEADER_SIZE: u32 = 9;
 
 pub(crate) struct CompressedReader<'a, R> {
     reader: &'a mut R,
@@ -83,14 +84,23 @@ where
         return Err(raise_error("compressed data too big".to_string()));
     }
 
-    buffer.resize(compressed as usize, 0_u8);
+    if compressed < COMPRESSED_HEADER_SIZE {
+        return Err(raise_error("compressed data too small".to_string()));
+    }
+
+    if original > DBMS_MAX_COMPRESSED_SIZE {
+        return Err(raise_error("decompressed data too big".to_string()));
+    }
+
+    buffer.clear();
+    buffer.resize(COMPRESSED_HEADER_SIZE as usize, 0_u8);
     {
         let mut cursor = io::Cursor::new(&mut buffer);
         cursor.write_u8(0x82)?;
         cursor.write_u32::<LittleEndian>(compressed)?;
         cursor.write_u32::<LittleEndian>(original)?;
     }
-    reader.read_bytes(&mut buffer[9..])?;
+    buffer.append(&mut reader.read_vec((compressed - COMPRESSED_HEADER_SIZE) as usize)?);
 
     if h != city_hash_128(&buffer) {
         return Err(raise_error("data was corrupted".to_string()));
@@ -101,12 +111,12 @@ where
         LZ4_decompress_safe(
             (buffer.as_mut_ptr() as *const c_char).add(9),
             data.as_ptr() as *mut c_char,
-            (compressed - 9) as c_int,
+            (compressed - COMPRESSED_HEADER_SIZE) as c_int,
             original as c_int,
         )
     };
 
-    if status < 0 {
+    if status != original as c_int {
         return Err(raise_error("can't decompress data".to_string()));
     }
 
-- 
2.43.0


From 72e96febb93bc59318a28030eaa28a5d3bf788ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 15/37] fix: report cells outside of a block as errors

---
 src/types/block/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 09625e7..0bd9e3a 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -118,8 +118,12 @@ impl<K: ColumnType> AsRef<Block<K>> for Block<K> {
 
 impl ColumnIdx for usize {
     #[inline(always)]
-    fn get_index<K: ColumnType>(&self, _: &[Column<K>]) -> Result<usize> {
-        Ok(*self)
+    fn get_index<K: ColumnType>(&self, columns: &[Column<K>]) -> Result<usize> {
+        if *self < columns.len() {
+            Ok(*self)
+        } else {
+            Err(Error::FromSql(FromSqlError::OutOfRange))
+        }
     }
 }
 
@@ -224,8 +228,11 @@ impl<K: ColumnType> Block<K> {
         T: FromSql<'a>,
         I: ColumnIdx + Copy,
     {
-        let column_index = col.get_index(self.columns())?;
-        T::from_sql(self.columns[column_index].at(row))
+        let column = self.get_column(col)?;
+        if row >= column.len() {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
+        }
+        T::from_sql(column.at(row))
     }
 
     /// Add new column into this block
-- 
2.43.0


From 34a5f2790b14f6d19d52adb14d754cebb38325fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 16/37] fix: fetch_all of a response without blocks, or with
 different ones

---
 src/types/block/mod.rs        | 26 +++++++++++++++++++++++++-
 src/types/query_result/mod.rs |  2 +-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 0bd9e3a..f426f9a 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -14,7 +14,7 @@ use lz4::liblz4::{LZ4_compressBound, LZ4_compress_default};
 
 use crate::{
     binary::{protocol, Encoder, ReadEx},
-    errors::{Error, FromSqlError, Result},
+    errors::{DriverError, Error, FromSqlError, Result},
     types::{
         column::{self, ArcColumnWrapper, Column, ColumnFrom},
         ColumnType, Complex, FromSql, Simple, SqlType,
@@ -286,6 +286,30 @@ impl<K: ColumnType> Block<K> {
 }
 
 impl Block<Simple> {
+    /// Joins the blocks of a server's response, which may be empty or malformed.
+    pub(crate) fn concat_response(blocks: &[Self]) -> Result<Block<Complex>> {
+        let Some(first) = blocks.first() else {
+            return Ok(Block::default());
+        };
+
+        let is_uniform = blocks.iter().all(|block| {
+            block.column_count() == first.column_count()
+                && block
+                    .columns
+                    .iter()
+                    .zip(&first.columns)
+                    .all(|(column, other)| column.sql_type() == other.sql_type())
+        });
+
+        if !is_uniform {
+            return Err(Error::Driver(DriverError::Deserialize(
+                "All blocks of a response should have the same columns.".into(),
+            )));
+        }
+
+        Ok(Self::concat(blocks))
+    }
+
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
         let first = blocks.first().expect("blocks should not be empty.");
 
diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 720b21d..e6306c0 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -40,7 +40,7 @@ impl<'a> QueryResult<'a> {
                         future::ready(Ok(blocks))
                     })
                     .await?;
-                Ok(Block::concat(blocks.as_slice()))
+                Block::concat_response(blocks.as_slice())
             },
             timeout,
         )
-- 
2.43.0


From 2b0b10499be2c21b672c920b954bed9b9819a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 17/37] fix: check the column type when iterating over IP
 addresses and UUIDs

---
 src/types/column/iter/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..eae75a9 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -816,9 +816,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -841,9 +848,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -866,9 +880,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
-- 
2.43.0


From 5936b6b615b5860e7c1c75017817f2b51a9978d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:50 +0000
Subject: [PATCH 18/37] fix: no invalid trait object pointer while iterating
 over low cardinality strings

---
 src/types/column/iter/mod.rs        | 5 ++++-
 src/types/column/low_cardinality.rs | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index eae75a9..1a42468 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -923,8 +923,11 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                 unsafe {
                     column.get_internals(&mut internals, 1, 0)?;
                     size = (*internals.index).len();
-                    StringInnerIterator::LowCardinality(internals.index, internals.accessor)
                 }
+                let Some(accessor) = internals.accessor else {
+                    return Err(Error::FromSql(FromSqlError::UnsupportedOperation));
+                };
+                StringInnerIterator::LowCardinality(internals.index, accessor)
             }
             SqlType::String => {
                 let string_pool = unsafe {
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index ce9d834..ced57d6 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -167,14 +167,14 @@ impl LowCardinalityIndex {
 #[derive(Debug)]
 pub(crate) struct LowCardinalityInternals {
     pub(crate) index: *const LowCardinalityIndex,
-    pub(crate) accessor: *const dyn LowCardinalityAccessor,
+    pub(crate) accessor: Option<*const dyn LowCardinalityAccessor>,
 }
 
 impl Default for LowCardinalityInternals {
     fn default() -> Self {
         LowCardinalityInternals {
             index: ptr::null_mut(),
-            accessor: unsafe { mem::transmute([ptr::null_mut::<()>(), ptr::null_mut()]) },
+            accessor: None,
         }
     }
 }
@@ -371,7 +371,7 @@ impl ColumnData for LowCardinalityColumnData {
         unsafe {
             let data_ref = &mut *(data_ptr as *mut LowCardinalityInternals);
             data_ref.index = &self.index as *const LowCardinalityIndex;
-            data_ref.accessor = mem::transmute(accessor);
+            data_ref.accessor = Some(mem::transmute(accessor));
             Ok(())
         }
     }
-- 
2.43.0


From 27b0866538cedf812ebe68a861baf74fc33d9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:00 +0000
Subject: [PATCH 19/37] fix: report a type mismatch when iteration over a
 concatenated column starts

---
 src/types/column/iter/mod.rs | 71 ++++++++++--------------------------
 1 file changed, 19 insertions(+), 52 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 1a42468..0a91a65 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -8,7 +8,7 @@ use std::{
     iter::FusedIterator,
     marker, mem,
     net::{Ipv4Addr, Ipv6Addr},
-    ptr, slice,
+    ptr, slice, vec,
 };
 
 use crate::{
@@ -1355,14 +1355,8 @@ pub struct ComplexIterator<'a, T>
 where
     T: Iterable<'a, Simple>,
 {
-    column_type: SqlType,
-
-    data: &'a Vec<ArcColumnData>,
-
-    current_index: usize,
+    chunks: vec::IntoIter<<T as Iterable<'a, Simple>>::Iter>,
     current: Option<<T as Iterable<'a, Simple>>::Iter>,
-
-    _marker: marker::PhantomData<T>,
 }
 
 impl<'a, T> Iterator for ComplexIterator<'a, T>
@@ -1372,45 +1366,11 @@ where
     type Item = <<T as Iterable<'a, Simple>>::Iter as Iterator>::Item;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.data.len() && self.current.is_none() {
-            return None;
-        }
-
-        if self.current.is_none() {
-            loop {
-                if self.current_index >= self.data.len() {
-                    return None;
-                }
-                if self.data[self.current_index].len() > 0 {
-                    break;
-                }
-                self.current_index += 1;
+        loop {
+            if let Some(item) = self.current.as_mut().and_then(Iterator::next) {
+                return Some(item);
             }
-
-            let column: Column<Simple> = Column {
-                name: String::new(),
-                data: self.data[self.current_index].clone(),
-                _marker: marker::PhantomData,
-            };
-
-            let iter =
-                unsafe { T::iter(mem::transmute(&column), self.column_type.clone()) }.unwrap();
-
-            self.current = Some(iter);
-            self.current_index += 1;
-        }
-
-        let ret = match self.current {
-            None => None,
-            Some(ref mut iter) => iter.next(),
-        };
-
-        match ret {
-            None => {
-                self.current = None;
-                self.next()
-            }
-            Some(r) => Some(r),
+            self.current = Some(self.chunks.next()?);
         }
     }
 }
@@ -1438,14 +1398,21 @@ where
             &*data
         };
 
-        Ok(ComplexIterator {
-            column_type,
-            data,
+        let mut chunks = Vec::with_capacity(data.len());
+        for chunk in data {
+            let column: Column<Simple> = Column {
+                name: String::new(),
+                data: chunk.clone(),
+                _marker: marker::PhantomData,
+            };
 
-            current_index: 0,
-            current: None,
+            let iter = unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+            chunks.push(iter);
+        }
 
-            _marker: marker::PhantomData,
+        Ok(ComplexIterator {
+            chunks: chunks.into_iter(),
+            current: None,
         })
     }
 }
-- 
2.43.0


From b911b7d580cadb35de419a718f83d804235e2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 20/37] fix: iterate over dates independently of the time zone

---
 src/types/column/iter/mod.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 0a91a65..4fadd2f 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1,6 +1,6 @@
 #![allow(clippy::cast_ptr_alignment)]
 
-use chrono::prelude::*;
+use chrono::{prelude::*, Duration};
 use chrono_tz::Tz;
 use std::{
     collections::HashMap,
@@ -186,7 +186,6 @@ pub struct DateIterator<'a> {
     ptr: *const u16,
     index: usize,
     len: usize,
-    tz: Tz,
     _marker: marker::PhantomData<&'a ()>,
 }
 
@@ -455,11 +454,8 @@ impl<'a> DateIterator<'a> {
         let current_value = *self.ptr.add(index);
         self.index += 1;
 
-        let time = self
-            .tz
-            .timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
-            .unwrap();
-        time.date_naive()
+        // A date does not depend on the time zone.
+        NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + Duration::days(current_value.into())
     }
 
     #[inline(always)]
@@ -1206,7 +1202,6 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
             index: 0,
             ptr: dt_inter.begin as *const u16,
             len,
-            tz: dt_inter.tz,
             _marker: marker::PhantomData,
         })
     }
-- 
2.43.0


From 2e97e10a2a2c9954f36a2522b36946972ce86467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:57 +0000
Subject: [PATCH 21/37] verif: view of the options

---
 src/verif_hooks.rs | 54 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index a840f3a..76557e0 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -21,7 +21,7 @@ use crate::{
     binary::{Encoder, Parser, ReadEx},
     errors::{DriverError, Error, Result, ServerError},
     io::transport::TransportInfo,
-    types::{column::StringPool, Block, Complex, Packet},
+    types::{column::StringPool, Block, Complex, Options, Packet},
     Pool,
 };
 
@@ -280,3 +280,55 @@ pub fn decode_packet(
 pub fn pool_counts(pool: &Pool) -> (usize, usize, usize, usize) {
     pool.verif_counts()
 }
+
+/// What the options say.
+#[derive(Clone, Debug, PartialEq)]
+pub struct OptionsView {
+    pub addr: String,
+    pub database: String,
+    pub username: String,
+    pub password: String,
+    pub compression: bool,
+    pub pool: (usize, usize),
+    pub nodelay: bool,
+    pub keepalive: Option<Duration>,
+    pub ping_before_query: bool,
+    pub send_retries: usize,
+    pub retry_timeout: Duration,
+    pub ping_timeout: Duration,
+    pub connection_timeout: Duration,
+    pub query_timeout: Duration,
+    pub insert_timeout: Option<Duration>,
+    pub execute_timeout: Option<Duration>,
+    /// name, value, importance
+    pub settings: Vec<(String, String, bool)>,
+    pub alt_hosts: Vec<String>,
+}
+
+pub fn options_view(options: &Options) -> OptionsView {
+    let o = options.clone();
+    OptionsView {
+        addr: o.addr.to_string(),
+        database: o.database,
+        username: o.username,
+        password: o.password,
+        compression: o.compression,
+        pool: (o.pool_min, o.pool_max),
+        nodelay: o.nodelay,
+        keepalive: o.keepalive,
+        ping_before_query: o.ping_before_query,
+        send_retries: o.send_retries,
+        retry_timeout: o.retry_timeout,
+        ping_timeout: o.ping_timeout,
+        connection_timeout: o.connection_timeout,
+        query_timeout: o.query_timeout,
+        insert_timeout: o.insert_timeout,
+        execute_timeout: o.execute_timeout,
+        settings: o
+            .settings
+            .iter()
+            .map(|(k, v)| (k.clone(), v.value.to_string(), v.is_important))
+            .collect(),
+        alt_hosts: o.alt_hosts.iter().map(|h| h.to_string()).collect(),
+    }
+}
-- 
2.43.0


From 33fea880a9f8c9c1e8e6a693c12cf0e86392bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:57 +0000
Subject: [PATCH 22/37] fix: decode percent-encoded characters of the database
 in a URL

---
 src/types/options.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 5f02fb2..4c2b683 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -612,7 +612,7 @@ fn get_password_from_url(url: &Url) -> Option<Cow<'_, str>> {
     Some(percent_decode(password.as_bytes()).decode_utf8_lossy())
 }
 
-fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
+fn get_database_from_url(url: &Url) -> Result<Option<Cow<'_, str>>> {
     match url.path_segments() {
         None => Ok(None),
         Some(mut segments) => {
@@ -623,7 +623,9 @@ fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
             }
 
             match head {
-                Some(database) if !database.is_empty() => Ok(Some(database)),
+                Some(database) if !database.is_empty() => Ok(Some(
+                    percent_decode(database.as_bytes()).decode_utf8_lossy(),
+                )),
                 _ => Ok(None),
             }
         }
-- 
2.43.0


From f3f3ec242ca4637c23e522c28576ecc5d5d1f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:57 +0000
Subject: [PATCH 23/37] fix: report pool_max=0 in a URL as an invalid parameter
 instead of a panic

---
 src/types/options.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 4c2b683..1700664 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -2,6 +2,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     fmt,
+    num::NonZeroUsize,
     str::FromStr,
     sync::{Arc, Mutex},
     time::Duration,
@@ -540,7 +541,9 @@ where
     for (key, value) in iter {
         match key.as_ref() {
             "pool_min" => options.pool_min = parse_param(key, value, usize::from_str)?,
-            "pool_max" => options.pool_max = parse_param(key, value, usize::from_str)?,
+            "pool_max" => {
+                options.pool_max = parse_param(key, value, NonZeroUsize::from_str)?.get()
+            }
             "nodelay" => options.nodelay = parse_param(key, value, bool::from_str)?,
             "keepalive" => options.keepalive = parse_param(key, value, parse_opt_duration)?,
             "ping_before_query" => {
-- 
2.43.0


From f31a32974ba24d9744c0a0710a6bcbc708d0332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:57 +0000
Subject: [PATCH 24/37] fix: alternative hosts without a port, and empty ones

---
 src/connecting_stream.rs | 5 ++++-
 src/types/options.rs     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/connecting_stream.rs b/src/connecting_stream.rs
index b23a4c9..9bc6d30 100644
--- a/src/connecting_stream.rs
+++ b/src/connecting_stream.rs
@@ -25,6 +25,9 @@ use crate::{errors::ConnectionError, io::Stream as InnerStream, Options};
 #[cfg(feature = "tls")]
 use tokio_native_tls::TlsStream;
 
+/// Port of the binary protocol.
+const DEFAULT_PORT: u16 = 9000;
+
 type Result<T> = std::result::Result<T, ConnectionError>;
 
 type ConnectingFuture<T> = BoxFuture<'static, Result<T>>;
@@ -117,7 +120,7 @@ pub(crate) struct ConnectingStream {
 impl ConnectingStream {
     #[allow(unused_variables)]
     pub(crate) fn new(addr: &Url, options: &Options) -> Self {
-        match addr.socket_addrs(|| None) {
+        match addr.socket_addrs(|| Some(DEFAULT_PORT)) {
             Ok(addresses) => {
                 let streams: Vec<_> = addresses
                     .iter()
diff --git a/src/types/options.rs b/src/types/options.rs
index 1700664..90c0e0b 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -674,8 +674,8 @@ fn parse_hosts(source: &str) -> std::result::Result<Vec<Url>, ()> {
     let mut result = Vec::new();
     for host in source.split(',') {
         match Url::from_str(&format!("tcp://{host}")) {
-            Ok(url) => result.push(url),
-            Err(_) => return Err(()),
+            Ok(url) if url.has_host() => result.push(url),
+            _ => return Err(()),
         }
     }
     Ok(result)
-- 
2.43.0


From 7f802b464d75e7201352bb36746fb54ed50d3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 25/37] fix: DateTime64 before 1970 and outside of the
 nanosecond range

Sub-second values before 1970 gave a negative number of nanoseconds and a
panic; values which do not fit 64-bit nanoseconds overflowed. What chrono
cannot represent is now an error of the conversion.
---
 src/types/column/datetime64.rs | 47 +++++++++++++++-------------------
 src/types/from_sql.rs          |  8 +++---
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index c1f9763..8bbe38c 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -114,8 +114,23 @@ impl ColumnData for DateTime64ColumnData {
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
     let base10: i64 = 10;
-    let timestamp = time.timestamp_nanos_opt().unwrap();
-    timestamp / base10.pow(9 - precision)
+    let ticks = i64::from(time.timestamp_subsec_nanos()) / base10.pow(9 - precision);
+    // The sum may fit where the product alone does not (before 1970).
+    let stamp = i128::from(time.timestamp()) * i128::from(base10.pow(precision));
+    i64::try_from(stamp + i128::from(ticks)).unwrap()
+}
+
+/// Splits a number of ticks since the epoch into whole seconds and the nanoseconds past them.
+pub(crate) fn split_ticks(value: i64, precision: u32) -> (i64, u32) {
+    let base10: i64 = 10;
+
+    if precision <= 9 {
+        let ticks = base10.pow(precision);
+        let nsec = value.rem_euclid(ticks) * base10.pow(9 - precision);
+        (value.div_euclid(ticks), nsec as u32)
+    } else {
+        (0, 0)
+    }
 }
 
 #[inline(always)]
@@ -125,34 +140,14 @@ pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
 
 #[inline(always)]
 pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    tz.timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = split_ticks(value, precision);
+    tz.timestamp_opt(sec, nsec)
 }
 
 #[inline(always)]
 pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    NaiveDateTime::from_timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = split_ticks(value, precision);
+    NaiveDateTime::from_timestamp_opt(sec, nsec)
 }
 
 #[cfg(test)]
diff --git a/src/types/from_sql.rs b/src/types/from_sql.rs
index a5e580d..3d09b67 100644
--- a/src/types/from_sql.rs
+++ b/src/types/from_sql.rs
@@ -10,7 +10,7 @@ use std::{
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::to_datetime_opt,
         value::{decode_ipv4, decode_ipv6},
         Decimal, Enum16, Enum8, SqlType, ValueRef,
     },
@@ -210,7 +210,7 @@ from_sql_vec_impl! {
     &'a [u8]: SqlType::String => |r| r.as_bytes(),
     Vec<u8>: SqlType::String => |r| r.as_bytes().map(<[u8]>::to_vec),
     NaiveDate: SqlType::Date => |r| Ok(r.into()),
-    DateTime<Tz>: SqlType::DateTime(_) => |r| Ok(r.into()),
+    DateTime<Tz>: SqlType::DateTime(_) => |r| DateTime::<Tz>::from_sql(r),
     Enum8: SqlType::Enum8(_) => |r| Ok(r.into()),
     Enum16: SqlType::Enum16(_) => |r| Ok(r.into())
 }
@@ -323,7 +323,9 @@ impl<'a> FromSql<'a> for DateTime<Tz> {
             }
             ValueRef::DateTime64(v, params) => {
                 let (precision, tz) = *params;
-                Ok(to_datetime(v, precision, tz))
+                to_datetime_opt(v, precision, tz)
+                    .single()
+                    .ok_or(Error::FromSql(FromSqlError::OutOfRange))
             }
             _ => {
                 let from = SqlType::from(value).to_string();
-- 
2.43.0


From d62c6a4a416afce5fee900ae92add5f108e8b8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 26/37] fix: printing of negative decimals and of decimals
 without a fraction

---
 src/types/decimal.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 800ca1b..86c9a33 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -139,14 +139,16 @@ impl PartialEq for Decimal {
 }
 
 fn decimal2str(decimal: &Decimal) -> String {
-    let mut r = format!("{}", decimal.underlying);
-    while r.len() < decimal.scale() {
+    let mut r = format!("{}", decimal.underlying.unsigned_abs());
+    while r.len() <= decimal.scale() {
         r.insert(0, '0');
     }
-    let pos = r.len() - decimal.scale();
-    r.insert(pos, '.');
-    if r.starts_with('.') {
-        r.insert(0, '0');
+    if decimal.scale() > 0 {
+        let pos = r.len() - decimal.scale();
+        r.insert(pos, '.');
+    }
+    if decimal.underlying < 0 {
+        r.insert(0, '-');
     }
     r
 }
-- 
2.43.0


From a1ba535a9efec76853fd923aa9eb0d9a8976d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 27/37] fix: decimals of different scales: comparison
 overflowed, equal ones had different hashes

---
 src/types/decimal.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 86c9a33..1cdb253 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -62,10 +62,8 @@ impl Default for Decimal {
 
 impl Hash for Decimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.underlying.hash(state);
-        self.nobits.hash(state);
-        self.precision.hash(state);
-        self.scale.hash(state);
+        // Equal values of different scales have the same hash.
+        self.ticks().hash(state);
     }
 }
 
@@ -122,19 +120,7 @@ impl NoBits {
 
 impl PartialEq for Decimal {
     fn eq(&self, other: &Self) -> bool {
-        match self.scale.cmp(&other.scale) {
-            Ordering::Less => {
-                let delta = other.scale() - self.scale();
-                let underlying = self.underlying * FACTORS10[delta];
-                other.underlying == underlying
-            }
-            Ordering::Equal => self.underlying == other.underlying,
-            Ordering::Greater => {
-                let delta = self.scale() - other.scale();
-                let underlying = other.underlying * FACTORS10[delta];
-                self.underlying == underlying
-            }
-        }
+        self.ticks() == other.ticks()
     }
 }
 
@@ -243,6 +229,12 @@ impl Decimal {
         self.scale as usize
     }
 
+    /// The value in units of the smallest scale.
+    fn ticks(&self) -> i128 {
+        let delta = (FACTORS10.len() - 1).saturating_sub(self.scale());
+        i128::from(self.underlying) * i128::from(FACTORS10[delta])
+    }
+
     pub(crate) fn set_scale(self, scale: u8) -> Self {
         let underlying = match scale.cmp(&self.scale) {
             Ordering::Less => {
-- 
2.43.0


From 9c93779037adf1c6d23e0b478654e72ea9c9d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 28/37] fix: Decimal::of truncated the factor to the type of
 small integers and wrapped large ones

---
 src/types/decimal.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 1cdb253..ab3d8b0 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -67,31 +67,34 @@ impl Hash for Decimal {
     }
 }
 
-macro_rules! base_for {
-    ( $( $t:ty: $cast:expr ),* ) => {
+macro_rules! base_for_float {
+    ( $( $t:ty ),* ) => {
         $(
             impl Base for $t {
                 fn scale(self, scale: i64) -> i64 {
-                    $cast(self * (scale as $t)) as i64
+                    (self * (scale as $t)) as i64
                 }
             }
         )*
     };
 }
 
-base_for! {
-    f32: std::convert::identity,
-    f64: std::convert::identity,
-    i8: i64::from,
-    i16: i64::from,
-    i32: i64::from,
-    i64: std::convert::identity,
-    u8: i64::from,
-    u16: i64::from,
-    u32: i64::from,
-    u64 : std::convert::identity
+macro_rules! base_for_int {
+    ( $( $t:ty ),* ) => {
+        $(
+            impl Base for $t {
+                fn scale(self, scale: i64) -> i64 {
+                    i64::try_from(self).unwrap_or(i64::MAX).saturating_mul(scale)
+                }
+            }
+        )*
+    };
 }
 
+base_for_float! { f32, f64 }
+
+base_for_int! { i8, i16, i32, i64, u8, u16, u32, u64 }
+
 impl InternalResult for i32 {
     #[inline(always)]
     fn get(underlying: i64) -> Self {
@@ -189,6 +192,9 @@ impl Decimal {
         if underlying > FACTORS10[precision as usize] {
             panic!("{} > {}", underlying, FACTORS10[precision as usize]);
         }
+        if underlying < -FACTORS10[precision as usize] {
+            panic!("{} < {}", underlying, -FACTORS10[precision as usize]);
+        }
 
         Decimal {
             underlying,
-- 
2.43.0


From 0d10ad9609229adb8f45ebedcec8d16c06b5ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 29/37] fix: decimals were inserted with the scale of the value
 or cut to 32 bits

A decimal pushed into a column is rescaled to the scale of the column; a cast
of decimals which do not fit into the type of the column is an error.
---
 src/types/column/decimal.rs |  1 +
 src/types/column/mod.rs     | 21 +++++++++++++++++++++
 src/types/decimal.rs        | 15 +++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/types/column/decimal.rs b/src/types/column/decimal.rs
index cab49c8..51aaa4e 100644
--- a/src/types/column/decimal.rs
+++ b/src/types/column/decimal.rs
@@ -152,6 +152,7 @@ impl ColumnData for DecimalColumnData {
 
     fn push(&mut self, value: Value) {
         if let Value::Decimal(decimal) = value {
+            let decimal = decimal.set_scale(self.scale);
             match self.nobits {
                 NoBits::N32 => {
                     let internal: i32 = decimal.internal();
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index c08439f..e3df1b2 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -6,6 +6,7 @@ use std::{
 };
 
 use chrono_tz::Tz;
+use either::Either;
 
 use crate::{
     binary::{Encoder, ReadEx},
@@ -299,6 +300,7 @@ impl<K: ColumnType> Column<K> {
             (SqlType::Decimal(dst_p, dst_s), SqlType::Decimal(_, _)) => {
                 let name = self.name().to_owned();
                 let nobits = NoBits::from_precision(dst_p).unwrap();
+                self.check_decimals(dst_s, nobits)?;
                 let adapter = DecimalAdapter {
                     column: self,
                     precision: dst_p,
@@ -373,6 +375,7 @@ impl<K: ColumnType> Column<K> {
             ) => {
                 let name = self.name().to_owned();
                 let nobits = NoBits::from_precision(*dst_p).unwrap();
+                self.check_decimals(*dst_s, nobits)?;
                 let adapter = NullableDecimalAdapter {
                     column: self,
                     precision: *dst_p,
@@ -461,6 +464,24 @@ impl<K: ColumnType> Column<K> {
         }
     }
 
+    /// Decimals which do not fit into the destination type can't be cast.
+    fn check_decimals(&self, scale: u8, nobits: NoBits) -> Result<()> {
+        for i in 0..self.len() {
+            let fits = match self.at(i) {
+                ValueRef::Decimal(decimal) => decimal.fits(scale, nobits),
+                ValueRef::Nullable(Either::Right(value)) => match *value {
+                    ValueRef::Decimal(decimal) => decimal.fits(scale, nobits),
+                    _ => true,
+                },
+                _ => true,
+            };
+            if !fits {
+                return Err(Error::FromSql(FromSqlError::OutOfRange));
+            }
+        }
+        Ok(())
+    }
+
     pub(crate) fn push(&mut self, value: Value) {
         loop {
             match Arc::get_mut(&mut self.data) {
diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index ab3d8b0..305940c 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -241,6 +241,21 @@ impl Decimal {
         i128::from(self.underlying) * i128::from(FACTORS10[delta])
     }
 
+    /// Whether the value can be represented with another scale in 32 or 64 bits.
+    pub(crate) fn fits(&self, scale: u8, nobits: NoBits) -> bool {
+        let underlying = if scale > self.scale {
+            let delta = usize::from(scale - self.scale);
+            i128::from(self.underlying) * i128::from(FACTORS10[delta])
+        } else {
+            i128::from(self.clone().set_scale(scale).underlying)
+        };
+
+        match nobits {
+            NoBits::N32 => i32::try_from(underlying).is_ok(),
+            NoBits::N64 => i64::try_from(underlying).is_ok(),
+        }
+    }
+
     pub(crate) fn set_scale(self, scale: u8) -> Self {
         let underlying = match scale.cmp(&self.scale) {
             Ordering::Less => {
-- 
2.43.0


From 8bfe47e84affee6452ad9f724666933e0c7f5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 30/37] fix: inserting a string which is no address into an
 IPv4 or IPv6 column panicked

---
 src/types/column/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index e3df1b2..9d9ea49 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -394,8 +394,10 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv4Addr = source.parse().unwrap();
+                    let source = self.at(i).as_string()?;
+                    let ip: Ipv4Addr = source
+                        .parse()
+                        .map_err(|_| Error::FromSql(FromSqlError::OutOfRange))?;
                     let mut buffer = [0_u8; 4];
                     buffer.copy_from_slice(&ip.octets());
                     buffer.reverse();
@@ -419,8 +421,10 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv6Addr = source.parse().unwrap();
+                    let source = self.at(i).as_string()?;
+                    let ip: Ipv6Addr = source
+                        .parse()
+                        .map_err(|_| Error::FromSql(FromSqlError::OutOfRange))?;
                     inner.extend(&ip.octets());
                 }
 
-- 
2.43.0


From 8d71217ee3d16674be9ab83e9eefc669488dc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 31/37] fix: values of many types could not be hashed: reading
 a map with such keys panicked

---
 src/types/value.rs     | 24 +++++++++++++++++++++++-
 src/types/value_ref.rs | 21 ++++++++++++++++++---
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/types/value.rs b/src/types/value.rs
index 9b38b41..03e9fc3 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -75,11 +75,33 @@ impl Hash for Value {
             Self::Date(d) => d.hash(state),
             Self::DateTime(t, _) => t.hash(state),
             Self::DateTime64(t, (prec_a, _)) => (*t, *prec_a).hash(state),
-            _ => unimplemented!(),
+            Self::ChronoDateTime(t) => t.hash(state),
+            Self::Bool(b) => b.hash(state),
+            Self::Float32(f) => float_bits(f64::from(*f)).hash(state),
+            Self::Float64(f) => float_bits(*f).hash(state),
+            Self::Ipv4(ip) => ip.hash(state),
+            Self::Ipv6(ip) => ip.hash(state),
+            Self::Uuid(uuid) => uuid.hash(state),
+            Self::Nullable(Either::Left(_)) => false.hash(state),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Enum8(_, v) => v.hash(state),
+            Self::Enum16(_, v) => v.hash(state),
+            Self::Map(_, _, hm) => hm.len().hash(state),
         }
     }
 }
 
+/// Both zeros are equal, so they have the same hash.
+pub(crate) fn float_bits(value: f64) -> u64 {
+    if value == 0.0 {
+        0
+    } else {
+        value.to_bits()
+    }
+}
+
 impl Eq for Value {}
 
 impl PartialEq for Value {
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 081c0b2..bb8fb92 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -14,9 +14,9 @@ use uuid::Uuid;
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::{split_ticks, to_datetime},
         decimal::Decimal,
-        value::{decode_ipv4, decode_ipv6, AppDate, AppDateTime},
+        value::{decode_ipv4, decode_ipv6, float_bits, AppDate, AppDateTime},
         DateTimeType, Enum16, Enum8, SqlType, Value,
     },
 };
@@ -69,7 +69,22 @@ impl<'a> Hash for ValueRef<'a> {
             Self::UInt32(i) => i.hash(state),
             Self::UInt64(i) => i.hash(state),
             Self::UInt128(i) => i.hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            Self::Float32(f) => float_bits(f64::from(*f)).hash(state),
+            Self::Float64(f) => float_bits(*f).hash(state),
+            Self::Date(d) => d.hash(state),
+            Self::DateTime(t, _) => t.hash(state),
+            Self::DateTime64(t, (precision, _)) => split_ticks(*t, *precision).hash(state),
+            Self::Ipv4(ip) => ip.hash(state),
+            Self::Ipv6(ip) => ip.hash(state),
+            Self::Uuid(uuid) => uuid.hash(state),
+            Self::Nullable(Either::Left(_)) => false.hash(state),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Enum8(_, v) => v.hash(state),
+            Self::Enum16(_, v) => v.hash(state),
+            Self::Map(_, _, hm) => hm.len().hash(state),
         }
     }
 }
-- 
2.43.0


From b1be8856f7a61640a926b4843c93e7a424c02eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 32/37] fix: equal maps, addresses, UUIDs, booleans and
 instants were not equal as values or overflowed

---
 src/types/value.rs     | 26 +++-----------------------
 src/types/value_ref.rs | 14 +++++++++-----
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/types/value.rs b/src/types/value.rs
index 03e9fc3..7d9c4ca 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -140,29 +140,9 @@ impl PartialEq for Value {
             (Value::Ipv4(a), Value::Ipv4(b)) => *a == *b,
             (Value::Ipv6(a), Value::Ipv6(b)) => *a == *b,
             (Value::Uuid(a), Value::Uuid(b)) => *a == *b,
-            (Value::DateTime64(a, (prec_a, tz_a)), Value::DateTime64(b, (prec_b, tz_b))) => {
-                // chrono has no "variable-precision" offset method. As a
-                // fallback, we always use `timestamp_nanos` and multiply by
-                // the correct value.
-                #[rustfmt::skip]
-                const MULTIPLIERS: [i64; 10] = [
-                    1_000_000_000, // 1 s  is 10^9 nanos
-                      100_000_000,
-                       10_000_000,
-                        1_000_000, // 1 ms is 10^6 nanos
-                          100_000,
-                           10_000,
-                            1_000, // 1 µs is 10^3 nanos
-                              100,
-                               10,
-                                1, // 1 ns is 1 nanos!
-                ];
-
-                // The precision must be in the [0 - 9] range. As such, the
-                // following indexing can not fail.
-                prec_a == prec_b
-                    && tz_a.timestamp_nanos(a * MULTIPLIERS[*prec_a as usize])
-                        == tz_b.timestamp_nanos(b * MULTIPLIERS[*prec_b as usize])
+            (Value::Map(ka, va, a), Value::Map(kb, vb, b)) => ka == kb && va == vb && a == b,
+            (Value::DateTime64(a, (prec_a, _)), Value::DateTime64(b, (prec_b, _))) => {
+                prec_a == prec_b && a == b
             }
 
             _ => false,
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index bb8fb92..973b713 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -94,6 +94,7 @@ impl<'a> Eq for ValueRef<'a> {}
 impl<'a> PartialEq for ValueRef<'a> {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
+            (ValueRef::Bool(a), ValueRef::Bool(b)) => *a == *b,
             (ValueRef::UInt8(a), ValueRef::UInt8(b)) => *a == *b,
             (ValueRef::UInt16(a), ValueRef::UInt16(b)) => *a == *b,
             (ValueRef::UInt32(a), ValueRef::UInt32(b)) => *a == *b,
@@ -107,6 +108,9 @@ impl<'a> PartialEq for ValueRef<'a> {
             (ValueRef::String(a), ValueRef::String(b)) => *a == *b,
             (ValueRef::Float32(a), ValueRef::Float32(b)) => *a == *b,
             (ValueRef::Float64(a), ValueRef::Float64(b)) => *a == *b,
+            (ValueRef::Ipv4(a), ValueRef::Ipv4(b)) => *a == *b,
+            (ValueRef::Ipv6(a), ValueRef::Ipv6(b)) => *a == *b,
+            (ValueRef::Uuid(a), ValueRef::Uuid(b)) => *a == *b,
             (ValueRef::Date(a), ValueRef::Date(b)) => *a == *b,
             (ValueRef::DateTime(a, tz_a), ValueRef::DateTime(b, tz_b)) => {
                 let time_a = tz_a.timestamp_opt(i64::from(*a), 0);
@@ -119,11 +123,11 @@ impl<'a> PartialEq for ValueRef<'a> {
             (ValueRef::Enum8(a0, a1), ValueRef::Enum8(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::Enum16(a0, a1), ValueRef::Enum16(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::DateTime64(this, this_params), ValueRef::DateTime64(that, that_params)) => {
-                let (this_precision, this_tz) = **this_params;
-                let (that_precision2, that_tz) = **that_params;
+                let (this_precision, _) = **this_params;
+                let (that_precision, _) = **that_params;
 
-                let this_time = to_datetime(*this, this_precision, this_tz);
-                let that_time = to_datetime(*that, that_precision2, that_tz);
+                let this_time = split_ticks(*this, this_precision);
+                let that_time = split_ticks(*that, that_precision);
 
                 this_time == that_time
             }
@@ -423,7 +427,7 @@ impl<'a> From<&'a Value> for ValueRef<'a> {
             Value::Ipv4(v) => ValueRef::Ipv4(*v),
             Value::Ipv6(v) => ValueRef::Ipv6(*v),
             Value::Uuid(v) => ValueRef::Uuid(*v),
-            Value::ChronoDateTime(_) => unimplemented!(),
+            Value::ChronoDateTime(t) => ValueRef::DateTime(t.timestamp() as u32, t.timezone()),
             Value::Map(k, v, vs) => {
                 let mut ref_map = HashMap::with_capacity(vs.len());
                 for (k, v) in vs.iter() {
-- 
2.43.0


From 14b2df5945e461b1b2d82f9317c6b193043ca4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 33/37] fix: printing an instant outside of the years of chrono
 or RFC 2822 panicked

---
 src/types/value.rs     | 21 +++++++++++++++------
 src/types/value_ref.rs |  8 +++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/types/value.rs b/src/types/value.rs
index 7d9c4ca..818d0c9 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -14,7 +14,7 @@ use either::Either;
 use uuid::Uuid;
 
 use crate::types::{
-    column::datetime64::{to_datetime, DEFAULT_TZ},
+    column::datetime64::{to_datetime, to_datetime_opt, DEFAULT_TZ},
     decimal::{Decimal, NoBits},
     DateConverter, DateTimeType, Enum16, Enum8, HasSqlType, SqlType,
 };
@@ -193,6 +193,15 @@ impl Value {
     }
 }
 
+/// RFC 2822 has no years before 0 and after 9999.
+fn fmt_rfc2822(time: &DateTime<Tz>, f: &mut fmt::Formatter) -> fmt::Result {
+    if (0..=9999).contains(&time.year()) {
+        write!(f, "{}", time.to_rfc2822())
+    } else {
+        fmt::Display::fmt(time, f)
+    }
+}
+
 impl fmt::Display for Value {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
@@ -223,12 +232,12 @@ impl fmt::Display for Value {
             }
             Value::DateTime64(value, params) => {
                 let (precision, tz) = params;
-                let time = to_datetime(*value, *precision, *tz);
-                write!(f, "{}", time.to_rfc2822())
-            }
-            Value::ChronoDateTime(time) => {
-                write!(f, "{}", time.to_rfc2822())
+                match to_datetime_opt(*value, *precision, *tz).single() {
+                    Some(time) => fmt_rfc2822(&time, f),
+                    None => fmt::Display::fmt(value, f),
+                }
             }
+            Value::ChronoDateTime(time) => fmt_rfc2822(time, f),
             Value::Date(v) if f.alternate() => {
                 let date = NaiveDate::from_ymd_opt(1970, 1, 1)
                     .map(|unix_epoch| unix_epoch + Duration::days((*v).into()))
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 973b713..14b0796 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -14,7 +14,7 @@ use uuid::Uuid;
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::{split_ticks, to_datetime},
+        column::datetime64::{split_ticks, to_datetime, to_datetime_opt},
         decimal::Decimal,
         value::{decode_ipv4, decode_ipv6, float_bits, AppDate, AppDateTime},
         DateTimeType, Enum16, Enum8, SqlType, Value,
@@ -184,8 +184,10 @@ impl<'a> fmt::Display for ValueRef<'a> {
             }
             ValueRef::DateTime64(u, params) => {
                 let (precision, tz) = **params;
-                let time = to_datetime(*u, precision, tz);
-                fmt::Display::fmt(&time.format("%Y-%m-%d %H:%M:%S"), f)
+                match to_datetime_opt(*u, precision, tz).single() {
+                    Some(time) => fmt::Display::fmt(&time.format("%Y-%m-%d %H:%M:%S"), f),
+                    None => fmt::Display::fmt(u, f),
+                }
             }
             ValueRef::Nullable(v) => match v {
                 Either::Left(_) => write!(f, "NULL"),
-- 
2.43.0


From a7e697218a2e4bef2ac1780055cf41e1a7703024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 34/37] fix: pushing into a clone of a block with nullable,
 array, map or low cardinality columns panicked

---
 src/types/column/array.rs           | 2 +-
 src/types/column/low_cardinality.rs | 2 +-
 src/types/column/map.rs             | 4 ++--
 src/types/column/nullable.rs        | 2 +-
 src/types/column/simple_agg_func.rs | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index c094135..cdd1ef6 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -100,7 +100,7 @@ impl ColumnData for ArrayColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             offsets: self.offsets.clone(),
         })
     }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index ced57d6..27157fd 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -351,7 +351,7 @@ impl ColumnData for LowCardinalityColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             index: self.index.clone(),
             value_map: None,
         })
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 3b7d7ef..8b76644 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -111,8 +111,8 @@ impl ColumnData for MapColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            keys: self.keys.clone(),
-            values: self.values.clone(),
+            keys: Arc::from(self.keys.clone_instance()),
+            values: Arc::from(self.values.clone_instance()),
             offsets: self.offsets.clone(),
             size: self.size,
         })
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 75267b6..528d00a 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -84,7 +84,7 @@ impl ColumnData for NullableColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             nulls: self.nulls.clone(),
         })
     }
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..fc815ae 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -57,7 +57,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             func: self.func,
         })
     }
-- 
2.43.0


From 5790ea41e150c386694cecc1ffa847d4e05ab45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 35/37] fix: rows with missing, added or mistyped columns
 corrupted a block or panicked

Block::push checks the whole row before the first value is pushed.
---
 src/types/block/builder.rs | 62 +++++++++++++++++++++++++++++++++++++-
 src/types/block/mod.rs     |  3 ++
 src/types/value.rs         | 45 +++++++++++++++++++++++++++
 3 files changed, 109 insertions(+), 1 deletion(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 3ed3a2e..5c44318 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -8,12 +8,18 @@ use crate::{
     types::{
         block::ColumnIdx,
         column::{datetime64::DEFAULT_TZ, ArcColumnWrapper, ColumnData},
-        Column, ColumnType, Value,
+        Column, ColumnType, SqlType, Value,
     },
     Block,
 };
 
 pub trait RowBuilder {
+    /// Names of columns and the values for them.
+    #[doc(hidden)]
+    fn entries(&self) -> Option<Vec<(&str, &Value)>> {
+        None
+    }
+
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()>;
 }
 
@@ -52,6 +58,10 @@ where
 }
 
 impl RowBuilder for RNil {
+    fn entries(&self) -> Option<Vec<(&str, &Value)>> {
+        Some(Vec::new())
+    }
+
     #[inline(always)]
     fn apply<K: ColumnType>(self, _block: &mut Block<K>) -> Result<()> {
         Ok(())
@@ -62,6 +72,12 @@ impl<T> RowBuilder for RCons<T>
 where
     T: RowBuilder,
 {
+    fn entries(&self) -> Option<Vec<(&str, &Value)>> {
+        let mut entries = self.tail.entries()?;
+        entries.push((self.key.as_ref(), &self.value));
+        Some(entries)
+    }
+
     #[inline(always)]
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
         put_param(self.key, self.value, block)?;
@@ -70,6 +86,10 @@ where
 }
 
 impl RowBuilder for Vec<(String, Value)> {
+    fn entries(&self) -> Option<Vec<(&str, &Value)>> {
+        Some(self.iter().map(|(k, v)| (k.as_str(), v)).collect())
+    }
+
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
         for (k, v) in self {
             put_param(k.into(), v, block)?;
@@ -78,6 +98,46 @@ impl RowBuilder for Vec<(String, Value)> {
     }
 }
 
+/// A row has one value for each column, which the column can hold. Only the first row makes columns.
+pub(crate) fn check_row<K: ColumnType>(block: &Block<K>, entries: &[(&str, &Value)]) -> Result<()> {
+    let mut seen = vec![false; block.column_count()];
+    let mut created = Vec::new();
+
+    for (key, value) in entries {
+        match key.get_index(&block.columns) {
+            Ok(index) => {
+                let sql_type = block.columns[index].sql_type();
+                if seen[index] {
+                    return Err(Error::FromSql(FromSqlError::OutOfRange));
+                }
+                if !value.fits(&sql_type) {
+                    return Err(Error::FromSql(FromSqlError::InvalidType {
+                        src: SqlType::from((*value).clone()).to_string(),
+                        dst: sql_type.to_string(),
+                    }));
+                }
+                seen[index] = true;
+            }
+            Err(err) => {
+                if block.row_count() > 0 || created.contains(key) {
+                    return Err(err);
+                }
+                let sql_type = SqlType::from((*value).clone());
+                if !value.fits(&sql_type) {
+                    return Err(Error::FromSql(FromSqlError::UnsupportedOperation));
+                }
+                created.push(key);
+            }
+        }
+    }
+
+    if seen.contains(&false) {
+        return Err(Error::FromSql(FromSqlError::OutOfRange));
+    }
+
+    Ok(())
+}
+
 fn put_param<K: ColumnType>(
     key: Cow<'static, str>,
     value: Value,
diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index f426f9a..bf99f4b 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -271,6 +271,9 @@ impl<K: ColumnType> Block<K> {
 
     /// This method is a convenient way to pass row into a block.
     pub fn push<B: RowBuilder>(&mut self, row: B) -> Result<()> {
+        if let Some(entries) = row.entries() {
+            builder::check_row(self, &entries)?;
+        }
         row.apply(self)
     }
 
diff --git a/src/types/value.rs b/src/types/value.rs
index 818d0c9..ac4b519 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -151,6 +151,51 @@ impl PartialEq for Value {
 }
 
 impl Value {
+    /// Whether a column of this type can hold the value.
+    pub(crate) fn fits(&self, sql_type: &SqlType) -> bool {
+        match (sql_type, self) {
+            (SqlType::Bool, Value::Bool(_))
+            | (SqlType::UInt8, Value::UInt8(_))
+            | (SqlType::UInt16, Value::UInt16(_))
+            | (SqlType::UInt32, Value::UInt32(_))
+            | (SqlType::UInt64, Value::UInt64(_))
+            | (SqlType::UInt128, Value::UInt128(_))
+            | (SqlType::Int8, Value::Int8(_))
+            | (SqlType::Int16, Value::Int16(_))
+            | (SqlType::Int32, Value::Int32(_))
+            | (SqlType::Int64, Value::Int64(_))
+            | (SqlType::Int128, Value::Int128(_))
+            | (SqlType::Float32, Value::Float32(_))
+            | (SqlType::Float64, Value::Float64(_))
+            | (SqlType::String | SqlType::FixedString(_), Value::String(_))
+            | (SqlType::Date, Value::Date(_))
+            | (SqlType::DateTime(_), Value::DateTime(..) | Value::ChronoDateTime(_))
+            | (SqlType::Ipv4, Value::Ipv4(_))
+            | (SqlType::Ipv6, Value::Ipv6(_))
+            | (SqlType::Uuid, Value::Uuid(_))
+            | (SqlType::Enum8(_), Value::Enum8(..))
+            | (SqlType::Enum16(_), Value::Enum16(..)) => true,
+            (SqlType::DateTime(_), Value::DateTime64(ticks, (precision, tz))) => {
+                to_datetime_opt(*ticks, *precision, *tz).single().is_some()
+            }
+            (SqlType::Decimal(precision, scale), Value::Decimal(v)) => {
+                NoBits::from_precision(*precision).map_or(false, |bits| v.fits(*scale, bits))
+            }
+            (SqlType::Nullable(inner), Value::Nullable(Either::Left(t))) => {
+                Value::default((*t).clone()).fits(inner)
+            }
+            (SqlType::Nullable(inner), Value::Nullable(Either::Right(v))) => v.fits(inner),
+            (SqlType::Nullable(inner), v) => v.fits(inner),
+            (SqlType::Array(inner), Value::Array(_, vs)) => vs.iter().all(|v| v.fits(inner)),
+            (SqlType::Map(k, v), Value::Map(_, _, vs)) => {
+                vs.iter().all(|(x, y)| x.fits(k) && y.fits(v))
+            }
+            (SqlType::LowCardinality(inner), v) => v.fits(inner),
+            (SqlType::SimpleAggregateFunction(_, inner), v) => v.fits(inner),
+            _ => false,
+        }
+    }
+
     pub(crate) fn default(sql_type: SqlType) -> Value {
         match sql_type {
             SqlType::Bool => Value::Bool(false),
-- 
2.43.0


From 413470731557a34ef37a04e17f234de63155b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 36/37] verif: length of a column

---
 src/verif_hooks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 76557e0..3b35e6b 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -332,3 +332,8 @@ pub fn options_view(options: &Options) -> OptionsView {
         alt_hosts: o.alt_hosts.iter().map(|h| h.to_string()).collect(),
     }
 }
+
+/// The number of rows of one column.
+pub fn column_len<K: crate::types::ColumnType>(column: &crate::types::Column<K>) -> usize {
+    column.len()
+}
-- 
2.43.0


From 07bdadc99de38bcf44dad16f9eb9af5d1f4fc27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 37/37] fix: a DateTime64 column which was read could not be
 inserted

---
 src/types/column/datetime64.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 8bbe38c..5c0cd5b 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -52,8 +52,10 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for index in start..end {
+            encoder.write(self.data.at(index));
+        }
     }
 
     fn len(&self) -> usize {
-- 
2.43.0

