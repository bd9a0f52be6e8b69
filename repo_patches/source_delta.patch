From 623257dc55908a43dc6aae35b9edd011c649e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 01/73] sync-lsp: connection constructor for verification,
 behind cfg(tinymist_verif)

---
 crates/sync-lsp/src/lib.rs        |  3 +++
 crates/sync-lsp/src/verif_hook.rs | 28 ++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)
 create mode 100644 crates/sync-lsp/src/verif_hook.rs

diff --git a/crates/sync-lsp/src/lib.rs b/crates/sync-lsp/src/lib.rs
index d734a93..188e4f6 100644
--- a/crates/sync-lsp/src/lib.rs
+++ b/crates/sync-lsp/src/lib.rs
@@ -28,3 +28,6 @@ pub use crate::msg::ResponseError;
 pub type LspResult<T> = Result<T, ResponseError>;
 /// The common event type for language servers.
 pub type Event = Box<dyn Any + Send>;
+
+#[cfg(all(tinymist_verif, feature = "server"))]
+mod verif_hook;
diff --git a/crates/sync-lsp/src/verif_hook.rs b/crates/sync-lsp/src/verif_hook.rs
new file mode 100644
index 0000000..2410568
--- /dev/null
+++ b/crates/sync-lsp/src/verif_hook.rs
@@ -0,0 +1,28 @@
+//! Verification hook: builds a connection from plain channels. It is compiled
+//! only with `--cfg tinymist_verif`.
+
+use crossbeam_channel::{Receiver, Sender};
+
+use crate::{Connection, ConnectionRx, ConnectionTx, Event, Message};
+
+impl Connection<Message> {
+    /// Creates a connection from the channels of the events and messages.
+    pub fn verif_from_channels(
+        event: (Sender<Event>, Receiver<Event>),
+        lsp: (Sender<Message>, Receiver<Message>),
+    ) -> Self {
+        let marker = std::marker::PhantomData;
+        Self {
+            sender: ConnectionTx {
+                event: event.0,
+                lsp: lsp.0,
+                marker,
+            },
+            receiver: ConnectionRx {
+                event: event.1,
+                lsp: lsp.1,
+                marker,
+            },
+        }
+    }
+}
-- 
2.43.0


From 0b8384234aa15de46e392782df26891431910487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 02/73] fix: sync-lsp: do not trust Content-Length when
 allocating the message buffer

---
 crates/sync-lsp/src/msg.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 91bc037..9612d87 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -2,7 +2,7 @@
 
 use std::{
     fmt,
-    io::{self, BufRead, Write},
+    io::{self, BufRead, Read, Write},
 };
 
 use serde::{Deserialize, Serialize};
@@ -230,9 +230,12 @@ pub(crate) fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>>
         }
     }
     let size: usize = size.ok_or_else(|| invalid_data_fmt!("no Content-Length"))?;
-    let mut buf = buf.into_bytes();
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // Don't trust the header and only allocates memory for the received bytes.
+    let mut buf = Vec::new();
+    inp.take(size as u64).read_to_end(&mut buf)?;
+    if buf.len() < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     let buf = String::from_utf8(buf).map_err(invalid_data)?;
     log::debug!("< {buf}");
     Ok(Some(buf))
-- 
2.43.0


From bb9b8db40c06d87165b3777fea628583ab85c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 03/73] fix: sync-lsp: refuse a resource request without a path
 instead of panicking

---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..e439d54 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -617,8 +617,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let path = args
+            .first()
+            .ok_or_else(|| invalid_params("missing resource path"))?;
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From ef3a9f30af0fbee85769f1783e18f536873e04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 04/73] fix: sync-lsp: keep the data of an error in the
 response

---
 crates/sync-lsp/src/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index e439d54..7edb9aa 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -308,7 +308,12 @@ impl LspClient {
             #[cfg(feature = "lsp")]
             (MessageKind::Lsp, Ok(resp)) => lsp::Response::new_ok(id, resp).into(),
             #[cfg(feature = "lsp")]
-            (MessageKind::Lsp, Err(e)) => lsp::Response::new_err(id, e.code, e.message).into(),
+            (MessageKind::Lsp, Err(e)) => lsp::Response {
+                id,
+                result: None,
+                error: Some(e),
+            }
+            .into(),
             #[cfg(feature = "dap")]
             (MessageKind::Dap, Ok(resp)) => dap::Response::success(RequestId::dap(id), resp).into(),
             #[cfg(feature = "dap")]
-- 
2.43.0


From 46f009a19db22d09f8eab594f121ed0ec2095133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 05/73] fix: sync-lsp: do not truncate the sequence numbers of
 debug adapter requests

---
 crates/sync-lsp/src/msg.rs            | 14 +++++++++++++-
 crates/sync-lsp/src/server.rs         |  3 +--
 crates/sync-lsp/src/server/dap_srv.rs |  2 +-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 9612d87..8786726 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -18,11 +18,23 @@ use crate::lsp;
 pub struct RequestId(IdRepr);
 
 impl RequestId {
+    /// Creates the ID of a DAP message. A sequence number that doesn't fit into
+    /// the number representation is kept as a string.
+    #[cfg(all(feature = "dap", feature = "server"))]
+    pub(crate) fn from_dap(seq: i64) -> RequestId {
+        match i32::try_from(seq) {
+            Ok(it) => it.into(),
+            Err(_) => seq.to_string().into(),
+        }
+    }
+
     #[cfg(all(feature = "dap", feature = "server"))]
     pub(crate) fn dap(id: RequestId) -> i64 {
         match id.0 {
             IdRepr::I32(it) => it as i64,
-            IdRepr::String(it) => panic!("unexpected string ID in DAP: {it}"),
+            IdRepr::String(it) => it
+                .parse()
+                .unwrap_or_else(|_| panic!("unexpected string ID in DAP: {it}")),
         }
     }
 }
diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 7edb9aa..37f46a7 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -277,8 +277,7 @@ impl LspClient {
         let mut req_queue = self.req_queue.lock();
         let Some(handler) = req_queue
             .outgoing
-            // todo: casting i64 to i32
-            .complete((response.request_seq as i32).into())
+            .complete(RequestId::from_dap(response.request_seq))
         else {
             log::warn!("received response for unknown request");
             return;
diff --git a/crates/sync-lsp/src/server/dap_srv.rs b/crates/sync-lsp/src/server/dap_srv.rs
index 463158e..d585085 100644
--- a/crates/sync-lsp/src/server/dap_srv.rs
+++ b/crates/sync-lsp/src/server/dap_srv.rs
@@ -181,7 +181,7 @@ where
     /// Registers and handles a request. This should only be called once per
     /// incoming request.
     fn on_request(&mut self, request_received: Instant, req: dap::Request) {
-        let req_id = (req.seq as i32).into();
+        let req_id = RequestId::from_dap(req.seq);
         self.client
             .register_request(&req.command, &req_id, request_received);
 
-- 
2.43.0


From b5c7a01605f15e187941d0b14a1c18ca6d75ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 06/73] fix: a system time outside the supported years has no
 date instead of panicking

UtcDateTime::from(SystemTime) panics outside the years the type can hold,
although the conversion returns an option.
---
 crates/tinymist-std/src/time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/time.rs b/crates/tinymist-std/src/time.rs
index f158568..03c6a18 100644
--- a/crates/tinymist-std/src/time.rs
+++ b/crates/tinymist-std/src/time.rs
@@ -49,7 +49,11 @@ impl ToUtcDateTime for i64 {
 impl ToUtcDateTime for Time {
     /// Converts a system time to a [`UtcDateTime`].
     fn to_utc_datetime(self) -> Option<UtcDateTime> {
-        Some(UtcDateTime::from(self))
+        // The conversion `UtcDateTime::from` panics on times out of range.
+        match self.duration_since(Time::UNIX_EPOCH) {
+            Ok(since) => UtcDateTime::UNIX_EPOCH.checked_add(since.try_into().ok()?),
+            Err(until) => UtcDateTime::UNIX_EPOCH.checked_sub(until.duration().try_into().ok()?),
+        }
     }
 }
 
-- 
2.43.0


From b166373872b884c8397ae740e02c302724617521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 07/73] fix: an error without a location prints as its message

The branch for an empty location printed the location all the same, so that
every such error started with ': '.
---
 crates/tinymist-std/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/error.rs b/crates/tinymist-std/src/error.rs
index a751f2a..2ccaca5 100644
--- a/crates/tinymist-std/src/error.rs
+++ b/crates/tinymist-std/src/error.rs
@@ -225,7 +225,7 @@ impl fmt::Display for Error {
                     if msg.is_empty() {
                         write_with_args!(f, err.args, "{}", err.loc)
                     } else {
-                        write_with_args!(f, err.args, "{}: {msg}", err.loc)
+                        write_with_args!(f, err.args, "{msg}")
                     }
                 }
                 #[cfg(feature = "typst")]
-- 
2.43.0


From 1264f3ffca388c0eb097f3454a219a750f54ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 08/73] fix: text that is no fingerprint is rejected instead of
 panicking

Fingerprint::try_from_str returns a result but panicked on short or
malformed text, and accepted texts that are not the id of any fingerprint
(a high half of more than eight bytes, or with trailing zero bytes).
---
 crates/tinymist-std/src/hash.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index f356f9f..8e8a372 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -13,7 +13,7 @@ use siphasher::sip128::{Hasher128, SipHasher13};
 #[cfg(feature = "rkyv")]
 use rkyv::{Archive, Deserialize as rDeser, Serialize as rSer};
 
-use crate::error::prelude::Result;
+use crate::error::prelude::*;
 
 pub(crate) type FxBuildHasher = std::hash::BuildHasherDefault<FxHasher>;
 pub use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
@@ -89,15 +89,25 @@ impl Fingerprint {
 
     /// Creates a new `Fingerprint` from a svg id that **doesn't have prefix**.
     pub fn try_from_str(s: &str) -> Result<Self> {
-        let bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[..11])
-            .expect("invalid base64 string");
-        let lo = u64::from_le_bytes(bytes.try_into().unwrap());
-        let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[11..])
-            .expect("invalid base64 string");
-        bytes.resize(8, 0);
-        let hi = u64::from_le_bytes(bytes.try_into().unwrap());
+        let decode = |text: &[u8]| {
+            base64::engine::general_purpose::STANDARD_NO_PAD
+                .decode(text)
+                .map_err(map_string_err("invalid fingerprint"))
+        };
+        let Some((lo, hi)) = s.as_bytes().split_at_checked(11) else {
+            bail!("invalid fingerprint: {s:?}");
+        };
+
+        let lo = decode(lo)?;
+        let mut hi = decode(hi)?;
+        // The high half is written without its trailing zeros.
+        if lo.len() != 8 || hi.len() > 8 || hi.last() == Some(&0) {
+            bail!("invalid fingerprint: {s:?}");
+        }
+
+        hi.resize(8, 0);
+        let lo = u64::from_le_bytes(lo.try_into().unwrap());
+        let hi = u64::from_le_bytes(hi.try_into().unwrap());
         Ok(Self::from_pair(lo, hi))
     }
 
-- 
2.43.0


From dc74bce773bcecc4f26ec80c92db2c9188c5e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 09/73] fix: a fingerprint map can be asked for any shard count

Rounding a count above 2^31 up to a power of two overflowed, before the
count was limited to 512 shards.
---
 crates/tinymist-std/src/adt/fmap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/adt/fmap.rs b/crates/tinymist-std/src/adt/fmap.rs
index 896c446..548fa42 100644
--- a/crates/tinymist-std/src/adt/fmap.rs
+++ b/crates/tinymist-std/src/adt/fmap.rs
@@ -56,8 +56,9 @@ impl<V> Default for FingerprintMap<V> {
 impl<V> FingerprintMap<V> {
     /// Create a new `FingerprintMap` with the given shard size.
     pub fn new(shard_size: NonZeroU32) -> Self {
-        let shard_size = shard_size.get().next_power_of_two();
-        let shard_size = shard_size.min(MAX_SHARD_SIZE);
+        // Bound the size first, rounding up a huge size would overflow.
+        let shard_size = shard_size.get().min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.next_power_of_two();
 
         assert!(
             shard_size.is_power_of_two(),
-- 
2.43.0


From 36b6887a0eff5dd5aeaae7354f29eb34cc46217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 10/73] fix: normalizing keeps a leading '..' of a relative
 path

'../a' was normalized to 'a', which is another file; cargo has since fixed
the same function in the same way.
---
 crates/tinymist-std/src/fs/paths.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 0c43b6a..e5aa7a7 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -99,7 +99,10 @@ pub fn normalize_path(path: &Path) -> PathBuf {
             }
             Component::CurDir => {}
             Component::ParentDir => {
-                ret.pop();
+                // A leading `..` of a relative path has nothing to cancel.
+                if ret.ends_with(Component::ParentDir) || (!ret.pop() && !ret.has_root()) {
+                    ret.push(Component::ParentDir);
+                }
             }
             Component::Normal(c) => {
                 ret.push(c);
-- 
2.43.0


From 1055ee7d1e0eb22da6048952d82adf30cce6fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 11/73] fix: no relative path leads back out of a base's
 leading '..'

From '../..' to '..' the difference was given as '..', which leads to
'../../..'; and from 'a/..' to the empty path as '..'.
---
 crates/tinymist-std/src/path.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-std/src/path.rs b/crates/tinymist-std/src/path.rs
index 424a2f9..c342b89 100644
--- a/crates/tinymist-std/src/path.rs
+++ b/crates/tinymist-std/src/path.rs
@@ -55,8 +55,10 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
     // Because of <https://github.com/Manishearth/pathdiff/issues/8>, we have to clean the path
     // before diff.
     fn clean_for_diff(p: &Path) -> Cow<'_, Path> {
-        if p.components()
-            .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
+        // The empty path is the current directory.
+        if p.as_os_str().is_empty()
+            || p.components()
+                .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
         {
             Cow::Owned(p.clean())
         } else {
@@ -64,7 +66,20 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
         }
     }
 
-    pathdiff::diff_paths(clean_for_diff(fr).as_ref(), clean_for_diff(to).as_ref())
+    fn leading_parents(p: &Path) -> usize {
+        p.components()
+            .take_while(|c| matches!(c, Component::ParentDir))
+            .count()
+    }
+
+    let (fr, to) = (clean_for_diff(fr), clean_for_diff(to));
+    // The names of the directories that `..` leaves are unknown, there is no way
+    // back into them.
+    if fr.is_relative() && leading_parents(&to) > leading_parents(&fr) {
+        return None;
+    }
+
+    pathdiff::diff_paths(fr.as_ref(), to.as_ref())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 83dba2c275ca83f96ad9b882ceec1b8aec106e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 12/73] fix: creating a directory where a file is fails instead
 of reporting success

---
 crates/tinymist-std/src/fs/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index e5aa7a7..3146736 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -672,7 +672,7 @@ pub fn create_dir_all_excluded_from_backups_atomic(p: impl AsRef<Path>) -> Resul
     // directory (which didn't exist a moment earlier) exists we can infer from
     // it's another cargo process doing work.
     if let Err(e) = fs::rename(tempdir.path(), path) {
-        if !path.exists() {
+        if !path.is_dir() {
             return Err(anyhow::Error::from(e))
                 .with_context(|| format!("failed to create directory `{}`", path.display()));
         }
-- 
2.43.0


From e111bdcd56bc92ccb8774da05d28d3487d94d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 13/73] fix: linking a directory given by a relative path does
 not leave a broken link

---
 crates/tinymist-std/src/fs/paths.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 3146736..36b5829 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -548,12 +548,13 @@ fn _link_or_copy(src: &Path, dst: &Path) -> Result<()> {
         use std::os::windows::fs::symlink_dir as symlink;
 
         let dst_dir = dst.parent().unwrap();
+        // A relative link is read from where it is, not from the working directory.
         let src = if src.starts_with(dst_dir) {
-            src.strip_prefix(dst_dir).unwrap()
+            Ok(src.strip_prefix(dst_dir).unwrap().to_path_buf())
         } else {
-            src
+            std::path::absolute(src)
         };
-        symlink(src, dst)
+        src.and_then(|src| symlink(src, dst))
     } else if cfg!(target_os = "macos") {
         // There seems to be a race condition with APFS when hard-linking
         // binaries. Gatekeeper does not have signing or hash information
-- 
2.43.0


From 1656664ce91ae069b71c1c897c5c76a5f60a5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 14/73] fix: linking a file given by a symlink links the file
 itself

---
 crates/tinymist-std/src/fs/paths.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 36b5829..76d67eb 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -584,7 +584,8 @@ fn _link_or_copy(src: &Path, dst: &Path) -> Result<()> {
             |_| Ok(()),
         )
     } else {
-        fs::hard_link(src, dst)
+        // A symlink would be linked itself, and may lead elsewhere from `dst`.
+        fs::canonicalize(src).and_then(|src| fs::hard_link(src, dst))
     };
     link_result
         .or_else(|err| {
-- 
2.43.0


From 8817742195558cca561b06463a9e02938d0a9916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 15/73] fix: failing to remove a symlink does not change the
 permissions of its target

---
 crates/tinymist-std/src/fs/paths.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 76d67eb..20d1dfa 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -492,6 +492,10 @@ where
 }
 
 fn set_not_readonly(p: &Path) -> io::Result<bool> {
+    // These would be the permissions of the file the symlink leads to.
+    if p.symlink_metadata()?.is_symlink() {
+        return Ok(false);
+    }
     let mut perms = p.metadata()?.permissions();
     if !perms.readonly() {
         return Ok(false);
-- 
2.43.0


From 8900580dda1a46202f455f4f18081bd7d6f019c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 16/73] fix: formatting a message keeps the text around its
 placeholders

---
 crates/tinymist-l10n/src/lib.rs | 45 ++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..d8a52f1 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -233,31 +233,30 @@ pub fn t_with_args(
     //     }
     // }
 
-    let message_iter = &mut message.chars();
-    while let Some(c) = message_iter.next() {
-        if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
-
-            let Some(arg) = args
-                .iter()
-                .find(|(k, _)| k == &arg_index_str)
-                .map(|(_, v)| v)
-            else {
-                result.push(c);
-                result.push_str(&arg_index_str);
-                continue;
-            };
-
-            match arg {
-                Arg::Str(s) => result.push_str(s.as_ref()),
-                Arg::Int(i) => result.push_str(&i.to_string()),
-                Arg::Float(f) => result.push_str(&f.to_string()),
-            }
-        } else {
-            result.push(c);
+    let mut rest = message;
+    while let Some(start) = rest.find('{') {
+        result.push_str(&rest[..start]);
+        rest = &rest[start + 1..];
+
+        let placeholder = rest.find('}').and_then(|end| {
+            // The arguments are already formatted, `{name:?}` is `{name}`.
+            let name = rest[..end].split(':').next()?;
+            let (_, arg) = args.iter().find(|(k, _)| *k == name)?;
+            Some((arg, end))
+        });
+        let Some((arg, end)) = placeholder else {
+            result.push('{');
+            continue;
+        };
+
+        match arg {
+            Arg::Str(s) => result.push_str(s.as_ref()),
+            Arg::Int(i) => result.push_str(&i.to_string()),
+            Arg::Float(f) => result.push_str(&f.to_string()),
         }
+        rest = &rest[end + 1..];
     }
+    result.push_str(rest);
 
     Cow::Owned(result)
 }
-- 
2.43.0


From da6a884eeb9edd9d01a87a46736f2111730c87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 17/73] fix: a locale selects the closest catalogue whatever
 the case of its name

---
 crates/tinymist-l10n/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index d8a52f1..fe4b116 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -34,15 +34,16 @@ pub fn set_translations(translations: TranslationMapSet) {
 /// Sets the current locale.
 pub fn set_locale(locale: &str) -> Option<()> {
     let translations = ALL_TRANSLATIONS.get()?;
-    let lower_locale = locale.to_lowercase();
-    let locale = lower_locale.as_str();
-    let translations = translations.get(locale).or_else(|| {
-        // Tries s to find a language that starts with the locale and follow a hyphen.
-        translations
-            .iter()
-            .find(|(k, _)| locale.starts_with(*k) && locale.chars().nth(k.len()) == Some('-'))
-            .map(|(_, v)| v)
-    })?;
+    let locale = locale.to_lowercase();
+    // Takes the locale itself, or else the longest language that the locale starts
+    // with and that a hyphen follows.
+    let (_, translations) = translations
+        .iter()
+        .filter(|(k, _)| {
+            let rest = locale.strip_prefix(k.to_lowercase().as_str());
+            rest.is_some_and(|rest| rest.is_empty() || rest.starts_with('-'))
+        })
+        .max_by_key(|(k, _)| k.len())?;
 
     *LOCALE_TRANSLATIONS.write().unwrap() = Some(translations);
 
-- 
2.43.0


From 8be3bca93930607077d20b80ae3085a971cc3a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 18/73] fix: loading a badly quoted message is an error instead
 of a panic

---
 crates/tinymist-l10n/src/lib.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index fe4b116..0f940e0 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -1,6 +1,5 @@
 //! Tinymist's localization library.
 
-use core::panic;
 use std::{
     borrow::Cow,
     collections::HashSet,
@@ -53,16 +52,19 @@ pub fn set_locale(locale: &str) -> Option<()> {
 /// Loads a TOML string into a map of translations.
 pub fn load_translations(input: &str) -> anyhow::Result<TranslationMapSet> {
     let mut translations = deserialize(input, false)?;
-    translations.par_iter_mut().for_each(|(_, v)| {
-        v.par_iter_mut().for_each(|(_, v)| {
-            if !v.starts_with('"') {
-                return;
-            }
-
-            *v = serde_json::from_str::<String>(v)
-                .unwrap_or_else(|e| panic!("cannot parse translation message: {e}, message: {v}"));
-        });
-    });
+    translations.par_iter_mut().try_for_each(|(_, v)| {
+        v.par_iter_mut()
+            .try_for_each(|(_, v)| -> anyhow::Result<()> {
+                if !v.starts_with('"') {
+                    return Ok(());
+                }
+
+                *v = serde_json::from_str::<String>(v).map_err(|e| {
+                    anyhow::anyhow!("cannot parse translation message: {e}, message: {v}")
+                })?;
+                Ok(())
+            })
+    })?;
 
     Ok(translations)
 }
-- 
2.43.0


From 42fb212af41cdf9054544bc44e9714da9a5c03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 19/73] fix: a malformed section line of a catalogue is an
 error instead of a panic

---
 crates/tinymist-l10n/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 0f940e0..41b5f2a 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -276,8 +276,11 @@ pub fn deserialize(input: &str, key_first: bool) -> anyhow::Result<TranslationMa
     let mut key = String::new();
 
     for line in lines {
-        if line.starts_with('[') {
-            key = line[1..line.len() - 1].to_string();
+        if let Some(header) = line.strip_prefix('[') {
+            let header = header.strip_suffix(']').ok_or_else(|| {
+                anyhow::anyhow!("cannot find closing bracket in translation line: {line}")
+            })?;
+            key = header.to_string();
         } else {
             let equal_index = line.find('=').map_or_else(
                 || {
-- 
2.43.0


From 95ddece2d9e7bcdc6749fde5ec80f06983cf7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 20/73] fix: the catalogue does not depend on the order in
 which calls with one key are found

---
 crates/tinymist-l10n/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 41b5f2a..a2c286e 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -74,7 +74,8 @@ pub fn update_disk_translations(
     mut key_values: Vec<(String, String)>,
     output: &Path,
 ) -> anyhow::Result<()> {
-    key_values.sort_by(|(key_x, _), (key_y, _)| key_x.cmp(key_y));
+    // The calls are collected in any order, also those with the same key.
+    key_values.sort();
 
     // Reads and parses existing translations
     let mut translations = match std::fs::read_to_string(output) {
-- 
2.43.0


From f696026f4fcdbf017e4f5a52ba728f1ea2c904b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 21/73] fix: the extracted message is what the Rust literal
 stands for

---
 crates/tinymist-l10n/src/main.rs | 43 +++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-l10n/src/main.rs b/crates/tinymist-l10n/src/main.rs
index 0aaeb70..3b642a0 100644
--- a/crates/tinymist-l10n/src/main.rs
+++ b/crates/tinymist-l10n/src/main.rs
@@ -92,7 +92,8 @@ fn check_calls(e: walkdir::DirEntry, is_rs: bool) -> Vec<(String, String)> {
                     let (key, s) = parse_str(s)?;
                     let s = parse_char(s, ',')?;
                     let (value, _s) = parse_str(s)?;
-                    Some((key.to_string(), format!("\"{value}\"")))
+                    let value = serde_json::to_string(&unescape_rs(value)?).ok()?;
+                    Some((unescape_rs(key)?, value))
                 }
             }
             None
@@ -128,3 +129,43 @@ fn parse_str(s: &str) -> Option<(&str, &str)> {
 
     None
 }
+
+/// Gets the string that a Rust string literal stands for, which has other
+/// escapes than the strings in the output.
+fn unescape_rs(s: &str) -> Option<String> {
+    let s = s.replace("\r\n", "\n");
+    let mut rest = s.as_str();
+    let mut result = String::with_capacity(rest.len());
+
+    while let Some(start) = rest.find('\\') {
+        result.push_str(&rest[..start]);
+        let mut chars = rest[start + 1..].chars();
+        match chars.next()? {
+            '\n' => {
+                rest = chars.as_str().trim_start_matches([' ', '\n', '\r', '\t']);
+                continue;
+            }
+            'n' => result.push('\n'),
+            'r' => result.push('\r'),
+            't' => result.push('\t'),
+            '0' => result.push('\0'),
+            ch @ ('\\' | '"' | '\'') => result.push(ch),
+            'x' => {
+                let code = u8::from_str_radix(chars.as_str().get(..2)?, 16).ok()?;
+                result.push(char::from(code));
+                chars = chars.as_str()[2..].chars();
+            }
+            'u' => {
+                let (code, tail) = chars.as_str().strip_prefix('{')?.split_once('}')?;
+                let code = u32::from_str_radix(&code.replace('_', ""), 16).ok()?;
+                result.push(char::from_u32(code)?);
+                chars = tail.chars();
+            }
+            _ => return None,
+        }
+        rest = chars.as_str();
+    }
+    result.push_str(rest);
+
+    Some(result)
+}
-- 
2.43.0


From 82ef2cef8103a0c844a4e47e78375c5e9e54a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 22/73] fix: DeclEnum derives Debug for the enum it is put on

---
 crates/tinymist-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-derive/src/lib.rs b/crates/tinymist-derive/src/lib.rs
index 91928ea..a8a0c0a 100644
--- a/crates/tinymist-derive/src/lib.rs
+++ b/crates/tinymist-derive/src/lib.rs
@@ -84,7 +84,7 @@ pub fn gen_decl_enum(input: TokenStream) -> TokenStream {
             }
         }
 
-        impl fmt::Debug for Decl {
+        impl fmt::Debug for #input_name {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 match self {
                     #(Self::#names(x) => write!(f, concat!(stringify!(#names), "({:?})"), x)),*
-- 
2.43.0


From 9218a8a7798a7334eaa0b1b267f81d8435cf6bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 23/73] fix: a file still being read for an old revision does
 not show up in a newer one

---
 crates/tinymist-vfs/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..116c480 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,7 +340,9 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        // Takes the slots before the paths, since the path of a file is stored before
+        // its slot is filled.
+        let managed = self.managed.lock().filled();
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
 
@@ -592,6 +594,19 @@ struct EntryMap {
 }
 
 impl EntryMap {
+    /// Clones the map without the slots that are not filled yet. They must not
+    /// be shared with the next revision, otherwise a read that is still in
+    /// progress would put the content of this revision into the next one.
+    fn filled(&self) -> Self {
+        let mut filled = self.clone();
+        for (fid, entry) in self.entries.iter() {
+            if entry.bytes.get().is_none() {
+                filled.entries.remove_mut(fid);
+            }
+        }
+        filled
+    }
+
     /// Read a slot.
     #[inline(always)]
     fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
-- 
2.43.0


From 88cb79eb1cf0a8dda67519d93d9395e939891fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 24/73] fix: a change to a file not read yet does not share its
 slot with older snapshots

---
 crates/tinymist-vfs/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 116c480..f40cb91 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -352,6 +352,7 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
             inner: self,
             goal_revision,
             view_changed: false,
+            model_changed: false,
         }
     }
 
@@ -458,13 +459,18 @@ pub struct RevisingVfs<'a, M: PathAccessModel + Sized> {
     paths: PathMap,
     goal_revision: NonZeroUsize,
     view_changed: bool,
+    /// Whether the access model changed, maybe only for files that are not read
+    /// yet. The slots are not shared with the snapshots taken before then.
+    model_changed: bool,
 }
 
 impl<M: PathAccessModel + Sized> Drop for RevisingVfs<'_, M> {
     fn drop(&mut self) {
-        if self.view_changed {
+        if self.view_changed || self.model_changed {
             self.inner.managed = Arc::new(Mutex::new(std::mem::take(&mut self.managed)));
             self.inner.paths = Arc::new(Mutex::new(std::mem::take(&mut self.paths)));
+        }
+        if self.view_changed {
             let revision = &mut self.inner.revision;
             *revision = self.goal_revision;
         }
@@ -504,6 +510,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     /// Reset the shadowing files in [`OverlayAccessModel`].
     pub fn reset_shadow(&mut self) {
+        self.model_changed = true;
         for path in self.am().inner.inner.file_paths() {
             self.invalidate_path(&path);
         }
@@ -568,6 +575,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
+        self.model_changed |= !event.is_empty();
         for path in &event.removes {
             self.invalidate_path(path);
         }
-- 
2.43.0


From e0924a0f29c0b4902927a516fa2c530ae2f33a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 25/73] fix: a file first read after a change is not taken for
 unchanged

---
 crates/tinymist-vfs/src/lib.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index f40cb91..dd18b4b 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -362,17 +362,19 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
 
     /// Reads a file.
     pub fn read(&self, fid: TypstFileId) -> FileResult<Bytes> {
-        let bytes = self.managed.lock().slot(fid, |entry| entry.bytes.clone());
+        let bytes = self
+            .managed
+            .lock()
+            .slot(fid, self.revision, |entry| entry.bytes.clone());
 
         self.read_content(&bytes, fid).clone()
     }
 
     /// Reads a source.
     pub fn source(&self, file_id: TypstFileId) -> FileResult<Source> {
-        let (bytes, source) = self
-            .managed
-            .lock()
-            .slot(file_id, |entry| (entry.bytes.clone(), entry.source.clone()));
+        let (bytes, source) = self.managed.lock().slot(file_id, self.revision, |entry| {
+            (entry.bytes.clone(), entry.source.clone())
+        });
 
         let source = source.get_or_init(|| {
             let content = self
@@ -501,7 +503,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     fn invalidate_file_id(&mut self, file_id: TypstFileId) {
         self.view_changed = true;
-        self.managed.slot(file_id, |e| {
+        self.managed.slot(file_id, self.goal_revision, |e| {
             e.changed_at = self.goal_revision.get();
             e.bytes = Arc::default();
             e.source = Arc::default();
@@ -617,11 +619,20 @@ impl EntryMap {
 
     /// Read a slot.
     #[inline(always)]
-    fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
+    fn slot<T>(
+        &mut self,
+        path: TypstFileId,
+        rev: NonZeroUsize,
+        f: impl FnOnce(&mut VfsEntry) -> T,
+    ) -> T {
         if let Some(entry) = self.entries.get_mut(&path) {
             f(entry)
         } else {
-            let mut entry = VfsEntry::default();
+            // It is not known whether the file changed before this revision.
+            let mut entry = VfsEntry {
+                changed_at: rev.get(),
+                ..VfsEntry::default()
+            };
             let res = f(&mut entry);
             self.entries.insert_mut(path, entry);
             res
-- 
2.43.0


From ea3b42dc3cca4b6b170cdf5e4cf621f38b41e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 26/73] fix: a root that is not clean has one workspace id
 instead of a new one each time

---
 crates/tinymist-vfs/src/path_mapper.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 80196d3..b99b3c6 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -177,13 +177,12 @@ impl WorkspaceResolver {
         // We could check with just a read lock, but if the pair is not yet
         // present, we would then need to recheck after acquiring a write lock,
         // which is probably not worth it.
+        let root = ImmutPath::from(root.clean());
         let mut interner = INTERNER.write();
-        if let Some(&id) = interner.to_id.get(root) {
+        if let Some(&id) = interner.to_id.get(&root) {
             return id;
         }
 
-        let root = ImmutPath::from(root.clean());
-
         // Create a new entry forever by leaking the pair. We can't leak more
         // than 2^16 pair (and typically will leak a lot less), so its not a
         // big deal.
-- 
2.43.0


From 6814ff057a77d3bc6a10b62878a02d7824179b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 27/73] fix: an import of an unknown workspace id is an error
 instead of a panic

---
 crates/tinymist-vfs/src/path_mapper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index b99b3c6..e7dd4b4 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -128,8 +128,10 @@ impl WorkspaceId {
             return None;
         }
 
-        let num = name[1..].parse().ok()?;
-        Some(WorkspaceId(num))
+        let num: u16 = name[1..].parse().ok()?;
+        // The name may be written by users, e.g. `#import "@ws/p42:0.0.0"`.
+        let known = (num as usize) < INTERNER.read().from_id.len();
+        known.then_some(WorkspaceId(num))
     }
 }
 
-- 
2.43.0


From 1ac1d4ccbc14ec67ca0494d3d0d9ea7c7323e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 28/73] fix: a resource path with more than one colon can be
 read back

---
 crates/tinymist-task/src/primitives.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index e1ba2ad..6e8a016 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -270,14 +270,9 @@ impl FromStr for ResourcePath {
     type Err = &'static str;
 
     fn from_str(value: &str) -> Result<Self, Self::Err> {
-        let mut parts = value.split(':');
-        let scheme = parts.next().ok_or("missing scheme")?;
-        let path = parts.next().ok_or("missing path")?;
-        if parts.next().is_some() {
-            Err("too many colons")
-        } else {
-            Ok(ResourcePath(scheme.into(), path.to_string()))
-        }
+        // The path may have colons as well, e.g. in the version of a package.
+        let (scheme, path) = value.split_once(':').ok_or("missing path")?;
+        Ok(ResourcePath(scheme.into(), path.to_string()))
     }
 }
 
-- 
2.43.0


From 6dc4083ee0d28fe3dc62aafc09443393850a1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 29/73] fix: a file of a tarball has its full path

---
 crates/tinymist-package/src/pack/tarball.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/tarball.rs b/crates/tinymist-package/src/pack/tarball.rs
index 2f9c4af..cdc2bf0 100644
--- a/crates/tinymist-package/src/pack/tarball.rs
+++ b/crates/tinymist-package/src/pack/tarball.rs
@@ -34,7 +34,8 @@ impl<R: Read> PackFs for TarballPack<R> {
                 continue;
             }
 
-            let path = header.path().map_err(malform)?;
+            // A long path is not in the header itself.
+            let path = entry.path().map_err(malform)?;
             let path = path.to_string_lossy().to_string();
 
             let pack_file = PackFile::Read(Box::new(entry));
-- 
2.43.0


From a8714d72ad2c4db6bef4abbaa61823e6d291b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 30/73] fix: a package in a directory whose name begins with a
 dot is not empty

---
 crates/tinymist-package/src/pack/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/fs.rs b/crates/tinymist-package/src/pack/fs.rs
index 15b17ef..2086f05 100644
--- a/crates/tinymist-package/src/pack/fs.rs
+++ b/crates/tinymist-package/src/pack/fs.rs
@@ -87,7 +87,8 @@ impl<Src: AsRef<Path>, F: Fn(&str) -> bool + Send + Sync> PackFs for FilterDirPa
         let w = walkdir::WalkDir::new(self.path.as_ref())
             .follow_links(true)
             .into_iter()
-            .filter_entry(|e| !e.file_name().to_string_lossy().starts_with('.'))
+            // Hidden files are skipped, unless it is the package itself.
+            .filter_entry(|e| e.depth() == 0 || !e.file_name().to_string_lossy().starts_with('.'))
             .filter_map(|e| e.ok())
             .filter(|e| e.file_type().is_file());
 
-- 
2.43.0


From be2dc370aee577e352f349565708400e2b9cf251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 31/73] fix: cloning a package does not write outside of its
 directory

---
 crates/tinymist-package/src/pack/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/fs.rs b/crates/tinymist-package/src/pack/fs.rs
index 2086f05..8540026 100644
--- a/crates/tinymist-package/src/pack/fs.rs
+++ b/crates/tinymist-package/src/pack/fs.rs
@@ -1,4 +1,4 @@
-use std::{fs::File, io::Write};
+use std::{fs::File, io::Write, path::Component};
 
 use super::*;
 
@@ -48,6 +48,10 @@ impl<P: AsRef<Path>> CloneIntoPack for DirPack<P> {
     fn clone_into_pack(&mut self, pack: &mut impl PackFs) -> std::io::Result<()> {
         let base = self.path.as_ref();
         pack.read_all(&mut |path, file| {
+            let is_inside = |c| matches!(c, Component::Normal(_) | Component::CurDir);
+            if !Path::new(path).components().all(is_inside) {
+                return Err(other(eco_format!("{path:?} is outside of the package")));
+            }
             let path = base.join(path);
             std::fs::create_dir_all(path.parent().unwrap()).map_err(other)?;
             let mut dst = std::fs::File::create(path).map_err(other)?;
-- 
2.43.0


From 0a3f4f2022b61d3a626d70aad8e0e89097fc8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 32/73] fix: clearing the token cache neither breaks requests
 in flight nor gives ids out again

---
 crates/tinymist-query/src/analysis/semantic_tokens.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-query/src/analysis/semantic_tokens.rs b/crates/tinymist-query/src/analysis/semantic_tokens.rs
index d87b5a9..2a019c7 100644
--- a/crates/tinymist-query/src/analysis/semantic_tokens.rs
+++ b/crates/tinymist-query/src/analysis/semantic_tokens.rs
@@ -47,8 +47,11 @@ pub struct SemanticTokenCache {
 
 impl SemanticTokenCache {
     pub(crate) fn clear(&mut self) {
-        self.next_id = 0;
-        self.manager.clear();
+        // Contexts still hold locks of the managers, and clients still hold result
+        // ids, so that neither managers nor ids start over.
+        for manager in self.manager.values_mut() {
+            manager.clear();
+        }
     }
 
     /// Lock the token cache with an optional previous id in *main thread*.
-- 
2.43.0


From 461a710a478185bcff0cce0c99e7f63cae2229d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 33/73] fix: positions count bytes in UTF-8 and end at the end
 of their line in both encodings

---
 crates/tinymist-analysis/src/location.rs | 55 +++++++++---------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index a775ad4..ca67cdd 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -3,7 +3,7 @@
 use std::cmp::Ordering;
 use std::ops::Range;
 
-use typst::syntax::Source;
+use typst::syntax::{is_newline, Source};
 
 /// An LSP Position encoded by [`PositionEncoding`].
 type LspPosition = tinymist_world::debug_loc::LspPosition;
@@ -78,41 +78,24 @@ pub fn to_typst_position(
         return Some(typst_source.len_bytes());
     }
 
-    match lsp_position_encoding {
-        PositionEncoding::Utf8 => {
-            let line_index = lsp_position.line as usize;
-            let column_index = lsp_position.character as usize;
-            typst_source.line_column_to_byte(line_index, column_index)
-        }
-        PositionEncoding::Utf16 => {
-            // We have a line number and a UTF-16 offset into that line. We want a byte
-            // offset into the file.
-            //
-            // Typst's `Source` provides several UTF-16 methods:
-            //  - `len_utf16` for the length of the file
-            //  - `byte_to_utf16` to convert a byte offset from the start of the file to a
-            //    UTF-16 offset from the start of the file
-            //  - `utf16_to_byte` to do the opposite of `byte_to_utf16`
-            //
-            // Unfortunately, none of these address our needs well, so we do some math
-            // instead. This is not the fastest possible implementation, but
-            // it's the most reasonable without access to the internal state
-            // of `Source`.
-
-            // TODO: Typst's `Source` could easily provide an implementation of the method
-            // we need   here. Submit a PR against `typst` to add it, then
-            // update this if/when merged.
-
-            let line_index = lsp_position.line as usize;
-            let utf16_offset_in_line = lsp_position.character as usize;
-
-            let byte_line_offset = typst_source.line_to_byte(line_index)?;
-            let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset)?;
-            let utf16_offset = utf16_line_offset + utf16_offset_in_line;
+    let line_range = typst_source.line_to_range(lsp_position.line as usize)?;
+    let line = &typst_source.text()[line_range.clone()];
+    // A position beyond the end of a line is at its end, before the line break.
+    let line = line.trim_end_matches(is_newline);
 
-            typst_source.utf16_to_byte(utf16_offset)
+    let mut column = 0;
+    for (offset, ch) in line.char_indices() {
+        if column >= lsp_position.character as usize {
+            return Some(line_range.start + offset);
         }
+
+        column += match lsp_position_encoding {
+            PositionEncoding::Utf8 => ch.len_utf8(),
+            PositionEncoding::Utf16 => ch.len_utf16(),
+        };
     }
+
+    Some(line_range.start + line.len())
 }
 
 /// Convert a Typst position to an LSP position.
@@ -126,11 +109,13 @@ pub fn to_lsp_position(
     }
 
     let line_index = typst_source.byte_to_line(typst_offset).unwrap();
-    let column_index = typst_source.byte_to_column(typst_offset).unwrap();
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => column_index as u32,
+        PositionEncoding::Utf8 => {
+            let byte_line_offset = typst_source.line_to_byte(line_index).unwrap();
+            (typst_offset - byte_line_offset) as u32
+        }
         PositionEncoding::Utf16 => {
             // See the implementation of `position_to_offset` for discussion
             // relevant to this function.
-- 
2.43.0


From 3046ad8c920ffd4770c89e737fe2879569a9243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 34/73] fix: the URL of an untitled document names it even with
 '#', '?' or '%' in its name

---
 crates/tinymist-query/src/lsp_typst_boundary.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-query/src/lsp_typst_boundary.rs b/crates/tinymist-query/src/lsp_typst_boundary.rs
index 912f4ff..3a2a380 100644
--- a/crates/tinymist-query/src/lsp_typst_boundary.rs
+++ b/crates/tinymist-query/src/lsp_typst_boundary.rs
@@ -1,5 +1,6 @@
 //! Conversions between Typst and LSP types and representations
 
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use tinymist_std::path::PathClean;
 use tinymist_world::vfs::PathResolution;
 
@@ -15,9 +16,14 @@ pub use tinymist_analysis::location::*;
 const UNTITLED_ROOT: &str = "/untitled";
 static EMPTY_URL: LazyLock<Url> = LazyLock::new(|| Url::parse("file://").unwrap());
 
+/// The characters that mean something else than themselves in a URL.
+const UNTITLED_ENCODE_SET: &AsciiSet = &CONTROLS.add(b' ').add(b'#').add(b'?').add(b'%');
+
 /// Convert a path to a URL.
 pub fn untitled_url(path: &Path) -> anyhow::Result<Url> {
-    Ok(Url::parse(&format!("untitled:{}", path.display()))?)
+    let path = path.display().to_string();
+    let path = utf8_percent_encode(&path, UNTITLED_ENCODE_SET);
+    Ok(Url::parse(&format!("untitled:{path}"))?)
 }
 
 /// Convert a path to a URL.
-- 
2.43.0


From 6c0d8f265b36dfdaabdeabbd1b6f417be0a43515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 35/73] fix: report deferred removals and truncations of
 watched files

---
 crates/tinymist-project/src/watch.rs | 58 ++++++++++++++++------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..8b36136 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -378,12 +378,18 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 // or truncating the file. They are possibly flushing the file
                 // but not finished yet.
                 WatchState::Stable => {
+                    // Ignores the error if the error is stable
+                    if it.as_ref().is_err_and(|it| it == err) {
+                        return None;
+                    }
+
+                    // Note: the consumer doesn't know the error yet, so we must
+                    // not regard it as the previous content.
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
                             payload: file.clone(),
                         };
-                        entry.prev = Some(file);
                         let event = UndeterminedNotifyEvent {
                             at_realtime: tinymist_std::time::Instant::now(),
                             at_logical_tick: self.logical_tick,
@@ -393,11 +399,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         return None;
                     }
                     // Otherwise, we push the error to the consumer.
-
-                    // Ignores the error if the error is stable
-                    if it.as_ref().is_err_and(|it| it == err) {
-                        return None;
-                    }
                 }
 
                 // Very complicated case of check error sequence, so we simplify
@@ -412,10 +413,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    entry.state = WatchState::Stable;
                     return None;
                 }
 
-                match entry.state {
+                match &mut entry.state {
                     // If the file is stable, check whether the editor is
                     // removing or truncating the file. They are possibly
                     // flushing the file but not finished yet.
@@ -425,7 +427,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                                 recheck_at: self.logical_tick,
                                 payload: file.clone(),
                             };
-                            entry.prev = Some(file);
                             let event = UndeterminedNotifyEvent {
                                 at_realtime: tinymist_std::time::Instant::now(),
                                 at_logical_tick: self.logical_tick,
@@ -437,7 +438,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     }
 
                     // Still empty
-                    WatchState::EmptyOrRemoval { .. } if next_content.is_empty() => return None,
+                    WatchState::EmptyOrRemoval { payload, .. } if next_content.is_empty() => {
+                        // update payload
+                        *payload = file;
+                        return None;
+                    }
                     // Otherwise, we push the diff to the consumer.
                     WatchState::EmptyOrRemoval { .. } => {}
                 }
@@ -474,29 +479,32 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         let entry = self.watched_entries.get_mut(&event.path)?;
 
         // Check the state of the entry
-        match std::mem::take(&mut entry.state) {
-            // If the entry is stable, we do nothing
-            WatchState::Stable => {}
-            // If the entry is not stable, and no other event is produced after
-            // this event, we send the event to the consumer.
+        match &entry.state {
+            // If the entry is not stable, and it is still waiting for this
+            // event, we send the event to the consumer.
             WatchState::EmptyOrRemoval {
                 recheck_at,
                 payload,
-            } => {
-                if recheck_at == event.at_logical_tick {
-                    log::debug!("notify event real happened {event:?}, state: {payload:?}");
+            } if *recheck_at == event.at_logical_tick => {
+                log::debug!("notify event real happened {event:?}, state: {payload:?}");
 
-                    if Some(&payload) == entry.prev.as_ref() {
-                        return None;
-                    }
+                let payload = payload.clone();
+                entry.state = WatchState::Stable;
 
-                    // Send the underlying change to the consumer
-                    let mut changeset = FileChangeSet::default();
-                    changeset.inserts.push((event.path, payload));
-
-                    (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
+                if Some(&payload) == entry.prev.as_ref() {
+                    return None;
                 }
+                entry.prev = Some(payload.clone());
+
+                // Send the underlying change to the consumer
+                let mut changeset = FileChangeSet::default();
+                changeset.inserts.push((event.path, payload));
+
+                (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
             }
+            // If the entry is stable, or it is waiting for another event, we do
+            // nothing
+            WatchState::Stable | WatchState::EmptyOrRemoval { .. } => {}
         };
 
         Some(())
-- 
2.43.0


From 729a538bb8cf62980b311cd93db2be8adfd54335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 36/73] fix: keep watching the dependencies on memory changes

---
 crates/tinymist-project/src/watch.rs | 30 +++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 8b36136..20dcc1b 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -185,7 +185,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     self.invalidate_upstream(event);
                 }
                 ActorEvent::Message(Some(SyncDependency(paths))) => {
-                    if let Some(changeset) = self.update_watches(paths.as_ref()) {
+                    if let Some(changeset) = self.update_watches(paths.as_ref(), false) {
                         (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
                     }
                 }
@@ -206,8 +206,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Update the watches of corresponding invalidation
     fn invalidate_upstream(&mut self, event: UpstreamUpdateEvent) {
-        // Update watches of invalidated files.
-        let changeset = self.update_watches(&event.invalidates).unwrap_or_default();
+        // Update watches of invalidated files. The other files are still
+        // depended on, so they must keep being watched.
+        let changeset = self
+            .update_watches(&event.invalidates, true)
+            .unwrap_or_default();
 
         // Send the event to the consumer.
         (self.interrupted_by_events)(FilesystemEvent::UpstreamUpdate {
@@ -216,16 +219,25 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         });
     }
 
-    /// Update the watches of corresponding files.
-    fn update_watches(&mut self, paths: &dyn NotifyDeps) -> Option<FileChangeSet> {
+    /// Update the watches of corresponding files. If `partial` is set, the
+    /// `paths` are not all the dependencies and the other files are kept as is.
+    fn update_watches(&mut self, paths: &dyn NotifyDeps, partial: bool) -> Option<FileChangeSet> {
         // Increase the lifetime per external message.
         self.lifetime += 1;
 
         let mut changeset = FileChangeSet::default();
 
         // Mark the old entries as unseen.
-        for path in self.watched_entries.values_mut() {
-            path.seen = false;
+        if partial {
+            paths.dependencies(&mut |path| {
+                if let Some(entry) = self.watched_entries.get_mut(path) {
+                    entry.seen = false;
+                }
+            });
+        } else {
+            for path in self.watched_entries.values_mut() {
+                path.seen = false;
+            }
         }
 
         // Update watched entries.
@@ -282,6 +294,10 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             }
         });
 
+        if partial {
+            return (!changeset.is_empty()).then_some(changeset);
+        }
+
         // Remove old entries.
         // Note: since we have increased the lifetime, it is safe to remove the
         // old entries after updating the watched entries.
-- 
2.43.0


From 11e59866e21482c09b4799968b8a53e5c012f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 37/73] fix: ignore interrupts to removed projects

---
 crates/tinymist-project/src/compiler.rs | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..ccb1e6c 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -458,12 +458,17 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        let proj = dedicates.iter_mut().find(|e| e.id == *id);
+        if proj.is_none() {
+            // The dedicate project may be removed before the interrupt arrives.
+            log::warn!("ProjectCompiler: project not found {id:?}");
+        }
+        proj
     }
 
     /// Clear all dedicate projects.
@@ -524,7 +529,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn process_inner(&mut self, intr: Interrupt<F>) {
         match intr {
             Interrupt::Compile(id) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -533,8 +541,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 proj.reason.see(reason_by_entry_change());
             }
             Interrupt::Compiled(artifact) => {
-                let proj =
-                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                let Some(proj) =
+                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id())
+                else {
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -552,7 +563,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 self.remove_dedicates(&id);
             }
             Interrupt::ChangeTask(id, change) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From c5766f674b92ae2194062edc41362856101e47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 38/73] fix: distinguish delayed memory events

---
 crates/tinymist-project/src/compiler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index ccb1e6c..fef81fb 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -617,6 +617,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             Interrupt::Memory(event) => {
                 log::debug!("ProjectCompiler: memory event incoming");
 
+                // Increase the logical tick per memory event, to distinguish the delayed ones.
+                self.logical_tick += 1;
+
                 // Emulate memory changes.
                 let mut files = HashSet::new();
                 if matches!(event, MemoryEvent::Sync(..)) {
-- 
2.43.0


From 2a34f546cbfbd35ba017d46b02aea5b5f7ded122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 39/73] fix: don't mix up compilations of restarted dedicate
 projects

---
 crates/tinymist-project/src/compiler.rs | 12 +++++++++++-
 crates/tinymist/src/project.rs          |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index fef81fb..09541b3 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -378,6 +378,9 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
     pub primary: ProjectInsState<F, Ext>,
     /// The states for dedicate tasks
     pub dedicates: Vec<ProjectInsState<F, Ext>>,
+    /// The latest revision of the removed dedicate projects, whose compilations
+    /// may be still running.
+    removed_revision: usize,
     /// The project file dependencies.
     deps: ProjectDeps,
 }
@@ -413,6 +416,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             primary,
             deps: Default::default(),
             dedicates: vec![],
+            removed_revision: 0,
         }
     }
 
@@ -494,6 +498,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         proj.reason.see(reason_by_entry_change());
 
         self.remove_dedicates(&id);
+
+        // Continues the revision, to not mix up with the compilations of the
+        // removed project.
+        proj.verse.revision = proj.verse.revision.saturating_add(self.removed_revision);
+        proj.committed_revision = self.removed_revision;
         self.dedicates.push(proj);
 
         Ok(id)
@@ -506,7 +515,8 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             self.handler.notify_removed(id);
             self.deps.project_deps.remove_mut(id);
 
-            let _proj = self.dedicates.remove(idx);
+            let proj = self.dedicates.remove(idx);
+            self.removed_revision = self.removed_revision.max(proj.verse.revision.get());
             // todo: kill compilations
 
             let res = self
diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 8218a10..09d2c16 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -331,7 +331,14 @@ impl ProjectState {
         group: &str,
         entry: EntryState,
     ) -> Result<ProjectInsId> {
-        self.compiler.restart_dedicate(group, entry)
+        let id = self.compiler.restart_dedicate(group, entry)?;
+
+        // Ignores the compilations of the removed project.
+        if let Some(proj) = self.compiler.projects().find(|p| p.id == id) {
+            proj.ext.notified_revision = proj.verse.revision.get() - 1;
+        }
+
+        Ok(id)
     }
 }
 
-- 
2.43.0


From 218457c3ed0cd90a0c55ed444f646463c288995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 40/73] fix: see changes of files that are about to be read

---
 crates/tinymist-vfs/src/lib.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index dd18b4b..f058735 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -352,7 +352,6 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
             inner: self,
             goal_revision,
             view_changed: false,
-            model_changed: false,
         }
     }
 
@@ -461,18 +460,13 @@ pub struct RevisingVfs<'a, M: PathAccessModel + Sized> {
     paths: PathMap,
     goal_revision: NonZeroUsize,
     view_changed: bool,
-    /// Whether the access model changed, maybe only for files that are not read
-    /// yet. The slots are not shared with the snapshots taken before then.
-    model_changed: bool,
 }
 
 impl<M: PathAccessModel + Sized> Drop for RevisingVfs<'_, M> {
     fn drop(&mut self) {
-        if self.view_changed || self.model_changed {
+        if self.view_changed {
             self.inner.managed = Arc::new(Mutex::new(std::mem::take(&mut self.managed)));
             self.inner.paths = Arc::new(Mutex::new(std::mem::take(&mut self.paths)));
-        }
-        if self.view_changed {
             let revision = &mut self.inner.revision;
             *revision = self.goal_revision;
         }
@@ -512,7 +506,8 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     /// Reset the shadowing files in [`OverlayAccessModel`].
     pub fn reset_shadow(&mut self) {
-        self.model_changed = true;
+        // Some files may be not read yet by the snapshots taken before.
+        self.view_changed = true;
         for path in self.am().inner.inner.file_paths() {
             self.invalidate_path(&path);
         }
@@ -577,7 +572,8 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
-        self.model_changed |= !event.is_empty();
+        // Some files may be not read yet by the snapshots taken before.
+        self.view_changed |= !event.is_empty();
         for path in &event.removes {
             self.invalidate_path(path);
         }
-- 
2.43.0


From b9830d645d1c2406091f346523dbc6b5e8942e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 41/73] fix: don't publish outdated diagnostics

---
 crates/tinymist/src/project.rs      | 43 ++++++++++++++++++++++-------
 crates/tinymist/src/tool/project.rs |  1 +
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 09d2c16..710fcbb 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -45,6 +45,9 @@ use crate::{Config, ServerEvent};
 
 type EditorSender = mpsc::UnboundedSender<EditorRequest>;
 
+/// The revisions of the last diagnostics sent to the editor.
+type DiagRevisions = Arc<Mutex<FxHashMap<ProjectInsId, usize>>>;
+
 /// LSP project compiler.
 pub type LspProjectCompiler = ProjectCompiler<LspCompilerFeat, ProjectInsStateExt>;
 
@@ -175,6 +178,7 @@ impl ServerState {
 
             status_revision: Mutex::default(),
             notified_revision: Mutex::default(),
+            diag_revision: Arc::default(),
         });
 
         let export_target = config.export_target;
@@ -403,6 +407,7 @@ pub struct CompileHandlerImpl {
 
     pub(crate) status_revision: Mutex<FxHashMap<ProjectInsId, usize>>,
     pub(crate) notified_revision: Mutex<FxHashMap<ProjectInsId, usize>>,
+    pub(crate) diag_revision: DiagRevisions,
 }
 
 pub trait ProjectClient: Send + Sync + 'static {
@@ -432,7 +437,27 @@ impl ProjectClient for mpsc::UnboundedSender<LspInterrupt> {
 
 impl CompileHandlerImpl {
     fn push_diagnostics(&self, dv: ProjVersion, diagnostics: Option<DiagnosticsMap>) {
-        self.editor_tx
+        Self::send_diagnostics(&self.editor_tx, &self.diag_revision, dv, diagnostics);
+    }
+
+    /// Sends the diagnostics unless they are outdated. They may be calculated
+    /// in background, so they don't arrive in order.
+    fn send_diagnostics(
+        editor_tx: &EditorSender,
+        revisions: &DiagRevisions,
+        dv: ProjVersion,
+        diagnostics: Option<DiagnosticsMap>,
+    ) {
+        let mut revisions = revisions.lock();
+        let last_rev = revisions.entry(dv.id.clone()).or_default();
+        // The removal also invalidates the diagnostics of the same revision.
+        if *last_rev > dv.revision || (*last_rev == dv.revision && diagnostics.is_some()) {
+            log::info!("Project: outdated diagnostics {dv:?}, last revision: {last_rev}");
+            return;
+        }
+        *last_rev = dv.revision;
+
+        editor_tx
             .send(EditorRequest::Diag(dv, diagnostics))
             .log_error("failed to send diagnostics");
     }
@@ -466,12 +491,11 @@ impl CompileHandlerImpl {
 
             log::trace!("notify diagnostics({dv:?}): {diagnostics:#?}");
 
-            self.editor_tx
-                .send(EditorRequest::Diag(dv, Some(diagnostics)))
-                .log_error("failed to send diagnostics");
+            self.push_diagnostics(dv, Some(diagnostics));
         } else {
             let snap = art.clone();
             let editor_tx = self.editor_tx.clone();
+            let diag_revision = self.diag_revision.clone();
             let analysis = self.analysis.clone();
             rayon::spawn(move || {
                 let world = snap.world().clone();
@@ -484,9 +508,7 @@ impl CompileHandlerImpl {
 
                 log::trace!("notify diagnostics({dv:?}): {diagnostics:#?}");
 
-                editor_tx
-                    .send(EditorRequest::Diag(dv, Some(diagnostics)))
-                    .log_error("failed to send diagnostics");
+                Self::send_diagnostics(&editor_tx, &diag_revision, dv, Some(diagnostics));
             });
         }
     }
@@ -588,15 +610,16 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
     }
 
     fn notify_removed(&self, id: &ProjectInsId) {
-        let n_revs = &mut self.notified_revision.lock();
-        let last_rev = n_revs.remove(id).unwrap_or_default();
+        self.notified_revision.lock().remove(id);
+        // It may be still compiling, and then that revision is not notified yet.
+        let last_rev = self.status_revision.lock().get(id).copied();
+        let last_rev = last_rev.unwrap_or_default();
 
         let dv = ProjVersion {
             id: id.clone(),
             revision: last_rev,
         };
 
-        // todo: race condition with notify_compile?
         // remove diagnostics
         self.push_diagnostics(dv, None);
     }
diff --git a/crates/tinymist/src/tool/project.rs b/crates/tinymist/src/tool/project.rs
index 302de72..5e828ab 100644
--- a/crates/tinymist/src/tool/project.rs
+++ b/crates/tinymist/src/tool/project.rs
@@ -461,6 +461,7 @@ where
         analysis: opts.analysis,
         status_revision: Mutex::default(),
         notified_revision: Mutex::default(),
+        diag_revision: Arc::default(),
     });
 
     let mut compiler = ProjectCompiler::new(
-- 
2.43.0


From 652f41c1c6abc3ad8482ba4129fa41de0df2bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 42/73] fix: keep watching a file that is replaced by another
 one

---
 crates/tinymist-project/src/watch.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 20dcc1b..4a7adff 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -322,13 +322,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Notify the event from the builtin watcher.
     fn notify_event(&mut self, event: notify::Event) {
-        // Account file updates.
-        let mut changeset = FileChangeSet::default();
-        for path in event.paths.iter() {
-            // todo: remove this clone: path.into()
-            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
-        }
-
         // Workaround for notify-rs' implicit unwatch on remove/rename
         // (triggered by some editors when saving files) with the
         // inotify backend. By keeping track of the potentially
@@ -354,9 +347,28 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
                 }
                 entry.watching = false;
+
+                // If another file has taken its place, the content may be the
+                // same and then nobody asks to watch it again.
+                if let Some(watcher) = &mut self.watcher {
+                    if path.metadata().is_ok_and(|meta| !meta.is_dir()) {
+                        entry.watching = log_notify_error(
+                            watcher.0.watch(path, RecursiveMode::NonRecursive),
+                            "failed to watch",
+                        )
+                        .is_some();
+                    }
+                }
             }
         }
 
+        // Account file updates.
+        let mut changeset = FileChangeSet::default();
+        for path in event.paths.iter() {
+            // todo: remove this clone: path.into()
+            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
+        }
+
         // Send file updates.
         if !changeset.is_empty() {
             (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
-- 
2.43.0


From b0835313030236878bc2284cbcfe15a78e5dfdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 43/73] fix: don't drop the pending exports of other projects

---
 crates/tinymist/src/task/export.rs |  4 ++--
 crates/tinymist/src/task/mod.rs    | 20 +++++++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index bc6a07a..a2178d1 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -82,7 +82,7 @@ impl ExportTask {
         }
 
         let rev = artifact.world().revision().get();
-        let fut = self.export_folder.spawn(rev, || {
+        let fut = self.export_folder.spawn(artifact.id(), rev, || {
             let task = config.task.clone();
             let artifact = artifact.clone();
             Box::pin(async move {
@@ -107,7 +107,7 @@ impl ExportTask {
 
         let editor_tx = self.editor_tx.clone()?;
         let rev = artifact.world().revision().get();
-        let fut = self.count_word_folder.spawn(rev, || {
+        let fut = self.count_word_folder.spawn(artifact.id(), rev, || {
             let artifact = artifact.clone();
             Box::pin(async move {
                 let id = artifact.id().clone();
diff --git a/crates/tinymist/src/task/mod.rs b/crates/tinymist/src/task/mod.rs
index 0c9cf8c..dc37eb4 100644
--- a/crates/tinymist/src/task/mod.rs
+++ b/crates/tinymist/src/task/mod.rs
@@ -18,6 +18,8 @@ use rayon::Scope;
 use reflexo::TakeAs;
 use tinymist_std::error::prelude::*;
 
+use crate::project::ProjectInsId;
+
 /// Please uses this if you believe all mutations are fast
 #[derive(Clone, Default)]
 pub struct SyncTaskFactory<T>(Arc<std::sync::RwLock<Arc<T>>>);
@@ -46,7 +48,9 @@ type FoldFuture = Pin<Box<dyn Future<Output = Option<()>> + Send>>;
 #[derive(Default)]
 struct FoldingState {
     running: bool,
-    task: Option<(usize, FoldFuture)>,
+    /// The pending tasks, at most one per project since the revisions of
+    /// different projects are not comparable.
+    tasks: Vec<(ProjectInsId, usize, FoldFuture)>,
 }
 
 #[derive(Clone, Default)]
@@ -67,14 +71,15 @@ impl FutureFolder {
     #[must_use]
     fn spawn(
         &self,
+        id: &ProjectInsId,
         revision: usize,
         fut: impl FnOnce() -> FoldFuture,
     ) -> Option<impl Future<Output = ()> + Send + 'static> {
         let mut state = self.state.lock();
         let state = state.deref_mut();
 
-        match &mut state.task {
-            Some((prev_revision, prev)) => {
+        match state.tasks.iter_mut().find(|(prev_id, ..)| prev_id == id) {
+            Some((_, prev_revision, prev)) => {
                 if *prev_revision < revision {
                     *prev = fut();
                     *prev_revision = revision;
@@ -82,8 +87,8 @@ impl FutureFolder {
 
                 return None;
             }
-            next_update => {
-                *next_update = Some((revision, fut()));
+            None => {
+                state.tasks.push((id.clone(), revision, fut()));
             }
         }
 
@@ -98,10 +103,11 @@ impl FutureFolder {
             loop {
                 let fut = {
                     let mut state = state.lock();
-                    let Some((_, fut)) = state.task.take() else {
+                    if state.tasks.is_empty() {
                         state.running = false;
                         return;
-                    };
+                    }
+                    let (_, _, fut) = state.tasks.remove(0);
                     fut
                 };
                 fut.await;
-- 
2.43.0


From 88cb8e57ab2ceb5725cf605ebc1e2cc6644912ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 44/73] fix: record the files of a document relative to its
 lock file

---
 crates/tinymist-project/src/lock.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/lock.rs b/crates/tinymist-project/src/lock.rs
index 74cd273..479aa33 100644
--- a/crates/tinymist-project/src/lock.rs
+++ b/crates/tinymist-project/src/lock.rs
@@ -242,13 +242,13 @@ impl LockFileUpdate {
         let id = Id::from_world(world)?;
 
         let root = ResourcePath::from_user_sys(Path::new("."));
-        let main = ResourcePath::from_user_sys(world.path_for_id(world.main()).ok()?.as_path());
+        let main = self.resource_path(world.path_for_id(world.main()).ok()?.as_path());
 
         let font_resolver = &world.font_resolver;
         let font_paths = font_resolver
             .font_paths()
             .iter()
-            .map(|p| ResourcePath::from_user_sys(p))
+            .map(|p| self.resource_path(p))
             .collect::<Vec<_>>();
 
         // let system_font = font_resolver.system_font();
@@ -283,6 +283,14 @@ impl LockFileUpdate {
         Some(id)
     }
 
+    /// Creates a resource path, which is relative to the directory of the lock
+    /// file, instead of the current directory.
+    fn resource_path(&self, path: &Path) -> ResourcePath {
+        let path = std::path::absolute(path).unwrap_or_else(|_| path.to_owned());
+        let rel = tinymist_std::path::diff(&path, &self.root);
+        ResourcePath::from_user_sys(rel.as_deref().unwrap_or(&path))
+    }
+
     pub fn task(&mut self, task: ApplyProjectTask) {
         self.updates.push(LockUpdate::Task(task));
     }
-- 
2.43.0


From 92221e2f4ca7243e39b71d8e1a52e3106eb683e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 45/73] fix: keep the end of format edits on character
 boundaries

---
 crates/tinymist/src/task/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist/src/task/format.rs b/crates/tinymist/src/task/format.rs
index f515705..783ddff 100644
--- a/crates/tinymist/src/task/format.rs
+++ b/crates/tinymist/src/task/format.rs
@@ -79,7 +79,7 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         .count();
 
     while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
-        suffix += 1;
+        suffix -= 1;
     }
 
     let replace = prefix..old.len() - suffix;
-- 
2.43.0


From 5bdfc056d92c58c588f0f4c3694b7da451e42a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 46/73] fix: accept the ends of a change's range in any order

---
 crates/tinymist/src/input.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist/src/input.rs b/crates/tinymist/src/input.rs
index ff4b1de..bf2bd6b 100644
--- a/crates/tinymist/src/input.rs
+++ b/crates/tinymist/src/input.rs
@@ -64,8 +64,12 @@ impl ServerState {
             let replacement = change.text;
             match change.range {
                 Some(lsp_range) => {
-                    let range = to_typst_range(lsp_range, position_encoding, source)
+                    let mut range = to_typst_range(lsp_range, position_encoding, source)
                         .expect("invalid range");
+                    // Some clients write the ends of a range in the reverse order.
+                    if range.start > range.end {
+                        std::mem::swap(&mut range.start, &mut range.end);
+                    }
                     source.edit(range, &replacement);
                 }
                 None => {
-- 
2.43.0


From 2ad8de69f16bdf27530963b31b2f79f14521c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 47/73] fix: don't split line breaks of two characters in
 format edits

---
 crates/tinymist/src/task/format.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist/src/task/format.rs b/crates/tinymist/src/task/format.rs
index 783ddff..4742104 100644
--- a/crates/tinymist/src/task/format.rs
+++ b/crates/tinymist/src/task/format.rs
@@ -70,7 +70,10 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         return Some(vec![]);
     }
 
-    while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
+    // There is no LSP position between the characters of a `\r\n`.
+    let splits_crlf = |at: usize| old[..at].ends_with('\r') && old[at..].starts_with('\n');
+
+    while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) || splits_crlf(prefix) {
         prefix -= 1;
     }
 
@@ -78,7 +81,10 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         .take_while(|(x, y)| x == y)
         .count();
 
-    while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
+    while !old.is_char_boundary(old.len() - suffix)
+        || !new.is_char_boundary(new.len() - suffix)
+        || splits_crlf(old.len() - suffix)
+    {
         suffix -= 1;
     }
 
-- 
2.43.0


From a77dcd161bc7054645d58e4c26e06dba35a9c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 48/73] fix: don't change the pinning or focus for rejected
 main files

---
 crates/tinymist/src/input.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist/src/input.rs b/crates/tinymist/src/input.rs
index bf2bd6b..4ce8391 100644
--- a/crates/tinymist/src/input.rs
+++ b/crates/tinymist/src/input.rs
@@ -1,3 +1,5 @@
+use std::path::Path;
+
 use lsp_types::*;
 use reflexo_typst::Bytes;
 use tinymist_query::{to_typst_range, PositionEncoding};
@@ -107,14 +109,19 @@ impl ServerState {
         self.pinning_by_browsing_preview = browsing;
     }
 
+    /// Checks whether the given path can be a main file.
+    fn check_main_file(path: Option<&Path>) -> Result<()> {
+        match path {
+            Some(p) if !p.is_absolute() && !p.starts_with("/untitled") => {
+                Err(error_once!("entry file must be absolute", path: p.display()))
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Changes main file to the given path.
     pub fn change_main_file(&mut self, path: Option<ImmutPath>) -> Result<bool> {
-        if path
-            .as_deref()
-            .is_some_and(|p| !p.is_absolute() && !p.starts_with("/untitled"))
-        {
-            return Err(error_once!("entry file must be absolute", path: path.unwrap().display()));
-        }
+        Self::check_main_file(path.as_deref())?;
 
         let task = self.resolve_task_or(path);
 
@@ -128,16 +135,21 @@ impl ServerState {
 
     /// Pins the main file to the given path
     pub fn pin_main_file(&mut self, new_entry: Option<ImmutPath>) -> Result<()> {
-        self.pinning_by_user = new_entry.is_some();
+        let pinning_by_user = new_entry.is_some();
         let entry = new_entry
             .or_else(|| self.entry_resolver().resolve_default())
             .or_else(|| self.focusing.clone());
 
-        self.change_main_file(entry).map(|_| ())
+        self.change_main_file(entry)?;
+        self.pinning_by_user = pinning_by_user;
+
+        Ok(())
     }
 
     /// Focuses main file to the given path.
     pub fn focus_main_file(&mut self, new_entry: Option<ImmutPath>) -> Result<bool> {
+        Self::check_main_file(new_entry.as_deref())?;
+
         if new_entry.as_deref() != self.focusing.as_deref() {
             self.implicit_position = None;
         }
-- 
2.43.0


From 1016c87a3c22887c62e8e46a1256c09d6d481e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 49/73] fix: read the lint configuration from its own section

The documented `tinymist.lint` was never asked for, and `preview` was read instead.
---
 crates/tinymist/src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist/src/config.rs b/crates/tinymist/src/config.rs
index a1e11f8..60f488e 100644
--- a/crates/tinymist/src/config.rs
+++ b/crates/tinymist/src/config.rs
@@ -42,6 +42,7 @@ const CONFIG_ITEMS: &[&str] = &[
     "formatterPrintWidth",
     "formatterIndentSize",
     "hoverPeriscope",
+    "lint",
     "outputPath",
     "preview",
     "projectResolution",
@@ -320,7 +321,7 @@ impl Config {
         assign_config!(formatter_indent_size := "formatterIndentSize"?: Option<u32>);
         assign_config!(output_path := "outputPath"?: PathPattern);
         assign_config!(preview := "preview"?: PreviewFeat);
-        assign_config!(lint := "preview"?: LintFeat);
+        assign_config!(lint := "lint"?: LintFeat);
         assign_config!(semantic_tokens := "semanticTokens"?: SemanticTokensMode);
         assign_config!(support_html_in_markdown := "supportHtmlInMarkdown"?: bool);
         assign_config!(system_fonts := "systemFonts"?: Option<bool>);
-- 
2.43.0


From ed94e42ea3a8c80018624db1aa7ab5155cf18081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 50/73] fix: respect the font arguments on the command line of
 the server

The extra arguments are always parsed, so that their defaults overrode the
`--font-path` and `--ignore-system-fonts` passed to `tinymist lsp`.
---
 crates/tinymist/src/config.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/tinymist/src/config.rs b/crates/tinymist/src/config.rs
index 60f488e..641c45e 100644
--- a/crates/tinymist/src/config.rs
+++ b/crates/tinymist/src/config.rs
@@ -522,16 +522,17 @@ impl Config {
         let mut opts = self.font_opts.clone();
 
         if let Some(system_fonts) = self.system_fonts.or_else(|| {
-            self.typst_extra_args
-                .as_ref()
-                .map(|x| !x.font.ignore_system_fonts)
+            let extra_args = self.typst_extra_args.as_ref()?;
+            extra_args.font.ignore_system_fonts.then_some(false)
         }) {
             opts.ignore_system_fonts = !system_fonts;
         }
 
         let font_paths = (!self.font_paths.is_empty()).then_some(&self.font_paths);
-        let font_paths =
-            font_paths.or_else(|| self.typst_extra_args.as_ref().map(|x| &x.font.font_paths));
+        let font_paths = font_paths.or_else(|| {
+            let extra_args = self.typst_extra_args.as_ref()?;
+            (!extra_args.font.font_paths.is_empty()).then_some(&extra_args.font.font_paths)
+        });
         if let Some(paths) = font_paths {
             opts.font_paths.clone_from(paths);
         }
-- 
2.43.0


From f5b4f9a757d6fdb8ef0a3576c203a6e061418f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 51/73] fix: announce the position encoding if it is not the
 default

The server counts in UTF-8 when the client offers it, which the client can
only know from the capabilities.
---
 crates/tinymist/src/lsp/init.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist/src/lsp/init.rs b/crates/tinymist/src/lsp/init.rs
index 5062ef1..6c90de9 100644
--- a/crates/tinymist/src/lsp/init.rs
+++ b/crates/tinymist/src/lsp/init.rs
@@ -1,5 +1,6 @@
 use lsp_types::*;
 use serde_json::json;
+use tinymist_query::PositionEncoding;
 
 use super::*;
 
@@ -121,8 +122,11 @@ impl Initializer for SuperInit {
 
         let res = InitializeResult {
             capabilities: ServerCapabilities {
-                // todo: respect position_encoding
-                // position_encoding: Some(cc.position_encoding.into()),
+                // UTF-16 is the default and needn't be announced.
+                position_encoding: match const_config.position_encoding {
+                    PositionEncoding::Utf16 => None,
+                    PositionEncoding::Utf8 => Some(PositionEncodingKind::UTF8),
+                },
                 hover_provider: Some(HoverProviderCapability::Simple(true)),
                 signature_help_provider: Some(SignatureHelpOptions {
                     trigger_characters: Some(vec![
-- 
2.43.0


From 609d072e1eeb9c60b1fd679cb3c8625fadc53221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 52/73] fix: read the tinymist namespace of the configuration
 sent by clients

It is what `eglot-workspace-configuration` is sent as, and was only respected
in the initialization options.
---
 crates/tinymist/src/lsp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist/src/lsp.rs b/crates/tinymist/src/lsp.rs
index 6d80ae5..d1f4f04 100644
--- a/crates/tinymist/src/lsp.rs
+++ b/crates/tinymist/src/lsp.rs
@@ -179,7 +179,13 @@ impl ServerState {
     ) -> LspResult<()> {
         // For some clients, we don't get the actual changed configuration and need to
         // poll for it https://github.com/microsoft/language-server-protocol/issues/676
-        if let JsonValue::Object(settings) = params.settings {
+        if let JsonValue::Object(mut settings) = params.settings {
+            // Some clients send an object shared by all of the language servers, in which
+            // the tinymist namespace takes precedence.
+            if let Some(JsonValue::Object(namespaced)) = settings.remove("tinymist") {
+                settings = namespaced;
+            }
+
             return self.on_changed_configuration(settings);
         };
 
-- 
2.43.0


From 6f8acbdf4c19da17d43f69d5d8272c55f9a24588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 53/73] fix: resolve the root of a file outside the workspaces
 consistently

The first time it was its parent, and nothing from then on, so that the first
change of the configuration started the projects over.
---
 crates/tinymist-project/src/entry.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/entry.rs b/crates/tinymist-project/src/entry.rs
index 8ca75c0..14abcfc 100644
--- a/crates/tinymist-project/src/entry.rs
+++ b/crates/tinymist-project/src/entry.rs
@@ -64,11 +64,11 @@ impl EntryResolver {
             match typst_toml_cache.get(entry).map(|r| r.clone()) {
                 // In the case that the file is out of workspace, it is believed to not edited
                 // frequently. When we check the package root of such files and didn't find it
-                // previously, we quickly return None to avoid heavy IO frequently.
+                // previously, we quickly return its parent to avoid heavy IO frequently.
                 //
                 // todo: we avoid heavy io for the case when no root is set, but people should
                 // restart the server to refresh the cache
-                Some(None) => return None,
+                Some(None) => return entry.parent().map(Into::into),
                 Some(Some(cached)) => {
                     let cached = cached.clone();
                     if cached.join("typst.toml").exists() {
-- 
2.43.0


From 872cf15b61d56072fa1768976c003fae60444dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 54/73] fix: substitute the variables of an output pattern only
 once

---
 crates/tinymist-task/src/primitives.rs | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index 6e8a016..c276c72 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -157,13 +157,28 @@ impl PathPattern {
         let w = root.to_string_lossy();
         let f = file_name.to_string_lossy();
 
-        // replace all $root
-        let mut path = self.0.replace("$root", &w);
-        if let Some(dir) = dir {
-            let d = dir.to_string_lossy();
-            path = path.replace("$dir", &d);
+        let d = dir.map(|dir| dir.to_string_lossy());
+
+        // Replaces all variables at once, since what they stand for may contain `$`s.
+        let vars = [
+            ("$root", Some(w.as_ref())),
+            ("$dir", d.as_deref()),
+            ("$name", Some(f.as_ref())),
+        ];
+        let mut path = String::new();
+        let mut rest = self.0.as_str();
+        while let Some(ch) = rest.chars().next() {
+            let var = vars
+                .iter()
+                .find_map(|(name, to)| Some((rest.strip_prefix(name)?, (*to)?)));
+            if let Some((remaining, to)) = var {
+                path.push_str(to);
+                rest = remaining;
+            } else {
+                path.push(ch);
+                rest = &rest[ch.len_utf8()..];
+            }
         }
-        path = path.replace("$name", &f);
 
         Some(Path::new(path.as_str()).clean().into())
     }
-- 
2.43.0


From 0ba496433beab8a0d680d563c75bb2607c941651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 55/73] fix: resolve relative output patterns against the root

---
 crates/tinymist-task/src/primitives.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index c276c72..13da237 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -180,6 +180,12 @@ impl PathPattern {
             }
         }
 
+        // A relative pattern like `$dir/$name` is relative to the root.
+        let rooted = self.0.starts_with("$root") || Path::new(self.0.as_str()).is_absolute();
+        if !rooted {
+            path = format!("{w}/{path}");
+        }
+
         Some(Path::new(path.as_str()).clean().into())
     }
 }
-- 
2.43.0


From c49affda86fc013189db2747ccde8a320ca1dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 56/73] fix: read the options of exports as the editors send
 them

---
 crates/tinymist/src/cmd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tinymist/src/cmd.rs b/crates/tinymist/src/cmd.rs
index b88a442..ac03c7e 100644
--- a/crates/tinymist/src/cmd.rs
+++ b/crates/tinymist/src/cmd.rs
@@ -28,6 +28,7 @@ use crate::tool::package::InitTask;
 
 /// See [`ProjectTask`].
 #[derive(Debug, Clone, Default, Deserialize)]
+#[serde(rename_all = "camelCase")]
 struct ExportOpts {
     fill: Option<String>,
     ppi: Option<f32>,
@@ -36,8 +37,10 @@ struct ExportOpts {
     /// Whether to open the exported file(s) after the export is done.
     open: Option<bool>,
     /// The creation timestamp for various outputs (in seconds).
+    #[serde(alias = "creation_timestamp")]
     creation_timestamp: Option<String>,
     /// A PDF standard that Typst can enforce conformance with.
+    #[serde(alias = "pdf_standard")]
     pdf_standard: Option<Vec<PdfStandard>>,
 }
 
-- 
2.43.0


From 465a0c7e9d6573efaa0c25240a8cf0b6184d5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 57/73] fix: select only the first page as the first page

---
 crates/tinymist-task/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index 13da237..131c529 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -200,7 +200,7 @@ pub struct Pages(pub RangeInclusive<Option<NonZeroUsize>>);
 
 impl Pages {
     /// Selects the first page.
-    pub const FIRST: Pages = Pages(NonZeroUsize::new(1)..=None);
+    pub const FIRST: Pages = Pages(NonZeroUsize::new(1)..=NonZeroUsize::new(1));
 }
 
 impl FromStr for Pages {
-- 
2.43.0


From ffad483a701cbd22206cb65a66003d228ede06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 58/73] fix: pretty-print queries that are to be pretty

---
 crates/tinymist/src/task/export.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index a2178d1..5a1dc9e 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -21,7 +21,7 @@ use super::{FutureFolder, SyncTaskFactory};
 use crate::project::{
     ApplyProjectTask, CompiledArtifact, EntryReader, ExportHtmlTask, ExportMarkdownTask,
     ExportPdfTask, ExportPngTask, ExportSvgTask, ExportTask as ProjectExportTask, ExportTextTask,
-    LspCompiledArtifact, ProjectTask, QueryTask, TaskWhen,
+    ExportTransform, LspCompiledArtifact, ProjectTask, QueryTask, TaskWhen,
 };
 use crate::{actor::editor::EditorRequest, tool::word_count};
 
@@ -224,14 +224,15 @@ impl ExportTask {
                 // todo: more pdf flags
                 ExportPdf(config) => PdfExport::run(&graph, paged_doc()?, &config)?,
                 Query(QueryTask {
-                    export: _,
+                    export,
                     output_extension: _,
                     format,
                     selector,
                     field,
                     one,
                 }) => {
-                    let pretty = false;
+                    let pretty = (export.transform.iter())
+                        .any(|t| matches!(t, ExportTransform::Pretty { .. }));
                     let elements = reflexo_typst::query::retrieve(&graph.world(), &selector, doc)
                         .map_err(|e| anyhow::anyhow!("failed to retrieve: {e}"))?;
                     if one && elements.len() != 1 {
-- 
2.43.0


From 6ff50e9619cdbcb3f5ba8537810a2a26b0c972ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 59/73] fix: reject extensions of exported files that contain
 path separators

---
 crates/tinymist/src/task/export.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index 5a1dc9e..355ab6a 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -152,7 +152,11 @@ impl ExportTask {
         if write_to.is_dir() {
             bail!("ExportTask({task:?}): output path is a directory: {write_to:?}");
         }
-        let write_to = write_to.with_extension(task.extension());
+        let extension = task.extension();
+        if extension.contains(std::path::is_separator) {
+            bail!("ExportTask({task:?}): extension contains a path separator: {extension:?}");
+        }
+        let write_to = write_to.with_extension(extension);
 
         static EXPORT_ID: AtomicUsize = AtomicUsize::new(0);
         let export_id = EXPORT_ID.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
-- 
2.43.0


From 7437a711998c24ff5585d58380d4d04eff33b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 60/73] fix: read the files of an export again

---
 crates/tinymist-world/src/world.rs | 7 +++++++
 crates/tinymist/src/server.rs      | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-world/src/world.rs b/crates/tinymist-world/src/world.rs
index 3b158fd..e22b541 100644
--- a/crates/tinymist-world/src/world.rs
+++ b/crates/tinymist-world/src/world.rs
@@ -555,6 +555,13 @@ impl<F: CompilerFeat> CompilerWorld<F> {
         self.revision
     }
 
+    /// Forgets the contents of the files that have been read, to read them
+    /// again.
+    pub fn reset_mapping(&mut self) {
+        self.vfs.reset_mapping();
+        self.take_db();
+    }
+
     pub fn evict_vfs(&mut self, threshold: usize) {
         self.vfs.evict(threshold);
     }
diff --git a/crates/tinymist/src/server.rs b/crates/tinymist/src/server.rs
index 2d4efc1..ca5fafa 100644
--- a/crates/tinymist/src/server.rs
+++ b/crates/tinymist/src/server.rs
@@ -22,7 +22,7 @@ use crate::project::{
 };
 use crate::route::ProjectRouteState;
 use crate::task::{ExportTask, FormatTask, UserActionTask};
-use crate::world::TaskInputs;
+use crate::world::{base::WorldComputeGraph, TaskInputs};
 use crate::{lsp::init::*, *};
 
 pub(crate) use futures::Future;
@@ -463,10 +463,14 @@ impl ServerState {
 
         let snap = self.snapshot()?;
         just_future(async move {
-            let snap = snap.task(TaskInputs {
+            let mut snap = snap.snap.clone().task(TaskInputs {
                 entry: Some(entry),
                 ..TaskInputs::default()
             });
+            // The exported file may be not a dependency of any project. Its files are then
+            // not watched, and may have changed since they were read the last time.
+            snap.world.reset_mapping();
+            let snap = WorldComputeGraph::new(snap);
 
             let is_html = matches!(task, ProjectTask::ExportHtml { .. });
             let artifact = CompiledArtifact::from_graph(snap.clone(), is_html);
-- 
2.43.0


From f4ff1730c8cb32e64befbc0adc2ed9687d490c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 61/73] fix: resolve relative resource paths to clean paths

---
 crates/tinymist-task/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index 131c529..64ff6ca 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -365,7 +365,7 @@ impl ResourcePath {
             if path.is_absolute() {
                 Some(path.to_owned())
             } else {
-                Some(base.join(path))
+                Some(base.join(path).clean())
             }
         } else {
             None
-- 
2.43.0


From ce07db3e1765816f326bf9ce929fbf20f90b61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 62/73] fix: keep a short fingerprint for one item when threads
 resolve at once

---
 crates/tinymist-std/src/hash.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index 8e8a372..e19fd1a 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -238,14 +238,17 @@ impl FingerprintBuilder {
         let mut s = FingerprintSipHasher { data: Vec::new() };
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
+        // Looks up and inserts at once, so that the short fingerprint belongs to
+        // one item when several threads resolve at the same time.
+        let owner_data = self
+            .fast_conflict_checker
+            .entry(fingerprint)
+            .or_insert_with(|| featured_data.clone());
+
+        if *owner_data == *featured_data {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
+        drop(owner_data);
 
         let (fingerprint, _featured_data) = s.finish_fingerprint();
         fingerprint
@@ -257,14 +260,17 @@ impl FingerprintBuilder {
         item.type_id().hash(&mut s);
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
+        // Looks up and inserts at once, so that the short fingerprint belongs to
+        // one item when several threads resolve at the same time.
+        let owner_data = self
+            .fast_conflict_checker
+            .entry(fingerprint)
+            .or_insert_with(|| featured_data.clone());
+
+        if *owner_data == *featured_data {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
+        drop(owner_data);
 
         let (fingerprint, featured_data) = s.finish_fingerprint();
         let Some(prev_featured_data) = self.conflict_checker.get(&fingerprint) else {
-- 
2.43.0


From 89891886769529576e37cbaa315ad86dfdb73bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 63/73] fix: keep the editor connected to the preview after a
 page asks for a source location

The editor actor took the request for a failed send and left its loop, so
the editor heard nothing of the preview after the first such request, and
the standalone previewer exited.
---
 crates/typst-preview/src/actor/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/typst-preview/src/actor/editor.rs b/crates/typst-preview/src/actor/editor.rs
index 6a441d9..efa8959 100644
--- a/crates/typst-preview/src/actor/editor.rs
+++ b/crates/typst-preview/src/actor/editor.rs
@@ -189,7 +189,7 @@ impl<T: EditorServer> EditorActor<T> {
                             self.source_scroll_by_span(req.span)
                                 .await;
 
-                            false
+                            true
                         },
                         EditorActorRequest::CompileStatus(status) => {
                             self.editor_conn.resp_ctl_plane("CompileStatus", ControlPlaneResponse::CompileStatus(status)).await
-- 
2.43.0


From c0b62638bd5b5b444546bc9a3186d6394434f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 64/73] fix: bring a page to the latest document when it is
 rendered in full

A full render packs the document that was rendered last. When a compilation
ended right before a page asked for a full render, both requests were taken
from the mailbox at once and the pages kept the old document until the next
compilation.
---
 crates/typst-preview/src/actor/render.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/typst-preview/src/actor/render.rs b/crates/typst-preview/src/actor/render.rs
index c6f7a86..2d8a068 100644
--- a/crates/typst-preview/src/actor/render.rs
+++ b/crates/typst-preview/src/actor/render.rs
@@ -151,15 +151,17 @@ impl RenderActor {
                 continue;
             };
 
-            let data = if has_full_render {
+            if has_full_render {
+                // this is the document rendered last, which the latest one may have
+                // overtaken, so it is followed by the incremental changes as well
                 if let Some(data) = self.renderer.pack_current() {
-                    data
-                } else {
-                    self.renderer.pack_delta(&document)
+                    let Ok(_) = self.svg_sender.send(data) else {
+                        log::info!("RenderActor: svg_sender is dropped");
+                        break;
+                    };
                 }
-            } else {
-                self.renderer.pack_delta(&document)
-            };
+            }
+            let data = self.renderer.pack_delta(&document);
             let Ok(_) = self.svg_sender.send(data) else {
                 log::info!("RenderActor: svg_sender is dropped");
                 break;
-- 
2.43.0


From 08c1ec6e3d419a045d282a8f3b35669dd91ce1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 65/73] fix: survive a span id that is not a number

A page or the editor could end the editor actor with it.
---
 crates/typst-preview/src/debug_loc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/typst-preview/src/debug_loc.rs b/crates/typst-preview/src/debug_loc.rs
index 42c7314..8f3624f 100644
--- a/crates/typst-preview/src/debug_loc.rs
+++ b/crates/typst-preview/src/debug_loc.rs
@@ -38,8 +38,8 @@ impl InternId {
         format!("{:x}", self.to_u64())
     }
 
-    pub fn from_hex(hex: &str) -> Self {
-        Self::from_u64(u64::from_str_radix(hex, 16).unwrap())
+    pub fn from_hex(hex: &str) -> Option<Self> {
+        Some(Self::from_u64(u64::from_str_radix(hex, 16).ok()?))
     }
 }
 
@@ -113,7 +113,10 @@ impl SpanInternerImpl {
     }
 
     pub fn span_by_str(&self, str: &str) -> InternQuery<SourceSpan> {
-        self.span(InternId::from_hex(str))
+        match InternId::from_hex(str) {
+            Some(id) => self.span(id),
+            None => InternQuery::Ok(None),
+        }
     }
 
     pub fn span(&self, id: InternId) -> InternQuery<SourceSpan> {
-- 
2.43.0


From e29f58e6b0bc12b759ae0472c985c8d37b6e03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 66/73] fix: keep the ids of interned spans after a collection

Collecting the oldest spans moved the others, so that ids given out before
that led to other spans.
---
 crates/typst-preview/src/debug_loc.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/typst-preview/src/debug_loc.rs b/crates/typst-preview/src/debug_loc.rs
index 8f3624f..b826a97 100644
--- a/crates/typst-preview/src/debug_loc.rs
+++ b/crates/typst-preview/src/debug_loc.rs
@@ -87,6 +87,8 @@ impl SpanInterner {
 
 pub struct SpanInternerImpl {
     lifetime: usize,
+    /// The number of spans that were removed, all of which precede those left.
+    removed: usize,
     span2id: IndexSet<(usize, SourceSpan)>,
 }
 
@@ -102,14 +104,17 @@ impl SpanInternerImpl {
     pub fn new() -> Self {
         Self {
             lifetime: 1,
+            removed: 0,
             span2id: IndexSet::new(),
         }
     }
 
     pub fn reset(&mut self) {
         self.lifetime += 1;
+        let before = self.span2id.len();
         self.span2id
             .retain(|(id, _)| self.lifetime - id < GARAGE_COLLECT_THRESHOLD);
+        self.removed += before - self.span2id.len();
     }
 
     pub fn span_by_str(&self, str: &str) -> InternQuery<SourceSpan> {
@@ -124,8 +129,9 @@ impl SpanInternerImpl {
             InternQuery::UseAfterFree
         } else {
             InternQuery::Ok(
-                self.span2id
-                    .get_index(id.id as usize)
+                (id.id as usize)
+                    .checked_sub(self.removed)
+                    .and_then(|idx| self.span2id.get_index(idx))
                     .map(|(_, span)| span)
                     .copied(),
             )
@@ -137,6 +143,6 @@ impl SpanInternerImpl {
         let (idx, _) = self.span2id.insert_full(item);
         // combine lifetime
 
-        InternId::new(self.lifetime, idx)
+        InternId::new(self.lifetime, self.removed + idx)
     }
 }
-- 
2.43.0


From dd1886c874b250a565550d5c66e69963739734f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 67/73] fix: stop rendering outlines for a page that is gone

The outline actor of each page that ever connected went on until the preview
ended, sending the editor one more outline of every document.
---
 crates/typst-preview/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/typst-preview/src/lib.rs b/crates/typst-preview/src/lib.rs
index 3c8cbad..4bbc931 100644
--- a/crates/typst-preview/src/lib.rs
+++ b/crates/typst-preview/src/lib.rs
@@ -136,16 +136,18 @@ impl Previewer {
                     h.editor_tx.clone(),
                     h.span_interner,
                 );
-                tokio::spawn(outline_render_actor.run());
+                let outline_render = tokio::spawn(outline_render_actor.run());
 
-                struct FinallySend(mpsc::UnboundedSender<()>);
+                struct FinallySend(mpsc::UnboundedSender<()>, tokio::task::AbortHandle);
                 impl Drop for FinallySend {
                     fn drop(&mut self) {
+                        // No channel tells the outline actor that the page is gone.
+                        self.1.abort();
                         let _ = self.0.send(());
                     }
                 }
 
-                let _send = FinallySend(alive_tx);
+                let _send = FinallySend(alive_tx, outline_render.abort_handle());
                 webview_actor.run().await;
             })
         };
-- 
2.43.0


From eda731e70ac0487703dd87f52b002a52529a2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 68/73] fix: go on listening for scroll requests after some
 were missed

When a page lagged behind the scroll requests, the ones it did not miss
waited for the next document or message of the page.
---
 crates/typst-preview/src/actor/webview.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/typst-preview/src/actor/webview.rs b/crates/typst-preview/src/actor/webview.rs
index deba25d..2092743 100644
--- a/crates/typst-preview/src/actor/webview.rs
+++ b/crates/typst-preview/src/actor/webview.rs
@@ -88,8 +88,16 @@ impl<
     pub async fn run(mut self) {
         loop {
             tokio::select! {
-                Ok(msg) = self.mailbox.recv() => {
+                msg = self.mailbox.recv() => {
                     log::trace!("WebviewActor: received message from mailbox: {:?}", msg);
+                    let msg = match msg {
+                        Ok(msg) => msg,
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            log::info!("WebviewActor: lagged message. Some events are dropped");
+                            continue;
+                        }
+                        Err(broadcast::error::RecvError::Closed) => break,
+                    };
                     match msg {
                         WebviewActorRequest::SrcToDocJump(jump_info) => {
                             let msg = positions_req("jump", jump_info);
-- 
2.43.0


From e273c7479ad548c9e4dc7af04dc961480316aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 69/73] fix: make a downloaded package appear only when it is
 complete

A package was unpacked at its final place, so one whose download was cut
short by a crash passed for complete ever after, and those that needed it
at the same time saw a part of it.
---
 crates/tinymist-package/src/registry/http.rs | 44 ++++++++++++++++----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-package/src/registry/http.rs b/crates/tinymist-package/src/registry/http.rs
index 7d8bc1d..c5ea1ec 100644
--- a/crates/tinymist-package/src/registry/http.rs
+++ b/crates/tinymist-package/src/registry/http.rs
@@ -1,6 +1,7 @@
 //! Http registry for tinymist.
 
-use std::path::Path;
+use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, OnceLock};
 
 use parking_lot::Mutex;
@@ -294,18 +295,47 @@ impl PackageStorage {
                 Err(err) => return Err(PackageError::NetworkFailed(Some(eco_format!("{err}")))),
             };
 
+            // A package must not be seen before it is complete, neither by others who need
+            // it at the same time nor after a crash. So it is unpacked next to its place
+            // first.
+            let temp_dir = temp_package_dir(package_dir);
             let decompressed = flate2::read::GzDecoder::new(reader);
-            tar::Archive::new(decompressed)
-                .unpack(package_dir)
-                .map_err(|err| {
-                    std::fs::remove_dir_all(package_dir).ok();
-                    PackageError::MalformedArchive(Some(eco_format!("{err}")))
-                })
+            let res = tar::Archive::new(decompressed)
+                .unpack(&temp_dir)
+                .map_err(|err| PackageError::MalformedArchive(Some(eco_format!("{err}"))))
+                .and_then(|()| match std::fs::rename(&temp_dir, package_dir) {
+                    Ok(()) => Ok(()),
+                    // Somebody else has downloaded it in the meantime.
+                    Err(_) if package_dir.exists() => Ok(()),
+                    Err(err) => Err(PackageError::Other(Some(eco_format!(
+                        "failed to move downloaded package directory: {err}"
+                    )))),
+                });
+            // It is gone already if it has been moved.
+            std::fs::remove_dir_all(&temp_dir).ok();
+            res
         })
         .ok_or_else(|| PackageError::Other(Some(eco_format!("cannot spawn http thread"))))?
     }
 }
 
+/// Gets the directory to unpack a package in, before it is moved to
+/// `package_dir`. No other download uses it.
+fn temp_package_dir(package_dir: &Path) -> PathBuf {
+    static NEXT: AtomicUsize = AtomicUsize::new(0);
+
+    let version = package_dir.file_name().unwrap_or_default();
+    let nanos = std::time::SystemTime::now()
+        .duration_since(std::time::UNIX_EPOCH)
+        .map_or(0, |time| time.as_nanos());
+    package_dir.with_file_name(format!(
+        ".tmp-{}-{}-{nanos}-{}",
+        version.to_string_lossy(),
+        std::process::id(),
+        NEXT.fetch_add(1, Ordering::Relaxed),
+    ))
+}
+
 pub(crate) fn threaded_http<T: Send + Sync>(
     url: &str,
     cert_path: Option<&Path>,
-- 
2.43.0


From e52778695cec41ff67c2c09c8b17359f13599e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 70/73] fix: kill all previews when no task is given

The task was taken from the arguments before it was checked whether there
are any, so doKillPreview without arguments always failed.
---
 crates/tinymist/src/cmd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist/src/cmd.rs b/crates/tinymist/src/cmd.rs
index ac03c7e..a675025 100644
--- a/crates/tinymist/src/cmd.rs
+++ b/crates/tinymist/src/cmd.rs
@@ -360,12 +360,12 @@ impl ServerState {
     /// Kill a preview instance.
     #[cfg(feature = "preview")]
     pub fn kill_preview(&mut self, mut args: Vec<JsonValue>) -> AnySchedulableResponse {
-        let task_id = get_arg!(args[0] as String);
-
         if args.is_empty() {
             return self.preview.kill_all();
         }
 
+        let task_id = get_arg!(args[0] as String);
+
         self.preview.kill(task_id)
     }
 
-- 
2.43.0


From 43225b144d34e71532c6869a06139c5eb4940153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 71/73] fix: refuse a static file host before a preview takes a
 project

The preview was refused after it had been registered and the project had
been pinned, and both were left so.
---
 crates/tinymist/src/tool/preview.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/tinymist/src/tool/preview.rs b/crates/tinymist/src/tool/preview.rs
index 2d19743..ab4156a 100644
--- a/crates/tinymist/src/tool/preview.rs
+++ b/crates/tinymist/src/tool/preview.rs
@@ -180,6 +180,12 @@ impl ServerState {
             })
             .transpose()?;
 
+        if !cli_args.static_file_host.is_empty()
+            && (cli_args.static_file_host != cli_args.data_plane_host)
+        {
+            return Err(internal_error("--static-file-host is removed"));
+        }
+
         let task_id = cli_args.preview.task_id.clone();
         if task_id == "primary" {
             return Err(invalid_params("task id 'primary' is reserved"));
@@ -312,10 +318,6 @@ impl PreviewState {
         let open_in_browser = args.open_in_browser(false);
         log::info!("PreviewTask({task_id}): arguments: {args:#?}");
 
-        if !args.static_file_host.is_empty() && (args.static_file_host != args.data_plane_host) {
-            return Err(internal_error("--static-file-host is removed"));
-        }
-
         let (lsp_tx, lsp_rx) = ControlPlaneTx::new(false);
         let ControlPlaneRx {
             resp_rx,
-- 
2.43.0


From e28adaaaef4ca892876ad3c2ee2b1d4a1d3726fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 72/73] fix: keep the watcher of a background preview when
 projects are reloaded

A background preview is not killed with the others, but was no longer told
about compilations.
---
 crates/tinymist/src/tool/preview.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist/src/tool/preview.rs b/crates/tinymist/src/tool/preview.rs
index ab4156a..2ab49a2 100644
--- a/crates/tinymist/src/tool/preview.rs
+++ b/crates/tinymist/src/tool/preview.rs
@@ -285,8 +285,10 @@ impl PreviewState {
     pub(crate) fn stop_all(&mut self) {
         log::info!("Stopping all preview tasks");
 
-        let mut watchers = self.watchers.inner.lock();
-        for (_, watcher) in watchers.iter_mut() {
+        // The watchers are unregistered once their tabs are killed, and a background
+        // preview keeps its own.
+        let watchers = self.watchers.inner.lock();
+        for watcher in watchers.values() {
             self.preview_tx
                 .send(PreviewRequest::Kill(
                     watcher.task_id().to_owned(),
@@ -294,7 +296,6 @@ impl PreviewState {
                 ))
                 .log_error_with(|| format!("failed to send kill request({:?})", watcher.task_id()));
         }
-        watchers.clear();
     }
 }
 
-- 
2.43.0


From e62a3beb61eb36ecc9ffd45ef3d57aeb6bfed498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 73/73] fix: answer a preview whose address is taken

The task panicked when it could not listen, so the request was never
answered, and the project was left registered and pinned.
---
 crates/tinymist/src/tool/preview.rs      | 28 ++++++++++++++++++++----
 crates/tinymist/src/tool/preview/http.rs | 13 ++++++-----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist/src/tool/preview.rs b/crates/tinymist/src/tool/preview.rs
index 2ab49a2..4c34f5c 100644
--- a/crates/tinymist/src/tool/preview.rs
+++ b/crates/tinymist/src/tool/preview.rs
@@ -376,6 +376,7 @@ impl PreviewState {
         });
 
         let preview_tx = self.preview_tx.clone();
+        let watchers = self.watchers.clone();
         just_future(async move {
             let mut previewer = previewer.await;
             bind_streams(&mut previewer, websocket_rx);
@@ -388,6 +389,24 @@ impl PreviewState {
             let frontend_html = frontend_html(TYPST_PREVIEW_HTML, args.preview_mode, "/");
 
             let srv = make_http_server(frontend_html, args.data_plane_host, websocket_tx).await;
+            let srv = match srv {
+                Ok(srv) => srv,
+                Err(e) => {
+                    // Release the project as it is when a preview is killed.
+                    let _ = watchers.unregister(&compile_handler.project_id);
+                    if is_primary {
+                        compile_handler.unpin_primary();
+                    } else {
+                        compile_handler
+                            .settle()
+                            .log_error_with(|| format!("PreviewTask({task_id}): failed to settle"));
+                    }
+                    previewer.stop().await;
+                    previewer.join().await;
+
+                    return Err(internal_error(e));
+                }
+            };
             let addr = srv.addr;
             log::info!("PreviewTask({task_id}): preview server listening on: {addr}");
 
@@ -511,8 +530,9 @@ pub async fn preview_main(args: PreviewCliArgs) -> Result<()> {
     let control_plane_server_handle = tokio::spawn(async move {
         let (control_sock_tx, mut control_sock_rx) = mpsc::unbounded_channel();
 
-        let srv =
-            make_http_server(String::default(), args.control_plane_host, control_sock_tx).await;
+        let srv = make_http_server(String::default(), args.control_plane_host, control_sock_tx)
+            .await
+            .expect("failed to start the control plane server");
         log::info!("Control panel server listening on: {}", srv.addr);
 
         let control_websocket = control_sock_rx.recv().await.unwrap();
@@ -579,12 +599,12 @@ pub async fn preview_main(args: PreviewCliArgs) -> Result<()> {
     let static_server = if let Some(static_file_host) = static_file_host {
         log::warn!("--static-file-host is deprecated, which will be removed in the future. Use --data-plane-host instead.");
         let html = frontend_html.clone();
-        Some(make_http_server(html, static_file_host, websocket_tx.clone()).await)
+        Some(make_http_server(html, static_file_host, websocket_tx.clone()).await?)
     } else {
         None
     };
 
-    let srv = make_http_server(frontend_html, args.data_plane_host, websocket_tx).await;
+    let srv = make_http_server(frontend_html, args.data_plane_host, websocket_tx).await?;
     log::info!("Data plane server listening on: {}", srv.addr);
 
     let static_server_addr = static_server.as_ref().map(|s| s.addr).unwrap_or(srv.addr);
diff --git a/crates/tinymist/src/tool/preview/http.rs b/crates/tinymist/src/tool/preview/http.rs
index f15c94e..7bf17c2 100644
--- a/crates/tinymist/src/tool/preview/http.rs
+++ b/crates/tinymist/src/tool/preview/http.rs
@@ -9,6 +9,7 @@ use hyper_tungstenite::HyperWebsocket;
 use hyper_util::rt::TokioIo;
 use hyper_util::server::graceful::GracefulShutdown;
 use lsp_types::Url;
+use reflexo_typst::error::prelude::*;
 use tinymist_std::error::IgnoreLogging;
 use tokio::sync::{mpsc, oneshot};
 
@@ -27,15 +28,17 @@ pub async fn make_http_server(
     frontend_html: String,
     static_file_addr: String,
     websocket_tx: mpsc::UnboundedSender<HyperWebsocket>,
-) -> HttpServer {
+) -> Result<HttpServer> {
     use http_body_util::Full;
     use hyper::body::{Bytes, Incoming};
     type Server = hyper_util::server::conn::auto::Builder<hyper_util::rt::TokioExecutor>;
 
     let listener = tokio::net::TcpListener::bind(&static_file_addr)
         .await
-        .unwrap();
-    let addr = listener.local_addr().unwrap();
+        .context_ut("failed to bind the preview server")?;
+    let addr = listener
+        .local_addr()
+        .context_ut("failed to get the address of the preview server")?;
     log::info!("preview server listening on http://{addr}");
 
     let frontend_html = hyper::body::Bytes::from(frontend_html);
@@ -161,11 +164,11 @@ pub async fn make_http_server(
         log::info!("Preview server joined");
     });
 
-    HttpServer {
+    Ok(HttpServer {
         addr,
         shutdown_tx,
         join,
-    }
+    })
 }
 
 fn is_valid_origin(h: &HeaderValue, static_file_addr: &str, expected_port: u16) -> bool {
-- 
2.43.0

