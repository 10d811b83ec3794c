From 1999dda9d9b8a4f2a488aec9a15c62cabf3ca787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 01/20] fix: do not forward uninitialised control data of
 received messages

A message received without attachments kept a 32 byte control buffer that
the kernel never wrote to. Forwarding it made sendmsg fail with EINVAL, so
the message was lost and the destination endpoint was taken for dead.
---
 ipmb/src/platform/linux/encoded_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..33044df 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -81,6 +81,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // Only the part written by the kernel is valid, it will be sent as is when forwarding
+            control_data.truncate(hdr.msg_controllen as _);
+
             // parse
             let mut objects = vec![];
 
-- 
2.43.0


From 0fa68c883ce78eb919d6e82b360f3b5c88e01666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 02/20] fix: receive up to the kernel limit of attachments per
 message

The control buffer had room for 4 descriptors only: a message with more
objects and memory regions was truncated, which dropped the message and
disconnected its sender.
---
 ipmb/src/platform/linux/encoded_message.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 33044df..30a5b3a 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -5,6 +5,9 @@ use crate::{
 use std::{io, mem, os::fd::RawFd, ptr, slice};
 use type_uuid::TypeUuid;
 
+// The maximum number of fds the kernel passes in one message
+const SCM_MAX_FD: u32 = 253;
+
 /// Message layout
 /// | version (magic__major__minor__patch)
 /// | selector_size (u32)
@@ -58,7 +61,7 @@ impl EncodedMessage {
 
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                control_len: libc::CMSG_SPACE(SCM_MAX_FD * mem::size_of::<RawFd>() as u32),
             };
 
             // recv payload
-- 
2.43.0


From f8bbeee187c91550e4064d79df2a895d20698593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 03/20] fix: create all descriptors close-on-exec

Accepted connections, epoll and eventfd descriptors and received attachments
were inherited by child processes, which kept connections of a dead
controller alive.
---
 ipmb/src/platform/linux.rs                 | 8 ++++++--
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 ipmb/src/platform/linux/io_mul.rs          | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..b4fd5f2 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -321,8 +321,12 @@ impl IoHub {
                 if let Some(ref listener) = self.listener {
                     if ev.u64 == listener.as_raw() as u64 {
                         unsafe {
-                            let fd =
-                                libc::accept(listener.as_raw(), ptr::null_mut(), ptr::null_mut());
+                            let fd = libc::accept4(
+                                listener.as_raw(),
+                                ptr::null_mut(),
+                                ptr::null_mut(),
+                                libc::SOCK_CLOEXEC,
+                            );
                             if fd != -1 {
                                 let local = Local(Fd::from_raw(fd));
                                 let _ = libc::setsockopt(
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 30a5b3a..9b38a78 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -75,7 +75,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
+            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
             if r <= 0
                 || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..f9eb9f8 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -9,13 +9,13 @@ pub struct IoMultiplexing {
 impl IoMultiplexing {
     pub fn new() -> Self {
         let fd = unsafe {
-            let fd = libc::epoll_create1(0);
+            let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
             assert_ne!(fd, -1);
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
-            let efd = libc::eventfd(0, 0);
+            let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
             assert_ne!(efd, -1);
             Fd::from_raw(efd)
         };
-- 
2.43.0


From d4b3186a8b19f275d9ec6448e36bb40121405bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 04/20] fix: do not raise SIGPIPE when the peer is gone

Rust programs ignore SIGPIPE, but C/C++ hosts of ipmb-ffi do not and were
killed when they sent to a dead controller or endpoint.
---
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 9b38a78..4b29b43 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -170,7 +170,7 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
         if r == -1 {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
-- 
2.43.0


From 9c2d5563d6fde3f16f6f656211261c513ac31229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 05/20] fix: tag messages with the type of the payload that is
 sent

Message::payload is public: after assigning another variant of a MessageBox
the message was still sent with the type uuid of the original payload.
---
 ipmb/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..7e12597 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -126,6 +126,8 @@ impl<T> Clone for EndpointSender<T> {
 impl<T: MessageBox> EndpointSender<T> {
     pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
+        // The payload may have been replaced since the message was created
+        msg.selector.uuid = msg.payload.uuid();
         let mut msg = msg.into_encoded();
 
         loop {
-- 
2.43.0


From 57e99492438ab581a1b9ac2b098c10e33a3e5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 06/20] fix: never deliver buffered messages whose ttl has
 expired

Expired messages were discarded only after the next received message had been
handled, so an endpoint that connected first still got them.
---
 ipmb/src/bus_controller.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..fb10c1a 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -78,11 +78,12 @@ impl BusController {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        if expire <= now {
+                            continue;
+                        }
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From d7ba376b66a9bf9b992c4f20f82c1ca304eeecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 07/20] fix: do not panic the bus controller on a huge ttl

Adding e.g. Duration::MAX to an Instant panics, any endpoint could stop the
bus by sending an unroutable message with such a ttl.
---
 ipmb/src/bus_controller.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index fb10c1a..754f0c4 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -13,6 +13,8 @@ use std::{
 };
 use type_uuid::TypeUuid;
 
+const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
+
 pub struct BusController {
     label: Label,
     token: String,
@@ -71,8 +73,11 @@ impl BusController {
 
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
-                        self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                        // The ttl comes from the sender and may be out of range
+                        let expire = now
+                            .checked_add(remain.selector.ttl)
+                            .unwrap_or_else(|| now + FAR_FUTURE);
+                        self.message_buffer.push((expire, remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
-- 
2.43.0


From f2ce252af7902167376fe6d510cc6d257fece87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 08/20] fix: refuse to map ranges outside of a memory region

Ranges past the end of a region were mapped, touching them raised SIGBUS,
reversed ranges and out of range offsets overflowed.
---
 ipmb-ffi/src/lib.rs      |  2 +-
 ipmb/src/platform/mod.rs | 16 +++++++++++-----
 ipmb/src/util/mod.rs     | 11 ++++++-----
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..8013e06 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -406,7 +406,7 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        region.map(offset..offset.saturating_add(size as usize))
     }
     .map(|v| {
         if !real_size.is_null() {
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..ce5de18 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -61,7 +61,7 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
@@ -116,10 +116,16 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
+        let (offset, size) =
+            util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
+        let available = usize::try_from(self.buffer_size())
+            .unwrap_or(usize::MAX - Self::header_length())
+            .checked_sub(offset)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let size = size.unwrap_or(available);
+        if size > available {
+            return Err(Error::MemoryRegionMapping);
+        }
         let real_offset = Self::header_length() + offset;
 
         let need_remap = self
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..2412d39 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -58,17 +58,18 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// Returns `None` if the range is reversed or out of `usize`.
+pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> Option<(usize, Option<usize>)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
     let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
+        Bound::Included(&bound) => Some(bound.checked_add(1)?.checked_sub(offset)?),
+        Bound::Excluded(&bound) => Some(bound.checked_sub(offset)?),
         Bound::Unbounded => None,
     };
 
-    (offset, size)
+    Some((offset, size))
 }
-- 
2.43.0


From ff0575c78f293f9ade5227a9acbe116c0c48b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 09/20] fix: do not call the free function of a region that is
 still in use

The registry forgot regions five seconds after their last allocation even if
they were still referenced, which ran their free function early.
---
 ipmb/src/memory_registry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..9944a32 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -73,7 +73,8 @@ impl MemoryRegistry {
                     r.guard = Guard { free: None };
                 }
 
-                should_retain
+                // Don't call free function until region became free
+                should_retain || r.guard.free.is_some()
             });
             !rs.is_empty()
         });
-- 
2.43.0


From cc3ff1351623d2399467f098295fd3657c6adcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 10/20] fix: do not report a timeout when waiting is
 interrupted by a signal

epoll_wait fails with EINTR when a signal handler runs, recv reported this as
a timeout, even without any timeout. Wait for the remaining time instead, and
do not truncate large timeouts.
---
 ipmb/src/platform/linux.rs        | 14 +++++++++++---
 ipmb/src/platform/linux/io_mul.rs |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index b4fd5f2..9d2a612 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -11,7 +11,7 @@ use std::{
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 mod encoded_message;
@@ -294,6 +294,8 @@ impl IoHub {
     ) -> Result<EncodedMessage, Error> {
         let _ = remote;
 
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         'ret: loop {
             if let Some(ref rx) = self.bus_rx {
                 match rx.try_recv() {
@@ -307,10 +309,16 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            let remain =
+                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+            self.im.wait(&mut self.in_buffer, remain);
 
             if self.in_buffer.is_empty() {
-                break Err(Error::Timeout);
+                match remain {
+                    Some(remain) if remain.is_zero() => break Err(Error::Timeout),
+                    // Interrupted by a signal, or woken up before the deadline
+                    _ => continue,
+                }
             }
 
             for ev in self.in_buffer.drain(..) {
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index f9eb9f8..4546c41 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -45,7 +45,7 @@ impl IoMultiplexing {
                 events.as_mut_ptr(),
                 events.capacity() as _,
                 timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
+                    .map(|tot| ffi::c_int::try_from(tot.as_millis()).unwrap_or(ffi::c_int::MAX))
                     .unwrap_or(-1),
             );
             if n < 1 {
-- 
2.43.0


From af7dcb691f3a006a66c7b6ed486706f65be2cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 11/20] fix: let the timeout of recv cover skipped messages

Each message of an unknown type restarted the timeout, recv never returned
while such messages kept arriving.
---
 ipmb/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 7e12597..47666af 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -205,7 +205,18 @@ pub struct EndpointReceiver<R> {
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+        let mut polled = false;
+
         loop {
+            // Messages may be skipped, wait for the remaining time only
+            let timeout =
+                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+            if polled && timeout.map_or(false, |timeout| timeout.is_zero()) {
+                break Err(RecvError::Timeout);
+            }
+            polled = true;
+
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
-- 
2.43.0


From 060db7199e758da14481c024bec4369845f4b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 12/20] fix: let join time out while the identifier is bound
 but not listening

join ignored its timeout as long as look up and registration contradicted each
other, and panicked on a timeout too large for the clock.
---
 ipmb/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 47666af..10dbdcf 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -426,7 +426,7 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         macro_rules! wait {
             () => {
@@ -499,7 +499,12 @@ impl Rule {
                             };
                             break rule;
                         }
-                        Err(Error::IdentifierInUse) => {}
+                        Err(Error::IdentifierInUse) => {
+                            // Another endpoint is becoming the controller, look up it again
+                            if end.map_or(false, |end| Instant::now() >= end) {
+                                return Err(JoinError::Timeout);
+                            }
+                        }
                         Err(Error::PermissionDenied) => {
                             permission_denied_count += 1;
                             if permission_denied_count > 5 {
-- 
2.43.0


From f62b53477212b23c9d6e835ca5a883e47f0ca1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 13/20] fix: do not take a refused message for a dead
 connection

Every sendmsg error was reported as a disconnect: a message too large for a
datagram made send rejoin and retry forever, the controller removed the
endpoint it was addressed to, and a signal had the same effect.
---
 ipmb-ffi/src/lib.rs                        |  1 +
 ipmb/src/errors.rs                         |  2 ++
 ipmb/src/lib.rs                            |  1 +
 ipmb/src/platform/linux/encoded_message.rs | 24 ++++++++++++++++++----
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 8013e06..06607de 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -161,6 +161,7 @@ pub unsafe extern "C" fn ipmb_send(sender: &mut Sender, message: Message) -> Err
     match sender.send(message.into()) {
         Ok(_) => ERROR_CODE_SUCCESS,
         Err(ipmb::SendError::Timeout) => ERROR_CODE_TIMEOUT,
+        Err(ipmb::SendError::IoError(_)) => ERROR_CODE_UNKNOWN,
         Err(ipmb::SendError::VersionMismatch(_)) => ERROR_CODE_VERSION_MISMATCH,
         Err(ipmb::SendError::TokenMismatch) => ERROR_CODE_TOKEN_MISMATCH,
         Err(ipmb::SendError::PermissionDenied) => ERROR_CODE_PERMISSION_DENIED,
diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 1e7a5e2..75e5540 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -50,6 +50,8 @@ pub enum JoinError {
 pub enum SendError {
     #[error("timeout")]
     Timeout,
+    #[error("io error: {0}")]
+    IoError(#[from] std::io::Error),
     #[error("version mismatch: {0}")]
     VersionMismatch(Version),
     #[error("token mismatch")]
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 10dbdcf..eedd4e5 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -178,6 +178,7 @@ impl<T: MessageBox> EndpointSender<T> {
                             Rule::Server { .. } => {}
                         }
                     }
+                    Err(Error::IoError(err)) => break Err(SendError::IoError(err)),
                     Err(_) => unreachable!(),
                     Ok(_) => break Ok(()),
                 },
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 4b29b43..b0682f8 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -170,13 +170,29 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
-        if r == -1 {
+        let err = loop {
+            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
+            if r != -1 {
+                break None;
+            }
+            let err = io::Error::last_os_error();
+            if err.kind() != io::ErrorKind::Interrupted {
+                break Some(err);
+            }
+        };
+        if let Some(err) = err {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
             }
-            log::error!("sendmsg: {}", io::Error::last_os_error());
-            Err(Error::Disconnect)
+            log::error!("sendmsg: {}", err);
+            match err.kind() {
+                io::ErrorKind::BrokenPipe
+                | io::ErrorKind::ConnectionReset
+                | io::ErrorKind::ConnectionRefused
+                | io::ErrorKind::NotConnected => Err(Error::Disconnect),
+                // The message itself is refused, e.g. it is too large
+                _ => Err(Error::IoError(err)),
+            }
         } else {
             Ok(())
         }
-- 
2.43.0


From 5f0a25b76c37fa97e0f6d40c87e4d5981e99aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 14/20] fix: answer connect messages of incompatible versions

The bus controller replies to VersionMismatch(_, Some(remote)), but nobody
provided the remote, so joining a bus of another version ended with repeated
handshake timeouts and version 0.0.0 instead of the version of the bus.
---
 ipmb/src/platform/linux/encoded_message.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index b0682f8..46dd29e 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -106,13 +106,21 @@ impl EncodedMessage {
 
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
+            // A peer of another version is only known by its connect message, whose last object
+            // is the pipe to reply to
             if magic != 0xFF {
-                return Err(Error::VersionMismatch(Version((0, 0, 0)), None));
+                return Err(Error::VersionMismatch(
+                    Version((0, 0, 0)),
+                    objects.pop().map(Remote::new),
+                ));
             }
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                return Err(Error::VersionMismatch(
+                    remote_version,
+                    objects.pop().map(Remote::new),
+                ));
             }
 
             let selector_size_ptr = version_ptr.offset(1);
-- 
2.43.0


From 72d2ae50f06e94e06cce4363b6bf060918316593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 15/20] fix: close the objects of a truncated message

Descriptors installed by the kernel leaked when the control data of a message
was truncated, e.g. because the descriptor limit was reached.
---
 ipmb/src/platform/linux/encoded_message.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 46dd29e..3baef66 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -77,10 +77,7 @@ impl EncodedMessage {
 
             r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
-            if r <= 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r <= 0 {
                 return Err(Error::Disconnect);
             }
 
@@ -104,6 +101,13 @@ impl EncodedMessage {
                 }
             }
 
+            // Received objects are owned from here on, even if some of them are missing
+            if (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
+                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
+            {
+                return Err(Error::Disconnect);
+            }
+
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             // A peer of another version is only known by its connect message, whose last object
-- 
2.43.0


From 143ab7f186766909330d3988ef051f17d5055ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 16/20] fix: check sizes and counts of received messages

A datagram with inconsistent sizes made the receiver read out of bounds, one
that claimed more memory regions than objects or an object that cannot be
mapped made it panic. Treat such messages like a lost connection.
---
 ipmb/src/lib.rs                            | 10 ++---
 ipmb/src/platform/linux/encoded_message.rs | 50 ++++++++++++++--------
 ipmb/src/platform/mod.rs                   |  9 ++--
 3 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index eedd4e5..8c8a468 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -297,7 +297,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 continue;
                             }
                         }
-                        Err(Error::Disconnect) => {
+                        Err(Error::Timeout) => {
+                            break Err(RecvError::Timeout);
+                        }
+                        // The connection is closed after any other error
+                        Err(_) => {
                             let epoch = *epoch;
                             drop(io_hub_guard);
                             drop(rule);
@@ -336,10 +340,6 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 Rule::Server { .. } => continue,
                             }
                         }
-                        Err(Error::Timeout) => {
-                            break Err(RecvError::Timeout);
-                        }
-                        Err(_) => unreachable!(),
                     }
                 }
                 Rule::Server {
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 3baef66..624aa35 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -108,8 +108,11 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
-            let version_ptr = iov_data.as_ptr() as *const u32;
-            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
+            // Sizes and counts come from the peer, never read beyond the received data
+            iov_data.truncate(r as _);
+
+            let [magic, major, minor, patch]: [u8; 4] =
+                u32::to_ne_bytes(read_u32(&iov_data, 0)?);
             // A peer of another version is only known by its connect message, whose last object
             // is the pipe to reply to
             if magic != 0xFF {
@@ -127,31 +130,29 @@ impl EncodedMessage {
                 ));
             }
 
-            let selector_size_ptr = version_ptr.offset(1);
-            let selector_size = *selector_size_ptr;
-            let selector_ptr = selector_size_ptr.offset(1) as *const u8;
+            let selector_size = read_u32(&iov_data, 4)? as usize;
+            let selector: Selector = decode(read_bytes(&iov_data, 8, selector_size)?)?;
 
-            // TODO: Check size
-            let selector: Selector =
-                decode(slice::from_raw_parts(selector_ptr, selector_size as _))?;
+            let payload_size_offset = 8 + selector_size.align4();
+            let payload_size = read_u32(&iov_data, payload_size_offset)? as usize;
+            let payload = read_bytes(&iov_data, payload_size_offset + 4, payload_size)?;
 
-            let memory_regions: Vec<_> = objects
-                .drain((objects.len() - selector.memory_region_count as usize)..)
+            let object_count = objects
+                .len()
+                .checked_sub(selector.memory_region_count as usize)
+                .ok_or(Error::Disconnect)?;
+            let memory_regions = objects
+                .drain(object_count..)
                 .map(|obj| {
-                    let r = MemoryRegion::from_object(obj);
+                    let r = MemoryRegion::try_from_object(obj)?;
                     r.ref_count_inner(-1);
-                    r
+                    Ok(r)
                 })
-                .collect();
-
-            let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
+                .collect::<Result<Vec<_>, Error>>()?;
 
             Ok(Self {
                 selector,
-                payload_data: slice::from_raw_parts(
-                    payload_size_ptr.offset(1) as *const u8,
-                    *payload_size_ptr as _,
-                ),
+                payload_data: slice::from_raw_parts(payload.as_ptr(), payload.len()),
                 iov_data,
                 control_data,
                 objects,
@@ -211,6 +212,17 @@ impl EncodedMessage {
     }
 }
 
+fn read_bytes(data: &[u8], offset: usize, size: usize) -> Result<&[u8], Error> {
+    data.get(offset..)
+        .and_then(|data| data.get(..size))
+        .ok_or(Error::Disconnect)
+}
+
+fn read_u32(data: &[u8], offset: usize) -> Result<u32, Error> {
+    let bytes = read_bytes(data, offset, mem::size_of::<u32>())?;
+    Ok(u32::from_ne_bytes(bytes.try_into().unwrap()))
+}
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index ce5de18..0618b7f 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -88,9 +88,12 @@ impl MemoryRegion {
     }
 
     pub fn from_object(obj: Object) -> Self {
+        Self::try_from_object(obj).expect("MappedRegion::from_object")
+    }
+
+    pub(crate) fn try_from_object(obj: Object) -> Result<Self, Error> {
         let mr = unsafe {
-            let header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let header = MappedRegion::from_object(&obj, 0, Self::header_length())?;
 
             let buffer_size = header
                 .as_slice()
@@ -108,7 +111,7 @@ impl MemoryRegion {
         };
         mr.ref_count_inner(1);
 
-        mr
+        Ok(mr)
     }
 
     pub fn object(&self) -> &Object {
-- 
2.43.0


From 0002df756b02c4c61ce9c3ec2d0455b17d922362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 17/20] fix: let close end the receive loop of Node while
 messages keep arriving

---
 ipmb-js/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c83f50a..0553262 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -283,18 +283,9 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
         let r = receiver.recv(Some(Duration::from_millis(200)));
 
         match r {
-            Err(ipmb::RecvError::Timeout) => match guard_receiver.try_recv() {
-                Ok(_) => {
-                    tsfn.destroy();
-                    break;
-                }
-                Err(mpsc::TryRecvError::Disconnected) => {
-                    break;
-                }
-                Err(mpsc::TryRecvError::Empty) => {
-                    tsfn.call(DelegateAction::CleanTimeout);
-                }
-            },
+            Err(ipmb::RecvError::Timeout) => {
+                tsfn.call(DelegateAction::CleanTimeout);
+            }
             Err(
                 ipmb::RecvError::VersionMismatch(_)
                 | ipmb::RecvError::TokenMismatch
@@ -308,6 +299,18 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
                 tsfn.call(DelegateAction::Recv(r));
             }
         }
+
+        // Messages may arrive continuously, check for close after each of them
+        match guard_receiver.try_recv() {
+            Ok(_) => {
+                tsfn.destroy();
+                break;
+            }
+            Err(mpsc::TryRecvError::Disconnected) => {
+                break;
+            }
+            Err(mpsc::TryRecvError::Empty) => {}
+        }
     });
 
     let receiver = Receiver {
-- 
2.43.0


From b969436edd245ae8131c47ba3f05f3695adf482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 18/20] fix: do not send uninitialised padding bytes

---
 ipmb/src/platform/linux.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 9d2a612..c0051ef 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -457,6 +457,8 @@ fn alloc_buffer<T>(size: usize) -> Vec<u8> {
         buffer_t_size += 1;
     }
     let mut buf_t = Vec::<T>::with_capacity(buffer_t_size);
+    // Paddings are never written but sent to other processes
+    unsafe { ptr::write_bytes(buf_t.as_mut_ptr(), 0, buffer_t_size) };
 
     let buffer_size = buffer_t_size * mem::size_of::<T>();
     let buf =
-- 
2.43.0


From 06f8a8b9c40008692fe93974c07971d3aea64521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 19/20] fix: do not restart the timeout of recv when the
 connection is lost

---
 ipmb/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 8c8a468..99962fe 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -207,12 +207,13 @@ pub struct EndpointReceiver<R> {
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
         let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+        let remaining =
+            || deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
         let mut polled = false;
 
         loop {
             // Messages may be skipped, wait for the remaining time only
-            let timeout =
-                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+            let timeout = remaining();
             if polled && timeout.map_or(false, |timeout| timeout.is_zero()) {
                 break Err(RecvError::Timeout);
             }
@@ -254,7 +255,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         options.clone(),
                                         epoch.overflowing_add(1).0,
                                         im.clone(),
-                                        timeout,
+                                        remaining(),
                                     )?;
 
                                     if reader_closed {
@@ -327,7 +328,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                             options.clone(),
                                             epoch.overflowing_add(1).0,
                                             im.clone(),
-                                            timeout,
+                                            remaining(),
                                         )?;
 
                                         if reader_closed {
-- 
2.43.0


From 01464c329b71495af9c36483275c57aa6aade8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 20/20] fix: an empty payload may come with a null pointer

---
 ipmb-ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 06607de..04ad4fc 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -283,7 +283,12 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    // An empty payload may come with a null pointer
+    let data = if size == 0 {
+        Vec::new()
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
-- 
2.43.0

