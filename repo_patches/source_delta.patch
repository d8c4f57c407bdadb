From d72201fc11f9c5ce5084dc6c0f26ab7523846bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:54 +0000
Subject: [PATCH 01/21] verif hooks: report atomic and mutex operations under
 cfg(futures_verif)

---
 futures-channel/src/lock.rs                   |   6 +-
 futures-channel/src/mpsc/mod.rs               |   8 +-
 futures-channel/src/mpsc/queue.rs             |  10 +-
 futures-channel/src/oneshot.rs                |   5 +-
 futures-core/src/__verif.rs                   | 246 ++++++++++++++++++
 futures-core/src/lib.rs                       |   4 +
 .../src/task/__internal/atomic_waker.rs       |   6 +-
 futures-executor/src/local_pool.rs            |   5 +-
 futures-executor/src/thread_pool.rs           |   5 +-
 futures-executor/src/unpark_mutex.rs          |  10 +-
 futures-util/src/abortable.rs                 |   5 +-
 .../src/future/future/remote_handle.rs        |   5 +-
 futures-util/src/future/future/shared.rs      |  18 +-
 futures-util/src/lock/bilock.rs               |   5 +-
 futures-util/src/lock/mutex.rs                |   8 +-
 .../src/stream/futures_unordered/mod.rs       |   6 +-
 .../src/stream/stream/flatten_unordered.rs    |   5 +-
 17 files changed, 333 insertions(+), 24 deletions(-)
 create mode 100644 futures-core/src/__verif.rs

diff --git a/futures-channel/src/lock.rs b/futures-channel/src/lock.rs
index 081d149..ac3fff5 100644
--- a/futures-channel/src/lock.rs
+++ b/futures-channel/src/lock.rs
@@ -7,8 +7,12 @@
 use core::{
     cell::UnsafeCell,
     ops::{Deref, DerefMut},
-    sync::atomic::{AtomicBool, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering::SeqCst};
+
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering::SeqCst};
 
 /// A "mutex" around a value, similar to `std::sync::Mutex<T>`.
 ///
diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index c3e03e3..a3a056f 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -83,9 +83,15 @@ use core::{
     fmt,
     future::Future,
     pin::Pin,
-    sync::atomic::{AtomicUsize, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+#[cfg(not(futures_verif))]
 use std::{sync::Mutex, thread};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::{sync::Mutex, thread};
 
 use futures_core::{
     FusedFuture,
diff --git a/futures-channel/src/mpsc/queue.rs b/futures-channel/src/mpsc/queue.rs
index c217513..f997fa1 100644
--- a/futures-channel/src/mpsc/queue.rs
+++ b/futures-channel/src/mpsc/queue.rs
@@ -45,10 +45,18 @@ use alloc::boxed::Box;
 use core::{
     cell::UnsafeCell,
     ptr,
-    sync::atomic::{AtomicPtr, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicPtr, Ordering};
+#[cfg(not(futures_verif))]
 use std::thread;
 
+#[cfg(futures_verif)]
+use futures_core::__verif::{
+    atomic::{AtomicPtr, Ordering},
+    thread,
+};
+
 pub(super) use self::PopResult::*;
 
 /// A result of the `pop` function.
diff --git a/futures-channel/src/oneshot.rs b/futures-channel/src/oneshot.rs
index f2eb059..6e3beeb 100644
--- a/futures-channel/src/oneshot.rs
+++ b/futures-channel/src/oneshot.rs
@@ -6,8 +6,11 @@ use alloc::sync::Arc;
 use core::{
     fmt,
     pin::Pin,
-    sync::atomic::{AtomicBool, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering::SeqCst};
 
 use futures_core::{
     future::{FusedFuture, Future},
diff --git a/futures-core/src/__verif.rs b/futures-core/src/__verif.rs
new file mode 100644
index 0000000..f7937a9
--- /dev/null
+++ b/futures-core/src/__verif.rs
@@ -0,0 +1,246 @@
+//! Instrumentation used by an external runtime-verification harness.
+//!
+//! Only compiled with `--cfg futures_verif`. The types here behave exactly like
+//! their `core`/`std` counterparts, except that every operation is reported to a
+//! process-wide hook first, which may delay the caller or run other (simulated)
+//! threads meanwhile.
+
+#![allow(missing_docs, missing_debug_implementations, unreachable_pub, single_use_lifetimes)]
+
+use core::sync::atomic::{AtomicUsize as RawUsize, Ordering as RawOrdering};
+
+/// What is about to happen at a hook point.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Event {
+    /// An atomic operation on the given address.
+    Atomic,
+    /// Acquisition of a mutex, first attempt.
+    Lock,
+    /// A mutex was found locked; the caller retries after the hook returns.
+    Contended,
+    /// `thread::yield_now()`.
+    Yield,
+}
+
+static HOOK: RawUsize = RawUsize::new(0);
+
+/// Installs the hook called at each instrumented operation.
+pub fn set_hook(hook: fn(Event, usize)) {
+    HOOK.store(hook as usize, RawOrdering::SeqCst);
+}
+
+#[inline]
+fn hit(event: Event, addr: usize) {
+    let raw = HOOK.load(RawOrdering::Relaxed);
+    if raw != 0 {
+        let hook: fn(Event, usize) = unsafe { core::mem::transmute(raw) };
+        hook(event, addr);
+    }
+}
+
+pub mod atomic {
+    use super::{hit, Event};
+    use core::fmt;
+    use core::sync::atomic as raw;
+    pub use core::sync::atomic::{compiler_fence, fence, Ordering};
+
+    macro_rules! common {
+        ([$($gen:tt)*] $name:ty, $raw:ty, $val:ty) => {
+            impl<$($gen)*> $name {
+                pub const fn new(v: $val) -> Self {
+                    Self(<$raw>::new(v))
+                }
+                fn hit(&self) {
+                    hit(Event::Atomic, self as *const Self as *const () as usize)
+                }
+                pub fn get_mut(&mut self) -> &mut $val {
+                    self.0.get_mut()
+                }
+                pub fn into_inner(self) -> $val {
+                    self.0.into_inner()
+                }
+                pub fn load(&self, order: Ordering) -> $val {
+                    self.hit();
+                    self.0.load(order)
+                }
+                pub fn store(&self, v: $val, order: Ordering) {
+                    self.hit();
+                    self.0.store(v, order)
+                }
+                pub fn swap(&self, v: $val, order: Ordering) -> $val {
+                    self.hit();
+                    self.0.swap(v, order)
+                }
+                pub fn compare_exchange(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    self.hit();
+                    self.0.compare_exchange(current, new, success, failure)
+                }
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    self.hit();
+                    self.0.compare_exchange_weak(current, new, success, failure)
+                }
+                pub fn fetch_update<F>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: F,
+                ) -> Result<$val, $val>
+                where
+                    F: FnMut($val) -> Option<$val>,
+                {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+            }
+            impl<$($gen)*> core::ops::Deref for $name {
+                type Target = $raw;
+                fn deref(&self) -> &$raw {
+                    self.hit();
+                    &self.0
+                }
+            }
+            impl<$($gen)*> fmt::Debug for $name {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    fmt::Debug::fmt(&self.0, f)
+                }
+            }
+            impl<$($gen)*> From<$val> for $name {
+                fn from(v: $val) -> Self {
+                    Self::new(v)
+                }
+            }
+        };
+    }
+
+    macro_rules! fetch_ops {
+        ($name:ty, $val:ty, $($op:ident),*) => {
+            impl $name {
+                $(
+                    pub fn $op(&self, v: $val, order: Ordering) -> $val {
+                        self.hit();
+                        self.0.$op(v, order)
+                    }
+                )*
+            }
+        };
+    }
+
+    #[repr(transparent)]
+    #[derive(Default)]
+    pub struct AtomicBool(raw::AtomicBool);
+    common!([] AtomicBool, raw::AtomicBool, bool);
+    fetch_ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
+
+    #[repr(transparent)]
+    #[derive(Default)]
+    pub struct AtomicUsize(raw::AtomicUsize);
+    common!([] AtomicUsize, raw::AtomicUsize, usize);
+    fetch_ops!(
+        AtomicUsize, usize, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand,
+        fetch_max, fetch_min
+    );
+
+    #[repr(transparent)]
+    #[derive(Default)]
+    pub struct AtomicU8(raw::AtomicU8);
+    common!([] AtomicU8, raw::AtomicU8, u8);
+    fetch_ops!(
+        AtomicU8, u8, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max,
+        fetch_min
+    );
+
+    #[repr(transparent)]
+    pub struct AtomicPtr<T>(raw::AtomicPtr<T>);
+    common!([T] AtomicPtr<T>, raw::AtomicPtr<T>, *mut T);
+    impl<T> Default for AtomicPtr<T> {
+        fn default() -> Self {
+            Self::new(core::ptr::null_mut())
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub mod sync {
+    use super::{hit, Event};
+    use std::fmt;
+    pub use std::sync::{LockResult, MutexGuard, PoisonError, TryLockError};
+
+    pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(t: T) -> Self {
+            Self(std::sync::Mutex::new(t))
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let addr = self as *const Self as *const () as usize;
+            hit(Event::Lock, addr);
+            if super::HOOK.load(super::RawOrdering::Relaxed) == 0 {
+                return self.0.lock();
+            }
+            loop {
+                match self.0.try_lock() {
+                    Ok(g) => return Ok(g),
+                    Err(TryLockError::Poisoned(e)) => return Err(e),
+                    Err(TryLockError::WouldBlock) => hit(Event::Contended, addr),
+                }
+            }
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+    }
+
+    impl<T: ?Sized> core::ops::Deref for Mutex<T> {
+        type Target = std::sync::Mutex<T>;
+        fn deref(&self) -> &Self::Target {
+            hit(Event::Lock, self as *const Self as *const () as usize);
+            &self.0
+        }
+    }
+
+    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            fmt::Debug::fmt(&self.0, f)
+        }
+    }
+
+    impl<T: Default> Default for Mutex<T> {
+        fn default() -> Self {
+            Self::new(T::default())
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub mod thread {
+    pub use std::thread::*;
+
+    pub fn yield_now() {
+        super::hit(super::Event::Yield, 0);
+        std::thread::yield_now();
+    }
+}
diff --git a/futures-core/src/lib.rs b/futures-core/src/lib.rs
index e881764..a2ea048 100644
--- a/futures-core/src/lib.rs
+++ b/futures-core/src/lib.rs
@@ -25,3 +25,7 @@ pub use self::stream::{FusedStream, Stream, TryStream};
 
 #[macro_use]
 pub mod task;
+
+#[cfg(futures_verif)]
+#[doc(hidden)]
+pub mod __verif;
diff --git a/futures-core/src/task/__internal/atomic_waker.rs b/futures-core/src/task/__internal/atomic_waker.rs
index 4bc72e3..05317b6 100644
--- a/futures-core/src/task/__internal/atomic_waker.rs
+++ b/futures-core/src/task/__internal/atomic_waker.rs
@@ -1,4 +1,6 @@
-#[cfg(not(feature = "portable-atomic"))]
+#[cfg(futures_verif)]
+use crate::__verif::atomic;
+#[cfg(not(any(feature = "portable-atomic", futures_verif)))]
 use core::sync::atomic;
 use core::{cell::UnsafeCell, fmt, task::Waker};
 
@@ -6,7 +8,7 @@ use atomic::{
     AtomicUsize,
     Ordering::{AcqRel, Acquire, Release},
 };
-#[cfg(feature = "portable-atomic")]
+#[cfg(all(feature = "portable-atomic", not(futures_verif)))]
 use portable_atomic as atomic;
 
 /// A synchronization primitive for task wakeup.
diff --git a/futures-executor/src/local_pool.rs b/futures-executor/src/local_pool.rs
index 37494a6..5ffa1fd 100644
--- a/futures-executor/src/local_pool.rs
+++ b/futures-executor/src/local_pool.rs
@@ -7,9 +7,12 @@ use core::{
     cell::RefCell,
     ops::{Deref, DerefMut},
     pin::pin,
-    sync::atomic::{AtomicBool, Ordering},
 };
 use std::thread::{self, Thread};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
 
 use futures_core::{
     future::Future,
diff --git a/futures-executor/src/thread_pool.rs b/futures-executor/src/thread_pool.rs
index b9cfd92..dfc14f7 100644
--- a/futures-executor/src/thread_pool.rs
+++ b/futures-executor/src/thread_pool.rs
@@ -1,13 +1,16 @@
 use alloc::{boxed::Box, format, string::String, sync::Arc};
 use core::{
     fmt,
-    sync::atomic::{AtomicUsize, Ordering},
 };
 use std::{
     io,
     sync::{Mutex, mpsc},
     thread,
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering};
 
 use futures_core::{
     future::Future,
diff --git a/futures-executor/src/unpark_mutex.rs b/futures-executor/src/unpark_mutex.rs
index ffe79d2..474b0e2 100644
--- a/futures-executor/src/unpark_mutex.rs
+++ b/futures-executor/src/unpark_mutex.rs
@@ -1,7 +1,9 @@
-use core::{
-    cell::UnsafeCell,
-    sync::atomic::{AtomicUsize, Ordering::SeqCst},
-};
+use core::cell::UnsafeCell;
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering::SeqCst};
 
 /// A "lock" around data `D`, which employs a *helping* strategy.
 ///
diff --git a/futures-util/src/abortable.rs b/futures-util/src/abortable.rs
index 315df04..8187513 100644
--- a/futures-util/src/abortable.rs
+++ b/futures-util/src/abortable.rs
@@ -2,8 +2,11 @@ use alloc::sync::Arc;
 use core::{
     fmt,
     pin::Pin,
-    sync::atomic::{AtomicBool, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
 
 use futures_core::{
     Stream,
diff --git a/futures-util/src/future/future/remote_handle.rs b/futures-util/src/future/future/remote_handle.rs
index 85b1f72..609f6c3 100644
--- a/futures-util/src/future/future/remote_handle.rs
+++ b/futures-util/src/future/future/remote_handle.rs
@@ -4,9 +4,12 @@ use core::{
     fmt,
     panic::AssertUnwindSafe,
     pin::Pin,
-    sync::atomic::{AtomicBool, Ordering},
 };
 use std::{panic, thread};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicBool, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicBool, Ordering};
 
 use futures_channel::oneshot::{self, Receiver, Sender};
 use futures_core::{
diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 6d1b7c5..7103e61 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -5,12 +5,18 @@ use core::{
     hash::Hasher,
     pin::Pin,
     ptr,
-    sync::atomic::{
-        AtomicUsize,
-        Ordering::{Acquire, SeqCst},
-    },
+};
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{
+    AtomicUsize,
+    Ordering::{Acquire, SeqCst},
 };
 
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{
+    AtomicUsize,
+    Ordering::{Acquire, SeqCst},
+};
 use futures_core::{
     future::{FusedFuture, Future},
     task::{Context, Poll, Waker},
@@ -19,7 +25,9 @@ use slab::Slab;
 
 use crate::task::{ArcWake, waker_ref};
 
-#[cfg(feature = "std")]
+#[cfg(futures_verif)]
+type Mutex<T> = futures_core::__verif::sync::Mutex<T>;
+#[cfg(all(feature = "std", not(futures_verif)))]
 type Mutex<T> = std::sync::Mutex<T>;
 #[cfg(not(feature = "std"))]
 type Mutex<T> = spin::Mutex<T>;
diff --git a/futures-util/src/lock/bilock.rs b/futures-util/src/lock/bilock.rs
index 1af0613..f0cd3fd 100644
--- a/futures-util/src/lock/bilock.rs
+++ b/futures-util/src/lock/bilock.rs
@@ -7,8 +7,11 @@ use core::{
     ops::{Deref, DerefMut},
     pin::Pin,
     ptr,
-    sync::atomic::{AtomicPtr, Ordering::SeqCst},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicPtr, Ordering::SeqCst};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicPtr, Ordering::SeqCst};
 
 #[cfg(feature = "bilock")]
 use futures_core::future::Future;
diff --git a/futures-util/src/lock/mutex.rs b/futures-util/src/lock/mutex.rs
index 9b1ccfa..050d3b0 100644
--- a/futures-util/src/lock/mutex.rs
+++ b/futures-util/src/lock/mutex.rs
@@ -6,9 +6,15 @@ use core::{
     mem,
     ops::{Deref, DerefMut},
     pin::Pin,
-    sync::atomic::{AtomicUsize, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(not(futures_verif))]
 use std::sync::Mutex as StdMutex;
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicUsize, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::sync::Mutex as StdMutex;
 
 use futures_core::{
     future::{FusedFuture, Future},
diff --git a/futures-util/src/stream/futures_unordered/mod.rs b/futures-util/src/stream/futures_unordered/mod.rs
index b40b894..1a3ea8e 100644
--- a/futures-util/src/stream/futures_unordered/mod.rs
+++ b/futures-util/src/stream/futures_unordered/mod.rs
@@ -5,7 +5,7 @@
 
 #[cfg(not(feature = "portable-atomic-alloc"))]
 use alloc::sync::{Arc, Weak};
-#[cfg(not(feature = "portable-atomic"))]
+#[cfg(not(any(feature = "portable-atomic", futures_verif)))]
 use core::sync::atomic;
 use core::{
     cell::UnsafeCell,
@@ -21,13 +21,15 @@ use atomic::{
     AtomicBool, AtomicPtr,
     Ordering::{AcqRel, Acquire, Relaxed, Release, SeqCst},
 };
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic;
 use futures_core::{
     future::Future,
     stream::{FusedStream, Stream},
     task::{Context, Poll},
 };
 use futures_task::{FutureObj, LocalFutureObj, LocalSpawn, Spawn, SpawnError};
-#[cfg(feature = "portable-atomic")]
+#[cfg(all(feature = "portable-atomic", not(futures_verif)))]
 use portable_atomic_crate as atomic;
 #[cfg(feature = "portable-atomic-alloc")]
 use portable_atomic_util::{Arc, Weak};
diff --git a/futures-util/src/stream/stream/flatten_unordered.rs b/futures-util/src/stream/stream/flatten_unordered.rs
index f15cf69..dc028b6 100644
--- a/futures-util/src/stream/stream/flatten_unordered.rs
+++ b/futures-util/src/stream/stream/flatten_unordered.rs
@@ -6,8 +6,11 @@ use core::{
     marker::PhantomData,
     num::NonZeroUsize,
     pin::Pin,
-    sync::atomic::{AtomicU8, Ordering},
 };
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicU8, Ordering};
+#[cfg(futures_verif)]
+use futures_core::__verif::atomic::{AtomicU8, Ordering};
 
 use futures_core::{
     future::Future,
-- 
2.43.0


From 263204e57fb1fdb3ccdfa9591fe9e82ecde273c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:40 +0000
Subject: [PATCH 02/21] fix: mpsc: try_send must not forget the task registered
 by poll_ready

A bounded sender that is parked remembers the task of the last poll_ready.
try_send on the same handle passed no context and thereby cleared it, so
the task was never notified when capacity became available (or the
receiver closed the channel).
---
 futures-channel/src/mpsc/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index a3a056f..79e30ea 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -710,8 +710,11 @@ impl<T> BoundedSenderInner<T> {
             // the correct task will be notified.
             //
             // Update the task in case the `Sender` has been moved to another
-            // task
-            task.task = cx.map(|cx| cx.waker().clone());
+            // task. Without a context (`try_send`), a task registered by an
+            // earlier `poll_ready` is still waiting and must be kept.
+            if let Some(cx) = cx {
+                task.task = Some(cx.waker().clone());
+            }
 
             Poll::Pending
         } else {
-- 
2.43.0


From c9949cd131a9f0b0b889ba208438aa96876bdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:59 +0000
Subject: [PATCH 03/21] fix: Shared: pass the wakeup on when a woken handle is
 dropped

A handle that polls the inner future may be woken before another handle
registers its waker and finds the inner future being polled. If the woken
handle is then dropped instead of polled, nobody polls the inner future
again and the other handle is never woken.
---
 futures-util/src/future/future/shared.rs | 29 ++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 7103e61..9cb914b 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -406,18 +406,37 @@ where
                 #[cfg(feature = "std")]
                 if let Ok(mut wakers) = inner.notifier.wakers.lock() {
                     if let Some(wakers) = wakers.as_mut() {
-                        wakers.remove(self.waker_key);
+                        remove_waker(wakers, self.waker_key);
                     }
                 }
                 #[cfg(not(feature = "std"))]
                 if let Some(wakers) = inner.notifier.wakers.lock().as_mut() {
-                    wakers.remove(self.waker_key);
+                    remove_waker(wakers, self.waker_key);
                 }
             }
         }
     }
 }
 
+/// Removes the waker of a handle that is dropped before completion.
+///
+/// If the handle had been woken, but not polled since, it was expected to poll
+/// the inner future. Other handles may rely on that (they may have registered
+/// after the wakeup, while this handle was still polling), so pass it on.
+fn remove_waker(wakers: &mut Slab<Option<Waker>>, waker_key: usize) {
+    if wakers.remove(waker_key).is_none() {
+        wake_all(wakers);
+    }
+}
+
+fn wake_all(wakers: &mut Slab<Option<Waker>>) {
+    for (_key, opt_waker) in wakers {
+        if let Some(waker) = opt_waker.take() {
+            waker.wake();
+        }
+    }
+}
+
 impl ArcWake for Notifier {
     fn wake_by_ref(arc_self: &Arc<Self>) {
         #[cfg(feature = "std")]
@@ -426,11 +445,7 @@ impl ArcWake for Notifier {
         let wakers = &mut *arc_self.wakers.lock();
 
         if let Some(wakers) = wakers.as_mut() {
-            for (_key, opt_waker) in wakers {
-                if let Some(waker) = opt_waker.take() {
-                    waker.wake();
-                }
-            }
+            wake_all(wakers);
         }
     }
 }
-- 
2.43.0


From 1c7fb2a6ba30f8dee3fd3239b7e1b370aadd0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:56 +0000
Subject: [PATCH 04/21] fix: Shared: wake waiting handles when the inner future
 panics

Handles waiting for a Shared future were never woken when another handle
polled the inner future and it panicked, so they hung instead of observing
the panic.
---
 futures-util/src/future/future/shared.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 9cb914b..2c9613d 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -321,19 +321,32 @@ where
         let mut cx = Context::from_waker(&waker);
 
         struct Reset<'a> {
-            state: &'a AtomicUsize,
+            notifier: &'a Notifier,
             did_not_panic: bool,
         }
 
         impl Drop for Reset<'_> {
             fn drop(&mut self) {
                 if !self.did_not_panic {
-                    self.state.store(POISONED, SeqCst);
+                    self.notifier.state.store(POISONED, SeqCst);
+
+                    // Nobody will wake the waiting tasks anymore, so make them
+                    // observe the panic.
+                    #[cfg(feature = "std")]
+                    if let Ok(mut wakers) = self.notifier.wakers.lock() {
+                        if let Some(wakers) = wakers.as_mut() {
+                            wake_all(wakers);
+                        }
+                    }
+                    #[cfg(not(feature = "std"))]
+                    if let Some(wakers) = self.notifier.wakers.lock().as_mut() {
+                        wake_all(wakers);
+                    }
                 }
             }
         }
 
-        let mut reset = Reset { state: &inner.notifier.state, did_not_panic: false };
+        let mut reset = Reset { notifier: &inner.notifier, did_not_panic: false };
 
         let output = {
             let future = unsafe {
-- 
2.43.0


From 6cbf514354176563d2318ae15d6806e1daeca3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:11 +0000
Subject: [PATCH 05/21] fix: try_join_all: report an error at once also for
 many futures

With more than 30 futures TryJoinAll collected a FuturesOrdered, so an error
was only reported, and the other futures only cancelled, after every future
in front of the failing one had completed - possibly never. Take the outputs
in order of completion and put them at their positions instead.
---
 futures-util/src/future/try_join_all.rs | 73 ++++++++++++++++++++++---
 1 file changed, 65 insertions(+), 8 deletions(-)

diff --git a/futures-util/src/future/try_join_all.rs b/futures-util/src/future/try_join_all.rs
index a998c38..7067a70 100644
--- a/futures-util/src/future/try_join_all.rs
+++ b/futures-util/src/future/try_join_all.rs
@@ -5,16 +5,21 @@ use alloc::{boxed::Box, vec::Vec};
 use core::{
     fmt,
     future::Future,
-    iter::FromIterator,
+    iter::{self, FromIterator},
     mem,
     pin::Pin,
     task::{Context, Poll},
 };
 
+#[cfg(target_has_atomic = "ptr")]
+use futures_core::ready;
+#[cfg(target_has_atomic = "ptr")]
+use pin_project_lite::pin_project;
+
 use super::{IntoFuture, TryFuture, TryMaybeDone, assert_future, join_all};
 use crate::TryFutureExt;
 #[cfg(target_has_atomic = "ptr")]
-use crate::stream::{FuturesOrdered, TryCollect, TryStreamExt};
+use crate::stream::{FuturesUnordered, StreamExt};
 
 enum FinalState<E = ()> {
     Pending,
@@ -40,10 +45,36 @@ where
     },
     #[cfg(target_has_atomic = "ptr")]
     Big {
-        fut: TryCollect<FuturesOrdered<IntoFuture<F>>, Vec<F::Ok>>,
+        futures: FuturesUnordered<Indexed<IntoFuture<F>>>,
+        results: Vec<Option<F::Ok>>,
     },
 }
 
+#[cfg(target_has_atomic = "ptr")]
+pin_project! {
+    /// A future together with the position of its output.
+    #[derive(Debug)]
+    struct Indexed<Fut> {
+        index: usize,
+        #[pin]
+        future: Fut,
+    }
+}
+
+#[cfg(target_has_atomic = "ptr")]
+impl<Fut: Future> Future for Indexed<Fut> {
+    type Output = (usize, Fut::Output);
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        let this = self.project();
+        let output = ready!(this.future.poll(cx));
+        Poll::Ready((*this.index, output))
+    }
+}
+
+// The results are never pinned; the futures are pinned by `FuturesUnordered` and the box.
+impl<F: TryFuture> Unpin for TryJoinAll<F> {}
+
 impl<F> fmt::Debug for TryJoinAll<F>
 where
     F: TryFuture + fmt::Debug,
@@ -57,7 +88,11 @@ where
                 f.debug_struct("TryJoinAll").field("elems", elems).finish()
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { ref fut, .. } => fmt::Debug::fmt(fut, f),
+            TryJoinAllKind::Big { ref futures, ref results } => f
+                .debug_struct("TryJoinAll")
+                .field("futures", futures)
+                .field("results", results)
+                .finish(),
         }
     }
 }
@@ -79,9 +114,9 @@ where
 ///
 /// # See Also
 ///
-/// `try_join_all` will switch to the more powerful [`FuturesOrdered`] for performance
+/// `try_join_all` will switch to the more powerful [`FuturesUnordered`] for performance
 /// reasons if the number of futures is large. You may want to look into using it or
-/// it's counterpart [`FuturesUnordered`][crate::stream::FuturesUnordered] directly.
+/// it's counterpart [`FuturesOrdered`][crate::stream::FuturesOrdered] directly.
 ///
 /// Some examples for additional functionality provided by these are:
 ///
@@ -138,7 +173,14 @@ where
             Some(max) if max <= join_all::SMALL => TryJoinAllKind::Small {
                 elems: iter.map(TryMaybeDone::Future).collect::<Box<[_]>>().into(),
             },
-            _ => TryJoinAllKind::Big { fut: iter.collect::<FuturesOrdered<_>>().try_collect() },
+            _ => {
+                let futures = iter
+                    .enumerate()
+                    .map(|(index, future)| Indexed { index, future })
+                    .collect::<FuturesUnordered<_>>();
+                let results = iter::repeat_with(|| None).take(futures.len()).collect();
+                TryJoinAllKind::Big { futures, results }
+            }
         };
 
         assert_future::<Result<Vec<<I::Item as TryFuture>::Ok>, <I::Item as TryFuture>::Error>, _>(
@@ -185,7 +227,22 @@ where
                 }
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { fut } => Pin::new(fut).poll(cx),
+            // The outputs are taken in order of completion, so that an error is seen at
+            // once even if a future that precedes it is still pending.
+            TryJoinAllKind::Big { futures, results } => loop {
+                match ready!(futures.poll_next_unpin(cx)) {
+                    Some((index, Ok(output))) => results[index] = Some(output),
+                    Some((_, Err(e))) => {
+                        *futures = FuturesUnordered::new();
+                        results.clear();
+                        break Poll::Ready(Err(e));
+                    }
+                    None => {
+                        let results = mem::take(results);
+                        break Poll::Ready(Ok(results.into_iter().map(Option::unwrap).collect()));
+                    }
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 8d38c05029183b7c2a5ea24bf2b44afe3fe405a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:27 +0000
Subject: [PATCH 06/21] fix: stream_select!: do not poll a source again after
 its end

The end of a source was only recorded when no other source had an item in the
same poll; otherwise the ended source was polled again on the next call, which
makes e.g. stream::unfold panic.
---
 futures-macro/src/stream_select.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..f5da075 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut item = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -64,7 +65,8 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
                                     r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                        item = Some(r);
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +88,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if let Some(item) = item {
+                        item
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From f6eb42d9ccea86f5ce027e878b7e0c334a5d6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 07/21] fix: Scan::size_hint must count the item in flight and
 has no lower bound

The closure may end the stream at any item, so the source's lower bound does
not hold, and an item whose future is still pending was not counted in the
upper bound.
---
 futures-util/src/stream/stream/scan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..447f2e8 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,13 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            let future_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(future_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 802a8792935647419280f9cb2942016e6ddb8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:16 +0000
Subject: [PATCH 08/21] fix: stream::PollImmediate::size_hint has no upper
 bound

A pending source makes it yield Poll::Pending items beyond the source's own.
---
 futures-util/src/stream/poll_immediate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/poll_immediate.rs b/futures-util/src/stream/poll_immediate.rs
index e153b81..f11b2dc 100644
--- a/futures-util/src/stream/poll_immediate.rs
+++ b/futures-util/src/stream/poll_immediate.rs
@@ -43,7 +43,11 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.stream.as_ref().map_or((0, Some(0)), Stream::size_hint)
+        match &self.stream {
+            // every poll of a pending stream yields an item, so there is no upper bound
+            Some(stream) => (stream.size_hint().0, None),
+            None => (0, Some(0)),
+        }
     }
 }
 
-- 
2.43.0


From 3cf37d0181782cf7c36319c394b3bc67aa6d1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:32 +0000
Subject: [PATCH 09/21] fix: Zip must report termination once it has ended

Zip ends as soon as one of its streams does, but is_terminated was true only
after both had ended, so a select! loop over a zip never completed and
select_next_some hit its own debug assertion.
---
 futures-util/src/stream/stream/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/zip.rs b/futures-util/src/stream/stream/zip.rs
index 9f074ee..2bfa0dd 100644
--- a/futures-util/src/stream/stream/zip.rs
+++ b/futures-util/src/stream/stream/zip.rs
@@ -67,7 +67,7 @@ where
     St2: Stream,
 {
     fn is_terminated(&self) -> bool {
-        self.stream1.is_terminated() && self.stream2.is_terminated()
+        self.stream1.is_terminated() || self.stream2.is_terminated()
     }
 }
 
-- 
2.43.0


From 5644e93517fdc92c5cfd79053ae7dea80a04d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:20 +0000
Subject: [PATCH 10/21] fix: TrySkipWhile, TryTakeWhile: forget the item whose
 predicate failed

After the predicate returned an error the item stayed in pending_item, so
is_terminated never became true (and the item was kept alive) once the
source had ended.
---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From cc54aa7af25e8b6005028444a3d7875e89ef64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:33 +0000
Subject: [PATCH 11/21] fix: TakeUntil::size_hint has no lower bound while the
 future is pending

The stream may be stopped by the future at any time, so the lower bound of
the source does not hold.
---
 futures-util/src/stream/stream/take_until.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 82d18ab..cd802a8 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -145,7 +145,9 @@ where
             return (0, Some(0));
         }
 
-        self.stream.size_hint()
+        let (lower, upper) = self.stream.size_hint();
+        // can't know a lower bound while the future may still stop the stream
+        (if self.fut.is_some() { 0 } else { lower }, upper)
     }
 }
 
-- 
2.43.0


From 60f68de816d153b5d46fd9503b0c0f766ff13155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 12/21] fix: stream_select!: size_hint must not overflow

Summing the bounds of endless sources (lower bound usize::MAX) panicked in
debug builds and wrapped to a wrong upper bound in release builds.
---
 futures-macro/src/stream_select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index f5da075..398b71f 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -101,9 +101,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                     let mut s = (0, Some(0));
                     #(
                         if let Some(new_hint) = self.#field_indices.as_ref().map(|s| s.size_hint()) {
-                            s.0 += new_hint.0;
+                            s.0 = usize::saturating_add(s.0, new_hint.0);
                             // We can change this out for `.zip` when the MSRV is 1.46.0 or higher.
-                            s.1 = s.1.and_then(|a| new_hint.1.map(|b| a + b));
+                            s.1 = s.1.and_then(|a| new_hint.1.and_then(|b| usize::checked_add(a, b)));
                         }
                     )*
                     s
-- 
2.43.0


From 44b00e8b4918fb0347561b90db9b9eab489192d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:02 +0000
Subject: [PATCH 13/21] fix: sink::Buffer: do not ask a closing sink for
 readiness again

poll_close called the inner sink's poll_ready on every poll, also when nothing
was left to pass on. With a sink whose close takes more than one poll, that asks
a sink which is closing (or, below fanout, is already closed) for readiness: an
mpsc sender answers with an error, so close failed although everything had been
delivered.
---
 futures-util/src/sink/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/sink/buffer.rs b/futures-util/src/sink/buffer.rs
index d022c23..3eb53cb 100644
--- a/futures-util/src/sink/buffer.rs
+++ b/futures-util/src/sink/buffer.rs
@@ -97,7 +97,11 @@ impl<Si: Sink<Item>, Item> Sink<Item> for Buffer<Si, Item> {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        ready!(self.as_mut().try_empty_buffer(cx))?;
+        // Once everything has been passed on, the sink may already be closing: it
+        // must not be asked for readiness again.
+        if !self.buf.is_empty() {
+            ready!(self.as_mut().try_empty_buffer(cx))?;
+        }
         debug_assert!(self.buf.is_empty());
         self.project().sink.poll_close(cx)
     }
-- 
2.43.0


From e8b397ff337f0447fbc1c19943f6233971628732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 14/21] fix: sink::With: forget the mapping future also when it
 fails

The finished future stayed in place after an error, so the next poll_ready,
poll_flush or poll_close polled it again (an async block panics then).
---
 futures-util/src/sink/with.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/sink/with.rs b/futures-util/src/sink/with.rs
index 8ec9e44..d6abaaf 100644
--- a/futures-util/src/sink/with.rs
+++ b/futures-util/src/sink/with.rs
@@ -99,12 +99,12 @@ where
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
         let mut this = self.project();
 
-        let item = match this.state.as_mut().as_pin_mut() {
+        let res = match this.state.as_mut().as_pin_mut() {
             None => return Poll::Ready(Ok(())),
-            Some(fut) => ready!(fut.poll(cx))?,
+            Some(fut) => ready!(fut.poll(cx)),
         };
         this.state.set(None);
-        this.sink.start_send(item)?;
+        this.sink.start_send(res?)?;
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 6fd8f1d98657b6f610aa1dcd6a399302ad2d0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 15/21] fix: IntoSink: report a writer that accepts no more
 bytes

A poll_write of Ok(0) made the write loop spin for ever, for example over a
Cursor<&mut [u8]> that is full. Report WriteZero as write_all and BufWriter do.
---
 futures-util/src/io/into_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..d680b10 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -50,6 +50,9 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
                 if buffer.offset == bytes.len() {
                     break;
                 }
+                if written == 0 {
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
             }
         }
         *this.buffer = None;
-- 
2.43.0


From 97f79d9a5f6d7d5a9eeecd9182315917de3fc335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:17 +0000
Subject: [PATCH 16/21] fix: BufReader: seek_relative(i64::MIN) must not
 overflow

---
 futures-util/src/io/buf_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/io/buf_reader.rs b/futures-util/src/io/buf_reader.rs
index 117eb98..a3b2924 100644
--- a/futures-util/src/io/buf_reader.rs
+++ b/futures-util/src/io/buf_reader.rs
@@ -95,7 +95,7 @@ impl<R: AsyncRead + AsyncSeek> BufReader<R> {
     ) -> Poll<io::Result<()>> {
         let pos = self.pos as u64;
         if offset < 0 {
-            if let Some(new_pos) = pos.checked_sub((-offset) as u64) {
+            if let Some(new_pos) = pos.checked_sub(offset.unsigned_abs()) {
                 *self.project().pos = new_pos as usize;
                 return Poll::Ready(Ok(()));
             }
-- 
2.43.0


From 9d70b21b98c7fc305a01e9161d508c450735e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:40 +0000
Subject: [PATCH 17/21] fix: read_to_string: keep the string's contents on
 failure

The string is taken apart while reading. When the bytes read were not valid
UTF-8, or when the future was dropped before it completed, what the string
contained before was lost; std leaves it unchanged and read_line restores it.
---
 futures-util/src/io/read_to_string.rs | 45 +++++++++++++++++++--------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/futures-util/src/io/read_to_string.rs b/futures-util/src/io/read_to_string.rs
index de61d2c..84472f0 100644
--- a/futures-util/src/io/read_to_string.rs
+++ b/futures-util/src/io/read_to_string.rs
@@ -19,6 +19,7 @@ pub struct ReadToString<'a, R: ?Sized> {
     buf: &'a mut String,
     bytes: Vec<u8>,
     start_len: usize,
+    finished: bool,
 }
 
 impl<R: ?Sized + Unpin> Unpin for ReadToString<'_, R> {}
@@ -26,7 +27,7 @@ impl<R: ?Sized + Unpin> Unpin for ReadToString<'_, R> {}
 impl<'a, R: AsyncRead + ?Sized + Unpin> ReadToString<'a, R> {
     pub(super) fn new(reader: &'a mut R, buf: &'a mut String) -> Self {
         let start_len = buf.len();
-        Self { reader, bytes: mem::take(buf).into_bytes(), buf, start_len }
+        Self { reader, bytes: mem::take(buf).into_bytes(), buf, start_len, finished: false }
     }
 }
 
@@ -37,17 +38,21 @@ fn read_to_string_internal<R: AsyncRead + ?Sized>(
     bytes: &mut Vec<u8>,
     start_len: usize,
 ) -> Poll<io::Result<usize>> {
-    let ret = ready!(read_to_end_internal(reader, cx, bytes, start_len));
-    if str::from_utf8(bytes).is_err() {
-        Poll::Ready(ret.and_then(|_| {
-            Err(io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
-        }))
-    } else {
-        debug_assert!(buf.is_empty());
-        // Safety: `bytes` is a valid UTF-8 because `str::from_utf8` returned `Ok`.
-        mem::swap(unsafe { buf.as_mut_vec() }, bytes);
-        Poll::Ready(ret)
+    let mut ret = ready!(read_to_end_internal(reader, cx, bytes, start_len));
+    if str::from_utf8(&bytes[start_len..]).is_err() {
+        bytes.truncate(start_len);
+        if ret.is_ok() {
+            ret = Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "stream did not contain valid UTF-8",
+            ));
+        }
     }
+    debug_assert!(buf.is_empty());
+    // Safety: `bytes` is valid UTF-8 because it was taken from a String
+    // and the newly read bytes are either valid UTF-8 or have been removed.
+    mem::swap(unsafe { buf.as_mut_vec() }, bytes);
+    Poll::Ready(ret)
 }
 
 impl<A> Future for ReadToString<'_, A>
@@ -57,7 +62,21 @@ where
     type Output = io::Result<usize>;
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        let Self { reader, buf, bytes, start_len } = &mut *self;
-        read_to_string_internal(Pin::new(reader), cx, buf, bytes, *start_len)
+        let Self { reader, buf, bytes, start_len, finished: _ } = &mut *self;
+        let ret = ready!(read_to_string_internal(Pin::new(reader), cx, buf, bytes, *start_len));
+        self.finished = true;
+        Poll::Ready(ret)
+    }
+}
+
+impl<R: ?Sized> Drop for ReadToString<'_, R> {
+    fn drop(&mut self) {
+        // restore old string contents
+        if !self.finished {
+            self.bytes.truncate(self.start_len);
+            // Safety: `bytes` is valid UTF-8 because it was taken from a String
+            // and the newly read bytes have been removed.
+            mem::swap(unsafe { self.buf.as_mut_vec() }, &mut self.bytes);
+        }
     }
 }
-- 
2.43.0


From 57045d186219bef8d849897eeebd1cce1ac1e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 18/21] fix: Lines: an error in the middle of a line must not
 garble later lines

The bytes read before the error ended up in the buffer of the line after next:
reading "ab", an error, "cd\nef\n" gave "cd" and then "abef".
---
 futures-util/src/io/lines.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 3e89f9e..0c94874 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -36,8 +36,16 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read))?;
+        let res = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read));
         *this.read = 0;
+        let n = match res {
+            Ok(n) => n,
+            Err(e) => {
+                // As in std, the unfinished line is discarded: it must not show up in a later one.
+                this.buf.clear();
+                return Poll::Ready(Some(Err(e)));
+            }
+        };
         if n == 0 && this.buf.is_empty() {
             return Poll::Ready(None);
         }
-- 
2.43.0


From ecf8773f16a05a5dfe09386f327ef9d13eac3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:36 +0000
Subject: [PATCH 19/21] verif hooks: report blocking operations of the
 executors under cfg(futures_verif)

---
 futures-core/src/__verif.rs         | 167 +++++++++++++++++++++++++++-
 futures-executor/src/enter.rs       |  10 +-
 futures-executor/src/local_pool.rs  |   8 +-
 futures-executor/src/thread_pool.rs |  13 ++-
 4 files changed, 190 insertions(+), 8 deletions(-)

diff --git a/futures-core/src/__verif.rs b/futures-core/src/__verif.rs
index f7937a9..fe0d3e8 100644
--- a/futures-core/src/__verif.rs
+++ b/futures-core/src/__verif.rs
@@ -198,7 +198,7 @@ pub mod sync {
         pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
             let addr = self as *const Self as *const () as usize;
             hit(Event::Lock, addr);
-            if super::HOOK.load(super::RawOrdering::Relaxed) == 0 {
+            if !super::thread::simulated() {
                 return self.0.lock();
             }
             loop {
@@ -233,14 +233,179 @@ pub mod sync {
             Self::new(T::default())
         }
     }
+
+    pub mod mpsc {
+        use super::super::{hit, Event};
+        pub use std::sync::mpsc::*;
+
+        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+            let (tx, rx) = std::sync::mpsc::channel();
+            (tx, Receiver(rx))
+        }
+
+        #[derive(Debug)]
+        pub struct Receiver<T>(std::sync::mpsc::Receiver<T>);
+
+        impl<T> Receiver<T> {
+            pub fn recv(&self) -> Result<T, RecvError> {
+                if !super::super::thread::simulated() {
+                    return self.0.recv();
+                }
+                loop {
+                    match self.0.try_recv() {
+                        Ok(t) => return Ok(t),
+                        Err(TryRecvError::Disconnected) => return Err(RecvError),
+                        Err(TryRecvError::Empty) => {
+                            hit(Event::Contended, self as *const Self as *const () as usize)
+                        }
+                    }
+                }
+            }
+        }
+
+        impl<T> core::ops::Deref for Receiver<T> {
+            type Target = std::sync::mpsc::Receiver<T>;
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 pub mod thread {
+    use super::{RawOrdering, RawUsize};
+    use alloc::boxed::Box;
+    use alloc::string::String;
+    use alloc::vec::Vec;
+    use core::cell::RefCell;
     pub use std::thread::*;
 
+    pub type Job = Box<dyn FnOnce() + Send>;
+
+    /// Simulated threads, several of which share one OS thread.
+    #[derive(Clone, Copy)]
+    pub struct Runtime {
+        /// The simulated thread that is running here, if any.
+        pub id: fn() -> Option<usize>,
+        /// `park` of a simulated thread.
+        pub park: fn(),
+        /// `unpark` by a simulated thread of the one that parks.
+        pub unpark: fn(),
+        /// Starts a simulated thread.
+        pub spawn: fn(Job),
+    }
+
+    static RUNTIME: RawUsize = RawUsize::new(0);
+
+    pub fn set_runtime(rt: &'static Runtime) {
+        RUNTIME.store(rt as *const Runtime as usize, RawOrdering::SeqCst);
+    }
+
+    fn runtime() -> Option<(&'static Runtime, usize)> {
+        let raw = RUNTIME.load(RawOrdering::Relaxed);
+        if raw == 0 {
+            return None;
+        }
+        let rt: &'static Runtime = unsafe { &*(raw as *const Runtime) };
+        (rt.id)().map(|id| (rt, id))
+    }
+
+    pub fn simulated() -> bool {
+        runtime().is_some()
+    }
+
     pub fn yield_now() {
         super::hit(super::Event::Yield, 0);
         std::thread::yield_now();
     }
+
+    #[derive(Clone, Debug)]
+    pub struct Thread(std::thread::Thread);
+
+    impl Thread {
+        pub fn unpark(&self) {
+            super::hit(super::Event::Atomic, 0);
+            match runtime() {
+                Some((rt, _)) => (rt.unpark)(),
+                None => self.0.unpark(),
+            }
+        }
+    }
+
+    impl core::ops::Deref for Thread {
+        type Target = std::thread::Thread;
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(std::thread::current())
+    }
+
+    pub fn park() {
+        super::hit(super::Event::Atomic, 0);
+        match runtime() {
+            Some((rt, _)) => (rt.park)(),
+            None => std::thread::park(),
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct Builder(std::thread::Builder);
+
+    impl Builder {
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> Self {
+            Self(std::thread::Builder::new())
+        }
+        pub fn name(self, name: String) -> Self {
+            Self(self.0.name(name))
+        }
+        pub fn stack_size(self, size: usize) -> Self {
+            Self(self.0.stack_size(size))
+        }
+        pub fn spawn<F>(self, f: F) -> std::io::Result<Option<JoinHandle<()>>>
+        where
+            F: FnOnce() + Send + 'static,
+        {
+            match runtime() {
+                Some((rt, _)) => {
+                    (rt.spawn)(Box::new(f));
+                    Ok(None)
+                }
+                None => self.0.spawn(f).map(Some),
+            }
+        }
+    }
+
+    /// A `Cell<bool>` of the simulated thread.
+    #[derive(Debug)]
+    pub struct LocalFlag(RefCell<Vec<Option<usize>>>);
+
+    impl LocalFlag {
+        pub const fn new() -> Self {
+            Self(RefCell::new(Vec::new()))
+        }
+        pub fn get(&self) -> bool {
+            self.0.borrow().contains(&runtime().map(|r| r.1))
+        }
+        pub fn set(&self, v: bool) {
+            let id = runtime().map(|r| r.1);
+            let mut s = self.0.borrow_mut();
+            s.retain(|x| *x != id);
+            if v {
+                s.push(id);
+            }
+        }
+        pub fn replace(&self, v: bool) -> bool {
+            let old = self.get();
+            self.set(v);
+            old
+        }
+        pub fn take(&self) -> bool {
+            self.replace(false)
+        }
+    }
 }
diff --git a/futures-executor/src/enter.rs b/futures-executor/src/enter.rs
index df959f2..6872640 100644
--- a/futures-executor/src/enter.rs
+++ b/futures-executor/src/enter.rs
@@ -1,6 +1,14 @@
-use core::{cell::Cell, fmt};
+#[cfg(not(futures_verif))]
+use core::cell::Cell;
+use core::fmt;
 
+#[cfg(not(futures_verif))]
 std::thread_local!(static ENTERED: Cell<bool> = const { Cell::new(false) });
+#[cfg(futures_verif)]
+std::thread_local!(
+    static ENTERED: futures_core::__verif::thread::LocalFlag =
+        const { futures_core::__verif::thread::LocalFlag::new() }
+);
 
 /// Represents an executor context.
 ///
diff --git a/futures-executor/src/local_pool.rs b/futures-executor/src/local_pool.rs
index 5ffa1fd..639e86f 100644
--- a/futures-executor/src/local_pool.rs
+++ b/futures-executor/src/local_pool.rs
@@ -8,11 +8,15 @@ use core::{
     ops::{Deref, DerefMut},
     pin::pin,
 };
-use std::thread::{self, Thread};
 #[cfg(not(futures_verif))]
 use core::sync::atomic::{AtomicBool, Ordering};
+#[cfg(not(futures_verif))]
+use std::thread::{self, Thread};
 #[cfg(futures_verif)]
-use futures_core::__verif::atomic::{AtomicBool, Ordering};
+use futures_core::__verif::{
+    atomic::{AtomicBool, Ordering},
+    thread::{self, Thread},
+};
 
 use futures_core::{
     future::Future,
diff --git a/futures-executor/src/thread_pool.rs b/futures-executor/src/thread_pool.rs
index dfc14f7..96520ca 100644
--- a/futures-executor/src/thread_pool.rs
+++ b/futures-executor/src/thread_pool.rs
@@ -2,15 +2,20 @@ use alloc::{boxed::Box, format, string::String, sync::Arc};
 use core::{
     fmt,
 };
+use std::io;
+#[cfg(not(futures_verif))]
+use core::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(not(futures_verif))]
 use std::{
-    io,
     sync::{Mutex, mpsc},
     thread,
 };
-#[cfg(not(futures_verif))]
-use core::sync::atomic::{AtomicUsize, Ordering};
 #[cfg(futures_verif)]
-use futures_core::__verif::atomic::{AtomicUsize, Ordering};
+use futures_core::__verif::{
+    atomic::{AtomicUsize, Ordering},
+    sync::{Mutex, mpsc},
+    thread,
+};
 
 use futures_core::{
     future::Future,
-- 
2.43.0


From 15d7a0e1af59fd7602dd4d41dd9713285fb6da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:23 +0000
Subject: [PATCH 20/21] fix: FuturesUnordered: a half-finished wakeup must not
 hide the tasks pushed after it

A LocalPool could report that it is stalled although a freshly spawned task had
never been polled, when another thread was in the middle of a wakeup.
---
 .../src/stream/futures_unordered/ready_to_run_queue.rs       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs b/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
index cfd3965..9cf5e9b 100644
--- a/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
+++ b/futures-util/src/stream/futures_unordered/ready_to_run_queue.rs
@@ -58,6 +58,11 @@ impl<Fut> ReadyToRunQueue<Fut> {
 
             if tail == self.stub() {
                 if next.is_null() {
+                    // Another thread may be in the middle of `enqueue`; tasks
+                    // enqueued after it are not reachable yet.
+                    if !core::ptr::eq(self.head.load(Acquire), tail) {
+                        return Dequeue::Inconsistent;
+                    }
                     return Dequeue::Empty;
                 }
 
-- 
2.43.0


From 66503b4bf829fe7be652f29064cb999c0760f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:02 +0000
Subject: [PATCH 21/21] fix: compat sink: do not flush a 0.1 sink again after
 it was closed

Compat01As03Sink::poll_close remembered that the close was started only
when the close was pending. When it completed at once, another poll_close
called poll_complete on the closed 0.1 sink.
---
 futures-util/src/compat/compat01as03.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/compat/compat01as03.rs b/futures-util/src/compat/compat01as03.rs
index a24fca2..c82ac0c 100644
--- a/futures-util/src/compat/compat01as03.rs
+++ b/futures-util/src/compat/compat01as03.rs
@@ -308,7 +308,11 @@ where
         });
 
         match result? {
-            (Async01::Ready(_), _, _) => task03::Poll::Ready(Ok(())),
+            (Async01::Ready(_), _, close_started) => {
+                // `poll_complete` must not be called once the sink was closed.
+                self.close_started = close_started;
+                task03::Poll::Ready(Ok(()))
+            }
             (Async01::NotReady, item, close_started) => {
                 self.buffer = item;
                 self.close_started = close_started;
-- 
2.43.0

