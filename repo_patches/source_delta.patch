From f790af0137227746585c864a0f8591de1d42567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 01/17] hooks: cfg(parcom_sim_std) std facade and
 cfg(parcom_sim) accessors for simulation (off by default)

---
 crates/parcom-internals/src/lib.rs               |  7 +++++++
 .../src/default_runner/sequence.rs               | 16 ++++++++++++++++
 crates/parcom-runners/src/lib.rs                 |  7 +++++++
 crates/parcom-sequences/src/generic.rs           | 10 ++++++++++
 crates/parcom-sequences/src/lib.rs               |  7 +++++++
 5 files changed, 47 insertions(+)

diff --git a/crates/parcom-internals/src/lib.rs b/crates/parcom-internals/src/lib.rs
index 7511685..8ffaa53 100644
--- a/crates/parcom-internals/src/lib.rs
+++ b/crates/parcom-internals/src/lib.rs
@@ -1,3 +1,10 @@
+#![allow(unexpected_cfgs)]
+
+// Verification hook, off unless built with `--cfg parcom_sim_std`: resolves every `std::` path of
+// this crate to a simulator-controlled facade of the standard library.
+#[cfg(parcom_sim_std)]
+extern crate parcom_sim_std as std;
+
 pub mod future;
 pub mod reactive;
 pub mod shortvec;
diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..1927eb4 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -71,3 +71,19 @@ where
         DefaultSequenceAdvance::new(self, delta)
     }
 }
+
+// Verification hook, off unless built with `--cfg parcom_sim`: hands out the two handles through which
+// whoever loads the buffer announces appended segments and the end of the sequence.
+#[cfg(parcom_sim)]
+impl<S, B> DefaultSequence<S, B>
+where
+    S: SequenceSource,
+    B: SequenceBuilder<S>,
+{
+    pub fn sim_signals(&self) -> (Arc<Notify>, Arc<AtomicBool>) {
+        (
+            Arc::clone(&self.inner.append_signal),
+            Arc::clone(&self.inner.done_flag),
+        )
+    }
+}
diff --git a/crates/parcom-runners/src/lib.rs b/crates/parcom-runners/src/lib.rs
index 1b44568..dfbe360 100644
--- a/crates/parcom-runners/src/lib.rs
+++ b/crates/parcom-runners/src/lib.rs
@@ -1 +1,8 @@
+#![allow(unexpected_cfgs)]
+
+// Verification hook, off unless built with `--cfg parcom_sim_std`: resolves every `std::` path of
+// this crate to a simulator-controlled facade of the standard library.
+#[cfg(parcom_sim_std)]
+extern crate parcom_sim_std as std;
+
 pub mod default_runner;
diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..cc1abd7 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -32,3 +32,13 @@ impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenc
         (buffer, loader)
     }
 }
+
+// Verification hook, off unless built with `--cfg parcom_sim`: the builder has no public constructor.
+#[cfg(parcom_sim)]
+impl<B: BufferStrategy> GenericSequenceBuilder<B> {
+    pub fn sim_new(strategy: B) -> Self {
+        Self {
+            strategy: Arc::new(strategy),
+        }
+    }
+}
diff --git a/crates/parcom-sequences/src/lib.rs b/crates/parcom-sequences/src/lib.rs
index a6d8c53..d09591b 100644
--- a/crates/parcom-sequences/src/lib.rs
+++ b/crates/parcom-sequences/src/lib.rs
@@ -1,3 +1,10 @@
+#![allow(unexpected_cfgs)]
+
+// Verification hook, off unless built with `--cfg parcom_sim_std`: resolves every `std::` path of
+// this crate to a simulator-controlled facade of the standard library.
+#[cfg(parcom_sim_std)]
+extern crate parcom_sim_std as std;
+
 mod buffer_strategy;
 
 pub mod generic;
-- 
2.43.0


From 29b68ad05edcb09da4d862a6a1e508b758155a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 02/17] fix: atom matches across segments and multibyte
 boundaries

A pattern was compared with str::split_at, which panics where the segment or the
pattern has no character boundary; after a match that spanned several segments the
input was advanced by the last piece only; and an empty pattern failed (or waited)
on a stream without segments.
---
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  |  5 ++++
 crates/parcom-parsers/src/primitive/atom.rs | 26 +++++++++++++--------
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..1751ae1 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -139,4 +139,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..9fa3c88 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,9 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+
+    /// Splits at `mid`, or returns `None` if the segment cannot be divided there.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        (mid <= self.len()).then(|| self.split_at(mid))
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..691b014 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -35,28 +35,34 @@ where
 {
     async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
         let mut remain = self.pattern.pattern();
+        if remain.len() == Default::default() {
+            // an empty pattern matches even where no segment follows
+            return done((), input);
+        }
+
         let mut segments = input.segments();
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = segment
+                    .split_at_checked(remain.len())
+                    .is_some_and(|(s, _)| s == remain);
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    // `remain` may only be the tail of a pattern that spans several segments.
+                    done((), input.advance(self.pattern.pattern().len()).await)
                 } else {
                     fail(Miss(()), input)
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
-
-            if &*segment != p {
-                drop(segments);
-                return fail(Miss(()), input);
+            match remain.split_at_checked(segment.len()) {
+                Some((p, r)) if segment == p => remain = r,
+                _ => {
+                    drop(segments);
+                    return fail(Miss(()), input);
+                }
             }
-
-            remain = r;
         }
 
         drop(segments);
-- 
2.43.0


From 711153c4b21ca338567dd66fe01f3ef59f0dd54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 03/17] fix: rewinding a slice of zero-sized items panicked

---
 crates/parcom-core/src/primitive/slice.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..71cbb7e 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -33,6 +33,14 @@ impl<T> RewindSequence for &[T] {
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
         let ptr = anchor.me.as_ptr();
         let len = anchor.me.len();
+        if std::mem::size_of::<T>() == 0 {
+            // items without a size have no distinct addresses to compare.
+            assert!(
+                self.len() <= len,
+                "the anchor is not an anchor of this stream."
+            );
+            return std::future::ready(anchor.me);
+        }
         let offset = unsafe { self.as_ptr().offset_from(ptr) };
         if !offset.is_negative() && (offset as usize) <= len {
             std::future::ready(anchor.me)
-- 
2.43.0


From 7090d35b7101945a588b6dbbc90fe19266779845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 04/17] fix: ShortVec of zero-sized items requested allocations
 of size zero

---
 crates/parcom-internals/src/shortvec.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..e7653f4 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -1,7 +1,6 @@
 use std::{
     alloc::{self, Layout},
     mem::{ManuallyDrop, MaybeUninit},
-    ops::{Deref, DerefMut},
     ptr::NonNull,
 };
 
@@ -11,7 +10,7 @@ pub struct ShortVec<T, const N: usize> {
     /// invariant: `cap >= N` & `cap <= isize::MAX`
     cap: usize,
     len: usize,
-    /// elements of vec. if `cap > N`, data is heap, otherwise data is stack
+    /// elements of vec. if `cap > N` and `T` has a size, data is heap, otherwise data is stack
     data: ShortVecData<T, N>,
 }
 
@@ -31,7 +30,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             "`cap` must not be greater than isize::MAX"
         );
 
-        if cap > N {
+        if cap > N && std::mem::size_of::<T>() != 0 {
             let layout = Layout::array::<T>(cap).unwrap();
             let ptr = unsafe { alloc::alloc(layout) as *mut T };
             let ptr = match NonNull::new(ptr) {
@@ -49,7 +48,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             };
 
             Self {
-                cap: N,
+                cap: usize::max(cap, N),
                 len: 0,
                 data,
             }
@@ -68,7 +67,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.is_heap() {
             unsafe { NonNull::slice_from_raw_parts(*self.data.heap, self.len).as_ref() }
         } else {
-            unsafe { std::mem::transmute(&self.data.stack.deref()[..self.len]) }
+            unsafe { std::slice::from_raw_parts(self.as_ptr_stack_unchecked(), self.len) }
         }
     }
 
@@ -76,7 +75,10 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.is_heap() {
             unsafe { NonNull::slice_from_raw_parts(*self.data.heap, self.len).as_mut() }
         } else {
-            unsafe { std::mem::transmute(&mut self.data.stack.deref_mut()[..self.len]) }
+            unsafe {
+                let ptr = (*self.data.stack).as_mut_ptr() as *mut T;
+                std::slice::from_raw_parts_mut(ptr, self.len)
+            }
         }
     }
 
@@ -122,6 +124,13 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.cap >= cap {
             return;
         }
+
+        // items without a size need no memory, and must not be allocated.
+        if std::mem::size_of::<T>() == 0 {
+            self.cap = cap;
+            return;
+        }
+
         // `cap`の不変条件によって、`self.cap >= N`をかならず満たすため、ここではヒープアロケーションが必ず行われる。
         let layout = Layout::array::<T>(cap).unwrap();
         if self.is_heap() {
@@ -160,7 +169,7 @@ impl<T, const N: usize> ShortVec<T, N> {
 
 impl<T, const N: usize> ShortVec<T, N> {
     fn is_heap(&self) -> bool {
-        self.cap > N
+        self.cap > N && std::mem::size_of::<T>() != 0
     }
 
     unsafe fn as_ptr_stack_unchecked(&self) -> *const T {
-- 
2.43.0


From 1a09083b6647db4b291992d5bdf832bf1580fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 05/17] fix: collect turned a terminating error into a
 successful result

---
 crates/parcom-parsers/src/iterative/collect.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-parsers/src/iterative/collect.rs b/crates/parcom-parsers/src/iterative/collect.rs
index 7e6b8cf..c32cc2f 100644
--- a/crates/parcom-parsers/src/iterative/collect.rs
+++ b/crates/parcom-parsers/src/iterative/collect.rs
@@ -1,8 +1,8 @@
 use parcom_core::{
-    IterativeParser, IterativeParserOnce, IterativeParserState, ParseResult, Parser, ParserOnce,
-    RewindSequence,
+    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser,
+    ParserOnce, RewindSequence,
 };
-use parcom_util::done;
+use parcom_util::{done, fail};
 use std::marker::PhantomData;
 
 #[derive(Debug)]
@@ -57,6 +57,7 @@ async fn parse<S: RewindSequence, P: IterativeParserState<S>, C: Extend<P::Outpu
                 collection.extend(std::iter::once(v));
                 rest = r;
             }
+            Err((e, r)) if e.should_terminate() => return fail(e, r),
             Err((e, r)) => {
                 return done((collection, Some(e)), r.rewind(anchor).await);
             }
-- 
2.43.0


From a836d844cbb03d5142f14d13b0a75e1568f1bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 06/17] fix: a left-associative operator of precedence
 usize::MAX overflowed

---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..fc7d9ad 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -130,8 +130,7 @@ where
                     rhs = term;
                     break;
                 };
-                let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                if binds_tighter(&op, &last_op) {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,10 +150,11 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
-    match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
+/// Whether `op` takes the term between it and the preceding operator `last`.
+fn binds_tighter<T: Operator>(op: &T, last: &T) -> bool {
+    match last.associativity() {
+        Associativity::Left => op.precedence() > last.precedence(),
+        Associativity::Right => op.precedence() >= last.precedence(),
     }
 }
 
-- 
2.43.0


From 8c296fddc4ef22d69760219be58bd99ae6818f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 07/17] fix: Notify kept wakers of finished waits and woke
 tasks under its lock

Every poll of a pending Wait registered another waker and nothing removed them, and a
waker that used the notifier again deadlocked in send.
---
 crates/parcom-internals/src/future/notify.rs | 51 ++++++++++++++++----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 9abb471..1225ce0 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -23,9 +23,13 @@ impl Notify {
     }
 
     pub fn send(&self) {
-        self.version.fetch_add(1, Ordering::SeqCst);
-        let mut wakers = self.wakers.lock().unwrap();
-        for waker in wakers.drain() {
+        let wakers = {
+            let mut wakers = self.wakers.lock().unwrap();
+            self.version.fetch_add(1, Ordering::SeqCst);
+            std::mem::take(&mut *wakers)
+        };
+        // wakers may run arbitrary code, so the lock must not be held here.
+        for (_, waker) in wakers {
             waker.wake();
         }
     }
@@ -34,6 +38,7 @@ impl Notify {
         let version = self.version.load(Ordering::SeqCst);
         Wait {
             version,
+            key: None,
             signal: self,
         }
     }
@@ -42,6 +47,8 @@ impl Notify {
 #[derive(Debug)]
 pub struct Wait<'a> {
     version: usize,
+    /// the waker registered for `version`; `send` takes it when it changes the version.
+    key: Option<usize>,
     signal: &'a Notify,
 }
 
@@ -49,7 +56,7 @@ impl<'a> Future for Wait<'a> {
     type Output = ();
 
     fn poll(
-        self: std::pin::Pin<&mut Self>,
+        mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<Self::Output> {
         if self.version != self.signal.version.load(Ordering::SeqCst) {
@@ -57,16 +64,42 @@ impl<'a> Future for Wait<'a> {
         }
 
         let signal = self.signal;
+        let waker = cx.waker().clone();
         let mut wakers = signal.wakers.lock().unwrap();
-        let key = wakers.insert(cx.waker().clone());
 
         if self.version != signal.version.load(Ordering::SeqCst) {
-            wakers.remove(key);
-            Poll::Ready(())
-        } else {
             drop(wakers);
-            Poll::Pending
+            return Poll::Ready(());
         }
+
+        let replaced = match self.key {
+            Some(key) => Some(std::mem::replace(&mut wakers[key], waker)),
+            None => {
+                self.key = Some(wakers.insert(waker));
+                None
+            }
+        };
+        drop(wakers);
+        drop(replaced);
+        Poll::Pending
+    }
+}
+
+impl Drop for Wait<'_> {
+    fn drop(&mut self) {
+        let Some(key) = self.key else {
+            return;
+        };
+
+        let mut wakers = self.signal.wakers.lock().unwrap();
+        // After a `send`, `key` may belong to another wait.
+        let unused = if self.version == self.signal.version.load(Ordering::SeqCst) {
+            wakers.try_remove(key)
+        } else {
+            None
+        };
+        drop(wakers);
+        drop(unused);
     }
 }
 
-- 
2.43.0


From 8bd1bcab84bbac262b7ab6850eecdf1c4c2946c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 08/17] fix: writer of the generic loader under-reported its
 capacity as it filled

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From e3f26ec8ccd3486b9ee7f8d97aad0ddd5ffd390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 09/17] fix: a buffer strategy returning less than the
 requested size left the source without room

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..7ce468b 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -39,7 +39,7 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
                 _phantom: PhantomData,
             }
         } else {
-            let cap = self.strategy.calc_capacity(min_size);
+            let cap = self.strategy.calc_capacity(min_size).max(min_size);
             let to_append = std::mem::replace(buf, Vec::with_capacity(cap));
             Request {
                 to_append,
-- 
2.43.0


From a94eb6146b7d2c13f969fb9b847e28d563c790c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 10/17] fix: dropping a long generic sequence overflowed the
 stack

---
 crates/parcom-sequences/src/generic.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index cc1abd7..73ab9c4 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -15,6 +15,16 @@ struct Node<T> {
     next: Arc<OnceLock<Node<T>>>,
 }
 
+impl<T> Drop for Node<T> {
+    // Releases the nodes behind this one in a loop; recursion would exhaust the stack on long sequences.
+    fn drop(&mut self) {
+        let mut next = Arc::get_mut(&mut self.next).and_then(OnceLock::take);
+        while let Some(mut node) = next {
+            next = Arc::get_mut(&mut node.next).and_then(OnceLock::take);
+        }
+    }
+}
+
 pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
-- 
2.43.0


From 8163de083124ed6645cbd55da1e85c30308d3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 11/17] fix: failed or abandoned loads lost earlier data and
 exposed their own

---
 .../parcom-sequences/src/generic/control.rs   | 48 +++++++++++--------
 crates/parcom-sequences/src/generic/loader.rs |  9 ++--
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 7ce468b..e3ad64d 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -22,7 +22,7 @@ impl<'a, T, E, S: BufferStrategy> Control<'a, T, E, S> {
 
 impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     type Item = T;
-    type Result = Response<T, Self::Error>;
+    type Result = Response<'a, T, Self::Error>;
     type Error = E;
     type Writer = Request<'a, T, E>;
 
@@ -55,17 +55,17 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     }
 
     fn finish(self) -> Self::Result {
-        Response::Finish(std::mem::replace(self.buf, Vec::new()))
+        Response::Finish(self.buf)
     }
 }
 
-pub enum Response<T, E> {
-    Appended { len: usize, cap: usize },
-    Advance { buf: Vec<T>, len: usize, cap: usize },
-    Finish(Vec<T>),
+pub enum Response<'a, T, E> {
+    Advance(Request<'a, T, E>),
+    Finish(&'a mut Vec<T>),
     Cancel(E),
 }
 
+/// Undoes its load when dropped without being committed.
 pub struct Request<'a, T, E> {
     to_append: Vec<T>,
     buf: &'a mut Vec<T>,
@@ -76,7 +76,7 @@ pub struct Request<'a, T, E> {
 impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Segment = [T];
     type Item = T;
-    type Result = Response<T, E>;
+    type Result = Response<'a, T, E>;
     type Error = E;
 
     fn capacity(&self) -> usize {
@@ -100,22 +100,30 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     }
 
     fn advance(self) -> Self::Result {
-        if self.to_append.is_empty() {
-            Response::Appended {
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
-            }
-        } else {
-            Response::Advance {
-                buf: self.to_append,
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
-            }
-        }
+        Response::Advance(self)
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.drain(self.offset..);
+        drop(self);
         Response::Cancel(err)
     }
 }
+
+impl<'a, T, E> Request<'a, T, E> {
+    /// Keeps what was written; returns the buffer to append to the sequence, and the length and the
+    /// capacity of the current one.
+    pub(super) fn commit(mut self) -> (Vec<T>, usize, usize) {
+        self.offset = self.buf.len();
+        let to_append = std::mem::take(&mut self.to_append);
+        (to_append, self.buf.len(), self.buf.capacity())
+    }
+}
+
+impl<'a, T, E> Drop for Request<'a, T, E> {
+    fn drop(&mut self) {
+        self.buf.truncate(self.offset);
+        if !self.to_append.is_empty() {
+            *self.buf = std::mem::take(&mut self.to_append);
+        }
+    }
+}
diff --git a/crates/parcom-sequences/src/generic/loader.rs b/crates/parcom-sequences/src/generic/loader.rs
index 9fc91ce..64fa5a8 100644
--- a/crates/parcom-sequences/src/generic/loader.rs
+++ b/crates/parcom-sequences/src/generic/loader.rs
@@ -62,13 +62,16 @@ where
         let res = std::task::ready!(this.fut.poll(cx));
 
         let r = match res {
-            Response::Appended { len, cap } => Ok(LoadInfo::new(0, len, cap)),
-            Response::Advance { buf, len, cap } => {
+            Response::Advance(request) => {
+                let (buf, len, cap) = request.commit();
                 let commited = buf.len();
-                commit_to(this.tail_node, buf);
+                if commited > 0 {
+                    commit_to(this.tail_node, buf);
+                }
                 Ok(LoadInfo::new(commited, len, cap))
             }
             Response::Finish(buf) => {
+                let buf = std::mem::take(buf);
                 let commited = buf.len();
                 commit_to(this.tail_node, buf);
                 Ok(LoadInfo::done(commited))
-- 
2.43.0


From 92dde02b4aef9431eb8cfe5c658fe752a8126b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 12/17] fix: Utf8Validator accepted invalid or incomplete
 sequences near a chunk boundary or the end

---
 .../src/utf8_validator.rs                       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..6fd4fbf 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,6 +142,14 @@ where
     }
 
     fn finish(self) -> Self::Result {
+        if self.buffered > 0 {
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            return Response {
+                inner: InnerResponse::Err { res },
+                _phantom: PhantomData,
+            };
+        }
+
         let res = self.control.finish();
         Response {
             inner: InnerResponse::Finish { res },
@@ -193,14 +201,15 @@ where
     fn advance(mut self) -> Response<S, C> {
         let buf = self.req.as_slice();
 
-        let valid_len = match std::str::from_utf8(buf) {
-            Ok(_) => buf.len(),
-            Err(e) => e.valid_up_to(),
+        // `error_len` is `None` when the input ends inside a character that may still be completed.
+        let (valid_len, is_invalid) = match std::str::from_utf8(buf) {
+            Ok(_) => (buf.len(), false),
+            Err(e) => (e.valid_up_to(), e.error_len().is_some()),
         };
 
         let invalids = &buf[valid_len..];
 
-        let inner = if invalids.len() > 3 {
+        let inner = if is_invalid {
             let res = self.req.cancel(Utf8ValidationError::InvalidSequence);
             InnerResponse::Err { res }
         } else {
-- 
2.43.0


From 9175efd4ec438b065860c3d45b4befa9e6dd32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 13/17] fix: a waiting advance forgot how much was left to skip

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..f8a0d69 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -59,6 +59,7 @@ where
             return Poll::Ready(DefaultSequence { inner: sequence });
         }
 
+        *this.remain = remain;
         cx.waker().wake_by_ref();
 
         Poll::Pending
-- 
2.43.0


From ebf271f513c4d5c7283c1ea0ae7ef3245aea2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 14/17] fix: segments appended just before the end was marked
 could be missed

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 4 +++-
 .../parcom-runners/src/default_runner/sequence/segments.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index f8a0d69..6d92d10 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,10 +47,12 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
+        // Read before advancing: everything that was appended before the end was marked is then skipped.
+        let is_done = sequence.done_flag.load(Ordering::SeqCst);
         let remain = std::mem::replace(this.remain, Default::default());
         let remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if &remain == this.remain || is_done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..154f94a 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -91,13 +91,16 @@ where
         let fut = this.host.append_signal.wait();
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
 
+        // (2)の終了フラグは(1)より先に読む。逆順では、(1)のあとに追加され終了した場合にそのセグメントを失う。
+        let is_done = this.host.done_flag.load(Ordering::SeqCst);
+
         // (1): セグメントが末尾に追加されたか。
         if let Some(seg) = this.host.iter.next() {
             return Poll::Ready(Some(seg));
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if is_done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From ae026e35d837ccb2c7e563c96cc1d860f41cdce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 15/17] fix: CRLF missed a line end after a lone carriage
 return

---
 crates/parcom-metrics/src/end_of_line.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..3478e93 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -55,13 +55,17 @@ impl EndOfLine for CRLF {
                 }
                 _ => EndOfLineMatch::NotMatch,
             },
-            CRLFState::CR => {
-                self.state = CRLFState::Initial;
-                match c {
-                    '\n' => EndOfLineMatch::Match,
-                    _ => EndOfLineMatch::NotMatch,
+            CRLFState::CR => match c {
+                '\r' => EndOfLineMatch::PartialMatch,
+                '\n' => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::Match
                 }
-            }
+                _ => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::NotMatch
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 1faa22c6b829eb3602ff8a7dadfe71db56c6726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 16/17] fix: keep the previous buffer when undoing a load
 panics

Releasing the items of an undone load may panic in the item's own Drop; the buffer accepted before was then lost.
---
 crates/parcom-sequences/src/generic/control.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index e3ad64d..a027be4 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -121,9 +121,11 @@ impl<'a, T, E> Request<'a, T, E> {
 
 impl<'a, T, E> Drop for Request<'a, T, E> {
     fn drop(&mut self) {
-        self.buf.truncate(self.offset);
-        if !self.to_append.is_empty() {
-            *self.buf = std::mem::take(&mut self.to_append);
+        if self.to_append.is_empty() {
+            self.buf.truncate(self.offset);
+        } else {
+            // restores the previous buffer even if releasing the items of the new one panics.
+            drop(std::mem::replace(self.buf, std::mem::take(&mut self.to_append)));
         }
     }
 }
-- 
2.43.0


From 90da90cd10a60ebbb3ba64b2dd87cf81f893392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 17/17] fix: shrink a writer before releasing the items cut off

An item whose Drop panicked was released a second time with the buffer.
---
 crates/parcom-sequence-core/src/buffer_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequence-core/src/buffer_writer.rs b/crates/parcom-sequence-core/src/buffer_writer.rs
index 26385f2..5e58fbf 100644
--- a/crates/parcom-sequence-core/src/buffer_writer.rs
+++ b/crates/parcom-sequence-core/src/buffer_writer.rs
@@ -74,8 +74,8 @@ pub trait BufferWriter {
 
         unsafe {
             let slice = std::ptr::slice_from_raw_parts_mut(ptr.add(new_len), len - new_len);
-            std::ptr::drop_in_place(slice);
             self.set_len(new_len);
+            std::ptr::drop_in_place(slice);
         }
     }
 }
-- 
2.43.0

