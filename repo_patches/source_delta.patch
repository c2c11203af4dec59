From 90ff410e24728fa8533218392c5404be8b10dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 1/2] fix: don't drop the initial object twice if its
 destructor panics

force_unwind on a coroutine that was never resumed only marked it as
completed after running the destructor of the closure. If that destructor
panicked, the coroutine still looked fresh and a later force_unwind, resume
or drop used the already destroyed closure again.
---
 src/coroutine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..8984e40 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as completed first: if the destructor of the
+            // initial object panics then it must not be dropped a second time.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From 1eff3a14ba2632c24f64a66b3324c0cc83efaa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 2/2] fix: reject over-aligned zero-sized closures

A zero-sized closure with an alignment of a page or more passed the size check
but moved the initial stack pointer of the coroutine down by up to its
alignment, into the guard page or out of the stack entirely.
---
 src/arch/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..8342a9d 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -115,8 +115,12 @@ cfg_if::cfg_if! {
 /// `STACK_ALIGNMENT`.
 #[inline]
 unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
-    // Sanity check to avoid stack overflows.
-    assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
+    // Sanity check to avoid stack overflows. The alignment needs to be checked
+    // separately since zero-sized types can have an arbitrary alignment.
+    assert!(
+        mem::size_of::<T>() <= 1024 && mem::align_of::<T>() <= 1024,
+        "type is too big to transfer"
+    );
 
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
-- 
2.43.0

