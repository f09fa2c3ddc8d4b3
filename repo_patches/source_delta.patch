From c151c5e74a7c9523ba3d10332f8ce23d7cba91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 1/8] fix: setting an interval timer to fire once must stop the
 interval

set_at() and set_after() are documented to emit an event once, but kept the
period of an interval timer, which then went on emitting events.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..51c604c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -372,6 +372,9 @@ impl Timer {
         // Update the timeout.
         self.when = Some(instant);
 
+        // The event is emitted once, even if this was an interval timer.
+        self.period = Duration::MAX;
+
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
             *id = Reactor::get().insert_timer(instant, waker);
-- 
2.43.0


From d6464019c350da420f5e8697bc2f0902d81faeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 2/8] fix: resetting a timer must wake the task that polled it
 while it could not fire

Polling a timer with no deadline (never, overflow, or already fired) did not
store the task's waker, so a later set_after(), set_at() or set_interval*()
registered nothing and the waiting task was never woken.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 51c604c..4b92e40 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -516,6 +516,10 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else {
+            // The timer is not going to fire, so there is nothing to register in the reactor. Still
+            // remember the task (no timer has ID 0), so that resetting the timer lets it be woken.
+            this.id_and_waker = Some((0, cx.waker().clone()));
         }
 
         Poll::Pending
-- 
2.43.0


From e3bf8b944ae32008076fe74c55f764e12b75e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 3/8] fix: poll_readable and poll_writable must not start over
 on every call

When the thread that drives the reactor is already blocked on I/O at the time
of the call, the event it then delivers carries the tick that was current at
the time of the call and is ignored.  Taking new ticks on the next call made
that happen again, for ever: the method never returned ready on a handle that
was ready, and the task and the reactor kept waking each other.
---
 src/reactor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..9989e2b 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -458,7 +458,14 @@ impl Source {
             panic::catch_unwind(|| w.wake()).ok();
         }
         state[dir].waker = Some(cx.waker().clone());
-        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+
+        // Remember the current ticks, unless this continues a wait that is already in progress.
+        // In that case the old ticks must stay: when the reactor is blocked on I/O already, its
+        // next event carries the current tick and gets ignored, so that with new ticks on every
+        // call this method would never report readiness.
+        if state[dir].ticks.is_none() {
+            state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+        }
 
         // Update interest in this I/O handle.
         if was_empty {
-- 
2.43.0


From 393bf9a00b08a1fe814521b7e7f4815421da033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 4/8] fix: a wait that could not be registered must not leave
 its waker behind

If the OS refuses to register interest in a handle, the error is returned, but
the waker used to stay in the list.  The next call with the same waker, and
other waits for the same direction, then took interest for registered and
waited for ever.
---
 src/reactor.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 9989e2b..95b4373 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -478,7 +478,13 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // This wait has not begun. A waker left behind would make the next calls believe
+                // that interest has been registered already.
+                state[dir].waker = None;
+                state[dir].ticks = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
@@ -654,11 +660,17 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
+            if let Err(err) = handle
                 .borrow()
                 .source
                 .registration
-                .modify(&Reactor::get().poller, event)?;
+                .modify(&Reactor::get().poller, event)
+            {
+                // A waker left behind would make other waits for this direction believe that
+                // interest has been registered already.
+                state[*dir].wakers[i] = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From e269c7183ac15b5dfa0b83b41a2e5e401c88a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 5/8] fix: failing to register interest again must not lose the
 collected wakers

When the OS refused to register interest in a handle again after an event, the
reactor returned at once and dropped the wakers it had collected, of timers and
of other handles, and left the rest of the events unprocessed.
---
 src/reactor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 95b4373..3c4eb9a 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -310,6 +310,7 @@ impl ReactorLock<'_> {
             Ok(_) => {
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
+                let mut res = Ok(());
 
                 for ev in self.events.iter() {
                     // Check if there is a source in the table with this key.
@@ -337,12 +338,21 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // Wake the remaining tasks so that they try to register interest
+                                // by themselves, and carry on: the wakers collected so far and
+                                // the remaining events must not get lost.
+                                state[READ].drain_into(&mut wakers);
+                                state[WRITE].drain_into(&mut wakers);
+                                res = Err(err);
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From 7c61b627b38d13ca877d1ba5397c4ccbc1c9832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 6/8] fix: a TCP connection attempt that could not begin must
 not count as connected

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b92e40..e421c4c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1534,7 +1534,12 @@ impl Async<TcpStream> {
 
         // Check if there was an error while connecting.
         match stream.get_ref().take_error()? {
-            None => Ok(stream),
+            None => {
+                // A socket whose connection attempt could not even begin also counts as writable,
+                // so we must do an extra check here and see if the peer address is retrievable.
+                stream.get_ref().peer_addr()?;
+                Ok(stream)
+            }
             Some(err) => Err(err),
         }
     }
-- 
2.43.0


From f190a0f0be87d1d7fc68e21d1926abae971a2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 7/8] fix: wake a replaced waiter without holding the lock of
 its I/O source

poll_readable() and poll_writable() woke the waiter they replaced while the
state of the source was locked. A waker that uses the same I/O handle, for
instance one that polls its task right away, deadlocked.
---
 src/reactor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 3c4eb9a..d77c30c 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -459,13 +459,13 @@ impl Source {
         let was_empty = state[dir].is_empty();
 
         // Register the current task's waker.
+        let mut replaced = None;
         if let Some(w) = state[dir].waker.take() {
             if w.will_wake(cx.waker()) {
                 state[dir].waker = Some(w);
                 return Poll::Pending;
             }
-            // Wake the previous waker because it's going to get replaced.
-            panic::catch_unwind(|| w.wake()).ok();
+            replaced = Some(w);
         }
         state[dir].waker = Some(cx.waker().clone());
 
@@ -497,6 +497,13 @@ impl Source {
             }
         }
 
+        // Wake the previous waker because it got replaced. The waker might use this I/O source, so
+        // the lock must not be held.
+        drop(state);
+        if let Some(w) = replaced {
+            panic::catch_unwind(|| w.wake()).ok();
+        }
+
         Poll::Pending
     }
 
-- 
2.43.0


From 098ea721b50341a6851144520811fa7cbe9f6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 8/8] fix: drop wakers without holding the lock they are kept
 under

Dropping a waker may drop the task it belongs to, and with it timers and
readiness futures that need the same lock.
---
 src/reactor.rs | 51 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index d77c30c..cc2a5fe 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -161,7 +161,11 @@ impl Reactor {
         {
             // If the queue is full, drain it and try again.
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            let removed = self.process_timer_ops(&mut timers);
+
+            // Drop the lock before dropping wakers.
+            drop(timers);
+            drop(removed);
         }
 
         // Notify that a timer has been inserted.
@@ -176,7 +180,11 @@ impl Reactor {
         while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
             // If the queue is full, drain it and try again.
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            let removed = self.process_timer_ops(&mut timers);
+
+            // Drop the lock before dropping wakers.
+            drop(timers);
+            drop(removed);
         }
     }
 
@@ -208,7 +216,7 @@ impl Reactor {
         let _enter = span.enter();
 
         let mut timers = self.timers.lock().unwrap();
-        self.process_timer_ops(&mut timers);
+        let removed = self.process_timer_ops(&mut timers);
 
         let now = Instant::now();
 
@@ -231,8 +239,9 @@ impl Reactor {
             Some(Duration::from_secs(0))
         };
 
-        // Drop the lock before waking.
+        // Drop the lock before waking and before dropping wakers.
         drop(timers);
+        drop(removed);
 
         // Add wakers to the list.
         tracing::trace!("{} ready wakers", ready.len());
@@ -245,7 +254,16 @@ impl Reactor {
     }
 
     /// Processes queued timer operations.
-    fn process_timer_ops(&self, timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>) {
+    ///
+    /// Returns the wakers of removed timers. Dropping a waker may drop the whole task and with it
+    /// other timers, so the lock on `timers` must be released first.
+    #[must_use]
+    fn process_timer_ops(
+        &self,
+        timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>,
+    ) -> Vec<Waker> {
+        let mut removed = Vec::new();
+
         // Process only as much as fits into the queue, or else this loop could in theory run
         // forever.
         self.timer_ops
@@ -256,9 +274,11 @@ impl Reactor {
                     timers.insert((when, id), waker);
                 }
                 TimerOp::Remove(when, id) => {
-                    timers.remove(&(when, id));
+                    removed.extend(timers.remove(&(when, id)));
                 }
             });
+
+        removed
     }
 }
 
@@ -664,7 +684,7 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
                 i
             }
         };
-        state[*dir].wakers[i] = Some(cx.waker().clone());
+        let replaced = state[*dir].wakers[i].replace(cx.waker().clone());
 
         // Update interest in this I/O handle.
         if was_empty {
@@ -690,6 +710,11 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             }
         }
 
+        // Dropping the previous waker may drop the task it belongs to and with it other futures
+        // that use this I/O source, so the lock must not be held.
+        drop(state);
+        drop(replaced);
+
         Poll::Pending
     }
 }
@@ -700,9 +725,15 @@ impl<H: Borrow<crate::Async<T>>, T> Drop for Ready<H, T> {
         if let Some(key) = self.index {
             let mut state = self.handle.borrow().source.state.lock().unwrap();
             let wakers = &mut state[self.dir].wakers;
-            if wakers.contains(key) {
-                wakers.remove(key);
-            }
+            let removed = if wakers.contains(key) {
+                wakers.remove(key)
+            } else {
+                None
+            };
+
+            // Drop the lock before dropping the waker.
+            drop(state);
+            drop(removed);
         }
     }
 }
-- 
2.43.0

