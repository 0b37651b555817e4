From ca41a24140eaa619296d1ccf7363b05fe07e1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 01/10] fix: remember the waker when an unset timer is polled

A timer that is not set to fire (`Timer::never()`, a fired one-shot timer or an
overflowing deadline) did not store the waker of the polling task, so setting
the timer afterwards never woke that task.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..228ab52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -513,6 +513,12 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else {
+            // Remember the waker so that the task gets woken if the timer is set later on.
+            match &this.id_and_waker {
+                Some((_, w)) if w.will_wake(cx.waker()) => {}
+                _ => this.id_and_waker = Some((0, cx.waker().clone())),
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From 0ad294b345dceeba1055565d6df050bc7a902548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 02/10] fix: make set_after() and set_at() emit a single event
 on interval timers

Both are documented to set the timer to emit an event once, but an interval
timer kept its period and went on firing.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 228ab52..e3d27d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,8 +369,9 @@ impl Timer {
     pub fn set_at(&mut self, instant: Instant) {
         self.clear();
 
-        // Update the timeout.
+        // Update the timeout and make sure it fires only once.
         self.when = Some(instant);
+        self.period = Duration::MAX;
 
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
-- 
2.43.0


From 66f21f07f1a52d7984680839c77d03d8e0d10bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 03/10] fix: don't ignore readiness events forever in
 poll_readable() and poll_writable()

An event delivered in the round of the reactor that was current when the waker
was registered is ignored as possibly stale. The remembered round was renewed
on each poll, so when the reactor thread had already begun its next round each
time the task polled again, every event was ignored and the task was polled in
a loop without ever becoming ready.
---
 src/reactor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..485d697 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -458,7 +458,11 @@ impl Source {
             panic::catch_unwind(|| w.wake()).ok();
         }
         state[dir].waker = Some(cx.waker().clone());
-        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+        // Keep the ticks remembered by an earlier poll of the same wait: if they were renewed here,
+        // a reactor that is always a round ahead of us could have each of its events ignored.
+        if state[dir].ticks.is_none() {
+            state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+        }
 
         // Update interest in this I/O handle.
         if was_empty {
-- 
2.43.0


From 65941a9801093b66a9e9a0e63ee6803b5de7cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 04/10] fix: don't wake or drop wakers while holding the source
 or timer locks

Waking or dropping a waker can run arbitrary code, for instance drop a task
together with the timers and I/O futures in it. When that code got back to the
reactor it deadlocked on the lock of the same source or of the timers.
---
 src/reactor.rs | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 485d697..b21e9f3 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -160,8 +160,9 @@ impl Reactor {
             .is_err()
         {
             // If the queue is full, drain it and try again.
+            let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            self.process_timer_ops(&mut timers, &mut removed);
         }
 
         // Notify that a timer has been inserted.
@@ -175,8 +176,9 @@ impl Reactor {
         // Push a remove operation.
         while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
             // If the queue is full, drain it and try again.
+            let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            self.process_timer_ops(&mut timers, &mut removed);
         }
     }
 
@@ -207,8 +209,9 @@ impl Reactor {
         let span = tracing::trace_span!("process_timers");
         let _enter = span.enter();
 
+        let mut removed = Vec::new();
         let mut timers = self.timers.lock().unwrap();
-        self.process_timer_ops(&mut timers);
+        self.process_timer_ops(&mut timers, &mut removed);
 
         let now = Instant::now();
 
@@ -245,7 +248,14 @@ impl Reactor {
     }
 
     /// Processes queued timer operations.
-    fn process_timer_ops(&self, timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>) {
+    ///
+    /// The wakers of removed timers are moved into `removed` because they must not be dropped
+    /// while the timers are locked: dropping a waker can run arbitrary code.
+    fn process_timer_ops(
+        &self,
+        timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>,
+        removed: &mut Vec<Waker>,
+    ) {
         // Process only as much as fits into the queue, or else this loop could in theory run
         // forever.
         self.timer_ops
@@ -256,7 +266,7 @@ impl Reactor {
                     timers.insert((when, id), waker);
                 }
                 TimerOp::Remove(when, id) => {
-                    timers.remove(&(when, id));
+                    removed.extend(timers.remove(&(when, id)));
                 }
             });
     }
@@ -434,6 +444,9 @@ impl Source {
     ///
     /// If a different waker is already registered, it gets replaced and woken.
     fn poll_ready(&self, dir: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        // Holds the waker that gets replaced so that it is woken after `state` is unlocked.
+        let mut replaced = None;
+
         let mut state = self.state.lock().unwrap();
 
         // Check if the reactor has delivered an event.
@@ -454,8 +467,7 @@ impl Source {
                 state[dir].waker = Some(w);
                 return Poll::Pending;
             }
-            // Wake the previous waker because it's going to get replaced.
-            panic::catch_unwind(|| w.wake()).ok();
+            replaced = Some(w);
         }
         state[dir].waker = Some(cx.waker().clone());
         // Keep the ticks remembered by an earlier poll of the same wait: if they were renewed here,
@@ -478,6 +490,12 @@ impl Source {
             self.registration.modify(&Reactor::get().poller, event)?;
         }
 
+        // Wake the previous waker because it got replaced.
+        drop(state);
+        if let Some(w) = replaced {
+            panic::catch_unwind(|| w.wake()).ok();
+        }
+
         Poll::Pending
     }
 
@@ -615,6 +633,9 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             ..
         } = &mut *self;
 
+        // Holds the waker that gets replaced so that it is dropped after `state` is unlocked.
+        let _replaced;
+
         let mut state = handle.borrow().source.state.lock().unwrap();
 
         // Check if the reactor has delivered an event.
@@ -638,7 +659,7 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
                 i
             }
         };
-        state[*dir].wakers[i] = Some(cx.waker().clone());
+        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
 
         // Update interest in this I/O handle.
         if was_empty {
@@ -669,7 +690,10 @@ impl<H: Borrow<crate::Async<T>>, T> Drop for Ready<H, T> {
             let mut state = self.handle.borrow().source.state.lock().unwrap();
             let wakers = &mut state[self.dir].wakers;
             if wakers.contains(key) {
-                wakers.remove(key);
+                // Dropping a waker can run arbitrary code, so unlock `state` before doing it.
+                let waker = wakers.remove(key);
+                drop(state);
+                drop(waker);
             }
         }
     }
-- 
2.43.0


From 76d86c82fa593fdbd83ceaac453a884d4156eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 05/10] fix: register interest again after a failed attempt in
 readiness futures

When updating the interest in the poller failed, the error was returned but the
waker stayed registered. Polling again then found the direction not empty,
didn't update the interest and waited forever.
---
 src/reactor.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index b21e9f3..9ea6cc7 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -487,7 +487,15 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // Forget the waker, or else the next poll would believe that interest has already
+                // been registered and wait forever.
+                replaced = state[dir].waker.take();
+                state[dir].ticks = None;
+                drop(state);
+                drop(replaced);
+                return Poll::Ready(Err(err));
+            }
         }
 
         // Wake the previous waker because it got replaced.
@@ -633,8 +641,9 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             ..
         } = &mut *self;
 
-        // Holds the waker that gets replaced so that it is dropped after `state` is unlocked.
+        // Hold the wakers that get replaced so that they are dropped after `state` is unlocked.
         let _replaced;
+        let _failed;
 
         let mut state = handle.borrow().source.state.lock().unwrap();
 
@@ -672,11 +681,17 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
+            if let Err(err) = handle
                 .borrow()
                 .source
                 .registration
-                .modify(&Reactor::get().poller, event)?;
+                .modify(&Reactor::get().poller, event)
+            {
+                // Forget the waker, or else the next poll would believe that interest has already
+                // been registered and wait forever.
+                _failed = state[*dir].wakers[i].take();
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From d593d3da7a0c5395497eb152041c8566820a69cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 06/10] fix: don't lose wakeups when the reactor fails to
 register interest again

The early return dropped all wakers collected in this round, timers included,
and skipped the remaining events, so the tasks were never woken.
---
 src/reactor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 9ea6cc7..e2c7bc1 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -318,6 +318,8 @@ impl ReactorLock<'_> {
 
             // At least one I/O event occurred.
             Ok(_) => {
+                let mut res = Ok(());
+
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
 
@@ -347,12 +349,20 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // No more events will be delivered for this source, so wake the
+                                // tasks waiting for it to let them try again.
+                                state[READ].drain_into(&mut wakers);
+                                state[WRITE].drain_into(&mut wakers);
+                                res = Err(err);
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From e30eda37f4c2cbd0fa00695c311fffcbe0963f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 07/10] fix: reset the cached parker also after a panicking
 block_on()

A future that woke its waker and then panicked left the parker notified, and
the next block_on() on the thread polled its future once too often.
---
 src/driver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/driver.rs b/src/driver.rs
index 834fc0d..500fe17 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -190,6 +190,10 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
             }
         };
 
+        // Ensure the cached parker is in the unnotified state, in case the future of an earlier
+        // `block_on()` call called wake and then immediately returned `Poll::Ready` or panicked.
+        p.park_timeout(Duration::from_secs(0));
+
         pin!(future);
 
         let cx = &mut Context::from_waker(waker);
@@ -197,9 +201,6 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
         loop {
             // Poll the future.
             if let Poll::Ready(t) = future.as_mut().poll(cx) {
-                // Ensure the cached parker is reset to the unnotified state for future block_on calls,
-                // in case this future called wake and then immediately returned Poll::Ready.
-                p.park_timeout(Duration::from_secs(0));
                 tracing::trace!("completed");
                 return t;
             }
-- 
2.43.0


From 760bcc2e5216703ceccdd15d466aab31da47cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 08/10] fix: don't block in the reactor after dropping the
 wakers of removed timers

A waker dropped at the start of react() can take a whole task with it, and that
can wake the future of the block_on() call which is driving the reactor. Such a
wakeup went unnoticed until some unrelated event ended the wait.
---
 src/reactor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index e2c7bc1..92b3af6 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -223,14 +223,17 @@ impl Reactor {
         let ready = mem::replace(&mut *timers, pending);
 
         // Calculate the duration until the next event.
-        let dur = if ready.is_empty() {
+        //
+        // Don't block if wakers are about to be dropped: dropping them can run arbitrary code,
+        // which can wake the very task that the current thread is blocked on.
+        let dur = if ready.is_empty() && removed.is_empty() {
             // Duration until the next timer.
             timers
                 .keys()
                 .next()
                 .map(|(when, _)| when.saturating_duration_since(now))
         } else {
-            // Timers are about to fire right now.
+            // Timers are about to fire or wakers to be dropped right now.
             Some(Duration::from_secs(0))
         };
 
-- 
2.43.0


From a9b6bc2262b5780725afccceb7fe53108b2e893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 09/10] fix: Survive a failed initialization of the reactor

If the poller could not be created (e.g. no descriptors left), the
"async-io" thread, which had already been spawned, either died of the same
panic or was never useful again, so that a later, successful initialization
left nobody to drive the reactor. Create the poller before the thread, and
don't spawn the thread at the end of block_on(), where failing to spawn it
aborted the process if the future had panicked.
---
 src/driver.rs  | 11 ++++++++---
 src/reactor.rs |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/driver.rs b/src/driver.rs
index 500fe17..d31ca29 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -16,10 +16,11 @@ use crate::reactor::Reactor;
 /// Number of currently active `block_on()` invocations.
 static BLOCK_ON_COUNT: AtomicUsize = AtomicUsize::new(0);
 
+/// Unparker for the "async-io" thread, once that thread has been spawned.
+static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();
+
 /// Unparker for the "async-io" thread.
 fn unparker() -> &'static parking::Unparker {
-    static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();
-
     UNPARKER.get_or_init_blocking(|| {
         let (parker, unparker) = parking::pair();
 
@@ -118,7 +119,11 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
     // Make sure to decrement `BLOCK_ON_COUNT` at the end and wake the "async-io" thread.
     let _guard = CallOnDrop(|| {
         BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
-        unparker().unpark();
+        // If the thread doesn't exist yet, there is nobody to wake. Don't spawn it here: that can
+        // fail, perhaps even while unwinding, and the thread can't do anything without a reactor.
+        if let Some(unparker) = UNPARKER.get() {
+            unparker.unpark();
+        }
     });
 
     // Creates a parker and an associated waker that unparks it.
diff --git a/src/reactor.rs b/src/reactor.rs
index 92b3af6..b6e72b8 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -96,9 +96,12 @@ impl Reactor {
         static REACTOR: OnceCell<Reactor> = OnceCell::new();
 
         REACTOR.get_or_init_blocking(|| {
+            // Spawn the "async-io" thread only after the poller has been created, because the
+            // thread would not survive a failure to create it.
+            let poller = Poller::new().expect("cannot initialize I/O event notification");
             crate::driver::init();
             Reactor {
-                poller: Poller::new().expect("cannot initialize I/O event notification"),
+                poller,
                 ticker: AtomicUsize::new(0),
                 sources: Mutex::new(Slab::new()),
                 events: Mutex::new(Events::new()),
-- 
2.43.0


From c1ce98a9f1e16a8bc01d2296a5a2884140e4ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 10/10] fix: Survive panics when dropping the wakers of removed
 timers

process_timers() runs while the reactor is locked, so such a panic poisoned
the lock and ended the helper thread, after which no timer or source woke
anything.
---
 src/reactor.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reactor.rs b/src/reactor.rs
index b6e72b8..0f1b3ab 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -166,6 +166,8 @@ impl Reactor {
             let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
             self.process_timer_ops(&mut timers, &mut removed);
+            drop(timers);
+            drop_wakers(removed);
         }
 
         // Notify that a timer has been inserted.
@@ -182,6 +184,8 @@ impl Reactor {
             let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
             self.process_timer_ops(&mut timers, &mut removed);
+            drop(timers);
+            drop_wakers(removed);
         }
     }
 
@@ -250,6 +254,8 @@ impl Reactor {
             wakers.push(waker);
         }
 
+        drop_wakers(removed);
+
         dur
     }
 
@@ -278,6 +284,14 @@ impl Reactor {
     }
 }
 
+/// Drops the wakers of removed timers.
+fn drop_wakers(removed: Vec<Waker>) {
+    for waker in removed {
+        // Don't let a panicking waker blow everything up.
+        panic::catch_unwind(panic::AssertUnwindSafe(|| drop(waker))).ok();
+    }
+}
+
 /// A lock on the reactor.
 pub(crate) struct ReactorLock<'a> {
     reactor: &'a Reactor,
-- 
2.43.0

