From efda5226f6fe2310879c0e46c97db6fc9c92c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 01/46] fix: run timers and port events of dedicated components
 on their own thread

Enqueueing a timeout or a port event scheduled the target on the system's
thread pool even when it has a dedicated scheduler.
---
 core/src/ports.rs               | 6 ++----
 core/src/timer/timer_manager.rs | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/ports.rs b/core/src/ports.rs
index bf222a2..a81f8a2 100644
--- a/core/src/ports.rs
+++ b/core/src/ports.rs
@@ -393,8 +393,7 @@ impl<P: Port + 'static> ProvidedRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
@@ -465,8 +464,7 @@ impl<P: Port + 'static> RequiredRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 7957055..f3bbad3 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -356,8 +356,7 @@ impl TimerActorRef {
                 let res = c.core().increment_work();
                 q.push(timeout);
                 if let SchedulingDecision::Schedule = res {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 Ok(())
             }
-- 
2.43.0


From 29746a166e9379e03e9193a93e28bf7c6022526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 02/46] fix: count dequeued timeouts of cancelled timers as
 finished work

Otherwise the component's work count never returns to zero and it is
rescheduled forever.
---
 core/src/component/actual_component.rs | 5 +++++
 core/src/timer/timer_manager.rs        | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ca1a77a..efef47e 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -521,6 +521,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             count += 1;
                             res
                         }
+                        ExecuteAction::Cancelled => {
+                            // it was enqueued as work, so it must also be counted as done
+                            count += 1;
+                            continue;
+                        }
                         ExecuteAction::None => break,
                     };
                     check_and_handle_blocking!(self, guard, count, res);
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index f3bbad3..8836f90 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -212,6 +212,8 @@ pub(crate) struct Timeout(pub(crate) Uuid);
 
 pub(crate) enum ExecuteAction<C: ComponentDefinition> {
     None,
+    /// A timeout was dequeued, but its timer has been cancelled in the meantime
+    Cancelled,
     Periodic(Uuid, Rc<dyn Fn(&mut C, Uuid) -> HandlerResult>),
     Once(Uuid, Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult>),
 }
@@ -251,7 +253,7 @@ impl<C: ComponentDefinition> TimerManager<C> {
                     );
                     ExecuteAction::Periodic(timeout.0, action2)
                 }
-                _ => ExecuteAction::None,
+                None => ExecuteAction::Cancelled,
             }
         } else {
             ExecuteAction::None
-- 
2.43.0


From f5008f1ec21f3a8a3445d440b9534b0e22943e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 03/46] fix: poll the future a blocking future asks to block on
 next

It was stored without ever being polled, so nothing woke the component up
again and it stayed blocked forever.
---
 core/src/component/context.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b81bdc..b947840 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -223,7 +223,13 @@ where
             .take()
             .expect("Called run_blocking while not blocking!");
         let component = self.typed_component();
-        match blocking_state.future.run(&component) {
+        let mut run_result = blocking_state.future.run(&component);
+        // If the future finishes by asking to block on another one, that one must be polled
+        // right away. Otherwise nobody would ever wake up the component for it.
+        while let BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) = run_result {
+            run_result = f.run(&component);
+        }
+        match run_result {
             BlockingRunResult::BlockOn(f) => {
                 blocking_state.future = f;
                 assert!(
@@ -232,14 +238,6 @@ where
                 );
                 BlockingTaskResult::Pending
             }
-            BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) => {
-                blocking_state.future = f;
-                assert!(
-                    self.blocking_future.replace(blocking_state).is_none(),
-                    "Replacing a blocking future without completing it first is invalid!"
-                );
-                BlockingTaskResult::Pending
-            }
             BlockingRunResult::Unblock(Ok(Handled::Shutdown))
                 if blocking_state.unblock_state == StateTransition::Destroyed =>
             {
-- 
2.43.0


From cd1df225d7e86bda28ce3470f2d038b8a4066cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 04/46] fix: do not run anything on a component after it was
 killed

Control events behind a Kill in the same batch were still executed, running
on_kill twice or starting a destroyed component again.
---
 core/src/component/actual_component.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index efef47e..fcfc056 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -400,6 +400,10 @@ impl<CD: ComponentTraits> Component<CD> {
 
         match self.mutable_core.lock() {
             Ok(mut guard) => {
+                if self.is_destroyed() || self.is_faulty() {
+                    // ended while we were waiting for the lock
+                    return SchedulingDecision::NoWork;
+                }
                 if guard.definition.ctx().is_blocking() {
                     match guard.definition.ctx_mut().run_blocking_task() {
                         BlockingTaskResult::Pending => return SchedulingDecision::Blocked,
@@ -461,7 +465,11 @@ impl<CD: ComponentTraits> Component<CD> {
                         Ok(Handled::Ok) => match event {
                             lifecycle::ControlEvent::Start => self.notify_started(),
                             lifecycle::ControlEvent::Stop => self.set_passive(),
-                            lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                            lifecycle::ControlEvent::Kill => {
+                                self.set_destroyed();
+                                // later control events must not revive a dead component
+                                return SchedulingDecision::NoWork;
+                            }
                             lifecycle::ControlEvent::Poll(_) => (),
                         },
                         Ok(Handled::BlockOn(blocking_future)) => {
@@ -490,7 +498,10 @@ impl<CD: ComponentTraits> Component<CD> {
                             match event {
                                 lifecycle::ControlEvent::Start => self.notify_started(),
                                 lifecycle::ControlEvent::Stop => self.set_passive(),
-                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                                lifecycle::ControlEvent::Kill => {
+                                    self.set_destroyed();
+                                    return SchedulingDecision::NoWork;
+                                }
                                 lifecycle::ControlEvent::Poll(_) => (),
                             }
                         }
-- 
2.43.0


From b2d6745d72d3306a381f2ef447bddf251f8bddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 05/46] fix: complete kill_notify for components that were
 never started

The supervisor only tracks started components and ignored the listeners of
others, so the future of kill_notify never completed.
---
 core/src/supervision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 24975fd..f02282a 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -326,11 +326,12 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                                 id
                             );
                         }
-                        self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
-                        self.drop_listeners(&id);
                     }
                     None => warn!(self.ctx.log(), "An untracked Component({}) was killed.", id),
                 }
+                // also for components which were killed before they were ever started
+                self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
+                self.drop_listeners(&id);
                 self.shutdown_if_no_more_children()
             }
             SupervisorMsg::Faulty(recover_handler) => {
-- 
2.43.0


From b72d3aa180efc8ad28292f17afe04e6cc37b72c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 06/46] fix: do not keep components alive through the wakers of
 their own futures

---
 core/src/component/future_task.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/src/component/future_task.rs b/core/src/component/future_task.rs
index 055f324..e32ad89 100644
--- a/core/src/component/future_task.rs
+++ b/core/src/component/future_task.rs
@@ -109,7 +109,7 @@ where
     let id = Uuid::new_v4();
     let future = f(ComponentDefinitionAccess::from_ref(component));
     let core = component.ctx().component();
-    let waker = task_waker::create(id, core);
+    let waker = task_waker::create(id, Arc::downgrade(&core));
     let boxed = Box::pin(future);
     NonBlockingFuture {
         future: boxed,
@@ -185,21 +185,24 @@ unsafe impl<CD> Send for ComponentDefinitionAccess<CD> where CD: ComponentDefini
 mod task_waker {
     use super::*;
 
-    pub fn create(id: Uuid, core: Arc<dyn CoreContainer>) -> Waker {
+    pub fn create(id: Uuid, core: Weak<dyn CoreContainer>) -> Waker {
         waker(Arc::new(TaskWaker { id, core }))
     }
 
     #[derive(Debug)]
     struct TaskWaker {
         id: Uuid,
-        core: Arc<dyn CoreContainer>,
+        // The component owns the future, which owns this waker,
+        // so a strong reference would keep the component alive forever.
+        core: Weak<dyn CoreContainer>,
     }
 
     impl ArcWake for TaskWaker {
         fn wake_by_ref(arc_self: &Arc<Self>) {
-            arc_self
-                .core
-                .enqueue_control(ControlEvent::Poll(arc_self.id));
+            // if the component is gone, so is the future
+            if let Some(core) = arc_self.core.upgrade() {
+                core.enqueue_control(ControlEvent::Poll(arc_self.id));
+            }
         }
     }
 }
-- 
2.43.0


From 6751002bcb4b312b2614e05247e39a87a44bba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 07/46] fix: do not keep rescheduling stopped components that
 have messages waiting

---
 core/src/component/actual_component.rs | 29 ++++++++++++++++--
 core/src/component/lifecycle.rs        | 41 ++++++++++++++++++++++++--
 2 files changed, 65 insertions(+), 5 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index fcfc056..ed8bbc7 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -171,11 +171,36 @@ impl<CD: ComponentTraits> Component<CD> {
     pub(crate) fn enqueue_control(&self, event: ControlEvent) -> () {
         let res = self.core.increment_work(); // must do it in this order to maintain counting guarantees
         self.ctrl_queue.push(event);
-        if let SchedulingDecision::Schedule = res {
+        let schedule = matches!(res, SchedulingDecision::Schedule);
+        // must also be done after the push (see `park`)
+        if schedule || lifecycle::unpark(&self.core.state) {
             self.schedule();
         }
     }
 
+    /// Take a passive component out of the scheduler until the next control event arrives
+    ///
+    /// It can't run anything but control events, so rescheduling it because of
+    /// any other work waiting for it would only keep a thread busy.
+    fn park(&self, work_done: usize) -> SchedulingDecision {
+        let decision = self.core.decrement_work(work_done);
+        if matches!(decision, SchedulingDecision::Schedule) {
+            if !self.ctrl_queue.is_empty() {
+                return SchedulingDecision::Schedule;
+            }
+            if !lifecycle::park(&self.core.state) {
+                return SchedulingDecision::NoWork;
+            }
+            // a control event may have been pushed just before the component was parked
+            if !self.ctrl_queue.is_empty() && lifecycle::unpark(&self.core.state) {
+                return SchedulingDecision::Schedule;
+            }
+            SchedulingDecision::NoWork
+        } else {
+            decision
+        }
+    }
+
     /// Returns a mutable reference to the underlying component definition.
     ///
     /// This can only be done if you have a reference to the component instance
@@ -516,7 +541,7 @@ impl<CD: ComponentTraits> Component<CD> {
                 }
                 if !lifecycle::is_active(&self.core.state) {
                     trace!(self.logger, "Not running inactive scheduled.");
-                    return self.core.decrement_work(count);
+                    return self.park(count);
                 }
                 // timers have highest priority
                 while count < max_events {
diff --git a/core/src/component/lifecycle.rs b/core/src/component/lifecycle.rs
index 8b86a52..290c3cb 100644
--- a/core/src/component/lifecycle.rs
+++ b/core/src/component/lifecycle.rs
@@ -25,12 +25,16 @@ const PASSIVE: u64 = 1u64 << 61;
 const DESTROYED: u64 = 2u64 << 61;
 const FAULTY: u64 = 3u64 << 61;
 const BLOCKING: u64 = 4u64 << 61;
+/// Passive with work waiting for it, but not scheduled.
+/// Only a new control event can make the component schedulable again.
+const PARKED: u64 = 5u64 << 61;
 
 const FLAG_MASK: u64 = u64::MAX >> 3;
 
 pub(crate) enum LifecycleState {
     Active(u64),
     Passive(u64),
+    Parked,
     Destroyed,
     Faulty,
     Blocking,
@@ -41,6 +45,7 @@ impl LifecycleState {
         match flags {
             ACTIVE => LifecycleState::Active(remove_flags(current_state)),
             PASSIVE => LifecycleState::Passive(remove_flags(current_state)),
+            PARKED => LifecycleState::Parked,
             DESTROYED => LifecycleState::Destroyed,
             FAULTY => LifecycleState::Faulty,
             BLOCKING => LifecycleState::Blocking,
@@ -69,9 +74,10 @@ impl LifecycleState {
                     SchedulingDecision::AlreadyScheduled
                 }
             }
-            LifecycleState::Destroyed | LifecycleState::Faulty | LifecycleState::Blocking => {
-                SchedulingDecision::NoWork
-            }
+            LifecycleState::Parked
+            | LifecycleState::Destroyed
+            | LifecycleState::Faulty
+            | LifecycleState::Blocking => SchedulingDecision::NoWork,
         }
     }
 
@@ -149,6 +155,35 @@ pub(crate) fn set_passive(state: &AtomicU64) {
     set_state(state, PASSIVE);
 }
 
+/// Stop scheduling a passive component that can't run the work waiting for it
+///
+/// Returns `false` if the component is not passive (anymore).
+pub(crate) fn park(state: &AtomicU64) -> bool {
+    replace_flags(state, PASSIVE, PARKED)
+}
+
+/// Undo [park](park)
+///
+/// Whoever gets `true` from this, must schedule the component.
+pub(crate) fn unpark(state: &AtomicU64) -> bool {
+    replace_flags(state, PARKED, PASSIVE)
+}
+
+fn replace_flags(state: &AtomicU64, from: u64, to: u64) -> bool {
+    loop {
+        let current_state = state.load(Ordering::SeqCst);
+        if remove_count(current_state) != from {
+            return false;
+        }
+        let new_state = to | remove_flags(current_state);
+        if state.compare_exchange(current_state, new_state, Ordering::SeqCst, Ordering::SeqCst)
+            == Ok(current_state)
+        {
+            return true;
+        }
+    }
+}
+
 pub(crate) fn set_destroyed(state: &AtomicU64) {
     set_state(state, DESTROYED);
 }
-- 
2.43.0


From caf0a76699848b2d0c7b450d535690741f8595d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:52 +0000
Subject: [PATCH 08/46] fix: do not start stopped components when one of their
 local futures blocks

---
 core/src/component/actual_component.rs | 11 ++++++++++-
 core/src/component/context.rs          |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ed8bbc7..094e77e 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -255,6 +255,10 @@ impl<CD: ComponentTraits> Component<CD> {
         lifecycle::set_active(&self.core.state)
     }
 
+    pub(super) fn set_inactive(&self) {
+        lifecycle::set_passive(&self.core.state)
+    }
+
     pub(super) fn set_passive(&self) {
         lifecycle::set_passive(&self.core.state);
         if let Some(ref supervisor) = self.supervisor {
@@ -502,7 +506,12 @@ impl<CD: ComponentTraits> Component<CD> {
                                 lifecycle::ControlEvent::Start => StateTransition::Started,
                                 lifecycle::ControlEvent::Stop => StateTransition::Passive,
                                 lifecycle::ControlEvent::Kill => StateTransition::Destroyed,
-                                _ => StateTransition::Active,
+                                lifecycle::ControlEvent::Poll(_)
+                                    if !lifecycle::is_active(&self.core.state) =>
+                                {
+                                    StateTransition::Inactive
+                                }
+                                lifecycle::ControlEvent::Poll(_) => StateTransition::Active,
                             };
                             guard
                                 .definition
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index b947840..0458806 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -11,6 +11,8 @@ pub(super) enum StateTransition {
     #[default]
     Active,
     Started,
+    /// The component was not running before it blocked and must not run afterwards.
+    Inactive,
     Passive,
     Destroyed,
 }
@@ -256,6 +258,7 @@ where
                             component.set_active();
                             component.notify_started();
                         }
+                        StateTransition::Inactive => component.set_inactive(),
                         StateTransition::Passive => component.set_passive(),
                         StateTransition::Destroyed => component.set_destroyed(),
                     }
-- 
2.43.0


From ec285c94a2ba5c94b007995c39f3894e0f0afd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 09/46] fix: end the threads of faulty dedicated components

---
 core/src/dedicated_scheduler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/dedicated_scheduler.rs b/core/src/dedicated_scheduler.rs
index 016726c..2df11c2 100644
--- a/core/src/dedicated_scheduler.rs
+++ b/core/src/dedicated_scheduler.rs
@@ -101,7 +101,7 @@ impl DedicatedThreadScheduler {
         let backoff = Backoff::new();
         'main: loop {
             let res = c.execute();
-            if c.is_destroyed() || stop.load(Ordering::Relaxed) {
+            if c.is_destroyed() || c.is_faulty() || stop.load(Ordering::Relaxed) {
                 break 'main;
             }
             let park = match res {
-- 
2.43.0


From 0e71920d49f8dae4be89ed9cacd66f04a249b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:34 +0000
Subject: [PATCH 10/46] fix: do not recover or keep components once the
 supervisor has been asked to shut down

---
 core/src/supervision.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index f02282a..3bd32d1 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -214,6 +214,8 @@ pub(crate) struct ComponentSupervisor {
     children: HashMap<Uuid, Arc<dyn CoreContainer>>,
     listeners: HashMap<Uuid, Vec<(ListenEvent, KPromise<()>)>>,
     shutdown: Option<KPromise<()>>,
+    // remains set after the shutdown promise has been completed
+    shutdown_requested: bool,
 }
 
 impl ComponentSupervisor {
@@ -224,6 +226,7 @@ impl ComponentSupervisor {
             children: HashMap::new(),
             listeners: HashMap::new(),
             shutdown: None,
+            shutdown_requested: false,
         }
     }
 
@@ -297,7 +300,7 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                 self.children.insert(id, c.clone());
                 debug!(self.ctx.log(), "Component({}) was started.", id);
                 self.notify_listeners(&id, |l| matches!(l, ListenEvent::Started(_)));
-                if self.shutdown.is_some() {
+                if self.shutdown_requested {
                     warn!(
                         self.ctx.log(),
                         "Child {} just started during shutdown. Killing it immediately!", id
@@ -345,7 +348,7 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                     Some(carc) => drop(carc),
                     None => warn!(self.ctx.log(), "Component({}) faulted during start!.", id),
                 }
-                if self.shutdown.is_none() {
+                if !self.shutdown_requested {
                     recover_handler.recover(self.ctx.context_system(), self.ctx.log());
                 } else {
                     warn!(
@@ -376,6 +379,7 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                         .into_inner()
                         .expect("Someone broke the promise mutex -.-");
                     debug!(self.ctx.log(), "Supervisor got shutdown request.");
+                    self.shutdown_requested = true;
                     if self.children.is_empty() {
                         trace!(self.ctx.log(), "Supervisor has no children!");
                         promise
-- 
2.43.0


From 2f2778b2c0da569bba8edb553c1f73bcacb61a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 11/46] fix: serialise a message that refuses local delivery in
 full

---
 core/src/messaging/net_message.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/src/messaging/net_message.rs b/core/src/messaging/net_message.rs
index cffdf6d..9f1c6a7 100644
--- a/core/src/messaging/net_message.rs
+++ b/core/src/messaging/net_message.rs
@@ -1,5 +1,6 @@
 use super::*;
 use crate::net::SessionId;
+use bytes::BytesMut;
 
 /// An incoming message from the distributed dispatch subsystem
 ///
@@ -485,17 +486,16 @@ impl NetData {
     where
         D: Deserialiser<T>,
     {
-        let NetData { ser_id, data } = self;
-        match data {
-            HeapOrSer::Boxed(boxed_ser) => {
-                let b = boxed_ser.local().map_err(|_| {
-                    UnpackError::DeserError(SerError::unknown(format!(
-                        "Serialisable with id={} can't be converted to local!",
-                        ser_id
-                    )))
-                })?;
-                b.downcast::<T>().map(|b| *b).map_err(UnpackError::NoCast)
-            }
+        match self.data {
+            HeapOrSer::Boxed(boxed_ser) => match boxed_ser.local() {
+                Ok(b) => b.downcast::<T>().map(|b| *b).map_err(UnpackError::NoCast),
+                Err(ser) => {
+                    // can't be reflected, so go via its serialised form instead
+                    let mut buf = BytesMut::with_capacity(ser.size_hint().unwrap_or(0));
+                    ser.serialise(&mut buf).map_err(UnpackError::DeserError)?;
+                    D::deserialise(&mut buf.freeze()).map_err(UnpackError::DeserError)
+                }
+            },
             HeapOrSer::Serialised(mut bytes) => {
                 D::deserialise(&mut bytes).map_err(UnpackError::DeserError)
             }
-- 
2.43.0


From fec3eaada1b5cb60dd2480c96764a8e731092df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 12/46] fix: an interrupted poll doesn't stop the network
 thread

---
 network/src/transport/network_thread.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b743632..2a6e8ac 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -194,9 +194,10 @@ impl NetworkThread {
         trace!(self.log, "NetworkThread starting");
         let mut events = Events::with_capacity(MAX_POLL_EVENTS);
         loop {
-            self.poll
-                .poll(&mut events, self.get_poll_timeout())
-                .expect("Error when calling Poll");
+            match self.poll.poll(&mut events, self.get_poll_timeout()) {
+                Err(err) if interrupted(&err) => continue,
+                result => result.expect("Error when calling Poll"),
+            }
 
             for event in events
                 .iter()
-- 
2.43.0


From b6c22e2b65489ff4493cfae8a652b7a50ec9da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 13/46] fix: a decode buffer always keeps some writeable space

---
 core/src/net/buffers/decode_buffer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index aca9775..35f0c71 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -13,6 +13,9 @@ use crate::net::frames::{
 use bytes::Buf;
 use std::{cmp::Ordering, fmt::Formatter, io};
 
+// Buffers with no more than this many writeable bytes left must be swapped before writing again.
+const MIN_WRITEABLE_LEN: usize = 8;
+
 /// Incremental frame decoder backed by pooled [`BufferChunk`] storage.
 ///
 /// It supports decoding complete frames while the backing buffer is being filled,
@@ -93,7 +96,7 @@ impl DecodeBuffer {
 
     /// True if there is sufficient amount of writeable bytes
     pub(crate) fn is_writeable(&self) -> bool {
-        self.writeable_len() > 8
+        self.writeable_len() > MIN_WRITEABLE_LEN
     }
 
     /// Returns true if there is data to be decoded, else false
@@ -125,7 +128,10 @@ impl DecodeBuffer {
             let overflow_len = overflow_chunk.remaining();
             if overflow_len < self.writeable_len()
                 && self.writeable_len() - overflow_len
-                    > self.buffer_config.encode_buf_min_free_space
+                    > self
+                        .buffer_config
+                        .encode_buf_min_free_space
+                        .max(MIN_WRITEABLE_LEN)
             {
                 // Just copy the overflow_chunk bytes, no need to chain.
                 // the overflow must not exceed the new buffers capacity
-- 
2.43.0


From 0747e99dbc4335912f08d74696217e93ab754e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 14/46] fix: an interrupted system call doesn't lose a
 readiness event

---
 network/src/transport/mod.rs             |  4 ++++
 network/src/transport/network_channel.rs | 16 +++-------------
 network/src/transport/network_thread.rs  | 18 +++++++++++-------
 network/src/transport/udp_state.rs       | 11 -----------
 4 files changed, 18 insertions(+), 31 deletions(-)

diff --git a/network/src/transport/mod.rs b/network/src/transport/mod.rs
index e7f47a8..02eb930 100644
--- a/network/src/transport/mod.rs
+++ b/network/src/transport/mod.rs
@@ -537,6 +537,10 @@ pub(crate) fn connection_reset(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::ConnectionReset
 }
 
+pub(crate) fn connection_aborted(err: &io::Error) -> bool {
+    err.kind() == io::ErrorKind::ConnectionAborted
+}
+
 pub(crate) fn broken_pipe(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::BrokenPipe
 }
diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 47f77ea..935f6f0 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -8,7 +8,6 @@ use crate::{
 };
 use bytes::{Buf, BytesMut};
 use mio::{Token, net::TcpStream};
-use network_thread::*;
 use std::{
     cell::RefCell,
     collections::VecDeque,
@@ -238,7 +237,6 @@ impl TcpChannel {
 
     /// This tries to read from the Tcp buffer into the DecodeBuffer, nothing else.
     fn receive(&mut self) -> io::Result<()> {
-        let mut interrupts = 0;
         loop {
             let buf = self
                 .input_buffer
@@ -254,12 +252,8 @@ impl TcpChannel {
                 Err(err) if would_block(&err) => {
                     return Ok(());
                 }
-                Err(err) if interrupted(&err) => {
-                    interrupts += 1;
-                    if interrupts >= network_thread::MAX_INTERRUPTS {
-                        return Err(err);
-                    }
-                }
+                // The readiness event has been consumed already, so we must continue reading.
+                Err(err) if interrupted(&err) => {}
                 Err(err) => {
                     return Err(err);
                 }
@@ -341,7 +335,6 @@ impl TcpChannel {
     /// Tries to drain the outbound buffer into
     pub fn try_drain(&mut self) -> io::Result<usize> {
         let mut sent_bytes: usize = 0;
-        let mut interrupts = 0;
         while let Some(mut serialized_frame) = self.outbound_queue.pop_front() {
             match self.write_serialized(&serialized_frame) {
                 Ok(n) => {
@@ -376,11 +369,8 @@ impl TcpChannel {
                     return Ok(sent_bytes);
                 }
                 Err(err) if interrupted(&err) => {
+                    // The readiness event has been consumed already, so we must continue writing.
                     self.outbound_queue.push_front(serialized_frame);
-                    interrupts += 1;
-                    if interrupts >= MAX_INTERRUPTS {
-                        return Err(err);
-                    }
                 }
                 Err(err) => {
                     self.outbound_queue.push_front(serialized_frame);
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 2a6e8ac..b1346a4 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -49,8 +49,6 @@ const UDP_SOCKET: Token = Token(1);
 const DISPATCHER: Token = Token(2);
 const START_TOKEN: Token = Token(3);
 const MAX_POLL_EVENTS: usize = 1024;
-/// How many times to retry on interrupt before we give up
-pub const MAX_INTERRUPTS: i32 = 9;
 // We do retries when we fail to bind a socket listener during boot-up:
 const MAX_BIND_RETRIES: usize = 5;
 const BIND_RETRY_INTERVAL: u64 = 1000;
@@ -762,13 +760,20 @@ impl NetworkThread {
     }
 
     fn receive_stream(&mut self) -> io::Result<()> {
-        while let Ok((stream, address)) = self.tcp_listener.accept() {
+        loop {
+            let (stream, address) = match self.tcp_listener.accept() {
+                Ok(accepted) => accepted,
+                Err(err) if would_block(&err) => return Ok(()),
+                // The readiness event has been consumed already, so we must continue accepting.
+                Err(err) if interrupted(&err) || connection_aborted(&err) => continue,
+                Err(err) => return Err(err),
+            };
             if self.block_list.ip_addr_is_blocked(&address.ip()) {
                 trace!(
                     self.log,
                     "Rejecting connection request from blocked source: {}", &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                let _ = stream.shutdown(Shutdown::Both);
             } else if self.check_hard_connection_limit() {
                 warn!(
                     self.log,
@@ -776,7 +781,7 @@ impl NetworkThread {
                 request from {}",
                     &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                let _ = stream.shutdown(Shutdown::Both);
             } else if let Some(buffer) = self.get_buffer() {
                 trace!(self.log, "Accepting connection from {}", &address);
                 self.store_stream(stream, address, ChannelState::Initialising, buffer);
@@ -787,10 +792,9 @@ impl NetworkThread {
                 request from {}",
                     &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                let _ = stream.shutdown(Shutdown::Both);
             }
         }
-        Ok(())
     }
 
     fn store_stream(
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 8ea914a..7193838 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -4,7 +4,6 @@ use crate::{
     net::buffers::{BufferChunk, BufferPool, DecodeBuffer},
 };
 use mio::net::UdpSocket;
-use network_thread::*;
 use std::{cell::RefCell, cmp::min, collections::VecDeque, io, io::Error, net::SocketAddr};
 
 // Note that this is a theoretical IPv4 limit.
@@ -47,7 +46,6 @@ impl UdpState {
 
     pub(super) fn try_write(&mut self) -> io::Result<usize> {
         let mut sent_bytes: usize = 0;
-        let mut interrupts = 0;
         while let Some((addr, mut frame)) = self.outbound_queue.pop_front() {
             frame.make_contiguous();
             match self.socket.send_to(frame.bytes(), addr) {
@@ -64,10 +62,6 @@ impl UdpState {
                 Err(err) if interrupted(&err) => {
                     // re-insert the data at the front of the buffer
                     self.outbound_queue.push_front((addr, frame));
-                    interrupts += 1;
-                    if interrupts >= MAX_INTERRUPTS {
-                        return Err(err);
-                    }
                 }
                 // Other errors we'll consider fatal.
                 Err(err) => {
@@ -93,7 +87,6 @@ impl UdpState {
     }
 
     pub(super) fn try_read(&mut self, buffer_pool: &RefCell<BufferPool>) -> io::Result<()> {
-        let mut interrupts = 0;
         loop {
             if self.input_buffer.writeable_len() < self.max_packet_size {
                 self.swap_buffer(buffer_pool);
@@ -116,10 +109,6 @@ impl UdpState {
                     }
                     Err(err) if interrupted(&err) => {
                         // We should continue trying until no interruption
-                        interrupts += 1;
-                        if interrupts >= network_thread::MAX_INTERRUPTS {
-                            return Err(err);
-                        }
                     }
                     Err(err) => {
                         return Err(err);
-- 
2.43.0


From f8763c9791e4b0b7f356276af95ff57a59022608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 15/46] fix: handshake frames and partially written frames
 aren't re-sent on another connection

---
 network/src/transport/network_channel.rs | 89 ++++++++++++++++--------
 1 file changed, 60 insertions(+), 29 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 935f6f0..0faba6e 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -55,9 +55,18 @@ impl ChannelState {
     }
 }
 
+/// A frame waiting to be written to the stream of a channel.
+struct OutboundFrame {
+    frame: SerialisedFrame,
+    /// Frames of the channel's own protocol are only meaningful for this channel
+    control: bool,
+    /// Some, but not all, of the frame has been written already
+    started: bool,
+}
+
 pub(crate) struct TcpChannel {
     stream: TcpStream,
-    outbound_queue: VecDeque<SerialisedFrame>,
+    outbound_queue: VecDeque<OutboundFrame>,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -115,8 +124,7 @@ impl TcpChannel {
         let mut bytes = BytesMut::with_capacity(len);
         bytes.truncate(len);
         if let Ok(()) = frame.encode_into(&mut bytes) {
-            self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bytes.freeze()));
+            self.enqueue_control(SerialisedFrame::Bytes(bytes.freeze()));
             // If there is a fatal error during a handshake the connection will be re-attempted
             let _ = self.try_drain();
         } else {
@@ -190,14 +198,28 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Takes all frames which can be sent on another channel instead.
+    ///
+    /// A frame which has been written partially remains in the queue.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
-        let mut ret = Vec::new();
-        while let Some(frame) = self.outbound_queue.pop_front() {
-            ret.push(frame);
-        }
+        let started = self
+            .outbound_queue
+            .pop_front_if(|outbound| outbound.started);
+        let ret = self
+            .outbound_queue
+            .drain(..)
+            .filter(|outbound| !outbound.control)
+            .map(|outbound| outbound.frame)
+            .collect();
+        self.outbound_queue.extend(started);
         ret
     }
 
+    /// Returns true if there are frames left which have not been written completely.
+    pub fn has_outbound(&self) -> bool {
+        !self.outbound_queue.is_empty()
+    }
+
     /// Performs receive and decode, should be called repeatedly
     /// May return `Ok(Frame::Data)`, `Ok(Frame::Start)`, `Ok(Frame::Bye)`, or an Error.
     pub fn read_frame(&mut self, buffer_pool: &RefCell<BufferPool>) -> io::Result<Option<Frame>> {
@@ -268,8 +290,7 @@ impl TcpChannel {
         let len = bye.encoded_len() + FRAME_HEAD_LEN as usize;
         bye_bytes.truncate(len);
         if let Ok(()) = bye.encode_into(&mut bye_bytes) {
-            self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bye_bytes.freeze()));
+            self.enqueue_control(SerialisedFrame::Bytes(bye_bytes.freeze()));
             let _ = self.try_drain(); // Try to drain outgoing
         } else {
             panic!("Unable to send bye bytes, failed to encode!");
@@ -329,51 +350,61 @@ impl TcpChannel {
     /// Enqueues the frame for sending on the channel.
     /// Enquing to a non-connected channel is disallowed.
     pub fn enqueue_serialised(&mut self, serialized: SerialisedFrame) {
-        self.outbound_queue.push_back(serialized);
+        self.outbound_queue.push_back(OutboundFrame {
+            frame: serialized,
+            control: false,
+            started: false,
+        });
+    }
+
+    fn enqueue_control(&mut self, frame: SerialisedFrame) {
+        self.outbound_queue.push_back(OutboundFrame {
+            frame,
+            control: true,
+            started: false,
+        });
     }
 
     /// Tries to drain the outbound buffer into
     pub fn try_drain(&mut self) -> io::Result<usize> {
         let mut sent_bytes: usize = 0;
-        while let Some(mut serialized_frame) = self.outbound_queue.pop_front() {
-            match self.write_serialized(&serialized_frame) {
+        while let Some(mut outbound) = self.outbound_queue.pop_front() {
+            match self.write_serialized(&outbound.frame) {
                 Ok(n) => {
                     sent_bytes += n;
-                    match &mut serialized_frame {
-                        // Split the data and continue sending the rest later if we sent less than the full frame
+                    // Discard the already sent part and continue sending the rest later if we sent less than the full frame
+                    let unfinished = match &mut outbound.frame {
                         SerialisedFrame::Bytes(bytes) => {
-                            if n < bytes.len() {
-                                let _ = bytes.split_to(n); // Discard the already sent split off part.
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
+                            bytes.advance(n);
+                            bytes.has_remaining()
                         }
                         SerialisedFrame::ChunkLease(chunk) => {
-                            if n < chunk.remaining() {
-                                chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
+                            chunk.advance(n);
+                            chunk.has_remaining()
                         }
                         SerialisedFrame::ChunkRef(chunk) => {
-                            if n < chunk.remaining() {
-                                chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
+                            chunk.advance(n);
+                            chunk.has_remaining()
                         }
+                    };
+                    if unfinished {
+                        outbound.started = true;
+                        self.outbound_queue.push_front(outbound);
                     }
                     // Continue looping for the next message
                 }
                 // Would block "errors" are the OS's way of saying that the
                 // connection is not actually ready to perform this I/O operation.
                 Err(ref err) if would_block(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Ok(sent_bytes);
                 }
                 Err(err) if interrupted(&err) => {
                     // The readiness event has been consumed already, so we must continue writing.
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                 }
                 Err(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Err(err);
                 }
             }
-- 
2.43.0


From 8dcfaa2c4f5a64b9367919c3045a40ebd259c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 16/46] fix: the end of a connection is noticed, reported once
 and keeps what can be sent again

---
 network/src/transport/mod.rs             |  8 ----
 network/src/transport/network_channel.rs | 12 +++++-
 network/src/transport/network_thread.rs  | 52 ++++++++++++------------
 3 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/network/src/transport/mod.rs b/network/src/transport/mod.rs
index 02eb930..aa2a097 100644
--- a/network/src/transport/mod.rs
+++ b/network/src/transport/mod.rs
@@ -533,18 +533,10 @@ pub(crate) fn no_buffer_space(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::InvalidInput
 }
 
-pub(crate) fn connection_reset(err: &io::Error) -> bool {
-    err.kind() == io::ErrorKind::ConnectionReset
-}
-
 pub(crate) fn connection_aborted(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::ConnectionAborted
 }
 
-pub(crate) fn broken_pipe(err: &io::Error) -> bool {
-    err.kind() == io::ErrorKind::BrokenPipe
-}
-
 pub(crate) fn out_of_buffers(err: &SerError) -> bool {
     err.kind() == SerErrorKind::NoBuffersAvailable
 }
diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 0faba6e..94f3c62 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -74,6 +74,8 @@ pub(crate) struct TcpChannel {
     pub messages: u32,
     own_addr: SocketAddr,
     nodelay: bool,
+    /// The remote host will not send anything any more
+    end_of_stream: bool,
 }
 
 impl TcpChannel {
@@ -97,6 +99,7 @@ impl TcpChannel {
             messages: 0,
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
+            end_of_stream: false,
         }
     }
 
@@ -252,6 +255,9 @@ impl TcpChannel {
                 Ok(Some(Frame::Bye()))
             }
             Ok(frame) => Ok(Some(frame)),
+            Err(FramingError::NoData) if self.end_of_stream => {
+                Err(Error::new(ErrorKind::UnexpectedEof, "End of Stream"))
+            }
             Err(FramingError::NoData) => Ok(None),
             Err(_) => Err(Error::new(ErrorKind::InvalidData, "Framing Error")),
         }
@@ -266,6 +272,7 @@ impl TcpChannel {
                 .ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "No Buffer Space"))?;
             match self.stream.read(buf) {
                 Ok(0) => {
+                    self.end_of_stream = true;
                     return Ok(());
                 }
                 Ok(n) => {
@@ -329,7 +336,10 @@ impl TcpChannel {
     /// Shuts down the channel stream
     pub fn shutdown(&mut self) {
         let _ = self.stream.shutdown(Both); // Discard errors while closing channels for now...
-        if let ChannelState::Connected(addr, id) = self.state {
+        if let ChannelState::Connected(addr, id)
+        | ChannelState::CloseRequested(addr, id)
+        | ChannelState::CloseReceived(addr, id) = self.state
+        {
             self.state = ChannelState::Closed(addr, id);
         }
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b1346a4..80addbe 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -396,22 +396,14 @@ impl NetworkThread {
                         self.retry_event(event);
                         return;
                     }
-                    Err(e) if connection_reset(&e) => {
-                        warn!(
-                            self.log,
-                            "Connection lost, reset by peer {}",
-                            channel.address()
-                        );
-                        self.lost_connection(channel);
-                        return;
-                    }
                     Err(e) => {
                         warn!(
                             self.log,
-                            "Error reading from channel {}: {}",
+                            "Connection lost, error reading from channel {}: {}",
                             channel.address(),
                             &e
                         );
+                        self.lost_connection(channel);
                         return;
                     }
                 }
@@ -443,11 +435,10 @@ impl NetworkThread {
         if let Some(channel_rc) = self.get_channel_by_token(token) {
             let mut channel = channel_rc.borrow_mut();
             match channel.try_drain() {
-                Err(ref err) if broken_pipe(err) => {
-                    self.lost_connection(channel);
-                }
                 Ok(_) => {
-                    if let ChannelState::CloseReceived(addr, id) = channel.state {
+                    if let ChannelState::CloseReceived(addr, id) = channel.state
+                        && !channel.has_outbound()
+                    {
                         channel.state = ChannelState::Closed(addr, id);
                         debug!(self.log, "Connection to {} shutdown gracefully", &addr);
                         self.deregister_channel(channel.deref_mut());
@@ -461,10 +452,11 @@ impl NetworkThread {
                 Err(e) => {
                     warn!(
                         self.log,
-                        "Unhandled error while writing to {}\n{:?}",
+                        "Connection lost, error writing to channel {}: {}",
                         channel.address(),
                         e
                     );
+                    self.lost_connection(channel);
                 }
             }
         }
@@ -892,17 +884,27 @@ impl NetworkThread {
     /// Handles all logic necessary to shutdown a channel for which the connection has been lost.
     fn lost_connection(&mut self, mut channel: RefMut<TcpChannel>) {
         trace!(self.log, "Lost connection to address {}", channel.address());
-        if let Some(id) = channel.session_id() {
-            self.notify_network_status(NetworkStatus::ConnectionLost(
-                SystemPath::with_socket(Transport::Tcp, channel.address()),
-                id,
-            ));
+        match channel.state {
+            ChannelState::Connected(_, id)
+            | ChannelState::CloseRequested(_, id)
+            | ChannelState::CloseReceived(_, id) => {
+                self.notify_network_status(NetworkStatus::ConnectionLost(
+                    SystemPath::with_socket(Transport::Tcp, channel.address()),
+                    id,
+                ));
+                self.reject_outbound_for_channel(&mut channel);
+                if !channel.has_outbound() {
+                    // Try to inform the other end that we're closing the channel
+                    let _ = channel.send_bye();
+                }
+                self.deregister_channel(channel.deref_mut());
+                channel.shutdown();
+            }
+            // The dispatcher was told already, and will ack the closing
+            ChannelState::Closed(_, _) => self.deregister_channel(channel.deref_mut()),
+            // The connection was never established, so the dispatcher doesn't know about it
+            _ => self.drop_channel(channel.deref_mut()),
         }
-        self.reject_outbound_for_channel(&mut channel);
-        // Try to inform the other end that we're closing the channel
-        let _ = channel.send_bye();
-        self.deregister_channel(channel.deref_mut());
-        channel.shutdown();
     }
 
     fn reject_outbound_for_channel(&mut self, channel: &mut TcpChannel) {
-- 
2.43.0


From 741b29d03a76a99aee85ad08e1981513da41c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 17/46] fix: both ends agree which of two crossing connections
 is kept

---
 network/src/transport/network_channel.rs | 32 +++++++++---
 network/src/transport/network_thread.rs  | 63 +++++++++++++++++-------
 2 files changed, 69 insertions(+), 26 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 94f3c62..e95ff1d 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -76,6 +76,8 @@ pub(crate) struct TcpChannel {
     nodelay: bool,
     /// The remote host will not send anything any more
     end_of_stream: bool,
+    /// The connection was requested by this host
+    requested: bool,
 }
 
 impl TcpChannel {
@@ -89,6 +91,7 @@ impl TcpChannel {
         network_config: &NetworkConfig,
     ) -> Self {
         let input_buffer = DecodeBuffer::new(buffer_chunk, network_config.get_buffer_config());
+        let requested = matches!(state, ChannelState::Requested(_, _));
         TcpChannel {
             stream,
             outbound_queue: VecDeque::new(),
@@ -100,6 +103,7 @@ impl TcpChannel {
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
             end_of_stream: false,
+            requested,
         }
     }
 
@@ -121,6 +125,11 @@ impl TcpChannel {
         self.state.session_id()
     }
 
+    /// Returns true if the connection was requested by this host, and false if it was accepted.
+    pub fn requested(&self) -> bool {
+        self.requested
+    }
+
     /// Internal helper function for special frames
     fn send_frame(&mut self, mut frame: Frame) {
         let len = frame.encoded_len() + FRAME_HEAD_LEN as usize;
@@ -136,15 +145,24 @@ impl TcpChannel {
     }
 
     /// Checks the socket for errors and returns the current state
+    ///
+    /// A channel which has been connected keeps its state, its error will be noticed by reading from it.
     pub fn read_state(&mut self) -> &ChannelState {
-        match self.stream.take_error() {
-            Ok(Some(error)) => {
-                self.state = ChannelState::Error(error);
-            }
-            Err(error) => {
-                self.state = ChannelState::Error(error);
+        if matches!(
+            self.state,
+            ChannelState::Requested(_, _)
+                | ChannelState::Initialising
+                | ChannelState::Initialised(_, _)
+        ) {
+            match self.stream.take_error() {
+                Ok(Some(error)) => {
+                    self.state = ChannelState::Error(error);
+                }
+                Err(error) => {
+                    self.state = ChannelState::Error(error);
+                }
+                _ => (), // ignore
             }
-            _ => (), // ignore
         }
         &self.state
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 80addbe..34fb54d 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -608,22 +608,35 @@ impl NetworkThread {
                 self.log,
                 "Merging channels {:?} and {:?}", channel, other_channel
             );
+            let requested = other_channel.requested();
             match other_channel.read_state() {
-                ChannelState::Connected(_, _) => {
-                    if other_channel.messages == 0 {
-                        self.drop_channel(channel);
-                        return;
-                    } else {
-                        self.lost_connection(other_channel);
-                    }
-                }
-                ChannelState::Requested(_, other_id) if other_id.as_u128() > start.id.as_u128() => {
+                ChannelState::Requested(_, other_id) | ChannelState::Initialised(_, other_id)
+                    if other_id.as_u128() > start.id.as_u128() =>
+                {
                     self.drop_channel(channel);
                     return;
                 }
-                ChannelState::Initialised(_, other_id)
-                    if other_id.as_u128() > start.id.as_u128() =>
+                ChannelState::Connected(_, other_id)
+                    if requested && other_id.as_u128() > start.id.as_u128() =>
                 {
+                    // The remote host has already picked the other channel
+                    self.drop_channel(channel);
+                    return;
+                }
+                ChannelState::Connected(_, _)
+                | ChannelState::CloseRequested(_, _)
+                | ChannelState::CloseReceived(_, _) => {
+                    // The remote host has abandoned the other channel. To ensure FIFO ordering the dispatcher
+                    // must ack its loss before there can be a new one, so the remote host has to try again.
+                    self.lost_connection(other_channel);
+                    self.drop_channel(channel);
+                    return;
+                }
+                ChannelState::Closed(_, _) => {
+                    debug!(
+                        self.log,
+                        "Remote host {} connected before ClosedAck was received", start.addr
+                    );
                     self.drop_channel(channel);
                     return;
                 }
@@ -663,10 +676,10 @@ impl NetworkThread {
     fn handle_closed_ack(&mut self, address: SocketAddr) {
         if let Some(channel_rc) = self.get_channel_by_address(&address) {
             let mut channel = channel_rc.borrow_mut();
-            if let ChannelState::Connected(_, _) = channel.state {
-                error!(self.log, "ClosedAck for connected Channel: {:#?}", &channel);
-            } else {
+            if let ChannelState::Closed(_, _) = channel.state {
                 self.drop_channel(&mut channel)
+            } else {
+                error!(self.log, "ClosedAck for open Channel: {:#?}", &channel);
             }
         } else {
             error!(
@@ -708,6 +721,14 @@ impl NetworkThread {
                     );
                     return;
                 }
+                ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _) => {
+                    debug!(
+                        self.log,
+                        "Requested connection to host before the old one was closed {}", &address
+                    );
+                    self.lost_connection(channel);
+                    return;
+                }
                 _ => {
                     self.drop_channel(&mut channel);
                 }
@@ -872,11 +893,15 @@ impl NetworkThread {
     fn close_connection(&mut self, addr: SocketAddr) {
         if let Some(channel) = self.get_channel_by_address(&addr) {
             let mut channel_mut = channel.borrow_mut();
-            if channel_mut.connected() {
-                channel_mut.initiate_graceful_shutdown();
-                self.update_lru(&channel_mut.token);
-            } else {
-                self.drop_channel(channel_mut.deref_mut());
+            match channel_mut.state {
+                ChannelState::Connected(_, _) => {
+                    channel_mut.initiate_graceful_shutdown();
+                    self.update_lru(&channel_mut.token);
+                }
+                ChannelState::CloseRequested(_, _)
+                | ChannelState::CloseReceived(_, _)
+                | ChannelState::Closed(_, _) => (), // closing already
+                _ => self.drop_channel(channel_mut.deref_mut()),
             }
         }
     }
-- 
2.43.0


From f5d63eb67503ab0d315c19b5b1e7bf008b534ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 18/46] fix: messages queue up behind the rejected ones while a
 connection closes

---
 network/src/dispatcher.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index d3ab418..7447253 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -566,6 +566,11 @@ impl NetworkDispatcher {
                 // These are messages which we routed to a network-thread before they lost the connection.
                 self.queue_manager.enqueue_priority_data(*data, addr);
                 self.retry_map.entry(addr).or_insert(0);
+                // The connection is going away, so anything else we send must queue up behind
+                // the rejected messages until the network-thread reports on its new state.
+                if let Some(ConnectionState::Connected(_)) = self.connections.get(&addr) {
+                    self.connections.insert(addr, ConnectionState::Initializing);
+                }
             }
         }
     }
-- 
2.43.0


From 445bc8a7220535687135a5f99fe525024d07d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 19/46] fix: a closing connection rejects its messages in the
 order they were sent

---
 network/src/transport/network_channel.rs | 33 +++++++++++++++++++-----
 network/src/transport/network_thread.rs  | 15 ++++++++---
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index e95ff1d..e31c7f5 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -1,6 +1,6 @@
 use super::*;
 use crate::{
-    messaging::SerialisedFrame,
+    messaging::{DispatchData, SerialisedFrame},
     net::{
         buffers::{BufferChunk, BufferPool, DecodeBuffer},
         frames::{FRAME_HEAD_LEN, Frame, FramingError, Hello, Start},
@@ -67,6 +67,8 @@ struct OutboundFrame {
 pub(crate) struct TcpChannel {
     stream: TcpStream,
     outbound_queue: VecDeque<OutboundFrame>,
+    /// Data which is to be rejected, but not before the data in the `outbound_queue`
+    deferred_rejections: Vec<DispatchData>,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -95,6 +97,7 @@ impl TcpChannel {
         TcpChannel {
             stream,
             outbound_queue: VecDeque::new(),
+            deferred_rejections: Vec::new(),
             token,
             address,
             input_buffer,
@@ -121,6 +124,13 @@ impl TcpChannel {
         matches!(self.state, ChannelState::Connected(_, _))
     }
 
+    pub fn closing(&self) -> bool {
+        matches!(
+            self.state,
+            ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _)
+        )
+    }
+
     pub fn session_id(&self) -> Option<SessionId> {
         self.state.session_id()
     }
@@ -219,10 +229,10 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
-    /// Takes all frames which can be sent on another channel instead.
+    /// Takes all data which can be sent on another channel instead.
     ///
     /// A frame which has been written partially remains in the queue.
-    pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
+    pub fn take_outbound(&mut self) -> Vec<DispatchData> {
         let started = self
             .outbound_queue
             .pop_front_if(|outbound| outbound.started);
@@ -230,15 +240,26 @@ impl TcpChannel {
             .outbound_queue
             .drain(..)
             .filter(|outbound| !outbound.control)
-            .map(|outbound| outbound.frame)
+            .map(|outbound| DispatchData::Serialised(outbound.frame))
+            .chain(self.deferred_rejections.drain(..))
             .collect();
         self.outbound_queue.extend(started);
         ret
     }
 
-    /// Returns true if there are frames left which have not been written completely.
+    /// Keeps `data`, which can't be sent on this channel any more, until `take_outbound` is called.
+    pub fn defer_rejection(&mut self, data: DispatchData) {
+        self.deferred_rejections.push(data);
+    }
+
+    /// Returns true if there is data left which was neither written completely nor taken.
     pub fn has_outbound(&self) -> bool {
-        !self.outbound_queue.is_empty()
+        !self.outbound_queue.is_empty() || !self.deferred_rejections.is_empty()
+    }
+
+    /// Returns true if there are no frames left to be written.
+    pub fn fully_written(&self) -> bool {
+        self.outbound_queue.is_empty()
     }
 
     /// Performs receive and decode, should be called repeatedly
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 34fb54d..3b407f2 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -436,6 +436,9 @@ impl NetworkThread {
             let mut channel = channel_rc.borrow_mut();
             match channel.try_drain() {
                 Ok(_) => {
+                    if channel.fully_written() {
+                        self.reject_outbound_for_channel(&mut channel);
+                    }
                     if let ChannelState::CloseReceived(addr, id) = channel.state
                         && !channel.has_outbound()
                     {
@@ -499,7 +502,13 @@ impl NetworkThread {
                     "Dispatch trying to route to non connected channel {:?}, rejecting the message",
                     channel
                 );
-                self.reject_dispatch_data(address, data);
+                if channel.closing() && channel.has_outbound() {
+                    // The frames of a closing channel may be rejected as well, and must be first then
+                    channel.defer_rejection(data);
+                    self.enqueue_writeable_event(&channel.token);
+                } else {
+                    self.reject_dispatch_data(address, data);
+                }
             }
         } else {
             trace!(
@@ -933,8 +942,8 @@ impl NetworkThread {
     }
 
     fn reject_outbound_for_channel(&mut self, channel: &mut TcpChannel) {
-        for rejected_frame in channel.take_outbound() {
-            self.reject_dispatch_data(channel.address(), DispatchData::Serialised(rejected_frame));
+        for rejected_data in channel.take_outbound() {
+            self.reject_dispatch_data(channel.address(), rejected_data);
         }
     }
 
-- 
2.43.0


From ca8f5276f129c462d1be8214a32f2d190e73068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:48 +0000
Subject: [PATCH 20/46] fix: a malformed frame ends its connection instead of
 the network thread

---
 core/src/net/buffers/decode_buffer.rs |  6 +++
 core/src/net/frames.rs                | 62 ++++++++++++---------------
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 35f0c71..b7f5805 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -196,6 +196,12 @@ impl DecodeBuffer {
         {
             let head = self.next_frame_head.take().unwrap();
             return match head.frame_type() {
+                // Frames without content can't be extracted from the buffer
+                FrameType::Data | FrameType::Hello | FrameType::Start
+                    if head.content_length() == 0 =>
+                {
+                    Err(FramingError::InvalidFrame)
+                }
                 // Frames with empty bodies should be handled in frame-head decoding below.
                 FrameType::Data => Data::decode_from(self.read_chunk_lease(head.content_length()))
                     .map_err(|_| FramingError::InvalidFrame),
diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index eb526b9..a5c0595 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -298,25 +298,30 @@ impl FrameExt for Data {
     }
 }
 
+/// Reads the version, ip, and port of a socket address.
+fn decode_addr(src: &mut ChunkLease) -> Result<SocketAddr, FramingError> {
+    if !src.has_remaining() {
+        return Err(FramingError::InvalidFrame);
+    }
+    match src.get_u8() {
+        4 if src.remaining() >= 4 + 2 => {
+            let ip = Ipv4Addr::from(src.get_u32());
+            let port = src.get_u16();
+            Ok(SocketAddr::new(IpAddr::V4(ip), port))
+        }
+        6 if src.remaining() >= 16 + 2 => {
+            let ip = Ipv6Addr::from(src.get_u128());
+            let port = src.get_u16();
+            Ok(SocketAddr::new(IpAddr::V6(ip), port))
+        }
+        _ => Err(FramingError::InvalidFrame),
+    }
+}
+
 impl FrameExt for Hello {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
-        }
+        let addr = decode_addr(&mut src)?;
+        Ok(Frame::Hello(Hello::new(addr)))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
@@ -350,25 +355,12 @@ impl FrameExt for Hello {
 
 impl FrameExt for Start {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+        let addr = decode_addr(&mut src)?;
+        if src.remaining() < 16 {
+            return Err(FramingError::InvalidFrame);
         }
+        let id = SessionId::from_u128(src.get_u128());
+        Ok(Frame::Start(Start::new(addr, id)))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
-- 
2.43.0


From 1f580438060c298718361392a45321840da59c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 21/46] fix: a message which can't be deserialised is dropped
 instead of ending the network thread

That includes messages from or to the path of a system itself, which has no segments.
---
 core/src/messaging/framing.rs           | 46 +++++++++++++++++--------
 core/src/serialisation/ser_helpers.rs   | 25 ++++++--------
 network/src/transport/network_thread.rs | 15 ++++++--
 3 files changed, 54 insertions(+), 32 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9b8d782..ac5db9d 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -1,7 +1,16 @@
 //! Message framing (serialization and deserialization into and from byte buffers)
 
 use crate::{
-    actors::{ActorPath, NamedPath, SystemField, SystemPath, Transport, UniquePath},
+    actors::{
+        ActorPath,
+        NamedPath,
+        SystemField,
+        SystemPath,
+        Transport,
+        UniquePath,
+        parse_path,
+        validate_lookup_path,
+    },
     messaging::bitfields::{BitField, BitFieldExt},
     serialisation::{Deserialiser, SerError, SerId, Serialisable, serialisation_ids},
 };
@@ -279,6 +288,9 @@ fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) -> () {
 #[inline(always)]
 fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPath), SerError> {
     // Deserialize system path
+    if !buf.has_remaining() {
+        return Err(SerError::invalid_data("Could not get 1 byte for header"));
+    }
     let fields: u8 = buf.get_u8();
     let header = SystemPathHeader::try_from(fields)?;
     let address: IpAddr = match header.address_type {
@@ -308,6 +320,9 @@ fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPa
             unimplemented!();
         }
     };
+    if buf.remaining() < 2 {
+        return Err(SerError::invalid_data("Could not get 2 bytes for port"));
+    }
     let port = buf.get_u16();
     let system_path = SystemPath::new(header.protocol, address, port);
     Ok((header, system_path))
@@ -399,6 +414,11 @@ impl Deserialiser<ActorPath> for ActorPath {
                 }
             }
             PathType::Named => {
+                if buf.remaining() < 2 {
+                    return Err(SerError::invalid_data(
+                        "Could not get 2 bytes for length of path name",
+                    ));
+                }
                 let name_len = buf.get_u16() as usize;
                 if buf.remaining() < name_len {
                     return Err(SerError::invalid_data(format!(
@@ -408,21 +428,17 @@ impl Deserialiser<ActorPath> for ActorPath {
                 } else {
                     let mut name_bytes = vec![0u8; name_len];
                     buf.copy_to_slice(&mut name_bytes);
-                    let name = unsafe {
-                        // Paths are serialised by Kompact itself and transported with the normal
-                        // networking integrity checks in place, so we keep the unchecked decode on
-                        // this hot path.
-                        String::from_utf8_unchecked(name_bytes)
-                    };
-                    let parts: Vec<&str> = name.split('/').collect();
-                    if parts.is_empty() {
-                        return Err(SerError::invalid_data(
-                            "Could not determine name for Named path type",
-                        ));
+                    let name = String::from_utf8(name_bytes)
+                        .map_err(|_| SerError::invalid_data("Path name is not valid UTF-8"))?;
+                    let path = if name.is_empty() {
+                        // The path of the system itself has no segments
+                        Vec::new()
                     } else {
-                        let path = parts.into_iter().map(|s| s.to_string()).collect();
-                        ActorPath::Named(NamedPath::with_system(system_path, path))
-                    }
+                        parse_path(&name)
+                    };
+                    validate_lookup_path(&path)
+                        .map_err(|e| SerError::invalid_data(format!("Illegal path name: {}", e)))?;
+                    ActorPath::Named(NamedPath::with_system(system_path, path))
                 }
             }
         };
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 7120507..2e884c7 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -11,7 +11,7 @@ use crate::{
     },
     serialisation::*,
 };
-use bytes::{Bytes, BytesMut, buf::BufMut};
+use bytes::{Buf, Bytes, BytesMut, buf::BufMut};
 
 /// Creates a new [NetMessage](NetMessage) from the provided fields
 ///
@@ -230,18 +230,20 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
     })
 }
 
+fn try_get_ser_id<B: Buf>(buffer: &mut B) -> Result<SerId, SerError> {
+    if buffer.remaining() < std::mem::size_of::<SerId>() {
+        return Err(SerError::invalid_data("Could not get bytes for SerId"));
+    }
+    Ok(buffer.get_ser_id())
+}
+
 /// Extracts a [NetMessage](NetMessage) from the provided buffer
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
 pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, SerError> {
-    // if buffer.remaining() < 1 {
-    //     return Err(SerError::invalid_data("Not enough bytes available"));
-    // }
-    // gonna fail below anyway
-
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer.into_chunk_ref());
 
@@ -252,14 +254,9 @@ pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, Ser
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
 pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerError> {
-    // if buffer.remaining() < 1 {
-    //     return Err(SerError::invalid_data("Not enough bytes available"));
-    // }
-    // gonna fail below anyway
-
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer);
 
@@ -272,7 +269,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 pub fn deserialise_bytes(mut buffer: Bytes) -> Result<NetMessage, SerError> {
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_bytes(ser_id, src, dst, buffer);
 
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 3b407f2..13e1207 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -557,9 +557,18 @@ impl NetworkThread {
 
     fn handle_data_frame(&self, data: Data, session: SessionId) {
         let buf = data.payload();
-        let mut envelope = deserialise_chunk_lease(buf).expect("s11n errors");
-        envelope.set_session(session);
-        self.deliver_net_message(envelope);
+        match deserialise_chunk_lease(buf) {
+            Ok(mut envelope) => {
+                envelope.set_session(session);
+                self.deliver_net_message(envelope);
+            }
+            Err(e) => {
+                warn!(
+                    self.log,
+                    "Could not deserialise frame of session {:?}, dropping message: {}", session, e
+                );
+            }
+        }
     }
 
     fn deliver_net_message(&self, envelope: NetMessage) {
-- 
2.43.0


From c446820de8657001e31474dbe2e0ceffa3bc66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 22/46] fix: a frame which doesn't fit the state of its channel
 ends the connection instead of the network thread

---
 network/src/transport/network_channel.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index e31c7f5..1380bbb 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -284,6 +284,9 @@ impl TcpChannel {
             };
         }
         match self.decode() {
+            Ok(frame) if !self.expects(&frame) => {
+                Err(Error::new(ErrorKind::InvalidData, "Unexpected Frame"))
+            }
             Ok(Frame::Hello(hello)) => Ok(Some(Frame::Hello(hello))),
             Ok(Frame::Ack()) => {
                 self.handle_ack();
@@ -302,6 +305,17 @@ impl TcpChannel {
         }
     }
 
+    /// Returns true if the remote host may send the `frame` in the current state of the channel.
+    fn expects(&self, frame: &Frame) -> bool {
+        match frame {
+            Frame::Hello(_) => matches!(self.state, ChannelState::Requested(_, _)),
+            Frame::Start(_) => matches!(self.state, ChannelState::Initialising),
+            Frame::Ack() => matches!(self.state, ChannelState::Initialised(_, _)),
+            Frame::Data(_) => self.connected() || self.closing(),
+            Frame::Bye() => true,
+        }
+    }
+
     /// This tries to read from the Tcp buffer into the DecodeBuffer, nothing else.
     fn receive(&mut self) -> io::Result<()> {
         loop {
-- 
2.43.0


From 1f5bbddac612db63a2f9c3ad8e2745592fc672c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 23/46] fix: a datagram which can't be sent or decoded doesn't
 affect the other ones

---
 core/src/net/buffers/decode_buffer.rs |  7 +++++++
 network/src/transport/udp_state.rs    | 11 +++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index b7f5805..50f9b80 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -72,6 +72,13 @@ impl DecodeBuffer {
         self.buffer.len() - self.write_offset
     }
 
+    /// Discards all bytes which have not been decoded yet.
+    pub fn discard_readable(&mut self) -> () {
+        self.read_offset = self.write_offset;
+        self.next_frame_head = None;
+        self.chain_head = None;
+    }
+
     /// Advances the write pointer by `num_bytes`.
     pub fn advance_writeable(&mut self, num_bytes: usize) -> () {
         self.write_offset += num_bytes;
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 7193838..6b9dbcb 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -63,10 +63,12 @@ impl UdpState {
                     // re-insert the data at the front of the buffer
                     self.outbound_queue.push_front((addr, frame));
                 }
-                // Other errors we'll consider fatal.
+                // Sending this frame again would fail again and hold up all the other ones.
                 Err(err) => {
-                    self.outbound_queue.push_front((addr, frame));
-                    return Err(err);
+                    warn!(
+                        self.logger,
+                        "Could not send UDP datagram to {}, dropping message: {}", addr, err
+                    );
                 }
             }
         }
@@ -98,11 +100,12 @@ impl UdpState {
                 match self.socket.recv_from(buf) {
                     Ok((0, addr)) => {
                         debug!(self.logger, "Got empty UDP datagram from {}", addr);
-                        return Ok(());
                     }
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
                         self.decode_message(addr);
+                        // What isn't part of a message mustn't be mistaken for a part of the next one
+                        self.input_buffer.discard_readable();
                     }
                     Err(err) if would_block(&err) => {
                         return Ok(());
-- 
2.43.0


From 8e8a6549e680635b57755d1b32362482a4703803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 24/46] fix: the memory of a message is released only after its
 last lease

A chunk was released to its allocator as soon as the pool or buffer owning it
was dropped, although messages kept by components (or still queued) refer to
it; reading such a message after the system was shut down used freed memory.
---
 core/src/net/buffers/chunk_lease.rs |  6 ++--
 core/src/net/buffers/chunk_ref.rs   |  6 ++--
 core/src/net/buffers/mod.rs         | 55 +++++++++++++++++------------
 3 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index bfc7e9c..4ea5e85 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -1,4 +1,4 @@
-use super::ChunkRef;
+use super::{ChunkLock, ChunkRef};
 use crate::net::frames::FrameHead;
 use bytes::{Buf, BufMut, Bytes, buf::UninitSlice};
 use std::{cmp::Ordering, ptr::NonNull, sync::Arc};
@@ -13,7 +13,7 @@ pub struct ChunkLease {
     write_pointer: usize,
     read_pointer: usize,
     chain_head_len: usize,
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkLease>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ pub struct ChunkLease {
 
 impl ChunkLease {
     /// Creates a new `ChunkLease` from a static byte-slice with already written bytes and a `lock`.
-    pub(crate) fn new(content: &'static mut [u8], lock: Arc<()>) -> ChunkLease {
+    pub(crate) fn new(content: &'static mut [u8], lock: ChunkLock) -> ChunkLease {
         let capacity = content.len();
         let write_pointer = content.len();
         ChunkLease {
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index d8e0d42..ff50c82 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -1,5 +1,5 @@
+use super::ChunkLock;
 use crate::prelude::Buf;
-use std::sync::Arc;
 
 /// A `ChunkRef` is created from a `ChunkLease`, or from a `ChunkRef` and a `ChunkLease`.
 /// It is immutable and may be cloned and shared and chained with many other `ChunkRefs`.
@@ -10,7 +10,7 @@ pub struct ChunkRef {
     chain_head_len: usize,
     /// The presence of the `lock` field prevents the parent chunk lease from unlocking, while the chunk ref is allocated.
     #[allow(dead_code)]
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkRef>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ impl ChunkRef {
         content: &'static [u8],
         read_pointer: usize,
         chain_head_len: usize,
-        lock: Arc<()>,
+        lock: ChunkLock,
         chain: Option<Box<ChunkRef>>,
         chain_len: usize,
     ) -> Self {
diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index 4a07143..9615596 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -2,6 +2,7 @@ use crate::config::{Config, parse_config_file};
 use bytes::Buf;
 use core::fmt;
 use std::{
+    any::Any,
     convert::{TryFrom, TryInto},
     fmt::{Debug, Formatter},
     sync::Arc,
@@ -206,29 +207,42 @@ impl Chunk for DefaultChunk {
 /// All modifications to the Chunk goes through the get_slice method
 pub struct BufferChunk {
     chunk: *mut dyn Chunk,
-    allocator: Arc<dyn ChunkAllocator>,
-    ref_count: Arc<()>,
+    /// Shared with all leases, so that the memory is released only after the last one of them is gone.
+    owner: Arc<ChunkOwner>,
     locked: bool,
 }
 
+/// Releases a chunk to its allocator when it's dropped
+struct ChunkOwner {
+    chunk: *mut dyn Chunk,
+    allocator: Arc<dyn ChunkAllocator>,
+}
+
+impl Drop for ChunkOwner {
+    fn drop(&mut self) {
+        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and nothing refers to
+        // the allocation any more once its owner is dropped.
+        unsafe { self.allocator.release(self.chunk) };
+    }
+}
+
+// SAFETY: a `ChunkOwner` never dereferences the raw pointer, it only hands it back to the allocator.
+unsafe impl Send for ChunkOwner {}
+unsafe impl Sync for ChunkOwner {}
+
+/// Keeps a chunk from being reused or released while it exists
+pub type ChunkLock = Arc<dyn Any + Send + Sync>;
+
 impl Debug for BufferChunk {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("BufferChunk")
             .field("Lock", &self.locked)
             .field("Length", &self.len())
-            .field("RefCount", &Arc::strong_count(&self.ref_count))
+            .field("RefCount", &Arc::strong_count(&self.owner))
             .finish()
     }
 }
 
-impl Drop for BufferChunk {
-    fn drop(&mut self) {
-        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and this `BufferChunk`
-        // owns the allocation uniquely at drop time.
-        unsafe { self.allocator.release(self.chunk) };
-    }
-}
-
 // SAFETY: a `BufferChunk` owns a uniquely referenced allocation plus a lock counter. The raw
 // pointer is only dereferenced behind `&self`/`&mut self`, and the underlying chunk memory is not
 // shared mutably across threads without taking ownership of the whole `BufferChunk`.
@@ -238,20 +252,17 @@ impl BufferChunk {
     /// Allocate a new Default BufferChunk
     pub fn new(size: usize) -> Self {
         let allocator: Arc<dyn ChunkAllocator> = Arc::new(DefaultAllocator { chunk_size: size });
-        BufferChunk {
-            chunk: allocator.get_chunk(),
-            allocator,
-            ref_count: Arc::new(()),
-            locked: false,
-        }
+        BufferChunk::from_chunk(allocator.get_chunk(), allocator)
     }
 
     /// Creates a BufferChunk using the given Chunk
     pub fn from_chunk(raw_chunk: *mut dyn Chunk, allocator: Arc<dyn ChunkAllocator>) -> Self {
         BufferChunk {
             chunk: raw_chunk,
-            allocator,
-            ref_count: Arc::new(()),
+            owner: Arc::new(ChunkOwner {
+                chunk: raw_chunk,
+                allocator,
+            }),
             locked: false,
         }
     }
@@ -300,14 +311,14 @@ impl BufferChunk {
     }
 
     /// Clones the lock, the BufferChunk will be locked until all given locks are deallocated
-    pub fn get_lock(&self) -> Arc<()> {
-        self.ref_count.clone()
+    pub fn get_lock(&self) -> ChunkLock {
+        self.owner.clone()
     }
 
     /// Returns true if this BufferChunk is available again
     pub fn free(&mut self) -> bool {
         if self.locked {
-            if Arc::strong_count(&self.ref_count) < 2 {
+            if Arc::strong_count(&self.owner) < 2 {
                 self.locked = false;
                 true
             } else {
-- 
2.43.0


From 7acca913e54bac2614209cae421737f01b396149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:26 +0000
Subject: [PATCH 25/46] fix: running out of buffers while padding doesn't
 overwrite earlier messages

If the buffer could not be swapped the write offset was set to the front of the
current, still leased buffer, so that the next message serialised into it
overwrote messages which had not been sent yet.
---
 core/src/net/buffers/encode_buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4a4f224..467b775 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -259,10 +259,11 @@ unsafe impl BufMut for BufferEncoder<'_> {
         if remaining < cnt {
             // We need to advance partially, swap, and then advance the rest!
             self.encode_buffer.write_offset += remaining;
-            let _ = self.chain_and_swap().map_err(|err| {
-                self.ser_error = Some(err);
-            });
-            self.encode_buffer.write_offset = cnt - remaining;
+            match self.chain_and_swap() {
+                Ok(()) => self.encode_buffer.write_offset = cnt - remaining,
+                // The current buffer is full and stays so, its content may be in use already.
+                Err(err) => self.ser_error = Some(err),
+            }
         } else {
             self.encode_buffer.write_offset += cnt;
         }
-- 
2.43.0


From 65fe15228d4de90cb685b042660cc78ec5a7fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:33 +0000
Subject: [PATCH 26/46] fix: failing to reserve buffers doesn't shrink the pool

The buffers which had been reclaimed before the pool ran dry were dropped
without lowering pool_size, so that the pool never got them back.
---
 core/src/net/buffers/buffer_pool.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/net/buffers/buffer_pool.rs b/core/src/net/buffers/buffer_pool.rs
index b076b31..c3480c4 100644
--- a/core/src/net/buffers/buffer_pool.rs
+++ b/core/src/net/buffers/buffer_pool.rs
@@ -94,24 +94,26 @@ impl BufferPool {
         }
         // Reclaim and/or allocate all the buffers we will need
         let mut reserved = Vec::new();
+        let mut result = Ok(());
         while required_buffers > 0 {
             // Try to reclaim the number of buffers we require
             if let Some(reclaimed) = self.try_reclaim() {
                 reserved.push(reclaimed);
                 required_buffers -= 1;
             } else {
-                return Err(BufferError::NoAvailableBuffers(format!(
+                result = Err(BufferError::NoAvailableBuffers(format!(
                     "try_reserve failed while reserving {} bytes. \
                     chunk_size: {}, max_pool_size: {}, current pool_size {} ",
                     size, self.chunk_size, self.max_pool_size, self.pool_size
                 )));
+                break;
             }
         }
         for buffer in reserved {
             // Insert the reclaimed buffers in the front.
             self.pool.push_front(buffer);
         }
-        Ok(())
+        result
     }
 
     /// Iterates of returned buffers from oldest to newest trying to reclaim
-- 
2.43.0


From 7acc5b2c835e2fd66e5f7cc83e641a14103adce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 27/46] fix: running out of buffers once doesn't slow the
 network thread down for good

The flag which makes the thread wait for the connection retry interval instead
of handling pending writes at once was never cleared again, so after the first
shortage every message waited for up to that long.
---
 network/src/transport/network_thread.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 13e1207..ea6f5ee 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -196,6 +196,8 @@ impl NetworkThread {
                 Err(err) if interrupted(&err) => continue,
                 result => result.expect("Error when calling Poll"),
             }
+            // Set again by the retried events if there are still no buffers available
+            self.out_of_buffers = false;
 
             for event in events
                 .iter()
@@ -485,7 +487,6 @@ impl NetworkThread {
                         self.enqueue_writeable_event(&channel.token);
                     }
                     Err(e) if out_of_buffers(&e) => {
-                        self.out_of_buffers = true;
                         warn!(
                             self.log,
                             "No network buffers available, dropping outbound message.\
@@ -534,7 +535,6 @@ impl NetworkThread {
                     }
                 }
                 Err(e) if out_of_buffers(&e) => {
-                    self.out_of_buffers = true;
                     warn!(
                         self.log,
                         "No network buffers available, dropping outbound message.\
-- 
2.43.0


From dd68f4ddfeb931ca6611ad42e23d8a18a990bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:07 +0000
Subject: [PATCH 28/46] fix: a connection attempt under way is not dropped by
 another request for it

The remote host may already be sending messages over the connection, which were
lost without notice when it was replaced by another attempt.
---
 network/src/transport/network_channel.rs |  8 ++++++++
 network/src/transport/network_thread.rs  | 15 +++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 1380bbb..650a6a8 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -15,6 +15,7 @@ use std::{
     io,
     io::{Error, ErrorKind, Read, Write},
     net::{Shutdown::Both, SocketAddr},
+    time::{Duration, Instant},
 };
 
 /// Received connection: Initialising -> Say Hello, Receive Start -> Connected, Send Ack
@@ -80,6 +81,7 @@ pub(crate) struct TcpChannel {
     end_of_stream: bool,
     /// The connection was requested by this host
     requested: bool,
+    created: Instant,
 }
 
 impl TcpChannel {
@@ -107,6 +109,7 @@ impl TcpChannel {
             nodelay: network_config.get_tcp_nodelay(),
             end_of_stream: false,
             requested,
+            created: Instant::now(),
         }
     }
 
@@ -140,6 +143,11 @@ impl TcpChannel {
         self.requested
     }
 
+    /// The time which has passed since the channel was created
+    pub fn age(&self) -> Duration {
+        self.created.elapsed()
+    }
+
     /// Internal helper function for special frames
     fn send_frame(&mut self, mut frame: Frame) {
         let len = frame.encoded_len() + FRAME_HEAD_LEN as usize;
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index ea6f5ee..a13e99b 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -747,6 +747,16 @@ impl NetworkThread {
                     self.lost_connection(channel);
                     return;
                 }
+                ChannelState::Requested(_, _) | ChannelState::Initialised(_, _)
+                    if channel.age() < self.min_attempt_duration() =>
+                {
+                    // The remote host may already be using the connection
+                    debug!(
+                        self.log,
+                        "Still waiting for the connection to host {}", &address
+                    );
+                    return;
+                }
                 _ => {
                     self.drop_channel(&mut channel);
                 }
@@ -790,6 +800,11 @@ impl NetworkThread {
         }
     }
 
+    /// How long a connection attempt is left alone when the connection is requested again
+    fn min_attempt_duration(&self) -> Duration {
+        Duration::from_millis(self.network_config.get_connection_retry_interval() / 2)
+    }
+
     fn receive_stream(&mut self) -> io::Result<()> {
         loop {
             let (stream, address) = match self.tcp_listener.accept() {
-- 
2.43.0


From 2f519d0d7814fd872ab28b3dcaf0373dcf07ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 29/46] fix: requesting a connection that is just being closed
 doesn't cut it off

Messages of the remote host which were still on their way were lost. The new
connection is now requested once the old one has been closed.
---
 network/src/transport/network_channel.rs | 15 +++++++++++++++
 network/src/transport/network_thread.rs  | 15 ++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 650a6a8..861a102 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -82,6 +82,10 @@ pub(crate) struct TcpChannel {
     /// The connection was requested by this host
     requested: bool,
     created: Instant,
+    /// When either end asked for the connection to be closed
+    closing_since: Option<Instant>,
+    /// A new connection was requested while this one was closing
+    pub reconnect: bool,
 }
 
 impl TcpChannel {
@@ -110,6 +114,8 @@ impl TcpChannel {
             end_of_stream: false,
             requested,
             created: Instant::now(),
+            closing_since: None,
+            reconnect: false,
         }
     }
 
@@ -148,6 +154,13 @@ impl TcpChannel {
         self.created.elapsed()
     }
 
+    /// The time which has passed since either end asked for the connection to be closed
+    pub fn closing_time(&self) -> Duration {
+        self.closing_since
+            .map(|since| since.elapsed())
+            .unwrap_or_default()
+    }
+
     /// Internal helper function for special frames
     fn send_frame(&mut self, mut frame: Frame) {
         let len = frame.encoded_len() + FRAME_HEAD_LEN as usize;
@@ -376,6 +389,7 @@ impl TcpChannel {
         match self.state {
             ChannelState::Connected(addr, id) => {
                 self.state = ChannelState::CloseReceived(addr, id);
+                self.closing_since = Some(Instant::now());
                 if self.send_bye().is_ok() {
                     self.state = ChannelState::Closed(addr, id);
                 }
@@ -390,6 +404,7 @@ impl TcpChannel {
     pub fn initiate_graceful_shutdown(&mut self) {
         if let ChannelState::Connected(addr, id) = self.state {
             self.state = ChannelState::CloseRequested(addr, id);
+            self.closing_since = Some(Instant::now());
             let _ = self.send_bye();
         }
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index a13e99b..0f28c20 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -695,7 +695,11 @@ impl NetworkThread {
         if let Some(channel_rc) = self.get_channel_by_address(&address) {
             let mut channel = channel_rc.borrow_mut();
             if let ChannelState::Closed(_, _) = channel.state {
-                self.drop_channel(&mut channel)
+                self.drop_channel(&mut channel);
+                if channel.reconnect && !self.block_list.socket_addr_is_blocked(&address) {
+                    drop(channel);
+                    self.request_stream(address);
+                }
             } else {
                 error!(self.log, "ClosedAck for open Channel: {:#?}", &channel);
             }
@@ -737,6 +741,7 @@ impl NetworkThread {
                         self.log,
                         "Requested connection to host before receiving ClosedAck {}", &address
                     );
+                    channel.reconnect = true;
                     return;
                 }
                 ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _) => {
@@ -744,7 +749,11 @@ impl NetworkThread {
                         self.log,
                         "Requested connection to host before the old one was closed {}", &address
                     );
-                    self.lost_connection(channel);
+                    channel.reconnect = true;
+                    // Messages from the remote host may still be on their way
+                    if channel.closing_time() >= self.min_attempt_duration() {
+                        self.lost_connection(channel);
+                    }
                     return;
                 }
                 ChannelState::Requested(_, _) | ChannelState::Initialised(_, _)
@@ -800,7 +809,7 @@ impl NetworkThread {
         }
     }
 
-    /// How long a connection attempt is left alone when the connection is requested again
+    /// How long opening or closing a connection may take before another request for it starts over
     fn min_attempt_duration(&self) -> Duration {
         Duration::from_millis(self.network_config.get_connection_retry_interval() / 2)
     }
-- 
2.43.0


From 87c584393a4860e21bac7c64952dbb2c756654df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 30/46] fix: a close from the other side doesn't cut off what
 is still to be written

When both sides close a connection at the same time, the Bye of the other
side may arrive while a frame is only partially written. The channel counted
as closed at once, and the rest of the frame, everything queued behind it and
our own Bye were never written.
---
 network/src/transport/network_channel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 861a102..3418891 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -394,6 +394,10 @@ impl TcpChannel {
                     self.state = ChannelState::Closed(addr, id);
                 }
             }
+            ChannelState::CloseRequested(addr, id) if self.has_outbound() => {
+                // The rest of a frame and our own Bye still have to be written
+                self.state = ChannelState::CloseReceived(addr, id);
+            }
             ChannelState::CloseRequested(addr, id) => self.state = ChannelState::Closed(addr, id),
             _ => {}
         }
-- 
2.43.0


From e6de273e268ad119921d579a9951d31a0f1a62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:37 +0000
Subject: [PATCH 31/46] fix: allowing a system that was not blocked doesn't cut
 it off

The dispatcher forgot about an established connection, requested a new one,
and kept queueing messages because the network thread had one already.
---
 network/src/dispatcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index 7447253..2339acc 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -542,7 +542,11 @@ impl NetworkDispatcher {
                         .trigger(NetworkStatus::BlockedIpNet(ip_net));
                 }
                 NetworkStatus::AllowedSystem(system_path) => {
-                    self.connections.remove(&system_path.socket_address());
+                    let addr = system_path.socket_address();
+                    // The system need not have been blocked, and may well be connected already
+                    if let Some(ConnectionState::Blocked) = self.connections.get(&addr) {
+                        self.connections.remove(&addr);
+                    }
                     self.network_status_port
                         .trigger(NetworkStatus::AllowedSystem(system_path));
                 }
-- 
2.43.0


From 0a946f76fa70eb77221a767110d536c56071f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:37 +0000
Subject: [PATCH 32/46] fix: blocking an allowed system blocks it, allowing a
 blocked one allows it

Either only undid the other, although the block or allow list had to be
changed as well.
---
 network/src/transport/network_thread.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 0f28c20..1292561 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1287,14 +1287,16 @@ impl BlockList {
 
     /// Returns true if the rule-set has been modified
     fn block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
-        self.allowed_socket_addr.remove(&socket_addr)
-            || self.blocked_socket_addr.insert(socket_addr)
+        let was_allowed = self.allowed_socket_addr.remove(&socket_addr);
+        let newly_blocked = self.blocked_socket_addr.insert(socket_addr);
+        was_allowed || newly_blocked
     }
 
     /// Returns true if the rule-set has been modified
     fn allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
-        self.blocked_socket_addr.remove(socket_addr)
-            || self.allowed_socket_addr.insert(*socket_addr)
+        let was_blocked = self.blocked_socket_addr.remove(socket_addr);
+        let newly_allowed = self.allowed_socket_addr.insert(*socket_addr);
+        was_blocked || newly_allowed
     }
 
     /// Returns true if the IpAddr is fully blocked, i.e. it's Blocked and there's no Allowed SocketAddr with the given IP
-- 
2.43.0


From f327bdb854472d88cea8de6034ec2cd481b7aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:37 +0000
Subject: [PATCH 33/46] fix: blocking an address reports connections that are
 being closed as dropped

Otherwise the end of such a session was never reported.
---
 network/src/transport/network_thread.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 1292561..859619a 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1058,7 +1058,7 @@ impl NetworkThread {
                         "Dropping channel to blocked socket: {:?}", socket_addr
                     );
                     let mut channel = channel_rc.borrow_mut();
-                    if channel.connected() {
+                    if channel.connected() || channel.closing() {
                         self.notify_network_status(NetworkStatus::ConnectionDropped(
                             SystemPath::with_socket(Transport::Tcp, socket_addr),
                         ));
@@ -1124,7 +1124,7 @@ impl NetworkThread {
                     "Dropping channel to blocked socket: {:?}", socket_addr
                 );
                 let mut channel = channel_rc.borrow_mut();
-                if channel.connected() {
+                if channel.connected() || channel.closing() {
                     self.notify_network_status(NetworkStatus::ConnectionDropped(
                         SystemPath::with_socket(Transport::Tcp, socket_addr),
                     ));
-- 
2.43.0


From 384fd12c031e85ddd235bd302c73d772631912ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:49 +0000
Subject: [PATCH 34/46] fix: a connection being closed is not lost to one given
 up by the remote host

When both systems connect at the same time, the remote host may have picked
the connection which is being closed meanwhile (e.g., because of the soft
connection limit). Messages still to be sent over it were lost.
---
 network/src/transport/network_thread.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 859619a..54a5a81 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -635,6 +635,8 @@ impl NetworkThread {
                     return;
                 }
                 ChannelState::Connected(_, other_id)
+                | ChannelState::CloseRequested(_, other_id)
+                | ChannelState::CloseReceived(_, other_id)
                     if requested && other_id.as_u128() > start.id.as_u128() =>
                 {
                     // The remote host has already picked the other channel
-- 
2.43.0


From d624e909af80e17b6a3b21aaf40b0e5e4f811c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:25 +0000
Subject: [PATCH 35/46] fix: routing to a group without members does not panic

---
 core/src/routing/groups.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/src/routing/groups.rs b/core/src/routing/groups.rs
index 0775d09..093ea80 100644
--- a/core/src/routing/groups.rs
+++ b/core/src/routing/groups.rs
@@ -141,6 +141,13 @@ impl Default for RoundRobinRouting {
 }
 impl RoutingPolicy<DynActorRef, NetMessage> for RoundRobinRouting {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            error!(
+                logger,
+                "Dropping message {:?}, because there are no members to route it to!", msg
+            );
+            return;
+        }
         let index = self.get_and_increment_index(members.len());
         trace!(logger, "Routing msg to member at index={}", index);
         members[index].tell(msg);
@@ -242,6 +249,13 @@ impl<H: BuildHasher + Clone + Send + Sync + 'static> RoutingPolicy<DynActorRef,
     for SenderHashBucketRouting<H>
 {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            error!(
+                logger,
+                "Dropping message {:?}, because there are no members to route it to!", msg
+            );
+            return;
+        }
         let index = self.get_bucket(&msg, members.len());
         trace!(
             logger,
-- 
2.43.0


From 0a9c5a0b2484d161b5d6c41726ebc19c05e14567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:52 +0000
Subject: [PATCH 36/46] fix: markers are only accepted as the whole last
 segment of a path

---
 core/src/actors/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 7192ede..1947156 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -719,10 +719,10 @@ pub(crate) fn validate_lookup_path_segment(
     for c in segment.chars() {
         match c {
             PATH_SEP => return Err(PathParseError::IllegalCharacter(PATH_SEP)),
-            BROADCAST_MARKER if !is_last && len == 1 => {
+            BROADCAST_MARKER if !is_last || len > 1 => {
                 return Err(PathParseError::IllegalCharacter(BROADCAST_MARKER));
             }
-            SELECT_MARKER if !is_last && len == 1 => {
+            SELECT_MARKER if !is_last || len > 1 => {
                 return Err(PathParseError::IllegalCharacter(SELECT_MARKER));
             }
             UNIQUE_PATH_SEP => return Err(PathParseError::IllegalCharacter(UNIQUE_PATH_SEP)),
-- 
2.43.0


From efd0c2da516736d0e1882de81378aeff0ce4cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:20 +0000
Subject: [PATCH 37/46] fix: messages of other systems for which there is no
 actor go to the deadletter box

---
 network/src/transport/network_thread.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 54a5a81..5ce1fb4 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -583,21 +583,30 @@ impl NetworkThread {
             LookupResult::None => {
                 warn!(
                     self.log,
-                    "Could not find actor reference for destination: {:?}, dropping message",
+                    "Could not find actor reference for destination: {:?}. Forwarding to DeadletterBox",
                     envelope.receiver
                 );
+                Self::deadletter_net_message(&lease_lookup, envelope);
             }
             LookupResult::Err(e) => {
                 error!(
                     self.log,
-                    "An error occurred during local actor lookup for destination: {:?}, dropping message. The error was: {}",
+                    "An error occurred during local actor lookup for destination: {:?}. Forwarding to DeadletterBox. The error was: {}",
                     envelope.receiver,
                     e
                 );
+                Self::deadletter_net_message(&lease_lookup, envelope);
             }
         }
     }
 
+    fn deadletter_net_message(lookup: &ActorStore, envelope: NetMessage) {
+        // the empty path belongs to the deadletter box
+        if let LookupResult::Ref(deadletter) = lookup.get_by_named_path(&[]) {
+            deadletter.enqueue(envelope);
+        }
+    }
+
     fn handle_hello(&mut self, channel: &mut TcpChannel, hello: &Hello) {
         if self.block_list.socket_addr_is_blocked(&hello.addr) {
             self.drop_channel(channel);
-- 
2.43.0


From f10694770aad84c86d2c388c48148c68b49663fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:31 +0000
Subject: [PATCH 38/46] fix: local futures that keep yielding don't keep
 everything else from running

---
 core/src/component/actual_component.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 094e77e..68ed47a 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -458,7 +458,12 @@ impl<CD: ComponentTraits> Component<CD> {
                 }
 
                 let mut count: usize = 0;
-                while let Some(event) = self.ctrl_queue.pop() {
+                // Leave what is added by these events for later, as futures which are always ready
+                // to be polled again would keep everything else from running otherwise.
+                for _ in 0..self.ctrl_queue.len() {
+                    let Some(event) = self.ctrl_queue.pop() else {
+                        break;
+                    };
                     // ignore max_events for lifecyle events
                     // println!("Executing event: {:?}", event);
                     let res = match event {
@@ -552,6 +557,9 @@ impl<CD: ComponentTraits> Component<CD> {
                     trace!(self.logger, "Not running inactive scheduled.");
                     return self.park(count);
                 }
+                // control events use up nothing of what the others may do
+                let max_events = max_events + count;
+                let max_messages = max_messages + count;
                 // timers have highest priority
                 while count < max_events {
                     let c = &mut guard.definition;
-- 
2.43.0


From 4ced73736e6be6ba89ad612198051c7bef21c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:33 +0000
Subject: [PATCH 39/46] fix: neither messages nor events are starved with a low
 throughput

---
 core/src/component/actual_component.rs | 55 +++++++++++++-------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 68ed47a..36e9a60 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -583,7 +583,8 @@ impl<CD: ComponentTraits> Component<CD> {
                     };
                     check_and_handle_blocking!(self, guard, count, res);
                 }
-                // then some messages
+                // then some messages, but at least one, so they can't be starved
+                let max_messages = max_messages.max(count + 1);
                 while count < max_messages {
                     if let Some(env) = self.msg_queue.pop() {
                         let res = guard.definition.receive(env);
@@ -593,35 +594,33 @@ impl<CD: ComponentTraits> Component<CD> {
                         break;
                     }
                 }
-                // then events
-                let rem_events = max_events.saturating_sub(count);
-                if rem_events > 0 {
-                    let skip = guard.skip;
-                    let res = guard.definition.execute(rem_events, skip);
-                    guard.skip = res.skip;
-                    count += res.count;
-                    if res.shutdown {
-                        return self.shutdown_from_handler(&mut guard);
-                    }
-                    if let Some(error) = res.error {
-                        match self.handle_handler_error(error) {
-                            HandlerErrorOutcome::Continue => (),
-                            HandlerErrorOutcome::Stop(decision) => return decision,
-                        }
-                    }
-                    if res.blocking {
-                        run_blocking!(self, guard, count);
+                // then events, and again at least one
+                let rem_events = max_events.saturating_sub(count).max(1);
+                let skip = guard.skip;
+                let res = guard.definition.execute(rem_events, skip);
+                guard.skip = res.skip;
+                count += res.count;
+                if res.shutdown {
+                    return self.shutdown_from_handler(&mut guard);
+                }
+                if let Some(error) = res.error {
+                    match self.handle_handler_error(error) {
+                        HandlerErrorOutcome::Continue => (),
+                        HandlerErrorOutcome::Stop(decision) => return decision,
                     }
+                }
+                if res.blocking {
+                    run_blocking!(self, guard, count);
+                }
 
-                    // and maybe some more messages
-                    while count < max_events {
-                        if let Some(env) = self.msg_queue.pop() {
-                            let res = guard.definition.receive(env);
-                            count += 1;
-                            check_and_handle_blocking!(self, guard, count, res);
-                        } else {
-                            break;
-                        }
+                // and maybe some more messages
+                while count < max_events {
+                    if let Some(env) = self.msg_queue.pop() {
+                        let res = guard.definition.receive(env);
+                        count += 1;
+                        check_and_handle_blocking!(self, guard, count, res);
+                    } else {
+                        break;
                     }
                 }
                 self.core.decrement_work(count)
-- 
2.43.0


From c26fa3813c0c735bf70843356cf16418697ed08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:18 +0000
Subject: [PATCH 40/46] fix: a port whose events always block or fail doesn't
 starve the other ports

---
 macros/component-definition-derive/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/macros/component-definition-derive/src/lib.rs b/macros/component-definition-derive/src/lib.rs
index cd9713f..5fcdc98 100644
--- a/macros/component-definition-derive/src/lib.rs
+++ b/macros/component-definition-derive/src/lib.rs
@@ -68,6 +68,8 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                 quote! { self.#id.set_parent(self_component.clone()); }
             })
             .collect::<Vec<_>>();
+        // If handling an event ends the execution, the next one continues with the next port,
+        // as the other ports could be starved otherwise.
         let port_handles_skip = ports
             .iter()
             .enumerate()
@@ -90,13 +92,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                     Ok(Handled::Ok) => (),
                                     Ok(Handled::BlockOn(blocking_future)) => {
                                         self.ctx_mut().set_blocking(blocking_future);
-                                        return ExecuteResult::new(true, count, #i);
+                                        return ExecuteResult::new(true, count, #i + 1);
                                     }
                                     Ok(Handled::Shutdown) => {
                                         return ExecuteResult::shutdown(count, #i);
                                     }
                                     Err(error) => {
-                                        return ExecuteResult::error(error, count, #i);
+                                        return ExecuteResult::error(error, count, #i + 1);
                                     }
                                 }
                             }
@@ -126,13 +128,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                 Ok(Handled::Ok) => (),
                                 Ok(Handled::BlockOn(blocking_future)) => {
                                     self.ctx_mut().set_blocking(blocking_future);
-                                    return ExecuteResult::new(true, count, #i);
+                                    return ExecuteResult::new(true, count, #i + 1);
                                 }
                                 Ok(Handled::Shutdown) => {
                                     return ExecuteResult::shutdown(count, #i);
                                 }
                                 Err(error) => {
-                                    return ExecuteResult::error(error, count, #i);
+                                    return ExecuteResult::error(error, count, #i + 1);
                                 }
                             }
                         }
-- 
2.43.0


From e094e3dc03692ac710c47a6a36ade0229b8c8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:18 +0000
Subject: [PATCH 41/46] fix: messages whose handlers always block don't starve
 the events

---
 core/src/component/actual_component.rs | 8 +++++++-
 core/src/component/mod.rs              | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 36e9a60..321808e 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -584,7 +584,12 @@ impl<CD: ComponentTraits> Component<CD> {
                     check_and_handle_blocking!(self, guard, count, res);
                 }
                 // then some messages, but at least one, so they can't be starved
-                let max_messages = max_messages.max(count + 1);
+                let max_messages = if guard.events_first {
+                    count
+                } else {
+                    max_messages.max(count + 1)
+                };
+                guard.events_first = true; // in case we don't get there
                 while count < max_messages {
                     if let Some(env) = self.msg_queue.pop() {
                         let res = guard.definition.receive(env);
@@ -594,6 +599,7 @@ impl<CD: ComponentTraits> Component<CD> {
                         break;
                     }
                 }
+                guard.events_first = false;
                 // then events, and again at least one
                 let rem_events = max_events.saturating_sub(count).max(1);
                 let skip = guard.skip;
diff --git a/core/src/component/mod.rs b/core/src/component/mod.rs
index ed75924..1eaa8de 100644
--- a/core/src/component/mod.rs
+++ b/core/src/component/mod.rs
@@ -427,12 +427,15 @@ impl CoreContainer for FakeCoreContainer {
 pub(crate) struct ComponentMutableCore<C> {
     pub(crate) definition: C,
     skip: usize,
+    /// Handling a message ended the last execution before it got to the events
+    events_first: bool,
 }
 impl<C> ComponentMutableCore<C> {
     fn from(definition: C) -> Self {
         ComponentMutableCore {
             definition,
             skip: 0,
+            events_first: false,
         }
     }
 }
-- 
2.43.0


From aeae098fe704520b49fccd15cfc143fbae56d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:18 +0000
Subject: [PATCH 42/46] fix: a component coming out of blocking doesn't keep
 its thread to itself

---
 core/src/component/mod.rs     | 2 +-
 core/src/runtime/scheduler.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/component/mod.rs b/core/src/component/mod.rs
index 1eaa8de..39fb1ba 100644
--- a/core/src/component/mod.rs
+++ b/core/src/component/mod.rs
@@ -631,7 +631,7 @@ pub enum SchedulingDecision {
     NoWork,
     /// Don't schedule the component, because it is blocked
     Blocked,
-    /// Immediately execute the component again, as it just came out of blocking
+    /// Execute the component again, as it just came out of blocking
     Resume,
 }
 
diff --git a/core/src/runtime/scheduler.rs b/core/src/runtime/scheduler.rs
index ae946f4..1f839e2 100644
--- a/core/src/runtime/scheduler.rs
+++ b/core/src/runtime/scheduler.rs
@@ -117,7 +117,8 @@ impl<E: FuturesExecutor + Sync + 'static> Scheduler for ExecutorScheduler<E> {
 
 fn maybe_reschedule(c: Arc<dyn CoreContainer>) {
     match c.execute() {
-        SchedulingDecision::Schedule => {
+        // even if it could be resumed right here, other components must get their turn as well
+        SchedulingDecision::Schedule | SchedulingDecision::Resume => {
             if cfg!(feature = "use_local_executor") {
                 let res = try_execute_locally(move || maybe_reschedule(c));
                 assert!(
@@ -129,7 +130,6 @@ fn maybe_reschedule(c: Arc<dyn CoreContainer>) {
                 c.system().schedule(c2);
             }
         }
-        SchedulingDecision::Resume => maybe_reschedule(c),
         _ => (),
     }
 }
-- 
2.43.0


From 06f3e7ef35c830311b9c7a56dfc69699ac71a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:12 +0000
Subject: [PATCH 43/46] fix: building a system whose components fault while
 starting doesn't hang

---
 core/src/runtime/system.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/runtime/system.rs b/core/src/runtime/system.rs
index 6d65166..25afee0 100644
--- a/core/src/runtime/system.rs
+++ b/core/src/runtime/system.rs
@@ -1795,8 +1795,9 @@ impl KompactRuntime {
     fn start_internal_components(&self, system: &KompactSystem) -> () {
         match *self.internal_components {
             Some(ref ic) => {
-                ic.start(system);
+                // before the components are started, as any of them may poison the runtime
                 lifecycle::set_active(self.state());
+                ic.start(system);
             }
             None => panic!("KompactRuntime was not properly initialised!"),
         }
-- 
2.43.0


From 26121987924fa92b9e5f111c172d15a23b9add90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:57 +0000
Subject: [PATCH 44/46] fix: shutting a system down from several places at once
 completes all of the calls

---
 core/src/runtime/system.rs | 36 ++++++++++++++++++++++++++++--------
 core/src/supervision.rs    | 18 ++++++++++--------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/core/src/runtime/system.rs b/core/src/runtime/system.rs
index 25afee0..306f72b 100644
--- a/core/src/runtime/system.rs
+++ b/core/src/runtime/system.rs
@@ -33,6 +33,7 @@ use futures::FutureExt;
 use snafu::ResultExt;
 
 const STARTUP_POLL_INTERVAL: Duration = Duration::from_millis(50);
+const SHUTDOWN_POLL_INTERVAL: Duration = Duration::from_millis(50);
 
 /// A Kompact system is a collection of components and services
 ///
@@ -1727,24 +1728,43 @@ impl InternalComponents {
         system: &'a KompactSystem,
     ) -> futures::future::BoxFuture<'a, Result<(), SystemComponentsShutdownError>> {
         async move {
-            let (p, f) = utils::promise();
+            let (p, mut f) = utils::promise();
             self.supervision_port
                 .enqueue(SupervisorMsg::Shutdown(Arc::new(Mutex::new(p))));
-            f.await
-                .boxed()
-                .with_context(|_| system_components_shutdown_error::SourceSnafu {
-                    message: "supervisor shutdown promise was dropped".to_string(),
-                })?;
+            loop {
+                match async_std::future::timeout(SHUTDOWN_POLL_INTERVAL, &mut f).await {
+                    Ok(res) => {
+                        res.boxed()
+                            .with_context(|_| system_components_shutdown_error::SourceSnafu {
+                                message: "supervisor shutdown promise was dropped".to_string(),
+                            })?;
+                        break;
+                    }
+                    // Shut down from somewhere else meanwhile, so the supervisor may never answer.
+                    Err(_timeout) if !system.inner.is_active() => return Ok(()),
+                    Err(_timeout) => continue,
+                }
+            }
             self.system_components.stop_notify(system).await
         }
         .boxed()
     }
 
     fn kill(&self, system: &KompactSystem) -> () {
-        let (p, f) = utils::promise();
+        let (p, mut f) = utils::promise();
         self.supervision_port
             .enqueue(SupervisorMsg::Shutdown(Arc::new(Mutex::new(p))));
-        f.wait();
+        loop {
+            match utils::block_until(SHUTDOWN_POLL_INTERVAL, f) {
+                Ok(res) => {
+                    res.expect("supervisor shutdown promise was dropped");
+                    break;
+                }
+                // Shut down from somewhere else meanwhile, so the supervisor may never answer.
+                Err(_) if !system.inner.is_active() => return,
+                Err(again) => f = again,
+            }
+        }
         self.system_components.kill(system);
     }
 
diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 3bd32d1..30c6f14 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -213,7 +213,8 @@ pub(crate) struct ComponentSupervisor {
     pub(crate) supervision: ProvidedPort<SupervisionPort>,
     children: HashMap<Uuid, Arc<dyn CoreContainer>>,
     listeners: HashMap<Uuid, Vec<(ListenEvent, KPromise<()>)>>,
-    shutdown: Option<KPromise<()>>,
+    // everyone who has requested a shutdown
+    shutdown: Vec<KPromise<()>>,
     // remains set after the shutdown promise has been completed
     shutdown_requested: bool,
 }
@@ -225,7 +226,7 @@ impl ComponentSupervisor {
             supervision: ProvidedPort::uninitialised(),
             children: HashMap::new(),
             listeners: HashMap::new(),
-            shutdown: None,
+            shutdown: Vec::new(),
             shutdown_requested: false,
         }
     }
@@ -250,16 +251,17 @@ impl ComponentSupervisor {
     }
 
     fn shutdown_if_no_more_children(&mut self) {
-        if self.shutdown.is_some() {
+        if !self.shutdown.is_empty() {
             if self.children.is_empty() {
                 debug!(
                     self.ctx.log(),
                     "Last child of the Supervisor is dead or faulty!"
                 );
-                let promise = self.shutdown.take().unwrap();
-                promise
-                    .complete()
-                    .expect("Could not fulfill shutdown promise!");
+                for promise in self.shutdown.drain(..) {
+                    promise
+                        .complete()
+                        .expect("Could not fulfill shutdown promise!");
+                }
                 self.listeners.clear(); // we won't be fulfilling these anyway
             } else {
                 trace!(
@@ -388,7 +390,7 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                         self.listeners.clear(); // we won't be fulfilling these anyway
                     } else {
                         trace!(self.ctx.log(), "Killing {} children.", self.children.len());
-                        self.shutdown = Some(promise);
+                        self.shutdown.push(promise);
                         for child in self.children.values() {
                             child.enqueue_control(ControlEvent::Kill);
                         }
-- 
2.43.0


From 42c6312f4ecccac32ae228e2d1e99172b3af96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:05 +0000
Subject: [PATCH 45/46] fix: building a system whose components fault while
 starting doesn't panic

---
 core/src/default_components.rs | 14 ++++++++------
 core/src/runtime/system.rs     |  3 ++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/default_components.rs b/core/src/default_components.rs
index 62513bb..803f0e8 100644
--- a/core/src/default_components.rs
+++ b/core/src/default_components.rs
@@ -66,9 +66,10 @@ impl SystemComponents for DefaultComponents {
         self.dispatcher.on_definition(|cd| cd.system_path())
     }
 
-    fn start(&self, system: &KompactSystem) -> () {
-        system.start(&self.deadletter_box);
-        system.start(&self.dispatcher);
+    fn start(&self, _system: &KompactSystem) -> () {
+        // without checking the system, as the first may fault and poison it before the second is started
+        self.deadletter_box.enqueue_control(ControlEvent::Start);
+        self.dispatcher.enqueue_control(ControlEvent::Start);
     }
 
     fn stop(&self, system: &KompactSystem) -> () {
@@ -222,9 +223,10 @@ where
         self.dispatcher.on_definition(|cd| cd.system_path())
     }
 
-    fn start(&self, system: &KompactSystem) -> () {
-        system.start(&self.deadletter_box);
-        system.start(&self.dispatcher);
+    fn start(&self, _system: &KompactSystem) -> () {
+        // without checking the system, as the first may fault and poison it before the second is started
+        self.deadletter_box.enqueue_control(ControlEvent::Start);
+        self.dispatcher.enqueue_control(ControlEvent::Start);
     }
 
     fn stop(&self, system: &KompactSystem) -> () {
diff --git a/core/src/runtime/system.rs b/core/src/runtime/system.rs
index 306f72b..99c5a78 100644
--- a/core/src/runtime/system.rs
+++ b/core/src/runtime/system.rs
@@ -1694,7 +1694,8 @@ impl InternalComponents {
 
     fn start(&self, system: &KompactSystem) -> () {
         self.system_components.start(system);
-        system.start(&self.supervisor);
+        // without checking the system, as its components may have poisoned it already
+        self.supervisor.enqueue_control(ControlEvent::Start);
     }
 
     fn deadletter_ref(&self) -> ActorRef<Never> {
-- 
2.43.0


From 62a76b570d64f08a95eb25ddf3344cad3fcfe96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:47 +0000
Subject: [PATCH 46/46] fix: a restarted host can connect again although the
 remote host hasn't noticed that it was gone

---
 network/src/transport/network_channel.rs | 14 +++++++++++++-
 network/src/transport/network_thread.rs  |  8 +++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 3418891..31ec307 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -206,6 +206,14 @@ impl TcpChannel {
         }
     }
 
+    /// Sends something the remote host ignores, so that the connection is lost if the remote host doesn't know it any more.
+    pub fn probe(&mut self) {
+        if self.connected() {
+            let hello = Frame::Hello(Hello::new(self.own_addr));
+            self.send_frame(hello);
+        }
+    }
+
     /// Must be called when a Hello frame is received on the channel.
     pub fn handle_hello(&mut self, hello: &Hello) {
         if let ChannelState::Requested(_, id) = self.state {
@@ -329,7 +337,11 @@ impl TcpChannel {
     /// Returns true if the remote host may send the `frame` in the current state of the channel.
     fn expects(&self, frame: &Frame) -> bool {
         match frame {
-            Frame::Hello(_) => matches!(self.state, ChannelState::Requested(_, _)),
+            Frame::Hello(_) => {
+                matches!(self.state, ChannelState::Requested(_, _))
+                    || self.connected()
+                    || self.closing()
+            }
             Frame::Start(_) => matches!(self.state, ChannelState::Initialising),
             Frame::Ack() => matches!(self.state, ChannelState::Initialised(_, _)),
             Frame::Data(_) => self.connected() || self.closing(),
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 5ce1fb4..49f2996 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -608,6 +608,10 @@ impl NetworkThread {
     }
 
     fn handle_hello(&mut self, channel: &mut TcpChannel, hello: &Hello) {
+        if !matches!(channel.state, ChannelState::Requested(_, _)) {
+            // The remote host only checks whether the connection is still there
+            return;
+        }
         if self.block_list.socket_addr_is_blocked(&hello.addr) {
             self.drop_channel(channel);
         } else {
@@ -648,7 +652,9 @@ impl NetworkThread {
                 | ChannelState::CloseReceived(_, other_id)
                     if requested && other_id.as_u128() > start.id.as_u128() =>
                 {
-                    // The remote host has already picked the other channel
+                    // The remote host has already picked the other channel,
+                    // unless it has been restarted and doesn't know that one any more
+                    other_channel.probe();
                     self.drop_channel(channel);
                     return;
                 }
-- 
2.43.0

