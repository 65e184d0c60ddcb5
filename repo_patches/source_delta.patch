From 2a7a132256a88021c85a81329514a7a3d1bb9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 01/12] hook: model-checking builds (--cfg dam_mc)

---
 src/lib.rs            |  7 ++++++
 src/templates/dram.rs | 50 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 83a5051..bcb37f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,13 @@
 //! In particular, DAM optimizes for complex nodes connected by statically known channels.
 //! For more details, see (paper not yet published).
 
+// Model-checking builds (`--cfg dam_mc`) resolve `std::...` to a drop-in replacement whose threads, locks and atomics
+// run under a controlled scheduler. Has no effect otherwise.
+#[allow(unexpected_cfgs)]
+#[cfg(dam_mc)]
+#[macro_use]
+extern crate dam_mc as std;
+
 pub mod channel;
 pub mod context;
 mod datastructures;
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 8cc57b4..6e91f98 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -289,6 +289,56 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
     }
 }
 
+/// Constructors for the model-checking harness, as the fields are private.
+#[allow(unexpected_cfgs)]
+#[cfg(dam_mc)]
+pub mod mc {
+    use super::*;
+
+    /// A [DRAMConfig] from its parts.
+    pub fn config(
+        num_simultaneous_requests: usize,
+        bandwidth_in_bits: usize,
+        latency: Time,
+        capacity: usize,
+    ) -> DRAMConfig {
+        DRAMConfig {
+            num_simultaneous_requests,
+            bandwidth_in_bits,
+            latency,
+            capacity,
+        }
+    }
+
+    /// A [DRAMReadBundle] from its parts.
+    pub fn read_bundle<IT: Clone, DT: Clone>(
+        addr: Receiver<IT>,
+        req_size: Receiver<IT>,
+        data: Sender<DT>,
+    ) -> DRAMReadBundle<IT, DT> {
+        DRAMReadBundle {
+            addr,
+            req_size,
+            data,
+        }
+    }
+
+    /// A [DRAMWriteBundle] from its parts.
+    pub fn write_bundle<IT: DAMType, DT: DAMType, AT: Clone>(
+        addr: Receiver<IT>,
+        request_size: Receiver<IT>,
+        data: Receiver<DT>,
+        ack: Sender<AT>,
+    ) -> DRAMWriteBundle<IT, DT, AT> {
+        DRAMWriteBundle {
+            addr,
+            request_size,
+            data,
+            ack,
+        }
+    }
+}
+
 #[cfg(test)]
 pub mod tests {
 
-- 
2.43.0


From 8e8972485b4a6a9f5ea6ce81ed169dcadf91d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 02/12] fix: acyclic sender forgets the response consumed while
 waiting for space

wait_until_available consumed a response without recording the slot it
frees, so waiting and then enqueueing waited for a second response.
---
 src/channel/sender/bounded.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index fb39409..8ac08c5 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -34,6 +34,7 @@ impl<T> BoundedProvider for BoundedAcyclicSender<T> {
         }
         match self.bound.resp.recv() {
             Ok(time) => {
+                self.bound.send_receive_delta -= 1;
                 manager.advance(time);
                 Ok(())
             }
-- 
2.43.0


From b2b4934b7d2d03b3aae9a41536199f02dfc310d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 03/12] fix: acyclic peek_next advances to an already peeked
 element

After a peek had seen an element in the future, peek_next returned it
without advancing the caller's clock to its timestamp.
---
 src/channel/receiver/acyclic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/channel/receiver/acyclic.rs b/src/channel/receiver/acyclic.rs
index 577e4cd..2f826db 100644
--- a/src/channel/receiver/acyclic.rs
+++ b/src/channel/receiver/acyclic.rs
@@ -10,7 +10,10 @@ pub(super) trait AcyclicReceiver<T: Clone>: ReceiverCommon<T> {
         match &self.data().head {
             Some(PeekResult::Closed) => return Err(DequeueError::Closed),
             None | Some(PeekResult::Nothing(_)) => {}
-            Some(PeekResult::Something(data)) => return Ok(data.clone()),
+            Some(PeekResult::Something(data)) => {
+                manager.advance(data.time);
+                return Ok(data.clone());
+            }
         }
 
         self.data().head = match self.data().underlying.recv() {
-- 
2.43.0


From b0018bcc6a98873600be1bc481a43a1ff0021ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 04/12] fix: all_events is ready only when every sub-event is
 known

---
 src/channel/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 53fb445..33447d7 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -72,8 +72,16 @@ where
     T: Peekable,
 {
     fn next_event(self) -> EventTime {
-        let events = self.under.map(|thing| thing.next_event());
-        events.max().unwrap_or(EventTime::Closed)
+        let events: Vec<_> = self.under.map(|thing| thing.next_event()).collect();
+        let pending = events
+            .iter()
+            .any(|event| matches!(event, EventTime::Nothing(_)));
+        match events.into_iter().max() {
+            // Some sub-event is still unknown, so the latest known one is only a lower bound.
+            Some(EventTime::Ready(time)) if pending => EventTime::Nothing(time - 1),
+            Some(event) => event,
+            None => EventTime::Closed,
+        }
     }
 }
 
-- 
2.43.0


From d137bd2a7df5cd78c9e63db8e2b1261f1a538156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 05/12] fix: TraceContext accepts elements at time zero

---
 src/utility_contexts/trace_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility_contexts/trace_context.rs b/src/utility_contexts/trace_context.rs
index 318a30e..c1c772d 100644
--- a/src/utility_contexts/trace_context.rs
+++ b/src/utility_contexts/trace_context.rs
@@ -27,7 +27,11 @@ where
     fn run_falliable(&mut self) -> anyhow::Result<()> {
         if let Some(func) = self.iterator.take() {
             for (data, time) in (func)() {
-                self.time.advance(time.into() - 1);
+                // An element stamped with the very first cycle leaves at that cycle.
+                let time = time.into();
+                if time > Time::new(0) {
+                    self.time.advance(time - 1);
+                }
                 self.output
                     .enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, data))?;
                 // Don't need an incr_cycles in case the generator wants to emit multiple values on the same cycle.
-- 
2.43.0


From 17ae2730a745378c33c757d71c56f4b2d93a3fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 06/12] fix: a datastore read never sees a write later than the
 read

---
 src/templates/datastore.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index 3c221e7..bad05e6 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -75,19 +75,17 @@ impl<T: DAMType> Datastore<T> {
         let reader = history.read().unwrap();
         // next_pos holds the location of the first element after the read time.
         let next_pos = reader.iter().position(|elem| elem.time > time);
-        match next_pos {
-            Some(0) | None => match reader.last() {
-                None => {
-                    if self.behavior.use_default_value {
-                        T::default()
-                    } else {
-                        panic!("Attempting to read a value before anything was written!")
-                    }
+        // The visible value is the last one written at or before the read time.
+        let visible = reader[..next_pos.unwrap_or(reader.len())].last();
+        match visible {
+            None => {
+                if self.behavior.use_default_value {
+                    T::default()
+                } else {
+                    panic!("Attempting to read a value before anything was written!")
                 }
-                Some(last_val) => last_val.data.clone(),
-            },
-
-            Some(x) => reader.get(x - 1).unwrap().data.clone(),
+            }
+            Some(value) => value.data.clone(),
         }
     }
 }
-- 
2.43.0


From 48d4885688979f8ea629dc8be15dc60c47ce6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:12 +0000
Subject: [PATCH 07/12] fix: PMU reads wait for writes of the same cycle

---
 src/templates/pmu.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7776c1..88721a1 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -198,11 +198,12 @@ where
         self.readers.push(rd);
     }
 
+    // A write may still happen at the writer's current time, so wait until the writer has moved past ours.
     fn await_writer(&mut self) -> Time {
         self.writer_view
             .as_ref()
             .unwrap()
-            .wait_until(self.time.tick())
+            .wait_until(self.time.tick() + 1)
     }
 }
 
-- 
2.43.0


From 11dcd7bb9b3af070ce39f1b538816327d65e74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:00 +0000
Subject: [PATCH 08/12] fix: PMU declares every dependency between its channels

---
 src/templates/pmu.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 88721a1..ae51ea1 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -75,18 +75,24 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     }
 
     fn edge_connections(&self) -> Option<ExplicitConnections> {
-        let mut result =
-            HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
+        // Each pipeline serves all of its bundles in turn, and reads additionally wait for the write side.
+        let mut reader_srcs = HashSet::<ChannelID>::new();
+        let mut reader_dsts = HashSet::<ChannelID>::new();
+        let mut writer_srcs = HashSet::<ChannelID>::new();
+        let mut writer_dsts = HashSet::<ChannelID>::new();
         for bundle in &self.reader.readers {
-            let srcs = [bundle.addr.id()];
-            let dsts = [bundle.resp.id()];
-            result.insert(self.reader.id(), vec![(srcs.into(), dsts.into())]);
+            reader_srcs.insert(bundle.addr.id());
+            reader_dsts.insert(bundle.resp.id());
         }
         for bundle in &self.writer.writers {
-            let srcs = [bundle.addr.id(), bundle.data.id()];
-            let dsts = [bundle.ack.id()];
-            result.insert(self.writer.id(), vec![(srcs.into(), dsts.into())]);
+            writer_srcs.extend([bundle.addr.id(), bundle.data.id()]);
+            writer_dsts.insert(bundle.ack.id());
         }
+        reader_srcs.extend(&writer_srcs);
+        let mut result =
+            HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
+        result.insert(self.reader.id(), vec![(reader_srcs, reader_dsts)]);
+        result.insert(self.writer.id(), vec![(writer_srcs, writer_dsts)]);
         Some(result)
     }
 
-- 
2.43.0


From 45b689db24640294fd1bf12334eb1f8120176d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 09/12] fix: PMU writer takes a request only once its address
 and data are both known

---
 src/templates/pmu.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index ae51ea1..666f772 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -2,14 +2,13 @@
 //! Unlike the original PMU, this does not support processing within the pipeline, and so all values must be pre-computed before being sent here.
 
 use std::{
-    cmp::max,
     collections::{HashMap, HashSet},
     sync::Arc,
 };
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelID,
     },
     context::{self, Context, ContextSummary, ExplicitConnections, ProxyContext},
@@ -289,7 +288,9 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for WritePipeline<T, IT, AT
                 .writers
                 .iter_mut()
                 .map(|writer: &mut PMUWriteBundle<T, IT, AT>| {
-                    max(writer.addr.next_event(), writer.data.next_event())
+                    [writer.addr.next_event(), writer.data.next_event()]
+                        .all_events()
+                        .next_event()
                 })
                 .collect();
             let next_event = next_events
-- 
2.43.0


From 72676ec7a9e771d0939f2da481c471b759b0a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 10/12] fix: DRAM writes take the configured bandwidth into
 account

---
 src/templates/dram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 6e91f98..d5010ab 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -215,9 +215,9 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
                         );
 
                         // The bandwidth-constrained transfer time
+                        let write_size: usize = write_buffer.iter().map(|x| x.dam_size()).sum();
                         let transfer_time =
-                            u64::try_from(write_buffer.iter().map(|x| x.dam_size()).sum::<usize>())
-                                .unwrap();
+                            u64::try_from(write_size / self.config.bandwidth_in_bits).unwrap();
                         // This is when the write "actually happened"
                         let write_time = transfer_start_time + transfer_time;
                         write_buffer
-- 
2.43.0


From 8a8ac80e321d5bea3034e16a769c9a2f925671d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 11/12] fix: DRAM takes a request only once all its parts are
 known

---
 src/templates/dram.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index d5010ab..68f00ca 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelElement, Receiver, Sender,
     },
     context::Context,
@@ -34,9 +34,8 @@ pub struct DRAMReadBundle<IT: Clone, DT: Clone> {
 impl<IT: DAMType, DT: Clone> Peekable for &DRAMReadBundle<IT, DT> {
     fn next_event(self) -> crate::channel::utils::EventTime {
         [self.addr.next_event(), self.req_size.next_event()]
-            .into_iter()
-            .max()
-            .unwrap()
+            .all_events()
+            .next_event()
     }
 }
 
@@ -55,9 +54,8 @@ impl<IT: DAMType, DT: DAMType, AT: Clone> Peekable for &DRAMWriteBundle<IT, DT,
             self.data.next_event(),
             self.request_size.next_event(),
         ]
-        .into_iter()
-        .max()
-        .unwrap()
+        .all_events()
+        .next_event()
     }
 }
 
-- 
2.43.0


From 6792a657f19a908bef9b07b34d51e35635f5070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:28 +0000
Subject: [PATCH 12/12] hook: DRAM constructors can be left out (--cfg
 dam_mc_plain)

---
 src/templates/dram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 68f00ca..9ff7e2f 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -289,7 +289,7 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
 
 /// Constructors for the model-checking harness, as the fields are private.
 #[allow(unexpected_cfgs)]
-#[cfg(dam_mc)]
+#[cfg(all(dam_mc, not(dam_mc_plain)))]
 pub mod mc {
     use super::*;
 
-- 
2.43.0

