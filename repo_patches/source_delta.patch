From b5c9c2cfc784316cc22d1d8c9a6d16727f0dab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:37 +0000
Subject: [PATCH 01/37] fix: do not append new nodes to a voided processing
 order

After a connection change the ordering is cleared so the next quantum
recomputes it. A node registered in between made the list non-empty again,
so only that node rendered and all others went silent.
---
 src/render/graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 6364f34..1d63038 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -263,7 +263,10 @@ impl Graph {
 
         // add to ordered list (some nodes should be processed even if not connected)
         // if the node is connected later the ordered list will be recomputed
-        self.ordered.push(index);
+        // if the ordering is currently void, leave it as is so all nodes will be visited again
+        if !self.ordered.is_empty() {
+            self.ordered.push(index);
+        }
     }
 
     pub fn add_edge(&mut self, source: (AudioNodeId, usize), dest: (AudioNodeId, usize)) {
-- 
2.43.0


From 4bc3cfb9586d07ed074e4cf1129b45c9da24c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:06 +0000
Subject: [PATCH 02/37] fix: connecting the same ports twice is a no-op

A repeated connect added a second edge in the render graph, doubling the
signal. Only inform the render thread about new connections.
---
 src/context/concrete_base.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index cba7aa9..28e9d0c 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -441,11 +441,11 @@ impl ConcreteBaseAudioContext {
 
     /// Connects the output of the `from` audio node to the input of the `to` audio node
     pub(crate) fn connect(&self, from: AudioNodeId, to: AudioNodeId, output: usize, input: usize) {
-        self.inner
-            .connections
-            .lock()
-            .unwrap()
-            .insert((from, output, to, input));
+        // Keep the lock while sending, so connects and disconnects are not reordered
+        let mut connections = self.inner.connections.lock().unwrap();
+        if !connections.insert((from, output, to, input)) {
+            return; // connecting the same ports again is a no-op
+        }
         let message = ControlMessage::ConnectNode {
             from,
             to,
-- 
2.43.0


From 872ed48c9daf9e09d0963ddb11baebd4b6431b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:42 +0000
Subject: [PATCH 03/37] fix: keep incoming connections of a node when its
 handle is dropped

Dropping the destination handle removed the bookkeeping of connections into
it, so the source could not be disconnected anymore. Clear those entries when
the id is handed out again instead. Also clear the outgoing connections before
the render thread can recycle the id, so a new node never loses its own.
---
 src/context/concrete_base.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 28e9d0c..0a8da42 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -238,6 +238,14 @@ impl ConcreteBaseAudioContext {
     ) -> T {
         // create a unique id for this node
         let id = self.inner.audio_node_id_provider.get();
+
+        // clear the connections administration of a previous node with the same (recycled) id
+        self.inner
+            .connections
+            .lock()
+            .unwrap()
+            .retain(|&(from, _output, to, _input)| from != id && to != id);
+
         let registration = AudioContextRegistration {
             id,
             context: self.clone(),
@@ -334,16 +342,18 @@ impl ConcreteBaseAudioContext {
             return;
         }
 
-        // Inform render thread that the control thread AudioNode no longer has any handles
-        let message = ControlMessage::ControlHandleDropped { id };
-        self.send_control_msg(message);
-
-        // Clear the connection administration for this node, the node id may be recycled later
+        // Clear the outgoing connections administration of this node. The incoming connections
+        // remain in place, the source nodes should still be able to disconnect.
+        // Do this before informing the render thread, because after that the id may be recycled.
         self.inner
             .connections
             .lock()
             .unwrap()
-            .retain(|&(from, _output, to, _input)| from != id && to != id);
+            .retain(|&(from, _output, _to, _input)| from != id);
+
+        // Inform render thread that the control thread AudioNode no longer has any handles
+        let message = ControlMessage::ControlHandleDropped { id };
+        self.send_control_msg(message);
     }
 
     /// Inform render thread that this node can act as a cycle breaker
-- 
2.43.0


From a0032c551145f86383122a93b4927e7b03a824df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:22 +0000
Subject: [PATCH 04/37] fix: discard input and silence output of nodes muted in
 a cycle

Muted nodes are not processed, so their inputs kept accumulating and were
played at once when the cycle was broken. When the destination is part of
the cycle, its last block was repeated forever.
---
 src/render/graph.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 1d63038..02cef7d 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -114,6 +114,15 @@ impl Node {
         false
     }
 
+    /// Reset the inputs, as they will be summed up in the next render quantum
+    fn reset_inputs(&mut self) {
+        self.inputs
+            .iter_mut()
+            .for_each(AudioRenderQuantum::make_silent);
+
+        self.has_inputs_connected = false;
+    }
+
     /// Get the current buffer for AudioParam values
     pub fn get_buffer(&self) -> &AudioRenderQuantum {
         self.outputs.first().unwrap()
@@ -541,13 +550,7 @@ impl Graph {
 
             // Node is not dropped.
             if !can_free {
-                // Reset input buffers as they will be summed up in the next render quantum.
-                node.inputs
-                    .iter_mut()
-                    .for_each(AudioRenderQuantum::make_silent);
-
-                // Reset input state
-                node.has_inputs_connected = false;
+                node.reset_inputs();
             }
 
             drop(node); // release borrow of self.nodes
@@ -589,6 +592,18 @@ impl Graph {
             }
         }
 
+        // Nodes that are muted because they are part of a cycle are not processed, so discard the
+        // input they received and silence their output
+        for index in self.in_cycle.iter() {
+            if let Some(node) = self.nodes.get_mut(*index) {
+                let node = node.get_mut();
+                node.reset_inputs();
+                node.outputs
+                    .iter_mut()
+                    .for_each(AudioRenderQuantum::make_silent);
+            }
+        }
+
         // Return the output buffer of destination node
         &self.nodes.get_unchecked_mut(AudioNodeId(0)).outputs[0]
     }
-- 
2.43.0


From 2c52d0ecc6c4ec1b9cceb1338140a87e9bae43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:52 +0000
Subject: [PATCH 05/37] fix: ignore control messages for nodes that left the
 graph

A node whose processor panicked is removed while its handle is still alive.
Any later change made through that handle crashed the render thread.
---
 src/render/graph.rs           | 49 ++++++++++++++++++++---------------
 src/render/node_collection.rs |  4 +--
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 02cef7d..e25d1ee 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -279,27 +279,30 @@ impl Graph {
     }
 
     pub fn add_edge(&mut self, source: (AudioNodeId, usize), dest: (AudioNodeId, usize)) {
-        self.nodes
-            .get_unchecked_mut(source.0)
-            .outgoing_edges
-            .push(OutgoingEdge {
+        // A node may be gone while its control handle is still alive, if its processor panicked
+        if !self.nodes.contains(dest.0) {
+            return;
+        }
+
+        if let Some(node) = self.nodes.get_mut(source.0) {
+            node.get_mut().outgoing_edges.push(OutgoingEdge {
                 self_index: source.1,
                 other_id: dest.0,
                 other_index: dest.1,
             });
 
-        self.ordered.clear(); // void current ordering
+            self.ordered.clear(); // void current ordering
+        }
     }
 
     pub fn remove_edge(&mut self, source: (AudioNodeId, usize), dest: (AudioNodeId, usize)) {
-        self.nodes
-            .get_unchecked_mut(source.0)
-            .outgoing_edges
-            .retain(|edge| {
+        if let Some(node) = self.nodes.get_mut(source.0) {
+            node.get_mut().outgoing_edges.retain(|edge| {
                 edge.other_id != dest.0 || edge.self_index != source.1 || edge.other_index != dest.1
             });
 
-        self.ordered.clear(); // void current ordering
+            self.ordered.clear(); // void current ordering
+        }
     }
 
     pub fn mark_control_handle_dropped(&mut self, index: AudioNodeId) {
@@ -312,27 +315,31 @@ impl Graph {
     }
 
     pub fn mark_cycle_breaker(&mut self, index: AudioNodeId) {
-        self.nodes.get_unchecked_mut(index).cycle_breaker = true;
+        if let Some(node) = self.nodes.get_mut(index) {
+            node.get_mut().cycle_breaker = true;
+        }
     }
 
     pub fn set_channel_count(&mut self, index: AudioNodeId, v: usize) {
-        self.nodes.get_unchecked_mut(index).channel_config.count = v;
+        if let Some(node) = self.nodes.get_mut(index) {
+            node.get_mut().channel_config.count = v;
+        }
     }
     pub fn set_channel_count_mode(&mut self, index: AudioNodeId, v: ChannelCountMode) {
-        self.nodes
-            .get_unchecked_mut(index)
-            .channel_config
-            .count_mode = v;
+        if let Some(node) = self.nodes.get_mut(index) {
+            node.get_mut().channel_config.count_mode = v;
+        }
     }
     pub fn set_channel_interpretation(&mut self, index: AudioNodeId, v: ChannelInterpretation) {
-        self.nodes
-            .get_unchecked_mut(index)
-            .channel_config
-            .interpretation = v;
+        if let Some(node) = self.nodes.get_mut(index) {
+            node.get_mut().channel_config.interpretation = v;
+        }
     }
 
     pub fn route_message(&mut self, index: AudioNodeId, msg: &mut dyn Any) {
-        self.nodes.get_unchecked_mut(index).processor.onmessage(msg);
+        if let Some(node) = self.nodes.get_mut(index) {
+            node.get_mut().processor.onmessage(msg);
+        }
     }
 
     /// Helper function for `order_nodes` - traverse node and outgoing edges
diff --git a/src/render/node_collection.rs b/src/render/node_collection.rs
index 592eeb7..3f453e8 100644
--- a/src/render/node_collection.rs
+++ b/src/render/node_collection.rs
@@ -67,12 +67,12 @@ impl NodeCollection {
 
     #[inline(always)]
     pub fn contains(&self, index: AudioNodeId) -> bool {
-        self.nodes[index.0 as usize].is_some()
+        matches!(self.nodes.get(index.0 as usize), Some(Some(_)))
     }
 
     #[inline(always)]
     pub fn get_mut(&mut self, index: AudioNodeId) -> Option<&mut RefCell<Node>> {
-        self.nodes[index.0 as usize].as_mut()
+        self.nodes.get_mut(index.0 as usize)?.as_mut()
     }
 
     #[track_caller]
-- 
2.43.0


From 352082d473ec6510417a8cecc93e0c66e67ab079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:37 +0000
Subject: [PATCH 06/37] fix: recycle a node id only after its handle is gone
 and teardown has run

The id of a crashed node was handed out again while the program still held
the old handle, which then controlled an unrelated node. The id was also
published before the teardown callback of the node had run.
---
 src/render/graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index e25d1ee..1c2acba 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -566,9 +566,12 @@ impl Graph {
             if can_free {
                 // Node is dropped, remove it from the node list
                 let mut node = self.nodes.remove(*index).into_inner();
-                self.reclaim_id_channel
-                    .push(node.reclaim_id.take().unwrap());
                 node.processor.before_drop(scope);
+                // Do not recycle the id of a crashed node when its control handle is still alive
+                if node.control_handle_dropped {
+                    self.reclaim_id_channel
+                        .push(node.reclaim_id.take().unwrap());
+                }
                 drop(node);
 
                 // And remove it from the ordering after we have processed all nodes
-- 
2.43.0


From 4a2d039b5947950720dc3bc8e983a2f830eefa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:06 +0000
Subject: [PATCH 07/37] fix: contain panics of message handlers and teardown
 callbacks

Only the process callback was guarded. A panic in a message handler (for
example an empty wave shaper curve) or in a teardown callback terminated the
render thread.
---
 src/render/graph.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 1c2acba..e967e63 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -83,6 +83,22 @@ impl Node {
             .process(&self.inputs[..], &mut self.outputs[..], params, scope)
     }
 
+    /// Pass a message to the processor (catch any panics that may occur)
+    fn onmessage(&mut self, msg: &mut dyn Any) {
+        let catch_me = AssertUnwindSafe(|| self.processor.onmessage(msg));
+        if panic::catch_unwind(catch_me).is_err() {
+            log::error!("Panic occurred in message handler of Audio Processor");
+        }
+    }
+
+    /// Run the teardown of the processor (catch any panics that may occur)
+    fn before_drop(&mut self, scope: &AudioWorkletGlobalScope) {
+        let catch_me = AssertUnwindSafe(|| self.processor.before_drop(scope));
+        if panic::catch_unwind(catch_me).is_err() {
+            log::error!("Panic occurred in teardown of Audio Processor");
+        }
+    }
+
     /// Determine if this node is done playing and can be removed from the audio graph
     fn can_free(&self, tail_time: bool) -> bool {
         // Only drop when the Control thread has dropped its handle.
@@ -338,7 +354,7 @@ impl Graph {
 
     pub fn route_message(&mut self, index: AudioNodeId, msg: &mut dyn Any) {
         if let Some(node) = self.nodes.get_mut(index) {
-            node.get_mut().processor.onmessage(msg);
+            node.get_mut().onmessage(msg);
         }
     }
 
@@ -566,7 +582,7 @@ impl Graph {
             if can_free {
                 // Node is dropped, remove it from the node list
                 let mut node = self.nodes.remove(*index).into_inner();
-                node.processor.before_drop(scope);
+                node.before_drop(scope);
                 // Do not recycle the id of a crashed node when its control handle is still alive
                 if node.control_handle_dropped {
                     self.reclaim_id_channel
@@ -621,7 +637,7 @@ impl Graph {
     pub fn before_drop(&mut self, scope: &AudioWorkletGlobalScope) {
         self.nodes.iter_mut().for_each(|(id, node)| {
             scope.node_id.set(id);
-            node.get_mut().processor.before_drop(scope);
+            node.get_mut().before_drop(scope);
         });
     }
 }
-- 
2.43.0


From 599ff7873393c19f8b207ca331245f600bb0bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:45 +0000
Subject: [PATCH 08/37] fix: stop rendering when suspended or shut down in the
 middle of a buffer

Control messages are handled between the quanta of one output buffer, but the
remaining quanta were rendered regardless. The clock advanced after a suspend
and the render thread crashed when the graph had moved to another sink.
---
 src/render/thread.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/render/thread.rs b/src/render/thread.rs
index c684954..b5041c1 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -485,6 +485,12 @@ impl RenderThread {
         let chunk_size = RENDER_QUANTUM_SIZE * self.number_of_channels;
 
         for data in output_buffer.chunks_mut(chunk_size) {
+            // the control messages handled after the previous chunk may have stopped rendering
+            if self.suspended || !self.graph.as_ref().is_some_and(Graph::is_active) {
+                data.fill(S::from_sample_(0.));
+                continue;
+            }
+
             // update time
             let current_frame = self
                 .frames_played
-- 
2.43.0


From 86ea34ee533b3f59517016f615dcf4eb25dbc771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:35 +0000
Subject: [PATCH 09/37] fix: release pending control messages on sink change
 without deadlock

The pending messages were sent via a function that takes the read lock of the
message channel while the write lock was still held by the same thread. They
also could end up behind newer messages when the context was suspended.
---
 src/context/online.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index a461db9..939fb1b 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -437,12 +437,13 @@ impl AudioContext {
         let message = ControlMessage::Startup { graph };
         ctrl_msg_send.send(message).unwrap();
 
-        // flush the cached msgs
+        // flush the cached msgs, using the locked sender to keep them ahead of any new ones
         pending_msgs
             .into_iter()
-            .for_each(|m| self.base().send_control_msg(m));
+            .for_each(|m| ctrl_msg_send.send(m).unwrap());
 
-        // explicitly release the lock to prevent concurrent render threads
+        // explicitly release the locks to prevent concurrent render threads
+        drop(ctrl_msg_send);
         drop(backend_manager_guard);
 
         // trigger event when all the work is done
-- 
2.43.0


From aa6d678feca395693b5cf0c99c8ead85ea23b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 10/37] fix: keep staged control messages complete and in order

A second suspend request discarded everything staged since the first one, and
while the staged messages were flushed on resume newer ones could overtake.
---
 src/context/concrete_base.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 0a8da42..27fa746 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -299,7 +299,12 @@ impl ConcreteBaseAudioContext {
 
     pub(crate) fn suspend_control_msgs(&self, msg: ControlMessage) {
         let sender = self.inner.render_channel.read().unwrap();
-        *self.inner.suspended_messages.lock().unwrap() = Some(Vec::new());
+        // keep any messages that were already staged by a preceding suspend
+        self.inner
+            .suspended_messages
+            .lock()
+            .unwrap()
+            .get_or_insert_with(Vec::new);
         if sender.send(msg).is_err() {
             log::warn!("Discarding control message - render thread is closed");
         }
@@ -307,13 +312,9 @@ impl ConcreteBaseAudioContext {
 
     pub(crate) fn resume_control_msgs(&self, msg: ControlMessage) {
         let sender = self.inner.render_channel.read().unwrap();
-        let messages = self
-            .inner
-            .suspended_messages
-            .lock()
-            .unwrap()
-            .take()
-            .unwrap_or_default();
+        // hold on to the lock so new messages will not overtake the staged ones
+        let mut suspended_messages = self.inner.suspended_messages.lock().unwrap();
+        let messages = suspended_messages.take().unwrap_or_default();
 
         for msg in messages {
             if sender.send(msg).is_err() {
-- 
2.43.0


From f29a9fb1b1f6e28af2ebbf05da42360caba6bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 11/37] fix: do not park a close request behind a pending
 suspend

The request was staged until the next resume and its caller waited forever.
Flush the staged messages and send it right away.
---
 src/context/online.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index 939fb1b..b76df17 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -624,7 +624,8 @@ impl AudioContext {
             // First, stop rendering via a control message
             let (sender, receiver) = oneshot::channel();
             let notify = OneshotNotify::Async(sender);
-            self.base.send_control_msg(ControlMessage::Close { notify });
+            self.base
+                .resume_control_msgs(ControlMessage::Close { notify });
 
             // Wait for the render thread to have processed the suspend message.
             // The AudioContextState will be updated by the render thread.
@@ -764,7 +765,8 @@ impl AudioContext {
         if self.state() == AudioContextState::Running {
             let (sender, receiver) = crossbeam_channel::bounded(0);
             let notify = OneshotNotify::Sync(sender);
-            self.base.send_control_msg(ControlMessage::Close { notify });
+            self.base
+                .resume_control_msgs(ControlMessage::Close { notify });
 
             // Wait for the render thread to have processed the suspend message.
             // The AudioContextState will be updated by the render thread.
-- 
2.43.0


From 8378e9909069bf2ba32ca88e84ee27211ddc1467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:55 +0000
Subject: [PATCH 12/37] fix: never block the render thread on acknowledging a
 state change

The synchronous suspend, resume and close calls used a rendezvous channel, so
the render thread had to wait until the calling thread was ready to receive.
---
 src/context/online.rs | 6 +++---
 src/message.rs        | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index b76df17..84951d1 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -678,7 +678,7 @@ impl AudioContext {
         }
 
         // Pause rendering via a control message
-        let (sender, receiver) = crossbeam_channel::bounded(0);
+        let (sender, receiver) = crossbeam_channel::bounded(1);
         let notify = OneshotNotify::Sync(sender);
         self.base
             .suspend_control_msgs(ControlMessage::Suspend { notify });
@@ -726,7 +726,7 @@ impl AudioContext {
 
         // Then, ask to resume rendering via a control message
         log::debug!("Resumed audio stream, waking audio graph");
-        let (sender, receiver) = crossbeam_channel::bounded(0);
+        let (sender, receiver) = crossbeam_channel::bounded(1);
         let notify = OneshotNotify::Sync(sender);
         self.base
             .resume_control_msgs(ControlMessage::Resume { notify });
@@ -763,7 +763,7 @@ impl AudioContext {
 
         // First, stop rendering via a control message
         if self.state() == AudioContextState::Running {
-            let (sender, receiver) = crossbeam_channel::bounded(0);
+            let (sender, receiver) = crossbeam_channel::bounded(1);
             let notify = OneshotNotify::Sync(sender);
             self.base
                 .resume_control_msgs(ControlMessage::Close { notify });
diff --git a/src/message.rs b/src/message.rs
index cd766fc..4807704 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -88,7 +88,7 @@ pub(crate) enum ControlMessage {
 
 /// Helper object to emit single notification
 pub(crate) enum OneshotNotify {
-    /// A synchronous oneshot sender
+    /// A synchronous oneshot sender, the channel must have capacity for the notification
     Sync(crossbeam_channel::Sender<()>),
     /// An asynchronous oneshot sender
     Async(futures_channel::oneshot::Sender<()>),
@@ -98,7 +98,8 @@ impl OneshotNotify {
     /// Emit the notification
     pub fn send(self) {
         match self {
-            Self::Sync(s) => s.send(()).ok(),
+            // never block the render thread until the control thread is ready to receive
+            Self::Sync(s) => s.try_send(()).ok(),
             Self::Async(s) => s.send(()).ok(),
         };
     }
-- 
2.43.0


From 43dd3debaeb7b3efb26c1f25c9b452c8c622e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 13/37] fix: do not crash the render thread when diagnostics
 cannot be delivered

---
 src/render/thread.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/render/thread.rs b/src/render/thread.rs
index b5041c1..232674f 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -209,9 +209,12 @@ impl RenderThread {
                     render_thread: self.diagnostics(),
                     graph: self.graph.as_ref().unwrap().diagnostics(),
                 };
-                self.event_sender
-                    .try_send(EventDispatch::diagnostics(diagnostics))
-                    .expect("Unable to send diagnostics - channel is full");
+                let result = self
+                    .event_sender
+                    .try_send(EventDispatch::diagnostics(diagnostics));
+                if result.is_err() {
+                    log::warn!("Unable to send diagnostics - channel is full");
+                }
             }
             Suspend { notify } => {
                 self.suspended = true;
-- 
2.43.0


From 020402dce9927f1538bdaf7fb047ac2ee4794d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:06 +0000
Subject: [PATCH 14/37] fix: a closed context never changes state again

Requests that were in flight when the context closed, or a late resume of an
offline context, could make it report another state and restart rendering.
---
 src/context/concrete_base.rs | 12 +++++++++---
 src/render/thread.rs         | 24 +++++++++++++++++-------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 27fa746..c4fd4c9 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -404,9 +404,15 @@ impl ConcreteBaseAudioContext {
     pub(super) fn set_state(&self, state: AudioContextState) {
         // Only used from OfflineAudioContext or suspended AudioContext, otherwise the state
         // changed are spawned from the render thread
-        let current_state = self.state();
-        if current_state != state {
-            self.inner.state.store(state as u8, Ordering::Release);
+        let result =
+            self.inner
+                .state
+                .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                    // a closed context never changes state again
+                    let closed = current == AudioContextState::Closed as u8;
+                    (!closed && current != state as u8).then_some(state as u8)
+                });
+        if result.is_ok() {
             let _ = self.send_event(EventDispatch::state_change(state));
         }
     }
diff --git a/src/render/thread.rs b/src/render/thread.rs
index 232674f..f0f1658 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -222,8 +222,10 @@ impl RenderThread {
                 notify.send();
             }
             Resume { notify } => {
-                self.suspended = false;
-                self.set_state(AudioContextState::Running);
+                // a closed context cannot be resumed
+                if self.set_state(AudioContextState::Running) {
+                    self.suspended = false;
+                }
                 notify.send();
             }
             Close { notify } => {
@@ -540,11 +542,19 @@ impl RenderThread {
         }
     }
 
-    fn set_state(&self, state: AudioContextState) {
-        self.state.store(state as u8, Ordering::Relaxed);
-        self.event_sender
-            .try_send(EventDispatch::state_change(state))
-            .ok();
+    /// Update the state and emit an event, unless the context is closed already
+    fn set_state(&self, state: AudioContextState) -> bool {
+        let result = self
+            .state
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                (current != AudioContextState::Closed as u8).then_some(state as u8)
+            });
+        if result.is_ok() {
+            self.event_sender
+                .try_send(EventDispatch::state_change(state))
+                .ok();
+        }
+        result.is_ok()
     }
 }
 
-- 
2.43.0


From 0dd29ad1cd573bd12c3d1fb4cc4783a4e258d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:57 +0000
Subject: [PATCH 15/37] fix: do not poison the offline renderer lock on invalid
 calls

A rejected suspend or startRendering call panicked while holding the lock, so
every later call on the same context failed too.
---
 src/context/offline.rs | 79 +++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 40 deletions(-)

diff --git a/src/context/offline.rs b/src/context/offline.rs
index 6cc9c0e..4d1eb16 100644
--- a/src/context/offline.rs
+++ b/src/context/offline.rs
@@ -59,6 +59,23 @@ struct OfflineAudioContextRenderer {
     event_loop: EventLoop,
 }
 
+/// Insert a suspend action in the sorted list, only one is allowed per render quantum
+fn insert_suspend<T>(
+    list: &mut Vec<(usize, T)>,
+    quantum: usize,
+    action: T,
+) -> Result<(), &'static str> {
+    match list.binary_search_by_key(&quantum, |&(q, _)| q) {
+        Ok(_) => {
+            Err("InvalidStateError - cannot suspend multiple times at the same render quantum")
+        }
+        Err(insert_pos) => {
+            list.insert(insert_pos, (quantum, action));
+            Ok(())
+        }
+    }
+}
+
 impl BaseAudioContext for OfflineAudioContext {
     fn base(&self) -> &ConcreteBaseAudioContext {
         &self.base
@@ -155,12 +172,8 @@ impl OfflineAudioContext {
     /// Panics if this method is called multiple times
     #[must_use]
     pub fn start_rendering_sync(&mut self) -> AudioBuffer {
-        let renderer = self
-            .renderer
-            .lock()
-            .unwrap()
-            .take()
-            .expect("InvalidStateError - Cannot call `startRendering` twice");
+        let renderer = self.renderer.lock().unwrap().take();
+        let renderer = renderer.expect("InvalidStateError - Cannot call `startRendering` twice");
 
         let OfflineAudioContextRenderer {
             renderer,
@@ -197,12 +210,8 @@ impl OfflineAudioContext {
     /// Panics if this method is called multiple times.
     pub async fn start_rendering(&self) -> AudioBuffer {
         // We are mixing async with a std Mutex, so be sure not to `await` while the lock is held
-        let renderer = self
-            .renderer
-            .lock()
-            .unwrap()
-            .take()
-            .expect("InvalidStateError - Cannot call `startRendering` twice");
+        let renderer = self.renderer.lock().unwrap().take();
+        let renderer = renderer.expect("InvalidStateError - Cannot call `startRendering` twice");
 
         let OfflineAudioContextRenderer {
             renderer,
@@ -299,20 +308,15 @@ impl OfflineAudioContext {
         // We are mixing async with a std Mutex, so be sure not to `await` while the lock is held
         {
             let mut lock = self.renderer.lock().unwrap();
-            let renderer = lock
+            let result = lock
                 .as_mut()
-                .expect("InvalidStateError - cannot suspend when rendering has already started");
-
-            let insert_pos = renderer
-                .suspend_promises
-                .binary_search_by_key(&quantum, |&(q, _)| q)
-                .expect_err(
-                    "InvalidStateError - cannot suspend multiple times at the same render quantum",
-                );
-
-            renderer
-                .suspend_promises
-                .insert(insert_pos, (quantum, sender));
+                .ok_or("InvalidStateError - cannot suspend when rendering has already started")
+                .and_then(|r| insert_suspend(&mut r.suspend_promises, quantum, sender));
+            drop(lock); // drop the MutexGuard before a panic to avoid poisoning
+
+            if let Err(e) = result {
+                panic!("{e}");
+            }
         } // lock is dropped
 
         receiver.await.unwrap();
@@ -363,27 +367,22 @@ impl OfflineAudioContext {
     ) {
         let quantum = self.calculate_suspend_frame(suspend_time);
 
-        let mut lock = self.renderer.lock().unwrap();
-        let renderer = lock
-            .as_mut()
-            .expect("InvalidStateError - cannot suspend when rendering has already started");
-
-        let insert_pos = renderer
-            .suspend_callbacks
-            .binary_search_by_key(&quantum, |(q, _c)| *q)
-            .expect_err(
-                "InvalidStateError - cannot suspend multiple times at the same render quantum",
-            );
-
         let boxed_callback = Box::new(|ctx: &mut OfflineAudioContext| {
             ctx.base().set_state(AudioContextState::Suspended);
             (callback)(ctx);
             ctx.base().set_state(AudioContextState::Running);
         });
 
-        renderer
-            .suspend_callbacks
-            .insert(insert_pos, (quantum, boxed_callback));
+        let mut lock = self.renderer.lock().unwrap();
+        let result = lock
+            .as_mut()
+            .ok_or("InvalidStateError - cannot suspend when rendering has already started")
+            .and_then(|r| insert_suspend(&mut r.suspend_callbacks, quantum, boxed_callback));
+        drop(lock); // drop the MutexGuard before a panic to avoid poisoning
+
+        if let Err(e) = result {
+            panic!("{e}");
+        }
     }
 
     /// Resumes the progression of the OfflineAudioContext's currentTime when it has been suspended
-- 
2.43.0


From 91013ce7c4aa03e502f8cfb334541e8b0eab68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:18 +0000
Subject: [PATCH 16/37] fix: do not poison the backend lock when the backend
 reports an error

---
 src/context/online.rs | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index 84951d1..6bd9b7e 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -549,11 +549,8 @@ impl AudioContext {
 
         // Then ask the audio host to suspend the stream
         log::debug!("Suspended audio graph. Suspending audio stream..");
-        self.backend_manager
-            .lock()
-            .unwrap()
-            .suspend()
-            .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        let result = self.backend_manager.lock().unwrap().suspend(); // releases the lock
+        result.unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
 
         log::debug!("Suspended audio stream");
     }
@@ -581,9 +578,10 @@ impl AudioContext {
             }
 
             // Ask the audio host to resume the stream
-            backend_manager_guard
-                .resume()
-                .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+            if let Err(e) = backend_manager_guard.resume() {
+                drop(backend_manager_guard); // release the lock before a panic to avoid poisoning
+                panic!("InvalidStateError - {e}");
+            }
 
             // Then, ask to resume rendering via a control message
             log::debug!("Resumed audio stream, waking audio graph");
@@ -638,11 +636,8 @@ impl AudioContext {
 
         // Then ask the audio host to close the stream
         log::debug!("Suspended audio graph. Closing audio stream..");
-        self.backend_manager
-            .lock()
-            .unwrap()
-            .close()
-            .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        let result = self.backend_manager.lock().unwrap().close(); // releases the lock
+        result.unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
 
         log::debug!("Closed audio stream");
     }
@@ -690,9 +685,9 @@ impl AudioContext {
 
         // Then ask the audio host to suspend the stream
         log::debug!("Suspended audio graph. Suspending audio stream..");
-        backend_manager_guard
-            .suspend()
-            .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        let result = backend_manager_guard.suspend();
+        drop(backend_manager_guard); // release the lock before a panic to avoid poisoning
+        result.unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
 
         log::debug!("Suspended audio stream");
     }
@@ -720,9 +715,10 @@ impl AudioContext {
         }
 
         // Ask the audio host to resume the stream
-        backend_manager_guard
-            .resume()
-            .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        if let Err(e) = backend_manager_guard.resume() {
+            drop(backend_manager_guard); // release the lock before a panic to avoid poisoning
+            panic!("InvalidStateError - {e}");
+        }
 
         // Then, ask to resume rendering via a control message
         log::debug!("Resumed audio stream, waking audio graph");
@@ -779,9 +775,9 @@ impl AudioContext {
 
         // Then ask the audio host to close the stream
         log::debug!("Suspended audio graph. Closing audio stream..");
-        backend_manager_guard
-            .close()
-            .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        let result = backend_manager_guard.close();
+        drop(backend_manager_guard); // release the lock before a panic to avoid poisoning
+        result.unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
 
         log::debug!("Closed audio stream");
     }
-- 
2.43.0


From d31506bf82a082515aef4b342ad5969df34fe4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:48 +0000
Subject: [PATCH 17/37] fix: do not deallocate the previous HRTF state on the
 render thread

---
 src/node/panner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index 3cc7f0f..2c8e5a1 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -913,7 +913,8 @@ impl AudioProcessor for PannerRenderer {
                 ControlMessage::ConeInnerAngle(value) => self.cone_inner_angle = *value,
                 ControlMessage::ConeOuterAngle(value) => self.cone_outer_angle = *value,
                 ControlMessage::ConeOuterGain(value) => self.cone_outer_gain = *value,
-                ControlMessage::PanningModel(value) => self.hrtf_state = value.take(),
+                // swap, so the previous state is deallocated outside the render thread
+                ControlMessage::PanningModel(value) => std::mem::swap(&mut self.hrtf_state, value),
             }
 
             return;
-- 
2.43.0


From 7a1b3c4351a522816cf3d050a1a13baf724cd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:04 +0000
Subject: [PATCH 18/37] fix: apply a-rate automation of the panner position and
 orientation

---
 src/node/panner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index 2c8e5a1..91462f2 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -831,7 +831,13 @@ impl AudioProcessor for PannerRenderer {
             // EqualPower panning
 
             // Optimize for static Panner & Listener
-            let single_valued = listener_position_x.len() == 1
+            let single_valued = source_position_x.len() == 1
+                && source_position_y.len() == 1
+                && source_position_z.len() == 1
+                && source_orientation_x.len() == 1
+                && source_orientation_y.len() == 1
+                && source_orientation_z.len() == 1
+                && listener_position_x.len() == 1
                 && listener_position_y.len() == 1
                 && listener_position_z.len() == 1
                 && listener_forward_x.len() == 1
-- 
2.43.0


From 54520eaa2357aa5adff6239c37a50e200007615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:42 +0000
Subject: [PATCH 19/37] fix: respect event handler changes made while the
 handler is running

---
 src/events.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/events.rs b/src/events.rs
index 069e9f3..9e81eee 100644
--- a/src/events.rs
+++ b/src/events.rs
@@ -169,6 +169,8 @@ impl EventDispatch {
 pub(crate) enum EventHandler {
     Once(Box<dyn FnOnce(EventPayload) + Send + 'static>),
     Multiple(Box<dyn FnMut(EventPayload) + Send + 'static>),
+    /// Placeholder for a `Multiple` handler that is currently being invoked
+    Running,
 }
 
 #[derive(Clone)]
@@ -204,20 +206,28 @@ impl EventLoop {
         }
 
         let mut event_handler_lock = self.event_handlers.lock().unwrap();
-        let callback_option = event_handler_lock.remove(&event.type_);
+        let callback_option = match event_handler_lock.get_mut(&event.type_) {
+            Some(slot @ EventHandler::Multiple(_)) => {
+                Some(std::mem::replace(slot, EventHandler::Running))
+            }
+            Some(EventHandler::Once(_)) => event_handler_lock.remove(&event.type_),
+            Some(EventHandler::Running) | None => None,
+        };
         drop(event_handler_lock); // release Mutex while running callback
 
-        if let Some(callback) = callback_option {
-            match callback {
-                EventHandler::Once(f) => (f)(event.payload),
-                EventHandler::Multiple(mut f) => {
-                    (f)(event.payload);
-                    self.event_handlers
-                        .lock()
-                        .unwrap()
-                        .insert(event.type_, EventHandler::Multiple(f));
+        match callback_option {
+            Some(EventHandler::Once(f)) => (f)(event.payload),
+            Some(EventHandler::Multiple(mut f)) => {
+                (f)(event.payload);
+
+                // put the handler back, unless it was replaced or cleared in the meantime
+                let mut event_handler_lock = self.event_handlers.lock().unwrap();
+                if let Some(slot @ EventHandler::Running) = event_handler_lock.get_mut(&event.type_)
+                {
+                    *slot = EventHandler::Multiple(f);
                 }
-            };
+            }
+            Some(EventHandler::Running) | None => (),
         }
 
         result
@@ -255,10 +265,12 @@ impl EventLoop {
     }
 
     pub fn set_handler(&self, event: EventType, callback: EventHandler) {
-        self.event_handlers.lock().unwrap().insert(event, callback);
+        let previous = self.event_handlers.lock().unwrap().insert(event, callback);
+        drop(previous); // after releasing the Mutex, it may own objects with Drop glue
     }
 
     pub fn clear_handler(&self, event: EventType) {
-        self.event_handlers.lock().unwrap().remove(&event);
+        let previous = self.event_handlers.lock().unwrap().remove(&event);
+        drop(previous); // after releasing the Mutex, it may own objects with Drop glue
     }
 }
-- 
2.43.0


From 67eccfcf133708600a880823caf060819acea159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:06 +0000
Subject: [PATCH 20/37] fix: do not run or drop recorder callbacks while
 holding their lock

---
 src/media_recorder/mod.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/media_recorder/mod.rs b/src/media_recorder/mod.rs
index 016573e..ee49055 100644
--- a/src/media_recorder/mod.rs
+++ b/src/media_recorder/mod.rs
@@ -83,7 +83,9 @@ impl MediaRecorderInner {
     fn handle_error(&self, error: Box<dyn Error + Send + Sync>) {
         self.flush();
 
-        if let Some(f) = self.error_callback.lock().unwrap().take() {
+        // release the Mutex while running the callback
+        let callback = self.error_callback.lock().unwrap().take();
+        if let Some(f) = callback {
             (f)(ErrorEvent {
                 message: error.to_string(),
                 error: Box::new(error),
@@ -124,7 +126,9 @@ impl MediaRecorderInner {
     fn stop(&self) {
         self.active.store(false, Ordering::SeqCst);
 
-        if let Some(f) = self.stop_callback.lock().unwrap().take() {
+        // release the Mutex while running the callback
+        let callback = self.stop_callback.lock().unwrap().take();
+        if let Some(f) = callback {
             (f)(Event { type_: "StopEvent" })
         }
     }
@@ -216,32 +220,46 @@ impl MediaRecorder {
 
     #[allow(clippy::missing_panics_doc)]
     pub fn set_ondataavailable<F: FnMut(BlobEvent) + Send + 'static>(&self, callback: F) {
-        *self.inner.data_available_callback.lock().unwrap() = Some(Box::new(callback));
+        let callback = Box::new(callback);
+        let previous = self
+            .inner
+            .data_available_callback
+            .lock()
+            .unwrap()
+            .replace(callback);
+        drop(previous); // after releasing the Mutex
     }
 
     #[allow(clippy::missing_panics_doc)]
     pub fn clear_ondataavailable(&self) {
-        *self.inner.data_available_callback.lock().unwrap() = None;
+        let previous = self.inner.data_available_callback.lock().unwrap().take();
+        drop(previous); // after releasing the Mutex
     }
 
     #[allow(clippy::missing_panics_doc)]
     pub fn set_onstop<F: FnOnce(Event) + Send + 'static>(&self, callback: F) {
-        *self.inner.stop_callback.lock().unwrap() = Some(Box::new(callback));
+        let callback = Box::new(callback);
+        let previous = self.inner.stop_callback.lock().unwrap().replace(callback);
+        drop(previous); // after releasing the Mutex
     }
 
     #[allow(clippy::missing_panics_doc)]
     pub fn clear_onstop(&self) {
-        *self.inner.stop_callback.lock().unwrap() = None;
+        let previous = self.inner.stop_callback.lock().unwrap().take();
+        drop(previous); // after releasing the Mutex
     }
 
     #[allow(clippy::missing_panics_doc)]
     pub fn set_onerror<F: FnOnce(ErrorEvent) + Send + 'static>(&self, callback: F) {
-        *self.inner.error_callback.lock().unwrap() = Some(Box::new(callback));
+        let callback = Box::new(callback);
+        let previous = self.inner.error_callback.lock().unwrap().replace(callback);
+        drop(previous); // after releasing the Mutex
     }
 
     #[allow(clippy::missing_panics_doc)]
     pub fn clear_onerror(&self) {
-        *self.inner.error_callback.lock().unwrap() = None;
+        let previous = self.inner.error_callback.lock().unwrap().take();
+        drop(previous); // after releasing the Mutex
     }
 
     /// Begin recording media
-- 
2.43.0


From 8f16a70b50d2827e33b455754441c87256ea10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:59 +0000
Subject: [PATCH 21/37] fix: stop render capacity collection without waiting
 for its thread

---
 src/capacity.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/capacity.rs b/src/capacity.rs
index bdc9726..04fb5b8 100644
--- a/src/capacity.rs
+++ b/src/capacity.rs
@@ -1,4 +1,4 @@
-use crossbeam_channel::Sender;
+use crossbeam_channel::{RecvTimeoutError, Sender};
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
 
@@ -96,7 +96,7 @@ impl AudioRenderCapacity {
         // stop current metric collection, if any
         self.stop();
 
-        let (stop_send, stop_recv) = crossbeam_channel::bounded(0);
+        let (stop_send, stop_recv) = crossbeam_channel::bounded::<()>(0);
         *self.stop_send.lock().unwrap() = Some(stop_send);
 
         let mut timestamp: f64 = self.context.current_time();
@@ -106,8 +106,9 @@ impl AudioRenderCapacity {
         let mut previous = stats.snapshot();
         stats.take_peak_load();
         std::thread::spawn(move || loop {
-            if stop_recv.recv_timeout(update_interval).is_ok() {
-                return;
+            match stop_recv.recv_timeout(update_interval) {
+                Err(RecvTimeoutError::Timeout) => (),
+                _ => return, // stopped
             }
 
             let next = stats.snapshot();
@@ -131,10 +132,10 @@ impl AudioRenderCapacity {
     /// Stop metric collection and analysis
     #[allow(clippy::missing_panics_doc)]
     pub fn stop(&self) {
-        // halt callback thread
-        if let Some(stop_send) = self.stop_send.lock().unwrap().take() {
-            let _ = stop_send.send(());
-        }
+        // halt callback thread, without waiting for it: it could be waiting for the event handler
+        // that is calling this method
+        let stop_send = self.stop_send.lock().unwrap().take();
+        drop(stop_send);
     }
 
     /// The EventHandler for [`AudioRenderCapacityEvent`].
-- 
2.43.0


From b5e2564af5284a3884a0e6855e0e84e6b9bb8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:39 +0000
Subject: [PATCH 22/37] fix: hand out each block of a media stream in order to
 concurrent consumers

---
 src/media_streams/mod.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/media_streams/mod.rs b/src/media_streams/mod.rs
index 06c5243..8055d33 100644
--- a/src/media_streams/mod.rs
+++ b/src/media_streams/mod.rs
@@ -11,7 +11,7 @@
 
 use crate::{AudioBuffer, FallibleBuffer};
 use arc_swap::ArcSwap;
-use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 
 /// Ready-state of a [`MediaStreamTrack`]
@@ -41,8 +41,8 @@ impl std::fmt::Debug for MediaStreamTrack {
 }
 
 struct MediaStreamTrackInner {
-    data: ArcSwap<FallibleBuffer>,
-    position: AtomicU64,
+    /// latest block, and its position in the stream
+    data: ArcSwap<(u64, FallibleBuffer)>,
     ended: AtomicBool,
     provider: Mutex<Box<dyn Iterator<Item = FallibleBuffer> + Send + Sync + 'static>>,
 }
@@ -55,8 +55,7 @@ impl MediaStreamTrack {
     {
         let initial = Ok(AudioBuffer::from(vec![vec![0.]], 48000.));
         let inner = MediaStreamTrackInner {
-            data: ArcSwap::from_pointee(initial),
-            position: AtomicU64::new(0),
+            data: ArcSwap::from_pointee((0, initial)),
             ended: AtomicBool::new(false),
             provider: Mutex::new(Box::new(iter.into_iter())),
         };
@@ -100,23 +99,27 @@ impl Iterator for MediaStreamTrackIter {
             return None;
         }
 
-        let mut stream_position = self.track.position.load(Ordering::Relaxed);
-        if stream_position == self.position {
-            match self.track.provider.lock().unwrap().next() {
-                Some(buf) => {
-                    let _ = self.track.data.swap(Arc::new(buf));
-                }
-                None => {
-                    self.track.ended.store(true, Ordering::Relaxed);
-                    return None;
+        let mut current = self.track.data.load_full();
+        if current.0 == self.position {
+            let mut provider = self.track.provider.lock().unwrap();
+            // another consumer may have pulled the next block while we waited for the lock
+            current = self.track.data.load_full();
+            if current.0 == self.position {
+                match provider.next() {
+                    Some(buf) => {
+                        current = Arc::new((self.position + 1, buf));
+                        self.track.data.store(Arc::clone(&current));
+                    }
+                    None => {
+                        self.track.ended.store(true, Ordering::Relaxed);
+                        return None;
+                    }
                 }
             }
-            stream_position += 1;
-            self.track.position.fetch_add(1, Ordering::Relaxed);
         }
 
-        self.position = stream_position;
-        Some(match &self.track.data.load().as_ref() {
+        self.position = current.0;
+        Some(match &current.1 {
             Ok(buf) => Ok(buf.clone()),
             Err(e) => Err(e.to_string().into()),
         })
-- 
2.43.0


From dbec2924c656081939d64240ff6e3ad610d50065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:17 +0000
Subject: [PATCH 23/37] fix: do not render a context that was closed before
 start-up

---
 src/render/thread.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/render/thread.rs b/src/render/thread.rs
index f0f1658..fef0e45 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -194,7 +194,10 @@ impl RenderThread {
                 if let Some(startup_pending) = self.startup_pending.as_ref() {
                     startup_pending.store(false, Ordering::Release);
                 }
-                self.set_state(AudioContextState::Running);
+                // a context that was closed before start-up does not render
+                if !self.set_state(AudioContextState::Running) {
+                    self.suspended = true;
+                }
             }
             NodeMessage { id, mut msg } => {
                 self.graph.as_mut().unwrap().route_message(id, msg.as_mut());
-- 
2.43.0


From bcd3ec0a290260bc35ab08ac8e997312dd0c0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:52 +0000
Subject: [PATCH 24/37] fix: keep the audio graph when changing the sink fails

---
 src/context/online.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index 6bd9b7e..60b60ee 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -409,28 +409,46 @@ impl AudioContext {
             if original_state == AudioContextState::Suspended {
                 // We must wake up the render thread to be able to handle the shutdown.
                 // No new audio will be produced because it will receive the shutdown command first.
-                backend_manager_guard.resume()?;
+                if let Err(e) = backend_manager_guard.resume() {
+                    // The render thread did not wake up. Take back the shutdown command and restore
+                    // the cached msgs so nothing is lost.
+                    let _ = self.render_thread_init.ctrl_msg_recv.try_recv();
+                    pending_msgs
+                        .into_iter()
+                        .for_each(|m| ctrl_msg_send.send(m).unwrap());
+                    return Err(e.into());
+                }
             }
             graph_recv.recv().unwrap()
         };
 
-        log::debug!("SinkChange: closing audio stream");
-        backend_manager_guard.close()?;
-
         // hotswap the backend
-        let options = AudioContextOptions {
+        let mut options = AudioContextOptions {
             sample_rate: Some(self.sample_rate()),
             latency_hint: AudioContextLatencyCategory::default(), // todo reuse existing setting
             sink_id,
             render_size_hint: AudioContextRenderSizeCategory::default(), // todo reuse existing setting
         };
-        log::debug!("SinkChange: starting audio stream");
-        *backend_manager_guard = io::build_output(options, self.render_thread_init.clone())?;
+        log::debug!("SinkChange: closing audio stream");
+        let mut result = backend_manager_guard.close().and_then(|()| {
+            log::debug!("SinkChange: starting audio stream");
+            *backend_manager_guard =
+                io::build_output(options.clone(), self.render_thread_init.clone())?;
+            Ok(())
+        });
+        if result.is_err() {
+            // The graph has no render thread anymore, continue on the previous sink.
+            log::debug!("SinkChange: failed, restarting the previous audio stream");
+            options.sink_id = backend_manager_guard.sink_id().to_owned();
+            if let Ok(backend) = io::build_output(options, self.render_thread_init.clone()) {
+                *backend_manager_guard = backend;
+            }
+        }
 
         // if the previous backend state was suspend, suspend the new one before shipping the graph
         if original_state == AudioContextState::Suspended {
             log::debug!("SinkChange: suspending audio stream");
-            backend_manager_guard.suspend()?;
+            result = result.and(backend_manager_guard.suspend().map(|_| ()));
         }
 
         // send the audio graph to the new render thread
@@ -446,6 +464,9 @@ impl AudioContext {
         drop(ctrl_msg_send);
         drop(backend_manager_guard);
 
+        // only report a failure after the audio graph and the cached msgs are back in place
+        result?;
+
         // trigger event when all the work is done
         let _ = self.base.send_event(EventDispatch::sink_change());
 
-- 
2.43.0


From 5f41595d236c544e579deec0e01fd3937640136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:54 +0000
Subject: [PATCH 25/37] fix: let the render thread handle pending messages
 before a sink change

---
 src/context/concrete_base.rs |  5 +++
 src/context/online.rs        | 67 +++++++++++++-----------------------
 2 files changed, 29 insertions(+), 43 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index c4fd4c9..cdcd005 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -310,6 +310,11 @@ impl ConcreteBaseAudioContext {
         }
     }
 
+    /// Denotes if the last request to suspend or resume was to suspend
+    pub(crate) fn control_msgs_suspended(&self) -> bool {
+        self.inner.suspended_messages.lock().unwrap().is_some()
+    }
+
     pub(crate) fn resume_control_msgs(&self, msg: ControlMessage) {
         let sender = self.inner.render_channel.read().unwrap();
         // hold on to the lock so new messages will not overtake the staged ones
diff --git a/src/context/online.rs b/src/context/online.rs
index 60b60ee..dad76f2 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -385,42 +385,28 @@ impl AudioContext {
         log::debug!("SinkChange: locking message channel");
         let ctrl_msg_send = self.base.lock_control_msg_sender();
 
-        // Flush out the ctrl msg receiver, cache
-        let mut pending_msgs: Vec<_> = self.render_thread_init.ctrl_msg_recv.try_iter().collect();
-
-        // Acquire the active audio graph from the current render thread, shutting it down
-        let graph = if matches!(pending_msgs.first(), Some(ControlMessage::Startup { .. })) {
-            // Handle the edge case where the previous backend was suspended for its entire lifetime.
-            // In this case, the `Startup` control message was never processed.
-            log::debug!("SinkChange: recover unstarted graph");
-
-            let msg = pending_msgs.remove(0);
-            match msg {
-                ControlMessage::Startup { graph } => graph,
-                _ => unreachable!(),
-            }
-        } else {
-            // Acquire the audio graph from the current render thread, shutting it down
-            log::debug!("SinkChange: recover graph from render thread");
-
-            let (graph_send, graph_recv) = crossbeam_channel::bounded(1);
-            let message = ControlMessage::CloseAndRecycle { sender: graph_send };
-            ctrl_msg_send.send(message).unwrap();
-            if original_state == AudioContextState::Suspended {
-                // We must wake up the render thread to be able to handle the shutdown.
-                // No new audio will be produced because it will receive the shutdown command first.
-                if let Err(e) = backend_manager_guard.resume() {
-                    // The render thread did not wake up. Take back the shutdown command and restore
-                    // the cached msgs so nothing is lost.
-                    let _ = self.render_thread_init.ctrl_msg_recv.try_recv();
-                    pending_msgs
-                        .into_iter()
-                        .for_each(|m| ctrl_msg_send.send(m).unwrap());
-                    return Err(e.into());
-                }
+        // Acquire the audio graph from the current render thread, shutting it down. The render thread
+        // first handles the pending ctrl msgs, taking these out of the channel here would compete
+        // with it and mix up their order.
+        log::debug!("SinkChange: recover graph from render thread");
+        let (graph_send, graph_recv) = crossbeam_channel::bounded(1);
+        let message = ControlMessage::CloseAndRecycle { sender: graph_send };
+        ctrl_msg_send.send(message).unwrap();
+        if original_state == AudioContextState::Suspended {
+            // We must wake up the render thread to be able to handle the shutdown.
+            // No new audio will be produced because it will receive the shutdown command first.
+            if let Err(e) = backend_manager_guard.resume() {
+                // The render thread did not wake up. Take back the shutdown command.
+                let pending_msgs: Vec<_> =
+                    self.render_thread_init.ctrl_msg_recv.try_iter().collect();
+                pending_msgs
+                    .into_iter()
+                    .filter(|m| !matches!(m, ControlMessage::CloseAndRecycle { .. }))
+                    .for_each(|m| ctrl_msg_send.send(m).unwrap());
+                return Err(e.into());
             }
-            graph_recv.recv().unwrap()
-        };
+        }
+        let graph = graph_recv.recv().unwrap();
 
         // hotswap the backend
         let mut options = AudioContextOptions {
@@ -445,8 +431,8 @@ impl AudioContext {
             }
         }
 
-        // if the previous backend state was suspend, suspend the new one before shipping the graph
-        if original_state == AudioContextState::Suspended {
+        // if the previous render thread was suspended, suspend the new one before shipping the graph
+        if self.base.control_msgs_suspended() {
             log::debug!("SinkChange: suspending audio stream");
             result = result.and(backend_manager_guard.suspend().map(|_| ()));
         }
@@ -455,16 +441,11 @@ impl AudioContext {
         let message = ControlMessage::Startup { graph };
         ctrl_msg_send.send(message).unwrap();
 
-        // flush the cached msgs, using the locked sender to keep them ahead of any new ones
-        pending_msgs
-            .into_iter()
-            .for_each(|m| ctrl_msg_send.send(m).unwrap());
-
         // explicitly release the locks to prevent concurrent render threads
         drop(ctrl_msg_send);
         drop(backend_manager_guard);
 
-        // only report a failure after the audio graph and the cached msgs are back in place
+        // only report a failure after the audio graph is back in place
         result?;
 
         // trigger event when all the work is done
-- 
2.43.0


From cc520e6e2192cac657a7f95b3f8034d4c44025da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:50 +0000
Subject: [PATCH 26/37] fix: do not ignore a suspend request while the context
 enters the running state

---
 src/context/online.rs | 8 ++++++--
 src/render/thread.rs  | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index dad76f2..0c8fc6a 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -527,13 +527,15 @@ impl AudioContext {
         // Don't lock the backend manager because we can't hold is across the await point
         log::debug!("Suspend called");
 
+        // read this flag before the state, the render thread clears it after entering the running state
+        let startup_pending = self.startup_pending.load(Ordering::Acquire);
         let state = self.state();
         if state == AudioContextState::Closed {
             log::debug!("Suspend no-op - context is closed");
             return;
         }
 
-        if state != AudioContextState::Running && !self.startup_pending.load(Ordering::Acquire) {
+        if state != AudioContextState::Running && !startup_pending {
             log::debug!("Suspend no-op - context is not running");
             return;
         }
@@ -663,13 +665,15 @@ impl AudioContext {
         log::debug!("Suspend_sync called, locking backend manager");
         let backend_manager_guard = self.backend_manager.lock().unwrap();
 
+        // read this flag before the state, the render thread clears it after entering the running state
+        let startup_pending = self.startup_pending.load(Ordering::Acquire);
         let state = self.state();
         if state == AudioContextState::Closed {
             log::debug!("Suspend_sync no-op - context is closed");
             return;
         }
 
-        if state != AudioContextState::Running && !self.startup_pending.load(Ordering::Acquire) {
+        if state != AudioContextState::Running && !startup_pending {
             log::debug!("Suspend_sync no-op - context is not running");
             return;
         }
diff --git a/src/render/thread.rs b/src/render/thread.rs
index fef0e45..52c8011 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -191,13 +191,14 @@ impl RenderThread {
             Startup { graph } => {
                 debug_assert!(self.graph.is_none());
                 self.graph = Some(graph);
-                if let Some(startup_pending) = self.startup_pending.as_ref() {
-                    startup_pending.store(false, Ordering::Release);
-                }
                 // a context that was closed before start-up does not render
                 if !self.set_state(AudioContextState::Running) {
                     self.suspended = true;
                 }
+                // only now, so a concurrent suspend request sees either the running state or this flag
+                if let Some(startup_pending) = self.startup_pending.as_ref() {
+                    startup_pending.store(false, Ordering::Release);
+                }
             }
             NodeMessage { id, mut msg } => {
                 self.graph.as_mut().unwrap().route_message(id, msg.as_mut());
-- 
2.43.0


From 8d3440a703ae00c081c9bd6a3185b8dfb6d29c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:32 +0000
Subject: [PATCH 27/37] fix: silence the outputs of an audio worklet before its
 process call

---
 src/worklet.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worklet.rs b/src/worklet.rs
index 9c38106..b3f925e 100644
--- a/src/worklet.rs
+++ b/src/worklet.rs
@@ -388,6 +388,11 @@ impl<P: AudioWorkletProcessor> AudioProcessor for AudioWorkletRenderer<P> {
             inputs_flat = right;
         }
 
+        // Samples the processor does not write are silent, not those of the previous quantum
+        outputs
+            .iter_mut()
+            .for_each(AudioRenderQuantum::make_silent);
+
         // Set the proper channel count for the outputs
         if !outputs.is_empty() && self.output_channel_count.is_empty() {
             // special case - single input/output - inherit channel count from input
-- 
2.43.0


From ffa28626b8e233a04cd13026186ebd22bf32f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:43 +0000
Subject: [PATCH 28/37] fix: reject non-finite panner coordinates before any of
 them is applied

---
 src/node/panner.rs | 12 +++++++++++-
 src/param.rs       |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index 91462f2..2c62b41 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -7,7 +7,7 @@ use float_eq::float_eq;
 use hrtf::{HrirSphere, HrtfContext, HrtfProcessor, Vec3};
 
 use crate::context::{AudioContextRegistration, AudioParamId, BaseAudioContext};
-use crate::param::{AudioParam, AudioParamDescriptor};
+use crate::param::{assert_is_finite, AudioParam, AudioParamDescriptor};
 use crate::render::{
     AudioParamValues, AudioProcessor, AudioRenderQuantum, AudioWorkletGlobalScope,
 };
@@ -515,6 +515,11 @@ impl PannerNode {
     }
 
     pub fn set_position(&self, x: f32, y: f32, z: f32) {
+        // reject all values before any of them is applied
+        assert_is_finite(x);
+        assert_is_finite(y);
+        assert_is_finite(z);
+
         self.position_x.set_value(x);
         self.position_y.set_value(y);
         self.position_z.set_value(z);
@@ -533,6 +538,11 @@ impl PannerNode {
     }
 
     pub fn set_orientation(&self, x: f32, y: f32, z: f32) {
+        // reject all values before any of them is applied
+        assert_is_finite(x);
+        assert_is_finite(y);
+        assert_is_finite(z);
+
         self.orientation_x.set_value(x);
         self.orientation_y.set_value(y);
         self.orientation_z.set_value(z);
diff --git a/src/param.rs b/src/param.rs
index 296dcb9..eb197fd 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -22,7 +22,7 @@ use crate::{assert_valid_time_value, AtomicF32, RENDER_QUANTUM_SIZE};
 const SNAP_TO_TARGET: f32 = 1e-10;
 
 #[track_caller]
-fn assert_is_finite(value: f32) {
+pub(crate) fn assert_is_finite(value: f32) {
     assert!(
         value.is_finite(),
         "TypeError - The provided value is non-finite."
-- 
2.43.0


From 5cadce4927efbf8471ca31ade45e6bc7a578c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:04 +0000
Subject: [PATCH 29/37] fix: clear the event handlers of a previous node when
 its id is assigned again

---
 src/context/concrete_base.rs | 3 +++
 src/events.rs                | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index cdcd005..2cc7c35 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -246,6 +246,9 @@ impl ConcreteBaseAudioContext {
             .unwrap()
             .retain(|&(from, _output, to, _input)| from != id && to != id);
 
+        // clear the event handlers of that previous node, its events will not occur anymore
+        self.inner.event_loop.clear_node_handlers(id);
+
         let registration = AudioContextRegistration {
             id,
             context: self.clone(),
diff --git a/src/events.rs b/src/events.rs
index 9e81eee..358e575 100644
--- a/src/events.rs
+++ b/src/events.rs
@@ -273,4 +273,12 @@ impl EventLoop {
         let previous = self.event_handlers.lock().unwrap().remove(&event);
         drop(previous); // after releasing the Mutex, it may own objects with Drop glue
     }
+
+    /// Clear all handlers that are registered for the given node
+    pub fn clear_node_handlers(&self, id: AudioNodeId) {
+        self.clear_handler(EventType::Ended(id));
+        self.clear_handler(EventType::ProcessorError(id));
+        self.clear_handler(EventType::Message(id));
+        self.clear_handler(EventType::AudioProcessing(id));
+    }
 }
-- 
2.43.0


From cc28c015dfc0d841fda3659f610ebbcad1b65551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:08 +0000
Subject: [PATCH 30/37] fix: report an error when decoded audio has a sample
 rate of zero

---
 src/decoding.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decoding.rs b/src/decoding.rs
index 7bc4136..5a08fa5 100644
--- a/src/decoding.rs
+++ b/src/decoding.rs
@@ -22,6 +22,13 @@ pub(crate) fn decode_media_data<R: std::io::Read + Send + Sync + 'static>(
     for chunk in MediaDecoder::try_new(input)? {
         let chunk = chunk?;
 
+        if chunk.sample_rate() <= 0. {
+            return Err(Box::new(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "decoded audio has no valid sample rate",
+            )));
+        }
+
         match sample_rate {
             Some(rate) if rate != chunk.sample_rate() => {
                 return Err(Box::new(std::io::Error::new(
-- 
2.43.0


From 1b6b3e40b8ea671159737c8aaf7aec781438cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:08 +0000
Subject: [PATCH 31/37] fix: do not produce NaN when resampling to a single
 frame

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 60561b1..ad552e8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -334,7 +334,7 @@ impl AudioBuffer {
         resampled.resize_with(num_channels, || Vec::<f32>::with_capacity(target_length));
 
         for i in 0..target_length {
-            let position = i as f64 / (target_length - 1) as f64; // [0., 1.]
+            let position = i as f64 / (target_length - 1).max(1) as f64; // [0., 1.]
             let playhead = position * (source_length - 1) as f64;
             let playhead_floored = playhead.floor();
             let prev_index = playhead_floored as usize;
-- 
2.43.0


From b8cb46dba283f529e35c8dff377f7bf2817adbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:08 +0000
Subject: [PATCH 32/37] fix: report an error when the channel count of a
 resampled stream changes

---
 src/resampling.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resampling.rs b/src/resampling.rs
index dfdbd73..e22224d 100644
--- a/src/resampling.rs
+++ b/src/resampling.rs
@@ -94,6 +94,9 @@ impl<M: AudioBufferIter> Iterator for Resampler<M> {
                 }
                 Some(Err(e)) => return Some(Err(e)),
                 Some(Ok(mut data)) => {
+                    if data.number_of_channels() != buffer.number_of_channels() {
+                        return Some(Err("channel count of the stream changed".into()));
+                    }
                     data.resample(self.sample_rate);
                     buffer.extend(&data)
                 }
-- 
2.43.0


From 8f4f857a1b05b00e047909554fb43923369a35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:08 +0000
Subject: [PATCH 33/37] fix: return an error for media elements with an
 unsupported sample rate or channel count

---
 src/media_element.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/media_element.rs b/src/media_element.rs
index d78afb9..4c942a9 100644
--- a/src/media_element.rs
+++ b/src/media_element.rs
@@ -6,12 +6,13 @@ use std::sync::Arc;
 use creek::{ReadDiskStream, SeekMode, SymphoniaDecoder};
 use crossbeam_channel::{Receiver, Sender};
 
-use crate::{AtomicF64, AudioBuffer, RENDER_QUANTUM_SIZE};
+use crate::{is_valid_sample_rate, AtomicF64, AudioBuffer, MAX_CHANNELS, RENDER_QUANTUM_SIZE};
 
 /// Real time safe audio stream
 pub(crate) struct RTSStream {
     stream: ReadDiskStream<SymphoniaDecoder>,
     number_of_channels: usize,
+    sample_rate: f32,
     current_time: Arc<AtomicF64>,
     receiver: Receiver<MediaElementAction>,
     loop_: Arc<AtomicBool>,
@@ -76,6 +77,13 @@ impl MediaElement {
             Default::default(), // Use default read stream options.
         )?;
         let number_of_channels = read_disk_stream.info().num_channels as usize;
+        let sample_rate = read_disk_stream.info().sample_rate.unwrap_or(0) as f32;
+        if !is_valid_sample_rate(sample_rate) {
+            return Err(format!("unsupported sample rate: {sample_rate}").into());
+        }
+        if number_of_channels == 0 || number_of_channels > MAX_CHANNELS {
+            return Err(format!("unsupported number of channels: {number_of_channels}").into());
+        }
 
         // Cache the start of the file into cache with index `0`.
         let _ = read_disk_stream.cache(0, 0);
@@ -102,6 +110,7 @@ impl MediaElement {
         let rts_stream = RTSStream {
             stream: read_disk_stream,
             number_of_channels,
+            sample_rate,
             current_time: Arc::clone(&current_time),
             receiver,
             loop_: Arc::clone(&loop_),
@@ -164,7 +173,7 @@ impl Iterator for RTSStream {
     type Item = Result<AudioBuffer, Box<dyn Error + Send + Sync>>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let sample_rate = self.stream.info().sample_rate.unwrap() as f32;
+        let sample_rate = self.sample_rate;
 
         if let Ok(msg) = self.receiver.try_recv() {
             use MediaElementAction::*;
-- 
2.43.0


From 23253f94af22562747369856bd8f453b657e4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:08 +0000
Subject: [PATCH 34/37] fix: report seek errors of media elements instead of
 panicking

---
 src/media_element.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/media_element.rs b/src/media_element.rs
index 4c942a9..12865bf 100644
--- a/src/media_element.rs
+++ b/src/media_element.rs
@@ -181,7 +181,9 @@ impl Iterator for RTSStream {
                 Seek(value) => {
                     self.current_time.store(value, Ordering::SeqCst);
                     let frame = (value * sample_rate as f64) as usize;
-                    self.stream.seek(frame, SeekMode::default()).unwrap();
+                    if let Err(e) = self.stream.seek(frame, SeekMode::default()) {
+                        return Some(Err(Box::new(e) as _));
+                    }
                 }
                 SetLoop(value) => {
                     self.loop_.store(value, Ordering::SeqCst);
@@ -212,7 +214,9 @@ impl Iterator for RTSStream {
                 let buf = AudioBuffer::from(channels, sample_rate * playback_rate as f32);
 
                 if self.loop_.load(Ordering::SeqCst) && data.reached_end_of_file() {
-                    self.stream.seek(0, SeekMode::default()).unwrap();
+                    if let Err(e) = self.stream.seek(0, SeekMode::default()) {
+                        return Some(Err(Box::new(e) as _));
+                    }
                     self.current_time.store(0., Ordering::SeqCst);
                 } else {
                     let current_time = self.current_time.load(Ordering::SeqCst);
-- 
2.43.0


From c7cd863874fe94660db5e85ec0e2d31436cca782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:09 +0000
Subject: [PATCH 35/37] fix: mute media elements at playback rates they cannot
 play instead of panicking

---
 src/media_element.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/media_element.rs b/src/media_element.rs
index 12865bf..a8016ef 100644
--- a/src/media_element.rs
+++ b/src/media_element.rs
@@ -194,7 +194,13 @@ impl Iterator for RTSStream {
             };
         }
 
-        if self.paused.load(Ordering::SeqCst) {
+        let playback_rate = self.playback_rate.load(Ordering::SeqCst).abs();
+        let _reverse = playback_rate < 0.; // TODO
+        let samples = (RENDER_QUANTUM_SIZE as f64 * playback_rate) as usize;
+
+        // mute when paused or when the playback rate is too extreme
+        let playable = samples > 0 && is_valid_sample_rate(sample_rate * playback_rate as f32);
+        if self.paused.load(Ordering::SeqCst) || !playable {
             let silence = AudioBuffer::from(
                 vec![vec![0.; RENDER_QUANTUM_SIZE]; self.number_of_channels],
                 sample_rate,
@@ -202,10 +208,6 @@ impl Iterator for RTSStream {
             return Some(Ok(silence));
         }
 
-        let playback_rate = self.playback_rate.load(Ordering::SeqCst).abs();
-        let _reverse = playback_rate < 0.; // TODO
-        let samples = (RENDER_QUANTUM_SIZE as f64 * playback_rate) as usize;
-
         let next = match self.stream.read(samples) {
             Ok(data) => {
                 let channels: Vec<_> = (0..data.num_channels())
-- 
2.43.0


From e9d047adcd7007820441eb76c9d4937228ce1228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:26 +0000
Subject: [PATCH 36/37] fix: end the render thread of a silent sink when its
 context is gone

The thread that drives a context without audio device waits for requests
with a deadline. Once the context was dropped while suspended, the wait
returned at once and the thread used a full core forever.
---
 src/io/none.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/io/none.rs b/src/io/none.rs
index 2cda2e8..d2e880d 100644
--- a/src/io/none.rs
+++ b/src/io/none.rs
@@ -11,7 +11,7 @@ use crate::media_devices::MediaDeviceInfo;
 use crate::render::RenderThread;
 use crate::{MAX_CHANNELS, RENDER_QUANTUM_SIZE};
 
-use crossbeam_channel::{Receiver, Sender};
+use crossbeam_channel::{Receiver, RecvTimeoutError, Sender};
 
 enum NoneBackendMessage {
     Resume,
@@ -53,15 +53,18 @@ impl Callback {
 
         loop {
             // poll the receiver as long as the deadline is in the future
-            while let Ok(msg) = self.receiver.recv_deadline(deadline) {
-                match msg {
-                    NoneBackendMessage::Close => return,
-                    NoneBackendMessage::Resume => {
+            loop {
+                match self.receiver.recv_deadline(deadline) {
+                    Ok(NoneBackendMessage::Close) => return,
+                    Ok(NoneBackendMessage::Resume) => {
                         self.running = true;
                         deadline = Instant::now().checked_add(interval).unwrap();
                         break; // start processing right away
                     }
-                    NoneBackendMessage::Suspend => self.running = false,
+                    Ok(NoneBackendMessage::Suspend) => self.running = false,
+                    Err(RecvTimeoutError::Timeout) => break,
+                    // the context is gone, nobody can resume or close this stream
+                    Err(RecvTimeoutError::Disconnected) => return,
                 }
             }
 
-- 
2.43.0


From 15a03e6c71e1235c6ccf242de25e7b380118ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:49:36 +0000
Subject: [PATCH 37/37] fix: do not mix shared channels of more than two
 channels as if they were mono

---
 src/render/quantum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/render/quantum.rs b/src/render/quantum.rs
index 2b25c5a..2a4a1e8 100644
--- a/src/render/quantum.rs
+++ b/src/render/quantum.rs
@@ -546,8 +546,10 @@ impl AudioRenderQuantum {
             ChannelCountMode::ClampedMax => max_channels.min(count),
         };
 
-        // fast path if both buffers are upmixed mono signals
+        // fast path if both buffers are upmixed mono signals, this only holds for mono and stereo
         if interpretation == ChannelInterpretation::Speakers
+            && max_channels <= 2
+            && new_channels <= 2
             && self.all_channels_identical()
             && other.all_channels_identical()
         {
-- 
2.43.0

