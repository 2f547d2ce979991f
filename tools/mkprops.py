#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe)},
    })

prop("C01", "The render thread never waits",
     "While an online context renders, library code running on the audio render thread (processing of every built-in node, delivery of messages to nodes, graph bookkeeping, node teardown, the backend's render callback) never acquires a lock, waits on a channel, future or thread, sleeps, spawns a thread, or performs file or console I/O. Everything it reports to the control side is sent without waiting, even when the receiving queue is full or nobody is listening.",
     ["schedules", "histories", "inputs"], "every reachable call chain from the audio callback, for any state of the control side",
     "Tests run with an idle control side and ample queue space; a blocking call only shows as a glitch or a hang under contention.",
     ["src/render/thread.rs", "src/render/graph.rs", "src/render/processor.rs", "src/node/", "src/param.rs", "src/message.rs", "src/io/"],
     [("try_send for all events, swap instead of free, llq queues", "src/render/processor.rs, src/render/thread.rs")])

prop("C02", "Replaced node resources are never freed on the render thread",
     "When the control side replaces something a node uses (audio buffer, impulse response, curve, periodic wave, panning engine) while an online context renders, the old object and the message that carried the new one are handed over to be destroyed outside the render thread; the code that handles such a message never destroys a heap-owning value itself.",
     ["histories", "inputs"], "every message a built-in node can receive, for every previous content of the node",
     "Deallocation on the wrong thread is invisible to assertions on samples; tests never look at where memory is freed.",
     ["src/render/thread.rs", "src/node/", "src/param.rs"],
     [("message content is swapped with the old value and pushed to the garbage collector queue", "src/render/thread.rs NodeMessage, AudioProcessor::onmessage impls")])

prop("C03", "A panicking processor is contained, removed and reported once",
     "A panic raised by a processor in any of its callbacks (processing, message handling, teardown) never unwinds into the render loop: all other nodes keep rendering. When processing panics, that node stops contributing to others from that quantum on, is removed, and exactly one processor error event is sent.",
     ["programs", "fault_sequences"], "every processor callback and every point in it at which user code may panic",
     "Tests panic in process() of one worklet; message handlers, teardown hooks and repeated faults are not covered.",
     ["src/render/graph.rs", "src/render/processor.rs", "src/render/thread.rs"],
     [("catch_unwind around processor callbacks, report_error, removal", "src/render/graph.rs")])

prop("C04", "No deadlock between internal locks, waits and user callbacks",
     "No sequence of public API calls, callbacks and render activity can deadlock the library: locks are always acquired in a consistent order, no lock is re-acquired by its holder, no user-supplied callback runs while an internal lock is held, and nobody waits for another thread while holding a lock that thread may need.",
     ["schedules", "histories"], "all interleavings of control threads, event thread, capacity/recorder threads and render thread",
     "A deadlock needs a specific interleaving or re-entrant callback; tests exercise a handful of schedules.",
     ["src/context/concrete_base.rs", "src/context/online.rs", "src/events.rs", "src/media_recorder.rs", "src/capacity.rs", "src/node/mod.rs", "src/node/panner.rs", "src/media_streams.rs"],
     [("guards dropped before callbacks, fixed acquisition order", "see files")])

prop("C05", "A rejected call never leaves an object unusable",
     "When an API call fails by panicking on an invalid argument, invalid state or backend error, no internal lock is held at that moment, so later valid calls on the same object, from any thread, work as if the failed call had not locked anything.",
     ["histories", "inputs"], "every explicit panic in control-side code and every lock that may be held when it is raised",
     "Tests check that a call panics (should_panic), not that the object still works afterwards.",
     ["src/context/", "src/node/", "src/param.rs", "src/media_recorder.rs", "src/analysis.rs"],
     [("guards are dropped before panicking", "src/context/concrete_base.rs disconnect")])

prop("C06", "Control changes reach the renderer in order and are never lost",
     "Changes made through the API by one thread (creating nodes, connecting, posting to nodes, dropping) take effect in the order they were made, also when they are made while the context is being suspended, is suspended, or is being resumed or moved to another output device; none is dropped or applied twice as long as the context is not closed.",
     ["schedules", "histories"], "all interleavings of API threads with suspend, resume, sink change",
     "Reordering needs a second thread between two instructions; tests issue calls from one thread.",
     ["src/context/concrete_base.rs", "src/context/online.rs"],
     [("single sender, staging buffer while suspended", "src/context/concrete_base.rs send_control_msg / suspend_control_msgs / resume_control_msgs")])

prop("C07", "Every suspend, resume and close request is answered",
     "Each suspend, resume or close request that is accepted reaches the render thread and is acknowledged exactly once after the state change has taken effect, so the caller that waits for it always returns; such requests are never parked behind a pending suspend.",
     ["schedules", "histories"], "every ordering of suspend/resume/close calls, blocking and async",
     "Tests call suspend/resume/close in the nominal order only.",
     ["src/render/thread.rs", "src/message.rs", "src/context/online.rs", "src/context/concrete_base.rs"],
     [("OneshotNotify sent in each lifecycle arm", "src/render/thread.rs handle_control_message")])

prop("C08", "Closed is final",
     "Once a context reports the closed state it never reports another state again and no later request is carried out by its renderer, whatever suspend, resume, close, device-change or offline calls are made or were in flight.",
     ["histories", "schedules"], "all call sequences and interleavings after close",
     "Tests stop at the first close.",
     ["src/context/concrete_base.rs", "src/context/online.rs", "src/context/offline.rs", "src/render/thread.rs"],
     [("state stored through two set_state functions", "src/render/thread.rs, src/context/concrete_base.rs")])

prop("C09", "The context clock advances exactly one quantum per rendered quantum",
     "The current time of a context starts at zero, never decreases, and advances by exactly one render quantum for each quantum that the graph renders and for nothing else: not while suspended, before start-up, after close or during a device change. The frame and time that processors see for a quantum are the clock value before that quantum, and time is always frame divided by sample rate.",
     ["histories", "configurations"], "all buffer sizes, states and lifecycles; online and offline rendering",
     "Tests sample the clock in a few states with aligned buffer sizes.",
     ["src/render/thread.rs", "src/context/concrete_base.rs", "src/io/"],
     [("frames_played.fetch_add next to graph.render", "src/render/thread.rs")],
     [("frames_played", "clock", "shared AtomicU64")])

prop("C10", "Node identity: live handles keep their node, ids are recycled once, last",
     "A node whose handle is still held by the program is never confused with another node: its id is made available for reuse only after the handle has been dropped and the render side has removed the node, and then exactly once. The destination and the listener (with its parameters) are never removed or recycled, and dropping a node's handle is signalled exactly once.",
     ["histories", "schedules", "fault_sequences"], "all create/drop/panic sequences with id reuse",
     "Id reuse needs long histories with drops and processor faults interleaved.",
     ["src/context/mod.rs", "src/context/concrete_base.rs", "src/render/graph.rs"],
     [("AudioContextRegistration Drop, reclaim queue", "src/context/mod.rs, src/render/graph.rs")])

prop("C11", "Messages for a vanished node are harmless",
     "The render thread never fails because a control change names a node that is not, or no longer, in the graph, or because a change arrives before start-up, after the graph moved to another device, or in the middle of an output buffer; such a change is ignored.",
     ["histories", "schedules", "fault_sequences"], "every kind of control message at every point of a node's and of the graph's life",
     "Needs a node to disappear (processor fault, drop race, sink change) between a call and its delivery.",
     ["src/render/graph.rs", "src/render/thread.rs", "src/render/node_collection.rs"],
     [("lookup of nodes by id", "src/render/graph.rs")])

prop("C12", "Connections are validated, deduplicated and removable",
     "Every way of connecting or disconnecting (node to node, explicit ports, node to parameter, all disconnect variants, for every node type) rejects a foreign context and out-of-range ports before it has any effect; connecting the same ports twice is the same as once, and disconnecting undoes it for as long as the source handle lives, even if the destination handle was dropped.",
     ["histories", "inputs"], "all connect/disconnect variants on all node types, in any order with drops",
     "Tests cover a few variants on a few node types and never drop the destination handle first.",
     ["src/node/audio_node.rs", "src/node/delay.rs", "src/context/concrete_base.rs"],
     [("AudioNode default methods, DelayNode overrides, connections set", "see files")])

prop("C13", "Topology changes always take effect at the next quantum",
     "Whenever nodes are added or removed or connections change, the processing order used for the next quantum is recomputed from the current graph, so every node in it (connected or not) renders exactly once per quantum, after everything that feeds it; only nodes on a cycle without delay are skipped.",
     ["histories"], "all sequences of registrations, connections, disconnections and removals between quanta",
     "Tests build the graph once in a favourable order.",
     ["src/render/graph.rs", "src/render/node_collection.rs"],
     [("ordered list voided on every change", "src/render/graph.rs")])

prop("C14", "No stale audio: every quantum starts from silence and rewrites outputs",
     "In every quantum each node mixes only what its inputs produced in that quantum (inputs start silent, also for nodes that were skipped because of a cycle), and every built-in node determines the content of each of its outputs on every path through its processing, so a block from an earlier quantum is never played again.",
     ["inputs", "histories"], "all branches of every processor and all graph histories",
     "A stale block only shows on rarely taken branches (not started, ended, no buffer, zero channels).",
     ["src/render/graph.rs", "src/node/", "src/param.rs"],
     [("make_silent / full overwrite on each path", "AudioProcessor::process impls")])

prop("C15", "Every message a node sends is understood by its processor",
     "Every kind of message that a built-in node's handle posts to its processor is recognised and acted upon by that node's own processor; no setting made through the API is silently ignored on the render side because its type is not handled.",
     ["inputs", "histories"], "every post site of every node against its processor's handler",
     "Type-erased messages compile whatever their type; a mismatch is only a log line.",
     ["src/node/", "src/param.rs", "src/worklet.rs", "src/context/mod.rs"],
     [("downcast chains in onmessage", "AudioProcessor::onmessage impls")])

prop("C16", "Attribute setters update what is read back and what is rendered alike",
     "For every attribute of every node that can be both set and read back, a successful set stores the value returned by the getter and sends that same value to the renderer (for that same attribute of that same node), and a set that is rejected changes neither.",
     ["inputs", "histories"], "all setters of all node types, all argument values",
     "Tests read back the getter or render once, for a few attributes.",
     ["src/node/", "src/param.rs"],
     [("control-side mirror fields plus post_message / control message", "setters in src/node")])

prop("C17", "Channel constraints hold on every route",
     "Each node type's channel constraints (fixed or limited channel count, fixed or forbidden count mode, fixed interpretation, at most 32 channels, at least 1) are enforced identically at construction through options and by every later setter, and always before the new value becomes visible or is sent to the renderer.",
     ["inputs", "configurations"], "all node types x all channel settings, at construction and later",
     "Tests try a few invalid combinations for some node types.",
     ["src/node/", "src/spatial.rs", "src/lib.rs"],
     [("assert_valid_* helpers in constructors and set_channel_* overrides", "src/node/*")])

prop("C18", "Each parameter drives its own input of the processor",
     "For every built-in node, the parameter returned by an accessor is the one initialised from the equally named option, with which it shares its default, and the one whose values the processor uses for that quantity; the nine listener parameters keep their axis identity from creation over the listener object to the panner. No parameter is unused, duplicated or exchanged.",
     ["inputs"], "all parameters of all nodes, including the listener",
     "Swapping two parameters with equal defaults passes tests that set only one of them.",
     ["src/node/", "src/spatial.rs", "src/context/concrete_base.rs", "src/context/mod.rs", "src/render/processor.rs"],
     [("create_audio_param pairs stored in node and renderer", "node constructors")])

prop("C19", "Sample-accurate automation is never flattened to one value",
     "Whenever a built-in processor takes a shortcut that uses only the first value of a parameter for a whole quantum, the parameter is known to be constant for that quantum, either because it can only be k-rate or because the shortcut is taken only if every parameter it covers delivers a single value. A parameter delivers a single value only for quanta in which it is constant, and that value is then applied to every frame.",
     ["inputs"], "all combinations of constant and automated parameters of each processor",
     "Requires automation of each single parameter in combination with constants for the others.",
     ["src/node/", "src/spatial.rs"],
     [("len() == 1 tests around constant fast paths", "process impls")])

prop("C20", "Sources start once, and end once",
     "A scheduled source (oscillator, constant source, buffer source) accepts start at most once and stop only after start, with non-negative times, rejecting anything else before any effect; after it has started and has finished or was removed it dispatches its ended event exactly once (events may be lost only while the event queue is full), and never before.",
     ["histories", "inputs"], "all start/stop histories and every quantum boundary",
     "Ended-event duplication or loss depends on timing corner cases and quantum boundaries.",
     ["src/node/audio_buffer_source.rs", "src/node/oscillator.rs", "src/node/constant_source.rs", "src/node/scheduled_source.rs"],
     [("has_start flag, ended flag around send_ended_event", "see files")])

prop("C21", "Rejected calls have no effect",
     "A call on an existing object that rejects its arguments or the current state by panicking does so before it has changed any attribute, sent anything to the renderer, or marked the object as started, connected or in use.",
     ["inputs", "histories"], "every explicit rejection in every public method, against every effect in it",
     "should_panic tests end at the panic and never inspect the object afterwards.",
     ["src/node/", "src/param.rs", "src/context/", "src/buffer.rs", "src/media_recorder.rs", "src/media_element.rs"],
     [("asserts at the top of methods", "public methods")])

prop("C22", "Offline rendering is deterministic",
     "What an offline context renders depends only on the graph and the calls made: nothing on the rendering path reads a clock, random source, thread or process identity, environment, or an unordered collection's iteration order, nor depends on memory addresses.",
     ["programs", "histories"], "every code path reachable from offline rendering with built-in nodes",
     "Two equal runs in one process do not reveal dependence on time, hash seed or scheduling.",
     ["src/render/", "src/node/", "src/param.rs", "src/context/offline.rs", "src/spatial.rs", "src/periodic_wave.rs", "src/resampling.rs"],
     [("Vec-indexed node collection, frame clock only", "src/render/node_collection.rs")])

prop("C23", "Thread-safety guarantees of the public types",
     "Every public context, node, parameter, buffer, stream and recorder handle can be shared between threads and moved to other threads, while everything a processor works on during a quantum stays on the render thread: render buffers, the render scope and parameter views cannot be sent to or shared with another thread, and no handle shares unsynchronised state with its processor.",
     ["programs"], "all user programs (type level)",
     "A test cannot show that a program does not compile, nor that all programs are free of data races.",
     ["src/lib.rs", "src/node/", "src/render/", "src/context/"],
     [("auto traits, Rc-based render quantum", "type definitions; unsafe impl Send/Sync list")])

prop("C24", "Worklet buffers never outlive the process call",
     "The slices given to an audio worklet processor refer to buffers that stay valid and exclusively borrowed during that process call, are rebuilt for each call, and no reference derived from them is kept after the call returns.",
     ["programs", "histories"], "every return path of the worklet adapter and every quantum",
     "Use-after-free through an extended lifetime usually reads plausible data and passes.",
     ["src/worklet.rs"],
     [("lifetime-extended slices stored in reusable vectors, cleared before returning", "src/worklet.rs")])

prop("C25", "All audio is rendered with denormals disabled",
     "On platforms where it is supported, every quantum of every online and offline context is rendered with denormal floats flushed to zero; no rendering entry point bypasses it.",
     ["configurations"], "all rendering entry points (offline sync and async, each backend and sample format)",
     "The existing test covers one offline entry point.",
     ["src/render/thread.rs", "src/io/"],
     [("no_denormals wrapper", "src/render/thread.rs")])

prop("C26", "Audio buffers are value-like",
     "Once a buffer has been handed to a node, cloned, or received from an event, changing one copy through its public methods is never visible through another copy or to the renderer; shared sample storage and shared render blocks are only ever written after making them unique.",
     ["histories", "schedules"], "all sharing patterns between user, nodes and renderer",
     "Aliasing only shows when a shared copy is mutated while the other is in use.",
     ["src/buffer.rs", "src/render/quantum.rs", "src/node/audio_buffer_source.rs", "src/node/convolver.rs", "src/node/script_processor.rs"],
     [("Arc::make_mut / Rc::make_mut", "src/buffer.rs, src/render/quantum.rs")])

prop("C27", "Malformed media is reported as an error, never a panic",
     "Decoding arbitrary bytes or files, whether through a context, a media element or a decoder stream, either yields audio or returns an error; the decoding path never panics and never drops a decoder error that should be reported.",
     ["inputs"], "all byte sequences",
     "Tests decode a handful of well-formed files and one corrupt file.",
     ["src/decoding.rs", "src/context/base.rs", "src/media_element.rs", "src/buffer.rs"],
     [("Result propagation", "src/decoding.rs")])

prop("C28", "Events reach the handler that was registered for them",
     "Each event handler setter has a matching clear function that removes exactly that handler; each event is delivered to the handler registered for that event kind and for that very node, with the payload kind the handler expects, and a handler replaced or cleared, even from within a running handler, is never called again.",
     ["histories", "schedules"], "all event kinds, all set/clear histories including re-entrant ones",
     "Tests register one handler per event and never change handlers from inside a callback or after node ids are recycled.",
     ["src/events.rs", "src/context/", "src/node/", "src/render/processor.rs", "src/capacity.rs"],
     [("EventType keys, EventDispatch constructors, EventLoop", "src/events.rs")])

prop("C29", "Consumers of one media stream track never get a block twice or out of order",
     "When several nodes or recorders read the same media stream track, a new block is pulled from the source only by a consumer that has already received the newest one, and it then becomes the newest block for all of them: no consumer receives a block twice or an older block after a newer one, and two consumers never pull two blocks for the same position. Closing the track ends it for all consumers.",
     ["schedules", "histories"], "all interleavings of consumers of one track",
     "Needs two consumers racing on the same block.",
     ["src/media_streams/mod.rs", "src/media_recorder/mod.rs", "src/node/media_stream_source.rs"],
     [("position counter and provider lock", "src/media_streams/mod.rs")])

prop("C30", "All output backends behave alike",
     "Whatever backend, device and sample format is used, an online context's output stream is set up and driven the same way: the start-up flag and the garbage collector are in place before the stream starts, every callback renders the whole buffer exactly once, and suspend, resume and close act on the same stream. The sample rate and channel count reported to the application are those the renderer was made with, and a silent sink's render thread ends when the context is closed or gone.",
     ["configurations"], "all backends and sample formats",
     "CI machines have no audio devices: only the null backend runs in tests.",
     ["src/io/cpal.rs", "src/io/cubeb.rs", "src/io/none.rs", "src/io/mod.rs"],
     [("AudioBackendManager implementations", "src/io/*")])

# ---- value-level properties: stated, but outside what static analysis decides
prop("C40", "Automation curves follow the specification formulas",
     "For every list of automation events and every sample rate, the computed values of a parameter equal the specified interpolation at each sample within floating point tolerance.",
     ["inputs"], "all automation event lists", "Tests cover selected event lists.",
     ["src/param.rs"], [("event interpolation", "src/param.rs")])
prop("C41", "Sample playback is exact at unity rate",
     "Playing a buffer at rate 1 from any offset, with or without looping, reproduces its samples exactly at the sample positions given by start time, offset, duration and loop points.",
     ["inputs"], "all buffers, offsets, loop points and start times", "Tests cover selected offsets.",
     ["src/node/audio_buffer_source.rs"], [("playback position arithmetic", "src/node/audio_buffer_source.rs")])
prop("C42", "Up- and down-mixing match the specification tables",
     "Mixing between any two channel counts under either interpretation yields the specified coefficients for every channel, whatever sharing or identity of channel data exists internally.",
     ["inputs"], "all channel counts and contents", "Tests cover selected layouts.",
     ["src/render/quantum.rs"], [("mix tables", "src/render/quantum.rs")])
prop("C43", "Recorded audio round-trips",
     "The samples written by the recorder, decoded again, equal the recorded input within the precision of the encoding, for every sequence of blocks and stops.",
     ["inputs", "histories"], "all block sequences", "Tests record a few fixed blocks.",
     ["src/media_recorder.rs"], [("wav encoding", "src/media_recorder.rs")])
prop("C44", "Reported load and latency statistics are accurate",
     "Average and peak load, underrun ratio and latency figures reported to the application equal what the render callbacks measured over the reported interval.",
     ["schedules"], "all callback timings", "Timing dependent.",
     ["src/stats.rs", "src/capacity.rs", "src/playback_stats.rs"], [("AudioStats counters", "src/stats.rs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
