SH = ["schedules", "programs", "configurations"]
TEST = "The unit tests run a handful of fixed programs on the real OS scheduler and see whichever interleaving it happens to pick; "
prop("A01", "Local messages arrive exactly once, in the order each sender sent them",
 "Every message told or asked to a component that is and stays running is handled by exactly that component exactly once, and messages one sender sent to one component through one reference are handled in the order they were sent. Messages sent while the component is not running are handled once it runs, in the same order.",
 SH, "every interleaving of senders, workers and lifecycle requests, every batch size and message/event priority, pool or dedicated execution",
 TEST + "loss, duplication or reordering needs a particular interleaving of a queue hand-over and a wake-up.",
 ["core/src/component/core.rs", "core/src/component/mod.rs", "core/src/actors/refs.rs", "core/src/component/actual_component.rs"],
 [("message queue and work counting", "core/src/component/actual_component.rs"), ("message enqueue", "core/src/actors/refs.rs")], ["handler calls"])
prop("A02", "Component code never runs on two threads at once",
 "No two handlers, lifecycle hooks, future polls or outside accesses to the same component's state ever overlap in time, whichever threads run them. No such code runs after the component's state was deallocated, and the state is not deallocated while it runs.",
 SH, "every interleaving of workers, wake-ups from timers, ports, messages and futures, and outside locking of the state",
 TEST + "an overlap needs two wake-ups to be lost against the scheduled flag at the same moment.",
 ["core/src/component/mod.rs", "core/src/component/actual_component.rs", "core/src/component/lifecycle.rs", "core/src/runtime/mod.rs"],
 [("scheduling state and work count", "core/src/component/mod.rs"), ("definition lock", "core/src/component/actual_component.rs")], ["handler entry and exit"])
prop("A03", "No wake-up is lost: pending work of a running component gets done",
 "Whenever messages, events, timeouts or woken futures are pending for a running component that is not suspended, they are handled within a bounded number of scheduling steps once the workload stops, without needing any further stimulus. This holds on every scheduler size and for components with their own thread.",
 SH, "every interleaving of enqueueing, going idle, parking and waking",
 TEST + "a lost wake-up leaves a test hanging only when the enqueue falls into a window of a few instructions.",
 ["core/src/component/actual_component.rs", "core/src/component/mod.rs", "core/src/dedicated_scheduler.rs", "core/src/runtime/mod.rs"],
 [("work counting and rescheduling decision", "core/src/component/actual_component.rs"), ("parking", "core/src/dedicated_scheduler.rs")], ["handler calls"])
prop("A04", "Port events reach exactly the connected components, once and in order",
 "Every indication or request triggered on a port while a channel connects it to another component is handled by that component exactly once and in trigger order, as long as that component runs. Nothing is delivered over a channel before it was connected or for events triggered after its disconnection completed, and disconnecting one channel leaves the others intact.",
 SH, "every interleaving of triggers, connects, disconnects, starts and stops over every small topology",
 TEST + "the tests connect one pair of components once, and never disconnect while events flow.",
 ["core/src/ports.rs", "core/src/component/mod.rs", "core/src/component/core.rs", "core/src/utils/mod.rs"],
 [("port connection lists", "core/src/ports.rs"), ("port event queues", "core/src/component/core.rs")], ["port event handler calls"])
prop("A05", "An ask is answered once with its own answer, or fails; it never hangs",
 "The future of an ask completes exactly once: with the value its receiver replied to this very ask, or with an error if the receiver dropped it, died with it pending, or the system ended. It never stays pending after the receiver is gone, and waiting for it with a timeout never gives up before that timeout.",
 SH, "every interleaving of asking, replying, dropping, killing and timing out",
 TEST + "they do not kill the answering component between receiving the request and replying.",
 ["core/src/utils/mod.rs", "core/src/utils/ask.rs", "core/src/utils/mod.rs", "core/src/actors/refs.rs"],
 [("promise and future pair", "core/src/utils"), ("dropping of queued messages with the component", "core/src/component/actual_component.rs")], ["future completion"])
prop("A06", "A component suspended on a blocking future does nothing else until it is done",
 "From the moment a handler asks to block on a future until that future is done, no other handler, hook, timeout or future of that component runs. When it completes the component always resumes, with everything that arrived meanwhile handled afterwards exactly as without the suspension, also when the blocking future itself asks to block again or ends in an error.",
 SH, "every interleaving of wake-ups of the blocking future with all other work of the component, stale and duplicate wake-ups included",
 TEST + "they complete the blocking future once from another component, at one point.",
 ["core/src/component/mod.rs", "core/src/component/future_task.rs", "core/src/component/actual_component.rs"],
 [("blocking future slot", "core/src/component/actual_component.rs"), ("future waker", "core/src/component/future_task.rs")], ["future polls and handler calls"])
prop("A07", "Futures spawned on a component run to completion on it, once",
 "A future spawned on a component is polled only as part of that component's execution, is polled again after every wake-up until it completes, completes exactly once and is never polled afterwards. Results of tasks spawned off a component reach whoever awaits them.",
 SH, "every interleaving of polls with wake-ups from other threads, spurious and stale wake-ups included",
 TEST + "the race between a wake-up and the end of the poll that it interrupts is not sampled.",
 ["core/src/component/future_task.rs", "core/src/component/mod.rs", "core/src/component/context.rs", "core/src/component/actual_component.rs"],
 [("non-blocking futures map", "core/src/component/actual_component.rs"), ("future waker", "core/src/component/future_task.rs")], ["future polls"])
prop("A08", "No component, port, message or future can starve another",
 "However much the components of a system have to do, and even if some of it never ends (messages, events, blocking handlers or futures that keep producing more of the same), everything else that is pending is handled within a bounded amount of that work: messages, events of every port, futures that were woken, timeouts, lifecycle requests, and other components and new ones on the same threads. The system can be shut down meanwhile.",
 SH, "every combination of endless loads, throughput and priority settings, schedulers and thread counts, and every arrival of something else among them",
 TEST + "they have no load that does not end, and none of the tests looks at the order across kinds of work.",
 ["core/src/component/actual_component.rs", "core/src/component/lifecycle.rs", "core/src/component/future_task.rs", "core/src/runtime/scheduler.rs", "macros/component-definition-derive/src/lib.rs", "core/src/dedicated_scheduler.rs"],
 [("shares of messages and events", "core/src/component/actual_component.rs"), ("rotation of ports", "macros/component-definition-derive/src/lib.rs"), ("rescheduling", "core/src/runtime/scheduler.rs")], ["handler calls of the load between a request and its handling"])
prop("A09", "A system with nothing to do comes to rest",
 "Once everything that was asked of a system has been done and no timer is pending, none of its threads executes anything any more beyond a bounded amount: no worker, component, timer or dispatcher thread spins or reschedules itself for ever. Messages and timeouts waiting in components that are not running, and futures nobody has woken, count as nothing to do.",
 SH, "every final state of a workload: stopped, killed and faulty components with messages, events, timeouts and futures left over, on every scheduler",
 TEST + "they assert results and never look at what the threads do once the results are there.",
 ["core/src/component/actual_component.rs", "core/src/component/mod.rs", "core/src/dedicated_scheduler.rs", "core/src/runtime/mod.rs"],
 [("rescheduling decision", "core/src/component/actual_component.rs"), ("work counting", "core/src/component/mod.rs")], ["steps executed by all threads of the system in an idle interval"])
prop("L01", "Lifecycle hooks follow the requests, and handlers run only while started",
 "The start, stop and kill hooks of a component run once per request, in the order of the requests. Message, event and timer handlers run only between a start and the following stop or kill; what arrives outside of that is kept until the next start.",
 SH, "every sequence of lifecycle requests interleaved with messages, events, timeouts and blocking hooks",
 TEST + "they start and stop idle components one at a time.",
 ["core/src/runtime/lifecycle.rs", "core/src/component/lifecycle.rs", "core/src/component/actual_component.rs"],
 [("lifecycle state", "core/src/component/lifecycle.rs"), ("control events", "core/src/runtime/lifecycle.rs")], ["hook and handler calls"])
prop("L02", "Waiting for start, stop or kill completes when, and only when, it has happened",
 "The future of a start, stop or kill request completes only after the corresponding hook (including what it blocked on) has finished, and it always completes for a component that was alive when the request was made, or fails if the component ended otherwise. None of these futures stays pending for ever, system shutdown included.",
 SH, "every interleaving of requests, hooks that block, faults and shutdown",
 TEST + "they do not make components fault, or kill unstarted ones, while somebody waits.",
 ["core/src/supervision.rs", "core/src/runtime/system.rs", "core/src/component/actual_component.rs"],
 [("supervisor listeners", "core/src/supervision.rs")], ["future completion, hook calls"])
prop("L03", "After a component is killed nothing of it runs, and it is deallocated",
 "Once the kill hook of a component has run, or it asked to be shut down or reported an unrecoverable fault, none of its handlers, hooks, timeouts or futures run any more. Every kill request takes effect, and once nobody refers to the component its state is deallocated, whatever timers, futures or channels it had.",
 SH, "every interleaving of a kill, suicide, shutdown result or fault with all other work of the component",
 TEST + "they check only that a kill notification arrives.",
 ["core/src/component/actual_component.rs", "core/src/supervision.rs", "core/src/component/lifecycle.rs", "core/src/component/future_task.rs"],
 [("destroyed state", "core/src/component/lifecycle.rs"), ("supervisor dropping its reference", "core/src/supervision.rs")], ["hook and handler calls, drop of the state"])
prop("L04", "Shutting the system down kills every component once and then completes",
 "However it is requested, system shutdown completes, every component that was running has then run its kill hook exactly once, and no component code runs after it completed. Components that finish starting, fault or are killed while shutdown is under way do not prevent it and are not recovered.",
 SH, "every interleaving of shutdown with messages, starts, faults and kills in progress, on every scheduler",
 TEST + "they shut down systems that are idle.",
 ["core/src/supervision.rs", "core/src/runtime/system.rs", "core/src/runtime/mod.rs", "core/src/dedicated_scheduler.rs"],
 [("supervisor shutdown promise", "core/src/supervision.rs"), ("scheduler shutdown", "core/src/runtime/system.rs")], ["completion of shutdown, hook calls"])
prop("L05", "A fault stays in its component and is recovered exactly once",
 "A component whose code panics or reports a recoverable error is taken out of service and its recovery action runs exactly once; benign errors change nothing, unrecoverable errors end the component without recovery. Other components are unaffected: they keep running and lose no messages.",
 SH + ["fault_sequences"], "every way and place of failing (handler, hook, event, timer, local or blocking future) interleaved with everything else",
 TEST + "they fault one idle component in its start hook or a handler.",
 ["core/src/component/actual_component.rs", "core/src/supervision.rs", "core/src/component/lifecycle.rs"],
 [("panic containment", "core/src/component/actual_component.rs"), ("recovery", "core/src/supervision.rs")], ["recovery calls, other components' handlers"])
prop("L06", "A component with a dedicated thread runs only there, and nothing else does",
 "All code of a component created with its own thread runs on that one thread from its creation to its end. No other component ever runs on it, and its thread ends when the component does.",
 SH, "every kind of work arriving from every other thread at every moment",
 TEST + "they never look at the thread that timers, events or woken futures of such a component run on.",
 ["core/src/dedicated_scheduler.rs", "core/src/runtime/system.rs", "core/src/component/mod.rs"],
 [("dedicated scheduler loop", "core/src/dedicated_scheduler.rs")], ["thread of every handler call"])
TIMER = ["core/src/timer/timer_manager.rs", "core/src/timer/mod.rs", "core/src/runtime/system.rs"]
prop("S01", "Building a system yields a running system or an error",
 "Building a system always comes to an end. It succeeds if, and only if, its dispatcher and deadletter box have come up, and the system is usable from then on. If one of them panics or reports an error before it is ready, or the network address is taken, building fails with an error: it neither hangs nor panics. Other systems on the machine are not affected, of several systems with one address exactly one comes up, and an address that has become free can be used again.",
 SH, "every combination of system components, faults in them before and after they are ready, address conflicts, and systems built at the same time",
 TEST + "they build systems that come up.",
 ["core/src/runtime/system.rs", "core/src/default_components.rs", "core/src/component/actual_component.rs", "network/src/dispatcher.rs"],
 [("waiting for the components", "core/src/runtime/system.rs"), ("poisoning", "core/src/component/actual_component.rs")], ["results of build", "answers of components of the systems built"])
prop("S02", "Ending a system from several places at once ends it once",
 "Any number of calls of shutdown, kill_system, shutdown_async and await_termination may be made for a system at any time, from any of its components or other threads, while further components are being started. Every call returns. None reports success, or that the system is no longer running, before every component that had been started has been killed, exactly once, and the system is terminated afterwards. A fault in a component of the system itself terminates the system for everyone who waits for that.",
 SH, "every interleaving of several calls to end a system with each other, with kill hooks that take their time, and with components being started",
 TEST + "they shut systems down once and when nothing else happens.",
 ["core/src/runtime/system.rs", "core/src/supervision.rs", "core/src/default_components.rs"],
 [("shutdown sequence", "core/src/runtime/system.rs"), ("supervisor", "core/src/supervision.rs")], ["results of the calls", "kill hooks"])
prop("T01", "A one-shot timer fires exactly once and not early",
 "A timer scheduled once fires exactly once, on its own component, not before its delay has passed and within a bounded time afterwards while the component runs. If it expires while the component is stopped, it fires once the component runs again.",
 SH + ["inputs"], "every delay, every interleaving of the timer thread with the component and its lifecycle",
 TEST + "they use the wall clock with two or three delays.",
 TIMER, [("component timer manager", "core/src/timer/timer_manager.rs")], ["timer handler calls with virtual time"])
prop("T02", "A periodic timer fires once per period until cancelled",
 "A periodic timer first fires after its delay and then again for every period, never more often than periods have passed, until it is cancelled or its component ends.",
 SH + ["inputs"], "every delay and period, every interleaving of the timer thread with the component and its lifecycle",
 TEST + "they use the wall clock with one period.",
 TIMER, [("component timer manager", "core/src/timer/timer_manager.rs")], ["timer handler calls with virtual time"])
prop("T03", "A cancelled timer never fires again and cancels nothing else",
 "After a component has cancelled one of its timers, that timer's handler never runs again, even if it had already expired and was queued. All other timers are unaffected, and the component goes on handling everything else.",
 SH, "every interleaving of cancellation with expiry",
 TEST + "cancelling in the window between expiry and handling is not sampled.",
 TIMER + ["core/src/component/actual_component.rs"], [("removal of the timer's closure", "core/src/timer/timer_manager.rs")], ["timer handler calls"])
NETF = ["schedules", "fault_sequences", "crash_points", "inputs", "configurations"]
NT = "network/src/transport/network_thread.rs"
NC = "network/src/transport/network_channel.rs"
ND = "network/src/dispatcher.rs"
NETWHY = "The network tests use the real loopback and OS scheduler, so short reads and writes, interrupted calls, resets, partitions and the interleaving of two network threads are left to chance; "
prop("N01", "Network messages arrive unchanged, only at the actor they are addressed to",
 "Every message an actor receives over the network (or through an actor path within its own system) is one that was sent to exactly that actor, with identical serialised content, serialisation id, sender path and receiver path, whichever way of sending was used and whatever its size, its size hint, the buffer configuration and the fragmentation of the byte stream. A unique path never reaches an actor of another incarnation of the system.",
 NETF, "every mix of ways to send, message sizes around the buffer boundaries, buffer configurations, short reads and writes, interrupted calls and interleavings of the network threads",
 NETWHY + "a boundary case in reassembling a frame needs one particular split of the stream.",
 ["core/src/net/buffers/decode_buffer.rs", "core/src/net/buffers/encode_buffer.rs", "core/src/net/frames.rs", "core/src/messaging/net_message.rs", "core/src/messaging/framing.rs", NC, NT],
 [("frame decoding", "core/src/net/buffers/decode_buffer.rs"), ("buffer encoding", "core/src/net/buffers/encode_buffer.rs"), ("channel reads and writes", NC)], ["network message handler calls"])
prop("N02", "Messages between two actors arrive in order and at most once over TCP",
 "Messages one actor sends to another one over TCP are handled at most once and in the order they were sent, also across lost, closed, reset, crossing and re-established connections. Between two messages that arrived over the same session, none that was sent in between is missing.",
 NETF, "every sequence of sends with connection resets, partitions, crashes, graceful disconnects and reconnects at any moment",
 NETWHY + "reordering needs messages to be rejected by a dying connection while others are being sent.",
 [ND, NT, NC, "network/src/queue_manager.rs"], [("queueing while not connected", ND), ("rejection of unsent frames", NT)], ["network message handler calls with session ids"])
prop("N03", "Over an unbroken network nothing is lost and nothing stalls",
 "While no connection is broken and nobody disconnects, every message sent over TCP to a running actor of a running system arrives, however slowly, fragmented or interrupted the input and output proceeds. Delays, temporary partitions and full socket buffers only delay messages. Once faults have stopped, messages between any two running systems get through within a few retry intervals.",
 NETF, "every pattern of short, interrupted and would-block system calls, delays, small socket buffers and temporary partitions",
 NETWHY + "a lost readiness edge stalls a connection for ever only after one particular error at one particular call.",
 [NT, NC, ND], [("event loop and readiness", NT), ("draining of outbound frames", NC), ("retries", ND)], ["network message handler calls"])
prop("N04", "Connecting from both ends at once yields one working connection",
 "However many connection attempts two systems make to each other at the same moment, by sending or by explicit requests, they end up with at most one session that both report, no message sent before, during or after the handshakes is lost as long as no connection is broken, and messages keep getting through in both directions.",
 NETF, "every interleaving of simultaneous sends and connection requests from both ends, every delay, fragmentation and refused attempt",
 NETWHY + "two handshakes crossing at each possible step are not sampled.",
 [NT, NC, ND], [("merging of channels", NT), ("handshake state", NC), ("connection requests", ND)], ["network message handler calls", "network status port events"])
prop("N05", "Connection events tell the true history of each connection",
 "For every remote system, the events a network status port shows alternate between one session's establishment and its end (lost, closed, dropped or blocked), each session is established and ended at most once and belongs to one pair of systems. When everything has settled the two ends of a connection report the same open session.",
 NETF, "every interleaving of connecting from both ends, disconnecting, losing and re-establishing connections",
 NETWHY + "crossing connection attempts that both complete are not tested.",
 [ND, NT, "network/src/events.rs"], [("handshake and merging of channels", NT), ("status events", ND)], ["network status port events"])
prop("N06", "Closing a connection gracefully loses nothing",
 "When either or both ends ask for a connection to be closed, at any moment relative to traffic, handshakes and requests to connect again, every message sent before or afterwards still arrives exactly once and in order (over the closing connection or a later one), as long as no connection is broken.",
 NETF, "every interleaving of requests to disconnect and connect with traffic in both directions, every delay and fragmentation",
 NETWHY + "both ends closing at once while a frame is only partially written is not sampled.",
 [NC, NT, ND], [("close handshake", NC), ("closing and rejecting unsent frames", NT), ("acknowledgement of closing", ND)], ["network message handler calls"])
prop("N07", "What is blocked stays out, and what is allowed gets through",
 "Once a request to block a system, an address or a range of addresses has been confirmed, no message passes between it and the system that blocked it, in either direction, until it is allowed again; rules for addresses and ranges apply in the order they were given, and allowing or blocking a particular system takes precedence over them. After allowing, messages pass again. Systems to which no rule applies lose nothing.",
 NETF, "every sequence of block and allow requests for systems, addresses and ranges, at every moment relative to traffic, handshakes and connection attempts",
 NETWHY + "blocking is tested once per kind of rule, on an idle connection.",
 [NT, ND, "network/src/events.rs"], [("rules", NT), ("blocked connections", ND)], ["network message handler calls", "network status port events"])
prop("N08", "Connection limits hold, and nothing gets lost or stuck because of them",
 "A system never has more open connections than its hard limit, and settles at no more than its soft limit. Closing a connection because of the soft limit loses nothing; a message that the hard limit turns away is either delivered later or its sender's system is told that the connection was dropped. Whatever the limits, systems go on reaching each other.",
 NETF, "every combination of limits on every system and every order of connecting and sending between more systems than the limits admit",
 NETWHY + "the limits are tested with a few connections made one after the other.",
 [NT, ND, NC], [("limits", NT), ("dropped connections", ND)], ["network message handler calls", "network status port events"])
prop("N09", "Datagrams arrive intact or not at all, and never harm anything else",
 "A message sent over UDP arrives at most as often as the network delivers its datagram, complete and unchanged, only at the actor it is addressed to, and with its sender's path. Losing, duplicating, delaying and reordering datagrams affects no other message.",
 NETF, "every pattern of loss, duplication, delay and reordering of datagrams mixed with TCP traffic",
 NETWHY + "UDP over the loopback neither loses nor duplicates anything.",
 ["network/src/transport/udp_state.rs", NT, ND], [("datagram send and receive", "network/src/transport/udp_state.rs")], ["network message handler calls"])
prop("N11", "Restarted systems are reached again, and old messages do not haunt them",
 "After a process or its machine has crashed at any moment, the other systems notice the loss, go on working, and reach its next incarnation at the same address as soon as it is up and connections are retried. Messages for unique paths of the old incarnation never reach the new one, and no message is delivered twice because of the crash.",
 NETF, "every crash point of every node, with or without the connections being reset, and every restart time",
 NETWHY + "no test kills a system in the middle of a handshake or a write and starts it again.",
 [ND, NT, NC], [("loss detection", NT), ("retries and queues", ND)], ["network message handler calls and status events"])
prop("N12", "Messages passed on by other actors stay complete and in order",
 "A message that an actor forwards through an actor path, unopened and over any combination of local and remote hops, arrives with its original content, serialisation id and either the original or the forwarder's path as its sender, as chosen. Forwarded messages of one sender through one forwarder keep their order, and none is lost or duplicated while no connection is broken.",
 NETF, "every chain of local and remote hops, ways of sending, sizes, interleavings and input/output fragmentation",
 NETWHY + "forwarding of buffered messages is tested with single small messages.",
 ["core/src/actors/paths_dispatch.rs", "core/src/messaging/net_message.rs", "core/src/messaging/dispatch.rs", ND], [("forwarding", "core/src/actors/paths_dispatch.rs"), ("re-serialisation of received data", "core/src/messaging/dispatch.rs")], ["network message handler calls"])
prop("N10", "Malformed or undeliverable traffic harms no other traffic",
 "Whatever bytes or datagrams any host sends to a system's port, whatever frames a peer sends in an order the protocol does not allow, and whatever paths of other systems actors send messages to (non-existing actors, the root path, broadcast and select markers without members), the system keeps running: the offending connection may end and the offending message is dropped, and all other messages over all other connections and datagrams still arrive complete, in order and exactly once.",
 NETF, "every mix of malformed byte streams, frames, messages and datagrams with ordinary traffic, in any interleaving and fragmentation",
 NETWHY + "no test sends the network thread anything but well-formed frames in the expected order.",
 [NT, NC, "network/src/transport/udp_state.rs", "core/src/net/frames.rs", "core/src/net/buffers/decode_buffer.rs", "core/src/messaging/framing.rs", "core/src/serialisation/ser_helpers.rs"], [("frame decoding", "core/src/net/frames.rs"), ("handshake state", NC), ("message decoding", "core/src/serialisation/ser_helpers.rs")], ["raw sockets of a simulated stranger", "network message handler calls", "panics of any thread"])
prop("N13", "Shutting a networked system down always completes",
 "Shutting down a system with networking completes whatever its connections are doing: handshakes, unsent data, peers that are partitioned, crashed or shutting down at the same time. Its actors see no message afterwards, its port can be used by a new incarnation, and the other systems are told that their connection ended and go on undisturbed.",
 NETF, "every moment of shutting down relative to traffic, handshakes, faults and the shutdown of other systems",
 NETWHY + "the tests shut systems down only after all traffic has come to rest.",
 [NT, ND, "network/src/transport/mod.rs", "core/src/runtime/system.rs"], [("network shutdown", "network/src/transport/mod.rs"), ("dispatcher stop", ND)], ["completion of the shutdown", "network message handler calls", "network status events of the other systems"])
BUF = ["core/src/net/buffers/mod.rs", "core/src/net/buffers/buffer_pool.rs", "core/src/net/buffers/encode_buffer.rs", "core/src/net/buffers/decode_buffer.rs", "core/src/net/buffers/chunk_lease.rs", "core/src/net/buffers/chunk_ref.rs"]
prop("B01", "Serialised data is never overwritten or freed while someone still needs it",
 "The memory behind a serialised message (queued for the network, kept by a receiver, or forwarded) is neither reused nor given back to its allocator before the last holder has let go of it: not when actors that sent or received it have gone away, not when the buffers run short in the middle of serialising something else, and not when the system it came from has shut down. Every chunk is given back to its allocator at most once.",
 NETF, "every mix of keeping, forwarding, queueing and dropping messages with short-lived senders, shortage of buffers and shutdown, with an allocator that wipes what it gets back",
 NETWHY + "reuse of memory that is still referred to shows only under particular lifetimes and fill levels.",
 BUF + [ND], [("ownership of chunks", "core/src/net/buffers/mod.rs"), ("reclaiming of buffers", "core/src/net/buffers/buffer_pool.rs")], ["contents of messages read at any later time", "calls to a custom chunk allocator"])
prop("B02", "Running short of buffers passes without lasting harm",
 "When actors or the network thread run out of buffers because messages are kept, messages may be refused, delayed or, as documented, dropped, but once the messages have been let go everything works as before: connections get through again, no message is delayed any longer, a message needing most of the configured buffers can be sent and received, and after all systems have shut down the network has given all chunks back to its allocator.",
 NETF, "every fill level of minimal buffer pools relative to message sizes, keeping and dropping of messages",
 NETWHY + "exhausting the network's buffers at a chosen moment and letting go of them again is not tested.",
 BUF + [NT], [("buffer pool", "core/src/net/buffers/buffer_pool.rs"), ("waiting for buffers", NT)], ["results of eager sends", "network message handler calls", "calls to a custom chunk allocator"])
RLK = "core/src/dispatch/lookup/mod.rs"
RTR = "core/src/dispatch/lookup/path_trie.rs"
RDF = "core/src/default_components.rs"
RGR = "core/src/routing/groups.rs"
RSY = "core/src/runtime/system.rs"
prop("R01", "Registrations take effect once confirmed, and paths reach the actor registered",
 "Every registration of an alias, a unique path or a routing policy is answered, and behaves as if it happened at one moment between request and answer: a name that is taken is refused unless an update was asked for, an update replaces what was there, and from the answer on messages to the path reach exactly the actor registered last. Registrations under other names, nested or not, removals of dead components, and paths that are refused as invalid affect nobody else. Names of dead components become free again.",
 ["schedules", "programs", "histories"], "every history of concurrent registrations, updates, lookups, sends (local and from another system) and deaths of components over nested paths",
 "Concurrent updates and reaping of the lookup tree are not tested; each test registers one or two names at rest.",
 [RLK, RTR, "core/src/dispatch/lookup/gc.rs", RDF, "core/src/actors/paths.rs", RSY, ND], [("lookup tree", RLK), ("path segments", RTR), ("local dispatcher", RDF), ("reaping and registration over the network", ND)], ["registration promises", "message handler calls"])
prop("R02", "Routing groups reach all members, or exactly one, and share fairly",
 "A message sent to a broadcast path reaches every actor registered below the path at that moment exactly once, and one sent to a select path reaches exactly one of them: in turn under the round-robin policy, the same one for the same key under a hash policy while the group does not change. The same holds for messages from other systems. Registering elsewhere does not disturb a group, and groups without members harm nothing.",
 ["schedules", "programs", "histories"], "every history of concurrent group registrations, policies (explicit and implicit), deaths of members and sends from several local and remote senders",
 "The tests send to one group of fixed members from one sender.",
 [RGR, RLK, RTR, RDF, ND, NT], [("routing policies", RGR), ("lookup of groups", RLK), ("routing of remote messages", NT)], ["message handler calls"])
prop("R03", "What has no receiver goes to the deadletter box, exactly once",
 "A message sent to a path at which no actor is registered, from the same or from another system, is given to the system's deadletter box exactly once, unchanged; a message that reached an actor is not.",
 ["schedules", "programs", "histories"], "every history of registrations and deaths of components concurrent with sends to existing and non-existing paths",
 "The deadletter box is not tested with concurrent registrations nor with messages from other systems.",
 [RDF, ND, NT, RLK], [("local dispatcher", RDF), ("dispatcher", ND), ("messages from other systems", NT)], ["handler calls of a custom deadletter box", "message handler calls"])
prop("C01", "Configuration values merge in the documented order of precedence",
 "A configuration value read from a system is the one from the last configured source that defines it, and otherwise the documented default.",
 ["inputs"], "every combination of configuration sources", "The tests sample a few files.",
 ["core/src/runtime/config.rs"], [("configuration builder", "core/src/runtime/config.rs")], claim=False,
 na="Loading configuration is a pure sequential function of its inputs, evaluated before the system exists: no schedule, clock, I/O fault or second party can influence it, so deterministic simulation has nothing to decide.")
