"""The property table: gen.py writes properties.jsonl and MANIFEST.json from it."""
L = "score/mw/com/impl/bindings/lola/"
I = "score/mw/com/impl/"
MP = "score/message_passing/"
SH = "score/memory/shared/"
GW = "score/mw/com/gateway/"
P = []
SCHED = "stateless exploration of all interleavings of the real code (preemption-bounded, happens-before state pruning)"
SEQ = "explicit-state search over all operation sequences on the real code against a reference model"
CRASH = "exhaustive crash-point enumeration on the real code under the controlled scheduler"
FAULT = "exhaustive fault-point and interleaving enumeration on the real code over an in-memory operating system"

def p(id, title, statement, over, text, why, files, mech, technique, note, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, reason=reason or "check not built yet"))

p("E01", "A sample a consumer holds is never torn, overwritten or reused",
  "From the moment a consumer receives a sample until it releases it, the content and identity of that sample are exactly what the provider published, no matter how the provider and other consumers proceed at the same time. The provider never gets a slot for writing that any consumer references, a consumer never receives a slot that is being written, and nothing stays referenced once every holder released it.",
  ["schedules"], "every interleaving of one provider sending and one or two consumers fetching, holding and releasing samples, with and without an ASIL-B level, up to a preemption bound",
  "A torn or reused sample needs one specific interleaving of the lock-free slot operations; unit tests run each operation alone on one thread.",
  [L+"event_slot_status.cpp", L+"provider_event_data_control_local_view.cpp", L+"consumer_event_data_control_local_view.cpp", L+"event_data_control_composite.cpp", L+"slot_collector.cpp", L+"slot_decrementer.cpp", L+"sample_ptr.h"],
  [("compare-and-swap on the slot state word", L+"provider_event_data_control_local_view.cpp"), ("reference counting of slots", L+"consumer_event_data_control_local_view.cpp")],
  SCHED, "Exhaustive within the preemption bound at sequentially consistent granularity; weak memory is covered through happens-before race detection on the payload.")
p("E02", "Consumers get every retained sample in order, newest first limited, exactly once",
  "A fetch hands a consumer published samples it has not been given before, each exactly once, in publication order across and within fetches; when fewer are requested than are available it is the newest ones. A sample that was published before the fetch and is still retained is not skipped except in favour of newer ones, and the reported number of new samples is the number a fetch would deliver.",
  ["histories"], "every sequence of allocate, publish, discard, fetch, count and release operations over the listed slot and consumer configurations until the state space closes or the depth bound",
  "Unit tests use short fixed histories; skipping or repeating a sample needs a particular combination of slot reuse, held samples and request sizes.",
  [L+"slot_collector.cpp", L+"consumer_event_data_control_local_view.cpp", L+"provider_event_data_control_local_view.cpp"],
  [("time-stamp ordered slot collection", L+"slot_collector.cpp"), ("newest unreferenced slot search", L+"consumer_event_data_control_local_view.cpp")],
  SEQ, "Every history within the bounds runs on the real code and is compared step by step with a list-of-samples model.")
p("E03", "Allocation takes a free or the oldest unreferenced slot and fails only without",
  "Allocating a sample succeeds exactly if some slot is neither being written nor referenced by a consumer; it prefers never-used or discarded slots and otherwise replaces the oldest unreferenced sample. Several samples can be in flight, published in any order or discarded, and the latest published time stamp is always known.",
  ["histories"], "every sequence of allocate, publish, discard, fetch and release operations over the listed configurations",
  "Which slot is reused depends on the full history of publications and references; tests look at a few hand-made states.",
  [L+"provider_event_data_control_local_view.cpp", L+"event_data_control_composite.cpp"],
  [("oldest unused slot search", L+"provider_event_data_control_local_view.cpp")],
  SEQ, "Every history within the bounds runs on the real code and is compared step by step with a reference model of the slots.")
p("E04", "A misbehaving QM consumer cannot disturb ASIL-B communication",
  "Whatever a QM process writes into the control data it can reach, the ASIL-B consumers of the same event keep receiving every published sample in order with correct content and the provider keeps sending; the QM side is cut off instead. Without misbehaviour both quality levels see the same samples and a slot is reused only if no consumer of either level references it.",
  ["histories", "schedules"], "every sequence of provider, ASIL-B consumer, QM consumer and rogue QM operations up to a depth bound, and all interleavings of a rogue writer up to a preemption bound",
  "Freedom from interference must hold for every corruption at every moment; tests check one corrupted state.",
  [L+"event_data_control_composite.cpp"], [("slots are claimed at both levels, QM is dropped on conflict", L+"event_data_control_composite.cpp")],
  "explicit-state search plus interleaving exploration of the real code with a rogue writer", "Corruptions are drawn from the values a QM process can produce with the documented slot protocol and all-ones/zero words.")
p("E05", "Subscriber and slot limits of an event hold under concurrent subscriptions",
  "Concurrent subscribe and unsubscribe calls behave as if executed one after the other: a subscription is granted if the subscriber limit (and, when enforced, the sample-slot limit) leaves room and refused with the matching reason otherwise. Granted limits are never exceeded and an unsubscribe returns exactly what the subscription took.",
  ["schedules"], "every interleaving of two or three processes subscribing and unsubscribing, including spuriously failing atomic updates, up to a preemption bound; every sequential history over small limits",
  "Exceeding the limit needs two processes between the same read and write; tests subscribe from one thread.",
  [L+"event_subscription_control.cpp", L+"event_subscription_control.h"], [("packed counter with compare-and-swap", L+"event_subscription_control.cpp")],
  SCHED, "Each concurrent history is checked for linearizability against a sequential counter model; refusal because of retry exhaustion is allowed only under contention.")
p("E06", "A subscription's state follows subscribe, offer and stop-offer events",
  "For every order of subscribe, unsubscribe, service stop-offer and re-offer, the reported subscription state, the ability to fetch samples and the number of held provider resources follow the documented life cycle: subscribed, pending while the service is gone, subscribed again when it returns. Whoever unsubscribes or is destroyed leaves no subscription, receive-handler registration or slot reference behind.",
  ["histories"], "every sequence of subscribe (varying sample counts), unsubscribe, stop-offer, re-offer (same or new provider), set and unset receive handler, fetch and release up to a depth bound",
  "The life cycle is a product of proxy state and remote state; tests visit individual transitions.",
  [L+"subscription_state_machine.cpp", L+"subscription_state_machine_states.cpp", L+"subscription_subscribed_states.cpp", L+"subscription_subscription_pending_states.cpp", L+"subscription_not_subscribed_states.cpp", L+"subscription_helpers.cpp"],
  [("subscription state machine", L+"subscription_state_machine.cpp")], SEQ, "Runs the real state machine against real shared event control data with a recording messaging stand-in.")
p("E07", "A consumer never holds more samples than it subscribed for, and gets slots back",
  "The number of samples a consumer holds from one subscription never exceeds the number it asked for at subscription; a fetch delivers at most the free remainder and each released sample makes exactly one more available, even when samples are released on other threads. Moving, swapping or resetting samples never loses or duplicates one.",
  ["histories", "schedules"], "every sequence of fetch, move, swap, reset and destroy operations on held samples up to a depth bound, and every interleaving of fetching with concurrent releases",
  "Leaks and double releases need particular move/assign sequences or a release racing with a fetch.",
  [I+"sample_reference_tracker.cpp", I+"sample_reference_tracker.h", I+"plumbing/sample_ptr.h", I+"proxy_event.h", L+"sample_ptr.h"],
  [("reference tracker with guard objects", I+"sample_reference_tracker.h")], "explicit-state search over operation sequences plus interleaving exploration of the real code", "Samples of the real binding on real control data, plus the tracker alone under threads.")
p("E08", "Receive handlers are notified of every publication, and never after removal",
  "Once a receive handler is registered, each later notification by the provider (local or remote) invokes it, and once its removal has returned it is not invoked any more. Provider side bookkeeping of interested nodes matches the registrations at every quiescent moment.",
  ["schedules", "histories"], "every interleaving of registration, removal and notification from up to three threads up to a preemption bound, and every sequence of operations up to a depth bound",
  "A lost or late call needs registration, removal and notification to overlap at a particular point.",
  [L+"messaging/message_passing_service.cpp", L+"messaging/message_passing_service_instance.cpp"],
  [("handler registry under locks", L+"messaging/message_passing_service_instance.cpp")], SCHED, "Message transport is a recording stand-in.")
p("R01", "A crashed consumer's references are rolled back completely and exactly once",
  "If a consumer process dies at any point while fetching, holding or releasing samples or while subscribing or unsubscribing, then after its restart has completed recovery no slot, subscription or sample budget of its earlier life remains taken and nothing belonging to other consumers was touched. If the process died in the very middle of one such operation, recovery may instead refuse with an error, but never half-recover into a wrong state. Other consumers and the provider work correctly before, during and after that recovery.",
  ["crash_points", "schedules"], "a crash at every shared-memory write of the consumer, with and without interleaved provider steps, followed by recovery",
  "The window between a logged intention and its completion is a few instructions; tests fabricate a handful of log states.",
  [L+"transaction_log.cpp", L+"transaction_log_local_view.cpp", L+"transaction_log_set.cpp", L+"transaction_log_rollback_executor.cpp", L+"transaction_log_slot.cpp"],
  [("transaction log with begin/commit marks", L+"transaction_log_local_view.cpp"), ("rollback", L+"transaction_log_rollback_executor.cpp")],
  CRASH, "Each crash keeps the shared memory as it was and drops the process-local state.")
p("R02", "A provider can restart after a crash at any point and keep serving",
  "If a provider process dies at any point of allocating, writing or publishing samples, a restarted provider that takes over the existing shared data makes all slots usable again, keeps samples consumers still hold intact, continues with larger time stamps and never terminates or blocks because of what its predecessor left. Consumers keep receiving in order across the restart. Only references taken for tracing whose logging was itself cut short may stay taken; tracing is then off.",
  ["crash_points"], "a crash at every shared-memory write of the provider for QM-only and ASIL-B events, with consumers holding samples, followed by restart and further sends",
  "Each crash point leaves a different intermediate state across the two quality levels; tests construct one.",
  [L+"event_data_control_composite.cpp", L+"provider_event_data_control_local_view.cpp", L+"skeleton_memory_manager.cpp"],
  [("cleanup of slots in writing", L+"provider_event_data_control_local_view.cpp")], CRASH, "The restart sequence is the one the skeleton performs on existing shared memory.")
p("R03", "Transaction logs are exclusively owned and crashed owners are all recovered",
  "Concurrent registrations never share a transaction log and succeed as long as one is free; unregistering frees exactly that log. After a restart every log left by the same identity is rolled back exactly once, even when several proxies of the identity recover concurrently, and logs of other identities stay untouched.",
  ["schedules", "crash_points"], "every interleaving of two or three registrations, un-registrations and recoveries up to a preemption bound, and a crash at every write of a registration",
  "Tests register and recover sequentially.",
  [L+"transaction_log_set.cpp", L+"transaction_log_registration_guard.cpp"], [("log claim by compare-and-swap", L+"transaction_log_set.cpp")], SCHED, "Race checked on the log ownership ghost state.")
p("R04", "Each application identifier maps to one process and exposes the outdated one",
  "Concurrent registrations of application identifiers with process ids all succeed while there is room, keep exactly one entry per identifier, and return the previously registered process id of that identifier, so a restarted application always learns the id it had before. A registration interrupted by a crash is completed by the next one of the same application and never blocks others.",
  ["schedules", "crash_points"], "every interleaving of two or three registering processes, a crash at each write, spurious compare-exchange failures; every sequential history over small tables",
  "Two registrations racing for the same free entry or a crash inside a registration are not reachable in a unit test.",
  [L+"application_id_pid_mapping.h", L+"application_id_pid_mapping.cpp", L+"application_id_pid_mapping_entry.cpp"], [("entry state machine with compare-and-swap", L+"application_id_pid_mapping.h")], SCHED, "")
p("M01", "Offset pointers resolve to their target in every mapping and never outside it",
  "An offset pointer denotes the same object after being copied, moved, assigned, converted or compared, whether it lives in shared memory or on the stack and at whatever address the memory is mapped; null stays null. With bounds checking enabled every dereference that would reach outside the memory region it belongs to terminates instead, including element access at computed indices.",
  ["histories", "inputs"], "every sequence of pointer operations (assign, copy to stack, copy back, increment, compare, convert, remap) up to a depth bound over regions with boundary-near targets",
  "The result depends on where pointer, copy and target live; tests enumerate some pairs.",
  [SH+"offset_ptr.h", SH+"offset_ptr_bounds_check.cpp", SH+"managed_memory_resource.h"], [("self-relative offset", SH+"offset_ptr.h"), ("bounds check", SH+"offset_ptr_bounds_check.cpp")], SEQ, "")
p("M02", "Region bounds lookups always see a consistent, current set of regions",
  "A lookup running concurrently with registration and removal of memory regions answers from a consistent set: a region registered before the lookup began and not removed until it ended is found with its exact bounds, and one removed before or never registered is not. Overlapping registrations are rejected, and lookups never block or miss because of a writer within the documented retry budget.",
  ["schedules", "histories"], "every interleaving of one writer and one or two readers up to a preemption bound; every sequence of insert, remove and lookup up to a depth bound",
  "A stale or torn snapshot needs the reader to stop inside the version acquisition.",
  [SH+"memory_region_map.cpp", SH+"memory_region_map.h", SH+"memory_resource_registry.cpp"], [("versioned snapshots with reference counts", SH+"memory_region_map.cpp")], SCHED, "")
p("M03", "Shared-memory allocations are aligned, disjoint and inside the region",
  "Allocations from a shared-memory resource are aligned as requested, lie completely inside the usable region, and never overlap each other or the management data, also when several processes or threads allocate at the same time. A request that does not fit is refused without handing out memory, and the accounted size never exceeds the region.",
  ["schedules", "inputs"], "every interleaving of two or three allocating threads up to a preemption bound; every combination of sizes and alignments from a boundary-value set for sequences of up to four requests",
  "Overlap needs two allocations between read and update of the fill level; boundary sizes and alignments multiply.",
  [SH+"shared_memory_resource.cpp", SH+"pointer_arithmetic_util.cpp"], [("bump allocation with compare-and-swap", SH+"shared_memory_resource.cpp")], SCHED, "")
p("M04", "Shared-memory objects appear only complete and are created by exactly one party",
  "When several processes create or open the same shared-memory object, at most one creates it, nobody obtains an object that is not fully initialised, and everyone who succeeds maps the same object with the requested size and permissions. A creator's failure or death at any step leaves no state that makes later creation impossible or lets others use an incomplete object. The threads of one process may create, open and let go of an object at the same time.",
  ["schedules", "histories", "crash_points", "fault_sequences"], "every interleaving of two processes (and of three up to a smaller bound) creating, opening and creating-or-opening at system-call granularity up to a preemption bound, each system call failing once, a crash at each system call, two threads of one process, and every sequence of operations of two processes of different users up to a depth bound",
  "The races are between system calls of different processes; unit tests mock one fixed call sequence.",
  [SH+"shared_memory_resource.cpp", SH+"shared_memory_factory.cpp", SH+"lock_file.cpp"], [("exclusive creation guarded by a lock file", SH+"shared_memory_resource.cpp")], FAULT, "The operating system is an in-memory model of files, shared memory objects and permissions.")
p("M05", "File locks are exclusive or shared as requested, owned once, and always released",
  "At most one holder of an exclusive file lock, or any number of shared holders but never both, exists at a time; a non-blocking attempt succeeds exactly if that is possible. Ownership moves with the lock objects, is released exactly once when the last owner goes away or its process dies, and lock files are removed exactly by their owner.",
  ["histories", "schedules", "fault_sequences"], "every sequence of lock, try-lock, unlock, move and destroy operations up to a depth bound and every interleaving of two or three processes, with injected failures of the lock operations",
  "Double release or lost ownership needs particular move sequences and failing calls.",
  [SH+"flock/flock_mutex_and_lock.h", SH+"flock/flock_mutex.cpp", SH+"flock/exclusive_flock_mutex.cpp", SH+"flock/shared_flock_mutex.cpp", SH+"lock_file.cpp"], [("advisory file lock wrapper", SH+"flock/flock_mutex.cpp")], FAULT, "File locks are an in-memory model of open file descriptions.")
p("M06", "The computed shared-memory size always suffices for the configured service",
  "For every combination of events, fields, sample slots, subscribers and quality levels, the shared-memory size the provider computes is enough to construct all its control and data structures.",
  ["configurations"], "every combination of service elements, slot counts, subscriber counts, payload sizes and alignments from boundary sets",
  "Tests try a few deployments; alignment padding makes the sum configuration dependent.",
  [L+"skeleton_memory_manager.cpp", L+"service_data_storage.h", SH+"new_delete_delegate_resource.cpp"], [("dry-run with a counting allocator", L+"skeleton_memory_manager.cpp")], "exhaustive enumeration of configurations on the real code", "")
p("D01", "A search finds exactly the offered service instances at the requested quality",
  "A service search returns exactly the instances that are offered at that time for the requested service, instance (or any) and quality level; an instance becomes visible when its offer completed and disappears when its offer is withdrawn, also for asynchronous searches. Stale marker files of crashed providers do not make a service findable forever or block a new offer.",
  ["histories", "schedules", "crash_points"], "every sequence of offer, stop-offer, crash, one-shot find and asynchronous find for two services/instances/qualities up to a depth bound over an in-memory file system",
  "Visibility is a function of the whole offer history and file-system event order; tests replay fixed event lists.",
  [L+"service_discovery/client/service_discovery_client.cpp", L+"service_discovery/flag_file.cpp", L+"service_discovery/flag_file_crawler.cpp", L+"service_discovery/known_instances_container.cpp", L+"service_discovery/quality_aware_container.cpp"], [("flag files and directory watches", L+"service_discovery/client/service_discovery_client.cpp")], SEQ, "")
p("D02", "Find-service handlers run for every change and never after the search stopped",
  "Every started search gets its handler called with the current set of instances for each change of that set, calls for one search do not overlap, and after stopping the search has returned (other than from within the handler) the handler is not running and is never called again. Handles are unique, starting or stopping searches inside a handler works without deadlock, and once later changes were delivered a stopped search leaves neither its handler nor directory watches behind.",
  ["schedules", "histories"], "every interleaving of a worker delivering changes with threads starting and stopping searches, up to a preemption bound",
  "Stop racing with delivery is a matter of a few instructions.",
  [L+"service_discovery/client/service_discovery_client.cpp", I+"service_discovery.cpp"], [("locked search registry", L+"service_discovery/client/service_discovery_client.cpp")], SCHED, "")
p("O01", "Service elements stay bound to their moved owner and fields start with a value",
  "After any sequence of moving, assigning and destroying providers and consumers, each event, field and method refers to the live object it belongs to, and ownership flags are held by exactly one object. Offering succeeds only if every field has an initial value, publishes those values before the service becomes visible, and withdrawing the offer undoes it exactly once.",
  ["histories"], "every sequence of offer, stop-offer, update, move-construct, move-assign and destroy operations up to a depth bound",
  "Dangling references appear only after particular move chains.",
  [I+"skeleton_base.cpp", I+"skeleton_base.h", I+"flag_owner.cpp", I+"reference_to_moveable.h", I+"skeleton_field.h", I+"proxy_base.cpp", I+"service_element_map_view.cpp"], [("ownership flags and move tracking", I+"skeleton_base.h")], SEQ, "")
p("C01", "Valid configurations are represented faithfully and invalid ones rejected",
  "Parsing a deployment configuration yields exactly the services, instances, elements, limits and quality levels written in it, with documented defaults for what is absent, and a configuration violating a documented rule is rejected by terminating instead of being used. No combination of present and absent optional entries is misread.",
  ["configurations", "inputs"], "every combination of optional entries and boundary values over a bounded configuration grammar, with single-rule violations",
  "Defaults and rules interact; tests have a fixed list of documents.",
  [I+"configuration/config_parser.cpp", I+"configuration/configuration.cpp"], [("configuration parser", I+"configuration/config_parser.cpp")], "exhaustive enumeration of a bounded configuration grammar on the real parser against an independent interpretation", "")
p("C02", "Identifiers are accepted exactly by grammar, round-trip, and compare by content",
  "An instance specifier is accepted exactly if it follows the documented grammar. Serialising an instance identifier and creating it again gives an equal one that denotes the same deployment; equality, ordering and hashing of identifiers are consistent with their content, and malformed serialised text never yields an identifier.",
  ["inputs"], "every string up to a length bound over an alphabet of grammar-relevant characters; every identifier over boundary values of each component",
  "Tests use example strings.",
  [I+"instance_specifier.cpp", I+"instance_identifier.cpp", I+"configuration/lola_service_instance_deployment.cpp", I+"configuration/service_identifier_type.cpp", I+"configuration/service_version_type.cpp"], [("specifier grammar check", I+"instance_specifier.cpp"), ("serialisation", I+"instance_identifier.cpp")], "exhaustive enumeration of bounded inputs on the real code against an independent acceptor", "")
p("P01", "A client connection reports each state change once and serves every request once",
  "For every order of connection attempts, disconnects, failures, stop, restart and requests, a client connection moves only along its documented states, reports each change exactly once and in order, and stops for good only with the true reason. Every accepted request gets exactly one reply or failure callback, and no callback arrives after the connection stopped or was destroyed. A stopped connection can be restarted and then has its full queue again.",
  ["histories", "schedules", "fault_sequences"], "every sequence of user operations, engine events and injected transport errors up to a depth bound, and every interleaving of a user thread and the engine thread up to a preemption bound",
  "Tests script one order of engine events at a time.",
  [MP+"client_connection.cpp", MP+"client_connection.h"], [("connection state machine", MP+"client_connection.cpp")], SEQ, "The transport engine is a stand-in that enumerates its answers.")
p("P02", "Messages arrive complete, in order, once, at the right connection",
  "Messages and replies sent over a connection arrive at the peer's handlers completely, unmodified, exactly once and in the order sent; a server's view of connected clients matches the connections that exist, and limits on size, queue length and client number are enforced with an error instead of loss. Failures of one connection do not affect the others.",
  ["histories", "fault_sequences"], "every sequence of connect, send, send-with-reply, notify, reply, disconnect and I/O faults up to a depth bound over an in-memory socket layer",
  "Tests send a few messages over real sockets.",
  [MP+"unix_domain/unix_domain_engine.cpp", MP+"unix_domain/unix_domain_server.cpp", MP+"unix_domain/unix_domain_socket_address.h"], [("framed messages over a stream", MP+"unix_domain/unix_domain_engine.cpp")], SEQ, "")
p("P03", "Timed commands run once, not early, in time order, and never after cleanup",
  "Each registered timed command runs exactly once, not before its time, in order of due time (those due at the same time in the order of their registration), unless its owner was cleaned up first, in which case it never runs; registrations from inside a running command and from other threads are honoured. The queue always reports the time of its earliest outstanding entry.",
  ["histories", "schedules"], "every sequence of register (one-shot and repeated, different times), advance time, process and clean-up operations up to a depth bound, and interleavings of registration with processing",
  "Order and clean-up interact with callbacks that re-register; tests check a few.",
  [MP+"timed_command_queue.cpp", MP+"timed_command_queue.h"], [("sorted intrusive queue", MP+"timed_command_queue.cpp")], SEQ, "")
p("P04", "A waiter on a future returns exactly when it is ready, with the value",
  "Waiting returns exactly when the value was set, on every schedule and despite spurious wake-ups, and sees the complete value; no wake-up is lost. Once a wait has returned, the signalling side no longer touches the future, its mutex or its condition variable, so the waiter may destroy them immediately.",
  ["schedules"], "every interleaving of one signalling and one or two waiting threads, with spurious wake-ups, up to a preemption bound",
  "The lost wake-up and the late access happen only between particular instructions of the two threads.",
  [MP+"non_allocating_future/non_allocating_future.h"], [("flag under a mutex with a condition variable", MP+"non_allocating_future/non_allocating_future.h")], SCHED, "")
p("G01", "Gateway messages arrive exactly as they were sent, or are refused",
  "Every gateway message decodes to exactly the content that was encoded, and a byte sequence that is truncated, oversized or inconsistent is rejected without reading outside it or acting on partial content. Over a connection messages arrive complete and in order however the stream is cut into pieces; a request reported as delivered has reached the peer's handler (as long as the peer keeps running), one that nobody acknowledges is repeated a limited number of times and then fails with a timeout. A connection that breaks is established again, and shutting a transport down always comes to an end.",
  ["inputs", "schedules", "faults"], "every message over boundary values of its fields, every truncation, every change of one byte, every segmentation and every end of a stream; every history of the table of pending requests; every interleaving of two transports up to a preemption bound with resets, failing sends and shutdown at every point",
  "Tests encode typical messages, mock the socket and never let two transports run against each other.",
  [GW], [("message framing", GW+"transport_layer/sample/message_framer.cpp"), ("transport", GW+"transport_layer/sample/bidirectional_transport.cpp"), ("pending requests", GW+"transport_layer/sample/pending_request_tracker.cpp")], SCHED, "")
p("G02", "The gateway forwards exactly the configured services and removes what disappears",
  "The gateway offers a remote service locally exactly while the remote side provides it and forwards each event update of configured services exactly once; the gateway configuration holds exactly the values it was given, and documents that do not fit are refused. A request of the remote side that is lost or does not fit never takes the gateway down.",
  ["histories", "configurations"], "every sequence of remote and local availability changes and updates up to a depth bound",
  "Tests have single scenarios.",
  [GW], [("gateway application", GW)], SEQ, "")
p("A01", "Only permitted users reach a service's memory and methods",
  "A service's data is readable, and its control area of each quality level writable, by exactly its provider and the consumers its configuration allows for that level (everyone if none are named and permissions are not strict). A consumer uses a service only if it runs as a provider user its configuration names for that level; with no list for the level any user will do, unless permissions are strict. Method calls are accepted only from allowed consumers, their memory is reachable only by caller and provider, and a provider refuses method memory made by another user.",
  ["configurations"], "every combination of permission strictness, allowed consumer and provider lists of each quality level, provider user, consumer user and quality levels over a few users, on the complete communication stack",
  "A permission that is too wide never fails a functional test; only comparing who can open what for every configuration shows it.",
  [L+"skeleton_memory_manager.cpp", L+"proxy.cpp", L+"skeleton.cpp", SH+"shared_memory_resource.cpp"], [("access rights of data and control", L+"skeleton_memory_manager.cpp"), ("provider check of consumers", L+"proxy.cpp")],
  "exhaustive enumeration of permission settings on the real code over an in-memory operating system", "Lists that are present but empty are left open for methods.")
p("S01", "A method call runs once on the right provider with its arguments, or fails",
  "Each method call executes the provider's handler exactly once with the arguments the caller put in and delivers the handler's result to that caller, or reports an error without delivering a result. Calls through different queue positions, proxies or after provider restart never mix their arguments or results, and calls are executed only for subscribed proxies.",
  ["histories", "schedules"], "every sequence of subscribe, call (with in-place and copied arguments), unsubscribe and handler registration up to a depth bound, and interleavings of two callers",
  "Argument mix-ups need several calls in flight.",
  [L+"methods", I+"methods"], [("call queue in shared memory", L+"methods")], SEQ, "")
p("T01", "Traced samples stay untouched until their trace is done and are released once",
  "While asynchronous tracing of a sample is outstanding, its slot is not reused (until an ASIL-B provider has cut off its QM consumers, from when on nothing is traced); when the trace completion arrives, or tracing fails or is shut down, the reference is released exactly once and the slot becomes available again. Completions may come in any order, from any thread, late or for traces nobody waits for. Tracing never changes what consumers receive, and with its own slots configured a provider never runs out of samples because of it.",
  ["schedules", "histories"], "every sequence of sends (plain and allocated), completions in any order, failures, offers, stops and fetches up to a depth bound, and every interleaving of completions with the provider and a consumer up to a preemption bound",
  "Completions arrive on another thread in any order.",
  [I+"tracing", L+"tracing", L+"skeleton_event.h"], [("tracing slot references", L+"tracing"), ("completion handler", L+"tracing/tracing_runtime.cpp")], SEQ + " and schedule exploration of the real code", "")
p("T02", "Tracing errors disable exactly what they must and never disturb communication",
  "A recoverable trace error, or a send for which no trace slot is free, drops that trace only and is flagged as a loss on the next trace; a lasting error disables that trace point of that element only; a terminal one, or a refused registration of the process, disables tracing for good. Shared memory is registered once per offer and unregistered at its end. Provider and consumer trace points report the right sample, element and point, and whatever the tracing backend answers, communication calls return as if tracing was off.",
  ["fault_sequences"], "every sequence of provider and consumer calls with every answer of the trace backend to registrations, traces and unregistrations up to a depth bound",
  "The policy depends on the history of errors; tests answer one call at a time.",
  [I+"tracing/tracing_runtime.cpp", I+"tracing/common_event_tracing.cpp", I+"tracing/proxy_event_tracing.cpp", I+"tracing/skeleton_event_tracing.cpp", I+"tracing/skeleton_tracing.cpp", L+"tracing/tracing_runtime.cpp"], [("error handling", I+"tracing/tracing_runtime.cpp"), ("trace point enabling", I+"tracing/proxy_event_tracing.cpp")], SEQ, "The limit of consecutive failures is 2^32-1 and not reached.")
p("T03", "Exactly the configured trace points are traced",
  "For every trace filter configuration, a trace point of a service element is traced if and only if the configuration enables it for that element, service and instance; lookups are exact for every combination of names and point kinds. Distinct trace points never alias.",
  ["configurations"], "every subset of trace points over small sets of services, elements and instances",
  "Tests enable one point at a time.",
  [I+"tracing/configuration/tracing_filter_config.cpp", I+"tracing/configuration/hash_helper_utility.cpp", I+"tracing/configuration/tracing_config.cpp"], [("filter sets", I+"tracing/configuration/tracing_filter_config.cpp")], "exhaustive enumeration of configurations on the real code", "")
p("W01", "Composed services are held once, found by type and survive moves",
  "A set of provided services counts exactly the services added to it, in whatever style they were added; a container built from it reports that number and hands out exactly that set, only under the decorator it was composed with. Moving or swapping sets, containers and decorators transfers the services without losing, duplicating or destroying one early, an emptied object reports nothing, and every way of looking up a decorated service yields the same live object.",
  ["histories"], "every sequence of building, adding, looking up, moving, swapping, starting, stopping and destroying over two decorators, two containers, two sets and a builder until the state space closes",
  "Ownership after a chain of moves depends on the whole chain; tests move once.",
  ["score/mw/service/provided_service_container.h", "score/mw/service/backend/mw_com/provided_service_decorator.h", "score/mw/service/backend/mw_com/provided_service_builder.h"], [("type-erased set owned by the container", "score/mw/service/provided_service_container.h")], SEQ, "Starting and stopping have no effect in this code base beyond reaching the set.")
