#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=None):
    a = {"files": files, "mechanism": mech}
    if state:
        a["state"] = [dict(name=n, meaning=m, observe_at=o, hook_needed=False) for n, m, o in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))

W = "src/worker/"
G = "src/protocol/grpc/"
X = "src/execution_plans/"
D = "src/distributed_planner/"
CO = "src/coordinator/"

prop("C01", "Exchanges deliver every producer partition to exactly one consumer",
 "For every shuffle or broadcast exchange with P output partitions per consumer task, partition p of consumer task t reads producer partition t*P+p from every producer task, and the producing stage is scaled to exactly P times the number of consumer tasks. For every coalescing exchange the producer tasks are split into contiguous, non-overlapping groups that together cover all producer tasks, consumer task t reads all partitions of the t-th group, and no producer partition is skipped or read twice.",
 ["inputs", "configurations"], "all partition counts, all producer and consumer task counts, all plans",
 "Tests run a handful of task/partition counts, nearly all of which divide evenly; the partition arithmetic must agree across the wire for every combination.",
 [X+"network_shuffle.rs", X+"network_broadcast.rs", X+"network_coalesce.rs", X+"broadcast.rs", X+"common.rs", W+"impl_execute_task.rs", W+"worker_connection_pool.rs", "src/stage.rs"],
 "The exchange nodes compute the requested range from the task index and their own partition count; the producer head rescales the producing stage; the connection pool maps a requested partition to a stream slot.")

prop("C02", "Every task of a stage is dispatched once and read under the same identity",
 "Each task of a remote stage is sent its plan exactly once, under the identity (query, stage, task index) and to the worker recorded for that index in the plan the consumers read. Every later request about that task - executing it, feeding it work units, reading its metrics - uses that same identity and that same worker.",
 ["inputs", "configurations", "schedules"], "all queries, stage shapes, task counts and worker lists",
 "Identities are built independently at about ten places; tests mostly use one query at a time, one-to-one task/worker assignments and small stages, where mixed-up indexes coincide.",
 [CO+"query_coordinator.rs", CO+"prepare_static_plan.rs", CO+"prepare_dynamic_plan.rs", W+"worker_connection_pool.rs", W+"impl_coordinator_channel.rs", W+"impl_execute_task.rs", "src/metrics/task_metrics_rewriter.rs", CO+"metrics_store.rs", G+"worker_client.rs", G+"worker_service.rs"],
 "TaskKey{query_id, stage_id, task_number} keys the worker's registry, the coordinator's metrics store and each RPC.")

prop("C03", "No failure is silently dropped",
 "An error raised while encoding, decoding, planning, transporting or executing any part of a distributed query is either returned to the caller, forwarded into the stream the caller reads, or deliberately recovered by an enumerated best-effort site; it is never discarded in favour of a normal-looking result or end of stream.",
 ["fault_sequences", "inputs"], "every fallible operation in the crate and every error it can return",
 "A swallowed error only shows when that particular operation fails; the tests inject very few faults.",
 ["src/"], "Result values flow from their producers to `?`, returns, channels or error-carrying streams.")

prop("C04", "A failed remote stream fails every partition that depends on it",
 "When the connection or stream that multiplexes several partitions of a remote task fails, every partition still being read from it observes an error. No such partition ends as if it had been fully read.",
 ["fault_sequences", "schedules"], "all failure points of a multiplexed stream and all sets of live partitions",
 "Needs a transport failure between two messages while several siblings are live; the tests have only one such scenario.",
 [G+"worker_client.rs", W+"worker_connection_pool.rs"],
 "A demultiplexing task forwards messages to per-partition channels and clones a transport error into all of them; the connection future is shared with a cloneable error.")

prop("C05", "Partition streams and work-unit feeds are consumed at most once",
 "A partition of the remote stream an exchange operator reads, a consumer stream of a broadcast, and a partition of a work-unit feed, is handed to at most one reader; a second request for the same one fails with an error and never yields an empty or duplicated stream.",
 ["schedules", "programs"], "all orders and repetitions of execute calls",
 "Tests execute each partition once; double execution happens under plan re-use or buggy parents.",
 [W+"worker_connection_pool.rs", "src/work_unit_feed/"],
 "Slots are Mutex<Option<..>>/take-once containers whose absence is reported as an error.")

prop("C06", "A worker's task registry publishes each task once and always forgets it",
 "A task's plan is published to its waiting readers at most once, a failed set-up is published as an error instead of leaving readers waiting, and the entry of a task that was set up is removed when the coordinator's channel ends, on every path (entries of failed set-ups expire). Reads for a task that was never set up time out with an error, and readers that ask for a partition the task does not have get an error.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of set-up, execution and channel end",
 "Arrival orders and set-up failures are schedule dependent; tests cover the happy order.",
 [W+"impl_coordinator_channel.rs", W+"impl_execute_task.rs", W+"single_write_multi_read.rs", W+"task_data.rs", W+"worker_service.rs"],
 "A moka cache of write-once cells keyed by task identity.")

prop("C07", "Every feed and report stream is explicitly terminated",
 "The coordinator ends each task's stream of work units with an end marker however the feeding ends (normally, with an error or by cancellation), and on receiving it the worker closes every local feed so that readers finish. Every load-report stream from a worker is closed with its end marker once per task, and its completion does not depend on the data being read to the end.",
 ["schedules", "fault_sequences"], "all exits of the feeding and reporting loops",
 "A missing marker is only a hang in the interleavings where the early exit is taken.",
 [CO+"query_coordinator.rs", W+"impl_coordinator_channel.rs", "src/work_unit_feed/remote_work_unit_feed.rs", X+"sampler.rs"],
 "A drop guard sends the end marker; the worker drops its senders at the marker; SamplerExec reports feed a LoadInfoEos.")

prop("C08", "Ending or dropping a query releases everything it holds",
 "When the result stream of a distributed query is finished, fails or is dropped, the coordinator's notification that the query ended is raised on every path, each worker channel waits for that notification registered before any work could finish, and background work started for the query is owned by something that aborts or joins it.",
 ["schedules", "fault_sequences"], "all end-of-query paths, including drops at any await point",
 "Leaks and lost wake-ups need a drop at a specific await point.",
 [CO+"distributed.rs", CO+"query_coordinator.rs", W+"impl_coordinator_channel.rs", G+"worker_client.rs"],
 "NotifyGuard notifies on drop; eagerly created notified futures; JoinSet/SpawnedTask ownership.")

prop("C09", "Buffered bytes are accounted for exactly",
 "Every byte amount added to the in-flight accounting of a remote stream (memory reservation and back-pressure budget) when a message is buffered is subtracted again, with the same amount, when that message leaves the buffer - whether it was read or discarded because its reader went away.",
 ["schedules", "histories"], "all interleavings of arrival, reading and dropping of partitions",
 "The counters are only wrong after specific drop orders, and being wrong shows as a stall or as a leaked reservation much later.",
 [G+"worker_client.rs"], "reservation.grow/shrink plus Notify in the demultiplexer and in the per-partition streams.")

prop("C10", "Network buffering is bounded and back-pressure cannot be bypassed",
 "A worker never pulls more from its local plan than its bounded send queue admits, and a consumer stops pulling from the network while its buffered bytes exceed the configured budget, resuming as soon as they do not.",
 ["schedules", "inputs"], "all speeds of producers and consumers",
 "Only an overload shows the difference; tests move a few kilobytes.",
 [G+"worker_client.rs", G+"spawn_select_all.rs", G+"worker_service.rs"],
 "Bounded mpsc on the sender side, byte-budget gate on the receiver side.")

prop("C11", "Worker protocol messages survive the wire unchanged",
 "Every message exchanged between coordinator and workers decodes on the receiving side to the value that was encoded on the sending side: every field is carried, in its own place, and every kind of message is mapped to its counterpart. The in-process and the network transport therefore present the same messages.",
 ["inputs"], "all field values and all message kinds",
 "Tests use default-ish values (zero timestamps, single declarations), for which swapped or dropped fields are invisible.",
 [G+"worker_client.rs", G+"worker_service.rs", G+"worker.proto", "src/protocol/"],
 "Pairs of encode/decode functions between domain structs and prost messages.")

prop("C12", "Distributed plan nodes survive serialization unchanged",
 "Every distributed plan node that can be sent to a worker is decoded to a node of the same kind with the same schema, partitioning, stage identity, task placement, weights and children; a node that cannot be sent fails to encode instead of being altered.",
 ["inputs", "programs"], "all distributed plan nodes and all their parameters",
 "Round-trip tests cover selected nodes and parameters.",
 ["src/codec/distributed_codec.rs", "src/stage.rs"], "try_encode/try_decode over a prost oneof plus recursive codecs.")

prop("C13", "Errors keep their kind and message across the wire",
 "Every kind of engine, SQL-parser, schema, columnar, file-format, object-store and I/O error that crosses the wire is decoded as the same kind with the same payload, except for the kinds documented as carried as text, and every kind that can be encoded can be decoded.",
 ["inputs"], "all error variants, with all payloads and nestings",
 "There are over a hundred variants with hand-written tables in both directions.",
 [G+"errors/"], "Per-family from_*/to_* matches over prost oneofs.")

prop("C14", "Metrics keep their kind, name, labels and values across the wire",
 "Every metric kind that can be sent by a worker is decoded as the same kind with the same value, name, partition and labels, and metrics that cannot be carried are skipped or rejected without altering the others.",
 ["inputs"], "all metric kinds and values, all label sets",
 "Round-trip tests sample some values; several kinds share representations.",
 [G+"metrics_proto.rs"], "Mirrored match tables over MetricValue and the proto oneof.")

prop("C15", "Configuration and headers reach every worker on every request",
 "Every user-registered configuration extension is attached to every request that sets a task up, and every passthrough header of the session to both kinds of request (those that set a task up and those that read it); transports hand them on unchanged; a worker gives them to the session builder and restores its own configuration from them before it decodes or runs anything; each entry is restored under exactly its own name; reserved header names cannot be supplied by a user.",
 ["configurations", "inputs"], "all registered extensions, option values and user headers, all requests",
 "Tests check one extension on one path.",
 ["src/config_extension_ext.rs", "src/passthrough_headers.rs", CO+"query_coordinator.rs", W+"worker_connection_pool.rs", W+"impl_coordinator_channel.rs", G+"worker_client.rs", G+"worker_service.rs"],
 "Header maps built from the session config on the sending side and parsed on the worker.")

prop("C16", "User extensions take precedence over built-in behaviour",
 "User-registered event handlers, task estimators and worker-selection policies are consulted in registration order and before the built-in ones; the first that answers decides, and the built-in default applies only if none does. Codecs registered by users are all available, in registration order, for every node that the system does not define itself. Plan rewrites supplied by users are all applied, each to the output of the previous one.",
 ["configurations", "programs"], "all sets and orders of registered extensions",
 "Tests register a single extension of each kind.",
 ["src/events/", D+"task_estimator.rs", "src/codec/", "src/distributed_ext.rs", D+"session_state_builder_ext.rs"],
 "Chained handler lists walked with find_map/try_fold.")

prop("C17", "A join whose result depends on unmatched build rows is never broadcast",
 "A join's build side is replicated to the tasks of a stage only for join kinds that never emit or mark unmatched build-side rows; for every other join kind the join is either repartitioned on its keys or kept in a single task.",
 ["inputs", "programs"], "all join kinds, all join operators and all plans",
 "A wrongly replicated outer, semi or anti join duplicates rows only for data with unmatched rows and more than one task.",
 [D+"insert_broadcast.rs", D+"normalize_collect_joins.rs"],
 "Join-type tables that decide where broadcasts are inserted and which collect joins are rewritten.")

prop("C18", "Stages that must see all rows run in exactly one task",
 "Whatever task counts are estimated, a part of the plan that must see all rows in one place (the consumer of a coalescing exchange, anything limited to a maximum, and every operator whose result depends on its input being a single partition, such as limits, sorts, windows and aggregations without keys) is never planned with more tasks than that limit unless an exchange gathers or replicates the rows first; a task count never exceeds the configured maximum per stage, every node of a stage gets the count of its stage, and no stage is planned with zero tasks.",
 ["inputs", "configurations"], "all plans, all estimators and their answers",
 "Combinations of desired and maximum counts across siblings are sampled by snapshot tests only.",
 ["src/events/desired_task_count.rs", D+"inject_network_boundaries.rs", D+"prepare_network_boundaries.rs", D+"distributed_query_planner.rs", CO+"prepare_dynamic_plan.rs", X+"network_coalesce.rs"],
 "Task counts are merged bottom-up: Maximum beats Desired, minima of maxima, maxima of desires.")

prop("C19", "Unions split across tasks run every child exactly once",
 "When the children of a union are distributed over tasks, each task of each child is assigned to exactly one slot of exactly one task of the stage, no child gets more tasks than its limit, none gets zero, and the partitions a task advertises map one-to-one onto the partitions of the children it runs.",
 ["inputs", "configurations"], "all numbers of children, limits, weights and task budgets",
 "Tests use two to four children with nice weights.",
 [X+"children_isolator_union.rs", D+"insert_children_isolator_union.rs"],
 "A largest-remainder allocator and a slot map; execute subtracts partition counts child by child.")

prop("C20", "Metrics are complete when they are shown",
 "A plan is displayed with metrics only after the query has been drained and the metrics of all its tasks have arrived; each task's metrics are attached to the stage, task and plan node they were measured at, and a node of an executed task without metrics, or a task that never reported, is an error instead of a silent zero (a task that was never executed reports that it has none, and is shown without them).",
 ["schedules", "inputs"], "all plans, task counts and arrival orders of reports",
 "The order in which reports arrive varies and tests normalise metric values away.",
 ["src/metrics/", CO+"metrics_store.rs", CO+"distributed.rs", X+"explain_analyze.rs", W+"impl_coordinator_channel.rs"],
 "Pre-order traversal on both sides, keyed by task identity.")

prop("C21", "Sampling a stage neither loses, repeats nor reorders rows",
 "When a stage's output is sampled to size the next stage, every batch pulled while sampling is later delivered, once and in order and before the rest of the stream, and each partition that is not already being executed is reported exactly once, whether it is sampled partially, completely or fails.",
 ["schedules", "inputs", "fault_sequences"], "all batch sizes, stream lengths, errors and execute orders",
 "Needs streams longer and shorter than the sampling window, errors inside it, and reads that race with it.",
 [X+"sampler.rs", W+"impl_coordinator_channel.rs"], "Background sampling task that hands over prefix and rest.")

prop("C22", "A malformed request cannot crash a worker or coordinator",
 "Values received from the network - indexes, counts, lengths, enum tags, missing fields, identifiers - never reach an operation that panics (indexing, unwrapping, unchecked arithmetic that can overflow, unbounded allocation) without being validated; they produce an error instead.",
 ["inputs"], "all decoded messages",
 "Tests only send well-formed messages.",
 [G, W, "src/codec/", "src/work_unit_feed/"], "Decoding functions return errors for missing or out-of-range fields.")

prop("C23", "Locks are never held across suspension and never nested inconsistently",
 "No thread-blocking lock guard is alive at a point where an asynchronous task can be suspended, and no two locks of the system can be acquired in opposite orders.",
 ["schedules"], "all interleavings of all tasks",
 "A deadlock needs a specific interleaving under contention.",
 ["src/"], "std/parking_lot mutexes, DashMap guards and async locks in the crate.")

prop("C24", "Background tasks never outlive their owner unobserved",
 "Every background task is either awaited, or held by a handle that aborts it when its owner is dropped, or is an enumerated detached task that terminates by itself when its channels close; and a failure inside it is reported to whoever depends on its output.",
 ["schedules", "fault_sequences"], "all spawn sites and all drop points",
 "Leaked tasks are invisible to assertions on results.",
 ["src/"], "tokio::spawn, SpawnedTask, JoinSet, spawned streams.")

prop("C25", "In-process and network execution of a task are equivalent",
 "A consumer that happens to run on the worker holding the producing task reads the same partition of the same task, with the same producer scaling and the same failures, as one that reads it through the network.",
 ["configurations", "inputs"], "all placements of consumer and producer tasks",
 "Tests mostly place every task at a different worker or all at one.",
 [W+"worker_connection_pool.rs", W+"impl_execute_task.rs", G+"worker_service.rs", G+"worker_client.rs", "src/protocol/"],
 "The connection pool short-cuts to the local worker when the URL is its own; both paths share one request type and one execution routine.")

prop("C26", "Each work unit is delivered to the one task and partition it was made for",
 "A feed partition f of a stage with P feed partitions per task is delivered to task f / P, local partition f mod P, in order and exactly once; units for unknown feeds or partitions are never silently mixed into another one.",
 ["inputs", "schedules"], "all task counts, feed partition counts and unit sequences",
 "Mixed-up offsets coincide when there is a single task or a single partition.",
 [CO+"query_coordinator.rs", "src/work_unit_feed/", W+"impl_coordinator_channel.rs", G+"worker_service.rs"],
 "The coordinator opens feed partitions starting at partitions*task_index and tags units with (feed id, partition).")

prop("C27", "A broadcast gives every consumer task the complete build side",
 "Every consumer task of a broadcast exchange receives each row of each producer partition exactly once, in order, independently of how fast the other consumers read, and an error of the shared input reaches all of them.",
 ["schedules", "inputs"], "all consumer counts, speeds and drop orders",
 "Needs several consumers racing on one cached stream.",
 [X+"broadcast.rs", X+"network_broadcast.rs"],
 "A shared queue per real partition, replayed to each virtual partition.")

prop("C28", "Task-specific leaf plans go to their own task",
 "A leaf that was split into per-task variants is executed by task t as variant t, and only as that; a leaf without per-task variants is the same in all tasks; specializing or rewriting a plan never drops, duplicates or permutes the variants.",
 ["inputs", "configurations"], "all numbers of tasks and variants, all plan shapes",
 "Wrong variants give duplicated or missing rows only with specific file layouts.",
 [X+"distributed_leaf.rs", CO+"query_coordinator.rs", "src/common/recursion.rs"],
 "DistributedLeafExec holds the variants; the coordinator specializes the plan for each task index, tracking child tasks below isolated unions.")

prop("C29", "Limits pushed below an exchange keep enough rows",
 "A limit is pushed below an exchange only when each producer keeping at least skip plus fetch rows cannot change the result: only across exchanges that merely concatenate or merge, never through operators that change the number of rows, and never without the skip added.",
 ["inputs", "programs"], "all limits, offsets and plan shapes",
 "A wrong push loses rows only with offsets and several non-trivial tasks.",
 [D+"push_fetch_into_network_coalesce.rs", X+"network_coalesce.rs"], "Optimizer pass on the physical plan.")

prop("C30", "Stages and queries are uniquely identified",
 "Every execution of a query gets a fresh identifier, every stage of a query gets a number different from all the others, and an exchange always refers to the stage directly below it with that stage's own number.",
 ["histories", "programs"], "all queries, repeated and concurrent executions, all plan shapes",
 "Colliding identities only show with concurrent or repeated executions of the same plan.",
 [D+"prepare_network_boundaries.rs", CO+"distributed.rs", CO+"prepare_static_plan.rs", CO+"prepare_dynamic_plan.rs", D+"distributed_query_planner.rs"],
 "Uuid::new_v4 and a counter during the preparation traversal.")

prop("C31", "Partial aggregation before an exchange preserves results",
 "An additional partial reduction is inserted before an exchange only on a hash repartition of partial aggregates feeding that exchange; it merges the partial states of the same aggregates, in the same order, by the same keys (the grouping id of grouping sets among them, as a plain key), produces the same schema the exchange and the final aggregation expect, and is never added on an aggregation that has a limit or an ordering requirement it would break.",
 ["programs", "inputs"], "all aggregations and plan shapes",
 "Only certain aggregate shapes would be altered.",
 [D+"partial_reduce_below_network_shuffles.rs"], "Planner rule guarded by node type tests.")

prop("C32", "Dynamic planning starts every stage once, with its sampled size",
 "When task counts are chosen at run time, each stage is finalised exactly once, producers before consumers, with a task count that follows from the reports of its producers, and a stage whose reports fail or end early is still finalised or fails the query.",
 ["schedules", "fault_sequences"], "all report arrival orders and early ends",
 "Depends on timing of reports.",
 [CO+"prepare_dynamic_plan.rs"], "Concurrent recursion over the plan with load reports from the workers.")

prop("C33", "Merging latency metrics preserves their meaning",
 "Aggregating the minimum, maximum, average or percentile latency of several tasks yields the minimum, maximum, average or percentile of all observations, regardless of the order in which the parts are merged and of parts without observations.",
 ["inputs", "histories"], "all observation sets and merge orders",
 "Tests merge a few hand-picked values.",
 ["src/metrics/latency_metric.rs"], "Per-kind aggregate implementations over atomics and sketches.")

prop("C37", "A scan split over tasks reads every row exactly once",
 "When a scan is divided over the tasks of a stage, every file group, file and byte range of the original scan is handed to exactly one task, files are cut into ranges only where their source supports it, the file groups of a scan that declares a partitioning stay whole and keep their place in the group list, and all tasks of the stage see the same number of partitions.",
 ["inputs", "configurations"], "all file layouts, formats, partitionings and numbers of tasks",
 "Tests scan a few small files of one format; lost or repeated rows need particular layouts (more groups than tasks, compressed files, ordered or pre-partitioned tables).",
 ["src/events/defaults/file_scan_config.rs", X+"distributed_leaf.rs"],
 "The default handler for file scans builds one variant of the scan per task; task t executes variant t.")

prop("C34", "Distributed results equal single-node results",
 "For every supported query and every data set, the multiset of rows (and their order, where the query orders them) returned by distributed execution equals the one returned by single-node execution.",
 ["inputs", "programs", "configurations"], "all queries, data and cluster shapes",
 "Whole-program equivalence; benchmarks sample it.",
 ["src/"], "The composition of all mechanisms above plus the upstream engine.")

prop("C35", "Every query terminates or fails in bounded time",
 "If all workers answer or fail, every distributed query eventually ends its result stream.",
 ["schedules", "fault_sequences"], "all fair schedules and fault sequences",
 "Liveness over unbounded schedules.",
 ["src/"], "Channels, notifications, time-outs.")

prop("C36", "Cost estimates pick a good number of tasks",
 "The estimated cost of a stage is proportional to the bytes it reads and computes, so that adding tasks never makes a query substantially slower.",
 ["inputs", "configurations"], "all plans, statistics and clusters",
 "Needs measurement.",
 [D+"statistics/"], "Statistics-based cost model.")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
