CAUGHT = {}
NOTES = {
"C01": ["Arithmetic is over the mathematical integers (partition × task products do not wrap).",
        "A coalescing exchange given a stage of the planned size must keep its partitions (evaluated for every count of producers, consumers and partitions up to 5, 4 and 3); a stage of another size is never given to one with several consumers."],
"C04": ["Panics of the demultiplexing task are not modelled; a connection that fails also surfaces through the slots it never fills.",
        "The cancel path taken when the last stream of a connection is dropped is dead (the inner stream is dropped first): harmless."],
"C05": ["Only requests made by exchange operators: a raw second ExecuteTask over gRPC re-executes the partition. The virtual partitions of a broadcast share one queue, each consumer reads it once."],
"C06": ["Panics of the set-up itself are not modelled; a failed set-up's entry stays until its idle time-out, and readers get its error."],
"C07": ["If the walk that starts feeding fails, no end marker is sent and the query fails."],
"C08": ["The guard must live until the result stream ends and be dropped on every exit; what the pending tasks gave is examined on every path that waits for them."],
"C10": ["One message may exceed the budget (it must, or it could never be sent); a broadcast's build side and the sampled prefix are buffered by design."],
"C13": ["False alarm corrected: IO error kinds without a wire counterpart are allowed to map to the catch-all only when the standard library itself treats them as unstable."],
"C15": ["Worker-to-worker requests carry passthrough headers only if the user's session builder registers them again; upstream's `extensions_options!` loses nested keys; entries without a value are not sent."],
"C16": ["Doc comments that speak of reverse registration order are stale; the rule follows the code and its tests."],
"C17": ["The operators that collect an input are taken from DataFusion. False alarm corrected: a build side limited by an operator above the broadcast (`capped`) is safe when the limit is applied before broadcasting."],
"C18": ["Distribution requirements and limits are taken from DataFusion's own methods. A user estimator's answer for a ChildrenIsolatorUnionExec is ignored by design."],
"C21": ["What is estimated from a sample (rows ready, percentages) is not judged, only that the sample is taken once, reported once and given back."],
"C23": ["Locks are told apart by the type they protect and the field they live in. Guards of the standard mutex are not Send, so most violations of the first half do not compile; guards of sharded maps, watched values and parking_lot locks do.", "Genuine defect found and fixed: aggregating a percentile metric locked the other sketch and its own at once.", "Calls through traits of DataFusion on children are taken to follow the plan tree, which is acyclic."],
"C24": ["Detached tasks are allowed when every loop in them ends with a channel whose other end the query owns."],
"C25": ["A user's own channel resolver may return anything; only the crate's in-process client and its own network client are compared."],
"C26": ["Work units for an unknown feed are discarded by the worker: only a coordinator bug can send them. Over the mathematical integers."],
"C27": ["A consumer that treats the end of announcements as the end needs no announcement from Drop."],
"C28": ["DataFusion's traversals and the user's per-task variants are trusted."],
"C29": ["What a fetch means to an operator follows DataFusion's `supports_limit_pushdown` and `fetch`."],
"C30": ["Version 4 identifiers are taken to be unique."],
"C33": ["The sketch behind percentile metrics is trusted."],
"C37": ["DataFusion's `FileSource::repartitioned` is trusted."],
}
