"""Texts of the properties; gen.py writes properties.jsonl and MANIFEST.json from them."""
D = {}


def P(id, title, statement, over, text, why, files, mech, note=""):
    D[id] = dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech, note=note)


SC = "The tests run a few schedules the OS happens to produce; the guarantee is over every interleaving of the operations of both sides."
SEQ = "Each test scripts one or two pending/ready patterns and values; the guarantee is over every pattern of readiness, wake-up order, change of waker, cancellation point and data."

P("C01", "One-shot channel: value, cancellation and wake-up are never lost",
  "A value sent on a one-shot channel is received exactly once or handed back to the sender, and is dropped exactly once; when either half is dropped or closed, the other half observes it. A task waiting on either half is woken by the event it waits for, through the waker of its latest poll.",
  "schedules histories", "every sequence of calls on the two halves and every interleaving of the two threads",
  SC, "futures-channel/src/oneshot.rs futures-channel/src/lock.rs",
  [("flag complete with two waker slots guarded by try-locks", "futures-channel/src/oneshot.rs Inner"), ("try-lock", "futures-channel/src/lock.rs Lock")])
P("C02", "mpsc channels deliver every accepted message once, in sender order",
  "Every message whose send succeeded is received exactly once, or dropped with the channel, and messages of one sender arrive in the order sent; a refused message is handed back in the error. The receiver sees the end exactly after all senders are gone (or the channel is closed) and the queue is drained, never earlier; dropping the receiver drops the messages still queued at once.",
  "schedules histories inputs", "every sequence of calls on up to three senders and the receiver, any buffer size, and every interleaving of the threads",
  SC, "futures-channel/src/mpsc/mod.rs futures-channel/src/mpsc/queue.rs",
  [("intrusive MPSC queue", "futures-channel/src/mpsc/queue.rs Queue"), ("open bit and message count in one word", "futures-channel/src/mpsc/mod.rs State")])
P("C03", "Bounded channels hold at most buffer plus one message per sender",
  "At any time the messages accepted by a bounded channel and not yet received never exceed the buffer size plus the number of senders, and a sender that was told it is full is not accepted again until room is made for it. A sender waiting for room is woken when a slot frees up and then is able to send.",
  "schedules histories inputs", "every sequence of sends, readiness polls, clones, drops and receives, any buffer size, every interleaving",
  SC, "futures-channel/src/mpsc/mod.rs",
  [("parked senders are unparked one per received message", "futures-channel/src/mpsc/mod.rs BoundedSenderInner::park, Receiver::unpark_one"), ("inc_num_messages", "futures-channel/src/mpsc/mod.rs")])
P("C04", "Closing or dropping a channel end is seen and wakes the other end",
  "Closing the receiver or dropping it makes every later send fail as disconnected, wakes every sender waiting for room, and still delivers what was accepted before a close; dropping or closing all senders ends the receiver's stream. A receiver or sender that is pending is always woken by the next message, close or disconnection.",
  "schedules histories", "every sequence of close, drop, send and receive calls and every interleaving of the threads",
  SC, "futures-channel/src/mpsc/mod.rs futures-channel/src/mpsc/sink_impl.rs",
  [("set_closed, wake of parked senders", "futures-channel/src/mpsc/mod.rs Receiver::close, close_channel"), ("receiver waker", "futures-core/src/task/__internal/atomic_waker.rs")])
P("C05", "AtomicWaker never loses a wake-up racing with a registration",
  "If a consumer registers its waker and then finds its condition unset, and a producer sets the condition and then wakes, the consumer's latest registered waker is woken. Concurrent wakes, takes and registrations are free of data races and never wake or drop a waker twice.",
  "schedules histories", "every sequence of calls with several wakers and every interleaving of one registering and several waking threads",
  SC, "futures-core/src/task/__internal/atomic_waker.rs",
  [("three-state word WAITING/REGISTERING/WAKING", "futures-core/src/task/__internal/atomic_waker.rs AtomicWaker::register, take")])
P("C06", "Async Mutex: exclusive, never deadlocks or strands a waiter",
  "At most one guard of an async mutex exists at a time and writes under one guard are visible under the next. Whenever the mutex is unlocked while tasks wait for it, one of them is woken with its latest waker, also when a woken waiter is cancelled instead of locking.",
  "schedules histories", "every sequence of lock, poll, cancel, try_lock, unlock by up to three parties and every interleaving of three threads",
  SC, "futures-util/src/lock/mutex.rs",
  [("state bits IS_LOCKED/HAS_WAITERS and slab of waiters", "futures-util/src/lock/mutex.rs Mutex::unlock, remove_waker")])
P("C07", "BiLock and split halves exclude each other and wake the waiting half",
  "The two halves of a bi-lock are never both locked; releasing the lock wakes the half that is waiting, with its latest waker. Halves of a split stream-and-sink or reader-and-writer reach the same object, and reuniting succeeds exactly for halves of the same object and gives it back.",
  "schedules histories", "every sequence of operations on the two halves and every interleaving of two threads",
  SC, "futures-util/src/lock/bilock.rs futures-util/src/io/split.rs futures-util/src/stream/stream/split.rs",
  [("state word: 0 unlocked, 1 locked, pointer to waker", "futures-util/src/lock/bilock.rs BiLock::poll_lock, unlock")])
P("C08", "Shared futures run once and give every clone the same outcome",
  "However many clones of a shared future are polled, dropped or created and from whichever threads, the inner future is driven by one of them at a time, is never polled after completion, and every clone that is awaited obtains a clone of its one output. Every waiting clone is woken with its latest waker when progress is possible, even if the clone that was driving is dropped; if the inner future panics, all clones panic and none hangs.",
  "schedules histories", "every sequence of polls, clones and drops on up to three clones and every interleaving of up to three threads",
  SC, "futures-util/src/future/future/shared.rs",
  [("state IDLE/POLLING/COMPLETE/POISONED and slab of wakers", "futures-util/src/future/future/shared.rs Shared::poll, Notifier")])
P("C09", "Aborting and remote handles stop or deliver the task, and never hang",
  "After an abort handle is used, the aborted future or stream ends as aborted on its next poll (a finished result is not altered), is woken if it was pending, and every handle reports it as aborted. A remote handle delivers the output or panic of its task exactly once, dropping the handle cancels the task unless it was forgotten, and a dropped task is reported to the waiting handle.",
  "schedules histories", "every sequence of abort, poll, drop and forget calls and every interleaving of two threads",
  SC, "futures-util/src/abortable.rs futures-util/src/future/future/remote_handle.rs",
  [("aborted flag plus AtomicWaker", "futures-util/src/abortable.rs AbortInner"), ("keep_running flag and one-shot channel", "futures-util/src/future/future/remote_handle.rs")])
P("C10", "Join combinators complete with all outputs, in order, or the first error",
  "A join of two or many futures (function, macro or collection form) polls every unfinished member, completes exactly when all are done, and returns each output in its own position; no finished member is polled again. The fallible forms return an error as soon as any member has failed, and never report success then; dropping a join drops every member and every output already produced.",
  "histories inputs", "every combination of outcomes, order of completion, waker change and cancellation point for up to five members",
  SEQ, "futures-util/src/future/join.rs futures-util/src/future/try_join.rs futures-util/src/future/join_all.rs futures-util/src/future/try_join_all.rs futures-util/src/future/maybe_done.rs futures-util/src/future/try_maybe_done.rs futures-macro/src/join.rs",
  [("members held until all are done", "futures-util/src/future/maybe_done.rs"), ("large collections delegated to FuturesOrdered / FuturesUnordered", "futures-util/src/future/join_all.rs")])
P("C11", "Select combinators return a completed future and keep the others intact",
  "A select over futures (function, collection or macro form) completes as soon as one member is ready, reports that member and its value, and gives back the other members still runnable with nothing lost; it is pending only if every member has been polled and is pending. In the macro forms completed members are skipped, the completion branch runs exactly when all are completed, the default branch exactly when none is ready, and the biased form prefers earlier branches while the unbiased one may run any ready branch; the succeed-first forms fail only if all members fail. An empty collection, for which no result exists, is refused with a panic.",
  "histories inputs", "every combination of readiness, outcome, completion order and waker change for up to four members and every shuffle of the macro's branches",
  SEQ, "futures-util/src/future/select.rs futures-util/src/future/select_all.rs futures-util/src/future/select_ok.rs futures-util/src/future/try_select.rs futures-util/src/future/either.rs futures-macro/src/select.rs",
  [("remaining members are moved into the output", "futures-util/src/future/select.rs Select::poll"), ("macro expansion", "futures-macro/src/select.rs select_inner")])
P("C12", "Future adapters transform exactly the completion of their future",
  "Each infallible future adapter or constructor (map, then, flatten, inspect, fuse, catch-panic, into-stream, option, maybe-done, poll-immediate and the like) completes exactly when its inner future does, runs its callback exactly once and only then, and yields the documented value; its termination flag turns true exactly when it must not be polled again. It forwards the latest waker and drops its parts exactly once.",
  "histories inputs", "every pattern of readiness, waker change and value for each adapter",
  SEQ, "futures-util/src/future/future futures-util/src/future/maybe_done.rs futures-util/src/future/option.rs futures-util/src/future/poll_immediate.rs futures-util/src/future/lazy.rs",
  [("state machines of the adapters", "futures-util/src/future/future/")])
P("C13", "Fallible future adapters act on the matching result only",
  "Each fallible future adapter (map on success or error, and-then, or-else, inspect, flatten, unwrap-or-else, conversions, sink and stream flattening) runs its callback exactly once exactly when the inner result is of the matching kind, and passes the other kind through unchanged. Errors are neither swallowed nor invented, and no stage starts before the previous one completed.",
  "histories inputs", "every pattern of readiness, waker change, result kind and value for each adapter",
  SEQ, "futures-util/src/future/try_future futures-util/src/future/try_maybe_done.rs futures-util/src/fns.rs",
  [("function adapters on Result", "futures-util/src/fns.rs"), ("two-stage state machines", "futures-util/src/future/try_future/try_flatten.rs")])
P("C14", "FuturesUnordered yields each member's output once and polls only woken ones",
  "An unordered set of futures yields the output of every member exactly once, ends exactly when it is empty, and is pending only if every member has been polled and is waiting. Between polls only members that were woken (or are new) are polled again, a member that was woken is polled, and length, iterators, clear and the termination flag agree with the members present; members that wake themselves all the time do not keep woken ones from being polled or hold the calling task for ever; a panicking member is removed and dropped and the others are unaffected.",
  "histories inputs", "every sequence of push, poll, wake (also by stale wakers), clear and drop on up to three members",
  SEQ, "futures-util/src/stream/futures_unordered/mod.rs futures-util/src/stream/futures_unordered/iter.rs futures-util/src/stream/futures_unordered/task.rs futures-util/src/stream/futures_unordered/ready_to_run_queue.rs",
  [("linked list of tasks and ready-to-run queue", "futures-util/src/stream/futures_unordered/mod.rs FuturesUnordered::poll_next, release_task"), ("queued flag", "futures-util/src/stream/futures_unordered/task.rs")])
P("C15", "FuturesUnordered stays sound and complete under concurrent wake-ups",
  "Members of a set of futures may be woken from any thread at any time, also while the set is polled, cleared or dropped or after the member is gone, and futures may be pushed through a shared reference from several threads: no wake-up is lost, every output is still delivered exactly once, and there is no data race, use after free or leak.",
  "schedules", "every interleaving of up to three threads (within the preemption bound)",
  SC, "futures-util/src/stream/futures_unordered/mod.rs futures-util/src/stream/futures_unordered/ready_to_run_queue.rs futures-util/src/stream/futures_unordered/task.rs futures-util/src/stream/futures_ordered.rs",
  [("MPSC ready-to-run queue", "futures-util/src/stream/futures_unordered/ready_to_run_queue.rs"), ("atomic list head with pending next_all sentinel", "futures-util/src/stream/futures_unordered/mod.rs link")])
P("C16", "FuturesOrdered and buffered yield outputs in queue order",
  "An ordered set of futures yields outputs in the order of the queue (pushes at the back and at the front included) whatever the order of completion, drives all members concurrently, holds an output back only while an earlier one is missing, and ends exactly when it is empty. The buffered adapter yields outputs in the order of its source.",
  "histories inputs schedules", "every sequence of pushes at either end, polls, wake-ups and clears on up to three members; every order of completion",
  SEQ, "futures-util/src/stream/futures_ordered.rs futures-util/src/stream/stream/buffered.rs",
  [("index-ordered heap of finished outputs", "futures-util/src/stream/futures_ordered.rs FuturesOrdered::poll_next, push_front")])
P("C17", "Concurrency limits are never exceeded and never starve",
  "Stream adapters with a concurrency limit (buffered, unordered buffered, concurrent for-each and their fallible forms) never have more than the limit of futures in flight, take the next future from the source whenever there is room, keep driving every future in flight, and deliver every result exactly once; no limit means no bound. The fallible forms report an error without holding it back.",
  "histories inputs", "every readiness pattern of the source and of each future, every limit up to two and none, every position of an error",
  SEQ, "futures-util/src/stream/stream/buffered.rs futures-util/src/stream/stream/buffer_unordered.rs futures-util/src/stream/stream/for_each_concurrent.rs futures-util/src/stream/try_stream/try_buffered.rs futures-util/src/stream/try_stream/try_buffer_unordered.rs futures-util/src/stream/stream/try_for_each_concurrent.rs",
  [("in-progress queue compared with the limit", "futures-util/src/stream/stream/buffer_unordered.rs poll_next")])
P("C18", "Unordered flattening merges all inner streams within its limit and never stalls",
  "Flattening a stream of streams without order (plain, mapping and fallible forms) yields every item of every inner stream exactly once and in its stream's order, ends exactly when the outer and all inner streams have ended, and never holds more inner streams than the limit. Whenever it is pending, each wake-up of the outer stream (if there is room) or of any inner stream, from any thread, wakes its latest task; outer errors are passed on, and a panicking inner stream does not wedge the others.",
  "schedules histories inputs", "every readiness pattern, up to three inner streams, limits up to two and none, every interleaving of up to three threads",
  SC, "futures-util/src/stream/stream/flatten_unordered.rs futures-util/src/stream/try_stream/try_flatten_unordered.rs",
  [("poll state POLLING/WAKING/WOKEN/NEED_TO_POLL", "futures-util/src/stream/stream/flatten_unordered.rs SharedPollState"), ("wrapped wakers", "futures-util/src/stream/stream/flatten_unordered.rs WrappedWaker")])
P("C19", "Stream selection merges fairly without losing or reordering items",
  "Merging streams (select, select with a strategy, select_all, the stream selection macro) yields every item of each stream exactly once and in its stream's order, ends exactly when all have ended, polls no stream after its end, and is pending only if every remaining stream has been polled and is pending. The two-stream select looks at both sides in turn, a strategy's preferred side is never passed over while it is ready, and streams added to a set are included.",
  "histories inputs schedules", "every readiness pattern and length of two or three streams, every strategy, every shuffle of the macro",
  SEQ, "futures-util/src/stream/select.rs futures-util/src/stream/select_with_strategy.rs futures-util/src/stream/select_all.rs futures-macro/src/stream_select.rs",
  [("state Start/LeftFinished/RightFinished/BothFinished", "futures-util/src/stream/select_with_strategy.rs"), ("set of stream futures", "futures-util/src/stream/select_all.rs")])
SS = "futures-util/src/stream/stream/"
P("C20", "Item-wise stream adapters deliver exactly the items their definition names",
  "Mapping, filtering, skipping, taking, scanning, enumerating, inspecting, fusing, boxing and unwind-catching adapters yield exactly the reference list of items in order, whatever the readiness of source and callbacks; callbacks see each item once and in order, nothing is read ahead of what the next item needs, no item is leaked or dropped twice, and no source is polled after its end. A pending adapter is woken by the event it waits for.",
  "inputs histories", "every item value, predicate outcome, length up to three, readiness pattern, wake-up order and change of waker",
  SEQ, " ".join(SS + x for x in "map.rs filter.rs filter_map.rs then.rs enumerate.rs skip.rs take.rs skip_while.rs take_while.rs scan.rs fuse.rs catch_unwind.rs".split()),
  [("pending future and pending item fields", SS + "filter.rs poll_next"), ("remaining count", SS + "take.rs poll_next")])
P("C21", "Combining and windowing streams yield exactly the reference sequence",
  "Chaining, zipping, chunking (by count and by readiness), flattening, taking until a future, peeking (with conditional consumption), cycling and poll-immediate adapters, and the stream constructors (iter, once, unfold, try_unfold, repeat, poll_fn, ...) yield exactly the items of their definition in order; a ready chunk holds everything that is ready up to its capacity, a peeked item is the next item, the stopping future stops the stream at once and its result is handed out. A pending adapter is woken by the event it waits for.",
  "inputs histories", "every item value, lengths up to three, readiness pattern, wake-up order, change of waker and sequence of peek operations",
  SEQ, " ".join(SS + x for x in "chain.rs zip.rs chunks.rs ready_chunks.rs flatten.rs take_until.rs peek.rs cycle.rs".split()) + " futures-util/src/stream/unfold.rs futures-util/src/stream/try_stream/try_unfold.rs futures-util/src/stream/once.rs futures-util/src/stream/poll_immediate.rs futures-util/src/stream/repeat.rs futures-util/src/stream/iter.rs",
  [("queued items of both sides", SS + "zip.rs"), ("peeked slot", SS + "peek.rs")])
P("C24", "Stream size hints are true at every point of the stream's life",
  "At any time the items a stream still yields are at least the lower and at most the upper bound of its size hint, for every adapter over a source whose own hint is true, also while items are held inside the adapter, after the end, and for hints near the limits of the integer type (no overflow).",
  "inputs histories", "every point of every run of every adapter, and every pair of 64-bit hint values of the source",
  "Tests compare a hint at one or two points of one run; bounds must hold at every point and for every possible inner hint.",
  " ".join(SS + x for x in "filter.rs skip.rs take.rs take_while.rs scan.rs chain.rs zip.rs chunks.rs ready_chunks.rs peek.rs take_until.rs cycle.rs buffered.rs buffer_unordered.rs then.rs".split()) + " futures-util/src/stream/poll_immediate.rs futures-macro/src/stream_select.rs",
  [("size_hint implementations with pending_len", SS + "filter.rs size_hint")])
P("C25", "is_terminated of streams and futures is set exactly when nothing more can come",
  "A stream adapter that reports termination yields no further item, is never reported terminated while it is pending or has items to yield, and after it has returned its end it reports termination and (where documented as fused) keeps returning the end. A future with a termination flag reports it exactly after it has returned its output (for a future that consumes a stream: also once that stream is terminated).",
  "inputs histories", "every point of every run of every stream adapter, stream consumer and future adapter over sources of up to two items, every readiness pattern",
  SEQ, " ".join(SS + x for x in "filter.rs filter_map.rs then.rs skip_while.rs take_while.rs scan.rs chain.rs zip.rs chunks.rs ready_chunks.rs peek.rs take_until.rs take.rs skip.rs fuse.rs flatten.rs".split()) + " futures-util/src/stream/poll_immediate.rs futures-util/src/stream/once.rs",
  [("is_terminated implementations", SS + "take_while.rs is_terminated")])

TS = "futures-util/src/stream/try_stream/"
IOD = "futures-util/src/io/"
SK = "futures-util/src/sink/"
P("C22", "Operations that consume a stream process every item once, in order",
  "Collecting, counting, unzipping, concatenating, folding, any/all, for_each (sequential and concurrent), next, into_future and forward process every item exactly once and in order and resolve to the value their definition gives; short-circuiting operations stop at the deciding item and take nothing after it; forward delivers everything and closes the sink. A pending operation is woken by the event it waits for, and dropping it at any point drops every value once.",
  "inputs histories", "every item value, up to three items, readiness pattern, wake-up order, change of waker, failing item and drop point",
  SEQ, " ".join(SS + x for x in "collect.rs count.rs unzip.rs concat.rs fold.rs any.rs all.rs for_each.rs for_each_concurrent.rs next.rs into_future.rs forward.rs".split()) + " " + " ".join(SS + x for x in "try_fold.rs try_for_each.rs try_for_each_concurrent.rs".split()),
  [("buffered item while the sink is not ready", SS + "forward.rs Forward::poll"), ("pending future before next item", SS + "fold.rs")])
P("C23", "Fallible-stream adapters and consumers pass values and errors as defined",
  "The TryStreamExt adapters (map_ok, map_err, err_into, and_then, or_else, inspect, filter, filter_map, skip_while, take_while, flatten, chunks, ready chunks) yield exactly the successes and errors of their definition in the source's order, call the closure once per item, and never lose or duplicate an item around an error; the consumers (try_next, try_collect, try_concat, try_any, try_all) return the first error or the full result. An item whose callback fails is dropped exactly once.",
  "inputs histories", "every item value, every choice of which items and callbacks fail, up to three items, every readiness pattern and wake-up order",
  SEQ, " ".join(TS + x for x in "and_then.rs or_else.rs try_filter.rs try_filter_map.rs try_skip_while.rs try_take_while.rs try_flatten.rs try_chunks.rs try_ready_chunks.rs try_next.rs try_collect.rs try_concat.rs try_any.rs try_all.rs into_stream.rs".split()),
  [("pending item and future", TS + "try_filter.rs"), ("chunk handed over with the error", TS + "try_chunks.rs TryChunksError")])
P("C26", "Dropping or unwinding a combinator at any point releases everything once",
  "If a future, stream, sink, reader or writer adapter is dropped at any pending point, or a source or callback below it panics at any poll and the panic unwinds through it, then every item, output, child future and stored waker it held is dropped exactly once, nothing is leaked, nothing is used after it was dropped, and no value that was not yet handed out is observed. A panicking member of a set of futures or streams leaves the set usable.",
  "inputs histories faults", "every drop point and every poll or callback at which a panic starts, with every readiness pattern and up to two or three items or members",
  SEQ, " ".join("futures-util/src/" + x for x in "future/join_all.rs future/try_join_all.rs future/maybe_done.rs future/select.rs future/select_all.rs stream/futures_unordered/mod.rs stream/futures_ordered.rs stream/stream/flatten_unordered.rs stream/stream/peek.rs stream/stream/zip.rs stream/stream/chunks.rs stream/stream/buffered.rs sink/buffer.rs sink/fanout.rs io/buf_writer.rs io/read_to_end.rs".split()),
  [("unlinking a member whose poll panics", "futures-util/src/stream/futures_unordered/mod.rs Bomb"), ("pinned drop of the wrapped state", "futures-util/src/future/join_all.rs")])
P("C27", "Sinks deliver every accepted item once, in order, and report every error",
  "Through buffer, fanout, with, with_flat_map, map_err, err_into, unfold, flatten_sink, split and the forwarding impls, every accepted item reaches the sink below exactly once and in order, only after it said it was ready; no more items than the capacity are held back; a completed flush or close has pushed everything through and flushed or closed the sink below; an error below is returned by the call it happened in and is not swallowed, and the sink can still be closed afterwards. send, feed, flush, close and send_all complete exactly when their definition says, and a pending sink operation is woken.",
  "inputs histories faults", "every sequence of sends, flushes and a close, every readiness pattern, every position of a failure, every drop point",
  SEQ, " ".join(SK + x for x in "buffer.rs fanout.rs with.rs with_flat_map.rs map_err.rs err_into.rs unfold.rs send.rs send_all.rs feed.rs flush.rs close.rs drain.rs".split()) + " futures-util/src/future/try_future/try_flatten.rs futures-util/src/stream/stream/split.rs futures-sink/src/lib.rs",
  [("buffer emptied when the sink is ready", SK + "buffer.rs try_empty_buffer"), ("item kept while the sink is not ready", SK + "with_flat_map.rs try_empty_stream")])
P("C28", "Reader adapters hand out the source's bytes exactly, in order",
  "BufReader, chain, take, into_async_read, split read halves, Cursor, slices and the forwarding impls hand out exactly the bytes of the source in order for every mix of plain, vectored and buffered reads: none lost, repeated or invented, end of file only at the end, never more than the limit of take, and a read error is reported once by the call it happened in without losing bytes. A Window shows exactly the range set, whatever bounds were given; empty and repeat give what they say; AllowStdIo retries interrupted calls and reports every other error. A pending read is woken.",
  "inputs histories faults", "every byte content up to two bytes, split of the reads, buffer capacity, short read, position of a failure, readiness pattern, any 64-bit limit",
  "Tests use fixed contents and chunk sizes; every alignment of buffer boundary, short read, error and pending has to work.",
  " ".join(IOD + x for x in "buf_reader.rs chain.rs take.rs split.rs cursor.rs allow_std.rs".split()) + " " + TS + "into_async_read.rs futures-io/src/lib.rs",
  [("pos..cap window of the buffer", IOD + "buf_reader.rs BufReader"), ("limit", IOD + "take.rs Take")])
P("C29", "Writer adapters deliver accepted bytes exactly, in order, and flush fully",
  "Through BufWriter, LineWriter, split write halves and the forwarding impls the bytes accepted reach the writer below exactly once and in order, also across short writes, errors, zero-length writes and abandoned calls; no more bytes than the capacity are held back; a completed flush, close or seek leaves nothing behind; LineWriter hands complete lines on, also within writes longer than its buffer; errors are reported by the call they happened in.",
  "inputs histories faults", "every byte content, sequence of up to two plain or vectored writes and flushes, one long write of up to six bytes, capacity up to three, short write, failure position and readiness pattern",
  "Tests use fixed contents and chunk sizes; every alignment of buffer boundary, short write, newline, error and pending has to work.",
  " ".join(IOD + x for x in "buf_writer.rs line_writer.rs split.rs cursor.rs".split()) + " futures-io/src/lib.rs",
  [("written prefix of the buffer", IOD + "buf_writer.rs flush_buf"), ("write_to_buffer_unchecked", IOD + "buf_writer.rs")])
P("C30", "Read, write, copy and seek operations transfer exactly the bytes they report",
  "read_exact, read_to_end, read_to_string, read_until, read_line, lines, write_all, write_all_vectored, into_sink, copy, copy_buf, copy_buf_abortable and buffered seeks transfer exactly the bytes they report, stop exactly at the delimiter or end, consume nothing beyond it, append to and never lose the destination's earlier contents (also on failure or cancellation), never leave invalid UTF-8 in a String, and report short data as UnexpectedEof, a writer that takes nothing as WriteZero and invalid text as InvalidData. copy flushes and does not close.",
  "inputs histories faults", "every byte content up to three bytes, split into chunks, short transfer, failure position, readiness pattern, cancellation point and abort time; seeks with small offsets and the extremes of i64",
  "Tests use fixed contents and chunk sizes; every alignment of delimiter, multi-byte character, short transfer, error and pending has to work.",
  " ".join(IOD + x for x in "read_exact.rs read_to_end.rs read_to_string.rs read_until.rs read_line.rs lines.rs write_all.rs write_all_vectored.rs into_sink.rs copy.rs copy_buf.rs copy_buf_abortable.rs buf_reader.rs fill_buf.rs".split()),
  [("unsafe String buffer swap", IOD + "read_line.rs read_line_internal"), ("length guard", IOD + "read_to_end.rs Guard")])
P("C31", "block_on and LocalPool run every woken task and never sleep past a wake-up",
  "block_on and LocalPool return the future's output and poll the future again after every wake-up, also when code below them uses park and unpark. run returns only when every task is done; run_until when its future is done; run_until_stalled and try_run_one never block and stop only when no task can make progress (or, for try_run_one, after completing exactly one). Tasks spawned by tasks are run, dropping the pool drops its tasks and makes spawners fail, nested executors are refused, and leaving an executor, also by panic, allows entering one again.",
  "schedules histories", "every sequence of spawns, wake-ups and run calls with up to three tasks that complete, yield, spawn, wake each other or wait, and every interleaving with threads that wake them",
  SC, "futures-executor/src/local_pool.rs futures-executor/src/enter.rs",
  [("flag unparked around park", "futures-executor/src/local_pool.rs ThreadNotify, run_executor"), ("incoming queue drained around each poll", "futures-executor/src/local_pool.rs poll_pool, try_run_one"), ("thread-local mark", "futures-executor/src/enter.rs enter")])
P("C32", "ThreadPool polls each task on one thread at a time and never loses a wake-up",
  "A task given to a ThreadPool is polled by at most one thread at a time, again after every wake-up until it completes, never after that, and is dropped exactly once. Tasks spawned before the last handle is dropped still run to completion; then every worker ends. The after_start and before_stop hooks run once per worker.",
  "schedules", "every interleaving of up to two workers, two tasks and the waking thread",
  SC, "futures-executor/src/thread_pool.rs futures-executor/src/unpark_mutex.rs",
  [("four-state task lock", "futures-executor/src/unpark_mutex.rs UnparkMutex"), ("handle count closing the workers", "futures-executor/src/thread_pool.rs Drop for ThreadPool")])
P("C33", "Wakers, future objects and spawner handles neither leak nor free early",
  "A waker made from an Arc keeps its task handle alive, wakes exactly that handle, and releases exactly one reference when dropped or woken by value; a borrowed waker owns no reference while its clones do; no-op wakers do nothing on any thread. A FutureObj or LocalFutureObj polls the future it was made from, drops an owned future exactly once and leaves a borrowed one to its owner. Spawner references, boxes and counted pointers forward spawn and status calls, and a refused task is dropped.",
  "histories schedules", "every sequence of clone, wake, drop and borrow on up to four wakers, two threads sharing a waker, every kind of future object dropped at any point, every forwarding type",
  "Reference counts are manipulated through raw pointers; a wrong count shows only for some sequences, as a leak or a use after free that ordinary tests do not observe.",
  "futures-task/src/waker.rs futures-task/src/waker_ref.rs futures-task/src/arc_wake.rs futures-task/src/noop_waker.rs futures-task/src/future_obj.rs futures-task/src/spawn.rs futures-util/src/task/spawn.rs",
  [("raw waker table over Arc", "futures-task/src/waker.rs"), ("ManuallyDrop waker", "futures-task/src/waker_ref.rs"), ("raw future pointer and drop function", "futures-task/src/future_obj.rs")])
P("C34", "Test utilities pass values through and report exactly the misuse they watch for",
  "interleave_pending and pending_once insert exactly one self-woken pending before each result and otherwise forward every operation; limited transfers at most its limit per call; assert_unmoved panics exactly when an object moved after its first poll is used or dropped; track_closed reports closed exactly after a successful close and refuses further use; counting wakers count every wake, panicking wakers and spawners panic, recording spawners keep every task, and the stream assertions pass exactly when the stream is pending, yields the expected item or ends as asserted.",
  "inputs histories", "every pattern of pendings, values, limits and operations within the bounds",
  SEQ, "futures-test/src/interleave_pending.rs futures-test/src/assert_unmoved.rs futures-test/src/track_closed.rs futures-test/src/io/limited.rs futures-test/src/future/pending_once.rs futures-test/src/task/wake_counter.rs futures-test/src/task/panic_waker.rs futures-test/src/task/record_spawner.rs futures-test/src/task/panic_spawner.rs futures-test/src/task/noop_spawner.rs",
  [("poll_with", "futures-test/src/interleave_pending.rs"), ("remembered address", "futures-test/src/assert_unmoved.rs"), ("closed flag", "futures-test/src/track_closed.rs")])
P("C35", "Compat adapters translate futures, streams, sinks and io to 0.1 and back exactly",
  "A future, stream, sink, reader, writer or spawner converted to its 0.1 form and back behaves as the original: same outputs, items, bytes and errors, in order and once each; an item accepted by a converted sink reaches it before flush or close reports success; a pending operation is woken through the waker of its latest poll; dropping the adapter releases everything it holds.",
  "inputs histories", "every pattern of readiness, change of waker, error position and drop point within the bounds, through both directions of conversion",
  SEQ, "futures-util/src/compat/compat01as03.rs futures-util/src/compat/compat03as01.rs futures-util/src/compat/executor.rs",
  [("0.1 notify handle over a waker", "futures-util/src/compat/compat01as03.rs NotifyWaker"), ("waker over the current 0.1 task", "futures-util/src/compat/compat03as01.rs Current"), ("one-item buffer", "futures-util/src/compat/compat01as03.rs Compat01As03Sink")])
