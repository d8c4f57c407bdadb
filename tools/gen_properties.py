#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})
H = "cfg(futures_verif): atomic/mutex imports switch to wrappers that report each operation to a scheduler hook"

prop("C01", "AtomicWaker never loses a wake-up",
 "If a task registers its waker in an AtomicWaker and then re-checks its condition, and another thread makes the condition true and then calls wake, either the task sees the condition on that re-check or its most recently registered waker is woken. This holds for any number of concurrent wake calls, re-registrations with changing wakers and take calls, and a wake call wakes at most one registered waker, never a stale one that was replaced before it. Stored waker handles are neither leaked nor dropped twice, and the data written before wake is visible to the task that is woken or re-checks.",
 ["schedules", "histories"], "every interleaving of one registering task (register loops with changing wakers) with any number of waking/taking threads, under the C11 memory model",
 "the existing test runs one register/one wake shape on the OS scheduler of an x86 machine; the lost-wake-up windows are a few instructions wide and depend on memory ordering",
 ["futures-core/src/task/__internal/atomic_waker.rs"],
 [("WAITING/REGISTERING/WAKING state machine", "atomic_waker.rs register/take")],
 [("state", "two-bit lock word", "AtomicWaker::state"), ("waker", "registered waker", "AtomicWaker::waker")],
 ["register", "wake", "take", "drop"], H)

prop("C02", "oneshot: value delivered exactly once, cancellation always reported",
 "A value given to a oneshot sender is obtained by the receiver exactly once, or handed back to the sender as an error, or dropped exactly once together with the channel; the receiver never invents, duplicates or loses it. The receiver resolves to Canceled only if the sender was dropped without a value reaching it, and try_recv, is_terminated, is_canceled and close agree with that history. A task waiting on the receiver, or waiting for cancellation on the sender, is always woken by the event it waits for.",
 ["schedules", "histories"], "every interleaving of send / drop / cancellation polling on the sender with poll / try_recv / close / drop on the receiver, from separate threads, with changing wakers",
 "tests drive one order of calls per test on one thread or with OS timing; the races between send, close and waker registration are unsampled",
 ["futures-channel/src/oneshot.rs", "futures-channel/src/lock.rs"],
 [("complete flag re-check after storing data/waker", "oneshot.rs Inner::send, poll_canceled, recv, drop_tx, drop_rx"), ("try-lock", "lock.rs")],
 [("complete", "one side is gone or done", "oneshot Inner"), ("data/rx_task/tx_task", "slots", "oneshot Inner")],
 ["send", "poll", "try_recv", "close", "poll_canceled", "drop"], H)

prop("C03", "mpsc: accepted messages are delivered exactly once, in order",
 "For bounded and unbounded mpsc channels with any number of senders, every message whose send succeeded is received exactly once, or is dropped exactly once if the receiver is dropped first, and a failed send gives the message back. Messages of one sender arrive in the order it sent them, and if one send completes before another begins the first is received first. Messages are never duplicated, lost or invented, and the receiver always makes progress once messages have been accepted: a waiting receiver is woken.",
 ["schedules", "histories"], "every interleaving of concurrent senders (try_send, poll_ready/start_send, Sink send, unbounded_send, clone, drop) and a receiver (poll, try_recv, close, drop), any message count",
 "tests push fixed sequences and a few OS-thread stress loops on x86; the lock-free queue's transient inconsistent state and wake races need specific preemption points",
 ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/queue.rs", "futures-channel/src/mpsc/sink_impl.rs"],
 [("Vyukov intrusive queue push/pop_spin", "mpsc/queue.rs"), ("receive task wake after push", "mpsc/mod.rs queue_push_and_signal / next_message")],
 [("message_queue", "queued messages", "BoundedInner/UnboundedInner")],
 ["send results", "received items", "item drops"], H)

prop("C04", "bounded mpsc: capacity is enforced and blocked senders are woken",
 "A bounded channel with buffer n and k live senders never holds more than n plus one undelivered message per sender handle; a send is refused as full only if the buffer was full at the time or at that handle's previous send, and a sender is ready again once the receiver has made room. Every sender waiting for readiness is woken after room appears or the receiver closes or is dropped, in spite of other senders being dropped, cloned or cancelled while waiting. When the last queued message has been taken, every live sender can send again.",
 ["schedules", "histories", "configurations"], "all buffer sizes including 0, sender counts, interleavings of poll_ready / start_send / try_send / recv / close / drop with changing wakers",
 "tests use buffer 0-16 with a handful of fixed call orders; park/unpark races and cancelled waiters are not enumerated",
 ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/sink_impl.rs"],
 [("parked sender queue, unpark_one per received message", "mpsc/mod.rs"), ("SenderTask is_parked flag", "mpsc/mod.rs poll_unparked")],
 [("num_messages|open flag", "state word", "BoundedInner::state"), ("parked_queue", "waiting senders", "BoundedInner")],
 ["try_send / poll_ready results vs outstanding count"], H)

prop("C05", "mpsc: close and disconnect are observed exactly and by everyone",
 "After the last sender is dropped or the channel is closed from either side, the receiver still yields every message accepted before and then ends (None / Closed) for good; it never ends while an accepted message is outstanding or while the channel is open. After close or receiver drop every send fails as disconnected and hands the message back, is_closed reports it, and the tasks waiting on the other side are woken (a close by the receiver or its drop wakes every blocked sender; a close by a sender wakes the receiver). is_connected_to, same_receiver and clone of senders keep referring to the same channel.",
 ["schedules", "histories"], "every interleaving of close_channel / disconnect / Receiver::close / drop of any handle with sends and receives in flight",
 "close tests are single-threaded or run one OS interleaving",
 ["futures-channel/src/mpsc/mod.rs", "futures-channel/src/mpsc/sink_impl.rs"],
 [("open bit and num_senders", "mpsc/mod.rs set_closed / drop of senders"), ("drain on receiver drop", "mpsc/mod.rs Drop for Receiver")],
 [("state", "open bit + message count", "mpsc inner"), ("num_senders", "live senders", "mpsc inner")],
 ["recv results", "send errors", "wake-ups"], H)

prop("C06", "async Mutex: mutual exclusion, no lost wake-up, cancel-safe locking",
 "At most one guard (borrowed, owned or mapped) of an async Mutex exists at any time and writes made under one guard are visible under the next. A task waiting for the lock is woken when the lock becomes free, in spite of other waiters being dropped before or after they were woken and of changing wakers, so an unlocked mutex never leaves all its waiters asleep. try_lock succeeds whenever the mutex is free and nobody contends, and dropping the mutex, guards or lock futures leaks nothing.",
 ["schedules", "histories"], "every interleaving of lock futures polled, moved between tasks, dropped mid-wait, guards dropped on any thread, try_lock, lock_owned, MappedMutexGuard",
 "tests run a few tasks on one OS interleaving; cancellation of the chosen waiter races with unlock only in narrow windows",
 ["futures-util/src/lock/mutex.rs"],
 [("IS_LOCKED/HAS_WAITERS bits and waiter slab", "lock/mutex.rs"), ("Drop of lock future passes the wake on", "lock/mutex.rs remove_waker")],
 [("state", "lock bits", "Mutex::state"), ("waiters", "slab of wakers", "Mutex::waiters")],
 ["guard creation / drop", "lock future wake-ups"], H)

prop("C07", "BiLock and split halves: exclusion, wake-up and reunite",
 "The two handles of a BiLock never hold the lock together, a handle that found it locked is woken when the other releases it, and reunite gives back the value exactly when the handles belong together. The two halves of a split stream+sink or reader+writer behave, used concurrently from two tasks, like the unsplit object: every operation reaches the object unaltered, in each half's order, without overlap and without losing the wake-up of either half. Values are dropped exactly once in every order of drops.",
 ["schedules", "histories"], "every interleaving of poll_lock / lock / guard drop / reunite / half drops on two tasks, and of reads, writes, items and flushes on split halves",
 "one test runs an OS-thread stress of BiLock; split halves are tested sequentially",
 ["futures-util/src/lock/bilock.rs", "futures-util/src/stream/stream/split.rs", "futures-util/src/io/split.rs"],
 [("state pointer: 0 / 1 / boxed waker", "lock/bilock.rs poll_lock, unlock"), ("slot between Sink half and lock", "stream/split.rs")],
 [("state", "lock word or waiting waker", "bilock Inner::state")],
 ["poll_lock results", "guard drops", "item/byte sequences"], H)

prop("C08", "Shared: one run of the future, every handle completes with its output",
 "However many clones of a Shared future are polled from however many tasks and threads, the inner future is polled by one of them at a time, never after completion, and every clone that is polled to completion gets the same output (clones of one value). When the inner future is woken or completes, every clone still waiting is woken with its latest waker, in spite of other clones being dropped or cancelled at any moment. peek, strong/weak counts, downgrade and ptr_eq agree with the history, the inner future and output are dropped exactly once, and a panic of the inner future reaches its pollers rather than hanging them.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of clone, poll, drop, peek, downgrade/upgrade and inner wake-ups/panics across tasks",
 "tests use at most a few clones on one thread plus one OS stress run",
 ["futures-util/src/future/future/shared.rs"],
 [("IDLE/POLLING/COMPLETE/POISONED state", "shared.rs poll"), ("Notifier slab of wakers", "shared.rs Notifier")],
 [("notifier.state", "who may poll", "shared.rs")],
 ["clone results", "inner polls", "wake-ups"], H)

prop("C09", "FuturesUnordered: every future runs to completion, output exactly once",
 "Every future pushed into a FuturesUnordered (or the spawn/extend/collect forms) is polled first once, then again after each wake-up of it, never after it completed or was removed, and its output is yielded exactly once. A wake-up of a contained future from any thread, at any moment including during its own poll, makes the waiting task of the collection wake; the stream ends exactly when the collection is empty, and len / is_empty / is_terminated / iterators report exactly the futures not yet yielded. Each future is dropped exactly once - when it completes, on clear, into_iter or drop of the collection - even when child wakers outlive it or a child panics.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of cross-thread wakes with push / poll_next / clear / iteration / drop, any number of futures, wake counts, panics, changing parent wakers",
 "tests cover a few fixed wake orders and one OS stress; the intrusive queue, task lifetime and re-queue races need particular interleavings",
 ["futures-util/src/stream/futures_unordered/mod.rs", "futures-util/src/stream/futures_unordered/task.rs", "futures-util/src/stream/futures_unordered/ready_to_run_queue.rs", "futures-util/src/stream/futures_unordered/iter.rs"],
 [("intrusive ready-to-run queue", "ready_to_run_queue.rs"), ("queued/woken flags", "task.rs wake_by_ref, mod.rs poll_next"), ("release_task / Bomb", "mod.rs")],
 [("head_all", "linked list of tasks", "mod.rs"), ("queued", "is in ready queue", "task.rs")],
 ["child polls", "child drops", "yielded outputs", "parent wakes"], H)

prop("C10", "Ordered concurrency preserves submission order and every result",
 "FuturesOrdered, buffered, try_buffered, join_all and try_join_all yield one output per submitted future, in submission order (front-pushed ones before all others), whatever the order in which the futures complete. All admitted futures make progress concurrently, none is polled after completion, and len, size_hint and termination agree with what is still outstanding. try_buffered passes each future's error on at that future's position (an error of the source itself as soon as it is met); try_join_all resolves with an error as soon as one future fails.",
 ["inputs", "schedules", "histories"], "all completion orders, pending/wake scripts, push_back/push_front interleavings with polling, sizes on both sides of the internal small/big threshold",
 "tests fix one or two completion orders per adapter",
 ["futures-util/src/stream/futures_ordered.rs", "futures-util/src/stream/stream/buffered.rs", "futures-util/src/stream/try_stream/try_buffered.rs", "futures-util/src/future/join_all.rs", "futures-util/src/future/try_join_all.rs"],
 [("index-ordered binary heap", "futures_ordered.rs"), ("Small/Big representation", "join_all.rs, try_join_all.rs")],
 [("next_incoming_index/next_outgoing_index", "order bookkeeping", "futures_ordered.rs")],
 ["outputs", "child polls"], None)

prop("C11", "Concurrency-limited adapters run everything, at most n at once",
 "buffered, buffer_unordered, try_buffered, try_buffer_unordered, for_each_concurrent, try_for_each_concurrent and flatten_unordered with limit n never have more than n started-and-unfinished futures or inner streams, use the available slots whenever the source has an item, and (with no limit) admit all. Every source item is processed exactly once and every output (every item of every inner stream, in that stream's order) is delivered exactly once before the adapter ends. try_for_each_concurrent ends with the first error observed, dropping the rest; the try_ stream forms pass every error on and continue; and nothing is lost or left asleep when inner futures are woken from other threads.",
 ["inputs", "schedules", "configurations"], "all limits (none, 1, n, more than the source), source/inner readiness scripts, completion orders, cross-thread wake-ups",
 "tests check one limit with one completion order",
 ["futures-util/src/stream/stream/buffered.rs", "futures-util/src/stream/stream/buffer_unordered.rs", "futures-util/src/stream/stream/for_each_concurrent.rs", "futures-util/src/stream/stream/flatten_unordered.rs", "futures-util/src/stream/try_stream/try_buffered.rs", "futures-util/src/stream/try_stream/try_buffer_unordered.rs", "futures-util/src/stream/try_stream/try_for_each_concurrent.rs", "futures-util/src/stream/try_stream/try_flatten_unordered.rs"],
 [("len() < max admission test", "buffered.rs, buffer_unordered.rs, for_each_concurrent.rs"), ("SharedPollState and wrapped wakers", "flatten_unordered.rs")],
 [("poll_state", "who needs polling", "flatten_unordered.rs")],
 ["started/finished events", "outputs", "wake-ups"], H)

prop("C12", "Abortable: abort always takes effect and wakes, otherwise transparent",
 "After abort() on any handle, an Abortable future or stream that has not completed resolves to Aborted (or ends) when next polled, and if it is waiting its task is woken, whichever thread aborts and at whatever moment. Without abort it behaves exactly as the wrapped future or stream; a future that completes first keeps its result, is_aborted and handle identity are accurate on every clone, and abort is idempotent.",
 ["schedules", "histories"], "every interleaving of abort with poll, waker registration, completion and drop, any number of handles",
 "tests abort before or after a poll on one thread, never in between",
 ["futures-util/src/abortable.rs"],
 [("aborted flag checked before and after waker registration", "abortable.rs try_poll"), ("AtomicWaker", "AbortInner")],
 [("aborted", "abort requested", "AbortInner")],
 ["poll results", "wake-ups"], H)

prop("C13", "RemoteHandle: result handed over once, drop cancels, forget detaches",
 "When a future is split into a remote and its handle, the handle resolves to the future's output exactly once, from whatever thread the remote runs on. Dropping the handle makes the remote complete without running the future further (and wakes it if it is waiting), while forget lets it run to completion; a panic of the future is re-raised in the handle. Output and future are dropped exactly once in every interleaving.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of remote polling, wake-ups, completion or panic with handle poll / drop / forget",
 "tests use the ThreadPool in one or two fixed shapes",
 ["futures-util/src/future/future/remote_handle.rs", "futures-channel/src/oneshot.rs"],
 [("oneshot cancellation + keep_running flag", "remote_handle.rs")],
 [("keep_running", "detached", "remote_handle.rs")],
 ["handle result", "remote polls", "drops"], H)

prop("C14", "join and try_join families wait for all, fail fast, keep positions",
 "join, join_all, join! and the try_ forms poll every child until it completes and never after, and resolve exactly when the last child completes - or, in the try_ forms, with the first error observed, at once. The outputs come back in argument position, whatever the order of completion. A wake-up of any unfinished child leads to that child being polled, and all outputs and futures are dropped exactly once also when the join is dropped half-way.",
 ["inputs", "schedules"], "all arities, completion orders, pending/wake scripts, error positions, cancellation points",
 "tests cover one or two orders per arity",
 ["futures-util/src/future/join.rs", "futures-util/src/future/try_join.rs", "futures-util/src/future/join_all.rs", "futures-util/src/future/try_join_all.rs", "futures-util/src/future/maybe_done.rs", "futures-util/src/future/try_maybe_done.rs", "futures-macro/src/join.rs"],
 [("MaybeDone per child", "maybe_done.rs, join.rs"), ("macro expansion", "futures-macro/src/join.rs")],
 (), ["outputs", "child polls/drops"], None)

prop("C15", "select families: first ready wins and the others survive",
 "select, try_select, select_all, select_ok and the select!/select_biased! macros resolve with the output of a child that is really ready, as soon as one is, and return or keep the remaining children unpolled-after-completion, intact and usable so that none of their outputs is lost. select_biased! and select_all-style position rules pick the first ready in order, select! treats ready branches fairly, completed (terminated) branches are skipped, complete / default branches run exactly when all have finished / none is ready. select_ok yields the first success and an error only when all have failed.",
 ["inputs", "schedules"], "all arities, readiness patterns, sequences of repeated selects in loops, fused/terminated branches",
 "tests check fixed readiness patterns; fairness and skip rules need many patterns and repetitions",
 ["futures-util/src/future/select.rs", "futures-util/src/future/try_select.rs", "futures-util/src/future/select_all.rs", "futures-util/src/future/select_ok.rs", "futures-macro/src/select.rs", "futures-util/src/async_await/select_mod.rs", "futures-util/src/async_await/random.rs"],
 [("poll order and swap_remove", "select_all.rs, select_ok.rs"), ("expanded poll_fn over branch array", "futures-macro/src/select.rs")],
 (), ["outputs", "remaining futures", "branch counts"], None)

prop("C16", "Merged streams yield every item of every source, fairly, then end",
 "select, select_with_strategy, select_all, stream_select!, chain and flatten-style merges yield exactly the multiset of source items, keeping each source's own order, and end exactly when all sources have ended, never polling an ended source again. While several sources stay ready none is starved: select alternates, select_with_strategy follows the strategy, select_all visits every ready source in bounded time. A source that becomes ready always leads to the merged stream's task being woken.",
 ["inputs", "schedules"], "all numbers of sources, item counts, readiness scripts, strategies, pushes during iteration",
 "tests use two or three sources in fixed readiness orders",
 ["futures-util/src/stream/select.rs", "futures-util/src/stream/select_with_strategy.rs", "futures-util/src/stream/select_all.rs", "futures-util/src/stream/stream/chain.rs", "futures-macro/src/stream_select.rs"],
 [("PollNext toggle", "select.rs, select_with_strategy.rs"), ("FuturesUnordered of StreamFuture", "select_all.rs")],
 [("internal_state", "which sources ended", "select_with_strategy.rs")],
 ["items", "source polls"], None)

prop("C17", "Stream adapters compute what the iterator counterparts compute",
 "For every source sequence and every pending/wake script, the items and final value produced by the stream adapters and consumers (map, filter, filter_map, flat_map, flatten, take, take_while, take_until, skip, skip_while, chunks, ready_chunks, enumerate, zip, chain, cycle, scan, peekable, fold, collect, concat, unzip, all, any, count, for_each, inspect, then, fuse, next, into_future, select_next_some) and constructors equal those of the corresponding Iterator computation. Closures run once per item, in order, and nothing past the stopping point is consumed from the source beyond what the adapter documents. peek-style operations show the next item without consuming it.",
 ["inputs", "schedules", "programs"], "all source sequences, adapter arguments, adapter compositions, pending patterns of source and of async closures",
 "each adapter has a few example tests, mostly with always-ready sources",
 ["futures-util/src/stream/stream/", "futures-util/src/stream/iter.rs", "futures-util/src/stream/unfold.rs", "futures-util/src/stream/once.rs", "futures-util/src/stream/repeat.rs", "futures-util/src/stream/poll_fn.rs"],
 [("pending future slot re-polled before the source", "filter.rs, then.rs, take_while.rs, fold.rs, ...")],
 (), ["items", "closure calls", "source polls"], None)

prop("C18", "TryStream and fallible adapters route values and errors exactly",
 "The try-stream adapters and consumers (and_then, or_else, map_ok, map_err, inspect_ok/err, err_into, into_stream, try_filter, try_filter_map, try_flatten, try_skip_while, try_take_while, try_fold, try_for_each, try_collect, try_concat, try_unfold, try_chunks, try_ready_chunks, try_next, try_all, try_any, into_async_read) compute the same sequence of Ok and Err results as the corresponding fold over Result items, whatever the pending pattern. An error is passed on once, at its position, without losing the Ok items before it (try_chunks hands them back with the error), and Ok-side closures never see errors nor the reverse.",
 ["inputs", "schedules"], "all Ok/Err sequences, pending patterns, closure results, compositions",
 "tests cover one or two sequences per adapter",
 ["futures-util/src/stream/try_stream/", "futures-util/src/fns.rs"],
 [("pending future slot; error short-circuit", "try_stream/*.rs")],
 (), ["Result items", "closure calls"], None)

prop("C19", "Future combinators compute the composed function, exactly once",
 "map, then, and_then, or_else, map_ok, map_err, map_into, err_into, ok_into, unwrap_or_else, map_ok_or_else, flatten, flatten_stream, flatten_sink, try_flatten, inspect*, fuse, now_or_never, into_stream, catch_unwind, left/right Either, OptionFuture, lazy, poll_fn, ready, always_ready, pending, poll_immediate, maybe_done, boxed forms and into_future resolve to the value obtained by applying the closures to the inner outputs, for every pending pattern. Each closure runs at most once and only in its case, inner futures are polled in sequence and never after completion, and nothing is polled or called before the combinator is polled.",
 ["inputs", "schedules", "programs"], "all values, Ok/Err outcomes, pending patterns and combinator compositions",
 "tests have one example per combinator, mostly immediately ready",
 ["futures-util/src/future/future/", "futures-util/src/future/try_future/", "futures-util/src/future/either.rs", "futures-util/src/future/option.rs", "futures-util/src/future/lazy.rs", "futures-util/src/future/poll_immediate.rs", "futures-util/src/fns.rs"],
 [("Map / Flatten / TryFlatten state machines", "future/future/map.rs, flatten.rs, try_future/try_flatten.rs")],
 (), ["outputs", "closure call counts", "inner polls"], None)

prop("C20", "Pending always means the latest waker will be woken",
 "Whenever a future, stream, sink or I/O adapter of the library returns Pending, the waker of that latest poll will be woken once one of the things it waits for makes progress, even if every poll passes a different waker and the adapter was polled spuriously or moved to another task in between. Hence any composition of the adapters driven only when woken runs to completion if its leaves do. A composition also never polls a leaf that already completed and never spins: it needs a number of polls bounded by the events that occurred.",
 ["programs", "schedules", "inputs"], "all compositions of the combinators over scripted leaves, all wake orders, changing wakers, spurious polls",
 "tests poll with one constant waker (often a no-op one) and mostly ready leaves",
 ["futures-util/src/future/", "futures-util/src/stream/", "futures-util/src/sink/", "futures-util/src/io/", "futures-core/src/task/__internal/atomic_waker.rs"],
 [("each adapter forwards cx or registers a waker before returning Pending", "all poll functions")],
 (), ["root wakes vs outstanding leaf events", "polls after completion"], None)

prop("C21", "size_hint and is_terminated never lie",
 "At every point of a stream's life the number of items it still yields lies within its size_hint bounds (given a truthful source), for every adapter and every pending pattern; collections report their exact length. A stream or fused future never reports is_terminated while an item or result is still to come, and reports it once it has ended (given a source that does). Polling Fuse, take, select, zip or a collection again after its end, or a Fuse future after its completion, yields nothing more and does not touch the finished source.",
 ["inputs", "histories", "programs"], "all adapters and compositions, source lengths, pending patterns, every intermediate state",
 "tests check hints at one or two points of a few adapters",
 ["futures-util/src/stream/stream/", "futures-util/src/stream/", "futures-util/src/future/future/fuse.rs", "futures-core/src/stream.rs", "futures-core/src/future.rs"],
 [("size_hint implementations", "stream/**.rs"), ("FusedStream/FusedFuture implementations", "**.rs")],
 (), ["size_hint", "is_terminated", "remaining items"], None)

prop("C22", "Sinks: every item reaches the destination once, in order, when flushed",
 "Items passed to a sink adapter (buffer, with, with_flat_map, fanout, sink_map_err, sink_err_into, unfold, drain, send, feed, send_all, forward, Vec/VecDeque sinks, left/right, into_sink) reach the underlying sink exactly once, in order and transformed as documented, and have all arrived and been flushed when flush or close reports ready. start_send on the inner sink is called only after it reported ready, buffer never holds more than its capacity, fanout gives every item to both sinks, close closes the inner sink only after all items were passed on, and a source that is pending makes send_all and forward flush what was sent so far. Errors of the inner sink, the mapping future or the source stream are reported to the caller; after an error of the inner sink no delivery of further items is promised.",
 ["inputs", "schedules", "fault_sequences"], "all item sequences, readiness scripts of the inner sinks, capacities, interleavings of ready/flush/close, error positions",
 "tests use always-ready or hand-stepped sinks with a few items",
 ["futures-util/src/sink/", "futures-util/src/stream/stream/forward.rs", "futures-sink/src/lib.rs", "futures-util/src/unfold_state.rs"],
 [("VecDeque buffer, try_empty_buffer", "sink/buffer.rs"), ("state slot", "sink/with.rs, with_flat_map.rs"), ("buffered item", "sink/send_all.rs, stream/forward.rs")],
 (), ["inner sink call trace"], None)

prop("C23", "AsyncRead/AsyncBufRead adapters deliver exactly the source's bytes",
 "For every chunking of the source into partial reads, Pendings and interruptions, the read adapters (read, read_exact, read_to_end, read_to_string, read_line, read_until, lines, take, chain, BufReader with seek, Cursor, fill_buf/consume, into_async_read, AllowStdIo, vectored reads, split halves, repeat/empty) yield exactly the bytes of the source in order: none lost, duplicated or altered. End of file, errors, limits and invalid UTF-8 are reported as documented by the std counterpart, buffers grow by exactly what was read, and consume never skips unread bytes.",
 ["inputs", "schedules", "fault_sequences"], "all byte contents, chunkings, pending patterns, buffer sizes, errors at any point, cancellation between reads",
 "tests use a few buffers and chunkings",
 ["futures-util/src/io/", "futures-io/src/lib.rs", "futures-util/src/stream/try_stream/into_async_read.rs"],
 [("BufReader pos/cap bookkeeping", "io/buf_reader.rs"), ("read_to_end growth and rollback guards", "io/read_to_end.rs, read_to_string.rs, read_line.rs")],
 [("pos/cap", "unread window", "io/buf_reader.rs")],
 ["bytes returned", "inner read calls"], None)

prop("C24", "AsyncWrite adapters write exactly the bytes given, in order",
 "For every pattern of short writes and Pendings of the underlying writer, the write adapters (write, write_all, write_vectored, write_all_vectored, flush, close, BufWriter, LineWriter, copy, copy_buf, copy_buf_abortable, copy into Cursor/Vec, into_sink, AllowStdIo, sink) deliver exactly the bytes accepted, once and in order. After flush or close completes nothing is left buffered; counts returned equal the bytes consumed; a zero-length write and errors are reported without losing or repeating bytes. LineWriter passes complete lines on as soon as the writer accepts them, at the latest with the next write, and seeking flushes first.",
 ["inputs", "schedules", "fault_sequences"], "all byte contents, write sizes, short-write/pending patterns, buffer capacities, errors at any point",
 "tests use a few sizes with mostly full writes",
 ["futures-util/src/io/buf_writer.rs", "futures-util/src/io/line_writer.rs", "futures-util/src/io/write_all.rs", "futures-util/src/io/write_all_vectored.rs", "futures-util/src/io/copy.rs", "futures-util/src/io/copy_buf.rs", "futures-util/src/io/copy_buf_abortable.rs", "futures-util/src/io/into_sink.rs"],
 [("written cursor and flush_buf", "io/buf_writer.rs"), ("amt/pos bookkeeping", "io/copy_buf.rs")],
 [("buf/written", "bytes not yet passed on", "io/buf_writer.rs")],
 ["bytes at the inner writer"], None)

prop("C25", "block_on and LocalPool run every task whenever it is woken",
 "block_on, block_on_stream and LocalPool (run, run_until, try_run_one, run_until_stalled) poll each spawned task after it is spawned and after each wake-up from any thread, never losing one that arrives while the executor is about to sleep, and each returns exactly when its documented condition holds. Tasks spawned by tasks run too, completed tasks are dropped once, the output of run_until / block_on is returned, and a stalled pool returns instead of sleeping: run_until_stalled and try_run_one leave no spawned or woken task unpolled, and try_run_one reports true exactly when one task completed. What was written before a wake-up is visible to the poll it causes. Re-entering an executor on the same thread panics, and the enter guard is released on every exit path including panics.",
 ["schedules", "histories"], "all interleavings of cross-thread wakes with the poll/park loop, spawn graphs, panics, sequences of pool calls",
 "tests wake from the same thread or with sleeps; the park/unpark race windows are unsampled",
 ["futures-executor/src/local_pool.rs", "futures-executor/src/enter.rs"],
 [("unparked flag swap before park", "local_pool.rs run_executor / ThreadNotify"), ("incoming queue drain", "local_pool.rs poll_pool")],
 [("unparked", "pending wake", "ThreadNotify")],
 ["task polls", "return conditions"], None)

prop("C26", "ThreadPool: every spawned future runs, on one thread at a time",
 "Each future given to a ThreadPool is polled, by one worker at a time, once after spawning and again after every wake-up (including one that arrives while it is being polled) until it completes, and is then dropped exactly once. The configured pool size, names and the after_start / before_stop callbacks (once per worker) are honoured, and workers stop when all handles and tasks are gone. spawn_with_handle results arrive, a future that panics there does not hang its handle or hurt the pool, and no wake-up from any thread is lost.",
 ["schedules", "histories"], "all interleavings of wake-ups with polling and completion, pool sizes, spawn graphs, drops of the pool while tasks run",
 "tests start a few trivial tasks",
 ["futures-executor/src/thread_pool.rs", "futures-executor/src/unpark_mutex.rs"],
 [("WAITING/POLLING/REPOLL/COMPLETE", "unpark_mutex.rs"), ("Message::Run / Close queue, cnt", "thread_pool.rs")],
 [("status", "task state", "UnparkMutex")],
 ["poll overlap", "completion", "worker callbacks"], H)

prop("C27", "Cancellation and panics: everything dropped exactly once, nothing hangs",
 "Dropping any future, stream, sink or collection of the library at any await point, or a panic in any child poll or closure, leaves every future, item, output and waker owned by it dropped exactly once, and a panic in a destructor never makes anything be dropped twice. After a caught panic the surviving objects (sibling tasks, other handles, locks) stay usable or report failure; none is left blocked for ever and none exposes an item twice. catch_unwind turns the panic into an error value.",
 ["programs", "crash_points", "fault_sequences"], "all drop points and panic points in compositions of combinators, collections, channels and locks",
 "tests drop or panic at one place in a few types",
 ["futures-util/src/stream/futures_unordered/", "futures-util/src/future/", "futures-util/src/stream/", "futures-util/src/unfold_state.rs", "futures-util/src/future/future/catch_unwind.rs"],
 [("Bomb / reset guards, pin_project Drop", "futures_unordered/mod.rs, shared.rs, into_future paths")],
 (), ["drop counters", "poll results after panic"], None)

prop("C28", "No undefined behaviour, data race or leak from safe use of the API",
 "No sequence of safe API calls, from any number of threads, triggers undefined behaviour in the library: no out-of-bounds or use-after-free access, no data race, no invalid aliasing, no uninitialised read, and no memory left allocated once all handles are dropped (cycles made by the user excepted). This covers the channels, locks, collections, executors, waker and task-object construction, abortable/shared/remote handles and the buffered I/O code.",
 ["programs", "schedules", "histories"], "all safe API call sequences and interleavings",
 "ordinary test runs do not observe undefined behaviour or races on weak memory",
 ["futures-channel/src/", "futures-core/src/task/", "futures-task/src/", "futures-util/src/stream/futures_unordered/", "futures-util/src/lock/", "futures-util/src/future/future/shared.rs", "futures-util/src/io/", "futures-executor/src/"],
 [("unsafe blocks", "all files listed")],
 (), ["Miri / AddressSanitizer / ThreadSanitizer reports"], None)

prop("C29", "Wakers and task objects keep exact reference counts and identity",
 "Wakers made from ArcWake values (waker, waker_ref, into_waker) wake exactly the value they were made from, once per wake, keep it alive while any clone exists and free it when the last one is gone, and will_wake is never claimed between wakers of different values. Boxed task objects (FutureObj, LocalFutureObj from every supported pointer kind) run the very future they were made from and drop it once; noop wakers do nothing; spawn errors report shutdown. Spawner handles pass tasks on unchanged.",
 ["histories", "programs"], "all sequences of clone, wake, wake_by_ref, drop, mem::forget-free conversions, from any thread; all pointer kinds",
 "tests check a few counts in one order",
 ["futures-task/src/waker.rs", "futures-task/src/waker_ref.rs", "futures-task/src/arc_wake.rs", "futures-task/src/future_obj.rs", "futures-task/src/noop_waker.rs", "futures-task/src/spawn.rs"],
 [("RawWaker vtable over Arc", "waker.rs"), ("UnsafeFutureObj into_raw/drop", "future_obj.rs")],
 (), ["Arc strong counts", "drop counters", "wake counts"], None)

prop("C30", "futures 0.1 compatibility layer preserves results, readiness and wake-ups",
 "A 0.1 future, stream or sink used through the compat layer as a 0.3 one (and the reverse) yields the same items, results, errors and end as the original, for every pending pattern. A notification in one world reaches the task waiting in the other, items offered to a sink that is not ready are neither lost nor duplicated, and close/flush happen in order. Executor adapters run each spawned future.",
 ["inputs", "schedules"], "all item/result sequences, pending patterns, sink readiness patterns, cross-world notifications",
 "a few smoke tests only",
 ["futures-util/src/compat/compat01as03.rs", "futures-util/src/compat/compat03as01.rs", "futures-util/src/compat/executor.rs"],
 [("NotifyWaker / WakerToHandle / buffered item", "compat/*.rs")],
 [("buffer/close_started", "sink hand-over", "Compat01As03Sink")],
 ["items", "notifications"], None)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
