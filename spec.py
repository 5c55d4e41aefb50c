#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 spec.py` after editing."""
import json, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=list(state), observe=list(observe), note=note, na=na))

W = ["kio/core/worker.h", "kio/core/worker.cpp"]
prop("C01", "The cross-thread queue is an exactly-once, race-free bounded FIFO",
     "Every element accepted by the multi-producer single-consumer queue is taken out exactly once and intact, each producer's elements come out in the order it pushed them, and a push that finished before another began comes out first. "
     "A push is refused only when as many elements as the capacity are in the queue or being inserted, and a pop finds nothing only when no completed push is outstanding or an earlier push is still in progress. "
     "This holds for every power-of-two capacity including one, without data races, and elements still queued at destruction are destroyed once.",
     ["schedules", "programs"], "all interleavings (deviation-bounded) of 2 producers and the consumer over capacities 1, 2, 4, including stale loads and spurious CAS failures; all sequential push/pop programs up to length 13",
     "No stable test touches the queue; unit tests sample a few schedules and cannot see weak-memory reorderings or lap-around races.",
     ["kio/sync/mpsc_queue.h"], [dict(name="per-slot sequence protocol", where="kio/sync/mpsc_queue.h: MPSCQueue::TryPush, TryPop")],
     [dict(name="slot sequence and head/tail tickets", meaning="who owns a slot in which lap")], ["return values and elements of push and pop"])
prop("C02", "Switching to a worker resumes the coroutine exactly once, on that worker",
     "A coroutine that asks to continue on a worker is resumed exactly once and on that worker's thread, whatever thread it came from and whether the worker is busy, idle, asleep or has not begun to run. "
     "Coroutines handed over by one thread run in the order they were handed over, and no wake-up is lost while at most the configured task capacity is waiting.",
     ["schedules", "programs", "configurations"], "all interleavings (deviation-bounded) of up to 3 posting threads, 1-2 workers and the kernel's eventfd/completion timing, with stale loads",
     "A lost wake-up needs one precise interleaving of the idle check, the post and the eventfd read; no test controls that.",
     W + ["kio/sync/mpsc_queue.h"], [dict(name="idle flag + eventfd wake-up", where="kio/core/worker.cpp: Worker::Post, Worker::RunOnce"), dict(name="SwitchToWorker", where="kio/core/worker.h")],
     [], ["thread on which the coroutine continues, and how often"])
prop("C03", "Worker start-up and shutdown always terminate and own their descriptors",
     "Once a worker's loop has been started, requesting a stop, waiting for readiness and waiting for shutdown all return in every order and from any number of threads, whether it is starting, is idle, has operations in flight, or failed to initialise; a worker whose loop never ran can be asked to stop and destroyed. "
     "Every descriptor a worker opens is closed exactly once and it closes none it did not open.",
     ["schedules", "fault_sequences"], "all interleavings (deviation-bounded) of stop/wait/destroy against start, with every initialisation and wait error injected",
     "Start-up failures and stop-before-start races are not reachable from a test without fault injection and a controlled scheduler.",
     W, [dict(name="ready/shutdown latches and stop token", where="kio/core/worker.cpp: Worker::LoopForever, RequestStop, WaitReady, WaitShutdown")], [], ["termination, descriptor open/close log"])
prop("C04", "Each I/O completion resumes its own coroutine once, with its own result",
     "Whatever order the kernel completes operations in, each awaiting coroutine is resumed exactly once, on its worker, with the result of its own operation, and the operation that reaches the kernel carries exactly the arguments the caller gave. "
     "When operation slots or submission entries run out, the caller that cannot be served is told so, and no other operation is lost, duplicated or misdirected.",
     ["schedules", "fault_sequences", "configurations"], "all completion orders, batch splits and slot-reuse patterns for up to 6 operations over small slot pools, submission and completion queues; every operation kind",
     "Completion order, queue exhaustion and slot reuse are chosen by the kernel and the load; a test sees one of them.",
     W + ["kio/core/uring_awaitable.h"], [dict(name="op slot pool and user_data", where="kio/core/worker.h: GetOpId, ReleaseOpId; kio/core/uring_awaitable.h: await_suspend")], [], ["results delivered per coroutine, SQEs seen by the kernel"])
prop("C05", "Exact transfers move precisely the requested bytes despite short I/O",
     "An exact read, write or file send succeeds only if every requested byte was moved, in order, once, at the right offset; otherwise it reports end of file or the operation's error and has moved only a prefix. "
     "It never touches memory or offsets outside the request and leaks no descriptor, for every way the kernel may cut a transfer short or have no room for it at the moment.",
     ["inputs", "fault_sequences"], "every sequence of short/zero/error answers for all lengths 0-7, both offset-given and current-position forms; file sends across the pipe chunk boundary",
     "Short transfers on real files and sockets are rare and not under a test's control.",
     W, [dict(name="exact loops", where="kio/core/worker.cpp: AsyncReadExact*, AsyncWriteExact*, AsyncSendfile")], [], ["bytes at both ends, result, SQE offsets"])
prop("C06", "Blocking on a coroutine yields exactly its result, after it has finished",
     "A blocking wait on a coroutine returns its value or rethrows its exception, only after the coroutine finished, wherever and whenever it finishes, for value, reference, move-only and void results. "
     "It always wakes up, and nothing of the coroutine or of the wait itself is used after it was released.",
     ["schedules", "programs"], "all interleavings (deviation-bounded) of the waiting and finishing threads for every result shape, including stale loads",
     "The stable tests for it run one schedule; the wake-up/teardown race needs specific interleavings.",
     ["kio/sync/sync_wait.h", "kio/core/coro.h"], [dict(name="completion notification", where="kio/sync/sync_wait.h: SyncWaitTask, SyncWait")], [], ["value or exception, object lifetimes"])
prop("C07", "Composed coroutines behave like plain calls",
     "A coroutine does nothing until awaited, then runs to its end, delivering its value or exception to its awaiter exactly once, so any composition of coroutines computes what the same program with plain calls computes. "
     "Every coroutine frame and local is destroyed exactly once, however the coroutine ends or is dropped, and long chains of awaits do not consume stack.",
     ["programs"], "all coroutine programs up to a bounded size over await/return/throw/catch/move/drop, executed against a plain-call reference",
     "Tests exercise a few hand-written compositions; exceptions through nested frames and dropped tasks are combinatorial.",
     ["kio/core/coro.h"], [dict(name="Task promise, symmetric transfer, DetachedTask", where="kio/core/coro.h")], [], ["event trace, live frames"])
prop("C08", "A baton releases its waiter exactly once, whenever it is signalled",
     "A coroutine waiting on a one-shot signal continues exactly once, on its owner worker, and only after the signal was given; if it was given first, it does not wait. "
     "Writes made before signalling are visible to the waiter, repeated signals are harmless, and after a reset the signal can be used again.",
     ["schedules", "programs"], "all interleavings (deviation-bounded) of waiter and up to 2 notifiers on other threads, with stale loads",
     "The notify/suspend race is a few instructions wide.",
     ["kio/sync/baton.h"], [dict(name="state machine NOT_SET/SET/WAITING", where="kio/sync/baton.h: AsyncBaton")], [], ["resumptions per waiter and their thread"])
prop("C09", "A timed wait on a baton ends exactly once, with the truth about who won",
     "A timed wait returns exactly once, on its worker: success if the signal was given before the wait gave up, time-out otherwise and then only after the requested time. "
     "A signal racing with the time-out neither resumes the waiter twice nor touches anything the finished wait has released, and the baton can be used again afterwards.",
     ["schedules", "fault_sequences"], "all interleavings (deviation-bounded) of waiter, notifier thread, timer expiry and timer cancellation answers",
     "Needs the timer completion and the signal to land in the same instant.",
     ["kio/sync/baton.h"], [dict(name="timer SQE vs notify arbitration", where="kio/sync/baton.h: AsyncBaton::TimeoutState, wait_for")], [], ["return value, time, resumption count"])
prop("C10", "An event wakes every waiter exactly once",
     "Every coroutine waiting on an event when it is signalled continues exactly once on the event's worker, and a coroutine that arrives after the signal does not wait. "
     "No waiter is lost, woken early or woken twice when waits, signals and resets overlap.",
     ["schedules", "programs"], "all interleavings (deviation-bounded) of up to 3 waiters and 2 signallers; all wait/notify/reset programs up to a bound",
     "The waiter list is pushed and taken lock-free; losing one needs a particular interleaving.",
     ["kio/sync/event.h"], [dict(name="lock-free waiter list", where="kio/sync/event.h: AsyncEvent")], [], ["resumption count per waiter"])
prop("C11", "Waiting for the first of several tasks returns the first to finish",
     "Waiting for any of several tasks that return normally yields, exactly once and on the given worker, the position of one that finished first. The remaining tasks still run to completion, and nothing is used after it was released.",
     ["schedules", "programs"], "all completion orders and interleavings (deviation-bounded) of up to 3 tasks finishing on different threads",
     "Simultaneous completion on different workers is a race no test controls.",
     ["kio/sync/when_any.h"], [dict(name="shared first-wins state", where="kio/sync/when_any.h")], [], ["winner index, object lifetimes"])
prop("C12", "The asynchronous logger loses, duplicates and reorders nothing it accepted",
     "Every log record the logger accepted is written exactly once, whole, in the order its thread logged it, and records below the configured level are never written; records it could not accept are reported. "
     "Flushing or stopping, from any thread, returns only after everything logged earlier is written.",
     ["schedules", "programs"], "all interleavings (deviation-bounded) of 2 logging threads, the writer thread, flush and stop, with tiny queues",
     "The stable logger tests log from one schedule and cannot force wake-up or shutdown races.",
     ["kio/core/async_logger.h"], [dict(name="MPSC queue + consumer thread", where="kio/core/async_logger.h: Logger")], [], ["written lines, dropped counter"])
prop("C13", "The byte buffer behaves as a FIFO of bytes",
     "After any sequence of reserve, write, read, advance, clear and reset operations, the readable bytes are exactly those committed and not yet consumed, in order. "
     "Spans handed out stay inside the buffer, capacity requests are honoured without losing data, and an over-long commit or consume is refused without effect.",
     ["programs", "inputs"], "all operation sequences up to a depth over boundary-colliding sizes, compared step by step with a reference queue of bytes",
     "Tests check single operations; compaction and growth interact over sequences.",
     ["kio/core/bytes_mut.h"], [dict(name="read/write positions and compaction", where="kio/core/bytes_mut.h: BytesMut")], [], ["readable contents, capacity, thrown errors"])
prop("C14", "Protocol parsing does not depend on how the bytes arrive",
     "However a byte stream is cut into pieces, the parser yields the same frames, contents and errors as when it gets the stream at once. "
     "On every proper prefix of a valid frame it asks for more input, delivers the frame when its last byte is there, and consumes exactly the bytes of each frame.",
     ["inputs", "histories"], "all byte strings of 5 bytes and 4 tokens over protocol-covering alphabets and all streams of up to 2-3 small frames, cut in every way into up to 3 pieces and byte by byte",
     "The stable tests feed a handful of complete and truncated frames.",
     ["kio/resp/parser.h", "kio/resp/parser.cpp"], [dict(name="incremental frame parser", where="kio/resp/parser.cpp: Parser::Next")], [], ["frames, errors, bytes consumed"])
prop("C15", "The parser accepts exactly well-formed frames and is safe on everything else",
     "Every well-formed RESP3 frame is accepted with its exact type, size, element count and contents; a frame whose length, count, number, boolean or terminator is malformed is rejected, and limits on size and nesting are enforced. "
     "No input makes it read outside the given bytes, loop, or exhaust the stack, and iterating an aggregate visits exactly its children.",
     ["inputs"], "all byte strings up to 5-6 bytes over 22 bytes and 5-6 tokens over 26 tokens against an independent grammar; all frame trees up to 3-4 nodes with every truncation and single-byte edit",
     "Malformed input is a combinatorial space; the stable tests hold a few dozen examples.",
     ["kio/resp/parser.h", "kio/resp/parser.cpp"], [dict(name="type dispatch, length parsing, limits", where="kio/resp/parser.cpp")], [], ["accept/reject, frame views"])
prop("C16", "Exposed metrics text is well formed and carries the exact values",
     "The exposition contains exactly one help and one type line per family, followed by all of its samples: one per value that was added, with its exact value and its labels, everything correctly escaped. "
     "A family name used several times, by one collector or several, still gives one family, and references to a family stay valid while others are added.",
     ["inputs", "programs"], "all registrations of up to 3 metrics over colliding names/labels/kinds and boundary values, parsed back by an independent reader",
     "No stable test covers it.",
     ["kio/metrics/model.h", "kio/metrics/registry.h", "kio/metrics/serializer.cpp", "kio/metrics/collector.h"], [dict(name="snapshot builder and text serializer", where="kio/metrics/serializer.cpp; kio/metrics/model.h")], [], ["exposition text"])
prop("C17", "The metrics endpoint answers every request correctly and survives bad clients",
     "Every complete request gets exactly one correct response - the current metrics for the metrics path, an error status otherwise - whose declared length matches its body, however the request is split and the response is cut short. "
     "A malformed, oversized or disconnecting client is dropped without disturbing others and its descriptor is closed exactly once; stopping terminates in every state, however often it is asked, and closes the listening socket exactly once.",
     ["inputs", "schedules", "fault_sequences"], "all splits of requests into chunks, all short writes/errors, connection orders and stop timings within deviation bounds",
     "No stable test covers it; chunking and disconnects are chosen by the network.",
     ["kio/metrics/server.h", "kio/metrics/server.cpp"], [dict(name="accept loop and connection handler", where="kio/metrics/server.cpp")], [], ["bytes on the wire, descriptors"])
prop("C18", "Metrics collection is safe against concurrent registration and running workers",
     "Registering collectors and scraping from different threads, while workers run, has no data race or deadlock, even when the scrape itself runs on a worker; each scrape reports every collector registered before it began, and counters never go backwards between scrapes. "
     "Worker counters equal the number of operations the worker actually performed once it is quiet.",
     ["schedules", "histories"], "all interleavings (deviation-bounded) of registration, scrape and worker activity",
     "Races between scrape and activity are schedule-dependent.",
     ["kio/metrics/registry.h", "kio/core/metrics_collector.cpp", "kio/core/worker.h"], [dict(name="registry lock; per-worker counters", where="kio/metrics/registry.h; kio/core/worker.h WorkerStats")], [], ["snapshots"])
prop("C19", "File handles route I/O to one worker per file and own their descriptor",
     "All handles opened on the same file, by whatever spelling of its path and whether or not it existed before, run their I/O on the same worker. "
     "Each handle's descriptor is closed exactly once - on close, move-assignment or destruction - and reads and writes move the requested bytes at the requested place and report truthfully how many, or the error.",
     ["inputs", "schedules", "histories"], "all path spellings from a small alphabet before/after creation; all handle move/close/destroy sequences up to a bound; both threads' interleavings",
     "No stable test covers it.",
     ["kio/fs/fs.h", "kio/fs/fs.cpp"], [dict(name="path hash to worker", where="kio/fs/fs.cpp: FileManager"), dict(name="File RAII", where="kio/fs/fs.h")], [], ["worker thread per operation, descriptor log"])
prop("C20", "The worker pool starts, distributes and stops completely",
     "Starting a pool makes all of its workers ready or fails as a whole; work sent to a worker, by index or chosen by key, runs on that worker's own thread, and a key always chooses the same worker. Stopping it, from any threads outside the pool and any number of times, returns only when every worker has ended, and every descriptor is released.",
     ["schedules", "fault_sequences", "configurations"], "all interleavings (deviation-bounded) of start, stop and every failing worker start for pools of 1-4 workers",
     "Partial initialisation failure and early stop are not reachable by a plain test.",
     ["kio/core/worker_pool.h", "kio/core/worker_pool.cpp"], [dict(name="IOPool", where="kio/core/worker_pool.cpp")], [], ["threads, descriptors, readiness"])
prop("C21", "TLS streams never report a secured connection that is not one",
     "A handshake reports success only if the protocol handshake completed and kernel encryption is active in both directions, for every sequence of would-block answers and failures; afterwards it reports the same verdict again. "
     "Application data is refused unless the connection is secured, a client succeeds only with a server checked against the name it asked for, the library is told exactly what the configuration demands (verification, trust, oldest version, ciphers, protocols), and one connection's failure never disturbs another. "
     "Sessions and descriptors are released exactly once however a stream ends or is moved, and the TLS library never blocks the worker.",
     ["fault_sequences", "histories"], "all sequences of handshake step answers, poll outcomes, kernel-TLS availability, stop requests and moves up to a bound, with a scripted TLS library",
     "Failures in the middle of a handshake cannot be scripted with a real peer.",
     ["kio/tls/stream.h", "kio/tls/stream.cpp", "kio/tls/listener.cpp", "kio/tls/context.cpp"], [dict(name="handshake state machine", where="kio/tls/stream.cpp: AsyncHandshake")], [], ["results, library call log, descriptors"])
prop("C22", "The key-value store reads back exactly what was last written",
     "After any sequence of puts, deletes, rotations, compactions and reopenings, reading a key returns the value of its latest put, or nothing if it was deleted or never put. "
     "This holds for every key and value including empty, large and binary ones, across every partition, whatever the configuration of each opening. "
     "Files that are not the store's own are neither read nor touched, and a data file that cannot be read costs nothing that is stored elsewhere.",
     ["histories", "configurations"], "all operation sequences up to a depth over 2 keys and colliding values, including rotation, compaction and close/reopen, against a map",
     "The store's own tests are not part of the build; histories that mix rotation, deletion, compaction and reopen are combinatorial.",
     ["bitcask/include/partition.h", "bitcask/src/partition.cpp", "bitcask/src/bitcask.cpp"], [dict(name="keydir + append-only data files", where="bitcask/src/partition.cpp")], [], ["get results"])
prop("C23", "An acknowledged write survives a crash",
     "With synchronous writes on, once a put or delete has reported success, any crash followed by reopening shows it, or a later acknowledged or in-flight write to the same key; a write in flight at the crash is either wholly there or wholly absent. "
     "Without synchronous writes, the same holds for everything a successful sync or close covered. Reopening after a crash always succeeds and never invents or mixes values.",
     ["crash_points", "histories", "fault_sequences"], "every crash point of every short history (sequential, concurrent, with compaction, with one I/O failure, over two crashes), with every choice of surviving unsynced writes and torn tails",
     "Crashes cannot be produced by a unit test at a chosen point with chosen lost writes.",
     ["bitcask/src/partition.cpp", "bitcask/src/data_file.cpp"], [dict(name="sync_on_write, recovery scan", where="bitcask/src/partition.cpp: recover")], [], ["contents after reopen"])
prop("C24", "Compaction never changes what the store contains",
     "Merging old data files keeps the latest value of every key and keeps deleted keys deleted, immediately and after reopening, even if it is interrupted by an I/O error or a crash at any point. "
     "Files are removed only when everything still live in them has been safely written elsewhere.",
     ["histories", "crash_points", "fault_sequences"], "all short histories with compaction, every crash point and every single I/O failure inside compaction",
     "Needs failures at exact points inside compaction.",
     ["bitcask/src/compactor.cpp", "bitcask/src/partition.cpp"], [dict(name="merge and swap", where="bitcask/src/compactor.cpp")], [], ["contents before/after/reopened"])
prop("C25", "Concurrent operations on the store are linearizable",
     "Puts, gets and deletes issued concurrently, from any threads and while files rotate or are compacted, behave as if each happened at one instant between its call and its return; the contents after reopening agree with that order. "
     "A close lets what is under way finish: once it returned, later operations are refused and nothing touches the files any more, and it does not wait for the next turn of the background work.",
     ["schedules", "histories"], "all interleavings (deviation-bounded) and I/O completion orders of 2-3 concurrent operations on colliding keys, with rotation and compaction, against brute-force linearization",
     "Coroutines interleave at every I/O completion; tests sample one order.",
     ["bitcask/src/partition.cpp", "bitcask/src/data_file.cpp"], [dict(name="per-partition worker, offset reservation", where="bitcask/src/partition.cpp; bitcask/src/data_file.cpp")], [], ["call/return histories"])
prop("C26", "Stored entries decode exactly or are reported corrupt",
     "Encoding then decoding an entry returns the same key, value, flags and timestamp and reports the exact length consumed; any truncated or altered entry is reported as such and never decoded as something else. "
     "Decoding never reads outside the bytes it was given, whatever lengths the entry claims.",
     ["inputs"], "all small keys/values, every truncation, every single-bit and header-field mutation including overflowing lengths",
     "Corruption is a combinatorial input space.",
     ["bitcask/src/entry.cpp", "bitcask/include/entry.h"], [dict(name="CRC and length checks", where="bitcask/src/entry.cpp")], [], ["decoded entry or error"])
prop("C27", "A store refuses to open with another layout; opening is all-or-nothing",
     "A store remembers its number of partitions; opening it with another number is refused before anything is changed, and a crash during creation leaves a store that can be opened again. "
     "Every key is always routed to the same partition.",
     ["histories", "crash_points", "configurations"], "all open/close/reopen sequences over partition counts and every crash point of creation, every truncation of the manifest",
     "Configuration mismatch and torn manifests are not exercised.",
     ["bitcask/src/bitcask.cpp", "bitcask/include/bitcask.h"], [dict(name="MANIFEST", where="bitcask/src/bitcask.cpp")], [], ["open result and contents"])
prop("C28", "The descriptor cache hands out live descriptors and closes each exactly once",
     "A descriptor obtained from the cache stays open and refers to the requested file as long as its user needs it, the number of cached descriptors stays within the limit, and each is closed exactly once.",
     ["histories", "schedules"], "all get/remove/clear sequences up to a depth over more files than the capacity, and overlapping users at every completion order",
     "Eviction while in use needs a specific interleaving of coroutines.",
     ["bitcask/include/fd_cache.h", "bitcask/src/partition.cpp"], [dict(name="LRU cache", where="bitcask FDCache")], [], ["descriptor log"])
prop("C29", "Data file ids are unique and increase",
     "Every new data file gets an id larger than all ids given out before by that partition, including before a restart, and ids order files by creation, whatever the clock does.",
     ["histories", "inputs"], "all sequences of clock movements (forward, stuck, backward), id requests and restarts up to a depth",
     "Clock movement and bursts within one second are not exercised.",
     ["bitcask/include/file_id.h"], [dict(name="FileIdGenerator", where="bitcask file id generator")], [], ["ids"])
prop("C30", "Errors are mapped faithfully and never look like success",
     "Every system error code becomes an error value that keeps the code and its category and prints a message, no failed operation is ever reported as a success, and no successful one as a failure.",
     ["inputs"], "all errno values 0-4096 through every mapping",
     "Tests check a few codes.",
     ["kio/core/errors.h"], [dict(name="errno mapping", where="kio/core/errors.h")], [], ["error values"])
prop("C31", "Socket helpers report failures and leak no descriptor",
     "Creating, binding, listening, accepting and connecting either yield one owned descriptor configured as asked or an error, and whichever system call fails, nothing stays open that nobody owns. "
     "Owned descriptors are closed exactly once under every sequence of moves, releases, resets and destructions.",
     ["fault_sequences", "histories"], "every failing position among the system calls; all move/reset/release/destroy sequences up to a depth",
     "System call failures need injection.",
     ["kio/net/net.h", "kio/net/net.cpp", "kio/net/socket.h"], [dict(name="RAII descriptors and helper functions", where="kio/net/net.cpp; kio/net/socket.h")], [], ["descriptor log, results"])
prop("C32", "Compaction gives back the space of what was overwritten or deleted",
     "After a compaction, no file sealed before it holds more dead data than the configured threshold, nothing is left of the files it merged, and what is sealed takes no more space than the live entries and the tombstones that are still needed; a store whose keys are all deleted shrinks to nothing. "
     "Its statistics (live bytes and entries of every file, operation counters) agree with the contents and the files at all times, including after reopening, so with automatic compaction all this happens without being asked.",
     ["histories", "configurations"], "all histories of puts, deletes, reopenings and compactions up to a depth, with small and large files and several thresholds, compared with an exact account",
     "Which files are merged depends on the whole history and on statistics rebuilt at every opening.",
     ["bitcask/src/compactor.cpp", "bitcask/src/partition.cpp", "bitcask/include/stats.h"], [dict(name="per-file statistics, fragmentation threshold, merge", where="bitcask/src/partition.cpp; bitcask/src/compactor.cpp")], [], ["file sizes, get_stats()"])

NA = {}

def main():
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "model_checking",
                           "level_note": c.get("note") or "exhaustive over the executions of the real code reachable within the scenario's stated bounds (see DESIGN.md and the evidence file); assumes sequentially consistent scheduling points plus race detection, and the modelled kernel"})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "KIO_MODEL_CHECK", "enable": "-DKIO_MODEL_CHECK (no hook commits were needed: the code is instrumented by the compiler and by link-time interposition)", "source_commits": []},
               "checks": checks, "not_applicable": na,
               "notes": "Properties and manifest are generated by spec.py; bounds are in checks.py."}, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed", len(na), "not applicable")

if __name__ == "__main__":
    main()
