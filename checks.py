"""Per property: harness binaries, the /repo sources they are built from, scenarios and bounds.
A scenario's tier entry is (deviation bound, seconds)."""
def S(name, quick, thorough=None, **kw):
    d = {"name": name, "quick": quick, "thorough": thorough or quick}
    d.update(kw)
    return d
DFS = "stateless model checking of the real code under a controlled scheduler, deviation-bounded exhaustive enumeration"
COMMON_ASSUMPTIONS = [
    "compiled with clang -O1 and asserts enabled; scheduling points at atomic operations, locks, condition variables, thread creation/join, eventfd and io_uring calls",
    "weak memory: happens-before race detection on every plain access, and single stale loads where a scenario enables them; other reorderings are not enumerated",
    "the kernel (io_uring, eventfd, pipes, sockets) is replaced by the explorer-controlled model in mc/rt/fakekern.cpp; regular files are real",
]
CORE = ["kio/core/worker.cpp", "kio/core/metrics_collector.cpp"]
CHECKS = {}
CHECKS["C01"] = {"technique": DFS, "bins": [{"harness": "c01_queue.cpp", "scenarios": [
    S("capacities", (0, 20)), S("many_laps", (0, 40)), S("seq_cap1", (0, 20), what="all push/pop sequences of length 10, capacity 1"),
    S("seq_cap2", (0, 20), what="all push/pop sequences of length 12, capacity 2"),
    S("seq_cap4", (0, 20), what="all push/pop sequences of length 13, capacity 4, destructor with elements"),
    S("two_producers_cap2", (4, 40), (6, 240), what="two producers x 2 pushes, concurrent consumer"),
    S("two_producers_cap1", (4, 40), (6, 180)),
    S("one_producer_wrap", (4, 40), (7, 180), what="one producer laps the ring while the consumer pops"),
    S("two_producers_weak", (3, 40), (5, 240), what="with stale loads and spurious CAS failures"),
    S("wrap_weak", (3, 40), (5, 180)),
    S("handoff_cap2", (4, 30), (6, 120), what="heap-owning elements"),
    S("handoff_cap4", (4, 30), (6, 120)),
]}]}
CHECKS["C02"] = {"technique": DFS, "bins": [{"harness": "c02_switch.cpp", "repo": CORE, "scenarios": [
    S("one_poster", (3, 30), (5, 120)), S("two_posters", (3, 30), (4, 180)), S("poster_order", (3, 30), (4, 180)), S("three_posters", (2, 40), (3, 240)),
    S("queue_of_one", (3, 30), (5, 60)), S("two_posters_weak", (2, 40), (3, 180)), S("before_loop", (3, 30), (4, 120)),
    S("bounce_one", (2, 40), (3, 180)), S("bounce_two", (2, 40), (3, 240)), S("with_io", (3, 40), (4, 240)), S("crowd_700", (0, 40)), S("crowd_1000", (0, 60), tier="thorough"),
]}]}
CHECKS["C03"] = {"technique": DFS, "bins": [{"harness": "c03_lifecycle.cpp", "repo": CORE, "scenarios": [
    S("unused_worker", (0, 10)), S("stop_before_run", (3, 30), (5, 60)), S("stop_vs_start", (4, 30), (6, 120)), S("two_stoppers", (3, 40), (4, 180)),
    S("stop_vs_start_weak", (3, 40), (4, 120)), S("init_enomem", (3, 30), (5, 60)), S("init_enosys", (3, 30), (5, 60)), S("callback_throw", (3, 30), (5, 60)),
    S("callback", (3, 30), (4, 60)), S("wait_eintr", (2, 30), (4, 120)), S("wait_ebusy", (2, 30), (4, 120)), S("wait_fatal", (2, 30), (4, 120)),
    S("stop_with_pending", (2, 40), (4, 240)), S("bad_construction", (0, 10)), S("crowd_at_stop_150", (0, 40)),
]}]}
CHECKS["C04"] = {"technique": DFS, "bins": [{"harness": "c04_routing.cpp", "repo": CORE, "scenarios": [
    S("in_flight_3", (2, 30), (4, 180)), S("in_flight_4_grow", (2, 40), (3, 180)), S("grow_from_one", (1, 20), (3, 60)), S("grow_from_zero", (1, 20), (3, 60)),
    S("tiny_cq", (1, 30), (3, 120)), S("slots_exhausted", (2, 30), (3, 120)), S("slots_exhausted_grow", (1, 30), (3, 120)), S("sq_full", (2, 30), (3, 120)), S("sq_full_few_slots", (1, 20), (3, 120)),
    S("reuse_with_posts", (2, 40), (3, 240)), S("every_operation", (0, 30), (1, 120)), S("mob_300", (0, 60)),
]}]}
CHECKS["C05"] = {"technique": DFS, "bins": [{"harness": "c05_exact.cpp", "repo": CORE, "scenarios": [
    S("exact_0", (0, 20)), S("exact_1", (1, 20)), S("exact_4", (0, 30), (1, 120)), S("exact_7", (0, 40), (0, 120)),
    S("sendfile_small", (0, 30), (1, 120)), S("sendfile_chunks", (0, 40), (0, 180)), S("sendfile_zero", (0, 10)), S("sendfile_busy", (0, 30), (1, 120)), S("sendfile_no_pipe", (0, 10)),
    S("two_transfers", (1, 40), (2, 180)), S("file_4", (0, 30), (1, 60)), S("file_6", (0, 30), (1, 60)), S("file_append_4", (0, 30), (1, 60)),
    S("exact_far", (0, 30)), S("exact_long", (0, 60)), S("exact_huge", (0, 60)), S("sendfile_far", (0, 30)),
]}]}
CHECKS["C06"] = {"technique": DFS, "bins": [{"harness": "c06_syncwait.cpp", "repo": CORE, "scenarios": [
    S("all_shapes", (2, 40), (3, 180)), S("all_shapes_weak", (1, 40), (2, 180)), S("concurrent_waits", (2, 40), (3, 180)), S("repeated", (2, 30), (3, 120)),
]}]}
CHECKS["C07"] = {"technique": "exhaustive enumeration of coroutine programs (bounded trees) executed on the real code against a plain-call reference model", "bins": [{"harness": "c07_task.cpp", "repo": CORE, "scenarios": [
    S("trees_1", (0, 20)), S("trees_2", (0, 40)), S("owned_3", (0, 30)), S("owned_4", (0, 60)), S("owned_5", (0, 300), tier="thorough"), S("ownership_plans", (0, 10)), S("long_chains", (0, 10)),
]}]}

CHECKS["C08"] = {"technique": DFS, "bins": [{"harness": "c08_baton.cpp", "repo": CORE, "scenarios": [
    S("one_notifier", (4, 20), (6, 90)), S("one_thread_notifier", (3, 20), (5, 90)), S("two_notifiers", (3, 20), (4, 90)), S("repeated_signals", (2, 20), (4, 90)),
    S("one_notifier_weak", (3, 20), (4, 90)), S("two_notifiers_weak", (2, 20), (3, 90)), S("destroyed_by_waiter", (3, 20), (5, 90)), S("destroyed_by_waiter_weak", (2, 20), (4, 90)),
    S("reset_and_reuse", (2, 30), (3, 90)), S("programs_5", (0, 20), tier="quick"), S("programs_6", (0, 60), tier="thorough"),
]}]}
CHECKS["C09"] = {"technique": DFS, "bins": [{"harness": "c09_baton_timeout.cpp", "repo": CORE, "scenarios": [
    S("slots_returned", (1, 20), (2, 60)), S("notify_vs_timer", (3, 20), (4, 90)), S("notify_vs_timer_plain", (4, 20), (5, 90)), S("two_notifiers", (3, 20), (4, 90)), S("notify_vs_timer_weak", (3, 20), (4, 90)),
    S("timer_only", (2, 10)), S("wait_again_rest", (2, 40), (3, 180)), S("wait_again", (3, 30), (4, 120)), S("signal_before_submit", (2, 10), (3, 60)), S("durations", (0, 10), (1, 30)),
    S("submission_queue_full", (2, 10), (3, 60)), S("submission_queue_full_signal", (2, 20), (3, 60)), S("no_slot_left", (2, 20), (3, 60)),
]}]}
CHECKS["C10"] = {"technique": DFS, "bins": [{"harness": "c10_event.cpp", "repo": CORE, "scenarios": [
    S("two_waiters", (3, 20), (5, 90)), S("two_waiters_two_notifiers", (3, 20), (4, 120)), S("three_waiters", (2, 20), (3, 120)), S("two_waiters_weak", (2, 20), (4, 90)),
    S("waiters_on_threads", (3, 20), (4, 120)), S("waiters_on_threads_weak", (2, 20), (3, 120)), S("programs_5", (0, 20), tier="quick"), S("programs_7", (0, 90), tier="thorough"), S("crowd_300", (0, 40)),
]}]}
CHECKS["C11"] = {"technique": DFS, "bins": [{"harness": "c11_whenany.cpp", "repo": CORE, "scenarios": [
    S("one_task", (2, 20), (3, 60)), S("two_tasks", (1, 40), (2, 240)), S("two_tasks_weak", (1, 20), (2, 120)), S("two_tasks_stored", (1, 20), (2, 60)), S("three_tasks", (1, 40), (2, 240)),
]}]}
CHECKS["C12"] = {"technique": DFS, "bins": [{"harness": "c12_logger.cpp", "scenarios": [
    S("two_threads", (3, 20), (4, 90)), S("two_threads_drain", (2, 20), (3, 90)), S("three_threads", (2, 20), (3, 90)), S("full_queue", (2, 20), (3, 90)), S("full_queue_large", (2, 20), (4, 60)),
    S("two_threads_weak", (2, 20), (3, 90)), S("flush_others", (2, 20), (3, 90)), S("flush_own", (3, 20), (5, 60)), S("flush_two", (2, 20), (4, 60)),
    S("unformattable", (2, 10), (4, 30)), S("unformattable_full", (2, 10), (4, 30)), S("no_wakeup_descriptor", (2, 10), (3, 30)), S("interrupted_wait", (2, 20), (3, 60)), S("level_table", (1, 10)), S("level_changes", (3, 20), (4, 60)),
    S("message_sizes", (0, 20), (1, 60)), S("many_records", (0, 40), (0, 40)), S("global_logger", (2, 10), (3, 60)),
]}]}
SEQ = "explicit-state search: exhaustive enumeration of bounded operation sequences on the real code, each step compared with a reference model"
ENUM = "exhaustive enumeration of a bounded input space executed on the real code, each result compared with an independent reference"
CHECKS["C13"] = {"technique": SEQ, "bins": [{"harness": "c13_bytes.cpp", "scenarios": [
    S("small_sizes", (0, 60), tier="quick"), S("large_sizes", (0, 60), tier="quick"), S("small_sizes_deep", (0, 300), tier="thorough", hang=600), S("large_sizes_deep", (0, 300), tier="thorough", hang=600),
    S("huge_sizes", (0, 60), tier="quick"), S("huge_sizes_deep", (0, 300), tier="thorough", hang=600),
]}]}
CHECKS["C15"] = {"technique": ENUM, "bins": [{"harness": "c15_resp.cpp", "repo": ["kio/resp/parser.cpp"], "scenarios": [
    S("strings_5", (0, 60)), S("strings_6", (0, 400), tier="thorough"), S("strings_8", (0, 60)), S("tokens_5", (0, 60)), S("tokens_6", (0, 400), tier="thorough"),
    S("mutations_3", (0, 60)), S("mutations_4", (0, 200), tier="thorough"), S("numbers", (0, 20)), S("size_limit", (0, 20)), S("depth_limit", (0, 20)), S("hostile_depth", (0, 20)), S("wide", (0, 20)), S("long_frames", (0, 60)), S("wide_frames", (0, 60)),
]}]}
CHECKS["C14"] = {"technique": ENUM, "bins": [{"harness": "c14_resp_split.cpp", "repo": ["kio/resp/parser.cpp"], "scenarios": [
    S("single_frames", (0, 60)), S("two_frames", (0, 60)), S("two_frames_deep", (0, 400), tier="thorough"), S("strings", (0, 100)), S("token_strings", (0, 60)), S("long_stream", (0, 60)), S("long_frames", (0, 100)), S("huge_frames", (0, 60)),
]}]}
CHECKS["C16"] = {"technique": ENUM, "bins": [{"harness": "c16_exposition.cpp", "repo": ["kio/metrics/serializer.cpp"], "scenarios": [
    S("programs", (0, 60)), S("many_labels", (0, 20)), S("one_name", (0, 20)), S("label_values", (0, 60)), S("label_names", (0, 60)), S("help_texts", (0, 60)), S("values", (0, 20)), S("exponents", (0, 20)), S("large", (0, 60)), S("sample_limit", (0, 20)), S("registry", (0, 20)),
]}]}
CHECKS["C18"] = {"technique": DFS, "bins": [{"harness": "c18_registry.cpp", "repo": CORE + ["kio/metrics/serializer.cpp"], "scenarios": [
    S("register_vs_scrape", (3, 20), (5, 90)), S("two_scrapers", (2, 30), (3, 120)), S("two_registrars", (3, 20), (4, 60)), S("scrape_busy_worker", (2, 30), (3, 120)), S("register_on_scraped_worker", (2, 30), (3, 120)),
    S("scrapes_on_workers", (1, 30), (2, 120)), S("scrape_on_own_worker", (2, 30), (3, 120)), S("exact_counts", (0, 30), (1, 120)), S("gauge_and_growth", (0, 20), (2, 90)), S("many_collectors", (0, 40)),
]}]}
CHECKS["C17"] = {"technique": DFS, "bins": [{"harness": "c17_server.cpp", "repo": CORE + ["kio/metrics/serializer.cpp", "kio/metrics/server.cpp", "kio/net/net.cpp"], "scenarios": [
    S("cut_requests", (0, 60), (1, 250)), S("broken_clients", (0, 30), (1, 60)), S("oversized", (0, 60), (0, 60)), S("interleaved", (2, 60), (4, 200)), S("accept_errors", (1, 20), (3, 60)), S("failing_collector", (1, 20), (3, 60)),
    S("no_collectors", (1, 20), (2, 60)), S("large_bodies", (0, 60)), S("many_clients", (0, 60)), S("current_values", (2, 40), (3, 90)), S("stop_states", (3, 40), (4, 120)), S("stop_while_serving", (3, 40), (5, 120)),
]}]}
CHECKS["C30"] = {"technique": ENUM, "bins": [{"harness": "c30_errors.cpp", "repo": CORE, "scenarios": [
    S("mapping", (0, 60), (0, 60)), S("operations", (0, 60), (1, 120)), S("pipe_failure", (0, 10), (2, 30)), S("propagation", (0, 10), (2, 30)),
]}]}
CHECKS["C31"] = {"technique": ENUM, "bins": [{"harness": "c31_sockets.cpp", "repo": CORE + ["kio/net/net.cpp"], "scenarios": [
    S("socket_owner", (0, 60), (0, 60)), S("fd_guard", (0, 10), (0, 10)), S("resolve", (0, 20), (0, 20)), S("read_back", (0, 20), (0, 20)),
    S("server_socket", (0, 60), (0, 60)), S("client_socket", (0, 20), (0, 20)), S("accept_peer", (1, 20), (4, 60)),
]}]}
CHECKS["C20"] = {"technique": DFS, "bins": [{"harness": "c20_pool.cpp", "repo": CORE + ["kio/core/worker_pool.cpp"], "scenarios": [
    S("one_worker", (3, 20), (4, 60)), S("two_workers", (2, 30), (3, 120)), S("three_workers", (2, 20), (3, 90)), S("four_workers", (1, 20), (2, 90)), S("many_workers", (0, 20), (1, 90)), S("init_callbacks", (2, 30), (3, 90)),
    S("stop_twice", (3, 30), (4, 90)), S("stop_twice_two_workers", (2, 30), (3, 120)), S("stop_three_threads", (2, 20), (3, 90)), S("stop_early_weak", (2, 20), (3, 90)),
    S("ring_fails", (1, 20), (2, 60)), S("eventfd_fails", (1, 10), (2, 60)), S("thread_fails", (1, 20), (2, 60)), S("first_submit_fails", (1, 20), (2, 60)), S("callback_fails", (2, 20), (3, 60)),
    S("bad_arguments", (0, 10), (0, 10)), S("keys", (0, 20), (0, 20)),
]}]}
CHECKS["C19"] = {"technique": ENUM, "bins": [{"harness": "c19_files.cpp", "repo": CORE + ["kio/core/worker_pool.cpp", "kio/fs/fs.cpp"], "scenarios": [
    S("same_worker", (0, 60), (0, 60), jobs=1), S("flags_and_errors", (0, 20), (1, 60), jobs=1), S("handle_owner", (0, 60), (0, 60)), S("bytes", (0, 20), (0, 60), jobs=1),
    S("two_managers", (0, 20), (1, 60), jobs=1), S("two_threads", (2, 30), (3, 150), jobs=1),
]}]}
CHECKS["C21"] = {"technique": ENUM + ", plus stateless model checking for the scenarios with several threads", "bins": [{"harness": "c21_tls.cpp", "repo": CORE + ["kio/net/net.cpp", "kio/tls/context.cpp", "kio/tls/stream.cpp", "kio/tls/listener.cpp"], "libs": ["-lssl", "-lcrypto"], "scenarios": [
    S("server_handshake", (0, 60), (1, 120)), S("client_handshake", (0, 60), (0, 60)), S("client_handshake_anonymous", (0, 30), (1, 60)), S("server_handshake_deep", (0, 200), tier="thorough"),
    S("lifetimes_2", (0, 30), (1, 60)), S("lifetimes_3", (0, 60), (0, 60)), S("lifetimes_4", (0, 300), tier="thorough"),
    S("streams_together", (1, 30), (2, 90)), S("streams_in_turn", (0, 30), (1, 60)), S("stop_in_handshake", (2, 40), (3, 120)),
    S("construction", (0, 10), (2, 30)), S("context", (0, 20), (0, 20)), S("listener", (0, 30), (1, 60)), S("connector", (0, 30), (1, 60)),
]}]}
BITCASK = CORE + ["kio/core/worker_pool.cpp"] + ["bitcask/src/%s.cpp" % f for f in ("bitcask", "common", "compactor", "data_file", "entry", "fd_cache", "hint_file", "partition")]
CHECKS["C26"] = {"technique": "exhaustive enumeration of entries, truncations, bit changes and claimed lengths on the real codec", "bins": [{"harness": "c26_entry.cpp", "repo": CORE + ["bitcask/src/entry.cpp"], "scenarios": [
    S("round_trip", (0, 60), (0, 60)), S("truncated", (0, 30), (0, 30)), S("bit_flips", (0, 100), (0, 100)), S("flips_long", (0, 100), (0, 100)), S("claimed_lengths", (0, 60), (0, 60)), S("junk", (0, 60), (0, 60)), S("hints", (0, 60), (0, 60)),
]}]}
CHECKS["C22"] = {"technique": ENUM, "bins": [{"harness": "c22_store.cpp", "repo": BITCASK, "scenarios": [
    S("rotate_always_5", (0, 60)), S("rotate_some_5", (0, 60)), S("one_file_5", (0, 30)), S("lazy_sync_4", (0, 30)), S("sizes_3", (0, 60)), S("sizes_rotate_3", (0, 60)), S("bulk", (0, 100)), S("foreign_files", (0, 60)), S("unreadable_3", (1, 60)), S("unreadable_4", (1, 60), (2, 100)), S("reconfigured_3", (0, 100)), S("reconfigured_4", (0, 200), tier="thorough"), S("partitions_2", (0, 60)), S("close_fails", (1, 60), (2, 100)), S("descriptor_0_3", (0, 30)), S("descriptor_0_4", (0, 60)), S("descriptor_0_5", (0, 100), tier="thorough"), S("partitions_3", (0, 100), tier="thorough"), S("sizes_4", (0, 100), tier="thorough"), S("rotate_always_6", (0, 100), tier="thorough"), S("rotate_some_6", (0, 100), tier="thorough"),
]}]}
CHECKS["C23"] = {"technique": ENUM + ": every history, crash point and combination of lost or torn writes", "bins": [{"harness": "c23_crash.cpp", "repo": BITCASK, "scenarios": [
    S("one_file_2", (0, 60)), S("one_file_3", (0, 100)), S("rotate_2", (0, 60)), S("rotate_3", (0, 60)), S("rotate_some_4", (0, 60)), S("no_prealloc_2", (0, 60)), S("no_prealloc_3", (0, 60)), S("together_2", (0, 60)), S("together_3", (0, 60)), S("together_1_3", (0, 60)),
    S("compacting_2_2", (1, 60)), S("compacting_3_2", (0,60), (1,200)), S("compacting_2_3", (0,60), (1,200)), S("lazy_compacting_2_2", (1, 100)), S("lazy_compacting_3_2", (0, 60), (1,200)),
    S("twice_2_1", (0, 60)), S("twice_1_2", (0, 60)), S("twice_2_2", (0, 60)), S("lazy_3", (0, 60)), S("lazy_4", (0, 60)),
    S("lazy_fault_3", (1, 60), (2, 200)), S("lazy_fault_rotate_3", (1, 60), (2, 200)), S("lazy_fault_4", (1, 200), tier="thorough"), S("closing_3", (0, 60)), S("closing_fault_3", (1, 60), (2, 200)), S("closing_fault_sync_3", (1, 60), (2, 200)), S("closing_sync_3", (0, 60)), S("closing_4", (0, 200), tier="thorough"),
    S("fault_2", (1, 60)), S("fault_3", (1, 60)), S("fault_rotate_3", (1, 60)),
    S("bulk_one_file", (0, 60)), S("bulk_small_reads", (0, 60)), S("bulk_rotate", (0, 60)), S("bulk_compact", (0, 60)), S("bulk_lazy", (0, 60)), S("bulk_lazy_compact", (0, 60)),
]}]}
CHECKS["C32"] = {"technique": ENUM + ": every short history of writes, deletes, reopenings and compactions, compared with an exact account of its space", "bins": [{"harness": "c32_space.cpp", "repo": BITCASK, "scenarios": [
    S("many_keys", (0, 100)), S("space_3", (0, 60)), S("space_4", (0, 60)), S("space_5", (0, 100)), S("rotating_4", (0, 60)), S("rotating_5", (0, 100)), S("half_4", (0, 60)), S("half_5", (0, 100)), S("by_itself_3", (0, 60)), S("by_itself_4", (0, 100)),
    S("space_6", (0, 300), tier="thorough"), S("rotating_6", (0, 300), tier="thorough"),
]}]}
CHECKS["C27"] = {"technique": ENUM + ": every open sequence, crash point of a creation and altered MANIFEST", "bins": [{"harness": "c27_layout.cpp", "repo": BITCASK, "scenarios": [
    S("open_3", (0, 60)), S("open_4", (0, 60), tier="thorough"), S("open_3_of_5", (0, 60), tier="thorough"), S("creation_1", (0, 60)), S("creation_2", (0, 60)), S("creation_3", (0, 60)), S("altered", (0, 60)), S("faults", (1, 60)), S("routing", (0, 60)),
]}]}
CHECKS["C28"] = {"technique": ENUM + " and I/O completion orders", "bins": [{"harness": "c28_fds.cpp", "repo": BITCASK, "scenarios": [
    S("limit_3", (0, 60)), S("limit_1_deep", (0, 60)), S("limit_2_deep", (0, 60)), S("limit_3_deep", (0, 200), tier="thorough"),
    S("users_2", (3, 60)), S("users_3", (2, 60)), S("users_3_2", (2, 60)), S("open_fails", (2, 60)), S("store_1", (2, 60), (3, 100)), S("store_2", (1, 60), (2, 100)), S("many_files", (0, 60), (0, 60)),
]}]}
CHECKS["C29"] = {"technique": ENUM + " and clock movements", "bins": [{"harness": "c29_ids.cpp", "repo": BITCASK, "scenarios": [
    S("generator_2", (0, 60)), S("restarts_2", (0, 60)), S("generator_3", (0, 200), tier="thorough"), S("encoding", (0, 20)), S("store_3", (0, 60)), S("store_4", (0, 60)), S("other_partition_3", (0, 60)), S("store_5", (0, 200), tier="thorough"),
]}]}
CHECKS["C24"] = {"technique": ENUM + ": every history, crash point and I/O failure of a compaction", "bins": [{"harness": "c24_compact.cpp", "repo": BITCASK, "scenarios": [
    S("crash_4", (0, 60)), S("crash_5", (0, 60)), S("crash_partial_5", (0, 60)), S("crash_mixed_4", (0, 60)), S("crash_batches_5", (0, 60)), S("crash_6", (0, 200), tier="thorough"),
    S("fault_4", (1, 60)), S("fault_5", (1, 60)), S("fault_partial_5", (1, 60)), S("fault_mixed_3", (1, 60)), S("fault_batches_4", (1, 60)), S("fault_crash_3", (1, 60)), S("fault_mixed_4", (1, 100), tier="thorough"), S("fault_batches_5", (1, 100), tier="thorough"), S("fault_crash_4", (1, 200), tier="thorough"), S("fault_2_4", (2, 200), tier="thorough"), S("fault_crash_5", (1, 200), tier="thorough"), S("damaged_5", (0, 60)),
    S("bulk_crash", (0, 60)), S("bulk_crash_partial", (0, 60)), S("bulk_crash_reopened", (0, 60)), S("bulk_fault", (1, 60)), S("bulk_fault_reopened", (1, 60)),
]}]}
CHECKS["C25"] = {"technique": DFS, "bins": [{"harness": "c25_linear.cpp", "repo": BITCASK, "scenarios": [
    S("two", (3, 60)), S("three", (2, 60), (3, 200)), S("three_one_file", (2, 60), (3, 200)), S("three_two_keys", (2, 60)), S("four", (2, 60)),
    S("compact_1", (2, 60), (3, 100)), S("compact_2", (2, 60), (3, 200)), S("compact_mixed_2", (2, 60)), S("compact_late_2", (2, 60), (3, 100)), S("compact_twice", (2, 60)), S("compact_3", (2, 60)),
    S("close_2", (2, 60), (3, 100)), S("close_late_2", (2, 60), (3, 100)), S("close_compacting", (2, 60), (3, 100)), S("close_compacting_2", (2, 60), (3, 100)), S("close_twice", (2, 60), (3, 100)),
    S("loops_2", (2, 60)), S("loops_close", (2, 60)), S("loops_close_twice", (2, 60)), S("loops_sync", (2, 60)), S("loops_files_close", (2, 60)), S("prompt_close", (0, 30)), S("threads_2", (2, 60)), S("threads_3", (1, 60), (2, 200)), S("threads_compact", (2, 60)), S("threads_loops", (1, 60), (2, 200)), S("crowd", (0, 60)),
]}]}
