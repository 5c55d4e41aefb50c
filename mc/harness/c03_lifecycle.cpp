// C03: stopping a worker always terminates, whatever state it is in; the ready and shutdown waits
// return; no descriptor is leaked, closed twice, or closed without having been opened.
#include "kioh.h"
#include <cerrno>
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    DetachedTask sleeper(io::Worker& w, int* woke)
    {
        co_await io::SwitchToWorker(w);
        auto r = co_await w.async_sleep(std::chrono::seconds(3600));
        (void) r;
        (*woke)++;
    }
    DetachedTask hop(io::Worker& w, std::atomic<int>* ran)
    {
        co_await io::SwitchToWorker(w);
        ran->fetch_add(1);
    }
    void never_run()
    {
        { io::Worker w(3, kh::small()); }
        kh::check_fds("worker that never ran");
        {
            io::Worker w(3, kh::small());
            MC_CHECK(w.request_stop(), "request_stop on an idle worker returned false");
            MC_CHECK(w.request_stop(), "a second request_stop returned false");
        }
        kh::check_fds("stopped worker that never ran");
        mc::outcome("ok");
    }
    void stop_first()
    {
        {
            io::Worker w(0, kh::small());
            (void) w.request_stop();
            std::thread t([&] { w.loop_forever(); });
            w.wait_ready();
            w.wait_shutdown();
            t.join();
            MC_CHECK(!w.is_running(), "stopped worker reports running");
        }
        kh::check_fds("stopped before running");
        mc::outcome("ok");
    }
    // stop racing with start-up, from one or two threads
    void stop_race(int stoppers)
    {
        {
            io::Worker w(0, kh::small());
            std::thread t([&] { w.loop_forever(); });
            std::vector<std::thread> s;
            for (int i = 1; i < stoppers; i++) s.emplace_back([&] { (void) w.request_stop(); w.wait_shutdown(); });
            (void) w.request_stop();
            w.wait_ready();
            w.wait_shutdown();
            t.join();
            for (auto& x: s) x.join();
        }
        kh::check_fds("stop race");
        mc::outcome("ok");
    }
    void init_fails(int err, bool two_waiters)
    {
        fk::env().init_error = err;
        {
            io::Worker w(0, kh::small());
            std::thread t([&] { w.loop_forever(); });
            std::optional<std::thread> x;
            if (two_waiters) x.emplace([&] { w.wait_shutdown(); });
            w.wait_ready();
            MC_CHECK(w.has_failed(), "ready, without a ring and without saying so");
            w.wait_shutdown();
            (void) w.request_stop();
            t.join();
            if (x) x->join();
        }
        kh::check_fds("failed initialisation");
        mc::outcome("ok");
    }
    void callback_throws(bool nonstd)
    {
        (void) nonstd;
        {
            io::Worker w(0, kh::small(), [](io::Worker&) { throw std::runtime_error("callback"); });
            std::thread t([&] { w.loop_forever(); });
            w.wait_ready();
            w.wait_shutdown();
            (void) w.request_stop();
            w.wait_ready();
            t.join();
        }
        kh::check_fds("throwing callback");
        mc::outcome("ok");
    }
    void callback_runs()
    {
        int on = -1;
        int n = 0;
        {
            io::Worker* self = nullptr;
            io::Worker w(0, kh::small(), [&](io::Worker& x) { self = &x; n++; on = kh::tid(); MC_CHECK(x.is_on_worker_thread(), "init callback off the worker thread"); });
            std::thread t([&] { w.loop_forever(); });
            w.wait_ready();
            MC_CHECK(!w.is_on_worker_thread(), "the main thread is not the worker thread");
            (void) w.request_stop();
            w.wait_shutdown();
            t.join();
            MC_CHECK(self == &w && n == 1, "init callback ran %d times", n);
        }
        kh::check_fds("callback");
        mc::outcome("ok");
    }
    // transient wait errors (EINTR/EBUSY/EAGAIN) do not end the loop; a fatal one ends it cleanly
    void wait_error(int err, bool fatal)
    {
        std::atomic<int> ran{0};
        static int calls;
        calls = 0;
        {
            io::Worker w(0, kh::small());
            const int at = mc::choose_free(3, "failing-call") + 1;  // call 0 is the initial submit
            fk::env().syscall_fault = [at, err](const char* what)
            {
                if (std::string_view(what) != "io_uring_enter") return false;
                if (calls++ != at) return false;
                errno = err;
                return true;
            };
            std::thread t([&] { w.loop_forever(); });
            w.wait_ready();
            hop(w, &ran).detach();
            if (!fatal)
                while (ran.load() == 0) std::this_thread::yield();
            (void) w.request_stop();
            w.wait_shutdown();
            t.join();
            mc::outcome(std::to_string(at) + "/" + std::to_string(ran));
            if (!fatal) MC_CHECK(ran == 1, "task ran %d times across a transient wait error", ran.load());
        }
        kh::check_fds("wait error");
    }
    // pending operations and queued tasks do not keep a stopped worker alive, and are never resumed after
    void pending_at_stop()
    {
        int woke = 0;
        std::atomic<int> ran{0};
        {
            kh::WT wt;
            wt.ready();
            sleeper(wt.w, &woke).detach();
            std::thread p([&] { hop(wt.w, &ran).detach(); });
            (void) wt.w.request_stop();
            wt.w.wait_shutdown();
            wt.t.join();
            p.join();
            MC_CHECK(woke == 0, "an operation that did not complete was resumed");
            MC_CHECK(ran.load() <= 1, "task ran twice");
            mc::outcome(std::to_string(ran));
        }
        MC_CHECK(woke == 0, "resumed during destruction");
        kh::check_fds("pending at stop");
    }
    // hundreds of operations in flight and hundreds of tasks queued
    DetachedTask stuck(io::Worker& w, int fd, int* woke)
    {
        co_await io::SwitchToWorker(w);
        char b[4];
        (void) co_await w.async_read(fd, std::span<char>(b, 4));
        (*woke)++;
    }
    void crowd_at_stop(int n)
    {
        const int ops = mc::choose_free(3, "in flight") * n, sleeps = mc::choose_free(2, "asleep") * n, tasks = mc::choose_free(2, "queued") * n;
        int woke = 0;
        std::atomic<int> ran{0};
        {
            kh::WT wt(0, kh::small(16, 4, 1024));
            wt.ready();
            int fd = fk::make_fd([](const fk::Op&, int&) { return false; });
            for (int i = 0; i < ops; i++) stuck(wt.w, fd, &woke).detach();
            for (int i = 0; i < sleeps; i++) sleeper(wt.w, &woke).detach();
            auto look = [](io::Worker& w) -> Task<void> { co_await io::SwitchToWorker(w); };
            SyncWait(look(wt.w));
            std::thread p([&] { for (int i = 0; i < tasks; i++) hop(wt.w, &ran).detach(); });
            (void) wt.w.request_stop();
            wt.w.wait_shutdown();
            wt.t.join();
            p.join();
            MC_CHECK(woke == 0, "%d operations that did not complete were resumed", woke);
            MC_CHECK(ran.load() <= tasks, "%d of %d tasks ran", ran.load(), tasks);
            close(fd);
        }
        MC_CHECK(woke == 0, "resumed during destruction");
        kh::check_fds("crowd at stop");
        mc::outcome(std::to_string(ops) + ":" + std::to_string(sleeps) + ":" + std::to_string(tasks));
    }
    void ctor_fails()
    {
        fk::env().syscall_fault = [](const char* what) { errno = EMFILE; return std::string_view(what) == "eventfd"; };
        bool threw = false;
        try
        {
            io::Worker w(0, kh::small());
        }
        catch (const std::system_error& e)
        {
            threw = e.code().value() == EMFILE;
        }
        MC_CHECK(threw, "eventfd failure was not reported");
        fk::env().syscall_fault = nullptr;
        struct
        {
            size_t depth, batch, backlog, queue;
            float g;
            bool ok;
        } cfgs[] = {{8, 1, 1, 8, 1.5f, true}, {0, 1, 1, 8, 1.5f, false}, {8, 0, 1, 8, 1.5f, false}, {8, 1, 0, 8, 1.5f, false}, {8, 1, 1, 0, 1.5f, false}, {8, 1, 1, 6, 1.5f, false}, {8, 1, 1, 8, 1.0f, false}};
        for (auto& c: cfgs)
        {
            io::WorkerConfig wc;
            wc.uring_queue_depth = c.depth;
            wc.uring_submit_batch_size = c.batch;
            wc.tcp_backlog = c.backlog;
            wc.task_queue_capacity = c.queue;
            wc.op_slots_growth_factor = c.g;
            bool ok = true;
            try
            {
                wc.check();
            }
            catch (const std::invalid_argument&)
            {
                ok = false;
            }
            MC_CHECK(ok == c.ok, "configuration accepted=%d, expected %d", ok, c.ok);
        }
        kh::check_fds("failed construction");
        mc::outcome("ok");
    }
}
SCENARIO(unused_worker) { never_run(); }
SCENARIO(stop_before_run) { stop_first(); }
SCENARIO(stop_vs_start) { stop_race(1); }
SCENARIO(two_stoppers) { stop_race(2); }
SCENARIO(stop_vs_start_weak, {.stale_reads = true}) { stop_race(1); }
SCENARIO(init_enomem) { init_fails(ENOMEM, true); }
SCENARIO(init_enosys) { init_fails(ENOSYS, false); }
SCENARIO(callback_throw) { callback_throws(false); }
SCENARIO(callback) { callback_runs(); }
SCENARIO(wait_eintr) { wait_error(EINTR, false); }
SCENARIO(wait_ebusy) { wait_error(EBUSY, false); }
SCENARIO(wait_fatal) { wait_error(EBADF, true); }
SCENARIO(stop_with_pending) { pending_at_stop(); }
SCENARIO(bad_construction) { ctor_fails(); }
SCENARIO(crowd_at_stop_150, {.horizon = 10000000}) { crowd_at_stop(150); }
