// C20: a worker pool starts all of its workers or none, runs work where it was sent, and stopping it
// (from any number of threads) returns only when every worker thread is done.
#include "kioh.h"
#include "kio/core/worker_pool.h"
#include <cerrno>
#include <cstring>
using namespace kio;
using io::IOPool;
static kh::AutoSilence as_;

namespace
{
    struct Spot
    {
        std::atomic<int> runs{0};
        int thread = -1;
        bool on = false;
    };
    DetachedTask visit(io::Worker& w, Spot* s, kh::Event* done)
    {
        co_await io::SwitchToWorker(w);
        s->thread = kh::tid();
        s->on = w.is_on_worker_thread();
        s->runs.fetch_add(1);
        done->hit();
    }
    // runs on the worker for as long as the worker runs; *last is plain memory on purpose
    DetachedTask ticker(io::Worker& w, int* last, kh::Event* started)
    {
        co_await io::SwitchToWorker(w);
        for (int i = 0; i < 3; i++)
        {
            ++*last;
            if (i == 0) started->hit();
            co_await io::SwitchToWorker(w);
        }
    }
    void closed(const char* what) { kh::check_fds(what); }

    void start_use_stop(size_t n)
    {
        {
            auto pool = std::make_unique<IOPool>(n, kh::small());
            MC_CHECK(pool->num_workers() == n, "%zu workers instead of %zu", pool->num_workers(), n);
            MC_CHECK(pool->get_worker(n) == nullptr && pool->get_worker(~size_t{0}) == nullptr, "a worker that does not exist was returned");
            std::vector<Spot> s(n);
            kh::Event done;
            for (size_t i = 0; i < n; i++)
            {
                auto* w = pool->get_worker(i);
                MC_CHECK(w && w->get_id() == i && w->is_running(), "worker %zu is not ready in a pool that started", i);
                for (size_t j = 0; j < i; j++) MC_CHECK(pool->get_worker(j) != w, "workers %zu and %zu are the same", i, j);
                visit(*w, &s[i], &done).detach();
            }
            done.await((int) n);
            for (size_t i = 0; i < n; i++)
            {
                MC_CHECK(s[i].runs == 1 && s[i].on, "work sent to worker %zu ran %d times, on its worker: %d", i, s[i].runs.load(), s[i].on);
                for (size_t j = 0; j < i; j++) MC_CHECK(s[i].thread != s[j].thread, "workers %zu and %zu share a thread", i, j);
            }
            pool->stop();
            for (size_t i = 0; i < n; i++) MC_CHECK(!pool->get_worker(i)->is_running(), "worker %zu still runs after stop", i);
            pool->stop();
            pool.reset();
        }
        closed("pool");
        mc::outcome("ok");
    }
    void callbacks(size_t n)
    {
        {
            std::vector<std::atomic<int>> called(n);
            std::vector<std::atomic<int>> later(n);
            kh::Event done;
            auto body = [](io::Worker& w, std::atomic<int>* l, kh::Event* d) -> DetachedTask {
                (void) co_await w.async_sleep(std::chrono::nanoseconds(10));
                MC_CHECK(w.is_on_worker_thread(), "a task started by the callback of worker %zu left it", w.get_id());
                l->fetch_add(1);
                d->hit();
            };
            auto pool = std::make_unique<IOPool>(n, kh::small(), [&](io::Worker& w) {
                MC_CHECK(w.is_on_worker_thread(), "the callback of worker %zu runs elsewhere", w.get_id());
                MC_CHECK(w.get_id() < n, "callback for worker %zu of %zu", w.get_id(), n);
                called[w.get_id()].fetch_add(1);
                body(w, &later[w.get_id()], &done).detach();
            });
            done.await((int) n);
            for (size_t i = 0; i < n; i++) MC_CHECK(called[i] == 1 && later[i] == 1, "callback of worker %zu ran %d times, its task %d", i, called[i].load(), later[i].load());
            pool.reset();
        }
        closed("callbacks");
        mc::outcome("ok");
    }
    // after stop() returned, in whichever thread, nothing runs on any worker any more
    void stoppers(size_t n, int threads, bool wait_started)
    {
        {
            auto last = std::make_unique<int[]>(n);
            kh::Event started;
            auto pool = std::make_unique<IOPool>(n, kh::small());
            for (size_t i = 0; i < n; i++) ticker(*pool->get_worker(i), &last[i], &started).detach();
            if (wait_started) started.await((int) n);
            int seen = 0;
            std::vector<std::thread> t;
            for (int k = 1; k < threads; k++)
                t.emplace_back([&] {
                    pool->stop();
                    int sum = 0;  // races with a worker that is still running
                    for (size_t i = 0; i < n; i++)
                    {
                        MC_CHECK(!pool->get_worker(i)->is_running(), "stop() returned while worker %zu runs", i);
                        sum += last[i];
                    }
                    (void) sum;
                });
            pool->stop();
            for (size_t i = 0; i < n; i++) seen += last[i];
            for (auto& x: t) x.join();
            pool.reset();
            mc::outcome("seen " + std::to_string(seen));
        }
        // a task cut off by the stop stays suspended: only descriptors are checked here
        closed("stoppers");
    }

    // the k-th of a pool's workers cannot start
    enum Fail { RING, EVENTFD, THREAD, FIRST_SUBMIT };
    void cannot_start(size_t n, Fail f)
    {
        int at = mc::choose_free((int) n + 1, "which worker");  // n: none
        int err = mc::choose_free(2, "error") ? EMFILE : ENOMEM;
        static std::atomic<int> left;
        left = at;
        const char* call = f == RING ? "io_uring_queue_init" : f == EVENTFD ? "eventfd" : f == THREAD ? "pthread_create" : "io_uring_enter";
        static const char* want;
        want = call;
        static int code;
        code = err;
        static std::atomic<bool> armed;
        armed = true;
        fk::env().syscall_fault = [](const char* what) {
            if (!armed.load(std::memory_order_relaxed) || strcmp(what, want)) return false;
            if (left.fetch_sub(1, std::memory_order_relaxed) != 0) return false;
            errno = code;
            return true;
        };
        bool threw = false;
        try
        {
            std::vector<Spot> s(n);
            kh::Event done;
            IOPool pool(n, kh::small());
            if (f != FIRST_SUBMIT) armed = false;
            for (size_t i = 0; i < n && f != FIRST_SUBMIT; i++)  // (the failing call may be a later wait: then the pool did start)
            {
                MC_CHECK(pool.get_worker(i)->is_running(), "the pool started with worker %zu dead (%s failed for worker %d)", i, want, at);
                visit(*pool.get_worker(i), &s[i], &done).detach();
            }
            if (f != FIRST_SUBMIT) done.await((int) n);  // hangs if a worker is dead
        }
        catch (const std::exception& e)
        {
            threw = true;
        }
        armed = false;
        if (at < (int) n && f != FIRST_SUBMIT) MC_CHECK(threw, "a pool whose worker %d failed to start (%s) was reported as started", at, want);
        if (at == (int) n && f != FIRST_SUBMIT) MC_CHECK(!threw, "the pool failed although nothing did");
        closed("failed start");
        mc::outcome(std::string(want) + (threw ? " threw" : " started"));
    }
    void callback_throws(size_t n)
    {
        size_t at = (size_t) mc::choose_free((int) n, "which");
        try
        {
            IOPool pool(n, kh::small(), [at](io::Worker& w) {
                if (w.get_id() == at) throw std::runtime_error("callback");
            });
            if (mc::choose_free(2, "stop first")) pool.stop();
            mc::outcome("started");
        }
        catch (const std::exception&)
        {
            mc::outcome("threw");
        }
        closed("throwing callback");
    }
}  // namespace

SCENARIO(one_worker) { start_use_stop(1); }
SCENARIO(two_workers) { start_use_stop(2); }
SCENARIO(three_workers, {.switch_cost = true}) { start_use_stop(3); }
SCENARIO(four_workers, {.switch_cost = true}) { start_use_stop(4); }
SCENARIO(many_workers, {.horizon = 1000000, .switch_cost = true}) { start_use_stop((size_t) (5 + mc::choose_free(6, "workers"))); }
SCENARIO(init_callbacks) { callbacks(2); }
SCENARIO(stop_twice) { stoppers(1, 2, true); }
SCENARIO(stop_twice_two_workers) { stoppers(2, 2, false); }
SCENARIO(stop_three_threads) { stoppers(1, 3, false); }
SCENARIO(stop_early_weak, {.stale_reads = true}) { stoppers(2, 1, false); }
SCENARIO(ring_fails) { cannot_start(2, RING); }
SCENARIO(eventfd_fails) { cannot_start(2, EVENTFD); }
SCENARIO(thread_fails) { cannot_start(2, THREAD); }
SCENARIO(first_submit_fails) { cannot_start(2, FIRST_SUBMIT); }
SCENARIO(callback_fails) { callback_throws(2); }
SCENARIO(bad_arguments)
{
    for (int c = 0; c < 2; c++)
    {
        bool threw = false;
        auto cfg = kh::small();
        if (c == 1) cfg.uring_queue_depth = 0;
        try
        {
            IOPool p(c == 0 ? 0 : 2, cfg);
        }
        catch (const std::invalid_argument&)
        {
            threw = true;
        }
        MC_CHECK(threw, "invalid pool arguments %d accepted", c);
    }
    closed("bad arguments");
    mc::outcome("refused");
}
// keys are spread over existing workers only, and always the same way
SCENARIO(keys, {.race_check = false, .switch_cost = true})
{
    size_t n = (size_t[]){1, 2, 3, 4, 5}[mc::choose_free(5, "workers")];
    {
        IOPool a(n, kh::small()), b(n, kh::small());
        std::vector<int> used(n);
        std::string k;
        for (int i = 0; i < 400; i++)
        {
            k = i < 256 ? std::string(1, (char) i) : std::string((size_t) (i - 256), (char) i);
            size_t x = a.get_worker_id_by_key(k);
            MC_CHECK(x < n && a.get_worker(x), "key %d goes to worker %zu of %zu", i, x, n);
            std::string copy = k + "tail";
            MC_CHECK(a.get_worker_id_by_key(std::string_view(copy).substr(0, k.size())) == x && b.get_worker_id_by_key(k) == x, "key %d goes to different workers", i);
            used[x]++;
        }
        for (size_t i = 0; i < n; i++) MC_CHECK(used[i] > 0, "worker %zu of %zu never gets a key", i, n);
    }
    closed("keys");
    mc::outcome("ok");
}
