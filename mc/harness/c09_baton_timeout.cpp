// C09: a timed wait on a baton ends exactly once and tells the truth about signal vs. time-out.
#include "kioh.h"
#include "hist.h"
#include "kio/sync/baton.h"
using namespace kio;
using sync::AsyncBaton;
using namespace std::chrono_literals;
static kh::AutoSilence as_;

namespace
{
    struct Sig
    {
        uint64_t begin = ~0ull, end = ~0ull;   // logical stamps
        uint64_t end_ns = ~0ull;               // virtual time when notify() returned
    };
    struct Wait
    {
        uint64_t begin = 0, begin_ns = 0, end = 0, end_ns = 0;
        bool r = false;
        int n = 0;
    };
    __attribute__((no_sanitize("thread"))) void put(Sig& s, int what)
    {
        if (what == 0) s.begin = kh::stamp();
        else s.end = kh::stamp(), s.end_ns = mc::now_ns();
    }
    __attribute__((no_sanitize("thread"))) void judge(const Wait& w, const Sig* s, int n, std::chrono::nanoseconds d)
    {
        MC_CHECK(w.n == 1, "the wait returned %d times", w.n);
        const uint64_t dl = w.begin_ns + (d.count() > 0 ? (uint64_t) d.count() : 0);
        if (w.r)
        {
            bool begun = false;
            for (int i = 0; i < n; i++) begun = begun || s[i].begin < w.end;
            MC_CHECK(begun, "reported a signal that was not given");
        }
        else
        {
            MC_CHECK(w.end_ns >= dl, "timed out after %lu ns instead of %lu", (unsigned long) (w.end_ns - w.begin_ns), (unsigned long) d.count());
            for (int i = 0; i < n; i++)
            {
                MC_CHECK(s[i].end > w.begin, "timed out although the signal had been given before the wait began");
                MC_CHECK(!(s[i].end < w.end && s[i].end_ns < dl), "timed out although the signal was given in time");
            }
        }
    }
    Task<void> wait_once(AsyncBaton& b, Wait& w, std::chrono::nanoseconds d)
    {
        w.begin = kh::stamp();
        w.begin_ns = mc::now_ns();
        w.r = co_await b.wait_for(d);
        w.end = kh::stamp();
        w.end_ns = mc::now_ns();
        w.n++;
    }
    DetachedTask waiter(io::Worker& wk, AsyncBaton& b, Wait* w, int n, std::chrono::nanoseconds d, kh::Event& ev)
    {
        co_await io::SwitchToWorker(wk);
        for (int i = 0; i < n; i++)
        {
            co_await wait_once(b, w[i], d);
            MC_CHECK(wk.is_on_worker_thread(), "resumed off the owner worker");
            if (w[i].r) b.reset();
        }
        ev.hit();
    }
    void race(int notifiers, std::chrono::nanoseconds d, bool wait_done, bool order = true)
    {
        Wait w[1];
        Sig s[2];
        kh::Event ev;
        {
            kh::WT wt;
            AsyncBaton b(wt.w);
            wt.ready();
            fk::env().timers_early = true;
            fk::env().order = fk::env().partial = order;
            waiter(wt.w, b, w, 1, d, ev).detach();
            std::vector<std::thread> ts;
            for (int i = 0; i < notifiers; i++)
                ts.emplace_back([&, i] {
                    put(s[i], 0);
                    b.notify();
                    put(s[i], 1);
                });
            if (wait_done) ev.await(1);
            for (auto& t: ts) t.join();
            ev.await(1);
            // whatever was armed must come to rest without touching what is gone
            wt.stop();
        }
        judge(w[0], s, notifiers, d);
        kh::check_fds("baton");
        mc::outcome(w[0].r ? "signal" : "timeout");
    }
    // once the timers have run out, nothing is borrowed any more
    Task<void> rest(io::Worker& wk, std::chrono::nanoseconds d)
    {
        co_await io::SwitchToWorker(wk);
        (void) co_await wk.async_sleep(d);
    }
    Task<uint64_t> slots_used(io::Worker& wk)
    {
        co_await io::SwitchToWorker(wk);
        co_return wk.get_stats().active_coroutines;
    }
    void all_returned(io::Worker& wk, std::chrono::nanoseconds d)
    {
        SyncWait(rest(wk, d));
        const auto n = SyncWait(slots_used(wk));
        MC_CHECK(n == 0, "%lu operation slots still taken after every wait and timer ended", (unsigned long) n);
    }
    // a second wait on the same baton while the first wait's timer may still be armed
    void twice(bool rest = false)
    {
        Wait w[2];
        Sig s[2];
        kh::Event ev;
        {
            kh::WT wt(0, kh::small(8, 2, 8));
            AsyncBaton b(wt.w);
            wt.ready();
            fk::env().timers_early = true;
            waiter(wt.w, b, w, 2, 5ms, ev).detach();
            std::thread t([&] {
                for (int i = 0; i < 2; i++)
                {
                    put(s[i], 0);
                    b.notify();
                    put(s[i], 1);
                }
            });
            t.join();
            ev.await(1);
            if (rest) all_returned(wt.w, 20ms);
            wt.stop();
        }
        MC_CHECK(w[0].n == 1 && w[1].n == 1, "waits returned %d and %d times", w[0].n, w[1].n);
        for (auto& x: w)
        {
            if (x.r) MC_CHECK(s[0].begin < x.end, "a signal out of nowhere");
            else MC_CHECK(x.end_ns >= x.begin_ns + 5000000, "timed out too early: %lu", (unsigned long) (x.end_ns - x.begin_ns));
        }
        kh::check_fds("baton");
        mc::outcome(std::string(w[0].r ? "s" : "t") + (w[1].r ? "s" : "t"));
    }
    // signalled on the worker itself, before the timer has even reached the kernel
    DetachedTask local(io::Worker& wk, kh::Event& ev, Wait& w, std::chrono::nanoseconds d)
    {
        co_await io::SwitchToWorker(wk);
        auto b = std::make_unique<AsyncBaton>(wk);
        kh::Event done;
        waiter(wk, *b, &w, 1, d, done).detach();
        b->notify();
        if (!done.n) (void) co_await wk.async_sleep(1ms);
        MC_CHECK(done.n == 1, "the waiter has not been released");
        b.reset();
        (void) co_await wk.async_sleep(20ms);
        ev.hit();
    }
    void before_submit(std::chrono::nanoseconds d)
    {
        Wait w;
        kh::Event ev;
        {
            kh::WT wt;
            wt.ready();
            fk::env().order = fk::env().partial = true;
            local(wt.w, ev, w, d).detach();
            ev.await(1);
            wt.stop();
        }
        MC_CHECK(w.r && w.n == 1, "the signal was not reported");
        kh::check_fds("baton");
        mc::outcome("ok");
    }
    // zero, negative and already-signalled waits
    Task<void> edges(io::Worker& wk)
    {
        co_await io::SwitchToWorker(wk);
        AsyncBaton b(wk);
        const std::chrono::nanoseconds ds[] = {0ns, 1ns, -1ns, -5s, 999999999ns, 1s, 2500ms, 200s, 70000s + 3ns, 5000000s, 3000000000s + 999999999ns};
        const auto d = ds[mc::choose_free(11, "duration")];
        const bool pre = mc::choose_free(2, "signalled") == 1;
        if (pre) b.notify();
        Wait w;
        Sig s{0, 1, 0};
        co_await wait_once(b, w, d);
        if (pre)
        {
            MC_CHECK(w.r, "the earlier signal was not reported");
            MC_CHECK(w.end_ns == w.begin_ns, "waited although already signalled");
        }
        else
        {
            MC_CHECK(!w.r, "reported a signal that was not given");
            judge(w, &s, 0, d);
        }
        (void) s;
        // and the baton is still usable
        if (w.r) b.reset();
        b.notify();
        co_await b.wait();
        mc::outcome(std::to_string(d.count()) + (w.r ? "s" : "t"));
    }
    void edge()
    {
        {
            kh::WT wt;
            wt.ready();
            SyncWait(edges(wt.w));
            wt.stop();
        }
        kh::check_fds("baton");
    }
    // no submission entry / no operation slot left when the timed wait begins
    DetachedTask sleeper(io::Worker& wk, int& n, kh::Event& ev)
    {
        auto r = co_await wk.async_sleep(3ms);
        MC_CHECK(r.has_value(), "sleep failed");
        n++;
        ev.hit();
    }
    DetachedTask crowded(io::Worker& wk, AsyncBaton& b, Wait& w, int before, bool slots, int& slept, bool& threw, kh::Event& ev)
    {
        co_await io::SwitchToWorker(wk);
        for (int i = 0; i < before; i++) sleeper(wk, slept, ev).detach();
        try
        {
            co_await wait_once(b, w, 5ms);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        MC_CHECK(!threw || slots, "the wait failed with an exception");
        ev.hit();
    }
    void exhausted(size_t depth, size_t slots, size_t max_slots, int before, bool expect_throw, bool notify)
    {
        Wait w;
        Sig s[1];
        int slept = 0;
        bool threw = false;
        kh::Event ev;
        {
            auto cfg = kh::small(depth, slots, 8);
            cfg.max_op_slots = max_slots;
            kh::WT wt(0, cfg);
            AsyncBaton b(wt.w);
            wt.ready();
            fk::env().timers_early = true;
            crowded(wt.w, b, w, before, expect_throw, slept, threw, ev).detach();
            if (notify)
            {
                put(s[0], 0);
                b.notify();
                put(s[0], 1);
            }
            ev.await(1 + before);
            if (!threw) all_returned(wt.w, 20ms);
            wt.stop();
        }
        MC_CHECK(slept == before, "%d of %d unrelated sleeps completed", slept, before);
        MC_CHECK(w.n == (threw ? 0 : 1), "the wait returned %d times", w.n);
        if (!threw) judge(w, s, notify ? 1 : 0, 5ms);
        kh::check_fds("baton");
        mc::outcome(threw ? "threw" : w.r ? "signal" : "timeout");
    }
}
// waits that need no timer, many times over: nothing they borrowed may be missing afterwards
namespace
{
    DetachedTask signalled(io::Worker& wk, int rounds, std::vector<bool>& r, int& slept, bool& threw, kh::Event& ev)
    {
        co_await io::SwitchToWorker(wk);
        try
        {
            for (int i = 0; i < rounds; i++)
            {
                AsyncBaton b(wk);
                const int how = mc::choose_free(3, "round");  // signalled before, during, never
                if (how == 0) b.notify();
                if (how == 1)
                {
                    auto later = [](io::Worker& w, AsyncBaton& x) -> DetachedTask
                    {
                        co_await io::SwitchToWorker(w);
                        x.notify();
                    };
                    later(wk, b).detach();
                }
                auto x = co_await b.wait_for(5ms);
                r.push_back(x == (how < 2));
            }
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ev.hit();
    }
    void borrow()
    {
        std::vector<bool> r;
        int slept = 0;
        bool threw = false;
        kh::Event ev;
        {
            auto cfg = kh::small(8, 1, 8);
            cfg.max_op_slots = 2;
            kh::WT wt(0, cfg);
            wt.ready();
            signalled(wt.w, 4, r, slept, threw, ev).detach();
            ev.await(1);
            wt.stop();
        }
        MC_CHECK(!threw && r.size() == 4, "the worker ran out of operation slots after %zu waits", r.size());
        for (size_t i = 0; i < 4; i++) MC_CHECK(r[i], "wait %zu of 4 ended the wrong way", i);
        kh::check_fds("baton");
        mc::outcome("ok");
    }
}
SCENARIO(slots_returned) { borrow(); }
SCENARIO(notify_vs_timer) { race(1, 5ms, true); }
SCENARIO(notify_vs_timer_plain) { race(1, 5ms, true, false); }
SCENARIO(two_notifiers) { race(2, 5ms, true, false); }
SCENARIO(notify_vs_timer_weak, {.stale_reads = true, .spurious_cas = true}) { race(1, 5ms, true, false); }
SCENARIO(timer_only) { race(0, 5ms, true); }
SCENARIO(wait_again) { twice(); }
SCENARIO(wait_again_rest) { twice(true); }
SCENARIO(signal_before_submit) { before_submit(5ms); }
SCENARIO(durations) { edge(); }
SCENARIO(submission_queue_full) { exhausted(2, 8, 64, 2, false, false); }
SCENARIO(submission_queue_full_signal) { exhausted(2, 8, 64, 2, false, true); }
SCENARIO(no_slot_left) { exhausted(8, 2, 2, 2, true, true); }
