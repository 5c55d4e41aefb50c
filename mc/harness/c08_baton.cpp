// C08: a baton releases its waiter exactly once, on the owner worker, after it was signalled.
#include "kioh.h"
#include "hist.h"
#include "kio/sync/baton.h"
using namespace kio;
using sync::AsyncBaton;
static kh::AutoSilence as_;

namespace
{
    struct Ctx
    {
        int runs = 0;          // worker thread only
        int data[3] = {};      // written before notify, read after wait
        uint64_t first_begin = ~0ull, resumed = 0;
        kh::Event ev;
    };
    DetachedTask waiter(io::Worker& w, AsyncBaton& b, Ctx& c, int need)
    {
        co_await io::SwitchToWorker(w);
        co_await b.wait();
        c.resumed = kh::stamp();
        MC_CHECK(w.is_on_worker_thread(), "resumed off the owner worker");
        MC_CHECK(b.ready(), "resumed although the baton is not signalled");
        c.runs++;
        if (need >= 0) MC_CHECK(c.data[need] == 77, "what was written before the signal is not visible");
        c.ev.hit();
    }
    // n notifying threads (plus possibly repeated signals) against one waiter
    void race(int n, int repeat, bool notify_main)
    {
        Ctx c;
        uint64_t begin[3] = {~0ull, ~0ull, ~0ull};
        {
            kh::WT wt;
            AsyncBaton b(wt.w);
            wt.ready();
            waiter(wt.w, b, c, n + (notify_main ? 1 : 0) == 1 ? 0 : -1).detach();
            std::vector<std::thread> ts;
            auto sig = [&](int i) {
                c.data[i] = 77;
                begin[i] = kh::stamp();
                for (int k = 0; k < repeat; k++) b.notify();
            };
            for (int i = 0; i < n; i++) ts.emplace_back(sig, i);
            if (notify_main) sig(n);
            c.ev.await(1);
            for (auto& t: ts) t.join();
            wt.stop();
            MC_CHECK(c.runs == 1, "the waiter ran %d times", c.runs);
            MC_CHECK(b.ready(), "the signal was lost");
            bool early = true;
            for (uint64_t x: begin) early = early && c.resumed < x;
            MC_CHECK(!early, "resumed before any signal");
        }
        kh::check_fds("baton");
        mc::outcome("ok");
    }
    // the waiter owns the baton and destroys it as soon as it is released
    DetachedTask owner(io::Worker& w, std::atomic<AsyncBaton*>& slot, kh::Event& ev)
    {
        co_await io::SwitchToWorker(w);
        {
            AsyncBaton b(w);
            slot.store(&b);
            slot.notify_all();
            co_await b.wait();
        }
        ev.hit();
    }
    void destroy_after()
    {
        kh::Event ev;
        {
            kh::WT wt;
            std::atomic<AsyncBaton*> slot{nullptr};
            wt.ready();
            owner(wt.w, slot, ev).detach();
            slot.wait(nullptr);
            slot.load()->notify();
            ev.await(1);
            wt.stop();
        }
        kh::check_fds("baton");
        mc::outcome("ok");
    }
    // ping-pong between two workers with reset and reuse
    DetachedTask ping(io::Worker& w, AsyncBaton& mine, AsyncBaton& other, int rounds, bool start, int* shared, int* n, kh::Event& ev)
    {
        co_await io::SwitchToWorker(w);
        for (int i = 0; i < rounds; i++)
        {
            if (!start || i > 0)
            {
                co_await mine.wait();
                mine.reset();
                MC_CHECK(!mine.ready(), "ready after reset");
            }
            MC_CHECK(w.is_on_worker_thread(), "resumed off the owner worker");
            ++*shared;  // protected by the hand-over only
            ++*n;
            other.notify();
        }
        ev.hit();
    }
    void reuse(int rounds)
    {
        int shared = 0, n[2] = {0, 0};
        kh::Event ev;
        {
            kh::WT a(0), b(1);
            AsyncBaton ba(a.w), bb(b.w);
            a.ready();
            b.ready();
            ping(a.w, ba, bb, rounds, true, &shared, &n[0], ev).detach();
            ping(b.w, bb, ba, rounds, false, &shared, &n[1], ev).detach();
            ev.await(2);
            a.stop();
            b.stop();
        }
        MC_CHECK(shared == 2 * rounds && n[0] == rounds && n[1] == rounds, "rounds lost: %d", shared);
        kh::check_fds("baton");
        mc::outcome("ok");
    }
    // all programs over notify / reset / ready / new waiter / let others run
    struct Prog
    {
        bool set = false;
        int started = 0, released = 0;
        int done = 0;
    };
    DetachedTask pw(AsyncBaton& b, Prog& p)
    {
        co_await b.wait();
        p.done++;
    }
    Task<void> drive(io::Worker& w, int depth)
    {
        co_await io::SwitchToWorker(w);
        AsyncBaton b(w);
        Prog p;
        bool pending = false, released_pending = false;
        std::string o;
        for (int i = 0; i < depth; i++)
        {
            switch (mc::choose_free(5, "op"))
            {
                case 0:
                    b.notify();
                    if (pending) pending = false, released_pending = true;
                    p.set = true;
                    o += "n";
                    break;
                case 1:
                    if (pending || released_pending) break;  // reset is only allowed once the waiter has resumed
                    b.reset();
                    p.set = false;
                    o += "r";
                    break;
                case 2:
                    if (pending || released_pending) break;  // one waiter at a time
                    pw(b, p).detach();
                    p.started++;
                    if (p.set) p.released++;
                    else pending = true;
                    MC_CHECK(p.done == p.released, p.set ? "waited although already signalled" : "did not wait");
                    o += "w";
                    break;
                case 3:
                    (void) co_await w.async_sleep(std::chrono::milliseconds(1));
                    if (released_pending) p.released++, released_pending = false;
                    MC_CHECK(p.done == p.released, "%d waiters done, %d released", p.done, p.released);
                    o += "y";
                    break;
                case 4: {
                    // signalled from another thread
                    std::thread t([&] { b.notify(); });
                    t.join();
                    if (pending) pending = false, released_pending = true;
                    p.set = true;
                    o += "t";
                    break;
                }
            }
            MC_CHECK(b.ready() == p.set, "ready() says %d", (int) b.ready());
            mc::count_transitions(1);
        }
        b.notify();
        (void) co_await w.async_sleep(std::chrono::milliseconds(1));
        MC_CHECK(p.done == p.started, "%d waiters started, %d released", p.started, p.done);
        mc::outcome(std::to_string(p.started));
    }
    void programs(int depth)
    {
        {
            kh::WT wt;
            wt.ready();
            SyncWait(drive(wt.w, depth));
            wt.stop();
        }
        kh::check_fds("baton");
    }
}
SCENARIO(one_notifier) { race(0, 1, true); }
SCENARIO(one_thread_notifier) { race(1, 1, false); }
SCENARIO(two_notifiers) { race(1, 1, true); }
SCENARIO(repeated_signals) { race(1, 2, true); }
SCENARIO(one_notifier_weak, {.stale_reads = true, .spurious_cas = true}) { race(0, 1, true); }
SCENARIO(two_notifiers_weak, {.stale_reads = true, .spurious_cas = true}) { race(1, 1, true); }
SCENARIO(destroyed_by_waiter) { destroy_after(); }
SCENARIO(destroyed_by_waiter_weak, {.stale_reads = true}) { destroy_after(); }
SCENARIO(reset_and_reuse) { reuse(2); }
SCENARIO(programs_5) { programs(5); }
SCENARIO(programs_6) { programs(6); }
