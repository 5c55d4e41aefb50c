// C10: an event wakes every waiter exactly once, on its worker; late waiters do not wait.
// As a release build compiles it: reset() asserts that nobody waits, but must not forget waiters either.
#define NDEBUG 1
#include <cassert>
#include "kio/sync/event.h"
#undef NDEBUG
#include <cassert>
#include "kioh.h"
#include "hist.h"
using namespace kio;
using sync::AsyncEvent;
static kh::AutoSilence as_;

namespace
{
    struct Ctx
    {
        int runs[512] = {};
        int data = 0;
        int waited = 0;      // worker thread only
        kh::Event ev;
    };
    DetachedTask waiter(io::Worker& w, AsyncEvent& e, Ctx& c, int i, bool check)
    {
        co_await io::SwitchToWorker(w);
        const bool early = !e.is_set();
        co_await e.wait();
        MC_CHECK(w.is_on_worker_thread(), "resumed off the event's worker");
        MC_CHECK(e.is_set(), "resumed although the event is not set");
        if (check) MC_CHECK(c.data == 55, "what was written before the signal is not visible");
        c.waited += early;
        c.runs[i]++;
        c.ev.hit();
    }
    void race(int waiters, int notifiers, int repeat)
    {
        Ctx c;
        {
            kh::WT wt;
            AsyncEvent e(wt.w);
            wt.ready();
            for (int i = 0; i < waiters; i++) waiter(wt.w, e, c, i, notifiers == 0).detach();
            std::vector<std::thread> ts;
            for (int i = 0; i < notifiers; i++) ts.emplace_back([&] { for (int k = 0; k < repeat; k++) e.notify(); });
            if (notifiers == 0) c.data = 55;
            e.notify();
            MC_CHECK(e.is_set(), "not set after notify");
            c.ev.await(waiters);
            for (auto& t: ts) t.join();
            waiter(wt.w, e, c, waiters, false).detach();
            c.ev.await(waiters + 1);
            wt.stop();
        }
        for (int i = 0; i <= waiters; i++) MC_CHECK(c.runs[i] == 1, "waiter %d was released %d times", i, c.runs[i]);
        kh::check_fds("event");
        mc::outcome(std::to_string(c.waited));
    }
    // a waiter on another thread than the worker: it continues on the worker once signalled, or on its own
    // thread if it did not have to wait
    DetachedTask foreign(AsyncEvent& e, io::Worker& w, Ctx& c, int i)
    {
        const int me = kh::tid();
        co_await e.wait();
        MC_CHECK(w.is_on_worker_thread() || kh::tid() == me, "resumed on an unrelated thread");
        MC_CHECK(e.is_set(), "resumed although the event is not set");
        kh::bump(c.runs[i], 1);
        c.ev.hit();
    }
    void pushers()
    {
        Ctx c;
        {
            kh::WT wt;
            AsyncEvent e(wt.w);
            wt.ready();
            std::thread t1([&] { foreign(e, wt.w, c, 0).detach(); });
            std::thread t2([&] { foreign(e, wt.w, c, 1).detach(); });
            e.notify();
            c.ev.await(2);
            t1.join();
            t2.join();
            wt.stop();
        }
        MC_CHECK(c.runs[0] == 1 && c.runs[1] == 1, "released %d and %d times", c.runs[0], c.runs[1]);
        kh::check_fds("event");
        mc::outcome("ok");
    }
    // a crowd of waiters, released together
    Task<void> many(io::Worker& w, Ctx& c, AsyncEvent& e, int n)
    {
        co_await io::SwitchToWorker(w);
        for (int i = 0; i < n; i++) waiter(w, e, c, i, false).detach();
        for (int i = 0; i < n; i++) MC_CHECK(c.runs[i] == 0, "waiter %d did not wait", i);
    }
    void crowd(int n)
    {
        const int how = mc::choose_free(3, "signalled");
        Ctx c;
        {
            kh::WT wt(0, kh::small(8, 4, 1024));
            AsyncEvent e(wt.w);
            wt.ready();
            SyncWait(many(wt.w, c, e, n));
            if (how == 1)
            {
                std::thread t([&] { e.notify(); });
                e.notify();
                t.join();
            }
            else
                e.notify();
            c.ev.await(n);
            if (how == 2)  // and again
            {
                e.reset();
                for (int i = 0; i < n; i++) c.runs[i] = 0;
                SyncWait(many(wt.w, c, e, n));
                e.notify();
                c.ev.await(2 * n);
            }
            wt.stop();
        }
        for (int i = 0; i < n; i++) MC_CHECK(c.runs[i] == 1, "waiter %d of %d was released %d times", i, n, c.runs[i]);
        kh::check_fds("event");
        mc::outcome(std::to_string(how));
    }
    // all programs on the worker
    struct Prog
    {
        bool set = false;
        int done[512] = {};
        int started = 0;
    };
    DetachedTask pw(AsyncEvent& e, Prog& p, int i)
    {
        co_await e.wait();
        p.done[i]++;
    }
    Task<void> drive(io::Worker& w, int depth)
    {
        co_await io::SwitchToWorker(w);
        AsyncEvent e(w);
        Prog p;
        int want[8] = {}, pending = 0, due = 0;  // pending: waiting; due: signalled but not yet resumed
        for (int i = 0; i < depth; i++)
        {
            switch (mc::choose_free(5, "op"))
            {
                case 0: e.notify(); due += pending; pending = 0; p.set = true; break;
                case 1:
                    e.reset();  // waiters stay waiting, those already signalled are not called back
                    p.set = false;
                    break;
                case 2:
                    pw(e, p, p.started).detach();
                    MC_CHECK(p.done[p.started] == (int) p.set, "%s", p.set ? "waited although already signalled" : "did not wait");
                    if (!p.set) pending++;
                    p.started++;
                    break;
                case 3:
                {
                    (void) co_await w.async_sleep(std::chrono::milliseconds(1));
                    due = 0;
                    int fin = 0;
                    for (int k = 0; k < p.started; k++) fin += p.done[k];
                    MC_CHECK(fin == p.started - pending, "%d waiters released, expected %d", fin, p.started - pending);
                    break;
                }
                case 4:
                {
                    std::thread t([&] { e.notify(); });
                    t.join();
                    due += pending;
                    pending = 0;
                    p.set = true;
                    break;
                }
            }
            MC_CHECK(e.is_set() == p.set, "is_set() says %d", (int) e.is_set());
            mc::count_transitions(1);
        }
        e.notify();
        (void) co_await w.async_sleep(std::chrono::milliseconds(1));
        for (int k = 0; k < p.started; k++) MC_CHECK(p.done[k] == 1, "waiter %d released %d times", k, p.done[k]);
        (void) want;
        mc::outcome(std::to_string(p.started));
    }
    void programs(int depth)
    {
        {
            kh::WT wt;
            wt.ready();
            SyncWait(drive(wt.w, depth));
            wt.stop();
        }
        kh::check_fds("event");
    }
}
SCENARIO(two_waiters) { race(2, 0, 1); }
SCENARIO(two_waiters_two_notifiers) { race(2, 1, 1); }
SCENARIO(three_waiters) { race(3, 1, 2); }
SCENARIO(two_waiters_weak, {.stale_reads = true, .spurious_cas = true}) { race(2, 0, 1); }
SCENARIO(waiters_on_threads) { pushers(); }
SCENARIO(waiters_on_threads_weak, {.stale_reads = true, .spurious_cas = true}) { pushers(); }
SCENARIO(programs_5) { programs(5); }
SCENARIO(programs_7) { programs(7); }
SCENARIO(crowd_300, {.horizon = 10000000}) { crowd(300); }
