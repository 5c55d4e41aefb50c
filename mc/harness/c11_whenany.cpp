// C11: waiting for any of several tasks yields the position of one that finished first, once; the others
// run to their end and nothing is used after it was released.
#include "kioh.h"
#include "hist.h"
#include "kio/sync/when_any.h"
using namespace kio;
using namespace std::chrono_literals;
static kh::AutoSilence as_;

namespace
{
    struct Rec
    {
        uint64_t fin[3] = {~0ull, ~0ull, ~0ull};   // the task is about to return
        uint64_t gone[3] = {~0ull, ~0ull, ~0ull};  // its frame has been destroyed, so it has reported
        int runs[3] = {};
        uint64_t returned = 0;
        int returns = 0;
        size_t winner = 99;
        kh::Event ev;
    };
    struct Gone
    {
        Rec* r;
        int i;
        Gone(Rec* r_, int i_) : r(r_), i(i_) {}
        Gone(Gone&& o) noexcept : r(std::exchange(o.r, nullptr)), i(o.i) {}
        __attribute__((no_sanitize("thread"))) ~Gone()
        {
            if (!r) return;
            r->gone[i] = kh::stamp();
            r->ev.hit();
        }
    };
    __attribute__((no_sanitize("thread"))) void fin(Rec& r, int i)
    {
        r.fin[i] = kh::stamp();
        r.runs[i]++;
    }
    enum How { NOW, OTHER, SLEEP, SLEEP_OTHER, NHOW };
    Task<void> body(Rec& r, int i, How h, io::Worker& a, io::Worker& b)
    {
        if (h == OTHER || h == SLEEP_OTHER) co_await io::SwitchToWorker(b);
        if (h == SLEEP) (void) co_await a.async_sleep(2ms);
        if (h == SLEEP_OTHER) (void) co_await b.async_sleep(2ms);
        fin(r, i);
    }
    Task<void> tv(Rec& r, int i, How h, io::Worker& a, io::Worker& b, Gone) { co_await body(r, i, h, a, b); }
    Task<int> ti(Rec& r, int i, How h, io::Worker& a, io::Worker& b, Gone)
    {
        co_await body(r, i, h, a, b);
        co_return i;
    }
    DetachedTask run(Rec& r, io::Worker& a, io::Worker& b, How h0, How h1, How h2, int n, bool lazy)
    {
        co_await io::SwitchToWorker(a);
        size_t w;
        if (n == 1) w = co_await sync::when_any(a, ti(r, 0, h0, a, b, Gone(&r, 0)));
        else if (n == 2 && !lazy) w = co_await sync::when_any(a, tv(r, 0, h0, a, b, Gone(&r, 0)), ti(r, 1, h1, a, b, Gone(&r, 1)));
        else if (n == 2)
        {
            auto t = sync::when_any(a, tv(r, 0, h0, a, b, Gone(&r, 0)), ti(r, 1, h1, a, b, Gone(&r, 1)));
            MC_CHECK(r.runs[0] + r.runs[1] == 0, "started before being awaited");
            w = co_await t;
        }
        else w = co_await sync::when_any(a, tv(r, 0, h0, a, b, Gone(&r, 0)), ti(r, 1, h1, a, b, Gone(&r, 1)), tv(r, 2, h2, a, b, Gone(&r, 2)));
        r.returned = kh::stamp();
        r.winner = w;
        r.returns++;
        MC_CHECK(a.is_on_worker_thread(), "continued off its worker");
        r.ev.hit();
    }
    void any(int n, bool lazy)
    {
        const How h0 = (How) mc::choose_free(NHOW, "task 0"), h1 = n > 1 ? (How) mc::choose_free(NHOW, "task 1") : NOW,
                  h2 = n > 2 ? (How) mc::choose_free(NHOW, "task 2") : NOW;
        Rec r;
        {
            kh::WT a(0), b(1);
            a.ready();
            b.ready();
            fk::env().timers_early = fk::env().order = true;
            run(r, a.w, b.w, h0, h1, h2, n, lazy).detach();
            r.ev.await(n + 1);
            a.stop();
            b.stop();
        }
        MC_CHECK(r.returns == 1, "returned %d times", r.returns);
        MC_CHECK(r.winner < (size_t) n, "winner %zu of %d", r.winner, n);
        MC_CHECK(r.fin[r.winner] < r.returned, "returned before the winner finished");
        for (int i = 0; i < n; i++)
        {
            MC_CHECK(r.runs[i] == 1, "task %d finished %d times", i, r.runs[i]);
            MC_CHECK(!(i != (int) r.winner && r.gone[i] < r.fin[r.winner]), "task %zu is reported first although task %d had finished and been released before it did", r.winner, i);
        }
        MC_CHECK(mc::live_allocs() <= 2, "%lu blocks leaked", (unsigned long) mc::live_allocs());
        kh::check_fds("when_any");
        mc::outcome(std::to_string(h0) + std::to_string(h1) + std::to_string(h2) + ":" + std::to_string(r.winner));
    }
}
SCENARIO(one_task) { any(1, false); }
SCENARIO(two_tasks) { any(2, false); }
SCENARIO(two_tasks_weak, {.stale_reads = true}) { any(2, false); }
SCENARIO(two_tasks_stored) { any(2, true); }
SCENARIO(three_tasks) { any(3, false); }
