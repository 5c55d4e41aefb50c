// C06: blocking on a coroutine returns exactly its value or rethrows exactly its exception, after it
// finished, wherever it finishes; no frame is leaked or used after being freed.
#include "kioh.h"
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    struct Boom : std::runtime_error
    {
        int code;
        explicit Boom(int c) : std::runtime_error("boom"), code(c) {}
    };
    enum Where { HERE, WORKER, SLEEP, POLLED };
    enum How { VALUE, THROW };

    Task<void> place(io::Worker& w, Where wh)
    {
        if (wh == HERE) co_return;
        co_await io::SwitchToWorker(w);
        if (wh == SLEEP)
        {
            auto r = co_await w.async_sleep(std::chrono::milliseconds(5));
            MC_CHECK(r.has_value(), "sleep failed");
        }
        co_return;
    }
    Task<int> tint(io::Worker& w, Where wh, How h, int* done)
    {
        co_await place(w, wh);
        *done = 1;
        if (h == THROW) throw Boom(41);
        co_return 42;
    }
    Task<void> tvoid(io::Worker& w, Where wh, How h, int* done)
    {
        co_await place(w, wh);
        *done = 1;
        if (h == THROW) throw Boom(41);
    }
    Task<std::unique_ptr<int>> tptr(io::Worker& w, Where wh, How h, int* done)
    {
        co_await place(w, wh);
        *done = 1;
        if (h == THROW) throw Boom(41);
        co_return std::make_unique<int>(7);
    }
    Task<std::string> tstr(io::Worker& w, Where wh, How h, int* done)
    {
        co_await place(w, wh);
        *done = 1;
        if (h == THROW) throw Boom(41);
        co_return std::string("a string that does not fit the small buffer");
    }
    Task<Result<int>> tres(io::Worker& w, Where wh, How h, int* done)
    {
        co_await place(w, wh);
        *done = 1;
        if (h == THROW) co_return std::unexpected(Error{ErrorCategory::File, 5});
        co_return 9;
    }
    // no cheating: the destination of done is plain memory, so a return before the coroutine finished is a race
    void one(io::Worker& w, Where wh, int type, How how)
    {
        int done = 0;
        bool threw = false;
        try
        {
            switch (type)
            {
                case 0: MC_CHECK(SyncWait(tint(w, wh, how, &done)) == 42, "wrong value"); break;
                case 1: SyncWait(tvoid(w, wh, how, &done)); break;
                case 2: MC_CHECK(*SyncWait(tptr(w, wh, how, &done)) == 7, "wrong value"); break;
                case 3: MC_CHECK(SyncWait(tstr(w, wh, how, &done)) == "a string that does not fit the small buffer", "wrong value"); break;
                case 4:
                {
                    auto r = SyncWait(tres(w, wh, how, &done));
                    MC_CHECK(r.has_value() == (how == VALUE), "result lost");
                    if (r) MC_CHECK(*r == 9, "wrong value");
                    threw = !r;
                    break;
                }
            }
        }
        catch (const Boom& b)
        {
            MC_CHECK(b.code == 41, "another exception");
            threw = true;
        }
        MC_CHECK(done == 1, "returned before the coroutine finished");
        MC_CHECK(threw == (how == THROW), "%s", threw ? "threw although the coroutine returned" : "the coroutine's exception was lost");
    }
    void shapes()
    {
        const int wh = mc::choose_free(3, "where"), ty = mc::choose_free(5, "type"), ho = mc::choose_free(2, "how");
        {
            kh::WT wt;
            wt.ready();
            uint64_t before = mc::live_allocs();
            one(wt.w, (Where) wh, ty, (How) ho);
            if (wh == HERE) MC_CHECK(mc::live_allocs() == before, "%ld frames or values leaked", (long) (mc::live_allocs() - before));
            one(wt.w, (Where) wh, ty, VALUE);
            wt.stop();
        }
        MC_CHECK(mc::live_allocs() <= 2, "%lu blocks leaked", (unsigned long) mc::live_allocs());
        kh::check_fds("sync wait");
        mc::outcome(std::to_string(wh) + std::to_string(ty) + std::to_string(ho));
    }
    void two_waiters()
    {
        {
            kh::WT wt;
            wt.ready();
            std::thread t([&] { one(wt.w, WORKER, 0, THROW); });
            one(wt.w, WORKER, 3, VALUE);
            t.join();
            wt.stop();
        }
        MC_CHECK(mc::live_allocs() <= 2, "%lu blocks leaked", (unsigned long) mc::live_allocs());
        kh::check_fds("sync wait");
        mc::outcome("ok");
    }
    void repeat()
    {
        {
            kh::WT wt;
            wt.ready();
            for (int i = 0; i < 3; i++) one(wt.w, i == 1 ? SLEEP : WORKER, i, VALUE);
            wt.stop();
        }
        kh::check_fds("sync wait");
        mc::outcome("ok");
    }
}
SCENARIO(all_shapes) { shapes(); }
SCENARIO(all_shapes_weak, {.stale_reads = true}) { shapes(); }
SCENARIO(concurrent_waits) { two_waiters(); }
SCENARIO(repeated) { repeat(); }
