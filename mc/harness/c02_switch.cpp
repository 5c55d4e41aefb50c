// C02: a coroutine that switches to a worker is resumed exactly once, on that worker's thread, and
// tasks handed over by one thread run in the order they were handed over.
#include "kioh.h"
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    struct Rec
    {
        std::atomic<int> runs{0};
        int on = -1;
        int order = -1;
    };
    struct Ctx
    {
        Rec rec[8];
        kh::Event ev;
        int next = 0;  // only touched on the worker thread
    };
    DetachedTask hop(io::Worker& w, Ctx& c, int i)
    {
        co_await io::SwitchToWorker(w);
        MC_CHECK(w.is_on_worker_thread(), "resumed off the worker thread");
        c.rec[i].on = kh::tid();
        c.rec[i].order = c.next++;
        c.rec[i].runs.fetch_add(1);
        c.ev.hit();
    }
    void posters(int nthreads, int per, bool main_posts, size_t queue = 8)
    {
        Ctx c;
        int k = 0;
        {
            kh::WT wt(0, kh::small(8, 4, queue));
            wt.ready();
            std::vector<std::thread> ts;
            for (int i = 0; i < nthreads; i++)
            {
                ts.emplace_back([&, i] { for (int j = 0; j < per; j++) hop(wt.w, c, i * per + j).detach(); });
                k += per;
            }
            if (main_posts) hop(wt.w, c, k++).detach();
            c.ev.await(k);
            for (auto& t: ts) t.join();
            wt.stop();
        }
        std::string o;
        for (int i = 0; i < k; i++)
        {
            MC_CHECK(c.rec[i].runs == 1, "task %d ran %d times", i, c.rec[i].runs.load());
            MC_CHECK(c.rec[i].on == c.rec[0].on, "tasks of one worker ran on different threads");
            if (i < nthreads * per && i % per) MC_CHECK(c.rec[i].order > c.rec[i - 1].order, "one thread's tasks ran out of order");
            o += std::to_string(c.rec[i].order);
        }
        kh::check_fds("worker");
        mc::outcome(o);
    }

    // posted while the loop is not running yet
    void early()
    {
        Ctx c;
        {
            io::Worker w(0, kh::small());
            hop(w, c, 0).detach();
            std::thread t([&] { w.loop_forever(); });
            hop(w, c, 1).detach();
            c.ev.await(2);
            (void) w.request_stop();
            t.join();
        }
        MC_CHECK(c.rec[0].runs == 1 && c.rec[1].runs == 1, "a task handed over before the loop ran was lost");
        mc::outcome(std::to_string(c.rec[0].order));
        kh::check_fds("early");
    }

    // a coroutine bouncing between two workers, and a switch to the worker it is already on
    DetachedTask bounce(io::Worker& a, io::Worker& b, int rounds, int* trace, kh::Event& ev)
    {
        for (int i = 0; i < rounds; i++)
        {
            co_await io::SwitchToWorker(a);
            MC_CHECK(a.is_on_worker_thread() && !b.is_on_worker_thread(), "not on worker a after switching to it");
            co_await io::SwitchToWorker(a);
            MC_CHECK(a.is_on_worker_thread(), "left worker a");
            (*trace)++;
            co_await io::SwitchToWorker(b);
            MC_CHECK(b.is_on_worker_thread() && !a.is_on_worker_thread(), "not on worker b after switching to it");
            (*trace)++;
        }
        ev.hit();
    }
    void two_workers(int rounds, bool both)
    {
        int tr[2] = {0, 0};
        kh::Event ev;
        {
            kh::WT a(0), b(1);
            a.ready();
            b.ready();
            bounce(a.w, b.w, rounds, &tr[0], ev).detach();
            if (both) bounce(b.w, a.w, rounds, &tr[1], ev).detach();
            ev.await(both ? 2 : 1);
            a.stop();
            b.stop();
        }
        MC_CHECK(tr[0] == 2 * rounds, "%d of %d hops ran", tr[0], 2 * rounds);
        MC_CHECK(!both || tr[1] == 2 * rounds, "%d of %d hops ran", tr[1], 2 * rounds);
        kh::check_fds("two workers");
        mc::outcome("ok");
    }

    // hand-overs racing with I/O completions on the same ring
    DetachedTask io_then_hop(io::Worker& w, int fd, Ctx& c, int i)
    {
        co_await io::SwitchToWorker(w);
        char b[4] = {};
        auto r = co_await w.async_read(fd, std::span<char>(b, 4));
        MC_CHECK(r.has_value() && *r == 3, "read result lost");
        MC_CHECK(w.is_on_worker_thread(), "completion resumed off the worker thread");
        c.rec[i].runs.fetch_add(1);
        c.ev.hit();
    }
    void mixed()
    {
        Ctx c;
        {
            kh::WT wt;
            wt.ready();
            fk::env().order = fk::env().partial = true;
            int fd = fk::make_fd([](const fk::Op&, int& res) { res = 3; return true; });
            io_then_hop(wt.w, fd, c, 0).detach();
            std::thread t([&] { hop(wt.w, c, 1).detach(); });
            hop(wt.w, c, 2).detach();
            c.ev.await(3);
            t.join();
            wt.stop();
            close(fd);
        }
        for (int i = 0; i < 3; i++) MC_CHECK(c.rec[i].runs == 1, "task %d ran %d times", i, c.rec[i].runs.load());
        kh::check_fds("mixed");
        mc::outcome(std::to_string(c.rec[1].order) + std::to_string(c.rec[2].order));
    }

    // far more tasks than one look at the queue may want to handle: all of them run, in order
    struct Crowd
    {
        std::vector<int> order;  // worker thread only
        std::atomic<int> off{0};
        kh::Event ev;
    };
    DetachedTask member(io::Worker& w, Crowd& c, int i)
    {
        co_await io::SwitchToWorker(w);
        if (!w.is_on_worker_thread()) c.off++;
        c.order.push_back(i);
        c.ev.hit();
    }
    DetachedTask keep_busy(io::Worker& w, std::atomic<int>& go, kh::Event& in)
    {
        co_await io::SwitchToWorker(w);
        in.hit();
        go.wait(0);
    }
    DetachedTask from_worker(io::Worker& a, io::Worker& b, Crowd& c, int n)
    {
        co_await io::SwitchToWorker(a);
        for (int i = 0; i < n; i++) member(b, c, i).detach();
    }
    void crowd(int n)
    {
        const int how = mc::choose_free(4, "handed over");
        Crowd c;
        c.order.reserve((size_t) n);
        const auto cfg = kh::small(8, 4, 1024);
        {
            if (how == 0)  // before the loop runs
            {
                io::Worker w(0, cfg);
                for (int i = 0; i < n; i++) member(w, c, i).detach();
                std::thread t([&] { w.loop_forever(); });
                c.ev.await(n);
                (void) w.request_stop();
                t.join();
            }
            else if (how == 1)  // while the worker is busy
            {
                kh::WT wt(0, cfg);
                wt.ready();
                std::atomic<int> go{0};
                kh::Event in;
                keep_busy(wt.w, go, in).detach();
                in.await(1);
                for (int i = 0; i < n; i++) member(wt.w, c, i).detach();
                go = 1;
                go.notify_all();
                c.ev.await(n);
                wt.stop();
            }
            else if (how == 2)  // from another worker
            {
                kh::WT a(0, cfg), b(1, cfg);
                a.ready();
                b.ready();
                from_worker(a.w, b.w, c, n).detach();
                c.ev.await(n);
                a.stop();
                b.stop();
            }
            else  // and then the worker is asked to stop at once
            {
                kh::WT wt(0, cfg);
                wt.ready();
                std::atomic<int> go{0};
                kh::Event in;
                keep_busy(wt.w, go, in).detach();
                in.await(1);
                for (int i = 0; i < n; i++) member(wt.w, c, i).detach();
                (void) wt.w.request_stop();
                go = 1;
                go.notify_all();
                wt.stop();
            }
        }
        MC_CHECK(how == 3 || (int) c.order.size() == n, "%zu of %d tasks ran", c.order.size(), n);
        MC_CHECK(c.off == 0, "a task ran off the worker thread");
        for (size_t i = 0; i < c.order.size(); i++) MC_CHECK(c.order[i] == (int) i, "task %d ran in place %zu", c.order[i], i);
        kh::check_fds("crowd");
        mc::outcome(std::to_string(how));
    }
}
SCENARIO(crowd_700, {.horizon = 10000000}) { crowd(700); }
SCENARIO(crowd_1000, {.horizon = 10000000}) { crowd(1000); }
SCENARIO(one_poster) { posters(0, 0, true); }
SCENARIO(two_posters) { posters(1, 1, true); }
SCENARIO(poster_order) { posters(1, 3, false); }
SCENARIO(three_posters) { posters(2, 2, true); }
SCENARIO(queue_of_one) { posters(0, 0, true, 1); }
SCENARIO(two_posters_weak, {.stale_reads = true, .spurious_cas = true}) { posters(1, 2, true); }
SCENARIO(before_loop) { early(); }
SCENARIO(bounce_one) { two_workers(2, false); }
SCENARIO(bounce_two) { two_workers(1, true); }
SCENARIO(with_io) { mixed(); }
