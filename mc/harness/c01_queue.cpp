// C01: the cross-thread queue is a bounded FIFO: exactly once, per-producer and real-time order,
// no data race, "full" only when it was full, "empty" only when it was empty.
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "hist.h"
#include "kio/sync/mpsc_queue.h"
#include "mcrt.h"

namespace
{
    struct Push
    {
        int v;
        bool ok;
        kh::Span t;
    };
    struct Pop
    {
        int v;  // -1: empty
        kh::Span t;
    };
    template<class Q, class V>
    void push(Q& q, std::vector<Push>& h, int v, V&& val)
    {
        Push p{v, false, {}};
        p.t.b = kh::stamp();
        p.ok = q.try_push(std::forward<V>(val));
        p.t.e = kh::stamp();
        h.push_back(p);
    }

    void judge(size_t cap, const std::vector<Push>& pushes, const std::vector<Pop>& pops, bool weak)
    {
        std::vector<const Push*> order;  // in pop order
        for (auto& p: pops)
        {
            if (p.v < 0) continue;
            const Push* src = nullptr;
            for (auto& s: pushes)
                if (s.ok && s.v == p.v) src = &s;
            MC_CHECK(src, "popped %d which no successful push inserted", p.v);
            MC_CHECK(src->t.b < p.t.e, "popped %d before it was pushed", p.v);
            for (auto* o: order) MC_CHECK(o != src, "%d was popped twice", p.v);
            order.push_back(src);
        }
        size_t okc = 0;
        for (auto& s: pushes) okc += s.ok;
        MC_CHECK(order.size() == okc, "%zu successful pushes but %zu items popped after draining", okc, order.size());
        for (size_t i = 0; i < order.size(); i++)
            for (size_t j = i + 1; j < order.size(); j++)
                MC_CHECK(!order[j]->t.before(order[i]->t), "%d was popped before %d although its push began after the other one finished", order[i]->v, order[j]->v);
        // a rejected push: at least `cap` items were inside (or being inserted) at some moment of it
        for (auto& s: pushes)
        {
            if (s.ok || weak) continue;  // wall-clock order is not an ordering under weak memory
            size_t in = 0, out = 0;
            for (auto& o: pushes)
                if (o.ok && o.t.b < s.t.e) in++;
            for (auto& p: pops)
                if (p.v >= 0 && p.t.e < s.t.b) out++;
            MC_CHECK(in - out >= cap, "push of %d rejected as full with at most %zu of %zu slots in use", s.v, in - out, cap);
        }
        // an empty pop while nothing was being pushed: everything finished before it was already popped
        for (auto& p: pops)
        {
            if (p.v >= 0 || weak) continue;
            bool overlap = false;
            size_t in = 0, out = 0;
            for (auto& o: pushes)
            {
                if (o.t.b < p.t.e && o.t.e > p.t.b) overlap = true;
                if (o.ok && o.t.e < p.t.b) in++;
            }
            for (auto& o: pops)
                if (o.v >= 0 && o.t.e <= p.t.b) out++;
            if (!overlap) MC_CHECK(in == out, "pop reported empty with %zu items inside and no push in progress", in - out);
        }
        std::string s;
        for (auto& p: pops) s += std::to_string(p.v) + ",";
        mc::outcome(s);
    }

    // two producers, consumer concurrent; afterwards the queue is drained
    void contend(size_t cap, int per_a, int per_b, int npop, bool weak = false)
    {
        kio::MPSCQueue<int> q(cap);
        std::vector<Push> h[2];
        std::vector<Pop> pops;
        auto prod = [&](int id, int n)
        {
            for (int i = 0; i < n; i++) push(q, h[id], id * 100 + i, id * 100 + i);
        };
        std::thread a(prod, 0, per_a);
        std::optional<std::thread> b;
        if (per_b) b.emplace(prod, 1, per_b);
        auto pop = [&]
        {
            Pop p{-1, {}};
            int v = -2;
            p.t.b = kh::stamp();
            if (q.try_pop(v)) p.v = v;
            p.t.e = kh::stamp();
            pops.push_back(p);
            return p.v >= 0;
        };
        for (int i = 0; i < npop; i++) pop();
        a.join();
        if (b) b->join();
        MC_CHECK(q.size_approx() <= cap, "size_approx %zu exceeds capacity %zu", q.size_approx(), cap);
        while (pop()) {}
        MC_CHECK(q.size_approx() == 0, "drained queue reports size %zu", q.size_approx());
        h[0].insert(h[0].end(), h[1].begin(), h[1].end());
        judge(cap, h[0], pops, weak);
    }

    // a move-only element that owns heap memory: torn or duplicated elements become use-after-free
    int live = 0;
    struct Tok
    {
        int* v;
        explicit Tok(int x) : v(new int(x)) { kh::bump(live, 1); }
        Tok(Tok&& o) noexcept : v(o.v)
        {
            o.v = nullptr;
            kh::bump(live, 1);
        }
        Tok& operator=(Tok&& o) noexcept
        {
            if (this != &o)
            {
                delete v;
                v = o.v;
                o.v = nullptr;
            }
            return *this;
        }
        ~Tok()
        {
            delete v;
            kh::bump(live, -1);
        }
    };
    struct DTok : Tok
    {
        DTok() : Tok(-1) {}
        explicit DTok(int x) : Tok(x) {}
    };

    // every operation sequence up to a depth against a plain deque
    template<class T>
    void sequences(size_t cap, int depth)
    {
        live = 0;
        {
            kio::MPSCQueue<T> q(cap);
            MC_CHECK(q.capacity() == cap, "capacity() is %zu for a queue of %zu", q.capacity(), cap);
            std::vector<int> model;
            int next = 0;
            for (int i = 0; i < depth; i++)
            {
                mc::count_transitions(1);
                if (mc::choose_free(2, "push/pop") == 0)
                {
                    T t(next);
                    const bool ok = q.try_push(std::move(t));
                    MC_CHECK(ok == (model.size() < cap), "push with %zu of %zu elements %s", model.size(), cap, ok ? "accepted" : "rejected");
                    if (ok)
                    {
                        MC_CHECK(t.v == nullptr, "accepted element was not moved");
                        model.push_back(next);
                    }
                    else
                        MC_CHECK(t.v && *t.v == next, "a rejected push consumed its argument");
                    next++;
                }
                else
                {
                    T t(-7);
                    const bool ok = q.try_pop(t);
                    MC_CHECK(ok == !model.empty(), "pop with %zu elements %s", model.size(), ok ? "succeeded" : "failed");
                    if (ok)
                    {
                        MC_CHECK(*t.v == model.front(), "popped %d, expected %d", *t.v, model.front());
                        model.erase(model.begin());
                    }
                    else
                        MC_CHECK(*t.v == -7, "a failed pop changed its argument");
                }
                MC_CHECK(q.size_approx() == model.size(), "size_approx %zu, %zu elements inside", q.size_approx(), model.size());
            }
            mc::outcome(std::to_string(model.size()) + "/" + std::to_string(next));
        }
        MC_CHECK(live == 0, "%d elements leaked by the queue's destructor", live);
        MC_CHECK(mc::live_allocs() <= 64, "leak");
    }

    // destruction with elements inside, wrapped at every position
    void handoff(size_t cap)
    {
        live = 0;
        {
            kio::MPSCQueue<DTok> q(cap);
            std::thread p([&] { for (int i = 0; i < 3; i++) { DTok t(i); (void) q.try_push(std::move(t)); } });
            int last = -1;
            for (int i = 0; i < 2; i++)
            {
                DTok t;
                if (q.try_pop(t))
                {
                    MC_CHECK(*t.v > last, "out of order");
                    last = *t.v;
                }
            }
            p.join();
            mc::outcome(std::to_string(last));
        }
        MC_CHECK(live == 0, "%d elements leaked", live);
    }
}

SCENARIO(capacities, {.horizon = 4000000, .race_check = false})
{
    for (size_t n = 1; n <= 4096; n++)
    {
        size_t want = 1;
        while (want < n) want *= 2;
        MC_CHECK(kio::next_power_of_2(n) == want, "next_power_of_2(%zu) is %zu", n, kio::next_power_of_2(n));
    }
    for (int b = 2; b < 63; b++)
        for (long d = -1; d <= 1; d++)
        {
            const size_t n = (1ull << b) + (size_t) d, want = d > 0 ? 2ull << b : 1ull << b;
            MC_CHECK(kio::next_power_of_2(n) == want, "next_power_of_2(%zu) is %zu", n, kio::next_power_of_2(n));
        }
    // filled to the brim twice over
    for (size_t cap = 1; cap <= 512; cap *= 2)
    {
        kio::MPSCQueue<int> q(cap);
        MC_CHECK(q.capacity() == cap, "capacity %zu instead of %zu", q.capacity(), cap);
        int in = 0, out = 0;
        for (int round = 0; round < 2; round++)
        {
            while (q.try_push(in)) in++;
            MC_CHECK((size_t) (in - out) == cap, "a queue of %zu takes %d elements", cap, in - out);
            int v;
            while (q.try_pop(v)) { MC_CHECK(v == out, "%d came out, %d was due", v, out); out++; }
            MC_CHECK(in == out, "%d went in, %d came out", in, out);
        }
    }
    mc::outcome("ok");
}
// positions far beyond the capacity and beyond what 16 bits count; large rings
SCENARIO(many_laps, {.horizon = 100000000, .race_check = false})
{
    static const struct { size_t cap; int keep; } c[] = {{1, 0}, {2, 1}, {64, 63}, {64, 7}, {4096, 4000}, {1024, 1023}, {2048, 10}};
    const auto& k = c[mc::choose_free(7, "capacity")];
    kio::MPSCQueue<int> q(k.cap);
    int in = 0, out = 0, v = -1;
    MC_CHECK(!q.try_pop(v), "an element came out of a fresh queue of %zu", k.cap);
    while (in < 150000 || out < in)
    {
        if (in < 150000)
        {
            MC_CHECK(q.try_push(in), "element %d was refused by a queue of %zu that held %d", in, k.cap, in - out);
            in++;
        }
        if ((size_t) (in - out) == k.cap) MC_CHECK(!q.try_push(-5), "a queue of %zu took one more", k.cap);
        if (in - out > k.keep || in == 150000)
        {
            MC_CHECK(q.try_pop(v) && v == out, "%d came out, %d was due, in a queue of %zu after %d elements", v, out, k.cap, in);
            out++;
        }
    }
    MC_CHECK(!q.try_pop(v), "an element came out of an empty queue of %zu", k.cap);
    mc::outcome(std::to_string(k.cap));
}
SCENARIO(seq_cap1) { sequences<Tok>(1, 10); }
SCENARIO(seq_cap2) { sequences<Tok>(2, 12); }
SCENARIO(seq_cap4) { sequences<DTok>(4, 13); }
SCENARIO(two_producers_cap2) { contend(2, 2, 2, 2); }
SCENARIO(two_producers_cap1) { contend(1, 2, 1, 2); }
SCENARIO(one_producer_wrap) { contend(2, 5, 0, 4); }
SCENARIO(two_producers_weak, {.stale_reads = true, .spurious_cas = true}) { contend(2, 2, 1, 2, true); }
SCENARIO(wrap_weak, {.stale_reads = true, .spurious_cas = true}) { contend(2, 4, 0, 3, true); }
SCENARIO(handoff_cap2, {.stale_reads = true}) { handoff(2); }
SCENARIO(handoff_cap4, {.stale_reads = true}) { handoff(4); }
