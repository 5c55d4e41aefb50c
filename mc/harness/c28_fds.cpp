// C28: the descriptor cache hands out live descriptors of the right files and closes each exactly once.
#include "bitk.h"
#include "bitcask/include/fd_cache.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    const int kFiles = 4;
    std::string path(int f) { return sc::dir() + "/file" + std::to_string(f); }
    void make_files(int n = kFiles)
    {
        sc::fresh();
        for (int f = 0; f < n; f++) sc::spill(path(f), "contents of " + std::to_string(f));
    }
    // what a descriptor refers to
    void must_be(int fd, int f, const std::string& when)
    {
        if (!fk::is_open(fd)) mc::fail("%s: the descriptor for file %d is closed", when.c_str(), f);
        char b[64];
        ssize_t n = ::pread(fd, b, sizeof b, 0);
        if (n < 0 || std::string(b, (size_t) n) != "contents of " + std::to_string(f)) mc::fail("%s: the descriptor for file %d refers to another one", when.c_str(), f);
    }
    struct Held
    {
        FDCache::Handle h;
        int f;
    };
    Task<void> sequence(Worker& w, int depth, size_t cap)
    {
        co_await kio::io::SwitchToWorker(w);
        const size_t base = (size_t) fk::open_count();
        FDCache c(w, cap);
        std::vector<int> lru;  // most recent first
        std::vector<Held> held;
        uint64_t hits = 0, misses = 0;
        std::string did = "limit " + std::to_string(cap) + ": ";
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose_free(2 * kFiles + 4, "op");
            if (op < 2 * kFiles)
            {
                // 0-3: get_or_open, 4-7: acquire and keep
                int f = op % kFiles;
                bool hit = std::find(lru.begin(), lru.end(), f) != lru.end();
                (hit ? hits : misses)++;
                std::erase(lru, f);
                if (lru.size() >= cap) lru.pop_back();
                lru.insert(lru.begin(), f);
                if (op < kFiles)
                {
                    did += "get(" + std::to_string(f) + ") ";
                    auto r = co_await c.get_or_open((uint64_t) f, path(f));
                    if (!r.has_value()) mc::fail("%s failed: %d", did.c_str(), r.error().value);
                    must_be(*r, f, did);
                }
                else
                {
                    did += "acquire(" + std::to_string(f) + ") ";
                    auto r = co_await c.acquire((uint64_t) f, path(f));
                    if (!r.has_value()) mc::fail("%s failed: %d", did.c_str(), r.error().value);
                    held.push_back({*r, f});
                }
            }
            else if (op == 2 * kFiles)
            {
                // of the most and of the least recent
                did += "remove newest ";
                if (!lru.empty()) c.remove((uint64_t) lru.front()), lru.erase(lru.begin());
            }
            else if (op == 2 * kFiles + 1)
            {
                did += "remove oldest ";
                if (!lru.empty()) c.remove((uint64_t) lru.back()), lru.pop_back();
                c.remove(77);
            }
            else if (op == 2 * kFiles + 2)
            {
                did += "clear ";
                c.clear();
                lru.clear();
            }
            else
            {
                did += "release ";
                if (!held.empty()) held.erase(held.begin());
            }
            if (c.size() > cap) mc::fail("%s: %zu descriptors are cached", did.c_str(), c.size());
            if (c.size() != lru.size()) mc::fail("%s: %zu descriptors are cached instead of %zu", did.c_str(), c.size(), lru.size());
            if (c.get_stats().hits != hits || c.get_stats().misses != misses) mc::fail("%s: %lu hits and %lu misses instead of %lu and %lu", did.c_str(), (unsigned long) c.get_stats().hits, (unsigned long) c.get_stats().misses, (unsigned long) hits, (unsigned long) misses);
            for (auto& h: held) must_be(h.h->get(), h.f, did);
            // nothing is open but what is cached or held
            std::set<int> fds;
            for (auto& h: held) fds.insert(h.h->get());
            size_t open = (size_t) fk::open_count() - base;
            if (open > c.size() + fds.size()) mc::fail("%s: %zu descriptors are open, %zu cached and %zu held", did.c_str(), open, c.size(), fds.size());
        }
        co_return;
    }
    void sequences(int depth, size_t cap)
    {
        make_files();
        on_worker([&](Worker& w) { return sequence(w, depth, cap); });
        mc::outcome("ok");
    }
    // several users at once; opening takes time and may fail
    struct Shared
    {
        FDCache& c;
        kio::sync::AsyncBaton& done;
        kio::sync::AsyncBaton& pause;
        int left;
        std::string log;
    };
    kio::DetachedTask user(Shared& s, Worker& w, int f, bool raw)
    {
        auto when = "a user of file " + std::to_string(f);
        if (raw)
        {
            auto r = co_await s.c.get_or_open((uint64_t) f, path(f));
            if (r.has_value()) must_be(*r, f, when);
        }
        else
        {
            auto r = co_await s.c.acquire((uint64_t) f, path(f));
            if (r.has_value())
            {
                std::vector<char> b(64);
                // use it across a suspension
                auto n = co_await w.async_read_at((*r)->get(), b, 0);
                if (!n.has_value()) mc::fail("%s: reading failed: %d", when.c_str(), n.error().value);
                if (std::string(b.data(), (size_t) *n) != "contents of " + std::to_string(f)) mc::fail("%s: read another file", when.c_str());
                must_be((*r)->get(), f, when);
            }
            else if (r.error().value != EMFILE) mc::fail("%s: failed: %d", when.c_str(), r.error().value);
        }
        if (--s.left == 0) s.done.notify();
    }
    Task<void> together(Worker& w, int users, size_t cap, bool faults)
    {
        co_await kio::io::SwitchToWorker(w);
        const size_t base = (size_t) fk::open_count();
        FDCache c(w, cap);
        kio::sync::AsyncBaton done(w), pause(w);
        Shared s{c, done, pause, users, ""};
        if (mc::choose_free(2, "warm")) (void) co_await c.get_or_open(0, path(0));
        fk::env().order = true;
        fk::set_file_observer(sc::dir(), [](const fk::FileEv&) {});
        if (faults) fk::set_file_fault([](const char* what, const std::string&) { return std::string(what) == "open" && mc::choose(2, "no descriptor") ? -EMFILE : 0; });
        std::vector<std::pair<int, bool>> plan;
        for (int i = 0; i < users; i++)
        {
            int op = mc::choose_free(6, "user");
            plan.push_back({op / 2, op % 2 != 0});
        }
        int drop = mc::choose_free(3, "meanwhile");
        for (auto [f, raw]: plan) user(s, w, f, raw).detach();
        if (drop == 1) c.remove(0);
        if (drop == 2) c.clear();
        if (s.left) co_await done.wait();
        fk::env().order = false;
        if (c.size() > cap) mc::fail("%zu descriptors are cached with a limit of %zu", c.size(), cap);
        if ((size_t) fk::open_count() > base + c.size()) mc::fail("%zu descriptors are open, but only %zu cached", (size_t) fk::open_count() - base, c.size());
        co_return;
    }
    void at_once(int users, size_t cap, bool faults)
    {
        make_files();
        on_worker([&](Worker& w) { return together(w, users, cap, faults); });
        mc::outcome("ok");
    }
    // reads of a store that overlap, with fewer descriptors than files
    kio::DetachedTask reader(Partition& p, std::string k, std::string want, int& left, kio::sync::AsyncBaton& done)
    {
        auto got = co_await must_get(p, k, "overlapping reads");
        if (got != std::optional(want)) mc::fail("overlapping reads: '%s' reads %s instead of '%s'", k.c_str(), show(got).c_str(), want.c_str());
        if (--left == 0) done.notify();
    }
    Task<void> store(Worker& w, int readers, size_t cap)
    {
        auto cfg = config(sc::dir() + "/db", 1);
        cfg.max_open_sealed_files = cap;
        make_dirs(cfg.directory);
        auto o = co_await open_part(w, cfg);
        if (!o.has_value()) mc::fail("not opened");
        auto p = std::move(*o);
        for (int i = 0; i < 4; i++)
            if (!(co_await p->put("k" + std::to_string(i), bytes("value " + std::to_string(i)))).has_value()) mc::fail("put failed");
        kio::sync::AsyncBaton done(w);
        int left = readers;
        std::vector<int> which;
        for (int i = 0; i < readers; i++) which.push_back(mc::choose_free(4, "key"));
        fk::env().order = true;
        for (int i: which) reader(*p, "k" + std::to_string(i), "value " + std::to_string(i), left, done).detach();
        if (left) co_await done.wait();
        fk::env().order = false;
        (void) co_await p->async_close();
        co_return;
    }
}
SCENARIO(limit_1, {.race_check = false}) { sequences(4, 1); }
SCENARIO(limit_2, {.race_check = false}) { sequences(4, 2); }
SCENARIO(limit_3, {.race_check = false}) { sequences(4, 3); }
SCENARIO(limit_1_deep, {.race_check = false}) { sequences(5, 1); }
SCENARIO(limit_2_deep, {.race_check = false}) { sequences(5, 2); }
SCENARIO(limit_3_deep, {.race_check = false}) { sequences(6, 3); }
SCENARIO(users_2, {.race_check = false}) { at_once(2, 1, false); }
SCENARIO(users_3, {.race_check = false}) { at_once(3, 1, false); }
SCENARIO(users_3_2, {.race_check = false}) { at_once(3, 2, false); }
SCENARIO(open_fails, {.race_check = false}) { at_once(3, 1, true); }
SCENARIO(store_1, {.race_check = false})
{
    sc::fresh();
    on_worker([&](Worker& w) { return store(w, 3, 1); });
    mc::outcome("ok");
}
SCENARIO(store_2, {.race_check = false})
{
    sc::fresh();
    on_worker([&](Worker& w) { return store(w, 4, 2); });
    mc::outcome("ok");
}

// many files, any limit: each access pattern over more files than are cached
namespace
{
    Task<void> many(Worker& w)
    {
        co_await kio::io::SwitchToWorker(w);
        static const size_t caps[] = {1, 4, 7, 8, 16, 33, 64, 100};
        const size_t cap = caps[mc::choose_free(8, "limit")];
        const int pattern = mc::choose_free(5, "pattern");
        constexpr int n = 130;
        const size_t base = (size_t) fk::open_count();
        {
            FDCache c(w, cap);
            std::vector<int> lru;
            std::map<int, FDCache::Handle> held;
            for (int i = 0; i < 4 * n; i++)
            {
                int f = pattern == 0 ? i % n : pattern == 1 ? i * 37 % n : pattern == 2 ? i * i % n : pattern == 3 ? (i % 3 ? i % 5 : i % n) : (i / n % 2 ? n - 1 - i % n : i % n);
                auto when = "limit " + std::to_string(cap) + ", pattern " + std::to_string(pattern) + ", access " + std::to_string(i);
                std::erase(lru, f);
                if (lru.size() >= cap) lru.pop_back();
                lru.insert(lru.begin(), f);
                if (i % 4 == 0)
                {
                    auto r = co_await c.acquire((uint64_t) f, path(f));
                    if (!r.has_value()) mc::fail("%s failed: %d", when.c_str(), r.error().value);
                    must_be((*r)->get(), f, when);
                    if (i % 16 == 0) held[f] = *r;
                }
                else
                {
                    auto r = co_await c.get_or_open((uint64_t) f, path(f));
                    if (!r.has_value()) mc::fail("%s failed: %d", when.c_str(), r.error().value);
                    must_be(*r, f, when);
                }
                if (i % 29 == 28)
                {
                    c.remove((uint64_t) lru.back());
                    lru.pop_back();
                }
                if (i % 64 == 63) held.clear();
                if (c.size() != lru.size() || c.size() > cap) mc::fail("%s: %zu descriptors are cached instead of %zu", when.c_str(), c.size(), lru.size());
                for (auto& [g, h]: held) must_be(h->get(), g, when);
                size_t open = (size_t) fk::open_count() - base;
                if (open > c.size() + held.size()) mc::fail("%s: %zu descriptors are open, %zu cached and %zu held", when.c_str(), open, c.size(), held.size());
            }
            if (pattern == 0) c.clear();
        }
        if ((size_t) fk::open_count() != base) mc::fail("limit %zu: %zu descriptors stay open", cap, (size_t) fk::open_count() - base);
        co_return;
    }
}
SCENARIO(many_files, {.horizon = 5000000, .race_check = false})
{
    make_files(130);
    on_worker([&](Worker& w) { return many(w); });
    mc::outcome("ok");
}
