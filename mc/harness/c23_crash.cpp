// C23: an acknowledged write survives a crash.
#include "bitk.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    const std::vector<std::string> two_keys = {"a", "b"};
    const std::vector<std::string> many_keys = [] {
        std::vector<std::string> v{"a", "b"};
        for (int i = 2; i < 24; i++) v.push_back("k" + std::to_string(i) + std::string((size_t) i % 7 * 9, '.'));
        return v;
    }();
    const std::vector<std::string>* keys_ = &two_keys;
#define keys (*keys_)
    struct Plan
    {
        int depth;
        size_t max_file;
        bool prealloc = true;
        bool fine = true;
        bool lazy = false;
        int together = 0;  // so many more writes are issued at once
        bool compaction = false;
        bool faults = false;  // one file operation fails or is cut short
        bool order = false;     // the I/O of the writes issued at once finishes in any order
        bool reopen = false;    // it may be closed and opened again
        int bulk = 0;   // so many writes of many keys come first
        size_t read_buffer = 0;
        int again = 0;  // writes of a second life, which a crash ends too
    };
    std::string value(int i)
    {
        switch (i % 3)
        {
            case 0: return "v" + std::to_string(i);
            case 1: return "";
            default: return std::string("\0\xff", 2) + std::to_string(i) + std::string(20, 'x');
        }
    }
    bool quiet = true;  // no faults for now
    Task<void> one(Partition& p, History& h, const Plan& pl, int op, int i, kio::sync::AsyncBaton* done = nullptr, int* left = nullptr)
    {
        quiet = !pl.faults;
        Result<void> r;
        if (op < 2)
            r = co_await h.put(p, keys[op], value(i));
        else if (op < 4)
            r = co_await h.del(p, keys[op - 2]);
        else if (op == 4)
            r = co_await h.sync(p);
        else
            r = co_await p.compact();
        quiet = true;
        if (!r.has_value() && !pl.faults) mc::fail("operation %d of the history failed: %d", op, r.error().value);
        if (done && --*left == 0) done->notify();
        co_return;
    }
    kio::DetachedTask start(Partition& p, History& h, const Plan& pl, int op, int i, kio::sync::AsyncBaton& done, int& left) { co_await one(p, h, pl, op, i, &done, &left); }
    // the faults of one operation are alternatives that cost one
    int fault(bool prealloc, const char* what)
    {
        std::string op = what;
        if (op == "fallocate" && !prealloc) return -EOPNOTSUPP;
        if (quiet) return 0;
        int how = mc::choose(op == "write" ? 4 : 2, "fault");
        return how == 0 ? 0 : how == 1 ? -EIO : how == 2 ? 1 : 12;
    }
    int pick(const Plan& pl)
    {
        int n = pl.compaction ? 4 : 4 + pl.lazy;
        int op = mc::choose_free(n + pl.reopen, "op");
        return pl.reopen && op == n ? 6 : op;
    }
    // one life of the store: opened, written to, never closed
    Task<void> life(Worker& w, BitcaskConfig cfg, Plan pl, int depth, int first, History& h, std::map<std::string, std::set<std::optional<std::string>>>* check)
    {
        auto opened = co_await open_part(w, cfg);
        if (!opened.has_value()) mc::fail("the store does not open: %d", opened.error().value);
        auto p = std::move(opened.value());
        if (check) co_await inspect(*p, *check, "second life");
        for (int i = 0; i < pl.bulk && first == 0; i++)
        {
            const auto& k = keys[(size_t) (i * 7 + i / 9) % keys.size()];
            Result<void> r;
            if (i % 5 == 4) r = co_await h.del(*p, k);
            else r = co_await h.put(*p, k, std::string((size_t) (i * 37 % 120 + (i % 19 == 11 ? 3000 : 0)), (char) ('A' + i % 26)));
            if (r.has_value() && pl.lazy && i % 12 == 11) r = co_await h.sync(*p);
            if (r.has_value() && pl.compaction && i % 25 == 24) r = co_await p->compact();
            if (!r.has_value()) mc::fail("write %d failed: %d", i, r.error().value);
        }
        for (int i = 0; i < depth; i++)
        {
            int op = pick(pl);
            if (op == 6)
            {
                quiet = !pl.faults;
                auto r = co_await h.close(*p);
                quiet = true;
                if (!r.has_value() && pl.faults)
                {
                    // given up, or tried again
                    if (mc::choose_free(2, "close again")) r = co_await h.close(*p);
                    else r = {}, h.life = h.j.log.size();
                }
                if (!r.has_value()) mc::fail("close failed: %d", r.error().value);
                p.reset();
                auto o = co_await open_part(w, cfg);
                if (!o.has_value()) mc::fail("the store does not open: %d", o.error().value);
                p = std::move(*o);
                continue;
            }
            co_await one(*p, h, pl, op, first + i);
            if (!pl.faults) continue;
            size_t n = h.j.log.size();
            std::map<std::string, std::set<std::optional<std::string>>> now;
            for (auto& k: keys) now[k] = h.allowed(k, n, false);
            co_await inspect(*p, now, h.describe(n));
        }
        if (pl.lazy && pl.together) co_await one(*p, h, pl, 4, 0);
        if (pl.together)
        {
            kio::sync::AsyncBaton done(w);
            int left = pl.together;
            std::vector<int> ops;
            for (int i = 0; i < pl.together; i++) ops.push_back(pl.compaction ? i == 0 ? 5 : mc::choose_free(4, "op") : pick(pl));
            if (pl.order) fk::env().order = fk::env().slow = true;
            for (int i = 0; i < pl.together; i++) start(*p, h, pl, ops[i], first + depth + i, done, left).detach();
            co_await done.wait();
            fk::env().order = fk::env().slow = false;
        }
        if (pl.reopen) (void) co_await h.close(*p);
        h.j.detach();
        quiet = true;
        if (!pl.reopen) (void) co_await p->async_close();
        co_return;
    }
    Task<void> after(Worker& w, BitcaskConfig cfg, std::map<std::string, std::set<std::optional<std::string>>> allowed, std::string when)
    {
        auto opened = co_await open_part(w, cfg);
        if (!opened.has_value()) mc::fail("%s: the store does not open: %d", when.c_str(), opened.error().value);
        auto p = std::move(opened.value());
        Model m = co_await inspect(*p, allowed, when);
        // it is usable, and stays as it is
        for (int round = 0; round < 2; round++)
        {
            auto r = co_await p->async_close();
            if (!r.has_value()) mc::fail("%s: close failed: %d", when.c_str(), r.error().value);
            p.reset();
            auto again = co_await open_part(w, cfg);
            if (!again.has_value()) mc::fail("%s: the store does not open again: %d", when.c_str(), again.error().value);
            p = std::move(again.value());
            co_await expect(*p, m, keys, (when + ", opened again").c_str());
            if (round) break;
            auto put = co_await p->put("a", bytes("new"));
            if (!put.has_value()) mc::fail("%s: a put failed: %d", when.c_str(), put.error().value);
            m["a"] = "new";
            auto del = co_await p->del("b");
            if (!del.has_value()) mc::fail("%s: a delete failed: %d", when.c_str(), del.error().value);
            m.erase("b");
        }
        (void) co_await p->async_close();
        co_return;
    }
    void crash(Journal& j, History& h, const Plan& pl, const std::string& from, const std::string& to, std::string& when, std::map<std::string, std::set<std::optional<std::string>>>& allowed)
    {
        size_t n = (size_t) mc::choose_free((int) j.log.size() + 1, "crash");
        auto disk = j.disk(n);
        Journal::settle(disk, pl.fine);
        make_dirs(to);
        Journal::spill(disk, from, to);
        when += h.describe(n);
        for (auto& k: keys) allowed[k] = h.allowed(k, n, pl.lazy);
        mc::log("%s", when.c_str());
    }
    BitcaskConfig conf(const std::string& dir, const Plan& pl)
    {
        auto c = config(dir, pl.max_file, !pl.lazy);
        if (pl.bulk) c.write_buffer_size = 4096;
        if (pl.read_buffer) c.read_buffer_size = pl.read_buffer;
        return c;
    }
    void run(Plan pl)
    {
        sc::fresh();
        std::string one = sc::dir() + "/one", two = sc::dir() + "/two", three = sc::dir() + "/three", when;
        quiet = true;
        keys_ = pl.bulk ? &many_keys : &two_keys;
        fk::set_file_fault([pre = pl.prealloc](const char* what, const std::string&) { return fault(pre, what); });
        Journal j;
        History h{j};
        make_dirs(one);
        j.attach(one);
        on_worker([&](Worker& w) { return life(w, conf(one, pl), pl, pl.depth, 0, h, nullptr); });
        std::map<std::string, std::set<std::optional<std::string>>> allowed;
        crash(j, h, pl, one, two, when, allowed);
        std::string last = two;
        if (pl.again)
        {
            Journal j2;
            History h2{j2};
            // the files that are there when the second life begins
            auto keep = allowed;
            h2.before = allowed;
            j2.attach(two);
            struct File0
            {
                std::string path, data;
            };
            std::vector<File0> base;
            for (auto& e: std::filesystem::recursive_directory_iterator(two))
                if (e.is_regular_file()) base.push_back({e.path().string(), sc::slurp(e.path().string())});
            for (auto& f: base)
            {
                fk::FileEv c{};
                c.kind = fk::FileEv::CREATE, c.path = f.path;
                j2.log.push_back(c);
                fk::FileEv wr{};
                wr.kind = fk::FileEv::WRITE, wr.path = f.path, wr.off = 0, wr.data = f.data;
                j2.log.push_back(wr);
                fk::FileEv sy{};
                sy.kind = fk::FileEv::SYNC, sy.path = f.path;
                j2.log.push_back(sy);
            }
            size_t floor = j2.log.size();
            on_worker([&](Worker& w) { return life(w, conf(two, pl), pl, pl.again, pl.depth, h2, &keep); });
            when += "; ";
            size_t n = floor + (size_t) mc::choose_free((int) (j2.log.size() - floor) + 1, "second crash");
            auto disk = j2.disk(n);
            Journal::settle(disk, false);
            make_dirs(three);
            Journal::spill(disk, two, three);
            when += h2.describe(n);
            for (auto& k: keys) allowed[k] = h2.allowed(k, n, pl.lazy);
            mc::log("%s", when.c_str());
            last = three;
        }
        on_worker([&](Worker& w) { return after(w, conf(last, pl), allowed, when); });
        mc::outcome("ok");
    }
}
SCENARIO(one_file_2, {.race_check = false}) { run({2, 100000}); }
SCENARIO(one_file_3, {.race_check = false}) { run({3, 100000}); }
SCENARIO(rotate_2, {.race_check = false}) { run({2, 1}); }
SCENARIO(rotate_3, {.race_check = false}) { run({3, 1, true, false}); }
SCENARIO(rotate_some_4, {.race_check = false}) { run({4, 60, true, false}); }
SCENARIO(no_prealloc_2, {.race_check = false}) { run({2, 60, false}); }
SCENARIO(no_prealloc_3, {.race_check = false}) { run({3, 60, false, false}); }
SCENARIO(together_2, {.race_check = false}) { run({.depth = 0, .max_file = 60, .fine = false, .together = 2}); }
SCENARIO(together_3, {.race_check = false}) { run({.depth = 0, .max_file = 1, .fine = false, .together = 3}); }
SCENARIO(together_1_3, {.race_check = false}) { run({.depth = 1, .max_file = 60, .fine = false, .together = 3}); }
SCENARIO(compacting_2_2, {.race_check = false}) { run({.depth = 2, .max_file = 1, .fine = false, .together = 2, .compaction = true, .order = true}); }
SCENARIO(compacting_3_2, {.race_check = false}) { run({.depth = 3, .max_file = 1, .fine = false, .together = 2, .compaction = true, .order = true}); }
SCENARIO(compacting_2_3, {.race_check = false}) { run({.depth = 2, .max_file = 1, .fine = false, .together = 3, .compaction = true, .order = true}); }
SCENARIO(lazy_compacting_3_2, {.race_check = false}) { run({.depth = 3, .max_file = 40, .fine = false, .lazy = true, .together = 2, .compaction = true, .order = true}); }
SCENARIO(lazy_compacting_2_2, {.race_check = false}) { run({.depth = 2, .max_file = 1, .fine = false, .lazy = true, .together = 2, .compaction = true, .order = true}); }
SCENARIO(twice_2_1, {.race_check = false}) { run({.depth = 2, .max_file = 60, .fine = false, .again = 1}); }
SCENARIO(twice_1_2, {.race_check = false}) { run({.depth = 1, .max_file = 1, .fine = false, .again = 2}); }
SCENARIO(twice_2_2, {.race_check = false}) { run({.depth = 2, .max_file = 1, .fine = false, .again = 2}); }
SCENARIO(lazy_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .fine = false, .lazy = true}); }
SCENARIO(lazy_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .fine = false, .lazy = true}); }
SCENARIO(fault_2, {.race_check = false}) { run({.depth = 2, .max_file = 60, .fine = false, .faults = true}); }
SCENARIO(fault_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .fine = false, .faults = true}); }
SCENARIO(fault_rotate_3, {.race_check = false}) { run({.depth = 3, .max_file = 1, .fine = false, .faults = true}); }
SCENARIO(closing_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .fine = false, .lazy = true, .reopen = true}); }
SCENARIO(closing_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .fine = false, .lazy = true, .reopen = true}); }
SCENARIO(closing_sync_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .fine = false, .reopen = true}); }
SCENARIO(lazy_fault_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .fine = false, .lazy = true, .faults = true}); }
SCENARIO(lazy_fault_rotate_3, {.race_check = false}) { run({.depth = 3, .max_file = 1, .fine = false, .lazy = true, .faults = true}); }
SCENARIO(lazy_fault_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .fine = false, .lazy = true, .faults = true}); }
SCENARIO(closing_fault_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .fine = false, .lazy = true, .faults = true, .reopen = true}); }
SCENARIO(closing_fault_sync_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .fine = false, .faults = true, .reopen = true}); }

// many keys and files
SCENARIO(bulk_small_reads, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 1u << 20, .fine = false, .bulk = 50, .read_buffer = 300}); }
SCENARIO(bulk_one_file, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 1u << 20, .fine = false, .bulk = 50}); }
SCENARIO(bulk_rotate, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 700, .fine = false, .bulk = 50}); }
SCENARIO(bulk_compact, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 700, .fine = false, .compaction = true, .bulk = 50}); }
SCENARIO(bulk_lazy, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 1500, .fine = false, .lazy = true, .bulk = 50}); }
SCENARIO(bulk_lazy_compact, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 700, .fine = false, .lazy = true, .compaction = true, .bulk = 50}); }
