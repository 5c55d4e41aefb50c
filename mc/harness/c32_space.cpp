// C32: compaction gives back the space of what was overwritten or deleted, and the statistics that decide
// when it runs agree with the contents.
#include "bitk.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    const std::vector<std::string> keys = {"a", "b"};
    struct Plan
    {
        int depth;
        size_t max_file;
        double threshold = 0.01;
        size_t prealloc = 0;
        bool loops = false;
    };
    std::string value(int i) { return std::string((size_t) (i % 3) * 17, 'x') + std::to_string(i); }
    uint64_t entry_size(const std::string& k, const std::string& v, bool tomb = false)
    {
        return DataEntry(std::string(k), bytes(v), tomb ? kFlagTombstone : kFlagNone).serialize().size();
    }
    struct Seen
    {
        std::map<uint64_t, uint64_t> data;  // sizes
        std::set<uint64_t> hints;
        int others = 0;
    };
    Seen look(const std::string& dir)
    {
        Seen s;
        for (auto& e: std::filesystem::directory_iterator(dir + "/partition_0"))
        {
            auto n = e.path().filename().string();
            if (n.starts_with("data_") && n.ends_with(".db")) s.data[std::stoull(n.substr(5))] = e.file_size();
            else if (n.starts_with("hint_") && n.ends_with(".ht")) s.hints.insert(std::stoull(n.substr(5)));
            else s.others++;
        }
        return s;
    }
    struct Truth
    {
        Model m;
        uint64_t tombs = 0;   // bytes of all tombstones ever written
        uint64_t puts = 0, gets = 0, misses = 0, dels = 0;  // since it was opened
        uint64_t alive() const
        {
            uint64_t n = 0;
            for (auto& [k, v]: m) n += entry_size(k, v);
            return n;
        }
    };
    // what must hold at any time
    void agree(Partition& p, const Truth& t, const std::string& dir, const char* when, bool files = true)
    {
        auto& s = p.get_stats();
        auto disk = look(dir);
        uint64_t entries = 0, live = 0;
        for (auto& [id, f]: s.data_files)
        {
            entries += f.live_entries;
            live += f.live_bytes;
            if (f.live_bytes > f.total_bytes) mc::fail("%s: %lu of %lu bytes of a file are alive", when, (unsigned long) f.live_bytes, (unsigned long) f.total_bytes);
            if (!files) continue;
            if (!disk.data.contains(id)) mc::fail("%s: statistics of a file that is gone", when);
            if (id != p.active_file_id() && f.total_bytes != disk.data[id]) mc::fail("%s: a sealed file takes %lu bytes, its statistics say %lu", when, (unsigned long) disk.data[id], (unsigned long) f.total_bytes);
        }
        if (entries != t.m.size()) mc::fail("%s: %lu live entries of %zu keys", when, (unsigned long) entries, t.m.size());
        if (live < t.alive() || live > t.alive() + t.tombs) mc::fail("%s: %lu live bytes, the contents take %lu", when, (unsigned long) live, (unsigned long) t.alive());
        for (auto& [id, n]: disk.data)
            if (files && n && id != p.active_file_id() && !s.data_files.contains(id)) mc::fail("%s: no statistics of a file of %lu bytes", when, (unsigned long) n);
        if (s.puts_total != t.puts || s.deletes_total != t.dels || s.gets_total != t.gets || s.gets_miss_total != t.misses)
            mc::fail("%s: counted %lu puts, %lu deletes, %lu gets, %lu misses; there were %lu, %lu, %lu, %lu", when, (unsigned long) s.puts_total, (unsigned long) s.deletes_total, (unsigned long) s.gets_total,
                     (unsigned long) s.gets_miss_total, (unsigned long) t.puts, (unsigned long) t.dels, (unsigned long) t.gets, (unsigned long) t.misses);
    }
    // what must hold after a compaction
    void compacted(Partition& p, const Truth& t, const std::string& dir, double threshold, uint64_t active, const char* when)
    {
        auto disk = look(dir);
        auto& s = p.get_stats();
        uint64_t sealed = 0;
        // what was active when it began is for the next one
        for (auto& [id, n]: disk.data)
            if (id != p.active_file_id() && id != active) sealed += n;
        for (auto& [id, f]: s.data_files)
            if (id != p.active_file_id() && id != active && f.fragmentation() >= threshold) mc::fail("%s: a file with %lu of %lu bytes alive was not compacted", when, (unsigned long) f.live_bytes, (unsigned long) f.total_bytes);
        if ((double) sealed * (1 - threshold) > (double) (t.alive() + t.tombs) + 0.5)
            mc::fail("%s: the sealed files take %lu bytes, what is alive %lu", when, (unsigned long) sealed, (unsigned long) t.alive());
        for (auto h: disk.hints)
            if (!disk.data.contains(h)) mc::fail("%s: a hint file is left of a file that is gone", when);
        if (disk.others) mc::fail("%s: %d temporary files are left", when, disk.others);
    }
    Task<void> life(Worker& w, Plan pl)
    {
        auto dir = sc::dir() + "/db";
        auto cfg = config(dir, pl.max_file);
        cfg.fragmentation_threshold = pl.threshold;
        cfg.auto_compact = pl.loops;
        cfg.compaction_interval_s = std::chrono::milliseconds(20);
        make_dirs(dir);
        Truth t;
        std::string did;
        std::unique_ptr<Partition> p;
        auto reopen = [&]() -> Task<void> {
            if (p)
            {
                auto r = co_await p->async_close();
                if (!r.has_value()) mc::fail("%s: close failed: %d", did.c_str(), r.error().value);
                p.reset();
            }
            auto o = co_await open_part(w, cfg);
            if (!o.has_value()) mc::fail("%s: open failed: %d", did.c_str(), o.error().value);
            p = std::move(*o);
            t.puts = t.gets = t.misses = t.dels = 0;
            co_return;
        };
        auto compact = [&]() -> Task<void> {
            const uint64_t active = p->active_file_id();
            if (pl.loops)
            {
                // nobody asks: it has to happen by itself, file after file
                (void) co_await w.async_sleep(std::chrono::milliseconds(100));
                if (p->get_stats().compactions_failed) mc::fail("%s: compaction failed", did.c_str());
                compacted(*p, t, dir, pl.threshold, p->active_file_id(), did.c_str());
                co_return;
            }
            auto r = co_await p->compact();
            if (!r.has_value() || p->get_stats().compactions_failed) mc::fail("%s: compaction failed", did.c_str());
            compacted(*p, t, dir, pl.threshold, active, did.c_str());
            co_return;
        };
        auto get = [&](const std::string& k) -> Task<void> {
            auto got = co_await must_get(*p, k, did.c_str());
            t.gets++;
            if (!t.m.contains(k)) t.misses++;
            if (got != at(t.m, k)) mc::fail("%s: '%s' reads %s", did.c_str(), k.c_str(), show(got).c_str());
            co_return;
        };
        co_await reopen();
        for (int i = 0; i < pl.depth; i++)
        {
            int op = mc::choose_free(6, "op");
            auto& k = keys[(size_t) (op & 1)];
            if (op < 2)
            {
                did += "put(" + k + ") ";
                t.m[k] = value(i);
                t.puts++;
                if (!(co_await p->put(std::string(k), bytes(value(i)))).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else if (op < 4)
            {
                did += "del(" + k + ") ";
                if (t.m.erase(k)) t.tombs += entry_size(k, "", true);
                t.dels++;
                if (!(co_await p->del(k)).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else if (op == 4)
            {
                did += "reopen ";
                co_await reopen();
            }
            else
            {
                did += "compact ";
                co_await compact();
            }
            mc::log("%s", did.c_str());
            // (a compaction may be under way)
            agree(*p, t, dir, did.c_str(), !pl.loops);
            for (auto& k2: keys) co_await get(k2);
            agree(*p, t, dir, did.c_str(), !pl.loops);
        }
        // in the end nothing remains of a store whose keys are all deleted (next to live data a tombstone may
        // stay: older files could hold what it deletes)
        if (mc::choose_free(2, "delete all"))
            for (auto& k: keys)
            {
                did += "del(" + k + ") ";
                if (t.m.erase(k)) t.tombs += entry_size(k, "", true);
                t.dels++;
                if (!(co_await p->del(k)).has_value()) mc::fail("%s: failed", did.c_str());
            }
        for (int round = 0; round < 3; round++)
        {
            did += "reopen ";
            co_await reopen();
            agree(*p, t, dir, did.c_str(), !pl.loops);
            did += "compact ";
            co_await compact();
            agree(*p, t, dir, did.c_str());
        }
        auto before = look(dir);
        uint64_t sealed = 0;
        for (auto& [id, n]: before.data)
            if (id != p->active_file_id()) sealed += n;
        if (t.m.empty() && sealed) mc::fail("%s: the sealed files still take %lu bytes, nothing is alive", did.c_str(), (unsigned long) sealed);
        for (auto& k: keys) co_await get(k);
        (void) co_await p->async_close();
        co_return;
    }
    void run(Plan pl)
    {
        sc::fresh();
        on_worker([&](Worker& w) { return life(w, pl); });
        mc::outcome("ok");
    }
}
SCENARIO(space_3, {.race_check = false}) { run({.depth = 3, .max_file = 1000}); }
SCENARIO(space_4, {.race_check = false}) { run({.depth = 4, .max_file = 1000}); }
SCENARIO(space_5, {.race_check = false}) { run({.depth = 5, .max_file = 1000}); }
SCENARIO(rotating_4, {.race_check = false}) { run({.depth = 4, .max_file = 1}); }
SCENARIO(rotating_5, {.race_check = false}) { run({.depth = 5, .max_file = 60}); }
SCENARIO(half_4, {.race_check = false}) { run({.depth = 4, .max_file = 80, .threshold = 0.5}); }
SCENARIO(half_5, {.race_check = false}) { run({.depth = 5, .max_file = 80, .threshold = 0.5}); }
SCENARIO(space_6, {.race_check = false}) { run({.depth = 6, .max_file = 1000}); }
SCENARIO(rotating_6, {.race_check = false}) { run({.depth = 6, .max_file = 60}); }
SCENARIO(by_itself_3, {.race_check = false}) { run({.depth = 3, .max_file = 60, .loops = true}); }
SCENARIO(by_itself_4, {.race_check = false}) { run({.depth = 4, .max_file = 60, .threshold = 0.5, .loops = true}); }

// many keys and files
namespace
{
    Task<void> many(Worker& w)
    {
        static const size_t files[] = {300, 3000, 70000};
        static const double thresholds[] = {0.01, 0.3, 0.5, 0.9};
        auto dir = sc::dir() + "/db";
        auto cfg = config(dir, files[mc::choose_free(3, "file size")], false);
        cfg.fragmentation_threshold = thresholds[mc::choose_free(4, "threshold")];
        const int pattern = mc::choose_free(4, "pattern");
        if (mc::choose_free(2, "buffers")) cfg.read_buffer_size = BitcaskConfig{}.read_buffer_size, cfg.write_buffer_size = BitcaskConfig{}.write_buffer_size;
        make_dirs(dir);
        constexpr size_t n = 90;
        Truth t;
        std::string did;
        std::unique_ptr<Partition> p;
        auto key = [](size_t i) { return "key" + std::to_string(i * 37 % n); };
        auto reopen = [&]() -> Task<void> {
            if (p && !(co_await p->async_close()).has_value()) mc::fail("%s: close failed", did.c_str());
            p.reset();
            auto o = co_await open_part(w, cfg);
            if (!o.has_value()) mc::fail("%s: open failed: %d", did.c_str(), o.error().value);
            p = std::move(*o);
            t.puts = t.gets = t.misses = t.dels = 0;
            did += "reopen ";
        };
        auto put = [&](size_t i, size_t gen) -> Task<void> {
            std::string v((i * 131 + gen * 17) % 400, (char) ('a' + gen));
            if (!(co_await p->put(key(i), bytes(v))).has_value()) mc::fail("%s: put failed", did.c_str());
            t.m[key(i)] = v;
            t.puts++;
        };
        auto del = [&](size_t i) -> Task<void> {
            if (!(co_await p->del(key(i))).has_value()) mc::fail("%s: del failed", did.c_str());
            if (t.m.erase(key(i))) t.tombs += entry_size(key(i), "", true);
            t.dels++;
        };
        auto compact = [&]() -> Task<void> {
            const uint64_t active = p->active_file_id();
            if (!(co_await p->compact()).has_value() || p->get_stats().compactions_failed) mc::fail("%s: compaction failed", did.c_str());
            did += "compact ";
            compacted(*p, t, dir, cfg.fragmentation_threshold, active, did.c_str());
            agree(*p, t, dir, did.c_str());
        };
        auto look_up = [&]() -> Task<void> {
            for (size_t i = 0; i < n + 2; i++)
            {
                auto k = i < n ? key(i) : "no" + std::to_string(i);
                auto got = co_await must_get(*p, k, did.c_str());
                t.gets++;
                if (!t.m.contains(k)) t.misses++;
                if (got != at(t.m, k)) mc::fail("%s: '%s' reads %s", did.c_str(), k.c_str(), show(got).c_str());
            }
            agree(*p, t, dir, did.c_str());
        };
        co_await reopen();
        for (size_t i = 0; i < n; i++) co_await put(i, 0);
        co_await look_up();
        for (size_t gen = 1; gen < 4; gen++)
        {
            for (size_t i = gen; i < n; i += pattern == 0 ? 1 : pattern == 1 ? 2 : 7) co_await put(i, gen);
            for (size_t i = 0; i < n; i += pattern == 3 ? 3 : 11) co_await del(i);
            did += "write ";
            agree(*p, t, dir, did.c_str());
            if (gen == 2) co_await reopen();
            co_await compact();
            co_await look_up();
        }
        co_await reopen();
        agree(*p, t, dir, did.c_str());
        co_await compact();
        co_await look_up();
        for (size_t i = 0; i < n; i++) co_await del(i);
        did += "delete all ";
        for (int round = 0; round < 3; round++)
        {
            co_await reopen();
            agree(*p, t, dir, did.c_str());
            co_await compact();
        }
        uint64_t sealed = 0;
        for (auto& [id, size]: look(dir).data)
            if (id != p->active_file_id()) sealed += size;
        if (sealed) mc::fail("%s: the sealed files still take %lu bytes, nothing is alive", did.c_str(), (unsigned long) sealed);
        (void) co_await p->async_close();
        mc::outcome(did);
    }
}
SCENARIO(many_keys, {.horizon = 1000000000, .race_check = false})
{
    sc::fresh();
    on_worker([&](Worker& w) { return many(w); });
}
