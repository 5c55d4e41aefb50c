// C24: compaction never changes what the store contains, even if it fails or is cut short.
#include "bitk.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    const std::vector<std::string> two_keys = {"a", "b"};
    const std::vector<std::string> many_keys = [] {
        std::vector<std::string> v{"a", "b"};
        for (int i = 2; i < 60; i++) v.push_back("k" + std::to_string(i) + std::string((size_t) i % 7 * 5, '.'));
        return v;
    }();
    const std::vector<std::string>* keys_ = &two_keys;
#define keys (*keys_)
    struct Plan
    {
        int depth;
        size_t max_file;
        double threshold = 0.01;
        bool faults = false;
        bool crash = false;
        bool reopen = false;  // one of the operations before the compaction
        size_t write_buffer = 64;
        bool corrupt = false;
        bool bulk = false;  // many keys, long values, many files
        size_t read_buffer = 64;
    };
    std::string value(int i)
    {
        switch (i % 3)
        {
            case 0: return "v" + std::to_string(i);
            case 1: return std::string("\0\xff", 2) + std::to_string(i) + std::string(20, 'x');
            default: return "";
        }
    }
    BitcaskConfig conf(const Plan& pl, const std::string& dir)
    {
        auto c = config(dir, pl.max_file);
        c.fragmentation_threshold = pl.threshold;
        c.write_buffer_size = pl.write_buffer;
        c.read_buffer_size = pl.read_buffer;
        return c;
    }
    Task<std::unique_ptr<Partition>> must_open(Worker& w, BitcaskConfig cfg, std::string when)
    {
        auto o = co_await open_part(w, cfg);
        if (!o.has_value()) mc::fail("%s: the store does not open: %d", when.c_str(), o.error().value);
        co_return std::move(*o);
    }
    Task<void> must_close(std::unique_ptr<Partition>& p, std::string when)
    {
        auto r = co_await p->async_close();
        if (!r.has_value()) mc::fail("%s: close failed: %d", when.c_str(), r.error().value);
        p.reset();
        co_return;
    }
    // compactions and reopenings that nothing disturbs
    Task<void> settle(Worker& w, BitcaskConfig cfg, std::unique_ptr<Partition>& p, Model& m, std::string when)
    {
        for (int round = 0; round < 2; round++)
        {
            co_await must_close(p, when);
            p = co_await must_open(w, cfg, when);
            when += ", reopened";
            co_await expect(*p, m, keys, when.c_str());
            auto r = co_await p->compact();
            if (!r.has_value()) mc::fail("%s: compaction failed: %d", when.c_str(), r.error().value);
            when += ", compacted";
            co_await expect(*p, m, keys, when.c_str());
            auto put = co_await p->put(std::string(keys[1]), bytes("again" + std::to_string(round)));
            if (!put.has_value()) mc::fail("%s: put failed: %d", when.c_str(), put.error().value);
            m[keys[1]] = "again" + std::to_string(round);
        }
        co_await must_close(p, when);
        p = co_await must_open(w, cfg, when);
        co_await expect(*p, m, keys, (when + ", reopened").c_str());
        co_await must_close(p, when);
        co_return;
    }
    bool on = false;
    std::string hit;
    int fault(const char* what, const std::string& path)
    {
        if (!on) return 0;
        std::string op = what;
        bool counts = op == "write" || op == "read";
        int how = mc::choose(counts ? 4 : 2, "fault");
        if (!how) return 0;
        hit += op + " of " + path.substr(path.rfind('/') + 1) + (how == 1 ? " failed " : " was short ");
        return how == 1 ? -EIO : how == 2 ? 1 : 20;
    }
    Task<void> prefix(Worker& w, const Plan& pl, BitcaskConfig cfg, std::unique_ptr<Partition>& p, Model& m, std::string& did)
    {
        if (pl.bulk)
        {
            const size_t n = keys.size();
            auto write = [&](size_t i, size_t gen) -> Task<void> {
                std::string v((i * 31 + gen) % 90 + (i % 23 == 7 ? 1500 : 0), (char) ('A' + gen));
                m[keys[i]] = v;
                if (!(co_await p->put(std::string(keys[i]), bytes(v))).has_value()) mc::fail("put failed");
            };
            auto del = [&](size_t i) -> Task<void> {
                m.erase(keys[i]);
                if (!(co_await p->del(keys[i])).has_value()) mc::fail("del failed");
            };
            for (size_t i = 0; i < n; i++) co_await write(i, 0);
            for (size_t i = 0; i < n; i += 3) co_await write(i, 1);
            for (size_t i = 0; i < n; i += 4) co_await del(i);
            if (pl.reopen)
            {
                co_await must_close(p, did);
                p = co_await must_open(w, cfg, did);
                if (!(co_await p->compact()).has_value()) mc::fail("compaction failed");
            }
            for (size_t i = 1; i < n; i += 4) co_await write(i, 2);
            for (size_t i = 2; i < n; i += 6) co_await del(i);
            did += "many writes ";
        }
        for (int i = 0; i < pl.depth; i++)
        {
            int op = mc::choose_free(pl.reopen ? 6 : 4, "op");
            if (op < 2)
            {
                did += "put(" + keys[op] + ") ";
                m[keys[op]] = value(i);
                if (!(co_await p->put(std::string(keys[op]), bytes(value(i)))).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else if (op < 4)
            {
                did += "del(" + keys[op - 2] + ") ";
                m.erase(keys[op - 2]);
                if (!(co_await p->del(keys[op - 2])).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else if (op == 4)
            {
                did += "reopen ";
                co_await must_close(p, did);
                p = co_await must_open(w, cfg, did);
            }
            else
            {
                did += "compact ";
                if (!(co_await p->compact()).has_value()) mc::fail("%s: failed", did.c_str());
            }
        }
        co_return;
    }
    struct Cut
    {
        Journal j;
        size_t from = 0;
        Model m;
        std::string did;
    };
    Task<void> life(Worker& w, Plan pl, BitcaskConfig cfg, Cut& cut)
    {
        auto p = co_await must_open(w, cfg, "creation");
        co_await prefix(w, pl, cfg, p, cut.m, cut.did);
        mc::log("%s", cut.did.c_str());
        cut.from = cut.j.log.size();
        if (pl.corrupt)
        {
            // one sealed file is damaged after it was opened: what can still be read must stay so
            std::vector<std::string> files;
            for (auto& e: std::filesystem::directory_iterator(cfg.directory / "partition_0"))
                if (e.path().filename().string() != "data_" + std::to_string(p->active_file_id()) + ".db") files.push_back(e.path().string());
            std::sort(files.begin(), files.end());
            if (!files.empty())
            {
                auto f = files[(size_t) mc::choose_free((int) files.size(), "file")];
                auto s = sc::slurp(f);
                if (!s.empty())
                {
                    size_t at = (size_t) mc::choose_free((int) std::min<size_t>(s.size(), 8), "where") * s.size() / 8;
                    s[at] = (char) (s[at] ^ 0x40);
                    sc::spill(f, s);
                    cut.did += "damage byte " + std::to_string(at) + " of " + f.substr(f.rfind('/')) + " ";
                }
            }
            std::map<std::string, std::optional<std::optional<std::string>>> before;
            for (auto& k: keys)
                if (auto r = co_await p->get(k); r.has_value()) before[k] = r->has_value() ? std::optional(str(**r)) : std::nullopt;
            (void) co_await p->compact();
            for (auto& k: keys)
            {
                auto r = co_await p->get(k);
                if (!before[k]) continue;
                if (!r.has_value()) mc::fail("%scompact: '%s' can no longer be read: %d", cut.did.c_str(), k.c_str(), r.error().value);
                auto now = r->has_value() ? std::optional(str(**r)) : std::nullopt;
                if (now != *before[k]) mc::fail("%scompact: '%s' reads %s instead of %s", cut.did.c_str(), k.c_str(), show(now).c_str(), show(*before[k]).c_str());
            }
            co_await must_close(p, cut.did);
            co_return;
        }
        on = pl.faults;
        auto r = co_await p->compact();
        on = false;
        if (!hit.empty()) cut.did += "compact while " + hit;
        else if (!r.has_value()) mc::fail("%scompact: failed: %d", cut.did.c_str(), r.error().value);
        else cut.did += "compact ";
        auto when = cut.did;
        co_await expect(*p, cut.m, keys, when.c_str());
        if (pl.crash)
        {
            cut.j.detach();
            (void) co_await p->async_close();
            co_return;
        }
        // what was read is still cached: once more without
        int then = mc::choose_free(3, "then");
        Model m = cut.m;
        if (then == 1)
        {
            // deleting or writing what the interrupted compaction may have copied
            if (!(co_await p->del(keys[0])).has_value()) mc::fail("%s: delete failed", when.c_str());
            m.erase(keys[0]);
            when += ", del(a)";
        }
        if (then != 0)
        {
            auto again = co_await p->compact();
            if (!again.has_value()) mc::fail("%s: compaction failed: %d", when.c_str(), again.error().value);
            when += ", compact";
            co_await expect(*p, m, keys, when.c_str());
        }
        co_await settle(w, cfg, p, m, when);
        co_return;
    }
    Task<void> after(Worker& w, BitcaskConfig cfg, Model m, std::string when)
    {
        auto p = co_await must_open(w, cfg, when);
        co_await expect(*p, m, keys, when.c_str());
        co_await settle(w, cfg, p, m, when);
        co_return;
    }
    void run(Plan pl)
    {
        sc::fresh();
        on = false;
        hit.clear();
        keys_ = pl.bulk ? &many_keys : &two_keys;
        std::string one = sc::dir() + "/one", two = sc::dir() + "/two";
        make_dirs(one);
        Cut cut;
        cut.j.attach(one);
        fk::set_file_fault(fault);
        on_worker([&](Worker& w) { return life(w, pl, conf(pl, one), cut); });
        if (pl.crash)
        {
            size_t n = cut.from + (size_t) mc::choose_free((int) (cut.j.log.size() - cut.from) + 1, "crash");
            auto disk = cut.j.disk(n);
            Journal::settle(disk, false);
            make_dirs(two);
            Journal::spill(disk, one, two);
            auto when = cut.did + "crash after " + std::to_string(n - cut.from) + " of " + std::to_string(cut.j.log.size() - cut.from) + " file operations of the compaction";
            mc::log("%s", when.c_str());
            on_worker([&](Worker& w) { return after(w, conf(pl, two), cut.m, when); });
        }
        mc::outcome(hit.empty() ? "ok" : "disturbed");
    }
}
SCENARIO(crash_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .crash = true}); }
SCENARIO(crash_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .crash = true}); }
SCENARIO(crash_partial_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .threshold = 0.6, .crash = true}); }
SCENARIO(crash_mixed_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .crash = true, .reopen = true}); }
SCENARIO(crash_batches_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .crash = true, .write_buffer = 1}); }
SCENARIO(crash_6, {.race_check = false}) { run({.depth = 6, .max_file = 60, .crash = true}); }
SCENARIO(fault_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .faults = true}); }
SCENARIO(fault_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .faults = true}); }
SCENARIO(fault_partial_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .threshold = 0.6, .faults = true}); }
SCENARIO(fault_mixed_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .faults = true, .reopen = true}); }
SCENARIO(fault_batches_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .faults = true, .write_buffer = 1}); }
SCENARIO(fault_crash_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .faults = true, .crash = true}); }
SCENARIO(fault_crash_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .faults = true, .crash = true}); }
SCENARIO(fault_mixed_3, {.race_check = false}) { run({.depth = 3, .max_file = 1, .faults = true, .reopen = true}); }
SCENARIO(fault_batches_4, {.race_check = false}) { run({.depth = 4, .max_file = 60, .faults = true, .write_buffer = 1}); }
SCENARIO(fault_crash_3, {.race_check = false}) { run({.depth = 3, .max_file = 1, .faults = true, .crash = true}); }
SCENARIO(fault_2_4, {.race_check = false}) { run({.depth = 4, .max_file = 1, .faults = true}); }
SCENARIO(damaged_5, {.race_check = false}) { run({.depth = 5, .max_file = 60, .corrupt = true}); }

SCENARIO(bulk_crash, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 1500, .crash = true, .write_buffer = 1200, .bulk = true, .read_buffer = 1000}); }
SCENARIO(bulk_crash_partial, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 1500, .threshold = 0.3, .crash = true, .write_buffer = 4096, .bulk = true, .read_buffer = 65536}); }
SCENARIO(bulk_crash_reopened, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 2500, .crash = true, .reopen = true, .write_buffer = 4096, .bulk = true, .read_buffer = 65536}); }
SCENARIO(bulk_fault, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 1500, .faults = true, .write_buffer = 700, .bulk = true, .read_buffer = 1000}); }
SCENARIO(bulk_fault_reopened, {.horizon = 100000000, .race_check = false}) { run({.depth = 0, .max_file = 2500, .threshold = 0.3, .faults = true, .reopen = true, .write_buffer = 4096, .bulk = true, .read_buffer = 65536}); }
