// C22: whatever sequence of operations, a read returns what was last written.
#include "bitk.h"
#include "bitcask/include/bitcask.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    const std::vector<std::string> keys = {"a", "b"};
    struct Plan
    {
        int depth;
        size_t max_file;
        bool sync = true;
        bool compaction = true;
        bool low_fd = false;
    };
    std::string value(int i)
    {
        // values of several shapes: empty, binary, long
        switch (i % 4)
        {
            case 0: return "v" + std::to_string(i);
            case 1: return "";
            case 2: return std::string("\0\xff\0", 3) + std::to_string(i);
            default: return std::string(60, 'x') + std::to_string(i);
        }
    }
    Task<void> history(Worker& w, Plan pl)
    {
        auto cfg = config(sc::dir() + "/db", pl.max_file, pl.sync);
        make_dirs(cfg.directory);
        if (pl.low_fd)
        {
            // standard input is closed: the first file opened gets descriptor 0
            fk::set_file_observer(sc::dir(), [](const fk::FileEv&) {});
            fk::env().low_fd = true;
        }
        auto opened = co_await open_part(w, cfg);
        if (!opened.has_value()) mc::fail("a new store does not open: %d", opened.error().value);
        auto p = std::move(opened.value());
        Model m;
        std::string did;
        for (int i = 0; i < pl.depth; i++)
        {
            int op = mc::choose_free(pl.compaction ? 6 : 5, "op");
            if (op < 2)
            {
                auto v = value(i);
                did += "put(" + keys[op] + ") ";
                auto r = co_await p->put(std::string(keys[op]), bytes(v));
                if (!r.has_value()) mc::fail("%s: failed: %d", did.c_str(), r.error().value);
                m[keys[op]] = v;
            }
            else if (op < 4)
            {
                did += "del(" + keys[op - 2] + ") ";
                auto r = co_await p->del(keys[op - 2]);
                if (!r.has_value()) mc::fail("%s: failed: %d", did.c_str(), r.error().value);
                m.erase(keys[op - 2]);
            }
            else if (op == 4)
            {
                did += "reopen ";
                auto r = co_await p->async_close();
                if (!r.has_value()) mc::fail("%s: close failed: %d", did.c_str(), r.error().value);
                p.reset();
                auto again = co_await open_part(w, cfg);
                if (!again.has_value()) mc::fail("%s: open failed: %d", did.c_str(), again.error().value);
                p = std::move(again.value());
            }
            else
            {
                did += "compact ";
                auto r = co_await p->compact();
                if (!r.has_value()) mc::fail("%s: failed: %d", did.c_str(), r.error().value);
            }
            mc::log("%s", did.c_str());
            co_await expect(*p, m, keys, did.c_str());
        }
        for (int round = 0; round < 2; round++)
        {
            auto r = co_await p->async_close();
            if (!r.has_value()) mc::fail("%s: last close failed: %d", did.c_str(), r.error().value);
            p.reset();
            auto again = co_await open_part(w, cfg);
            if (!again.has_value()) mc::fail("%s: last open failed: %d", did.c_str(), again.error().value);
            p = std::move(again.value());
            did += "reopen ";
            co_await expect(*p, m, keys, did.c_str());
        }
        (void) co_await p->async_close();
        co_return;
    }
    void run(Plan pl)
    {
        sc::fresh();
        on_worker([&](Worker& w) { return history(w, pl); });
        mc::outcome("ok");
    }
}
SCENARIO(rotate_always_4, {.race_check = false}) { run({4, 1}); }
SCENARIO(rotate_always_5, {.race_check = false}) { run({5, 1}); }
SCENARIO(rotate_some_4, {.race_check = false}) { run({4, 70}); }
SCENARIO(rotate_some_5, {.race_check = false}) { run({5, 70}); }
SCENARIO(rotate_some_6, {.race_check = false}) { run({6, 70}); }
SCENARIO(rotate_always_6, {.race_check = false}) { run({6, 1}); }
SCENARIO(one_file_5, {.race_check = false}) { run({5, 100000, true, false}); }
SCENARIO(lazy_sync_4, {.race_check = false}) { run({4, 70, false}); }

namespace
{
    // entries of any size: across the buffers of recovery and compaction
    Task<void> sized(Worker& w, int n, size_t max_file)
    {
        static const size_t sizes[] = {0, 1, 63, 190, 220, 256, 470, 512, 1025, 5000};
        auto cfg = config(sc::dir() + "/db", max_file);
        make_dirs(cfg.directory);
        std::vector<std::string> ks = {std::string((size_t[]){0, 1, 300, 3000}[mc::choose_free(4, "key size")], 'k'), "b", "c", "d"};
        Model m;
        std::string did = "key of " + std::to_string(ks[0].size()) + ", values of ";
        std::unique_ptr<Partition> p;
        auto reopen = [&]() -> Task<void> {
            if (p)
            {
                auto r = co_await p->async_close();
                if (!r.has_value()) mc::fail("%s: close failed: %d", did.c_str(), r.error().value);
            }
            p.reset();
            auto o = co_await open_part(w, cfg);
            if (!o.has_value()) mc::fail("%s: open failed: %d", did.c_str(), o.error().value);
            p = std::move(*o);
            co_return;
        };
        co_await reopen();
        for (int i = 0; i < n; i++)
        {
            size_t z = sizes[mc::choose_free(10, "size")];
            did += std::to_string(z) + " ";
            std::string v(z, (char) ('A' + i));
            for (size_t k = 0; k < z; k += 7) v[k] = (char) k;
            auto r = co_await p->put(std::string(ks[(size_t) i % 4]), bytes(v));
            if (!r.has_value()) mc::fail("%s: put failed: %d", did.c_str(), r.error().value);
            m[ks[(size_t) i % 4]] = v;
        }
        int gone = mc::choose_free(3, "deleted") - 1;
        if (gone >= 0)
        {
            did += "key " + std::to_string(gone) + " deleted ";
            if (!(co_await p->del(ks[(size_t) gone])).has_value()) mc::fail("%s: del failed", did.c_str());
            m.erase(ks[(size_t) gone]);
        }
        // something for compaction to drop
        (void) co_await p->put(std::string(ks[1]), bytes("old"));
        (void) co_await p->put(std::string(ks[1]), bytes("new"));
        m[ks[1]] = "new";
        co_await expect(*p, m, ks, did.c_str());
        co_await reopen();
        co_await expect(*p, m, ks, (did + "reopened").c_str());
        auto c = co_await p->compact();
        if (!c.has_value()) mc::fail("%s: compaction failed: %d", did.c_str(), c.error().value);
        if (p->get_stats().compactions_failed) mc::fail("%s: compaction failed", did.c_str());
        co_await expect(*p, m, ks, (did + "reopened, compacted").c_str());
        co_await reopen();
        co_await expect(*p, m, ks, (did + "reopened, compacted, reopened").c_str());
        (void) co_await p->async_close();
        co_return;
    }
    void sizes(int n, size_t max_file)
    {
        sc::fresh();
        on_worker([&](Worker& w) { return sized(w, n, max_file); });
        mc::outcome("ok");
    }
    // every open with another configuration
    Task<void> reconfigured(Worker& w, int depth)
    {
        const size_t files[] = {1, 70, 100000}, buffers[] = {256, 4096};
        make_dirs(sc::dir() + "/db");
        Model m;
        std::string did;
        std::unique_ptr<Partition> p;
        for (int i = 0; i < depth; i++)
        {
            if (p)
            {
                auto r = co_await p->async_close();
                if (!r.has_value()) mc::fail("%s: close failed: %d", did.c_str(), r.error().value);
                p.reset();
            }
            int c = mc::choose_free(12, "config");
            auto cfg = config(sc::dir() + "/db", files[c % 3], c < 6);
            cfg.read_buffer_size = buffers[c / 3 % 2];
            cfg.write_buffer_size = c % 2 ? 1 : 300;
            cfg.max_open_sealed_files = c % 2 ? 1 : 100;
            did += "open(" + std::to_string(c) + ") ";
            auto o = co_await open_part(w, cfg);
            if (!o.has_value()) mc::fail("%s: failed: %d", did.c_str(), o.error().value);
            p = std::move(*o);
            co_await expect(*p, m, keys, did.c_str());
            int op = mc::choose_free(5, "op");
            if (op < 2)
            {
                did += "put(" + keys[(size_t) op] + ") ";
                m[keys[(size_t) op]] = value(i + 1);
                if (!(co_await p->put(std::string(keys[(size_t) op]), bytes(value(i + 1)))).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else if (op < 4)
            {
                did += "del(" + keys[(size_t) op - 2] + ") ";
                m.erase(keys[(size_t) op - 2]);
                if (!(co_await p->del(keys[(size_t) op - 2])).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else
            {
                did += "compact ";
                if (!(co_await p->compact()).has_value()) mc::fail("%s: failed", did.c_str());
            }
            co_await expect(*p, m, keys, did.c_str());
        }
        auto r = co_await p->async_close();
        if (!r.has_value()) mc::fail("%s: last close failed: %d", did.c_str(), r.error().value);
        co_return;
    }
    // files that are not the store's are neither read nor touched
    Task<void> foreign(Worker& w)
    {
        static const char* names[] = {"data_7x.db", "data_.db", "data_-5.db", "data_+5.db", "data_ 7.db", "xdata_7.db", "data_7.db.bak", "data_7.tmp", "hint_7.ht.tmp", "data_18446744073709551616.db", "data_0x7.db", "DATA_7.db", "data_7,5.db", "data_1e9.db", ".db", "data_7.db/", "data_007.db", "data_00.db", "hint_7.ht"};
        const std::string name = names[mc::choose_free(19, "name")];
        const int content = mc::choose_free(3, "content");
        auto cfg = config(sc::dir() + "/db", 1);
        make_dirs(cfg.directory);
        const std::string at = cfg.directory.string() + "/partition_0/" + name;
        // entries as the store writes them, with another value
        std::string bad = str(DataEntry("a", bytes("foreign"), kFlagNone).serialize()) + str(DataEntry("b", bytes("foreign"), kFlagNone).serialize());
        if (content == 1) bad = "";
        if (content == 2) bad = std::string(1000, '\xff');
        const bool dir = name.back() == '/';
        const bool late = mc::choose_free(2, "late");
        auto plant = [&] {
            if (dir)
                ::mkdir(at.c_str(), 0755);
            else
                sc::spill(at, bad);
        };
        if (!late) plant();
        Model m;
        std::string did = name;
        auto p = std::unique_ptr<Partition>();
        for (int round = 0; round < 3; round++)
        {
            auto o = co_await open_part(w, cfg);
            if (!o.has_value()) mc::fail("%s: the store does not open: %d", did.c_str(), o.error().value);
            p = std::move(*o);
            co_await expect(*p, m, keys, did.c_str());
            m["a"] = "v" + std::to_string(round);
            for (auto& v: {std::string("old"), m["a"]})
                if (!(co_await p->put("a", bytes(v))).has_value()) mc::fail("%s: put failed", did.c_str());
            if (round == 1 && late) plant();
            if (!(co_await p->compact()).has_value() || p->get_stats().compactions_failed) mc::fail("%s: compaction failed", did.c_str());
            co_await expect(*p, m, keys, did.c_str());
            if (!(co_await p->async_close()).has_value()) mc::fail("%s: close failed", did.c_str());
            p.reset();
            did += " reopen";
        }
        if (!std::filesystem::exists(at) || (!dir && sc::slurp(at) != bad)) mc::fail("%s: a file that is not the store's was changed", did.c_str());
        co_return;
    }
    // a data file that cannot be read when the store is opened costs nothing that is in other files
    Task<void> unreadable(Worker& w, int depth)
    {
        auto cfg = config(sc::dir() + "/db", 1);  // every entry in a file of its own
        make_dirs(cfg.directory);
        auto o = co_await open_part(w, cfg);
        if (!o.has_value()) mc::fail("not opened");
        auto p = std::move(*o);
        Model m;
        std::string did;
        std::map<std::string, std::string> holds;  // file -> key
        for (int i = 0; i < depth; i++)
        {
            int op = mc::choose_free(4, "op");
            auto& k = keys[(size_t) op & 1];
            did += (op < 2 ? "put(" : "del(") + k + ") ";
            auto r = op < 2 ? co_await p->put(std::string(k), bytes(value(i))) : co_await p->del(k);
            if (!r.has_value()) mc::fail("%s: failed", did.c_str());
            if (op < 2)
                m[k] = value(i);
            else
                m.erase(k);
            holds["data_" + std::to_string(p->active_file_id()) + ".db"] += k;
        }
        if (!(co_await p->async_close()).has_value()) mc::fail("%s: close failed", did.c_str());
        p.reset();
        std::string hit;
        bool on = true;
        fk::set_file_observer(sc::dir(), [](const fk::FileEv&) {});
        fk::set_file_fault([&](const char* what, const std::string& path) {
            if (!on || std::string(what) != "read" || !mc::choose(2, "fault")) return 0;
            hit = path.substr(path.rfind('/') + 1);
            return -EIO;
        });
        auto again = co_await open_part(w, cfg);
        on = false;
        if (!again.has_value()) mc::fail("%s: does not open although only %s cannot be read: %d", did.c_str(), hit.c_str(), again.error().value);
        p = std::move(*again);
        for (auto& k: keys)
            if (hit.empty() || holds[hit].find(k) == std::string::npos)
            {
                auto got = co_await must_get(*p, k, did.c_str());
                if (got != at(m, k)) mc::fail("%s, %s could not be read: '%s', which is elsewhere, reads %s instead of %s", did.c_str(), hit.c_str(), k.c_str(), show(got).c_str(), show(at(m, k)).c_str());
            }
        (void) co_await p->async_close();
        p.reset();
        fk::set_file_fault({});
        fk::set_file_observer("", {});
        co_return;
    }
    // the whole store, with several partitions
    void database(int depth, size_t parts, size_t max_file)
    {
        const std::vector<std::string> ks = {"a", "b", "c", "d"};
        auto cfg = config(sc::fresh() + "/db", max_file);
        std::string did;
        auto open = [&] {
            auto r = kio::SyncWait([](BitcaskConfig c, size_t n) -> Task<Result<std::unique_ptr<BitKV>>> { co_return co_await BitKV::open(c, kh::small(16, 8, 16), n); }(cfg, parts));
            if (!r.has_value()) mc::fail("%s: the store does not open: %d", did.c_str(), r.error().value);
            return std::move(r.value());
        };
        auto db = open();
        Model m;
        auto run = [&](const char* what, auto f) {
            auto r = kio::SyncWait(f());
            if (!r.has_value()) mc::fail("%s: %s failed: %d", did.c_str(), what, r.error().value);
            return r;
        };
        auto look = [&] {
            for (auto& k: ks)
            {
                auto r = run("get", [&]() -> Task<Result<std::optional<std::vector<char>>>> { co_return co_await db->get(k); });
                auto got = r->has_value() ? std::optional(str(**r)) : std::nullopt;
                if (got != at(m, k)) mc::fail("%s: '%s' reads %s, last written %s", did.c_str(), k.c_str(), show(got).c_str(), show(at(m, k)).c_str());
            }
        };
        for (int i = 0; i <= depth; i++)
        {
            int op = i == depth ? 6 : mc::choose_free(8, "op");
            if (op < 4)
            {
                did += "put(" + ks[(size_t) op] + ") ";
                m[ks[(size_t) op]] = value(i);
                run("put", [&]() -> Task<Result<void>> { co_return co_await db->put(std::string(ks[(size_t) op]), bytes(value(i))); });
            }
            else if (op < 6)
            {
                did += "del(" + ks[(size_t) op - 4] + ") ";
                m.erase(ks[(size_t) op - 4]);
                run("del", [&]() -> Task<Result<void>> { co_return co_await db->del(ks[(size_t) op - 4]); });
            }
            else if (op == 6)
            {
                did += "reopen ";
                run("close", [&]() -> Task<Result<void>> { co_return co_await db->close(); });
                db.reset();
                db = open();
            }
            else
            {
                did += "compact ";
                run("compact", [&]() -> Task<Result<void>> { co_return co_await db->compact(); });
                run("sync", [&]() -> Task<Result<void>> { co_return co_await db->sync(); });
            }
            look();
        }
        run("close", [&]() -> Task<Result<void>> { co_return co_await db->close(); });
        db.reset();
        kh::check_fds("store");
        mc::outcome("ok");
    }
}
SCENARIO(descriptor_0_3, {.race_check = false}) { run({3, 70, true, true, true}); }
SCENARIO(descriptor_0_4, {.race_check = false}) { run({4, 70, true, true, true}); }
SCENARIO(descriptor_0_5, {.race_check = false}) { run({5, 1, true, true, true}); }
SCENARIO(sizes_3, {.race_check = false}) { sizes(3, 100000); }
SCENARIO(sizes_rotate_3, {.race_check = false}) { sizes(3, 400); }
SCENARIO(sizes_4, {.race_check = false}) { sizes(4, 1000); }
SCENARIO(foreign_files, {.race_check = false})
{
    sc::fresh();
    on_worker([](Worker& w) { return foreign(w); });
    mc::outcome("ok");
}
SCENARIO(unreadable_3, {.race_check = false})
{
    sc::fresh();
    on_worker([](Worker& w) { return unreadable(w, 3); });
    mc::outcome("ok");
}
SCENARIO(unreadable_4, {.race_check = false})
{
    sc::fresh();
    on_worker([](Worker& w) { return unreadable(w, 4); });
    mc::outcome("ok");
}
SCENARIO(reconfigured_3, {.race_check = false})
{
    sc::fresh();
    on_worker([](Worker& w) { return reconfigured(w, 3); });
    mc::outcome("ok");
}
SCENARIO(reconfigured_4, {.race_check = false})
{
    sc::fresh();
    on_worker([](Worker& w) { return reconfigured(w, 4); });
    mc::outcome("ok");
}
SCENARIO(partitions_2, {.race_check = false, .switch_cost = true}) { database(3, 2, 1); }
SCENARIO(partitions_3, {.race_check = false, .switch_cost = true}) { database(4, 3, 60); }
// a partition that cannot be sealed is reported, the others are closed, and nothing is lost
SCENARIO(close_fails, {.race_check = false, .switch_cost = true})
{
    auto cfg = config(sc::fresh() + "/db", 100000);
    size_t parts = 1 + (size_t) mc::choose_free(3, "partitions");
    auto open = [&] {
        auto r = kio::SyncWait([](BitcaskConfig c, size_t n) -> Task<Result<std::unique_ptr<BitKV>>> { co_return co_await BitKV::open(c, kh::small(16, 8, 16), n); }(cfg, parts));
        if (!r.has_value()) mc::fail("the store does not open: %d", r.error().value);
        return std::move(r.value());
    };
    auto db = open();
    for (int i = 0; i < 6; i++)
        if (!kio::SyncWait([&]() -> Task<Result<void>> { co_return co_await db->put(std::string(1, (char) ('a' + i)), bytes("v" + std::to_string(i))); }()).has_value()) mc::fail("put failed");
    std::string hit;
    fk::set_file_observer(sc::dir(), [](const fk::FileEv&) {});
    fk::set_file_fault([&](const char* what, const std::string& p) {
        if (!mc::choose(2, "fault")) return 0;
        hit += std::string(what) + " of " + p.substr(sc::dir().size()) + " ";
        return -EIO;
    });
    auto r = kio::SyncWait([&]() -> Task<Result<void>> { co_return co_await db->close(); }());
    if (r.has_value() != hit.empty()) mc::fail("closing while %s failed: %s", hit.c_str(), r.has_value() ? "reported success" : "reported failure");
    // a close that failed may be tried again
    int tries = mc::choose_free(3, "more closes");
    for (int i = 0; i < tries; i++)
    {
        auto before = hit;
        r = kio::SyncWait([&]() -> Task<Result<void>> { co_return co_await db->close(); }());
        if (!r.has_value() && hit == before) mc::fail("after %s failed, closing again fails: %d", hit.c_str(), r.error().value);
    }
    fk::set_file_fault({});
    fk::set_file_observer("", {});
    db.reset();
    db = open();
    for (int i = 0; i < 6; i++)
    {
        auto v = kio::SyncWait([&]() -> Task<Result<std::optional<std::string>>> { co_return co_await db->get_string(std::string(1, (char) ('a' + i))); }());
        if (!v.has_value() || !v->has_value() || **v != "v" + std::to_string(i)) mc::fail("after a failed close, a key is lost");
    }
    (void) kio::SyncWait([&]() -> Task<Result<void>> { co_return co_await db->close(); }());
    db.reset();
    kh::check_fds("store");
    mc::outcome(hit.empty() ? "ok" : "reported");
}

// many keys, long values, many files: where an implementation could change its way of working
namespace
{
    Task<void> bulk(Worker& w)
    {
        static const size_t files[] = {1, 1500, 4096, 65536, 1u << 30};
        static const size_t counts[] = {200, 50, 5, 120, 900};
        const int shape = mc::choose_free(5, "shape");
        const size_t n = counts[shape];
        const size_t max_file = files[mc::choose_free(5, "file size")];
        const bool stock = mc::choose_free(2, "buffers");
        if (max_file == 1 && n > 150) co_return;
        if (max_file < 65536 && n > 500) co_return;
        auto cfg = config(sc::dir() + "/db", max_file, false);
        if (stock)
        {
            cfg.read_buffer_size = BitcaskConfig{}.read_buffer_size;
            cfg.write_buffer_size = BitcaskConfig{}.write_buffer_size;
        }
        else cfg.max_open_sealed_files = 3;
        make_dirs(cfg.directory);
        auto key = [&](size_t i) {
            if (shape == 3) return std::string(1 + i, (char) (i * 7)) + (char) i;
            return "key" + std::to_string(i);
        };
        auto val = [&](size_t i, size_t gen) {
            size_t len = shape == 0 || shape == 4 ? (i + gen) % 41 : shape == 1 ? (i * 337 + gen) % 20011 : shape == 2 ? (i % 2 ? 65500 + i * 5 + gen : 120000 * (i % 3)) : i;
            std::string v(len, (char) ('a' + gen));
            for (size_t k = 0; k < len; k += 11) v[k] = (char) (k / 11 + i);
            return v;
        };
        std::string did = "shape " + std::to_string(shape) + ", file size " + std::to_string(max_file) + (stock ? ", stock buffers: " : ": ");
        Model m;
        std::unique_ptr<Partition> p;
        std::vector<std::string> ks;
        for (size_t i = 0; i < n; i++) ks.push_back(key(i));
        auto reopen = [&]() -> Task<void> {
            if (p && !(co_await p->async_close()).has_value()) mc::fail("%s: close failed", did.c_str());
            p.reset();
            auto o = co_await open_part(w, cfg);
            if (!o.has_value()) mc::fail("%s: open failed: %d", did.c_str(), o.error().value);
            p = std::move(*o);
            did += "reopen ";
        };
        auto put = [&](size_t i, size_t gen) -> Task<void> {
            auto v = val(i, gen);
            auto r = co_await p->put(std::string(ks[i]), bytes(v));
            if (!r.has_value()) mc::fail("%s: put failed: %d", did.c_str(), r.error().value);
            m[ks[i]] = std::move(v);
        };
        auto del = [&](size_t i) -> Task<void> {
            auto r = co_await p->del(ks[i]);
            if (!r.has_value()) mc::fail("%s: del failed: %d", did.c_str(), r.error().value);
            m.erase(ks[i]);
        };
        auto compact = [&]() -> Task<void> {
            auto r = co_await p->compact();
            did += "compact ";
            if (!r.has_value() || p->get_stats().compactions_failed) mc::fail("%s: compaction failed", did.c_str());
        };
        co_await reopen();
        for (size_t i = 0; i < n; i++) co_await put(i, 0);
        for (size_t i = 0; i < n; i += 3) co_await put(i, 1);
        for (size_t i = 0; i < n; i += 5) co_await del(i);
        did += "write ";
        co_await expect(*p, m, ks, did.c_str());
        co_await reopen();
        co_await expect(*p, m, ks, did.c_str());
        co_await compact();
        co_await expect(*p, m, ks, did.c_str());
        for (size_t i = 0; i < n; i += 10) co_await put(i, 2);
        for (size_t i = 1; i < n; i += 4) co_await del(i);
        did += "write ";
        co_await reopen();
        co_await compact();
        co_await reopen();
        co_await expect(*p, m, ks, did.c_str());
        (void) co_await p->async_close();
        mc::outcome(did);
    }
}
SCENARIO(bulk, {.horizon = 1000000000, .race_check = false})
{
    sc::fresh();
    on_worker([&](Worker& w) { return bulk(w); });
}
