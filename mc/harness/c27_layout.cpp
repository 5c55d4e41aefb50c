// C27: a store remembers its number of partitions, opening is all-or-nothing, and keys stay in their partition.
#include "bitk.h"
#include "bitcask/include/bitcask.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    using Tree = std::map<std::string, std::string>;  // path -> contents, directories end in /
    Tree tree(const std::string& dir)
    {
        Tree t;
        if (!std::filesystem::exists(dir)) return t;
        t["/"] = "";
        for (auto& e: std::filesystem::recursive_directory_iterator(dir))
        {
            auto p = e.path().string().substr(dir.size());
            if (e.is_directory())
                t[p + "/"] = "";
            else
                t[p] = sc::slurp(e.path().string());
        }
        return t;
    }
    std::string differ(const Tree& a, const Tree& b)
    {
        for (auto& [p, d]: a)
            if (!b.contains(p)) return p + " is gone";
            else if (b.at(p) != d) return p + " has changed";
        for (auto& [p, d]: b)
            if (!a.contains(p)) return p + " was created";
        return "";
    }
    struct Opened
    {
        std::unique_ptr<BitKV> db;
        int error = 0;
    };
    Opened open(const std::string& dir, size_t n, bool loops = false)
    {
        auto c = config(dir, 200);
        if (loops) c.auto_compact = true, c.sync_on_write = false;
        auto r = kio::SyncWait([](BitcaskConfig c, size_t n) -> Task<Result<std::unique_ptr<BitKV>>> { co_return co_await BitKV::open(c, kh::small(16, 8, 16), n); }(c, n));
        Opened o;
        if (r.has_value())
            o.db = std::move(r.value());
        else
            o.error = r.error().value ? r.error().value : -1;
        return o;
    }
    void put(BitKV& db, const std::string& k, const std::string& v, const std::string& when)
    {
        auto r = kio::SyncWait([](BitKV& db, std::string k, std::string v) -> Task<Result<void>> { co_return co_await db.put(k, v); }(db, k, v));
        if (!r.has_value()) mc::fail("%s: put('%s') failed: %d", when.c_str(), k.c_str(), r.error().value);
    }
    void del(BitKV& db, const std::string& k, const std::string& when)
    {
        auto r = kio::SyncWait([](BitKV& db, std::string k) -> Task<Result<void>> { co_return co_await db.del(k); }(db, k));
        if (!r.has_value()) mc::fail("%s: del('%s') failed: %d", when.c_str(), k.c_str(), r.error().value);
    }
    void expect(BitKV& db, const Model& m, const std::vector<std::string>& keys, const std::string& when)
    {
        for (auto& k: keys)
        {
            auto r = kio::SyncWait([](BitKV& db, std::string k) -> Task<Result<std::optional<std::string>>> { co_return co_await db.get_string(k); }(db, k));
            if (!r.has_value()) mc::fail("%s: get('%s') failed: %d", when.c_str(), k.c_str(), r.error().value);
            if (*r != at(m, k)) mc::fail("%s: '%s' reads %s, last written %s", when.c_str(), k.c_str(), show(*r).c_str(), show(at(m, k)).c_str());
        }
    }
    void close(Opened& o, const std::string& when)
    {
        auto r = kio::SyncWait([](BitKV& db) -> Task<Result<void>> { co_return co_await db.close(); }(*o.db));
        if (!r.has_value()) mc::fail("%s: close failed: %d", when.c_str(), r.error().value);
        o.db.reset();
    }
    const std::vector<std::string> keys = {"a", "b", "c", "", std::string("\0\xff", 2)};
    // opens with any counts; the first decides
    void sequences(int depth, size_t most)
    {
        std::string dir = sc::fresh() + "/db", did;
        size_t count = 0;
        Model m;
        for (int i = 0; i < depth; i++)
        {
            size_t n = 1 + (size_t) mc::choose_free((int) most, "partitions");
            did += "open(" + std::to_string(n) + ") ";
            auto before = tree(dir);
            auto o = open(dir, n);
            if (count && n != count)
            {
                if (o.db) mc::fail("%s: opened, although it was created with %zu", did.c_str(), count);
                auto d = differ(before, tree(dir));
                if (!d.empty()) mc::fail("%s: was refused, but %s", did.c_str(), d.c_str());
                continue;
            }
            if (!o.db) mc::fail("%s: refused: %d", did.c_str(), o.error);
            count = n;
            expect(*o.db, m, keys, did);
            for (size_t k = 0; k < keys.size(); k++)
            {
                if ((k + (size_t) i) % 4 == 3)
                {
                    del(*o.db, keys[k], did);
                    m.erase(keys[k]);
                    continue;
                }
                m[keys[k]] = "v" + std::to_string(i) + std::to_string(k);
                put(*o.db, keys[k], m[keys[k]], did);
            }
            expect(*o.db, m, keys, did);
            close(o, did);
        }
        kh::check_fds("layout");
        mc::outcome("ok");
    }
    // a creation that a crash cuts short at any point
    void creation(size_t n, bool loops)
    {
        std::string one = sc::fresh() + "/one", two = sc::dir() + "/two";
        Journal j;
        j.attach(sc::dir());
        auto o = open(one, n, loops);
        if (!o.db) mc::fail("a store was not created: %d", o.error);
        put(*o.db, "a", "first", "creation");
        j.detach();
        close(o, "creation");
        size_t at = (size_t) mc::choose_free((int) j.log.size() + 1, "crash");
        auto disk = j.disk(at);
        Journal::settle(disk, true);
        Journal::spill(disk, one, two);
        std::string when = "crash after " + std::to_string(at) + " of " + std::to_string(j.log.size()) + " file operations of the creation";
        mc::log("%s", when.c_str());
        bool created = std::filesystem::exists(two + "/MANIFEST");
        size_t other = n + 1;
        auto before = tree(two);
        bool wrong_first = mc::choose_free(2, "opened with another count first");
        if (wrong_first && created)
        {
            auto w = open(two, other);
            if (w.db) mc::fail("%s: opened with %zu instead of %zu", when.c_str(), other, n);
            auto d = differ(before, tree(two));
            if (!d.empty()) mc::fail("%s: refused, but %s", when.c_str(), d.c_str());
        }
        size_t use = wrong_first && !created ? other : n;
        Model m;
        for (int round = 0; round < 2; round++)
        {
            auto r = open(two, use);
            if (!r.db) mc::fail("%s: the store does not open: %d", when.c_str(), r.error);
            if (round) expect(*r.db, m, keys, when + ", opened again");
            for (auto& k: keys) put(*r.db, k, m[k] = "v" + std::to_string(round), when);
            expect(*r.db, m, keys, when);
            close(r, when);
        }
        auto last = tree(two);
        auto w = open(two, use == n ? other : n);
        if (w.db) mc::fail("%s: then created with %zu, it opens with another number", when.c_str(), use);
        auto d = differ(last, tree(two));
        if (!d.empty()) mc::fail("%s: refused, but %s", when.c_str(), d.c_str());
        kh::check_fds("layout");
        mc::outcome("ok");
    }
}
SCENARIO(open_3, {.race_check = false, .switch_cost = true}) { sequences(3, 3); }
SCENARIO(open_4, {.race_check = false, .switch_cost = true}) { sequences(4, 3); }
SCENARIO(open_3_of_5, {.race_check = false, .switch_cost = true}) { sequences(3, 5); }
SCENARIO(creation_1, {.race_check = false, .switch_cost = true}) { creation(1, false); }
SCENARIO(creation_2, {.race_check = false, .switch_cost = true}) { creation(2, false); }
SCENARIO(creation_3, {.race_check = false, .switch_cost = true}) { creation(3, true); }
// an altered MANIFEST: refused without a trace, or without consequences
SCENARIO(altered, {.race_check = false, .switch_cost = true})
{
    std::string dir = sc::fresh() + "/db";
    Model m;
    {
        auto o = open(dir, 2);
        if (!o.db) mc::fail("not created");
        for (auto& k: keys) put(*o.db, k, m[k] = "v", "creation");
        close(o, "creation");
    }
    auto good = sc::slurp(dir + "/MANIFEST");
    size_t i = (size_t) mc::choose_free((int) good.size() * 9, "alteration");
    std::string bad = good;
    std::string what;
    if (i < good.size())
        bad.resize(i), what = "truncated to " + std::to_string(i);
    else
    {
        size_t b = i - good.size();
        bad[b / 8] = (char) (bad[b / 8] ^ (1 << b % 8));
        what = "with bit " + std::to_string(b) + " changed";
    }
    sc::spill(dir + "/MANIFEST", bad);
    for (size_t n: {3u, 1u, 2u})
    {
        auto before = tree(dir);
        auto o = open(dir, n);
        if (!o.db)
        {
            auto d = differ(before, tree(dir));
            if (!d.empty()) mc::fail("a store whose MANIFEST is %s is refused, but %s", what.c_str(), d.c_str());
            continue;
        }
        if (n == 2) expect(*o.db, m, keys, "MANIFEST " + what);
        close(o, what);
    }
    kh::check_fds("layout");
    mc::outcome("ok");
}
// one file operation of opening fails: the store is opened or refused as a whole, and opens afterwards
SCENARIO(faults, {.race_check = false, .switch_cost = true})
{
    std::string dir = sc::fresh() + "/db";
    size_t n = 1 + (size_t) mc::choose_free(3, "partitions");
    bool existing = mc::choose_free(2, "existing"), loops = mc::choose_free(2, "loops");
    Model m;
    if (existing)
    {
        auto o = open(dir, n);
        for (auto& k: keys) put(*o.db, k, m[k] = "v", "creation");
        close(o, "creation");
    }
    bool on = true;
    std::string what;
    fk::set_file_observer(sc::dir(), [](const fk::FileEv&) {});
    fk::set_file_fault([&](const char* w, const std::string& p) {
        if (!on || !mc::choose(2, "fault")) return 0;
        what += std::string(w) + "(" + p.substr(sc::dir().size()) + ") ";
        return -EIO;
    });
    auto o = open(dir, n, loops);
    on = false;
    std::string when = "opening while " + what + "failed";
    if (o.db)
    {
        for (auto& k: keys)
            if (!existing || what.empty()) put(*o.db, k, m[k] = "w", when);
        if (what.empty() || !existing) expect(*o.db, m, keys, when);
        close(o, when);
    }
    else if (what.empty()) mc::fail("not opened without a fault");
    auto again = open(dir, n, loops);
    if (!again.db) mc::fail("%s: the store does not open afterwards: %d", when.c_str(), again.error);
    expect(*again.db, m, keys, when + ", opened again");
    close(again, when);
    kh::check_fds("layout");
    mc::outcome(what.empty() ? "ok" : o.db ? "opened" : "refused");
}
// every key is written to the same partition in every life of the store
SCENARIO(routing, {.horizon = 4000000, .race_check = false, .switch_cost = true})
{
    std::string dir = sc::fresh() + "/db";
    size_t n = 1 + (size_t) mc::choose_free(4, "partitions");
    std::vector<std::string> many = {"", std::string(300, 'k')};
    for (int i = 0; i < 256; i += 5) many.push_back(std::string(1, (char) i));
    for (int i = 0; i < 256; i += 23) many.push_back(std::string("x") + (char) i), many.push_back(std::string((size_t) i, '\0') + "y");
    std::map<std::string, std::string> where;
    std::string now;
    fk::set_file_observer(sc::dir(), [&](const fk::FileEv& e) {
        if (e.kind == fk::FileEv::WRITE) now = e.path.substr(0, e.path.rfind('/'));
    });
    Model m;
    std::set<std::string> used;
    for (int life = 0; life < 2; life++)
    {
        auto o = open(dir, n);
        if (!o.db) mc::fail("not opened");
        for (auto& k: many)
        {
            now.clear();
            put(*o.db, k, m[k] = "v" + std::to_string(life), "routing");
            used.insert(now);
            if (!where.contains(k)) where[k] = now;
            if (where[k] != now) mc::fail("a key of %zu bytes went to %s, then to %s", k.size(), where[k].c_str(), now.c_str());
        }
        expect(*o.db, m, many, "routing");
        close(o, "routing");
    }
    if (used.size() != n) mc::fail("%zu keys use %zu of %zu partitions", many.size(), used.size(), n);
    kh::check_fds("layout");
    mc::outcome("ok");
}
