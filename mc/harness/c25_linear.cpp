// C25: concurrent operations on the store are linearizable, also while it rotates, compacts or closes.
#include "bitk.h"
#include "hist.h"
#include "bitcask/include/bitcask.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    using Value = std::optional<std::string>;
    const std::vector<std::string> keys = {"a", "b"};
    struct Op
    {
        kh::Span at;
        int kind;  // 0 put, 1 del, 2 get
        std::string key;
        Value value;  // written or read
        bool refused = false;
    };
    std::string show_op(const Op& o)
    {
        static const char* names[] = {"put", "del", "get"};
        return std::string(names[o.kind]) + "(" + o.key + (o.kind == 0 ? "," + *o.value : "") + ")" + (o.refused ? " refused" : o.kind == 2 ? "=" + show(o.value) : "") + " [" + std::to_string(o.at.b) + "," + (o.at.e == ~0ull ? "-" : std::to_string(o.at.e)) + "]";
    }
    // is there an order of these operations on one key that respects real time and explains what was read
    bool explain(std::vector<Op*>& left, const Value& now)
    {
        if (left.empty()) return true;
        for (size_t i = 0; i < left.size(); i++)
        {
            Op* o = left[i];
            bool first = true;
            for (auto* x: left) first = first && !x->at.before(o->at);
            if (!first || (o->kind == 2 && o->value != now)) continue;
            left.erase(left.begin() + (long) i);
            bool ok = explain(left, o->kind == 2 ? now : o->value);
            left.insert(left.begin() + (long) i, o);
            if (ok) return true;
        }
        return false;
    }
    struct Log
    {
        std::deque<Op> ops;
        std::string before;
        Op& begin(int kind, std::string key, Value v)
        {
            ops.push_back({});
            Op& o = ops.back();
            o.kind = kind, o.key = std::move(key), o.value = std::move(v);
            o.at.b = kh::stamp();
            return o;
        }
        void check(const Model& start)
        {
            for (auto& k: keys)
            {
                std::vector<Op*> mine;
                std::string all;
                for (auto& o: ops)
                    if (o.key == k)
                    {
                        all += show_op(o) + " ";
                        if (!o.refused) mine.push_back(&o);
                    }
                if (!explain(mine, at(start, k))) mc::fail("%s: no order explains %s(at first %s)", before.c_str(), all.c_str(), show(at(start, k)).c_str());
            }
        }
    };
    // a close waits for what is under way: nothing happens to the files after it
    bool over = false;
    void watch(Log& l)
    {
        over = false;
        fk::set_file_observer(sc::dir(), [&l](const fk::FileEv& e) {
            if (over) mc::fail("%s: %s is changed after the store was closed", l.before.c_str(), e.path.substr(e.path.rfind('/') + 1).c_str());
        });
    }
    Task<void> do_op(Partition& p, Log& l, int op, int id, bool may_refuse)
    {
        auto refused = [&](Op& o, const kio::Error& e) {
            if (!may_refuse || e.value != EBADF) mc::fail("%s: %s failed: %d", l.before.c_str(), show_op(o).c_str(), e.value);
            o.refused = true;
        };
        if (op < 2)
        {
            auto& o = l.begin(0, keys[op], "w" + std::to_string(id));
            auto r = co_await p.put(std::string(o.key), bytes(*o.value));
            o.at.e = kh::stamp();
            if (!r.has_value()) refused(o, r.error());
        }
        else if (op < 4)
        {
            auto& o = l.begin(1, keys[op - 2], std::nullopt);
            auto r = co_await p.del(o.key);
            o.at.e = kh::stamp();
            if (!r.has_value()) refused(o, r.error());
        }
        else if (op < 6)
        {
            auto& o = l.begin(2, keys[op - 4], std::nullopt);
            auto r = co_await p.get(o.key);
            o.at.e = kh::stamp();
            if (!r.has_value())
                refused(o, r.error());
            else if (r->has_value())
                o.value = str(**r);
        }
        else if (op == 6)
        {
            auto r = co_await p.compact();
            if (!r.has_value() && (!may_refuse || r.error().value != EBADF)) mc::fail("%s: compaction failed: %d", l.before.c_str(), r.error().value);
        }
        else if (op == 7)
        {
            auto r = co_await p.sync();
            if (!r.has_value() && (!may_refuse || r.error().value != EBADF)) mc::fail("%s: sync failed: %d", l.before.c_str(), r.error().value);
        }
        else
        {
            auto r = co_await p.async_close();
            if (!r.has_value()) mc::fail("%s: close failed: %d", l.before.c_str(), r.error().value);
            over = true;
        }
        co_return;
    }
    kio::DetachedTask start(Partition& p, Log& l, int op, int id, bool may_refuse, int& left, kio::sync::AsyncBaton& done)
    {
        co_await do_op(p, l, op, id, may_refuse);
        if (--left == 0) done.notify();
    }
    struct Plan
    {
        std::vector<int> before;   // operations before the concurrent ones
        std::vector<int> fixed;    // concurrent operations that are given
        int free;                  // ... and so many chosen ones
        size_t max_file = 1;
        size_t fds = 100;
        bool same_key = true;
        bool loops = false;
    };
    BitcaskConfig conf(const Plan& pl)
    {
        auto c = config(sc::dir() + "/db", pl.max_file);
        c.max_open_sealed_files = pl.fds;
        if (pl.loops)
        {
            c.auto_compact = true;
            c.sync_on_write = false;
            c.sync_interval = std::chrono::milliseconds(2);
            c.compaction_interval_s = std::chrono::milliseconds(3);
        }
        return c;
    }
    int pick(const Plan& pl)
    {
        static const int one[] = {0, 2, 4}, two[] = {0, 1, 2, 3, 4, 5};
        return pl.same_key ? one[mc::choose_free(3, "op")] : two[mc::choose_free(6, "op")];
    }
    Task<void> prepare(Partition& p, const Plan& pl, Model& m, Log& l)
    {
        static const char* names[] = {"put(a)", "put(b)", "del(a)", "del(b)", "get(a)", "get(b)", "compact", "sync", "close"};
        int id = 100;
        for (int op: pl.before)
        {
            if (op < 2)
            {
                m[keys[op]] = "w" + std::to_string(id);
                (void) co_await p.put(std::string(keys[op]), bytes("w" + std::to_string(id++)));
            }
            else if (op < 4)
            {
                m.erase(keys[op - 2]);
                (void) co_await p.del(keys[op - 2]);
            }
            else if (op < 6)
                (void) co_await p.get(keys[op - 4]);
            else
                (void) co_await p.compact();
            l.before += std::string(names[op]) + " ";
        }
        co_return;
    }
    Task<void> finish(Worker& w, const Plan& pl, std::unique_ptr<Partition>& p, Log& l, const Model& start, bool closed)
    {
        if (!closed)
            for (int op: {4, 5}) co_await do_op(*p, l, op, 0, false);
        auto r = co_await p->async_close();
        if (!r.has_value()) mc::fail("close failed: %d", r.error().value);
        over = true;
        for (int op: {0, 2, 4})
        {
            // a closed store refuses everything
            Op o{};
            o.key = "a";
            bool ok = op == 0 ? (co_await p->put("a", bytes("late"))).has_value() : op == 2 ? (co_await p->del("a")).has_value() : (co_await p->get("a")).has_value();
            if (ok && op != 4) mc::fail("%s: a write after the store was closed succeeded", l.before.c_str());
        }
        p.reset();
        fk::set_file_observer("", {});
        auto again = co_await open_part(w, conf(pl));
        if (!again.has_value()) mc::fail("%s: the store does not open again: %d", l.before.c_str(), again.error().value);
        p = std::move(*again);
        for (int op: {4, 5}) co_await do_op(*p, l, op, 0, false);
        l.check(start);
        (void) co_await p->async_close();
        p.reset();
        co_return;
    }
    // all on one worker: every order of the I/O completions
    Task<void> coroutines(Worker& w, Plan pl)
    {
        make_dirs(sc::dir() + "/db");
        auto o = co_await open_part(w, conf(pl));
        if (!o.has_value()) mc::fail("not opened: %d", o.error().value);
        auto p = std::move(*o);
        Model m;
        Log l;
        co_await prepare(*p, pl, m, l);
        watch(l);
        std::vector<int> ops = pl.fixed;
        for (int i = 0; i < pl.free; i++) ops.push_back(pick(pl));
        bool closes = std::find(ops.begin(), ops.end(), 8) != ops.end();
        kio::sync::AsyncBaton done(w);
        int left = (int) ops.size();
        fk::env().order = true;
        fk::env().slow = true;
        for (size_t i = 0; i < ops.size(); i++) start(*p, l, ops[i], (int) i, closes, left, done).detach();
        if (left) co_await done.wait();
        fk::env().order = false;
        fk::env().slow = false;
        co_await finish(w, pl, p, l, m, closes);
        co_return;
    }
    void on_one(Plan pl)
    {
        sc::fresh();
        kh::g_stamp = 0;
        on_worker([&](Worker& w) { return coroutines(w, pl); }, 32);
        mc::outcome("ok");
    }
    // called by other threads
    void threads(Plan pl, int n)
    {
        sc::fresh();
        kh::g_stamp = 0;
        make_dirs(sc::dir() + "/db");
        {
            kh::WT t(0, kh::small(16, 8, 16));
            t.ready();
            auto o = kio::SyncWait(open_part(t.w, conf(pl)));
            if (!o.has_value()) mc::fail("not opened: %d", o.error().value);
            auto p = std::move(*o);
            Model m;
            std::deque<Log> logs((size_t) n + 1);
            kio::SyncWait([](Worker& w, Partition& p, const Plan& pl, Model& m, Log& l) -> Task<void> {
                co_await kio::io::SwitchToWorker(w);
                co_await prepare(p, pl, m, l);
            }(t.w, *p, pl, m, logs[0]));
            std::vector<int> ops = pl.fixed;
            while ((int) ops.size() < n) ops.push_back(pick(pl));
            std::vector<std::thread> ts;
            for (int i = 0; i < n; i++)
                ts.emplace_back([&, i] {
                    logs[(size_t) i + 1].before = logs[0].before;
                    kio::SyncWait([](Partition& p, Log& l, int op, int id) -> Task<void> { co_await do_op(p, l, op, id, false); }(*p, logs[(size_t) i + 1], ops[(size_t) i], i));
                });
            for (auto& x: ts) x.join();
            Log l;
            l.before = logs[0].before;
            for (int i = 1; i <= n; i++)
                for (auto& x: logs[(size_t) i].ops) l.ops.push_back(x);
            kio::SyncWait([](Worker& w, const Plan& pl, std::unique_ptr<Partition>& p, Log& l, const Model& m) -> Task<void> {
                co_await kio::io::SwitchToWorker(w);
                co_await finish(w, pl, p, l, m, false);
            }(t.w, pl, p, l, m));
            t.stop();
        }
        kh::check_fds("store");
        mc::outcome("ok");
    }
    const std::vector<int> plain = {0}, files = {0, 1, 0, 0, 5};        // several sealed files, some fragmented
    const std::vector<int> mixed = {0, 1, 1, 2, 0};
    // many operations queue up behind a slow one
    Task<void> crowding(Worker& w, int n)
    {
        make_dirs(sc::dir() + "/db");
        auto o = co_await open_part(w, conf({.max_file = 100000}));
        auto p = std::move(*o);
        Log l;
        kio::sync::AsyncBaton done(w);
        int left = n;
        int kind = 2 * mc::choose_free(3, "op");
        start(*p, l, 1, 0, false, left, done).detach();
        for (int i = 1; i < n; i++) start(*p, l, kind, i, false, left, done).detach();
        co_await done.wait();
        (void) co_await p->async_close();
        co_return;
    }
}
SCENARIO(two, {.race_check = false}) { on_one({.before = plain, .fixed = {}, .free = 2}); }
SCENARIO(three, {.race_check = false}) { on_one({.before = plain, .fixed = {}, .free = 3}); }
SCENARIO(three_one_file, {.race_check = false}) { on_one({.before = plain, .fixed = {}, .free = 3, .max_file = 100000}); }
SCENARIO(three_two_keys, {.race_check = false}) { on_one({.before = {0, 1}, .fixed = {}, .free = 3, .max_file = 60, .fds = 1, .same_key = false}); }
SCENARIO(four, {.race_check = false}) { on_one({.before = plain, .fixed = {}, .free = 4}); }
SCENARIO(compact_1, {.race_check = false}) { on_one({.before = files, .fixed = {6}, .free = 1}); }
SCENARIO(compact_2, {.race_check = false}) { on_one({.before = files, .fixed = {6}, .free = 2, .fds = 1}); }
SCENARIO(compact_mixed_2, {.race_check = false}) { on_one({.before = mixed, .fixed = {6}, .free = 2, .max_file = 60, .same_key = false}); }
SCENARIO(compact_late_2, {.race_check = false}) { on_one({.before = mixed, .fixed = {0, 6}, .free = 1, .max_file = 60}); }
SCENARIO(compact_twice, {.race_check = false}) { on_one({.before = files, .fixed = {6, 6}, .free = 1}); }
SCENARIO(compact_3, {.race_check = false}) { on_one({.before = files, .fixed = {6}, .free = 3, .fds = 1}); }
SCENARIO(close_2, {.race_check = false}) { on_one({.before = plain, .fixed = {8}, .free = 2}); }
SCENARIO(close_late_2, {.race_check = false}) { on_one({.before = plain, .fixed = {0, 8}, .free = 1}); }
SCENARIO(close_compacting, {.race_check = false}) { on_one({.before = files, .fixed = {6, 8}, .free = 1}); }
SCENARIO(close_twice, {.race_check = false}) { on_one({.before = plain, .fixed = {0, 8, 8}, .free = 1}); }
SCENARIO(loops_2, {.race_check = false}) { fk::env().timers_early = true; on_one({.before = files, .fixed = {}, .free = 2, .loops = true}); }
SCENARIO(loops_close, {.race_check = false}) { fk::env().timers_early = true; on_one({.before = files, .fixed = {2, 8}, .free = 1, .loops = true}); }
SCENARIO(threads_2, {.switch_cost = true}) { threads({.before = plain, .fixed = {}, .free = 2}, 2); }
SCENARIO(threads_3, {.switch_cost = true}) { threads({.before = plain, .fixed = {}, .free = 3}, 3); }
SCENARIO(threads_compact, {.switch_cost = true}) { threads({.before = files, .fixed = {6}, .free = 2}, 2); }
SCENARIO(threads_loops, {.switch_cost = true}) { fk::env().timers_early = true; threads({.before = files, .fixed = {}, .free = 2, .loops = true}, 2); }
SCENARIO(crowd, {.horizon = 2000000, .race_check = false})
{
    sc::fresh();
    on_worker([&](Worker& w) { return crowding(w, 2000); }, 32);
    mc::outcome("ok");
}
SCENARIO(close_compacting_2, {.race_check = false}) { on_one({.before = files, .fixed = {6, 0, 8}, .free = 0}); }
SCENARIO(loops_close_twice, {.race_check = false}) { fk::env().timers_early = true; on_one({.before = files, .fixed = {8, 8}, .free = 1, .loops = true}); }
SCENARIO(loops_sync, {.race_check = false}) { fk::env().timers_early = true; on_one({.before = plain, .fixed = {7}, .free = 1, .loops = true}); }
SCENARIO(loops_files_close, {.race_check = false}) { fk::env().timers_early = true; on_one({.before = files, .fixed = {8}, .free = 1, .loops = true}); }
// closing does not wait for the next turn of the background loops
SCENARIO(prompt_close, {.race_check = false})
{
    sc::fresh();
    on_worker([](Worker& w) -> Task<void> {
        make_dirs(sc::dir() + "/db");
        for (int kind = 0; kind < 4; kind++)
        {
            auto c = config(sc::dir() + "/db", 1, kind & 1);
            c.sync_interval = c.compaction_interval_s = std::chrono::hours(1);
            c.auto_compact = kind & 2;
            auto o = co_await open_part(w, c);
            if (!o.has_value()) mc::fail("not opened");
            for (int i = 0; i < 3; i++)
                if (!(co_await (*o)->put("a", bytes("v"))).has_value()) mc::fail("put failed");
            if (mc::choose_free(2, "idle")) (void) co_await w.async_sleep(std::chrono::milliseconds(5));
            const auto from = mc::now_ns();
            if (!(co_await (*o)->async_close()).has_value()) mc::fail("close failed");
            const auto took = (mc::now_ns() - from) / 1000000;
            if (took > 60000) mc::fail("closing took %lu ms", (unsigned long) took);
        }
    }, 32);
    mc::outcome("ok");
}
