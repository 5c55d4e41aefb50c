// Shared pieces of the key-value store harnesses: a store in a scratch directory, the log of what it
// does to its files, and the disk states a crash can leave behind.
#pragma once
#include "kioh.h"
#include "scratch.h"
#include <filesystem>
#include <map>
#include <set>
#include "bitcask/include/partition.h"

namespace bk
{
    using namespace bitcask;
    using kio::Task;
    using kio::Result;
    using kio::io::Worker;
    using Bytes = std::vector<char>;

    inline BitcaskConfig config(const std::string& dir, size_t max_file, bool sync = true)
    {
        BitcaskConfig c;
        c.directory = dir;
        c.max_file_size = max_file;
        c.sync_on_write = sync;
        c.auto_compact = false;
        c.fragmentation_threshold = 0.01;
        c.read_buffer_size = 256;
        c.write_buffer_size = 64;
        return c;
    }
    inline Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
    inline std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
    using Model = std::map<std::string, std::string>;  // absent: deleted or never put
    inline std::string show(const std::optional<std::string>& v) { return v ? "'" + *v + "'" : "nothing"; }
    inline std::optional<std::string> at(const Model& m, const std::string& k)
    {
        auto it = m.find(k);
        return it == m.end() ? std::nullopt : std::optional(it->second);
    }
    inline void make_dirs(const std::string& dir, size_t partitions = 1)
    {
        ::mkdir(dir.c_str(), 0755);
        for (size_t i = 0; i < partitions; i++) ::mkdir((dir + "/partition_" + std::to_string(i)).c_str(), 0755);
    }
    inline Task<Result<std::unique_ptr<Partition>>> open_part(Worker& w, const BitcaskConfig& c, size_t id = 0)
    {
        co_await kio::io::SwitchToWorker(w);
        auto r = co_await Partition::open(c, w, id);
        if (!r.has_value()) co_return std::unexpected(r.error());
        co_return std::move(r.value());
    }
    // a read that must succeed
    inline Task<std::optional<std::string>> must_get(Partition& p, const std::string& k, const char* when)
    {
        auto r = co_await p.get(k);
        if (!r.has_value()) mc::fail("%s: reading '%s' failed: %d", when, k.c_str(), r.error().value);
        if (!r->has_value()) co_return std::nullopt;
        co_return str(**r);
    }
    inline Task<void> expect(Partition& p, const Model& m, const std::vector<std::string>& keys, const char* when)
    {
        for (auto& k: keys)
        {
            auto got = co_await must_get(p, k, when);
            auto want = at(m, k);
            if (got != want) mc::fail("%s: '%s' reads %s, last written %s", when, k.c_str(), show(got).c_str(), show(want).c_str());
        }
        co_return;
    }
    template<class F>
    void on_worker(F f, size_t depth = 16)
    {
        {
            kh::WT t(0, kh::small(depth, 8, 16));
            t.ready();
            kio::SyncWait(f(t.w));
            t.stop();
        }
        kh::check_fds("store");
    }

    // ------------------------------------------------------------------ crash states
    // Assumed of the disk: changes of names, sizes and preallocation survive in the order they were made;
    // written bytes survive once the file was synced, and until then only a prefix of the writes of a file,
    // the last of them possibly torn.
    struct Journal
    {
        std::vector<fk::FileEv> log;
        void attach(const std::string& dir)
        {
            fk::set_file_observer(dir, [this](const fk::FileEv& e) { log.push_back(e); });
        }
        void detach() { fk::set_file_observer("", {}); }
        struct File
        {
            std::string data;
            std::vector<fk::FileEv> pending;  // writes that were not synced, and size changes among them
        };
        struct Disk
        {
            std::map<std::string, File> files;
            std::set<std::string> dirs;
        };
        static void apply(std::string& d, const fk::FileEv& e, size_t cut = ~size_t{0})
        {
            switch (e.kind)
            {
                case fk::FileEv::WRITE:
                {
                    size_t n = std::min(cut, e.data.size());
                    if (n == 0) return;
                    if (d.size() < e.off + n) d.resize(e.off + n);
                    d.replace(e.off, n, e.data, 0, n);
                    return;
                }
                case fk::FileEv::TRUNC: d.resize(e.len); return;
                case fk::FileEv::ALLOC:
                    if (d.size() < e.off + e.len) d.resize(e.off + e.len);
                    return;
                default: return;
            }
        }
        // the disk after the first n events; unsynced writes are left pending
        Disk disk(size_t n) const
        {
            Disk k;
            for (size_t i = 0; i < n && i < log.size(); i++)
            {
                auto& e = log[i];
                switch (e.kind)
                {
                    case fk::FileEv::CREATE: k.files[e.path]; break;
                    case fk::FileEv::MKDIR: k.dirs.insert(e.path); break;
                    case fk::FileEv::UNLINK: k.files.erase(e.path); break;
                    case fk::FileEv::RENAME:
                    {
                        auto it = k.files.find(e.path);
                        if (it == k.files.end()) break;
                        auto f = it->second;
                        k.files.erase(it);
                        k.files[e.path2] = f;
                        break;
                    }
                    case fk::FileEv::SYNC:
                    {
                        auto it = k.files.find(e.path);
                        if (it == k.files.end()) break;
                        for (auto& p: it->second.pending) apply(it->second.data, p);
                        it->second.pending.clear();
                        break;
                    }
                    default: k.files[e.path].pending.push_back(e);
                }
            }
            return k;
        }
        // Choose which of the unsynced writes of every file survive: any of them when they are few, otherwise
        // a prefix; the first that does not may be torn (fine: after every byte, otherwise in the middle), or
        // may have extended the file with zeros.
        static void settle(Disk& k, bool fine)
        {
            for (auto& [path, f]: k.files)
            {
                size_t writes = 0;
                for (auto& p: f.pending) writes += p.kind == fk::FileEv::WRITE;
                unsigned kept = 0;
                if (writes <= 3)
                    kept = writes ? (unsigned) mc::choose_free(1 << writes, "writes that survive") : 0;
                else
                    kept = (1u << mc::choose_free((int) writes + 1, "writes that survive")) - 1;
                size_t seen = 0;
                bool torn = false;
                for (auto& p: f.pending)
                {
                    if (p.kind != fk::FileEv::WRITE || (kept >> seen++ & 1))
                    {
                        apply(f.data, p);
                        continue;
                    }
                    if (torn) continue;
                    torn = true;
                    size_t n = p.data.size();
                    size_t how = n < 2 ? 0 : (size_t) mc::choose_free(fine ? (int) n + 1 : 3, "torn");
                    if (how == 1)
                    {
                        if (f.data.size() < p.off + n) f.data.resize(p.off + n);
                    }
                    else if (how > 1)
                        apply(f.data, p, fine ? how - 1 : n / 2);
                }
                f.pending.clear();
            }
        }
        // write the disk to another directory
        static void spill(const Disk& k, const std::string& from, const std::string& to)
        {
            for (auto& d: k.dirs)
                if (d.compare(0, from.size(), from) == 0) ::mkdir((to + d.substr(from.size())).c_str(), 0755);
            for (auto& [path, f]: k.files)
                if (path.compare(0, from.size() + 1, from + "/") == 0) sc::spill(to + path.substr(from.size()), f.data);
        }
    };

    // ------------------------------------------------------------------ what was written, and what may be read
    struct Write
    {
        std::string key;
        std::optional<std::string> value;  // nothing: a delete
        size_t start;                      // position in the journal when it was called
        size_t end = ~size_t{0};           // ... when it succeeded
        size_t ret = ~size_t{0};           // ... when it returned
    };
    struct History
    {
        Journal& j;
        std::vector<Write> writes;
        struct Sync
        {
            size_t start, end, life;
        };
        std::vector<Sync> syncs;  // of stores that do not sync on write
        size_t life = 0;           // when the store was opened: what a failed close left is nobody's to sync
        std::map<std::string, std::set<std::optional<std::string>>> before;  // what the first open may have found
        Task<Result<void>> put(Partition& p, std::string k, std::string v)
        {
            size_t id = writes.size();
            writes.push_back({k, v, j.log.size()});
            auto r = co_await p.put(std::move(k), bytes(v));
            writes[id].ret = j.log.size();
            if (r.has_value()) writes[id].end = j.log.size();
            co_return r;
        }
        Task<Result<void>> del(Partition& p, std::string k)
        {
            size_t id = writes.size();
            writes.push_back({k, std::nullopt, j.log.size()});
            auto r = co_await p.del(k);
            writes[id].ret = j.log.size();
            if (r.has_value()) writes[id].end = j.log.size();
            co_return r;
        }
        Task<Result<void>> sync(Partition& p)
        {
            size_t at = j.log.size();
            auto r = co_await p.sync();
            if (r.has_value()) syncs.push_back({at, j.log.size(), life});
            co_return r;
        }
        // a close that succeeds makes everything durable, too
        Task<Result<void>> close(Partition& p)
        {
            size_t at = j.log.size();
            auto r = co_await p.async_close();
            if (r.has_value()) syncs.push_back({at, j.log.size(), life});
            co_return r;
        }
        bool durable(const Write& w, size_t n, bool lazy) const
        {
            if (w.end > n) return false;
            if (!lazy) return true;
            for (auto& s: syncs)
                if (s.start >= w.end && s.end <= n && w.start >= s.life) return true;
            return false;
        }
        // what may be read after a crash that followed the first n file operations
        std::set<std::optional<std::string>> allowed(const std::string& k, size_t n, bool lazy) const
        {
            std::set<std::optional<std::string>> out;
            auto superseded = [&](size_t i) {  // by a durable write that came after it
                for (size_t o = 0; o < writes.size(); o++)
                    if (o != i && writes[o].key == k && durable(writes[o], n, lazy) && (i == ~size_t{0} || (o > i && writes[i].ret != ~size_t{0} && writes[o].start >= writes[i].ret))) return true;
                return false;
            };
            for (size_t i = 0; i < writes.size(); i++)
                if (writes[i].key == k && (writes[i].start < n || writes[i].end <= n) && !superseded(i)) out.insert(writes[i].value);
            if (!superseded(~size_t{0}))
            {
                if (auto it = before.find(k); it != before.end())
                    out.insert(it->second.begin(), it->second.end());
                else
                    out.insert(std::nullopt);
            }
            return out;
        }
        std::string describe(size_t n) const
        {
            std::string s;
            for (auto& w: writes)
                s += (w.value ? "put(" : "del(") + w.key + (w.value ? "," + std::to_string(w.value->size()) : std::string()) + (w.end == ~size_t{0} && w.ret != w.end ? ") failed" : ")") + (w.end <= n ? " " : w.start < n ? "? " : "- ");
            return s + "crash after " + std::to_string(n) + " of " + std::to_string(j.log.size());
        }
    };
    // what an opened store says about every key must be allowed; returns it
    inline Task<Model> inspect(Partition& p, const std::map<std::string, std::set<std::optional<std::string>>>& allowed, std::string when)
    {
        Model m;
        for (auto& [k, ok]: allowed)
        {
            auto got = co_await must_get(p, k, when.c_str());
            if (!ok.contains(got))
            {
                std::string want;
                for (auto& o: ok) want += (want.empty() ? "" : " or ") + show(o);
                mc::fail("%s: '%s' reads %s instead of %s", when.c_str(), k.c_str(), show(got).c_str(), want.c_str());
            }
            if (got) m[k] = *got;
        }
        co_return m;
    }
}  // namespace bk
