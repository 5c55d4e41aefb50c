// C29: data file ids are unique and increase, whatever the clock does.
#include "bitk.h"
#include "bitcask/include/file_id.h"
using namespace bk;
static kh::AutoSilence as_;

namespace
{
    const int64_t sec = 1000000000;
    // a generator asked for ids while the clock moves in any way
    void generator(int depth, bool restart)
    {
        uint16_t part = (uint16_t[]){0, 1, 65535}[mc::choose_free(3, "partition")];
        auto g = std::make_unique<FileIdGenerator>(part);
        int64_t off = 1700000000 * sec;
        uint64_t last = 0;
        std::string did;
        mc::set_wall_offset(off);
        for (int i = 0; i < depth; i++)
        {
            static const int64_t moves[] = {0, 1, -1, -3600, 100, 86400 * 365};
            static const int counts[] = {1, 2, 65535, 65536, 65537};
            int64_t mv = moves[mc::choose_free(6, "clock")];
            int n = counts[mc::choose_free(5, "ids")];
            off += mv * sec;
            mc::set_wall_offset(off);
            did += "clock" + std::string(mv < 0 ? "" : "+") + std::to_string(mv) + "s, " + std::to_string(n) + " ids; ";
            for (int k = 0; k < n; k++)
            {
                uint64_t id = g->next();
                if (i + k > 0 && id <= last) mc::fail("%s: id %lx after %lx", did.c_str(), (unsigned long) id, (unsigned long) last);
                auto d = FileID::decode(id);
                if (d.partition != part) mc::fail("%s: id %lx belongs to partition %d instead of %d", did.c_str(), (unsigned long) id, d.partition, part);
                if (d.encode() != id) mc::fail("%s: id %lx decodes to another one", did.c_str(), (unsigned long) id);
                last = id;
            }
            if (restart && mc::choose_free(2, "restart"))
            {
                did += "restart; ";
                g = std::make_unique<FileIdGenerator>(part);
                // files are found in any order, with those of other partitions among them
                g->observe(FileID{(uint16_t) (part ^ 1), 0xffffff00u, 7}.encode());
                if (mc::choose_free(2, "order"))
                    g->observe(last), g->observe(last - 1);
                else
                    g->observe(last - 1), g->observe(last);
            }
        }
        mc::outcome("ok");
    }
    std::vector<uint64_t> on_disk(const std::string& dir)
    {
        std::vector<uint64_t> ids;
        for (auto& e: std::filesystem::directory_iterator(dir + "/partition_0"))
        {
            auto n = e.path().filename().string();
            if (n.starts_with("data_") && n.ends_with(".db")) ids.push_back(std::stoull(n.substr(5)));
        }
        return ids;
    }
    // a store that rotates, compacts and is reopened while the clock moves
    Task<void> store(Worker& w, int depth, size_t part)
    {
        auto cfg = config(sc::dir() + "/db", 1);
        make_dirs(cfg.directory, part + 1);
        std::set<uint64_t> given;
        std::string did;
        uint64_t newest = 0;
        int64_t off = 1700000000 * sec;
        fk::set_file_observer(cfg.directory, [&](const fk::FileEv& e) {
            auto name = e.path.substr(e.path.rfind('/') + 1);
            if (e.kind != fk::FileEv::CREATE || !name.starts_with("data_")) return;
            uint64_t id = std::stoull(name.substr(5));
            if (!given.insert(id).second) mc::fail("%s: a file with id %lx was created twice", did.c_str(), (unsigned long) id);
        });
        mc::set_wall_offset(off);
        auto o = co_await open_part(w, cfg, part);
        if (!o.has_value()) mc::fail("not opened");
        auto p = std::move(*o);
        Model m;
        for (int i = 0; i < depth; i++)
        {
            static const int64_t moves[] = {0, 1, -5};
            int64_t mv = moves[mc::choose_free(3, "clock")];
            off += mv * sec;
            mc::set_wall_offset(off);
            did += "clock" + std::string(mv < 0 ? "" : "+") + std::to_string(mv) + "s ";
            int op = mc::choose_free(4, "op");
            std::string k = op == 0 ? "a" : "b";
            if (op < 2)
            {
                did += "put(" + k + "); ";
                m[k] = "v" + std::to_string(i);
                if (!(co_await p->put(std::string(k), bytes(m[k]))).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else if (op == 2)
            {
                did += "compact; ";
                if (!(co_await p->compact()).has_value()) mc::fail("%s: failed", did.c_str());
            }
            else
            {
                did += "reopen; ";
                if (!(co_await p->async_close()).has_value()) mc::fail("%s: close failed", did.c_str());
                p.reset();
                auto again = co_await open_part(w, cfg, part);
                if (!again.has_value()) mc::fail("%s: open failed", did.c_str());
                p = std::move(*again);
            }
            // what is written now goes to the newest file
            uint64_t active = p->active_file_id();
            for (auto id: given)
                if (id > active) mc::fail("%s: the active file is %lx although there is a newer %lx", did.c_str(), (unsigned long) active, (unsigned long) id);
            if (active < newest) mc::fail("%s: the active file went from %lx to %lx", did.c_str(), (unsigned long) newest, (unsigned long) active);
            newest = active;
            if (FileID::decode(active).partition != part) mc::fail("%s: an id of partition %d in partition %zu", did.c_str(), FileID::decode(active).partition, part);
            co_await expect(*p, m, {"a", "b"}, did.c_str());
        }
        (void) co_await p->async_close();
        co_return;
    }
    void stores(int depth, size_t part = 0)
    {
        sc::fresh();
        on_worker([&](Worker& w) { return store(w, depth, part); });
        mc::outcome("ok");
    }
}
SCENARIO(generator_2, {.horizon = 10000000, .race_check = false}) { generator(2, false); }
SCENARIO(restarts_2, {.horizon = 10000000, .race_check = false}) { generator(2, true); }
SCENARIO(generator_3, {.horizon = 10000000, .race_check = false}) { generator(3, true); }
// ids of different partitions, seconds and sequence numbers never coincide, and are ordered by time
SCENARIO(encoding, {.horizon = 10000000, .race_check = false})
{
    static const uint16_t parts[] = {0, 1, 255, 256, 32768, 65535};
    static const uint32_t secs[] = {0, 1, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu};
    static const uint16_t seqs[] = {0, 1, 255, 256, 32767, 32768, 65535};
    std::map<uint64_t, std::array<uint64_t, 3>> seen;
    for (auto p: parts)
        for (auto s: secs)
            for (auto q: seqs)
            {
                uint64_t id = FileID{p, s, q}.encode();
                auto d = FileID::decode(id);
                if (d.partition != p || d.timestamp_sec != s || d.sequence != q) mc::fail("%d/%u/%d decodes to %d/%u/%d", p, s, q, d.partition, d.timestamp_sec, d.sequence);
                if (!seen.insert({id, {p, s, q}}).second) mc::fail("two files share the id %lx", (unsigned long) id);
            }
    for (auto& [a, ka]: seen)
        for (auto& [b, kb]: seen)
        {
            bool want = std::pair(ka[1], ka[2]) < std::pair(kb[1], kb[2]);
            if (file_id_compare_by_time(a, b) != want) mc::fail("%lx and %lx are ordered wrongly", (unsigned long) a, (unsigned long) b);
            if (ka[0] == kb[0] && (a < b) != want) mc::fail("%lx and %lx of one partition do not compare by time", (unsigned long) a, (unsigned long) b);
        }
    mc::outcome("ok");
}
SCENARIO(store_3, {.race_check = false}) { stores(3); }
SCENARIO(store_4, {.race_check = false}) { stores(4); }
SCENARIO(other_partition_3, {.race_check = false}) { stores(3, 2); }
SCENARIO(store_5, {.race_check = false}) { stores(5); }
