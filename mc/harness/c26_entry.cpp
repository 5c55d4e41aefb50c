// C26: stored entries decode exactly, or are reported as incomplete or corrupt; decoding stays inside its bytes.
#include "kioh.h"
#include <sys/mman.h>
#include "bitcask/include/entry.h"
#include "crc32c/crc32c.h"
using namespace bitcask;
static kh::AutoSilence as_;

namespace
{
    // bytes that end right before an inaccessible page: reading past them crashes
    struct Edge
    {
        char* base;
        size_t cap;
        explicit Edge(size_t pages = 40)
        {
            cap = pages * 4096;
            base = (char*) mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(base + cap, 4096, PROT_NONE);
        }
        ~Edge() { munmap(base, cap + 4096); }
        std::span<const char> operator()(const char* p, size_t n)
        {
            if (n) memcpy(base + cap - n, p, n);
            return {base + cap - n, n};
        }
        std::span<const char> operator()(const std::vector<char>& v) { return (*this)(v.data(), v.size()); }
    };
    bool corrupt(const kio::Error& e) { return e.category == kio::ErrorCategory::Serialization && (e.value == kio::kIoDataCorrupted || e.value == kio::kIoDeserialization); }
    bool incomplete(const kio::Error& e) { return e.category == kio::ErrorCategory::Serialization && e.value == kio::kIoNeedMoreData; }
    bool same(const DataEntry& a, const DataEntry& b) { return a.timestamp_ns == b.timestamp_ns && a.flag == b.flag && a.key == b.key && a.value == b.value; }
    std::string text(int i)
    {
        static const char* const t[] = {"", "a", "\xff", "ab", "\x7f\x01", "key"};
        if (i == 0) return "";
        if (i == 6) return std::string(1, '\0');
        if (i == 7) return std::string("\0\0a", 3);
        return t[i];
    }
    DataEntry make(int k, int v, uint8_t flag, uint64_t ts)
    {
        std::string val = text(v);
        DataEntry e(text(k), std::vector<char>(val.begin(), val.end()), flag);
        e.timestamp_ns = ts;
        return e;
    }
    void expect_entry(std::span<const char> in, const DataEntry& want, size_t len, const char* what)
    {
        auto r = DataEntry::deserialize(in);
        mc::count_transitions(1);
        MC_CHECK(r.has_value(), "%s: an intact entry of %zu bytes is not decoded", what, len);
        MC_CHECK(same(r->first, want), "%s: decodes to another entry", what);
        MC_CHECK(r->second == len, "%s: %zu bytes consumed instead of %zu", what, (size_t) r->second, len);
        MC_CHECK(r->first.is_tombstone() == ((want.flag & kFlagTombstone) != 0), "%s: tombstone flag", what);
    }
}

SCENARIO(round_trip, {.race_check = false})
{
    Edge edge;
    int k = mc::choose_free(8, "key");
    static const uint64_t stamps[] = {0, 1, 0x0102030405060708ull, ~0ull};
    for (int v = 0; v < 8; v++)
        for (int f = 0; f < 256; f++)
            for (auto ts: stamps)
            {
                DataEntry e = make(k, v, (uint8_t) f, ts);
                auto b = e.serialize();
                expect_entry(edge(b), e, b.size(), "alone");
                auto more = b;
                for (size_t extra: {1, 11, 12, 13, 64})
                {
                    more.resize(b.size() + extra, (char) (extra * 37));
                    expect_entry(edge(more), e, b.size(), "followed by other bytes");
                }
            }
    // lengths around what the encoding and the buffers could treat specially
    for (size_t n: {0u, 1u, 11u, 12u, 13u, 127u, 128u, 254u, 255u, 256u, 257u, 4095u, 4096u, 65534u, 65535u, 65536u, 65537u})
    {
        DataEntry e(text(k) + std::string(k == 5 ? n : 0, 'k'), std::vector<char>(n, (char) n));
        auto b = e.serialize();
        expect_entry(edge(b), e, b.size(), "long");
        auto two = b;
        two.insert(two.end(), b.begin(), b.end());
        expect_entry(std::span<const char>(two).subspan(b.size()), e, b.size(), "second of two");
    }
    mc::outcome("key " + std::to_string(k));
}
// a reader that gets only the beginning must ask for more, at every length
SCENARIO(truncated, {.race_check = false})
{
    Edge edge;
    int k = mc::choose_free(8, "key");
    for (int v = 0; v < 8; v++)
        for (uint8_t f: {kFlagNone, kFlagTombstone})
        {
            DataEntry e = make(k, v, f, 77);
            auto b = e.serialize();
            for (size_t n = 0; n < b.size(); n++)
            {
                auto r = DataEntry::deserialize(edge(b.data(), n));
                mc::count_transitions(1);
                MC_CHECK(!r.has_value(), "%zu of %zu bytes decode as an entry", n, b.size());
                MC_CHECK(incomplete(r.error()), "%zu of %zu bytes: error %d instead of a request for more", n, b.size(), r.error().value);
                // torn write inside a preallocated file: the rest is zeros
                std::vector<char> z(b.begin(), b.begin() + (long) n);
                z.resize(b.size() + 40, 0);
                auto q = DataEntry::deserialize(edge(z));
                if (q.has_value()) MC_CHECK(std::equal(b.begin(), b.end(), z.begin()) && same(q->first, e), "a torn entry (%zu of %zu bytes, then zeros) decodes", n, b.size());
            }
        }
    mc::outcome("key " + std::to_string(k));
}
// every change of one or two bits
SCENARIO(bit_flips, {.race_check = false})
{
    Edge edge;
    int k = mc::choose_free(3, "key"), v = mc::choose_free(3, "value"), pad = mc::choose_free(2, "padding");
    DataEntry e = make(k, v, v == 0 ? kFlagTombstone : kFlagNone, 0x1122334455667788ull);
    const auto good = e.serialize();
    auto b = good;
    b.resize(good.size() + (pad ? 96 : 0), 'z');
    const size_t bits = good.size() * 8;
    auto judge = [&](size_t i, size_t j) {
        auto r = DataEntry::deserialize(edge(b));
        MC_CHECK(!r.has_value(), "an entry with bits %zu and %zu changed still decodes", i, j);
        MC_CHECK(corrupt(r.error()) || incomplete(r.error()), "bits %zu and %zu changed: error %d", i, j, r.error().value);
        if (i >= 96 && j >= 96) MC_CHECK(corrupt(r.error()), "payload bits %zu and %zu changed: not reported as corrupt", i, j);
    };
    for (size_t i = 0; i < bits; i++)
    {
        b[i / 8] ^= (char) (1 << (i % 8));
        judge(i, i);
        for (size_t j = i + 1; j < bits; j++)
        {
            b[j / 8] ^= (char) (1 << (j % 8));
            judge(i, j);
            b[j / 8] ^= (char) (1 << (j % 8));
        }
        b[i / 8] ^= (char) (1 << (i % 8));
        mc::count_transitions(bits - i);
    }
    mc::outcome("ok");
}
// a changed byte anywhere in a long entry
SCENARIO(flips_long, {.horizon = 1000000000, .race_check = false})
{
    Edge edge;
    static const struct { size_t key, value, stride; } shapes[] = {{300, 0, 1}, {3, 2000, 1}, {3, 5000, 1}, {5000, 5, 1}, {40, 70000, 53}};
    const auto& sh = shapes[mc::choose_free(5, "shape")];
    const size_t bit = (size_t) mc::choose_free(8, "bit");
    DataEntry e(std::string(sh.key, 'k'), std::vector<char>(sh.value), kFlagNone);
    for (size_t i = 0; i < sh.value; i++) e.value[i] = (char) (i * 7 + i / 251);
    e.timestamp_ns = 3;
    const auto good = e.serialize();
    expect_entry(edge(good), e, good.size(), "long");
    auto at = [&](size_t i) {
        auto in = edge(good);
        const_cast<char*>(in.data())[i] ^= (char) (1 << bit);
        auto r = DataEntry::deserialize(in);
        mc::count_transitions(1);
        MC_CHECK(!r.has_value(), "an entry of %zu bytes with bit %zu of byte %zu changed still decodes", good.size(), bit, i);
        MC_CHECK(corrupt(r.error()) || incomplete(r.error()), "bit %zu of byte %zu changed: error %d", bit, i, r.error().value);
        if (i >= 12) MC_CHECK(corrupt(r.error()), "payload byte %zu changed: not reported as corrupt", i);
    };
    for (size_t i = 0; i < good.size(); i += i < 64 || i + 64 > good.size() ? 1 : sh.stride) at(i);
    mc::outcome("ok");
}
// the length field can claim anything
SCENARIO(claimed_lengths, {.race_check = false})
{
    Edge edge;
    int v = mc::choose_free(8, "value"), pad = mc::choose_free(5, "padding");
    DataEntry e = make(2, v, kFlagNone, 5);
    const auto good = e.serialize();
    auto b = good;
    b.resize(good.size() + (size_t[]){0, 1, 11, 12, 60}[pad], 0);
    std::vector<uint64_t> claims;
    for (uint64_t c = 0; c < b.size() + 20; c++) claims.push_back(c);
    for (int s = 0; s < 64; s++)
        for (int d = -14; d <= 14; d++) claims.push_back((1ull << s) + (uint64_t) (int64_t) d);
    for (uint64_t c = 0; c < 64 + b.size(); c++) claims.push_back(~0ull - c);
    for (auto c: claims)
    {
        memcpy(b.data() + 4, &c, 8);
        auto r = DataEntry::deserialize(edge(b));
        mc::count_transitions(1);
        if (c == good.size() - 12)
        {
            MC_CHECK(r.has_value() && same(r->first, e), "the intact entry is rejected");
            continue;
        }
        MC_CHECK(!r.has_value(), "an entry of %zu bytes claiming %llu decodes", good.size(), (unsigned long long) c);
        if (c > b.size() - 12) MC_CHECK(incomplete(r.error()), "claims %llu, %zu there: error %d", (unsigned long long) c, b.size() - 12, r.error().value);
        else MC_CHECK(corrupt(r.error()), "claims %llu, %zu there: error %d", (unsigned long long) c, b.size() - 12, r.error().value);
    }
    mc::outcome("ok");
}
// what is not an entry at all: zeros (preallocated space), ones, short strings over a few bytes
SCENARIO(junk, {.race_check = false})
{
    Edge edge;
    int fill = mc::choose_free(3, "fill");
    std::vector<char> b;
    for (size_t n = 0; n < 200; n++)
    {
        b.assign(n, (char[]){0, 1, -1}[fill]);
        auto r = DataEntry::deserialize(edge(b));
        MC_CHECK(!r.has_value(), "%zu bytes of %d decode as an entry", n, fill);
        if (n <= 12) MC_CHECK(incomplete(r.error()), "%zu bytes of junk: error %d", n, r.error().value);
    }
    // a payload with a right checksum that is not an entry
    for (size_t n = 0; n < 64; n++)
        for (int c = 0; c < 256; c++)
        {
            std::vector<char> p(n, (char) c), x(12);
            uint32_t crc = crc32c::Crc32c(p.data(), p.size());
            uint64_t len = n;
            memcpy(x.data(), &crc, 4);
            memcpy(x.data() + 4, &len, 8);
            x.insert(x.end(), p.begin(), p.end());
            x.resize(x.size() + 3);
            auto r = DataEntry::deserialize(edge(x));
            mc::count_transitions(1);
            MC_CHECK(!r.has_value() && corrupt(r.error()), "a payload of %zu x %d decodes", n, c);
        }
    mc::outcome("ok");
}
// hint entries have no checksum: they round-trip, say when they are cut short, and never read beyond
SCENARIO(hints, {.horizon = 1000000000, .race_check = false})
{
    Edge edge;
    int k = mc::choose_free(9, "key");
    std::string key = k == 8 ? std::string(300, 'x') : text(k);
    static const uint64_t nums[] = {0, 1, 255, 256, 1ull << 32, ~0ull};
    for (auto ts: nums)
        for (auto pos: nums)
            for (uint32_t sz: {0u, 1u, 0xffffffffu})
            {
                mc::Trial trial("hint");
                HintEntry h(ts, pos, sz, std::string(key));
                auto b = h.serialize();
                auto judge = [&](std::span<const char> in) {
                    auto r = HintEntry::deserialize(in);
                    MC_CHECK(r.has_value() && r->timestamp_ns == ts && r->entry_pos == pos && r->total_sz == sz && r->key == key, "a hint entry does not round-trip");
                };
                judge(edge(b));
                auto more = b;
                more.resize(b.size() + 9, 'q');
                judge(edge(more));
                for (size_t n = 0; n < b.size(); n++)
                {
                    MC_CHECK(!HintEntry::deserialize(edge(b.data(), n)).has_value(), "%zu of %zu bytes decode as a hint", n, b.size());
                    mc::count_transitions(1);
                }
                for (size_t i = 0; i < b.size() * 8; i++)
                {
                    b[i / 8] ^= (char) (1 << (i % 8));
                    (void) HintEntry::deserialize(edge(b));
                    b[i / 8] ^= (char) (1 << (i % 8));
                }
            }
    mc::outcome("ok");
}
