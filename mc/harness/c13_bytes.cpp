// C13: BytesMut is a FIFO of bytes.  Explicit-state search over operation sequences: a state is
// (consumed, remaining, writable, capacity) of the real object, reached by replaying its path on a
// fresh object, with a reference queue of bytes judging every step.
#include <cstring>
#include <deque>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

#include "kio/core/bytes_mut.h"
#include "mcrt.h"

namespace
{
    using kio::BytesMut;
    enum Op : int
    {
        Reserve,
        Write,      // fill min(n, writable) bytes of the writable span and commit them
        WriteAll,
        Extend,
        Advance,
        AdvanceAll,
        Peek,
        Compact,
        Clear,
        OverCommit,   // n: how far beyond
        OverCommitHuge,
        OverAdvance,
        OverAdvanceHuge,
        OverPeek,
        OverReserve,
        Copy,
        Move,
        IfCompact,
    };
    struct Step
    {
        Op op;
        size_t n;
    };
    const char* names[] = {"reserve", "write", "write_all", "extend", "advance", "advance_all", "peek", "compact", "clear", "commit beyond", "commit huge", "advance beyond", "advance huge", "peek beyond", "reserve huge", "copy", "move", "compact if useful"};

    struct Model
    {
        std::string bytes;
        unsigned char next = 1;
        size_t room = 0;  // still promised by the last reserve()
        std::string take(size_t n)
        {
            std::string s;
            for (size_t i = 0; i < n; i++)
            {
                s += (char) next;
                next = (unsigned char) (next * 5 + 3);
            }
            return s;
        }
    };
    std::string path_str(const std::vector<Step>& p)
    {
        std::string s;
        for (auto& x: p) s += std::string(names[x.op]) + "(" + std::to_string(x.n) + ") ";
        return s;
    }
    void check(BytesMut& b, const Model& m, const std::vector<Step>& path, const char* when)
    {
        auto where = [&] { return path_str(path) + "- " + when; };
        MC_CHECK(b.remaining() == m.bytes.size(), "%s: remaining() is %zu, %zu bytes are unread", where().c_str(), b.remaining(), m.bytes.size());
        auto r = b.readable_span();
        MC_CHECK(r.size() == m.bytes.size(), "%s: readable_span() has %zu bytes, expected %zu", where().c_str(), r.size(), m.bytes.size());
        MC_CHECK(mc::addressable(r.data(), r.size()), "%s: readable_span() leaves the buffer", where().c_str());
        MC_CHECK(r.empty() || std::memcmp(r.data(), m.bytes.data(), r.size()) == 0, "%s: unread bytes differ from what was written", where().c_str());
        MC_CHECK(b.is_empty() == m.bytes.empty(), "%s: is_empty() wrong", where().c_str());
        auto w = b.writable_span();
        MC_CHECK(w.size() == b.writable(), "%s: writable() %zu but span of %zu", where().c_str(), b.writable(), w.size());
        MC_CHECK(mc::addressable(w.data(), w.size()), "%s: writable_span() leaves the buffer", where().c_str());
        MC_CHECK(w.empty() || r.empty() || w.data() >= r.data() + r.size() || w.data() + w.size() <= r.data(), "%s: writable and readable bytes overlap", where().c_str());
        MC_CHECK(b.writable() >= m.room, "%s: only %zu bytes can be written, %zu are still reserved", where().c_str(), b.writable(), m.room);
        MC_CHECK(b.capacity() >= b.remaining() + b.writable(), "%s: capacity() %zu is less than its contents", where().c_str(), b.capacity());
    }
    template<class Ex, class F>
    void refuses(F f, const std::vector<Step>& path)
    {
        bool thrown = false;
        try
        {
            f();
        }
        catch (const Ex&)
        {
            thrown = true;
        }
        MC_CHECK(thrown, "%s: an impossible length was accepted", path_str(path).c_str());
    }

    void apply(BytesMut& b, Model& m, const Step& s, const std::vector<Step>& path)
    {
        switch (s.op)
        {
            case Reserve:
                b.reserve(s.n);
                m.room = std::max(m.room, s.n);
                MC_CHECK(b.writable() >= s.n, "%s: reserve(%zu) left room for %zu", path_str(path).c_str(), s.n, b.writable());
                break;
            case Write:
            case WriteAll:
            {
                auto w = b.writable_span();
                size_t n = s.op == WriteAll ? w.size() : std::min(s.n, w.size());
                auto d = m.take(n);
                if (n) std::memcpy(w.data(), d.data(), n);
                b.commit_write(n);
                m.room -= std::min(n, m.room);
                m.bytes += d;
                break;
            }
            case Extend:
            {
                auto d = m.take(s.n);
                b.extend_from_slice({d.data(), d.size()});
                m.room -= std::min(s.n, m.room);
                m.bytes += d;
                break;
            }
            case Advance:
            case AdvanceAll:
            {
                size_t n = s.op == AdvanceAll ? m.bytes.size() : std::min(s.n, m.bytes.size());
                b.advance(n);
                m.bytes.erase(0, n);
                break;
            }
            case Peek:
            {
                size_t n = std::min(s.n, m.bytes.size());
                auto p = b.peek(n);
                MC_CHECK(p.size() == n && (n == 0 || std::memcmp(p.data(), m.bytes.data(), n) == 0), "%s: peek differs", path_str(path).c_str());
                break;
            }
            case IfCompact:
                if (!b.should_compact()) break;
                [[fallthrough]];
            case Compact:
                b.compact();
                MC_CHECK(b.consumed() == 0, "%s: %zu consumed bytes left after compaction", path_str(path).c_str(), b.consumed());
                break;
            case Clear:
            {
                auto cap = b.capacity();
                b.clear();
                m.bytes.clear();
                MC_CHECK(b.capacity() == cap, "%s: clear() reallocated", path_str(path).c_str());
                break;
            }
            case OverCommit: refuses<std::exception>([&] { b.commit_write(b.writable() + s.n); }, path); break;
            case OverCommitHuge: refuses<std::exception>([&] { b.commit_write(SIZE_MAX - s.n); }, path); break;
            case OverAdvance: refuses<std::exception>([&] { b.advance(m.bytes.size() + s.n); }, path); break;
            case OverAdvanceHuge: refuses<std::exception>([&] { b.advance(SIZE_MAX - s.n); }, path); break;
            case OverPeek: refuses<std::exception>([&] { (void) b.peek(m.bytes.size() + s.n); }, path); break;
            case OverReserve: refuses<std::exception>([&] { b.reserve(SIZE_MAX - s.n); }, path); break;
            case Copy:
            {
                BytesMut c(b);
                check(c, m, path, "copy");
                b = c;
                break;
            }
            case Move:
            {
                BytesMut c(std::move(b));
                check(c, m, path, "moved-to buffer");
                b = std::move(c);
                break;
            }
        }
    }

    using State = std::tuple<size_t, size_t, size_t, size_t>;
    void search(size_t initial, const std::vector<Step>& ops, int depth, size_t max_live)
    {
        std::set<State> seen;
        std::vector<std::vector<Step>> level;
        {
            mc::Persistent outer;
            level.emplace_back();
        }
        uint64_t trans = 0;
        size_t deepest = 0;
        for (int d = 0; d < depth && !level.empty(); d++)
        {
            std::vector<std::vector<Step>> nextl;
            for (auto& p: level)
            {
                for (auto& o: ops)
                {
                    std::vector<Step> q;
                    std::optional<mc::Persistent> keep(std::in_place);
                    q = p;
                    q.push_back(o);
                    keep.reset();
                    State st;
                    {
                    mc::Trial trial("buffer");
                    BytesMut b = initial == SIZE_MAX ? BytesMut() : BytesMut(initial);
                    Model m;
                    std::vector<Step> sofar;
                    for (auto& s: q)
                    {
                        sofar.push_back(s);
                        apply(b, m, s, sofar);
                        if (sofar.size() == q.size()) check(b, m, sofar, "after");
                    }
                    st = State{b.consumed(), b.remaining(), b.writable(), b.capacity()};
                    }
                    trans++;
                    if (std::get<3>(st) > max_live) continue;  // bound: do not follow ever-growing buffers
                    mc::Persistent outer;
                    if (seen.insert(st).second) nextl.push_back(std::move(q));
                }
            }
            deepest = d + 1;
            mc::Persistent outer;
            level = std::move(nextl);
        }
        mc::count_states(seen.size());
        mc::count_transitions(trans);
        mc::outcome("initial " + std::to_string((long long) initial) + ": " + std::to_string(seen.size()) + " states to depth " + std::to_string(deepest) + (level.empty() ? " (closed)" : ""));
    }
    const std::vector<Step> small_ops = {
        {Reserve, 0}, {Reserve, 1}, {Reserve, 3}, {Reserve, 8}, {Write, 1}, {Write, 2}, {WriteAll, 0}, {Extend, 0}, {Extend, 1}, {Extend, 5}, {Advance, 1}, {Advance, 3}, {AdvanceAll, 0}, {Peek, 0}, {Peek, 2},
        {Peek, 100}, {Compact, 0}, {IfCompact, 0}, {Clear, 0}, {OverCommit, 1}, {OverCommitHuge, 0}, {OverCommitHuge, 1}, {OverCommitHuge, 3}, {OverAdvance, 1}, {OverAdvanceHuge, 0}, {OverAdvanceHuge, 2}, {OverPeek, 1},
        {OverReserve, 0}, {OverReserve, 1}, {OverReserve, 4}, {OverReserve, 12}, {Copy, 0}, {Move, 0}};
    // around the 1024-byte compaction threshold
    const std::vector<Step> large_ops = {{Reserve, 1}, {Reserve, 1023}, {Reserve, 1024}, {Reserve, 2000}, {Write, 700}, {WriteAll, 0}, {Extend, 1}, {Extend, 1024}, {Advance, 1}, {Advance, 511}, {Advance, 1023}, {Advance, 1024}, {AdvanceAll, 0}, {Compact, 0}, {IfCompact, 0}, {Clear, 0}, {Copy, 0}};
    // beyond any step in which the buffer may grow: around 64 KiB, around 1 MiB
    const std::vector<Step> huge_ops = {{Reserve, 1}, {Reserve, 65537}, {Reserve, 1 << 20}, {Write, 70000}, {WriteAll, 0}, {Extend, 1}, {Extend, 65536}, {Extend, 300000}, {Advance, 1}, {Advance, 65536}, {AdvanceAll, 0}, {Compact, 0}, {IfCompact, 0}, {Clear, 0}, {Move, 0}};
}  // namespace

static constexpr mc::Options seq{.race_check = false};

SCENARIO(small_sizes, seq)
{
    static const size_t inits[] = {SIZE_MAX, 0, 1, 2, 4, 5, 8, 16};
    search(inits[mc::choose_free(8, "initial capacity")], small_ops, 7, 40);
}
SCENARIO(small_sizes_deep, seq)
{
    static const size_t inits[] = {SIZE_MAX, 0, 1, 2, 4, 5, 8, 16};
    search(inits[mc::choose_free(8, "initial capacity")], small_ops, 12, 80);
}
SCENARIO(large_sizes, seq)
{
    static const size_t inits[] = {SIZE_MAX, 1024, 1025, 2048, 4096, 4099};
    search(inits[mc::choose_free(6, "initial capacity")], large_ops, 5, 9000);
}
SCENARIO(large_sizes_deep, seq)
{
    static const size_t inits[] = {SIZE_MAX, 1024, 1025, 2048, 4096, 4099};
    search(inits[mc::choose_free(6, "initial capacity")], large_ops, 7, 20000);
}
SCENARIO(huge_sizes, seq)
{
    static const size_t inits[] = {SIZE_MAX, 65535, 65536, 1 << 20};
    search(inits[mc::choose_free(4, "initial capacity")], huge_ops, 3, 1 << 22);
}
SCENARIO(huge_sizes_deep, seq)
{
    static const size_t inits[] = {SIZE_MAX, 65535, 65536, 1 << 20};
    search(inits[mc::choose_free(4, "initial capacity")], huge_ops, 5, 1 << 22);
}
