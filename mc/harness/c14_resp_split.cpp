// C14: parsing does not depend on how the bytes arrive.  Each stream is fed to the real parser at
// once and in every way of cutting it; frames, payloads, errors and consumed bytes must agree.
#include "resp_ref.h"

namespace
{
    using namespace rr;
    constexpr mc::Options seq{.race_check = false};

    // What a consumer sees: the frames one by one, then the final verdict on the rest.
    struct Trace
    {
        std::string text;       // a rendering of every frame consumed and the final state
        void frame(Parser& p, const FrameHeader& f)
        {
            text += (char) f.type;
            text += std::to_string(f.size) + "/" + std::to_string(f.element_count);
            body(p, f);
            text += ";";
        }
        void body(Parser& p, const FrameHeader& f)
        {
            if (f.type == FrameType::BulkString || f.type == FrameType::BulkError || f.type == FrameType::VerbatimString) text += get_bulk_payload(f);
            else if (f.element_count == 0) text += get_simple_payload(f);
            else
            {
                FrameIterator it(f, p);
                text += "[";
                while (it.has_next())
                {
                    auto c = it.next();
                    MC_CHECK(c.has_value(), "iterator refused a child of an accepted frame");
                    text += (char) c->type;
                    body(p, *c);
                    text += ",";
                }
                text += "]";
            }
        }
    };
    struct Consumer
    {
        Parser p;
        Trace t;
        bool dead = false;
        std::string error;
        int how = 0;
        explicit Consumer(const ParserConfig& c) : p(c) {}
        // every way a user can take a frame out of the input
        void take(const FrameHeader& f)
        {
            switch (how)
            {
                case 0: p.consume(f); return;
                case 1: p.consume(f.size); return;
                case 2: p.buffer().advance(f.size); return;
                default:
                    p.consume(f.size - f.size / 2);
                    p.consume(f.size / 2);
            }
        }
        // the loop every user of the parser writes
        void drain()
        {
            while (!dead)
            {
                auto before = p.buffer().remaining();
                auto f = p.next_frame();
                if (!f)
                {
                    if (f.error() != ParseError::NeedMoreData)
                    {
                        dead = true;
                        error = "error " + std::to_string((int) f.error());
                    }
                    return;
                }
                t.frame(p, *f);
                MC_CHECK(f->size > 0 && f->size <= before, "a frame of %zu bytes was reported in %zu bytes of input", f->size, before);
                take(*f);
                MC_CHECK(p.buffer().remaining() == before - f->size, "consuming a frame of %zu bytes left %zu of %zu", f->size, p.buffer().remaining(), before);
            }
        }
        std::string result() const { return t.text + (dead ? error : "waiting for more after " + std::to_string(p.buffer().remaining()) + " bytes"); }
    };
    enum Feed
    {
        Extend,
        Span,
        Compacting
    };
    void give(Consumer& c, std::string_view s, Feed how)
    {
        if (how == Extend)
        {
            feed(c.p, s);
            return;
        }
        auto& b = c.p.buffer();
        if (how == Compacting) b.compact();
        b.reserve(s.size());
        auto w = b.writable_span();
        if (!s.empty()) std::memcpy(w.data(), s.data(), s.size());
        b.commit_write(s.size());
    }
    uint64_t runs = 0;
    // feed s[0,c1) s[c1,c2) s[c2,..)
    std::string cut(std::string_view s, const std::vector<size_t>& at, size_t initial, Feed how, bool peek_each = true)
    {
        ParserConfig cfg;
        cfg.initial_buffer = initial;
        Consumer c(cfg);
        c.how = (int) (runs % 4);
        size_t last = 0;
        for (size_t k = 0; k <= at.size(); k++)
        {
            size_t e = k < at.size() ? at[k] : s.size();
            give(c, s.substr(last, e - last), how);
            last = e;
            if (peek_each || k == at.size()) c.drain();
            if (c.dead) break;  // the connection is gone
        }
        runs++;
        return c.result();
    }
    void compare(std::string_view s, const std::string& want, const std::string& got, const std::vector<size_t>& at)
    {
        if (want == got) return;
        std::string c;
        for (auto x: at) c += std::to_string(x) + " ";
        mc::fail("%s: at once gives \"%s\", cut at %sgives \"%s\"", show(s).c_str(), show(want).c_str(), c.c_str(), show(got).c_str());
    }
    // An error may be recognised earlier only if the rest of the input would not have mattered.
    void every_cut(std::string_view s, bool pairs)
    {
        mc::Trial t("parser");
        auto want = cut(s, {}, 256, Extend);
        for (size_t init: {size_t(0), size_t(7)})
        {
            std::vector<size_t> all;
            for (size_t i = 1; i < s.size(); i++) all.push_back(i);
            compare(s, want, cut(s, all, init, Extend), all);
            compare(s, want, cut(s, all, init, Compacting), all);
        }
        for (size_t i = 0; i <= s.size(); i++)
        {
            mc::Trial t2("parser");
            std::vector<size_t> at{i};
            compare(s, want, cut(s, at, i % 3 * 5, i % 2 ? Span : Compacting), at);
        }
        if (!pairs) return;
        for (size_t i = 1; i < s.size(); i++)
            for (size_t j = i; j <= s.size(); j++)
            {
                mc::Trial t2("parser");
                std::vector<size_t> at{i, j};
                compare(s, want, cut(s, at, (i + j) % 4 * 8, (Feed) ((i + j) % 3)), at);
            }
    }
    std::vector<std::string>* corpus(int budget)
    {
        static std::vector<std::string>* c[8];
        if (!c[budget])
        {
            mc::Persistent keep;
            c[budget] = new std::vector<std::string>;
            frames(budget, *c[budget]);
        }
        return c[budget];
    }
    void report(const std::string& what)
    {
        mc::count_states(runs);
        mc::count_transitions(runs);
        mc::outcome(what + ": " + std::to_string(runs) + " feedings");
        runs = 0;
    }
    // every proper prefix asks for more; the whole is delivered at its last byte
    void prefixes(const std::string& s)
    {
        mc::Trial t("parser");
        ParserConfig cfg;
        cfg.initial_buffer = 0;
        Parser p(cfg);
        for (size_t i = 0; i < s.size(); i++)
        {
            auto f = p.next_frame();
            MC_CHECK(!f && f.error() == ParseError::NeedMoreData, "%s: its first %zu bytes are %s", show(s).c_str(), i, f ? "accepted as a frame" : "rejected");
            p.buffer().extend_from_slice({s.data() + i, 1});
        }
        runs++;
        judge(p, s, cfg);
        auto f = p.next_frame();
        MC_CHECK(f && f->size == s.size(), "%s: not delivered with its last byte", show(s).c_str());
    }
    void streams(int b1, int b2, size_t parts, bool pairs)
    {
        auto& x = *corpus(b1);
        auto& y = *corpus(b2);
        static const char* tails[] = {"", "*2\r\n:1\r\n$5\r\nab", ":x\r\n", "?\r\n+OK\r\n", "$2\r\nabc\r\n"};
        size_t part = (size_t) mc::choose_free((int) parts, "share");
        for (size_t i = part; i < x.size(); i += parts)
        {
            prefixes(x[i]);
            for (size_t k = 0; k < y.size(); k++)
            {
                mc::Trial t("stream");
                every_cut(x[i] + y[k] + tails[(i + k) % 5], pairs && x[i].size() + y[k].size() < 40);
            }
        }
        report("streams " + std::to_string(part));
    }
}  // namespace

SCENARIO(single_frames, seq)
{
    auto& c = *corpus(4);
    size_t part = (size_t) mc::choose_free(64, "share");
    for (size_t i = part; i < c.size(); i += 64)
    {
        prefixes(c[i]);
        every_cut(c[i], true);
    }
    report("frames " + std::to_string(part));
}
SCENARIO(two_frames, seq) { streams(2, 1, 64, true); }
SCENARIO(two_frames_deep, seq) { streams(3, 2, 64, true); }
SCENARIO(strings, seq)
{
    const std::string alpha = "+:_#*$%\r\n01ta";
    int a = mc::choose_free((int) alpha.size(), "first byte"), b = mc::choose_free((int) alpha.size(), "second byte");
    std::string s{alpha[(size_t) a], alpha[(size_t) b], 'x', 'x', 'x'};
    for (size_t i = 0; i < alpha.size(); i++)
        for (size_t j = 0; j < alpha.size(); j++)
            for (size_t k = 0; k < alpha.size(); k++)
            {
                s[2] = alpha[i];
                s[3] = alpha[j];
                s[4] = alpha[k];
                every_cut(s, true);
            }
    report(show(s.substr(0, 2)) + "...");
}
SCENARIO(token_strings, seq)
{
    static const std::vector<std::string> tokens = {"*1\r\n", "*2\r\n", "%1\r\n", "$1\r\n", "$0\r\n", "$-1\r\n", "$3\r\n", "\r\n", "\r", "\n", "a", ":1\r\n", "+\r\n", "#t\r\n", "*0\r\n", "$", "-1\r\n"};
    auto n = tokens.size();
    auto a = (size_t) mc::choose_free((int) n, "first token"), b = (size_t) mc::choose_free((int) n, "second token");
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
        {
            mc::Trial t("stream");
            every_cut(tokens[a] + tokens[b] + tokens[i] + tokens[j], true);
        }
    report(show(tokens[a] + tokens[b]) + "...");
}
SCENARIO(long_stream, seq)
{
    // many frames through a small buffer: growth and compaction while a frame is incomplete
    size_t chunk = 1 + (size_t) mc::choose_free(64, "chunk size");
    mc::Trial t("stream");
    std::string s;
    for (int i = 0; i < 40; i++) s += i % 3 == 0 ? "*2\r\n$3\r\nGET\r\n$" + std::to_string(i) + "\r\n" + std::string((size_t) i, (char) ('a' + i % 26)) + "\r\n" : i % 3 == 1 ? ":" + std::to_string(i * 7919) + "\r\n" : "%1\r\n+k" + std::to_string(i) + "\r\n#t\r\n";
    s += "$1500\r\n" + std::string(1500, 'z') + "\r\n+end\r\n$3\r\nab";
    auto want = cut(s, {}, 8192, Extend);
    for (size_t init: {size_t(0), size_t(16), size_t(1024)})
        for (auto how: {Extend, Span, Compacting})
        {
            mc::Trial t2("stream");
            std::vector<size_t> at;
            for (size_t i = chunk; i < s.size(); i += chunk) at.push_back(i);
            compare(s, want, cut(s, at, init, how), at);
        }
    report("chunk " + std::to_string(chunk));
}

// long frames, cut anywhere: growth, moves and rescans of large buffers
SCENARIO(long_frames, {.horizon = 1000000000, .race_check = false})
{
    std::vector<std::string> all;
    auto bytes = [](size_t n) {
        std::string b(n, 0);
        for (size_t i = 0; i < n; i++) b[i] = (char) (i * 31 + i / 256);
        return b;
    };
    auto bulk = [&](char t, size_t n) { return std::string(1, t) + std::to_string(n) + "\r\n" + bytes(n) + "\r\n"; };
    for (size_t n: {300, 1019, 1024, 2500, 4090, 4096, 4200}) all.push_back(bulk('$', n));
    all.push_back(bulk('!', 2000));
    all.push_back(bulk('=', 2000));
    all.push_back("+" + std::string(3000, 'l') + "\r\n");
    all.push_back("(" + std::string(1500, '7') + "\r\n");
    for (auto* head: {"*600\r\n", "~600\r\n", ">600\r\n", "%300\r\n", "|300\r\n"})
    {
        std::string s = head;
        for (int i = 0; i < 600; i++) s += i % 5 == 4 ? "$2\r\n\r\n\r\n" : ":" + std::to_string(i) + "\r\n";
        all.push_back(s);
    }
    all.push_back("*3\r\n$3\r\nSET\r\n$3\r\nkey\r\n" + bulk('$', 4096));
    all.push_back("*2\r\n*2\r\n" + bulk('$', 1500) + bulk('$', 1500) + ":1\r\n");
    all.push_back("%1\r\n" + bulk('$', 2048) + "*2\r\n" + bulk('$', 2048) + "_\r\n");
    auto& f = all[(size_t) mc::choose_free((int) all.size(), "frame")];
    prefixes(f);
    // its neighbours are whole frames and the beginning of one
    const std::string s = "+first\r\n" + f + ":5\r\n" + f.substr(0, f.size() - 1);
    auto want = cut(s, {}, s.size(), Extend);
    for (size_t i = 0; i <= s.size(); i++)
    {
        mc::Trial t("stream");
        std::vector<size_t> at{i};
        compare(s, want, cut(s, at, i % 5 * 700, (Feed) (i % 3)), at);
    }
    for (size_t chunk: {1, 2, 3, 7, 64, 100, 255, 256, 511, 512, 513, 1000, 1024, 1448, 2048, 4095, 4096, 4097})
        for (size_t init: {size_t(0), size_t(512), size_t(4096)})
            for (auto how: {Extend, Span, Compacting})
                for (size_t lead: {size_t(0), size_t(8), size_t(10)})
                {
                    if (chunk < 64 && (init || lead || how == Compacting) ) continue;
                    mc::Trial t("stream");
                    std::vector<size_t> at;
                    for (size_t i = lead + chunk; i < s.size(); i += chunk) at.push_back(i);
                    compare(s, want, cut(s, at, init, how), at);
                }
    report(show(f.substr(0, 20)) + "... of " + std::to_string(f.size()));
}
// very long ones, in pieces the size of a network read
SCENARIO(huge_frames, {.horizon = 1000000000, .race_check = false})
{
    size_t n = (size_t[]){16384, 65530, 65536, 70000, 262144, 1000000}[mc::choose_free(6, "length")];
    std::string b(n, 0);
    for (size_t i = 0; i < n; i++) b[i] = (char) (i * 31 + i / 256);
    for (auto& f: {"$" + std::to_string(n) + "\r\n" + b + "\r\n", "*2\r\n$" + std::to_string(n) + "\r\n" + b + "\r\n:7\r\n"})
    {
        const std::string s = "+first\r\n" + f + ":5\r\n" + f + "$5\r\nab";
        auto want = cut(s, {}, s.size(), Extend);
        for (size_t chunk: {4096, 5000, 16384, 65536, 100000})
            for (size_t init: {size_t(0), size_t(4096)})
                for (auto how: {Extend, Span, Compacting})
                {
                    mc::Trial t("stream");
                    std::vector<size_t> at;
                    for (size_t i = chunk; i < s.size(); i += chunk) at.push_back(i);
                    compare(s, want, cut(s, at, init, how), at);
                }
        for (size_t d = 0; d < 24; d++)
            for (size_t edge: {size_t(8) + f.size(), size_t(8)})
            {
                mc::Trial t("stream");
                std::vector<size_t> at{edge + 12 - d};
                if (edge + 12 < d) continue;
                compare(s, want, cut(s, at, 0, (Feed) (d % 3)), at);
            }
    }
    report("payload of " + std::to_string(n));
}
