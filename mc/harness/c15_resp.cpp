// C15: the RESP parser accepts exactly well-formed frames and is safe on everything else.
#include "resp_ref.h"

namespace
{
    using namespace rr;
    constexpr mc::Options seq{.race_check = false};

    struct Stat
    {
        uint64_t n[6] = {};
        void add(const Res& r) { n[r.v]++; }
        ~Stat() = default;
        void report(const char* what)
        {
            uint64_t t = 0;
            for (auto x: n) t += x;
            mc::count_states(t);
            mc::count_transitions(t);
            mc::outcome(std::string(what) + ": accepted " + std::to_string(n[Ok]) + " rejected " + std::to_string(n[Bad]) + " prefixes " + std::to_string(n[More]) + " open " + std::to_string(n[Maybe]) + " loose " +
                        std::to_string(n[Loose]));
        }
    };
    // Parse `in` placed at the very end of the parser's buffer, so that a read beyond it is a heap
    // overflow, and again with hostile bytes behind it.
    Res run(std::string_view in, const ParserConfig& base = {}, bool twice = true)
    {
        mc::Trial t("parser");
        ParserConfig cfg = base;
        cfg.initial_buffer = in.size();
        Parser p(cfg);
        feed(p, in);
        auto r = judge(p, in, cfg);
        if (twice)
        {
            cfg.initial_buffer = in.size() + 24;
            Parser q(cfg);
            auto w = q.buffer().writable_span();
            for (size_t i = 0; i < w.size(); i++) w[i] = "\n\r\n1\r\n:1\r\n\r\n+\r\n"[i % 16];
            feed(q, in);
            judge(q, in, cfg);
        }
        r.n.kids.clear();
        r.n.kids.shrink_to_fit();
        r.n.payload = {};
        return r;
    }
    const std::string alphabet = std::string("+-:_#,($!=*%~>|\r\n012tx");

    void strings(const std::string& prefix, int more, Stat& st, const std::string& alpha)
    {
        std::string s = prefix;
        s.resize(prefix.size() + (size_t) more);
        std::vector<size_t> idx((size_t) more, 0);
        for (;;)
        {
            for (int i = 0; i < more; i++) s[prefix.size() + (size_t) i] = alpha[idx[(size_t) i]];
            st.add(run(s, {}, false));
            int k = more - 1;
            while (k >= 0 && ++idx[(size_t) k] == alpha.size()) idx[(size_t) k--] = 0;
            if (k < 0) break;
        }
    }
    void all_strings(int len, const std::string& alpha)
    {
        Stat st;
        int a = mc::choose_free((int) alpha.size(), "first byte");
        int b = mc::choose_free((int) alpha.size(), "second byte");
        std::string pre{alpha[(size_t) a], alpha[(size_t) b]};
        if (a == 0 && b == 0) st.add(run(""));
        if (b == 0) st.add(run(pre.substr(0, 1)));
        for (int l = 0; l <= len - 2; l++) strings(pre, l, st, alpha);
        st.report((show(pre) + "...").c_str());
    }
    const std::vector<std::string> tokens = {"*1\r\n", "*2\r\n", "*0\r\n", "%1\r\n", "~1\r\n", ">1\r\n", "|1\r\n", "$1\r\n", "$0\r\n", "$-1\r\n", "$2\r\n", "=1\r\n", "!2\r\n", "\r\n", "\r", "\n", "a", ":1\r\n", "+\r\n", "#t\r\n", "_\r\n", "*", "$", "-1\r\n", "*-1\r\n", "$-2\r\n"};
    void token_strings(int len)
    {
        Stat st;
        auto n = (int) tokens.size();
        int a = mc::choose_free(n, "first token"), b = mc::choose_free(n, "second token");
        std::vector<int> idx((size_t) len - 2, 0);
        for (;;)
        {
            {
                std::string s = tokens[(size_t) a] + tokens[(size_t) b];
                s.reserve(64);
                for (int i: idx) s += tokens[(size_t) i];
                st.add(run(s, {}, true));
            }
            int k = len - 3;
            while (k >= 0 && ++idx[(size_t) k] == n) idx[(size_t) k--] = 0;
            if (k < 0) break;
        }
        st.report((show(tokens[(size_t) a] + tokens[(size_t) b]) + "...").c_str());
    }
    std::vector<std::string>* corpus(int budget)
    {
        static std::vector<std::string>* c[8];
        if (!c[budget])
        {
            mc::Persistent keep;
            c[budget] = new std::vector<std::string>;
            frames(budget, *c[budget]);
        }
        return c[budget];
    }
    void mutations(int budget, size_t parts)
    {
        auto& c = *corpus(budget);
        Stat st;
        size_t part = (size_t) mc::choose_free((int) parts, "share of the corpus");
        const std::string repl = alphabet + std::string("a9\0\xff", 4);
        for (size_t i = part; i < c.size(); i += parts)
        {
            auto& s = c[i];
            auto r = run(s);
            MC_CHECK(r.v == Ok, "corpus frame %s not valid", show(s).c_str());
            st.add(r);
            st.add(run(s + "+tail\r\n"));
            std::string m;
            m.reserve(s.size() + 2);
            for (size_t k = 0; k < s.size(); k++)
            {
                m.assign(s, 0, k);
                st.add(run(m));  // truncated
                m.assign(s);
                m.erase(k, 1);
                st.add(run(m));
                for (char ch: repl)
                {
                    if (ch == s[k]) continue;
                    m.assign(s);
                    m[k] = ch;
                    st.add(run(m));
                    m.assign(s);
                    m.insert(k, 1, ch);
                    st.add(run(m));
                }
            }
        }
        st.report(("corpus part " + std::to_string(part)).c_str());
    }
}  // namespace

SCENARIO(strings_6, seq) { all_strings(6, alphabet); }
SCENARIO(strings_5, seq) { all_strings(5, alphabet); }
SCENARIO(strings_8, seq) { all_strings(8, "*$:1\r\n"); }
SCENARIO(tokens_6, seq) { token_strings(6); }
SCENARIO(tokens_5, seq) { token_strings(5); }
SCENARIO(mutations_4, seq) { mutations(4, 64); }
SCENARIO(mutations_3, seq) { mutations(3, 64); }
SCENARIO(numbers, seq)
{
    // every length/count/integer field around the limits of its type
    static const char* nums[] = {"", "-", "+", "0", "-0", "+0", "00", "1", "-1", "-2", "+1", "01", "2147483647", "2147483648", "4294967295", "4294967296", "4611686018427387904", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                                 "18446744073709551615", "18446744073709551614", "18446744073709551616", "99999999999999999999999", "0x1", "1 ", " 1", "1.0", "1e3", "1,2", "--1", "+-1", "-+1", "++1", "1-", "inf", "-inf", "+inf", "nan", "1.", ".5", "-.5", "+.5", "1e", "1e+", "1e-5", "1E5", "e5", ".", "-.", "1.5.5",
                                 "1e5e5", "1.5e+10", "-1.5e-300", "+1.5E+300", "3.141592653589793", "1.7976931348623157e308", "-2.2250738585072014e-308", "123456789012345678", "0.000000000000000000001", "1e0000000001", "12345.6789e-3", "1.5e+1x", "12345678e", "1234567.e+",
                                 "123456789.", "-.123456789", "9223372036854775806", "+9223372036854775807", "+9223372036854775808", "-9223372036854775807", "-0000000000000000000000001", "00000000000000000000000000000007", "123456789012345678901234567890123456789012345678901234567890",
                                 "-123456789012345678901234567890", "+123456789012345678901234567890x", "infinity", "-nan", "INF", "NaN", "+nan", "0b1", "1_000", "t",  "f", "T", "true", "tt", "tf"};
    Stat st;
    for (char t: std::string("+-:_#,($!=*%~>|x"))
        for (auto* n: nums)
            for (auto* tail: {"", ":1\r\n", ":1\r\n:1\r\n", "\r\n", "a\r\n", "ab\r\n"})
                for (int nest = 0; nest < 2; nest++)
                {
                    std::string s = nest ? "*1\r\n" : "";
                    s += t;
                    s += n;
                    s += "\r\n";
                    s += tail;
                    st.add(run(s));
                }
    st.report("numbers");
}
SCENARIO(size_limit, seq)
{
    Stat st;
    for (size_t max: {0, 1, 2, 3, 5, 1000})
        for (size_t len = 0; len <= 7; len++)
            for (char t: std::string("$!="))
                for (size_t have = 0; have <= len + 2; have++)
                    for (int nest = 0; nest < 2; nest++)
                    {
                        ParserConfig cfg;
                        cfg.max_size = max;
                        std::string s = (nest ? "*1\r\n" : "") + std::string(1, t) + std::to_string(len) + "\r\n";
                        s += (std::string("abc:ef\n", len) + "\r\n").substr(0, have);
                        st.add(run(s, cfg));
                    }
    st.report("size limit");
}
SCENARIO(depth_limit, seq)
{
    Stat st;
    for (size_t max: {0, 1, 2, 3, 32})
        for (size_t depth = 0; depth <= 40; depth++)
            for (auto* open: {"*1\r\n", "%1\r\n:0\r\n", "~2\r\n:0\r\n", ">1\r\n", "|1\r\n+k\r\n"})
                for (auto* leaf: {":1\r\n", "$1\r\na\r\n"})
                {
                    ParserConfig cfg;
                    cfg.max_aggregate_depth = max;
                    std::string s;
                    for (size_t i = 0; i < depth; i++) s += open;
                    s += leaf;
                    st.add(run(s, cfg));
                }
    st.report("depth limit");
}
SCENARIO(hostile_depth, seq)
{
    // nesting far beyond the limit must be refused without exhausting the stack
    for (auto* open: {"*1\r\n", "%1\r\n", "|9\r\n", "*9223372036854775807\r\n", "%9223372036854775807\r\n"})
    {
        mc::Trial t("parser");
        std::string s;
        s.reserve(1 << 20);
        for (int i = 0; i < 20000; i++) s += open;
        ParserConfig cfg;
        cfg.initial_buffer = s.size();
        Parser p(cfg);
        feed(p, s);
        auto f = p.next_frame();
        MC_CHECK(!f, "a frame nested 20000 deep was accepted");
        mc::outcome(std::string("refused with error ") + std::to_string((int) f.error()));
    }
}
SCENARIO(wide, seq)
{
    for (size_t n: {0, 1, 50, 1000})
    {
        mc::Trial t("parser");
        std::string s = "*" + std::to_string(n) + "\r\n";
        for (size_t i = 0; i < n; i++) s += i % 2 ? ":1\r\n" : "$3\r\nab\n\r\n";
        ParserConfig cfg;
        cfg.initial_buffer = s.size();
        Parser p(cfg);
        feed(p, s);
        auto r = judge(p, s, cfg);
        MC_CHECK(r.v == Ok, "wide");
    }
    mc::outcome("wide arrays");
}

// every length at which an implementation could change its way of working
SCENARIO(long_frames, {.horizon = 1000000000, .race_check = false})
{
    Stat st;
    static const char kinds[] = "+-$!=(:,";
    char t = kinds[mc::choose_free(8, "type")];
    std::vector<size_t> lens;
    for (size_t i = 1; i < 300; i++) lens.push_back(i);
    for (size_t p = 512; p <= (1u << 17); p *= 2)
        for (int d = -3; d <= 3; d++) lens.push_back(p + (size_t) d);
    lens.push_back(300000);
    for (size_t n: lens)
    {
        if ((t == ',' || t == ':') && n > 300) break;
        mc::Trial trial("frames");
        std::string body(n, 'x');
        if (t == '(' || t == ',' || t == ':')
            for (size_t i = 0; i < n; i++) body[i] = t == ':' && i + 18 < n ? '0' : (char) ('1' + i % 9);
        else
        {
            for (size_t i = 0; i < n; i++) body[i] = (char) (i * 31 + i / 256);
            if (rr::simple(t))
                for (auto& c: body)
                    if (c == '\r' || c == '\n') c = 'y';
            if (t == '=') body.replace(0, 4, "txt:");
        }
        auto whole = [&](std::string b, const char* end) { return std::string(1, t) + (rr::bulk(t) ? std::to_string(b.size()) + "\r\n" : "") + b + end; };
        st.add(run(whole(body, "\r\n")));
        st.add(run(whole(body, "\r\n:1\r\n")));
        st.add(run(whole(body, "\r")));
        st.add(run(whole(body, "")));
        st.add(run("*2\r\n" + whole(body, "\r\n") + ":1\r\n"));
        st.add(run("*2\r\n:1\r\n" + whole(body, "\r\n")));
        if (rr::bulk(t))
        {
            st.add(run(whole(body, "\n\r")));
            st.add(run(whole(body, "\r\r")));
            st.add(run(whole(body, "xx\r\n")));
            auto head = std::string(1, t) + std::to_string(body.size()) + "\r\n";
            st.add(run(head + body.substr(1) + "\r\n"));       // one byte short
            st.add(run(head + body.substr(1) + "\r\n+a\r\n")); // and something behind it
            st.add(run(head));
            st.add(run(head + body.substr(0, body.size() / 2)));
        }
        if (t == '(')
            for (size_t at: {size_t(0), n / 2, n - 1})
                for (char bad: {'x', '-', '.', ' '})
                {
                    auto b = body;
                    b[at] = bad;
                    st.add(run(whole(b, "\r\n")));
                }
    }
    // any byte in a payload
    for (int c = 0; c < 256; c++)
        for (size_t at: {size_t(0), size_t(4), size_t(9)})
        {
            std::string b = rr::simple(t) || rr::bulk(t) ? "txt:abcdef" : "1234567890";
            b[at] = (char) c;
            st.add(run(std::string(1, t) + (rr::bulk(t) ? "10\r\n" : "") + b + "\r\n"));
        }
    st.report((std::string("type ") + t).c_str());
}
SCENARIO(wide_frames, {.horizon = 1000000000, .race_check = false})
{
    Stat st;
    char t = "*%~>|"[mc::choose_free(5, "type")];
    std::vector<size_t> counts;
    for (size_t i = 0; i < 70; i++) counts.push_back(i);
    for (size_t p = 128; p <= 8192; p *= 2)
        for (int d = -2; d <= 2; d++) counts.push_back(p + (size_t) d);
    for (size_t n: counts)
        for (auto* kid: {":1\r\n", "$3\r\nab\n\r\n", "*1\r\n_\r\n"})
        {
            if (n > 300 && kid[0] != ':') continue;
            mc::Trial trial("frames");
            std::string head = std::string(1, t) + std::to_string(n) + "\r\n", s = head;
            size_t kids = t == '%' || t == '|' ? 2 * n : n;
            for (size_t i = 0; i < kids; i++) s += kid;
            st.add(run(s));
            st.add(run(s + kid));
            st.add(run("*2\r\n" + s + "+x\r\n"));
            if (!n) continue;
            st.add(run(s.substr(0, s.size() - 1)));
            st.add(run(s.substr(0, s.size() - strlen(kid))));  // the last child missing
            auto bad = s;
            bad[s.size() - strlen(kid)] = '?';                  // the last child unknown
            st.add(run(bad));
            bad = s;
            bad[head.size()] = '?';
            st.add(run(bad));
        }
    st.report((std::string("aggregates ") + t).c_str());
}
