// An independent reading of the RESP3 grammar, used to judge kio::resp::Parser.
#pragma once
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

#include "kio/resp/parser.h"
#include "mcrt.h"

namespace rr
{
    using namespace kio::resp;
    enum Verdict
    {
        Ok,       // a whole well-formed frame
        Bad,      // can never become a valid frame and the deciding bytes are here
        More,     // a proper prefix of a valid frame
        Maybe,    // incomplete, and not known to be a prefix of a valid frame: more or an error
        Any,      // not judged: a length spelled -0, -01, +5
        Loose,    // the specifications disagree or say nothing: a frame of `size`, or an error
    };
    struct Node
    {
        char type = 0;
        size_t off = 0, size = 0, count = 0;
        std::string_view payload;
        bool null_bulk = false;
        std::vector<Node> kids;
    };
    struct Res
    {
        Verdict v;
        Node n;
    };
    inline bool digits(std::string_view s)
    {
        if (s.empty()) return false;
        for (char c: s)
            if (c < '0' || c > '9') return false;
        return true;
    }
    inline std::string_view unsign(std::string_view s, bool plus = true)
    {
        if (!s.empty() && (s[0] == '-' || (plus && s[0] == '+'))) s.remove_prefix(1);
        return s;
    }
    // magnitude comparison without arithmetic: strip zeros, compare lengths then text
    inline bool fits(std::string_view d, std::string_view max)
    {
        while (d.size() > 1 && d[0] == '0') d.remove_prefix(1);
        return d.size() < max.size() || (d.size() == max.size() && d <= max);
    }
    inline bool int64_ok(std::string_view s)
    {
        auto d = unsign(s);
        return digits(d) && fits(d, s[0] == '-' ? "9223372036854775808" : "9223372036854775807");
    }
    // [<+|->]<integral>[.<fractional>][<E|e>[sign]<exponent>]
    inline Verdict double_ok(std::string_view s)
    {
        if (s == "inf" || s == "-inf" || s == "nan") return Ok;
        auto lower = std::string(s);
        for (auto& c: lower) c = (char) std::tolower((unsigned char) c);
        if (lower.find("inf") != std::string::npos || lower.find("nan") != std::string::npos) return Loose;
        auto d = unsign(s);
        size_t i = 0;
        auto run = [&] {
            size_t b = i;
            while (i < d.size() && d[i] >= '0' && d[i] <= '9') i++;
            return i - b;
        };
        size_t in = run(), fr = 0;
        bool dot = false;
        if (i < d.size() && d[i] == '.')
        {
            dot = true;
            i++;
            fr = run();
        }
        if (in + fr == 0) return Bad;
        bool exp = false;
        if (i < d.size() && (d[i] == 'e' || d[i] == 'E'))
        {
            exp = true;
            i++;
            if (i < d.size() && (d[i] == '+' || d[i] == '-')) i++;
            if (run() == 0) return Bad;
        }
        if (i != d.size()) return Bad;
        if (in == 0 || (dot && fr == 0) || (exp && d.size() > 5)) return Loose;  // ".5", "5.", 1e999
        return Ok;
    }
    // lengths spelled in ways the protocol does not use but that denote an allowed value
    inline bool odd_number(std::string_view b, const char* max = "1")
    {
        auto d = unsign(b);
        return digits(d) && (b[0] == '+' || fits(d, b[0] == '-' ? max : "9"));
    }
    inline size_t to_num(std::string_view d)
    {
        size_t v = 0;
        for (char c: d) v = v * 10 + (size_t) (c - '0');
        return v;
    }
    inline bool aggregate(char t) { return t == '*' || t == '%' || t == '~' || t == '>' || t == '|'; }
    inline bool simple(char t) { return t == '+' || t == '-'; }
    inline bool bulk(char t) { return t == '$' || t == '!' || t == '='; }
    inline bool known(char t) { return t && std::strchr("+-:_#,($!=*%~>|", t); }

    // an unterminated line: is it certainly the beginning of a valid frame?
    inline Verdict partial_line(std::string_view s)
    {
        if (s.empty()) return More;
        if (!known(s[0])) return Maybe;
        auto b = s.substr(1);
        if (!b.empty() && b.back() == '\r' && b.size() > 1) b.remove_suffix(1);
        if (simple(s[0])) return More;
        if (b.empty()) return More;
        switch (s[0])
        {
            case ':':
            case '(':
            case ',':
                return unsign(b).empty() || (digits(unsign(b)) && b.size() < 15) ? More : Maybe;
            case '_': return b == "\r" ? More : Maybe;
            case '#': return b == "t" || b == "f" ? More : Maybe;
            default: return digits(b) && b.size() < 5 ? More : Maybe;
        }
    }

    inline Res parse(std::string_view all, size_t off, size_t depth, const ParserConfig& cfg)
    {
        Res r{More, {}};
        auto s = all.substr(off);
        r.n.off = off;
        // the limit concerns aggregates inside aggregates; an empty one at the limit is left open
        if (depth > cfg.max_aggregate_depth + 1 || (depth == cfg.max_aggregate_depth + 1))
        {
            r.v = Bad;
            return r;
        }
        size_t eol = s.find("\r\n", 1);
        if (s.empty() || eol == std::string_view::npos)
        {
            r.v = partial_line(s);
            if (s.size() >= 2 && s[0] == '\r' && s[1] == '\n') r.v = Bad;
            return r;
        }
        if (s[0] == '\r' && s[1] == '\n')
        {
            r.v = Bad;
            return r;
        }
        char t = s[0];
        auto b = s.substr(1, eol - 1);
        r.n.type = t;
        r.n.size = eol + 2;
        r.n.payload = b;
        if (!known(t))
        {
            r.v = Bad;
            return r;
        }
        if (simple(t))
        {
            r.v = b.find_first_of("\r\n") == b.npos ? Ok : Loose;
            return r;
        }
        if (t == ':') return r.v = int64_ok(b) ? Ok : Bad, r;
        if (t == '(') return r.v = digits(unsign(b)) ? Ok : Bad, r;
        if (t == ',') return r.v = double_ok(b), r;
        if (t == '#') return r.v = b == "t" || b == "f" ? Ok : Bad, r;
        if (t == '_') return r.v = b.empty() ? Ok : Bad, r;
        if (bulk(t))
        {
            if (b == "-1")
            {
                r.v = t == '$' ? Ok : Loose;
                r.n.null_bulk = true;
                r.n.payload = {};
                return r;
            }
            if (!digits(b))
            {
                r.v = odd_number(b) ? Any : Bad;
                return r;
            }
            if (!fits(b, "9223372036854775807") || to_num(b) > cfg.max_size) return r.v = Bad, r;
            size_t len = to_num(b), total = eol + 2 + len + 2;
            auto tail = s.size() > eol + 2 + len ? s.substr(eol + 2 + len, 2) : std::string_view{};
            if (s.size() < total)
            {
                r.v = tail.empty() || tail == "\r" ? More : Maybe;
                return r;
            }
            r.n.size = total;
            r.n.payload = s.substr(eol + 2, len);
            r.v = tail == "\r\n" ? Ok : Bad;
            if (r.v == Ok && t == '=' && (len < 4 || r.n.payload[3] != ':')) r.v = Loose;
            return r;
        }
        // aggregates
        if (!digits(b) || !fits(b, "9223372036854775807"))
        {
            r.v = odd_number(b, "0") ? Any : Bad;
            return r;
        }
        r.n.count = to_num(b);
        size_t kids = (t == '%' || t == '|') ? r.n.count * 2 : r.n.count;
        size_t o = off + eol + 2;
        r.v = Ok;
        for (size_t i = 0; i < kids; i++)
        {
            auto k = parse(all, o, depth + 1, cfg);
            if (k.v == Bad || k.v == More || k.v == Maybe || k.v == Any)
            {
                // after a loosely specified child either verdict of the rest stands
                r.v = k.v == Any ? Any : r.v == Loose ? Maybe : k.v;
                return r;
            }
            if (k.v == Loose) r.v = Loose;
            o += k.n.size;
            r.n.kids.push_back(std::move(k.n));
        }
        r.n.size = o - off;
        return r;
    }

    inline std::string show(std::string_view s)
    {
        std::string o = "\"";
        for (size_t i = 0; i < s.size() && i < 120; i++)
        {
            char c = s[i];
            if (c == '\r') o += "\\r";
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) o += "\\x?";
            else o += c;
        }
        if (s.size() > 120) o += "...";
        return o + "\"";
    }

    // the frame the parser reported is the reference's, with all its children
    inline void same_frame(Parser& p, const FrameHeader& f, const Node& n, const char* base, std::string_view in)
    {
        auto w = [&] { return show(in); };
        MC_CHECK((char) f.type == n.type, "%s: frame type %c, expected %c", w().c_str(), (char) f.type, n.type);
        MC_CHECK(f.data == base + n.off, "%s: frame starts at %td, expected %zu", w().c_str(), f.data - base, n.off);
        MC_CHECK(f.size == n.size, "%s: frame of %zu bytes, expected %zu", w().c_str(), f.size, n.size);
        size_t cnt = aggregate(n.type) ? n.count : 0;
        MC_CHECK(f.element_count == cnt, "%s: element count %zu, expected %zu", w().c_str(), f.element_count, cnt);
        if (bulk(n.type))
        {
            auto b = get_bulk_payload(f);
            MC_CHECK(b == n.payload, "%s: bulk payload %s, expected %s", w().c_str(), show(b).c_str(), show(n.payload).c_str());
            return;
        }
        if (!aggregate(n.type))
        {
            auto b = get_simple_payload(f);
            MC_CHECK(b == n.payload, "%s: payload %s, expected %s", w().c_str(), show(b).c_str(), show(n.payload).c_str());
            return;
        }
        FrameIterator it(f, p);
        size_t left = n.kids.size();
        for (auto& k: n.kids)
        {
            MC_CHECK(it.has_next() && it.remaining() == left, "%s: iterator says %zu children left, expected %zu", w().c_str(), it.remaining(), left);
            auto c = it.next();
            MC_CHECK(c.has_value(), "%s: iterator refused child %zu of a valid frame", w().c_str(), n.kids.size() - left);
            same_frame(p, *c, k, base, in);
            left--;
        }
        MC_CHECK(!it.has_next(), "%s: iterator offers more than the %zu children", w().c_str(), n.kids.size());
        auto end = it.next();
        MC_CHECK(!end && end.error() == ParseError::EoIter, "%s: iterator does not end after its %zu children", w().c_str(), n.kids.size());
    }

    inline void feed(Parser& p, std::string_view s)
    {
        if (s.empty()) return;
        p.buffer().extend_from_slice({s.data(), s.size()});
    }

    // judge next_frame() of a parser whose unread bytes are exactly `in`
    inline Res judge(Parser& p, std::string_view in, const ParserConfig& cfg)
    {
        auto ref = parse(in, 0, 0, cfg);
        const char* base = p.buffer().readable_span().data();
        size_t before = p.buffer().remaining();
        auto f = p.next_frame();
        MC_CHECK(p.buffer().remaining() == before, "%s: next_frame() consumed bytes", show(in).c_str());
        bool more = !f && f.error() == ParseError::NeedMoreData;
        switch (ref.v)
        {
            case Ok:
                MC_CHECK(f.has_value(), "%s: a well-formed frame was %s (error %d)", show(in).c_str(), more ? "reported incomplete" : "rejected", (int) f.error());
                same_frame(p, *f, ref.n, base, in);
                break;
            case Bad: MC_CHECK(!f && !more, "%s: a malformed frame was %s", show(in).c_str(), more ? "reported incomplete" : "accepted"); break;
            case More: MC_CHECK(more, "%s: a proper prefix of a valid frame was %s", show(in).c_str(), f ? "accepted" : "rejected"); break;
            case Maybe: MC_CHECK(!f, "%s: an unfinished frame was accepted", show(in).c_str()); break;
            case Any: break;
            case Loose:
                MC_CHECK(!more, "%s: a complete frame was reported incomplete", show(in).c_str());
                if (f) same_frame(p, *f, ref.n, base, in);
                break;
        }
        return ref;
    }

    // every frame tree with at most `budget` nodes
    inline void frames(int budget, std::vector<std::string>& out)
    {
        static const char* leaves[] = {"+\r\n", "+OK\r\n", "-ERR x\r\n", ":0\r\n", ":-12\r\n", ":+7\r\n", "_\r\n", "#t\r\n", "#f\r\n", ",1.5\r\n", ",-1e3\r\n", ",+2\r\n", ",inf\r\n", "(12345678901234567890123\r\n", "(-1\r\n", "$-1\r\n", "$0\r\n\r\n",
                                       "$1\r\na\r\n", "$2\r\n\r\n\r\n", "$4\r\n:1\r\n\r\n", "!3\r\nERR\r\n", "=5\r\ntxt:x\r\n", "$10\r\n0123456789\r\n"};
        std::vector<std::vector<std::string>> by(budget + 1);
        for (auto* l: leaves) by[1].push_back(l);
        for (char t: std::string("*%~>|")) by[1].push_back(std::string(1, t) + "0\r\n");
        // inner nodes use a reduced set of leaves
        std::vector<std::vector<std::string>> small(budget + 1);
        small[1] = {":1\r\n", "$2\r\n\r\n\r\n", "$-1\r\n", "*0\r\n", "#t\r\n", "+\r\n"};
        for (int b = 2; b <= budget; b++)
        {
            for (char t: std::string("*%~>|"))
            {
                bool pair = t == '%' || t == '|';
                // one child of b-1 nodes
                auto put = [&](std::string body, int kids) {
                    if (pair && kids % 2) return;
                    auto s = std::string(1, t) + std::to_string(pair ? kids / 2 : kids) + "\r\n" + body;
                    by[b].push_back(s);
                    if (t != '~' && t != '>') small[b].push_back(s);
                };
                for (auto& k: b == 2 ? by[b - 1] : small[b - 1]) put(k, 1);
                for (int i = 1; i < b - 1; i++)
                    for (auto& x: small[i])
                        for (auto& y: small[b - 1 - i]) put(x + y, 2);
                if (b >= 4)
                    for (auto& x: {std::string(":1\r\n"), std::string("$2\r\n\r\n\r\n")})
                        for (auto& y: small[b - 3]) put(x + y + x, 3), put(y + x + x, 3);
            }
        }
        for (auto& v: by)
            for (auto& s: v) out.push_back(s);
    }
}  // namespace rr
