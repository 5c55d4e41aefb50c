// An independent strict reader of the Prometheus text exposition format.
#pragma once
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <map>
#include <string>
#include <string_view>
#include <vector>

#include "mcrt.h"

namespace prom
{
    struct Sample
    {
        std::map<std::string, std::string> labels;
        double value;
        std::string text;
    };
    struct Family
    {
        std::string name, help, type;
        std::vector<Sample> samples;
    };
    inline bool name_char(char c, bool first, bool colon) { return std::isalpha((unsigned char) c) || c == '_' || (colon && c == ':') || (!first && std::isdigit((unsigned char) c)); }

    struct Reader
    {
        std::string_view in;
        size_t pos = 0;
        std::vector<Family> out;
        [[noreturn]] void bad(const char* why) const
        {
            std::string s;
            for (char c: in.substr(0, 400)) s += c == '\n' ? std::string("\\n") : std::string(1, c);
            mc::fail("exposition is malformed at byte %zu: %s: %s", pos, why, s.c_str());
        }
        bool at(char c) const { return pos < in.size() && in[pos] == c; }
        void expect(char c, const char* why)
        {
            if (!at(c)) bad(why);
            pos++;
        }
        std::string name(bool colon)
        {
            std::string s;
            while (pos < in.size() && name_char(in[pos], s.empty(), colon)) s += in[pos++];
            if (s.empty()) bad("a name is missing");
            return s;
        }
        std::string rest(bool unescape)
        {
            std::string s;
            while (pos < in.size() && in[pos] != '\n')
            {
                char c = in[pos++];
                if (unescape && c == '\\')
                {
                    if (pos >= in.size()) bad("dangling backslash");
                    char e = in[pos++];
                    if (e == 'n') c = '\n';
                    else if (e == '\\') c = '\\';
                    else bad("unknown escape in help text");
                }
                s += c;
            }
            expect('\n', "unterminated line");
            return s;
        }
        Family* find(const std::string& n)
        {
            for (auto& f: out)
                if (f.name == n) return &f;
            return nullptr;
        }
        void read()
        {
            Family* cur = nullptr;
            bool typed = false;
            while (pos < in.size())
            {
                if (at('\n'))
                {
                    pos++;
                    continue;
                }
                if (at('#'))
                {
                    auto kw = in.substr(pos, 7);
                    if (kw != "# HELP " && kw != "# TYPE ") bad("unknown comment line");
                    pos += 7;
                    auto n = name(true);
                    expect(' ', "no space after the family name");
                    if (kw == "# HELP ")
                    {
                        if (find(n)) bad("second HELP line for a family");
                        out.push_back({n, rest(true), "", {}});
                        cur = &out.back();
                        typed = false;
                    }
                    else
                    {
                        if (!cur || cur->name != n) bad("TYPE line without its HELP line before it");
                        if (typed) bad("second TYPE line for a family");
                        if (!cur->samples.empty()) bad("TYPE line after samples");
                        cur->type = rest(false);
                        typed = true;
                    }
                    continue;
                }
                auto n = name(true);
                if (!cur || cur->name != n || !typed) bad("sample outside its family");
                Sample s{};
                if (at('{'))
                {
                    pos++;
                    while (!at('}'))
                    {
                        auto k = name(false);
                        expect('=', "no = after a label name");
                        expect('"', "no opening quote");
                        std::string v;
                        while (!at('"'))
                        {
                            if (pos >= in.size() || in[pos] == '\n') bad("label value is not closed");
                            char c = in[pos++];
                            if (c == '\\')
                            {
                                if (pos >= in.size()) bad("dangling backslash");
                                char e = in[pos++];
                                if (e == 'n') c = '\n';
                                else if (e == '\\' || e == '"') c = e;
                                else bad("unknown escape in a label value");
                            }
                            v += c;
                        }
                        pos++;
                        if (!s.labels.emplace(k, v).second) bad("label given twice");
                        if (at(',')) pos++;
                        else if (!at('}')) bad("no comma between labels");
                    }
                    pos++;
                }
                expect(' ', "no space before the value");
                s.text = rest(false);
                if (s.text.empty()) bad("empty value");
                if (s.text == "NaN") s.value = NAN;
                else if (s.text == "+Inf") s.value = INFINITY;
                else if (s.text == "-Inf") s.value = -INFINITY;
                else
                {
                    for (char c: s.text)
                        if (!std::isdigit((unsigned char) c) && !std::strchr("+-.eE", c)) bad("value is not a number");
                    char* e;
                    s.value = std::strtod(s.text.c_str(), &e);
                    if (*e) bad("value is not a number");
                }
                cur->samples.push_back(std::move(s));
            }
        }
    };
    inline std::vector<Family> parse(std::string_view s)
    {
        Reader r{s, 0, {}};
        r.read();
        return std::move(r.out);
    }
    inline bool same_value(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
}  // namespace prom
