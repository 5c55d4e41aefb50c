// C16: what the registry exposes is well-formed and carries the exact values.
#include <cfloat>
#include <cstring>

#include "kio/metrics/model.h"
#include "kio/metrics/registry.h"
#include "kio/metrics/serializer.h"
#include "kioh.h"
#include "prom.h"

namespace
{
    using namespace kio;
    kh::AutoSilence silent;
    constexpr mc::Options seq{.race_check = false, .horizon = 4000000};
    using Labels = std::map<std::string, std::string>;

    struct Want
    {
        std::string name, help;
        MetricType type;
        size_t max;
        std::vector<std::pair<Labels, double>> samples;
    };
    std::string type_name(MetricType t) { return t == MetricType::Counter ? "counter" : "gauge"; }

    uint64_t judged = 0;
    std::string valid_key(const std::string& k)
    {
        std::string o;
        for (char c: k) o += prom::name_char(c, o.empty(), false) ? c : '_';
        return o;
    }
    void judge(const MetricSnapshot& snap, const std::vector<Want>& want)
    {
        judged++;
        PrometheusTextSerializer ser;
        auto text = ser.Serialize(snap);
        auto got = prom::parse(text);
        MC_CHECK(got.size() == want.size(), "%zu families exposed, %zu were built: %s", got.size(), want.size(), text.c_str());
        for (auto& w: want)
        {
            const prom::Family* g = nullptr;
            for (auto& x: got)
                if (x.name == w.name) g = &x;
            MC_CHECK(g, "family %s is missing: %s", w.name.c_str(), text.c_str());
            MC_CHECK(g->help == w.help, "family %s: help text changed: %s", w.name.c_str(), text.c_str());
            MC_CHECK(g->type == type_name(w.type), "family %s: type %s", w.name.c_str(), g->type.c_str());
            MC_CHECK(g->samples.size() == w.samples.size(), "family %s: %zu samples exposed, %zu recorded: %s", w.name.c_str(), g->samples.size(), w.samples.size(), text.c_str());
            for (size_t i = 0; i < w.samples.size(); i++)
            {
                Labels l;
                for (auto& [k, v]: w.samples[i].first) l[valid_key(k)] = v;
                // order within a family is free; label sets are distinct in every scenario that needs it
                auto& same_place = g->samples[i];
                bool found = same_place.labels == l && prom::same_value(same_place.value, w.samples[i].second);
                for (auto& s: g->samples)
                    if (found) break;
                    else if (s.labels == l && prom::same_value(s.value, w.samples[i].second)) found = true;
                MC_CHECK(found, "family %s: sample %zu (value %.17g) is not exposed with its labels and exact value: %s", w.name.c_str(), i, w.samples[i].second, text.c_str());
            }
        }
    }
    void report(const std::string& w)
    {
        mc::count_states(judged);
        mc::count_transitions(judged);
        mc::outcome(w + ": " + std::to_string(judged) + " expositions read back");
        judged = 0;
    }
    // every string over `alpha` of length 0..n
    template<class F>
    void strings(const std::string& alpha, int n, F f)
    {
        for (int len = 0; len <= n; len++)
        {
            std::vector<size_t> idx((size_t) len, 0);
            std::string s((size_t) len, ' ');
            for (;;)
            {
                for (int i = 0; i < len; i++) s[(size_t) i] = alpha[idx[(size_t) i]];
                {
                    mc::Trial t("exposition");
                    f(std::string(s));
                }
                int k = len - 1;
                while (k >= 0 && ++idx[(size_t) k] == alpha.size()) idx[(size_t) k--] = 0;
                if (k < 0) break;
            }
        }
    }
}  // namespace

// programs of BuildFamily / Add calls: families come back, references are kept across other builds
SCENARIO(programs, seq)
{
    constexpr int steps = 5, kinds = 12;
    int first = mc::choose_free(kinds, "first step"), second = mc::choose_free(kinds, "second step");
    std::vector<int> idx(steps - 2, 0);
    for (;;)
    {
        {
            mc::Trial t("program");
            MetricSnapshot snap;
            std::vector<Want> want;
            MetricFamily* ref[3] = {};
            for (int i = 0; i < steps; i++)
            {
                int op = i == 0 ? first : i == 1 ? second : idx[(size_t) i - 2];
                static const char* names[] = {"kio_a_total", "kio_b", "kio_a"};
                int f = op % 3;
                auto type = f == 1 ? MetricType::Gauge : MetricType::Counter;
                bool reuse = op / 3 % 2, labelled = op / 6 % 2;
                if (!reuse || !ref[f])
                {
                    auto& fam = snap.BuildFamily(names[f], std::string("help ") + names[f], type);
                    ref[f] = &fam;
                    bool have = false;
                    for (auto& w: want) have |= w.name == names[f];
                    if (!have) want.push_back({names[f], std::string("help ") + names[f], type, 10000, {}});
                }
                Labels l{{"step", std::to_string(i)}};
                if (labelled) l["x"] = "a\"b";
                double v = i * 1000003.0 + 0.25;
                if (!(reuse && labelled && f == 2))  // one family is sometimes built without samples
                {
                    ref[f]->Add(l, v);
                    for (auto& w: want)
                        if (w.name == names[f]) w.samples.push_back({l, v});
                }
            }
            judge(snap, want);
        }
        int k = steps - 3;
        while (k >= 0 && ++idx[(size_t) k] == kinds) idx[(size_t) k--] = 0;
        if (k < 0) break;
    }
    report("programs " + std::to_string(first) + "," + std::to_string(second));
}
// several labels at once, and one family name used with differing descriptions
SCENARIO(many_labels, seq)
{
    for (int n = 0; n <= 6; n++)
        for (int m = 0; m <= 6; m++)
        {
            mc::Trial t("exposition");
            Labels a, b;
            for (int i = 0; i < n; i++) a["l" + std::to_string(i)] = std::string((size_t) i, 'v');
            for (int i = 0; i < m; i++) b["m" + std::to_string(i)] = "=\"" + std::to_string(i);
            MetricSnapshot snap;
            auto& f = snap.BuildFamily("kio_x", "h", MetricType::Gauge);
            f.Add(a, 1.5);
            f.Add(b, 2.5);
            judge(snap, {{"kio_x", "h", MetricType::Gauge, 10000, {{a, 1.5}, {b, 2.5}}}});
        }
    report("many labels");
}
SCENARIO(one_name, seq)
{
    // 8 ways to ask for the family again: with another type, help text, limit
    for (int first = 0; first < 8; first++)
        for (int second = 0; second < 8; second++)
            for (int third = 0; third < 8; third++)
            {
                mc::Trial t("exposition");
                MetricSnapshot snap;
                std::vector<std::pair<Labels, double>> w;
                int k = 0;
                for (int how: {first, second, third})
                {
                    auto& f = snap.BuildFamily("kio_x", how & 1 ? "h" : "other", how & 2 ? MetricType::Gauge : MetricType::Counter, how & 4 ? 100 : 10000);
                    Labels l{{"i", std::to_string(k)}};
                    f.Add(l, k + 0.5);
                    w.push_back({l, k + 0.5});
                    k++;
                    snap.BuildFamily("kio_y", "y", MetricType::Gauge);
                }
                judge(snap, {{"kio_x", first & 1 ? "h" : "other", first & 2 ? MetricType::Gauge : MetricType::Counter, 10000, w}, {"kio_y", "y", MetricType::Gauge, 10000, {}}});
            }
    report("one name");
}
SCENARIO(label_values, seq)
{
    int last = mc::choose_free(9, "last character");
    const std::string alpha = "a\\\"\n{},= ";
    strings(alpha, 4, [&](const std::string& s0) {
        auto s = s0 + alpha[(size_t) last];
        MetricSnapshot snap;
        auto& f = snap.BuildFamily("kio_x", "h", MetricType::Gauge);
        f.Add({{"l", s}}, 1);
        f.Add({{"l", s0}, {"m", "1"}}, 2);
        judge(snap, {{"kio_x", "h", MetricType::Gauge, 10000, {{{{"l", s}}, 1}, {{{"l", s0}, {"m", "1"}}, 2}}}});
    });
    // every single byte value
    for (int c = 1; c < 256; c++)
    {
        mc::Trial t("exposition");
        std::string s(1, (char) c);
        MetricSnapshot snap;
        snap.BuildFamily("kio_x", "h", MetricType::Gauge).Add({{"l", s}}, 1);
        judge(snap, {{"kio_x", "h", MetricType::Gauge, 10000, {{{{"l", s}}, 1}}}});
    }
    report("label values " + std::to_string(last));
}
SCENARIO(label_names, seq)
{
    strings("aZ_09-.:\"\n {=\xc3", 3, [&](const std::string& k) {
        if (k.empty()) return;
        MetricSnapshot snap;
        snap.BuildFamily("kio_x", "h", MetricType::Counter).Add({{k, "v"}}, 1);
        judge(snap, {{"kio_x", "h", MetricType::Counter, 10000, {{{{k, "v"}}, 1}}}});
    });
    for (int c = 1; c < 256; c++)
    {
        mc::Trial t("exposition");
        const std::string k1(1, (char) c), k2 = "a" + k1;
        MetricSnapshot snap;
        auto& f = snap.BuildFamily("kio_x", "h", MetricType::Counter);
        f.Add({{k1, "v"}}, 1);
        f.Add({{k2, "v"}}, 2);
        judge(snap, {{"kio_x", "h", MetricType::Counter, 10000, {{{{k1, "v"}}, 1}, {{{k2, "v"}}, 2}}}});
    }
    report("label names");
}
SCENARIO(help_texts, seq)
{
    strings("a\\\"\nn #", 5, [&](const std::string& h) {
        MetricSnapshot snap;
        snap.BuildFamily("kio_x", h, MetricType::Counter).Add({}, 1);
        judge(snap, {{"kio_x", h, MetricType::Counter, 10000, {{{}, 1}}}});
    });
    report("help texts");
}
SCENARIO(values, seq)
{
    std::vector<double> vs = {0.0, -0.0, NAN, INFINITY, -INFINITY, DBL_MIN, DBL_MAX, -DBL_MAX, DBL_EPSILON, 5e-324, 0.1, 1.0 / 3, 123456, 1234567, 12345678, 999999, 9999995, 1e15, 1e16, 1e17, 1e21, 1e22, 1e100, 1e-4, 1e-5, 1e-7, 3.14159265358979};
    for (int e = 0; e < 64; e++)
        for (double d: {-1.0, 0.0, 1.0})
        {
            vs.push_back(std::ldexp(1.0, e) + d);
            vs.push_back(-(std::ldexp(1.0, e) + d));
            vs.push_back(std::ldexp(1.0, -e) + d);
        }
    for (int e = 0; e < 20; e++)
        for (int m = 1; m < 10; m++) vs.push_back(m * std::pow(10.0, e) + 1), vs.push_back(m * std::pow(10.0, e) + 0.5);
    for (double v: vs)
    {
        mc::Trial t("exposition");
        MetricSnapshot snap;
        snap.BuildFamily("kio_x", "h", MetricType::Counter).Add({{"l", "1"}}, v);
        snap.BuildFamily("kio_y", "h", MetricType::Gauge).Add({}, v);
        judge(snap, {{"kio_x", "h", MetricType::Counter, 10000, {{{{"l", "1"}}, v}}}, {"kio_y", "h", MetricType::Gauge, 10000, {{{}, v}}}});
    }
    report("values");
}
// a family never exposes more samples than its limit, and below it loses none
SCENARIO(sample_limit, seq)
{
    for (size_t max = 0; max <= 4; max++)
        for (size_t n = 0; n <= 6; n++)
        {
            mc::Trial t("exposition");
            MetricSnapshot snap;
            auto& f = snap.BuildFamily("kio_x", "h", MetricType::Counter, max);
            std::vector<std::pair<Labels, double>> w;
            for (size_t i = 0; i < n; i++)
            {
                Labels l{{"i", std::to_string(i)}};
                f.Add(l, (double) i);
                if (i < max) w.push_back({l, (double) i});
            }
            judge(snap, {{"kio_x", "h", MetricType::Counter, max, w}});
        }
    report("limits");
}
// many families, samples and labels, long texts: wherever an implementation could change its way of working
SCENARIO(large, {.race_check = false, .horizon = 1000000000})
{
    static const size_t counts[] = {8, 9, 16, 17, 33, 64, 65, 100, 129, 257, 1000};
    static const size_t lens[] = {15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 70000};
    int what = mc::choose_free(5, "what is large");
    if (what == 0)
        for (size_t n: counts)
        {
            mc::Trial t("exposition");
            MetricSnapshot snap;
            std::vector<Want> want;
            std::vector<MetricFamily*> refs;
            for (size_t i = 0; i < n; i++)
            {
                auto name = "kio_f" + std::to_string(i * 7919 % 10007);
                auto type = i % 2 ? MetricType::Gauge : MetricType::Counter;
                refs.push_back(&snap.BuildFamily(name, "help of " + name, type));
                want.push_back({name, "help of " + name, type, 10000, {}});
                refs[i / 2]->Add({{"i", std::to_string(i)}}, (double) i);
                want[i / 2].samples.push_back({{{"i", std::to_string(i)}}, (double) i});
            }
            for (size_t i = 0; i < n; i += 3)
            {
                auto& again = snap.BuildFamily(want[i].name, "other", MetricType::Gauge);
                MC_CHECK(&again == refs[i], "family %s was built twice among %zu", want[i].name.c_str(), n);
            }
            judge(snap, want);
        }
    else if (what == 1)
        for (size_t n: counts)
        {
            mc::Trial t("exposition");
            MetricSnapshot snap;
            auto& a = snap.BuildFamily("kio_a", "a", MetricType::Gauge);
            auto& b = snap.BuildFamily("kio_b_total", "b", MetricType::Counter);
            Want wa{"kio_a", "a", MetricType::Gauge, 10000, {}}, wb{"kio_b_total", "b", MetricType::Counter, 10000, {}};
            for (size_t i = 0; i < n; i++)
            {
                Labels l{{"i", std::to_string(i)}};
                a.Add(l, (double) i / 3);
                wa.samples.push_back({l, (double) i / 3});
                if (i % 2) continue;
                b.Add(l, (double) (i * i));
                wb.samples.push_back({l, (double) (i * i)});
            }
            judge(snap, {wa, wb});
        }
    else if (what == 2)
        for (size_t n: counts)
        {
            if (n > 300) break;
            mc::Trial t("exposition");
            MetricSnapshot snap;
            Labels l;
            for (size_t i = 0; i < n; i++) l["l" + std::to_string(i)] = i % 3 ? std::to_string(i) : "\"\n" + std::to_string(i);
            snap.BuildFamily("kio_x", "h", MetricType::Gauge).Add(l, 1);
            judge(snap, {{"kio_x", "h", MetricType::Gauge, 10000, {{l, 1}}}});
        }
    else if (what == 3)
        for (size_t n: lens)
            for (auto* special: {"", "\\", "\"", "\n"})
                for (int where = 0; where < 3; where++)
                {
                    mc::Trial t("exposition");
                    std::string v(n, 'v'), h(n, 'h'), k(n, 'k');
                    size_t at = where == 0 ? 0 : where == 1 ? n / 2 : n;
                    v.insert(at, special);
                    h.insert(at, special);
                    MetricSnapshot snap;
                    Labels l{{"a", v}, {k, "1"}, {"z", v}};
                    snap.BuildFamily("kio_" + k, h, MetricType::Gauge).Add(l, 1);
                    judge(snap, {{"kio_" + k, h, MetricType::Gauge, 10000, {{l, 1}}}});
                }
    else
        for (size_t n: {9999, 10000, 10001, 10002})  // the default limit
        {
            mc::Trial t("exposition");
            MetricSnapshot snap;
            auto& a = snap.BuildFamily("kio_a", "a", MetricType::Gauge);
            Want wa{"kio_a", "a", MetricType::Gauge, 10000, {}};
            for (size_t i = 0; i < n; i++)
            {
                a.Add({{"i", std::to_string(i)}}, (double) i);
                if (i < 10000) wa.samples.push_back({{{"i", std::to_string(i)}}, (double) i});
            }
            snap.BuildFamily("kio_b", "b", MetricType::Gauge).Add({}, 3);
            judge(snap, {wa, {"kio_b", "b", MetricType::Gauge, 10000, {{{}, 3}}}});
        }
    report("large " + std::to_string(what));
}
// every binary exponent, with few and many significant digits
SCENARIO(exponents, seq)
{
    int part = mc::choose_free(8, "share");
    for (int e = -1074 + part; e <= 1023; e += 8)
        for (double m: {1.0, 1.5, 1.1, 4.0 / 3, 1.9999999999999998, 1.2345678901234567})
        {
            double v = std::ldexp(m, e);
            mc::Trial t("exposition");
            MetricSnapshot snap;
            auto& f = snap.BuildFamily("kio_x", "h", MetricType::Gauge);
            f.Add({{"l", "1"}}, v);
            f.Add({{"l", "2"}}, -v);
            judge(snap, {{"kio_x", "h", MetricType::Gauge, 10000, {{{{"l", "1"}}, v}, {{{"l", "2"}}, -v}}}});
        }
    report("exponents " + std::to_string(part));
}
// the same through the registry, scraped repeatedly with changing values
namespace
{
    struct Col : IMetricsCollector
    {
        int id;
        double v = 0;
        explicit Col(int i) : id(i) {}
        void Collect(MetricSnapshot& s) override
        {
            auto& t = s.BuildFamily("kio_shared_total", "shared", MetricType::Counter);
            t.Add({{"id", std::to_string(id)}}, v);
            auto& own = s.BuildFamily("kio_own_" + std::to_string(id), "own", MetricType::Gauge);
            t.Add({{"id", std::to_string(id)}, {"second", "1"}}, v + 1);
            own.Add({}, -v);
        }
    };
}  // namespace
SCENARIO(registry, seq)
{
    int n = mc::choose_free(4, "collectors");
    std::vector<std::shared_ptr<Col>> cols;
    for (int round = 0; round < 4; round++)
    {
        if (round < n)
        {
            cols.push_back(std::make_shared<Col>(round));
            MetricsRegistry<>::Instance().Register(cols.back());
        }
        for (auto& c: cols) c->v += 1e9 + round;
        auto got = prom::parse(MetricsRegistry<>::Instance().Scrape());
        MC_CHECK(got.size() == (cols.empty() ? 0 : cols.size() + 1), "%zu families for %zu collectors", got.size(), cols.size());
        size_t shared = 0;
        for (auto& f: got)
            for (auto& s: f.samples)
            {
                if (f.name == "kio_shared_total")
                {
                    shared++;
                    auto& c = cols[(size_t) std::stoi(s.labels["id"])];
                    MC_CHECK(s.value == c->v + (s.labels.count("second") ? 1 : 0), "collector %d: %.17g exposed, its value is %.17g", c->id, s.value, c->v);
                }
                else
                    MC_CHECK(s.value == -cols[(size_t) std::stoi(f.name.substr(8))]->v, "family %s: wrong value", f.name.c_str());
            }
        MC_CHECK(shared == 2 * cols.size(), "%zu samples in the shared family of %zu collectors", shared, cols.size());
        judged++;
    }
    report(std::to_string(n) + " collectors");
}
