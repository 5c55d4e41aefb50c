// C12: the logger writes every accepted record exactly once, whole, in each thread's order, promptly and
// without being destroyed first; what it cannot accept it reports; levels are respected; flush() and
// destruction leave nothing behind, from any thread.
#include <iostream>
#include <stdexcept>
#include "kioh.h"
#include "hist.h"
using namespace kio;

namespace
{
    // the output stream's buffer: plain memory, so unsynchronised writers are data races
    struct Sink : std::streambuf
    {
        std::vector<char> buf = std::vector<char>(6000);
        size_t n = 0;
        std::atomic<int> lines{0};
        int_type overflow(int_type c) override
        {
            if (c != traits_type::eof()) put1((char) c);
            return c;
        }
        std::streamsize xsputn(const char* s, std::streamsize k) override
        {
            for (std::streamsize i = 0; i < k; i++) put1(s[i]);
            return k;
        }
        void put1(char c)
        {
            if (n < buf.size()) buf[n++] = c;
            if (c == '\n')
            {
                lines.fetch_add(1);
                lines.notify_all();
            }
        }
        void await(int k)
        {
            for (int v = lines.load(); v < k; v = lines.load()) lines.wait(v);
        }
        std::string text() const { return std::string(buf.data(), n); }
    };
    struct Out
    {
        Sink sink;
        std::ostream os{&sink};
        Sink err;
        std::streambuf* saved;
        explicit Out(size_t room = 6000) : saved(std::cerr.rdbuf(&err)) { sink.buf.resize(room), err.buf.resize(room); }
        ~Out() { std::cerr.rdbuf(saved); }
        int dropped()
        {
            int n = 0;
            const std::string t = err.text();
            for (size_t p = 0; (p = t.find("Dropping", p)) != std::string::npos; p++) n++;
            return n;
        }
    };
    struct Rec
    {
        std::string level, msg, thread, when;
        int line = 0;
    };
    std::string clock_text() { return std::format("{:%Y-%m-%d %H:%M:%S}", std::chrono::system_clock::now()).substr(0, 19); }
    // every line must be a complete record
    std::vector<Rec> parse(const std::string& t)
    {
        std::vector<Rec> r;
        size_t p = 0;
        while (p < t.size())
        {
            size_t e = t.find('\n', p);
            MC_CHECK(e != std::string::npos, "incomplete last line: %s", t.substr(p).c_str());
            std::string l = t.substr(p, e - p);
            p = e + 1;
            size_t lv = l.find("] ["), ti = l.find("] [tid:"), d = l.find(" - ");
            MC_CHECK(!l.empty() && l[0] == '[' && lv != std::string::npos && ti != std::string::npos && d != std::string::npos && d > ti, "malformed line: %s", l.c_str());
            std::string level = l.substr(lv + 3, ti - lv - 3);
            while (!level.empty() && level.back() == ' ') level.pop_back();
            const size_t at = l.find("c12_logger.cpp:");
            MC_CHECK(at != std::string::npos && at < d && at > ti, "source location lost: %s", l.c_str());
            Rec rec{level, l.substr(d + 3), l.substr(ti + 7, l.find(']', ti + 7) - ti - 7), l.substr(1, 19)};
            rec.line = atoi(l.c_str() + at + strlen("c12_logger.cpp:"));
            MC_CHECK(rec.when >= "2000-01-01 00:00:00" || clock_text() < "2000-01-01 00:00:00", "a record carries the time %s", rec.when.c_str());
            r.push_back(rec);
        }
        return r;
    }
    std::string body(int who, int k, size_t len)
    {
        std::string s = "m" + std::to_string(who) + "." + std::to_string(k) + ":";
        while (s.size() < len) s += char('a' + (who * 7 + k * 3 + s.size()) % 26);
        return s;
    }
    void check_order(const std::vector<Rec>& r, int threads, int per, int dropped, size_t len)
    {
        std::vector<int> last(threads, -1), seen(threads * per, 0);
        std::vector<std::string> tid(threads);
        for (auto& x: r)
        {
            int w = -1, k = -1;
            MC_CHECK(sscanf(x.msg.c_str(), "m%d.%d:", &w, &k) == 2 && w >= 0 && w < threads && k >= 0 && k < per, "unknown record: %s", x.msg.c_str());
            MC_CHECK(x.msg == body(w, k, len), "record altered: %s", x.msg.c_str());
            MC_CHECK(!seen[w * per + k]++, "record written twice: %s", x.msg.c_str());
            MC_CHECK(k > last[w], "records of one thread out of order: %s", x.msg.c_str());
            last[w] = k;
            MC_CHECK(x.level == "INFO", "an informational record is written as %s", x.level.c_str());
            MC_CHECK(x.line > 0, "a record is attributed to line %d", x.line);
            if (tid[w].empty()) tid[w] = x.thread;
            MC_CHECK(tid[w] == x.thread, "records of one thread are attributed to the threads %s and %s", tid[w].c_str(), x.thread.c_str());
            for (int o = 0; o < threads; o++) MC_CHECK(o == w || tid[o] != tid[w], "records of two threads are attributed to one");
        }
        MC_CHECK((int) r.size() + dropped == threads * per, "%d records, %zu written, %d reported as dropped", threads * per, r.size(), dropped);
    }
    std::string order(const std::vector<Rec>& r)
    {
        std::string s;
        for (auto& x: r) s += x.msg.substr(1, 1);
        return s;
    }
    // n logging threads; the logger either drains on its own or is destroyed at once
    void loggers(int threads, int per, size_t queue, bool drain, size_t len, int flushers)
    {
        Out o;
        {
            auto lg = std::make_unique<Logger>(queue, LogLevel::Info, o.os);
            auto run = [&](int i) { for (int k = 0; k < per; k++) LOGI(*lg, "{}", body(i, k, len)); };
            std::vector<std::thread> ts;
            for (int i = 1; i < threads; i++) ts.emplace_back(run, i);
            for (int i = 0; i < flushers; i++) ts.emplace_back([&] { lg->flush(); });
            run(0);
            for (auto& t: ts) t.join();
            if (drain) o.sink.await(threads * per - o.dropped());
            lg.reset();
        }
        auto r = parse(o.sink.text());
        check_order(r, threads, per, o.dropped(), len);
        if (queue >= (size_t) (threads * per)) MC_CHECK(o.dropped() == 0, "dropped although the queue had room");
        kh::check_fds("logger");
        mc::outcome(order(r) + "/" + std::to_string(o.dropped()));
    }
    // flush(): everything this thread logged is written when it returns
    void flushing(bool other)
    {
        Out o;
        {
            Logger lg(8, LogLevel::Info, o.os);
            std::thread t;
            LOGI(lg, "{}", body(0, 0, 5));
            LOGI(lg, "{}", body(0, 1, 5));
            if (other) t = std::thread([&] { lg.flush(); });
            lg.flush();
            MC_CHECK(o.sink.lines >= 2, "flush returned with %d of 2 records written", o.sink.lines.load());
            if (other) t.join();
        }
        check_order(parse(o.sink.text()), 1, 2, 0, 5);
        kh::check_fds("logger");
        mc::outcome("ok");
    }
    struct Bad
    {
    };
}
template<>
struct std::formatter<Bad>
{
    constexpr auto parse(std::format_parse_context& c) { return c.begin(); }
    auto format(const Bad&, std::format_context& c) const -> decltype(c.out()) { throw std::runtime_error("cannot format"); }
};
namespace
{
    void bad_format(bool queue_full)
    {
        Out o;
        int line = 0;
        {
            Logger lg(queue_full ? 1 : 8, LogLevel::Info, o.os);
            if (queue_full) LOGI(lg, "{}", body(0, 0, 5));
            line = __LINE__ + 1;
            LOGW(lg, "{}", Bad{});
            o.sink.await(queue_full ? 2 - o.dropped() : 1);
        }
        auto r = parse(o.sink.text());
        MC_CHECK((int) r.size() + o.dropped() == (queue_full ? 2 : 1), "%zu records written, %d reported as dropped", r.size(), o.dropped());
        if (!queue_full) MC_CHECK(r[0].level == "WARN" && r[0].line == line, "the failure is reported as %s at line %d", r[0].level.c_str(), r[0].line);
        if (!queue_full) MC_CHECK(r[0].msg.find("cannot format") != std::string::npos, "the failure is not reported: %s", r[0].msg.c_str());
        kh::check_fds("logger");
        mc::outcome(std::to_string(o.dropped()));
    }
    void no_eventfd()
    {
        Out o;
        fk::env().syscall_fault = [](const char* w) { return !strcmp(w, "eventfd") ? (errno = EMFILE, true) : false; };
        {
            Logger lg(4, LogLevel::Info, o.os);
            LOGI(lg, "{}", body(0, 0, 5));
            LOGI(lg, "{}", body(0, 1, 5));
        }
        check_order(parse(o.sink.text()), 1, 2, 0, 5);
        kh::check_fds("logger");
        mc::outcome("ok");
    }
    // a signal interrupts the writer's waiting: it must go on writing
    void interrupted()
    {
        Out o;
        static int calls;
        calls = 0;
        const int at = mc::choose_free(3, "interrupted wait");
        fk::env().syscall_fault = [at](const char* w) { return !strcmp(w, "eventfd_read") && calls++ == at ? (errno = EINTR, true) : false; };
        {
            Logger lg(4, LogLevel::Info, o.os);
            for (int i = 0; i < 3; i++)
            {
                LOGI(lg, "{}", body(0, i, 5));
                o.sink.await(i + 1);
            }
        }
        check_order(parse(o.sink.text()), 1, 3, 0, 5);
        kh::check_fds("logger");
        mc::outcome(std::to_string(at));
    }
    // every level against every threshold, and contents around the in-place capacity
    void levels()
    {
        const LogLevel all[] = {LogLevel::Disabled, LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warn, LogLevel::Error};
        const int th = mc::choose_free(6, "threshold"), via = mc::choose_free(2, "set_level");
        Out o;
        int evaluated = 0, line = 0;
        auto arg = [&] { return ++evaluated; };
        {
            Logger lg(16, via ? LogLevel::Warn : all[th], o.os);
            if (via) lg.set_level(all[th]);
            line = __LINE__ + 1;
            LOGT(lg, "t{}", arg());
            LOGD(lg, "d{}", arg());
            LOGI(lg, "i{}", arg());
            LOGW(lg, "w{}", arg());
            LOGE(lg, "e{}", arg());
            lg.info(std::source_location::current(), "I");
            lg.trace(std::source_location::current(), "T");
            for (int i = 0; i < 6; i++) MC_CHECK(lg.should_log(all[i]) == (th != 0 && i >= th) || i == 0, "should_log(%d) with threshold %d", i, th);
        }
        const char* names[] = {"", "TRACE", "DEBUG", "INFO", "WARN", "ERROR"};
        auto r = parse(o.sink.text());
        std::vector<Rec> want;
        int n = 0;
        if (th)
        {
            const char* c = " tdiwe";
            for (int i = th; i <= 5; i++) want.push_back({names[i], std::string(1, c[i]) + std::to_string(++n), "", "", i - 1});
            if (th <= 3) want.push_back({"INFO", "I", "", "", 5});
            if (th <= 1) want.push_back({"TRACE", "T", "", "", 6});
        }
        MC_CHECK(evaluated == n, "arguments of suppressed records were evaluated");
        MC_CHECK(r.size() == want.size(), "%zu records instead of %zu", r.size(), want.size());
        for (size_t i = 0; i < r.size(); i++) MC_CHECK(r[i].level == want[i].level && r[i].msg == want[i].msg && r[i].line == line + want[i].line, "wrong record %s %s of line %d", r[i].level.c_str(), r[i].msg.c_str(), r[i].line);
        kh::check_fds("logger");
        mc::outcome(std::to_string(th));
    }
    void sizes()
    {
        const size_t ls[] = {0, 1, 255, 256, 257, 300, 512, 600};
        const size_t l1 = ls[mc::choose_free(8, "len")], l2 = ls[mc::choose_free(8, "len")], l3 = ls[mc::choose_free(8, "len")];
        Out o;
        auto fill = [](size_t n, char c) { std::string s; while (s.size() < n) s += char(c + s.size() % 20); return s; };
        {
            Logger lg(4, LogLevel::Info, o.os);
            LOGI(lg, "{}", fill(l1, 'a'));
            LOGI(lg, "{}", fill(l2, 'b'));
            LOGI(lg, "{}", fill(l3, 'c'));
        }
        auto r = parse(o.sink.text());
        MC_CHECK(r.size() == 3, "%zu records", r.size());
        MC_CHECK(r[0].msg == fill(l1, 'a') && r[1].msg == fill(l2, 'b') && r[2].msg == fill(l3, 'c'), "record altered (%zu %zu %zu)", l1, l2, l3);
        kh::check_fds("logger");
        mc::outcome(std::to_string(l1) + "," + std::to_string(l2));
    }
    // the threshold changes while a record is being logged that neither the old nor the new one lets pass
    void level_change()
    {
        const int from = 2 + mc::choose_free(4, "from"), to = mc::choose_free(6, "to");
        Out o;
        {
            Logger lg(8, (LogLevel) from, o.os);
            std::thread t([&] { lg.set_level((LogLevel) to); });
            lg.trace(std::source_location::current(), "trace");
            LOGE(lg, "error");
            t.join();
        }
        auto r = parse(o.sink.text());
        for (auto& x: r)
        {
            if (x.msg == "trace") MC_CHECK(to == 1, "a trace record was written with thresholds %d then %d", from, to);
            else MC_CHECK(x.msg == "error" && x.level == "ERROR", "unknown record");
        }
        if (to != 0) MC_CHECK(!r.empty() && r.back().msg == "error", "an error record was suppressed with thresholds %d then %d", from, to);
        kh::check_fds("logger");
        mc::outcome(std::to_string(r.size()));
    }
    // hundreds of records, pending all at once or written while they are logged
    void many()
    {
        static const size_t queues[] = {512, 64, 16};
        const size_t queue = queues[mc::choose_free(3, "queue")];
        const int how = mc::choose_free(4, "end");  // written by itself, flush, destruction, flush now and then
        const int threads = 1 + mc::choose_free(2, "threads");
        constexpr int per = 150;
        auto len = [](int k) { return k % 13 == 5 ? size_t(400) : size_t(8 + k % 30); };
        Out o(200000);
        {
            auto lg = std::make_unique<Logger>(queue, LogLevel::Info, o.os);
            auto run = [&](int i) {
                for (int k = 0; k < per; k++)
                {
                    LOGI(*lg, "{}", body(i, k, len(k)));
                    if (how == 3 && k % 50 == 49) lg->flush();
                }
            };
            std::vector<std::thread> ts;
            for (int i = 1; i < threads; i++) ts.emplace_back(run, i);
            run(0);
            for (auto& t: ts) t.join();
            if (how == 0) o.sink.await(threads * per - o.dropped());
            if (how == 1)
            {
                lg->flush();
                MC_CHECK(o.sink.lines.load() == threads * per - o.dropped(), "%d records after a flush, %d were accepted", o.sink.lines.load(), threads * per - o.dropped());
            }
            lg.reset();
        }
        auto r = parse(o.sink.text());
        std::vector<int> last(2, -1);
        for (auto& x: r)
        {
            int w = -1, k = -1;
            MC_CHECK(sscanf(x.msg.c_str(), "m%d.%d:", &w, &k) == 2 && w >= 0 && w < threads && k >= 0 && k < per, "unknown record: %s", x.msg.c_str());
            MC_CHECK(x.msg == body(w, k, len(k)), "record altered: %s", x.msg.c_str());
            MC_CHECK(k > last[(size_t) w], "records of one thread out of order or twice: %s", x.msg.c_str());
            last[(size_t) w] = k;
        }
        MC_CHECK((int) r.size() + o.dropped() == threads * per, "%d records, %zu written, %d reported as dropped", threads * per, r.size(), o.dropped());
        if (queue >= 512) MC_CHECK(o.dropped() == 0, "dropped although the queue had room");
        kh::check_fds("logger");
        mc::outcome("queue " + std::to_string(queue) + " end " + std::to_string(how) + " dropped " + std::to_string(o.dropped()));
    }
    void global()
    {
        Out o;
        {
            alog::configure(8, LogLevel::Info, o.os);
            std::thread t([&] { ALOG_INFO("{}", body(1, 0, 5)); });
            ALOG_INFO("{}", body(0, 0, 5));
            ALOG_DEBUG("{}", 1);
            t.join();
            alog::global_logger_ptr().reset();
        }
        check_order(parse(o.sink.text()), 2, 1, 0, 5);
        kh::check_fds("logger");
        mc::outcome(order(parse(o.sink.text())));
    }
}
SCENARIO(two_threads) { loggers(2, 1, 8, false, 5, 0); }
SCENARIO(two_threads_drain) { loggers(2, 2, 8, true, 5, 0); }
SCENARIO(three_threads) { loggers(3, 1, 8, true, 5, 0); }
SCENARIO(full_queue) { loggers(2, 2, 2, true, 5, 0); }
SCENARIO(full_queue_large) { loggers(1, 3, 1, true, 300, 0); }
SCENARIO(two_threads_weak, {.stale_reads = true, .spurious_cas = true}) { loggers(2, 1, 8, true, 300, 0); }
SCENARIO(flush_others) { loggers(2, 1, 8, true, 5, 1); }
SCENARIO(flush_own) { flushing(false); }
SCENARIO(flush_two) { flushing(true); }
SCENARIO(unformattable) { bad_format(false); }
SCENARIO(unformattable_full) { bad_format(true); }
SCENARIO(no_wakeup_descriptor) { no_eventfd(); }
SCENARIO(interrupted_wait) { interrupted(); }
SCENARIO(level_table) { levels(); }
SCENARIO(level_changes) { level_change(); }
SCENARIO(message_sizes) { sizes(); }
SCENARIO(many_records, {.horizon = 5000000}) { many(); }
SCENARIO(global_logger) { global(); }
