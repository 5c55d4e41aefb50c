// C17: the metrics endpoint answers every complete request with exactly one correct response,
// however it is cut, survives bad clients, and can always be stopped.
#include "kioh.h"
#include "prom.h"

#include "kio/metrics/registry.h"
#include "kio/metrics/server.h"
#include <deque>
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    // One scripted client connection.
    struct Client
    {
        std::deque<std::string> in;  // pieces the server's reads will see
        int end = 0;                 // after them: 0 end of file, <0 error, 1 the client waits
        size_t accept = SIZE_MAX;    // bytes taken by one write
        int write_error_at = -1;     // this write fails
        int writes = 0;
        std::string out;
        std::atomic<int> fd{-1};
        size_t delivered = 0;
    };
    struct Net
    {
        std::deque<std::unique_ptr<Client>> all;
        size_t next = 0;
        std::atomic<size_t> shown{SIZE_MAX};  // clients that have come so far
        int accept_errors = 0;
        Net()
        {
            fk::env().all = [this](const fk::Op& o, int& res) { return accept(o, res); };
        }
        Client& add(std::deque<std::string> in, int end = 1)
        {
            all.push_back(std::make_unique<Client>());
            auto& c = *all.back();
            c.in = std::move(in);
            c.end = end;
            return c;
        }
        bool accept(const fk::Op& o, int& res)
        {
            if (o.opcode != IORING_OP_ACCEPT)
            {
                res = -EINVAL;
                return true;
            }
            if (accept_errors > 0)
            {
                accept_errors--;
                res = -ECONNABORTED;
                return true;
            }
            if (next >= std::min(all.size(), shown.load())) return false;
            auto& c = *all[next++];
            c.fd = fk::make_fd([&c, this](const fk::Op& op, int& r) { return io(c, op, r); }, "client");
            res = c.fd;
            return true;
        }
        bool io(Client& c, const fk::Op& o, int& res)
        {
            if (o.opcode == IORING_OP_READ || o.opcode == IORING_OP_RECV)
            {
                MC_CHECK(o.len > 0, "the server reads into an empty buffer");
                if (c.in.empty())
                {
                    if (c.end == 1) return false;
                    res = c.end;
                    return true;
                }
                auto& p = c.in.front();
                size_t n = std::min<size_t>(o.len, p.size());
                memcpy((void*) o.addr, p.data(), n);
                p.erase(0, n);
                if (p.empty()) c.in.pop_front();
                c.delivered += n;
                res = (int) n;
                return true;
            }
            if (o.opcode == IORING_OP_WRITE || o.opcode == IORING_OP_SEND)
            {
                if (c.writes++ == c.write_error_at)
                {
                    res = -EPIPE;
                    return true;
                }
                size_t n = std::min<size_t>(o.len, c.accept);
                c.out.append((const char*) o.addr, n);
                res = (int) n;
                return true;
            }
            res = -EINVAL;
            return true;
        }
        static bool closed(const Client& c)
        {
            int fd = c.fd;
            return fd >= 0 && !fk::is_open(fd);
        }
        // let the server run until it has dealt with everything it was sent
        template<class F>
        void settle(F done)
        {
            for (int i = 0; i < 3000 && !done(); i++) mc::yield();
            MC_CHECK(done(), "the server did not deal with its clients");
        }
        void settle_all()
        {
            settle([&] {
                for (auto& c: all)
                    if (!closed(*c)) return false;
                return true;
            });
        }
    };
    struct Col : IMetricsCollector
    {
        std::atomic<double> v{12345678.5};
        int boom = 0;  // 1..3: how it fails
        void Collect(MetricSnapshot& s) override
        {
            if (boom == 1) throw std::runtime_error("collector failed");
            if (boom == 2) throw std::out_of_range("collector failed");
            if (boom == 3) throw std::bad_alloc();
            s.BuildFamily("kio_test_total", "test", MetricType::Counter).Add({{"k", "a\"b\\c"}}, v);
        }
    };
    std::shared_ptr<Col> install(int boom = 0)
    {
        auto c = std::make_shared<Col>();
        c->boom = boom;
        MetricsRegistry<>::Instance().Register(c);
        return c;
    }
    struct Http
    {
        int status = 0;
        std::string body;
        std::string type;
    };
    Http read_response(const std::string& s, const char* what)
    {
        Http h;
        auto he = s.find("\r\n\r\n");
        MC_CHECK(he != s.npos, "%s: no complete response: \"%.200s\"", what, s.c_str());
        MC_CHECK(s.compare(0, 9, "HTTP/1.1 ") == 0 || s.compare(0, 9, "HTTP/1.0 ") == 0, "%s: bad status line: %.60s", what, s.c_str());
        h.status = std::atoi(s.c_str() + 9);
        MC_CHECK(h.status >= 100 && h.status < 600 && s[12] == ' ', "%s: bad status line: %.60s", what, s.c_str());
        h.body = s.substr(he + 4);
        long len = -1;
        for (size_t p = s.find("\r\n"); p < he;)
        {
            size_t b = p + 2, e = s.find("\r\n", b);
            auto line = s.substr(b, e - b);
            auto col = line.find(':');
            MC_CHECK(col != line.npos && col > 0, "%s: bad header line: %s", what, line.c_str());
            auto k = line.substr(0, col);
            for (auto& c: k) c = (char) std::tolower((unsigned char) c);
            auto v = line.substr(col + 1);
            while (!v.empty() && v[0] == ' ') v.erase(0, 1);
            if (k == "content-length")
            {
                MC_CHECK(len < 0 && !v.empty() && v.find_first_not_of("0123456789") == v.npos, "%s: bad length header: %s", what, line.c_str());
                len = std::atol(v.c_str());
            }
            if (k == "content-type") h.type = v;
            p = e;
        }
        MC_CHECK(len == (long) h.body.size(), "%s: Content-Length is %ld but %zu body bytes follow", what, len, h.body.size());
        return h;
    }
    std::string expected_metrics() { return MetricsRegistry<>::Instance().Scrape(); }
    void check_response(const Client& c, int want, const char* what, const std::string& metrics)
    {
        auto h = read_response(c.out, what);
        if (want == 400) MC_CHECK(h.status == 400, "%s: answered %d", what, h.status);
        else MC_CHECK(h.status == want, "%s: answered %d, expected %d", what, h.status, want);
        if (!metrics.empty())
        {
            MC_CHECK(h.body == metrics, "%s: the body is not the current metrics: %s", what, h.body.c_str());
            MC_CHECK(h.type.compare(0, 10, "text/plain") == 0, "%s: content type %s", what, h.type.c_str());
            prom::parse(h.body);
        }
    }
    struct Req
    {
        const char* text;
        int status;
        bool metrics;
    };
    const Req reqs[] = {
        {"GET /metrics HTTP/1.1\r\n\r\n", 200, true},
        {"GET /metrics HTTP/1.0\r\nHost: x\r\nAccept: */*\r\n\r\n", 200, true},
        {"GET / HTTP/1.1\r\n\r\n", 200, false},
        {"GET /health HTTP/1.1\r\n\r\n", 200, false},
        {"GET /nope HTTP/1.1\r\n\r\n", 404, false},
        {"GET /metrics2 HTTP/1.1\r\n\r\n", 404, false},
        {"GET /metric HTTP/1.1\r\n\r\n", 404, false},
        {"POST /metrics HTTP/1.1\r\n\r\n", 405, false},
        {"HEAD / HTTP/1.1\r\n\r\n", 405, false},
        {"GETX /metrics HTTP/1.1\r\n\r\n", 405, false},
        {"PUT /nope HTTP/1.1\r\n\r\n", 405, false},
        {"GET\r\n\r\n", 400, false},
        {"GET /metrics\r\n\r\n", 400, false},
        {"\r\n\r\n", 400, false},
        {"GET /metrics HTTP/1.1\r\nX: \n\r\r\n\r\n", 200, true},
        {"GET /metrics HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n", 200, true},
    };
    constexpr int nreq = sizeof reqs / sizeof *reqs;

    std::unique_ptr<MetricsServer> make_server() { return std::make_unique<MetricsServer>("127.0.0.1", (uint16_t) 9090, kh::small(8, 8, 8)); }
    void finish(std::unique_ptr<MetricsServer>& s, const char* where)
    {
        s->stop();
        s.reset();
        kh::check_fds(where);
    }
}  // namespace

// every request, cut in two at every position (and byte by byte), answered with every write size
SCENARIO(cut_requests)
{
    auto& r = reqs[mc::choose_free(nreq, "request")];
    std::string t = r.text;
    int cut = mc::choose_free((int) t.size() + 1, "cut");  // 0: byte by byte
    static const size_t sizes[] = {SIZE_MAX, 1, 50};
    Net net;
    auto col = install();
    auto want = expected_metrics();
    auto s = make_server();
    std::deque<std::string> in;
    if (cut == 0)
        for (char c: t) in.push_back(std::string(1, c));
    else if (cut == (int) t.size()) in = {t};
    else in = {t.substr(0, (size_t) cut), t.substr((size_t) cut)};
    auto& c = net.add(in);
    c.accept = sizes[mc::choose_free(3, "write size")];
    s->start();
    net.settle_all();
    finish(s, "server");
    check_response(c, r.status, r.text, r.metrics ? want : "");
    mc::outcome(std::to_string(r.status));
}
// a client that disappears or fails at any point leaves the next one unharmed
SCENARIO(broken_clients)
{
    std::string t = reqs[0].text;
    int kind = mc::choose_free(4, "failure");  // 0 EOF, 1 read error, 2 write error, 3 EOF after a malformed start
    Net net;
    auto col = install();
    auto want = expected_metrics();
    auto s = make_server();
    Client* bad;
    bool answered = false;
    if (kind == 2)
    {
        bad = &net.add({t});
        bad->accept = 40;
        bad->write_error_at = mc::choose_free(4, "failing write");
    }
    else
    {
        if (kind == 3) t = "\n\r\n\r \xff";
        size_t at = (size_t) mc::choose_free((int) t.size() + 1, "bytes sent");
        std::deque<std::string> in;
        if (at) in.push_back(t.substr(0, at));
        bad = &net.add(in, kind == 1 ? -ECONNRESET : 0);
        answered = kind != 3 && at == t.size();
    }
    auto& good = net.add({reqs[0].text});
    s->start();
    net.settle_all();
    finish(s, "server");
    check_response(good, 200, "client after a broken one", want);
    if (kind != 2)
    {
        if (answered) check_response(*bad, 200, "complete request", want);
        else MC_CHECK(bad->out.empty(), "an incomplete request was answered: %s", bad->out.c_str());
    }
    else
        MC_CHECK(bad->out.size() == 40u * (size_t) bad->write_error_at && bad->writes == bad->write_error_at + 1, "response to a broken client went on after its failure");
    mc::outcome(std::string("broken ") + std::to_string(kind));
}
SCENARIO(oversized)
{
    static const size_t totals[] = {1024, 1025, 4096, 8188, 8189, 8190, 8191, 8192, 8193, 9216, 20000};
    static const size_t pieces[] = {100, 1024, 8192};
    size_t total = totals[mc::choose_free(11, "size")], piece = pieces[mc::choose_free(3, "piece")];
    bool complete = mc::choose_free(2, "complete") == 0;
    Net net;
    auto col = install();
    auto want = expected_metrics();
    auto s = make_server();
    std::string t = "GET /metrics HTTP/1.1\r\nX: ";
    t += std::string(total - t.size() - 4, 'x') + (complete ? "\r\n\r\n" : "xxxx");
    std::deque<std::string> in;
    for (size_t i = 0; i < t.size(); i += piece) in.push_back(t.substr(i, piece));
    auto& c = net.add(in, complete || total > kMaxRequestSize ? 1 : 0);
    auto& good = net.add({reqs[0].text});
    s->start();
    net.settle_all();
    finish(s, "server");
    check_response(good, 200, "client after an oversized one", want);
    if (complete && total <= kMaxRequestSize) check_response(c, 200, "request within the limit", want);
    else if (!complete) MC_CHECK(c.out.empty() || read_response(c.out, "oversized").status >= 400, "an unfinished request of %zu bytes was answered", total);
    MC_CHECK(c.delivered <= kMaxRequestSize + 16384, "the server swallowed %zu bytes of an oversized request", c.delivered);
    mc::outcome(std::to_string(total) + (c.out.empty() ? " dropped" : " answered"));
}
// concurrent clients: completion orders, batches and schedules
SCENARIO(interleaved)
{
    fk::env().order = true;
    fk::env().partial = true;
    Net net;
    auto col = install();
    auto want = expected_metrics();
    auto s = make_server();
    auto& a = net.add({"GET /met", "rics HTTP/1.1\r\n\r\n"});
    auto& b = net.add({"GET /nope HTTP/1.1\r\n", "\r\n"});
    auto& d = net.add({"GET /"}, 0);
    a.accept = 100;
    s->start();
    net.settle_all();
    finish(s, "server");
    check_response(a, 200, "first client", want);
    check_response(b, 404, "second client", "");
    MC_CHECK(d.out.empty(), "the third client was answered without a request");
    mc::outcome("ok");
}
SCENARIO(accept_errors)
{
    Net net;
    net.accept_errors = 1 + mc::choose_free(3, "errors");
    auto col = install();
    auto want = expected_metrics();
    auto s = make_server();
    auto& a = net.add({reqs[0].text});
    s->start();
    net.settle_all();
    finish(s, "server");
    check_response(a, 200, "client after failed accepts", want);
    mc::outcome("ok");
}
SCENARIO(failing_collector)
{
    Net net;
    auto col = install(1 + mc::choose_free(3, "error"));
    auto s = make_server();
    auto& a = net.add({reqs[0].text});
    auto& b = net.add({reqs[2].text});
    s->start();
    net.settle_all();
    finish(s, "server");
    check_response(a, 500, "scrape with a failing collector", "");
    check_response(b, 200, "health after a failing collector", "");
    mc::outcome("ok");
}
// nothing to show is an empty body, not a broken answer
SCENARIO(no_collectors)
{
    Net net;
    auto s = make_server();
    auto& a = net.add({reqs[0].text});
    auto& b = net.add({reqs[0].text});
    b.accept = 1;
    s->start();
    net.settle_all();
    finish(s, "server");
    for (auto* c: {&a, &b})
    {
        auto h = read_response(c->out, "scrape without collectors");
        MC_CHECK(h.status == 200 && h.body.empty(), "scrape without collectors: %d \"%s\"", h.status, h.body.c_str());
    }
    mc::outcome("ok");
}
// bodies from nothing to a megabyte, taken by the client in pieces of any size
namespace
{
    struct Bulk : IMetricsCollector
    {
        size_t n = 0;
        void Collect(MetricSnapshot& s) override { s.BuildFamily("kio_bulk", std::string(n, 'h'), MetricType::Gauge).Add({}, (double) n); }
    };
}  // namespace
SCENARIO(large_bodies, {.horizon = 3000000})
{
    static const size_t sizes[] = {0, 700, 1000, 3900, 4096, 8100, 8192, 16300, 32700, 65400, 65536, 131072, 300000};
    static const size_t takes[] = {SIZE_MAX, 100, 1448, 4096, 65535, 65536};
    auto col = std::make_shared<Bulk>();
    // around each size: the response header and the family's lines add to it
    col->n = sizes[mc::choose_free(13, "size")];
    size_t take = takes[mc::choose_free(6, "write size")];
    if (take == 100 && col->n > 20000) return;
    MetricsRegistry<>::Instance().Register(col);
    Net net;
    auto want = expected_metrics();
    auto s = make_server();
    auto& a = net.add({reqs[0].text});
    auto& b = net.add({reqs[0].text});
    a.accept = take;
    s->start();
    net.settle_all();
    finish(s, "server");
    check_response(a, 200, "large scrape", want);
    check_response(b, 200, "large scrape", want);
    mc::outcome(std::to_string(want.size()) + " bytes");
}
// many clients one after the other and at once, idle ones among them
SCENARIO(many_clients, {.horizon = 3000000})
{
    int plan = mc::choose_free(3, "plan");
    Net net;
    auto col = install();
    auto want = expected_metrics();
    auto s = make_server();
    constexpr size_t n = 40;
    for (size_t i = 0; i < n; i++)
    {
        auto& r = reqs[i % nreq];
        std::string t = r.text;
        if (plan == 0) net.add({t});
        else if (plan == 1) net.add({t.substr(0, 1 + i % (t.size() - 1)), t.substr(1 + i % (t.size() - 1))}).accept = 20 + i;
        else if (i % 3 == 0) net.add({"GET /me"}, i % 2 ? 0 : -ECONNRESET);
        else net.add({t});
    }
    net.shown = plan == 1 ? n : 0;
    s->start();
    for (size_t i = 0; plan != 1 && i < n; i++)
    {
        net.shown = i + 1;
        fk::kick();
        net.settle([&] { return Net::closed(*net.all[i]); });
    }
    net.settle_all();
    finish(s, "server");
    for (size_t i = 0; i < n; i++)
        if (plan == 2 && i % 3 == 0) MC_CHECK(net.all[i]->out.empty(), "client %zu was answered without a request", i);
        else check_response(*net.all[i], reqs[i % nreq].status, reqs[i % nreq].text, reqs[i % nreq].metrics ? want : "");
    mc::outcome("plan " + std::to_string(plan));
}
SCENARIO(current_values)
{
    // each response shows the values of its own moment
    Net net;
    auto col = install();
    auto s = make_server();
    for (int i = 0; i < 2; i++) net.add({reqs[0].text});
    net.shown = 0;
    s->start();
    std::vector<std::string> want;
    for (size_t i = 0; i < 2; i++)
    {
        col->v = (double) i * 1e12 + 7;
        want.push_back(expected_metrics());
        net.shown = i + 1;
        fk::kick();
        net.settle([&] { return Net::closed(*net.all[i]); });
    }
    finish(s, "server");
    for (size_t i = 0; i < 2; i++) check_response(*net.all[i], 200, "scrape", want[i]);
    mc::outcome("ok");
}
// stopping terminates in every state and closes the listening socket exactly once
SCENARIO(stop_states)
{
    int plan = mc::choose_free(8, "plan");
    Net net;
    auto s = make_server();
    switch (plan)
    {
        case 0: break;                          // never started, destroyed
        case 1: s->stop(); break;               // never started, stopped
        case 2: s->start(); break;              // destroyed while starting
        case 3: s->start(), s->stop(); break;   // stopped while starting
        case 4: s->start(), s->stop(), s->stop(); break;
        case 5: s->start(), s->start(), s->stop(); break;
        case 6: s->stop(), s->start(); break;   // started after it was stopped
        case 7: fk::env().init_error = ENOMEM, s->start(), s->stop(); break;
    }
    s.reset();
    kh::check_fds("stopped server");
    mc::outcome("plan " + std::to_string(plan));
}
SCENARIO(stop_while_serving)
{
    Net net;
    auto col = install();
    auto want = expected_metrics();
    {
        auto s = make_server();
        auto& a = net.add({"GET /metrics HTTP/1.1\r\n", "\r\n"});
        a.accept = 60;
        s->start();
        s->stop();
    }
    auto& c = *net.all[0];
    MC_CHECK(c.out.empty() || want.size() + 400 > c.out.size(), "more than one response");
    auto& cl = fk::closes();
    MC_CHECK(cl.foreign == 0 && cl.dup == 0, "a descriptor was closed twice or without being opened");
    bool leaked = c.fd >= 0 && fk::is_open(c.fd);
    MC_CHECK(fk::open_count() == (leaked ? 1 : 0), "stopping leaked a descriptor other than the client's: %s", fk::open_fds().empty() ? "" : fk::open_fds()[0].c_str());
    if (leaked) mc::known_or_fail("client_open_at_stop", "a client that was connected when the server was stopped is never closed");
    mc::outcome(leaked ? "client left open" : c.out.empty() ? "not served" : "served");
}
