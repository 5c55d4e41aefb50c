// C18: metrics collection is safe against concurrent registration and running workers, reports what
// was registered before, never goes backwards and is exact once a worker is quiet.
#include "hist.h"
#include "kioh.h"
#include "prom.h"

#include "kio/core/metrics_collector.h"
#include "kio/metrics/registry.h"
#include <fcntl.h>
#include <netinet/in.h>
using namespace kio;
using io::Worker;
static kh::AutoSilence as_;

namespace
{
    MetricsRegistry<>& reg() { return MetricsRegistry<>::Instance(); }
    using Counters = std::map<std::string, double>;  // family{worker_id}
    Counters read_all(const std::string& text)
    {
        Counters c;
        for (auto& f: prom::parse(text))
            for (auto& s: f.samples)
            {
                auto id = s.labels.empty() ? std::string() : s.labels.begin()->second;
                MC_CHECK(c.emplace(f.name + "{" + id + "}", s.value).second, "family %s reports %s twice", f.name.c_str(), id.c_str());
            }
        return c;
    }
    struct Plain : IMetricsCollector
    {
        int id;
        std::atomic<int> calls{0};
        explicit Plain(int i) : id(i) {}
        void Collect(MetricSnapshot& s) override { s.BuildFamily("kio_calls_total", "calls", MetricType::Counter).Add({{"id", std::to_string(id)}}, ++calls); }
    };
    struct Reg
    {
        int id;
        kh::Span t;
    };
    struct Scr
    {
        kh::Span t;
        Counters c;
    };
    void register_one(int id, std::vector<Reg>& h)
    {
        auto c = std::make_shared<Plain>(id);
        Reg r{id, {}};
        r.t.b = kh::stamp();
        reg().Register(std::move(c));
        r.t.e = kh::stamp();
        h.push_back(r);
    }
    void scrape_one(std::vector<Scr>& h)
    {
        Scr s;
        s.t.b = kh::stamp();
        auto t = reg().Scrape();
        s.t.e = kh::stamp();
        s.c = read_all(t);
        h.push_back(std::move(s));
    }
    std::string key(int id) { return "kio_calls_total{" + std::to_string(id) + "}"; }
    void judge(const std::vector<std::vector<Reg>>& rs, const std::vector<std::vector<Scr>>& ss)
    {
        std::string o;
        for (auto& sv: ss)
        {
            Counters last;
            for (auto& s: sv)
            {
                for (auto& rv: rs)
                    for (auto& r: rv)
                    {
                        bool in = s.c.count(key(r.id));
                        if (r.t.before(s.t)) MC_CHECK(in, "collector %d, registered before the scrape began, is missing from it", r.id);
                        if (s.t.before(r.t)) MC_CHECK(!in, "collector %d is reported before it was registered", r.id);
                        o += in ? '1' : '0';
                    }
                for (auto& [k, v]: last)
                {
                    MC_CHECK(s.c.count(k), "%s disappeared from a later scrape", k.c_str());
                    MC_CHECK(s.c.at(k) >= v, "%s went from %g back to %g", k.c_str(), v, s.c.at(k));
                }
                last = s.c;
                o += ' ';
            }
        }
        mc::outcome(o);
    }
}  // namespace

SCENARIO(register_vs_scrape)
{
    std::vector<std::vector<Reg>> r(1);
    std::vector<std::vector<Scr>> s(1);
    std::thread t([&] {
        register_one(1, r[0]);
        register_one(2, r[0]);
    });
    scrape_one(s[0]);
    scrape_one(s[0]);
    t.join();
    scrape_one(s[0]);
    judge(r, s);
}
SCENARIO(two_scrapers)
{
    std::vector<std::vector<Reg>> r(2);
    std::vector<std::vector<Scr>> s(2);
    register_one(0, r[1]);
    std::thread a([&] { scrape_one(s[0]), scrape_one(s[0]); });
    std::thread b([&] { register_one(1, r[0]), register_one(2, r[0]); });
    scrape_one(s[1]);
    register_one(3, r[1]);
    a.join();
    b.join();
    scrape_one(s[1]);
    judge(r, s);
}
SCENARIO(two_registrars, {.stale_reads = true})
{
    std::vector<std::vector<Reg>> r(2);
    std::vector<std::vector<Scr>> s(1);
    std::thread a([&] { register_one(1, r[0]), register_one(2, r[0]); });
    register_one(3, r[1]);
    register_one(4, r[1]);
    a.join();
    scrape_one(s[0]);
    judge(r, s);
}

namespace
{
    int quiet_fd()
    {
        return fk::make_fd([](const fk::Op& o, int& res) {
            switch (o.opcode)
            {
                case IORING_OP_READ: res = (int) std::min<uint32_t>(o.len, 3); return true;
                case IORING_OP_WRITE: res = (int) std::min<uint32_t>(o.len, 5); return true;
                default: res = 0; return true;
            }
        });
    }
    // Reads and writes on the worker; after every completed operation the counts are published.
    struct Work
    {
        std::atomic<int> reads{0}, writes{0};
        kh::Event done;
    };
    DetachedTask work(Worker& w, int fd, int rounds, Work& k)
    {
        co_await io::SwitchToWorker(w);
        char b[8];
        for (int i = 0; i < rounds; i++)
        {
            auto r = co_await w.async_read(fd, std::span<char>(b, 8));
            MC_CHECK(r && *r == 3, "read");
            k.reads.fetch_add(1);
            auto x = co_await w.async_write(fd, std::span<const char>(b, 8));
            MC_CHECK(x && *x == 5, "write");
            k.writes.fetch_add(1);
        }
        k.done.hit();
    }
    double at(const Counters& c, const char* name, int id)
    {
        auto it = c.find(std::string(name) + "{" + std::to_string(id) + "}");
        MC_CHECK(it != c.end(), "%s of worker %d is not exposed", name, id);
        return it->second;
    }
    void check_running(const Counters& c, int id, const Work& k, int rounds, int r0, int w0)
    {
        double r = at(c, "kio_worker_read_ops_total", id), w = at(c, "kio_worker_write_ops_total", id);
        MC_CHECK(r >= r0 && r <= rounds && w >= w0 && w <= rounds && r >= w, "worker %d: %g reads and %g writes reported, %d and %d were finished before the scrape", id, r, w, r0, w0);
        MC_CHECK(at(c, "kio_worker_bytes_read_total", id) == 3 * r && at(c, "kio_worker_bytes_written_total", id) == 5 * w, "worker %d: byte counters do not match its operation counters", id);
    }
}  // namespace
SCENARIO(scrape_busy_worker)
{
    kh::WT t(7);
    t.ready();
    reg().Register(std::make_shared<io::WorkerMetricsCollector>(t.w));
    int fd = quiet_fd();
    Work k;
    work(t.w, fd, 2, k).detach();
    Counters last;
    std::string o;
    for (int i = 0; i < 2; i++)
    {
        int r0 = k.reads.load(), w0 = k.writes.load();
        auto c = read_all(reg().Scrape());
        check_running(c, 7, k, 2, r0, w0);
        for (auto& [n, v]: last)
            if (n.find("active") == n.npos) MC_CHECK(c[n] >= v, "%s went backwards", n.c_str());
        last = c;
        o += std::to_string((int) at(c, "kio_worker_read_ops_total", 7)) + std::to_string((int) at(c, "kio_worker_write_ops_total", 7)) + " ";
    }
    k.done.await(1);
    auto c = read_all(reg().Scrape());
    check_running(c, 7, k, 2, 2, 2);
    mc::outcome(o);
    t.stop();
    ::close(fd);
}
// a coroutine on a worker registers a collector while another thread scrapes that worker
SCENARIO(register_on_scraped_worker)
{
    kh::WT t(1);
    t.ready();
    reg().Register(std::make_shared<io::WorkerMetricsCollector>(t.w));
    std::vector<std::vector<Reg>> r(1);
    std::vector<std::vector<Scr>> s(1);
    kh::Event done;
    auto task = [](Worker& w, std::vector<Reg>& h, kh::Event& d) -> DetachedTask {
        co_await io::SwitchToWorker(w);
        register_one(5, h);
        d.hit();
    };
    task(t.w, r[0], done).detach();
    scrape_one(s[0]);
    done.await(1);
    scrape_one(s[0]);
    t.stop();
    judge(r, s);
}
// workers scrape each other
SCENARIO(scrapes_on_workers)
{
    kh::WT a(1), b(2);
    a.ready();
    b.ready();
    reg().Register(std::make_shared<io::WorkerMetricsCollector>(a.w));
    reg().Register(std::make_shared<io::WorkerMetricsCollector>(b.w));
    kh::Event done;
    auto task = [](Worker& w, kh::Event& d) -> DetachedTask {
        co_await io::SwitchToWorker(w);
        d.hit();
    };
    task(a.w, done).detach();
    auto c = read_all(reg().Scrape());
    at(c, "kio_worker_read_ops_total", 1);
    at(c, "kio_worker_read_ops_total", 2);
    done.await(1);
    a.stop();
    b.stop();
    mc::outcome("scraped");
}
// a worker scrapes itself (the metrics server registering its own worker)
SCENARIO(scrape_on_own_worker)
{
    kh::WT a(1);
    a.ready();
    reg().Register(std::make_shared<io::WorkerMetricsCollector>(a.w));
    kh::Event done;
    auto task = [](Worker& w, kh::Event& d) -> DetachedTask {
        co_await io::SwitchToWorker(w);
        auto c = read_all(reg().Scrape());
        at(c, "kio_worker_read_ops_total", 1);
        d.hit();
    };
    task(a.w, done).detach();
    auto c = read_all(reg().Scrape());
    done.await(1);
    a.stop();
    mc::outcome("scraped");
}
// every operation kind, with success and failure chosen freely: the counters are exact when quiet
namespace
{
    struct Exact
    {
        double br = 0, bw = 0, rops = 0, wops = 0, acc = 0, open = 0, conn = 0;
    };
    DetachedTask one_of_each(Worker& w, std::vector<std::pair<int, bool>> plan, int fd, Exact& e, kh::Event& done)
    {
        co_await io::SwitchToWorker(w);
        char b[16];
        for (auto [op, ok]: plan)
        {
            fk::set_fd_handler(fd, [ok](const fk::Op& o, int& res) {
                if (!ok) res = -EIO;
                else if (o.opcode == IORING_OP_READ) res = 4;
                else if (o.opcode == IORING_OP_READV) res = 6;
                else if (o.opcode == IORING_OP_WRITE) res = (int) o.len;
                else if (o.opcode == IORING_OP_WRITEV) res = 7;
                else if (o.opcode == IORING_OP_SENDMSG) res = 9;
                else if (o.opcode == IORING_OP_ACCEPT) res = 1000;
                else res = 0;
                return true;
            });
            switch (op)
            {
                case 0:
                    if (co_await w.async_read(fd, std::span<char>(b, 16))) e.br += 4, e.rops++;
                    break;
                case 1:
                    if (co_await w.async_read_at(fd, std::span<char>(b, 16), 8)) e.br += 4, e.rops++;
                    break;
                case 2:
                    if (co_await w.async_write(fd, std::span<const char>(b, 11))) e.bw += 11, e.wops++;
                    break;
                case 3:
                    if (co_await w.async_write_at(fd, std::span<const char>(b, 3), 8)) e.bw += 3, e.wops++;
                    break;
                case 4:
                {
                    iovec v{b, 16};
                    if (co_await w.async_readv(fd, &v, 1, 0)) e.br += 6, e.rops++;
                    break;
                }
                case 5:
                {
                    iovec v{b, 16};
                    if (co_await w.async_writev(fd, &v, 1, 0)) e.bw += 7, e.wops++;
                    break;
                }
                case 6:
                {
                    msghdr m{};
                    if (co_await w.async_sendmsg(fd, &m, 0)) e.bw += 9, e.wops++;
                    break;
                }
                case 7:
                    if (co_await w.async_accept(fd, nullptr, nullptr)) e.acc++;
                    break;
                case 8:
                {
                    sockaddr_in a{};
                    if (co_await w.async_connect(fd, (sockaddr*) &a, sizeof a)) e.conn++;
                    break;
                }
                case 9:
                    if (co_await w.async_read_exact(fd, std::span<char>(b, 8))) e.br += 8, e.rops += 2;
                    break;
                case 10:
                    if (co_await w.async_write_exact(fd, std::span<const char>(b, 8))) e.bw += 8, e.wops++;
                    break;
            }
        }
        done.hit();
    }
}  // namespace
SCENARIO(exact_counts)
{
    std::vector<std::pair<int, bool>> plan;
    int a = mc::choose_free(22, "first operation"), b = mc::choose_free(22, "second operation");
    plan = {{a / 2, a % 2 == 0}, {b / 2, b % 2 == 0}, {0, true}};
    kh::WT t(3);
    t.ready();
    reg().Register(std::make_shared<io::WorkerMetricsCollector>(t.w));
    int fd = fk::make_fd();
    Exact e;
    kh::Event done;
    one_of_each(t.w, plan, fd, e, done).detach();
    done.await(1);
    auto c = read_all(reg().Scrape());
    auto eq = [&](const char* n, double v) { MC_CHECK(at(c, n, 3) == v, "operations %d%s, %d%s: %s is %g, %g were performed", a / 2, a % 2 ? " (failed)" : "", b / 2, b % 2 ? " (failed)" : "", n, at(c, n, 3), v); };
    eq("kio_worker_bytes_read_total", e.br);
    eq("kio_worker_bytes_written_total", e.bw);
    eq("kio_worker_read_ops_total", e.rops);
    eq("kio_worker_write_ops_total", e.wops);
    eq("kio_worker_connections_accepted_total", e.acc);
    eq("kio_worker_connect_ops_total", e.conn);
    eq("kio_worker_open_ops_total", e.open);
    eq("kio_worker_io_errors_total", 0);
    eq("kio_worker_coroutine_pool_resizes_total", 0);
    mc::outcome("ok");
    t.stop();
    ::close(fd);
}
// operations in flight and pool growth
SCENARIO(gauge_and_growth)
{
    int n = 1 + mc::choose_free(6, "operations in flight");
    kh::WT t(3, kh::small(8, 2, 8));
    t.ready();
    reg().Register(std::make_shared<io::WorkerMetricsCollector>(t.w));
    auto before = read_all(reg().Scrape());
    std::atomic<bool> open{false};
    std::vector<int> fds;
    kh::Event done, started;
    auto rd = [](Worker& w, int fd, kh::Event& s, kh::Event& d) -> DetachedTask {
        co_await io::SwitchToWorker(w);
        char b[4];
        s.hit();
        (void) co_await w.async_read(fd, std::span<char>(b, 4));
        d.hit();
    };
    for (int i = 0; i < n; i++)
    {
        fds.push_back(fk::make_fd([&open](const fk::Op&, int& res) {
            res = 1;
            return open.load();
        }));
        rd(t.w, fds.back(), started, done).detach();
    }
    started.await(n);
    auto mid = read_all(reg().Scrape());
    auto active = [&](const Counters& c) { return at(c, "kio_worker_active_coroutines", 3); };
    MC_CHECK(active(mid) - active(before) == n, "%d operations are in flight, the gauge rose from %g to %g", n, active(before), active(mid));
    open = true;
    fk::kick();
    done.await(n);
    auto after = read_all(reg().Scrape());
    MC_CHECK(active(after) == active(before), "nothing is in flight but the gauge went from %g to %g", active(before), active(after));
    MC_CHECK(at(after, "kio_worker_read_ops_total", 3) == n, "%g reads counted of %d", at(after, "kio_worker_read_ops_total", 3), n);
    mc::outcome(std::to_string(n) + " in flight, resizes " + std::to_string((int) at(after, "kio_worker_coroutine_pool_resizes_total", 3)));
    t.stop();
    for (int f: fds) ::close(f);
}
// far more collectors than any table is likely to start with
SCENARIO(many_collectors, {.horizon = 10000000})
{
    static const int n[] = {8, 33, 64, 65, 129, 300};
    const int k = n[mc::choose_free(6, "collectors")];
    std::vector<std::vector<Reg>> r(2);
    std::vector<std::vector<Scr>> s(2);
    for (int i = 0; i < k / 2; i++) register_one(i, r[0]);
    scrape_one(s[0]);
    std::thread t([&] { scrape_one(s[1]); scrape_one(s[1]); });
    for (int i = k / 2; i < k; i++) register_one(i, r[1]);
    scrape_one(s[0]);
    t.join();
    scrape_one(s[1]);
    judge(r, s);
}
