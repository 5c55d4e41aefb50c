// C04: every I/O completion resumes exactly the coroutine that issued the operation, once, with that
// operation's own result, in whatever order the kernel completes; running out of operation slots or
// submission entries is reported to the caller that could not be served and disturbs nobody else.
#include "kioh.h"
#include <poll.h>
#include <map>
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    struct Got
    {
        int n = 0;
        int res = -1;
        int err = 0;
        bool threw = false;
    };
    struct Ctx
    {
        Got g[16];
        kh::Event ev;
        std::vector<int> submitted;  // fd of every user operation the kernel accepted
    };
    // A scripted descriptor: a read of it returns its own number of bytes, and fills in its own byte.
    int mkfd(int k)
    {
        return fk::make_fd(
                [k](const fk::Op& o, int& res)
                {
                    if (o.opcode == IORING_OP_READ)
                    {
                        MC_CHECK((int) o.len >= k, "operation of another caller on descriptor %d", k);
                        for (int i = 0; i < k; i++) ((char*) o.addr)[i] = (char) ('a' + k);
                        res = k;
                        return true;
                    }
                    res = -EINVAL;
                    return true;
                });
    }
    void watch(Ctx& c)
    {
        fk::env().on_submit = [&c](const fk::Op& o)
        {
            if (o.user_data == ~0ull) return;
            c.submitted.push_back(o.fd);
        };
    }
    // one task: switches to the worker, then `rounds` reads of its own descriptor
    DetachedTask reader(io::Worker& w, int fd, int k, int rounds, Ctx& c, bool hop)
    {
        if (hop) co_await io::SwitchToWorker(w);
        for (int r = 0; r < rounds; r++)
        {
            std::array<char, 16> b{};
            try
            {
                auto x = co_await w.async_read(fd, std::span<char>(b.data(), b.size()));
                c.g[k].n++;
                if (x)
                {
                    c.g[k].res = *x;
                    MC_CHECK(*x == k, "task %d received the result %d of another operation", k, *x);
                    for (int i = 0; i < 16; i++) MC_CHECK(b[(size_t) i] == (i < k ? (char) ('a' + k) : 0), "task %d's buffer was touched by another operation", k);
                }
                else
                    c.g[k].err = x.error().value;
            }
            catch (const std::runtime_error&)
            {
                c.g[k].n++;
                c.g[k].threw = true;
            }
        }
        c.ev.hit();
    }
    DetachedTask launch(io::Worker& w, std::vector<int> fds, int rounds, Ctx& c)
    {
        co_await io::SwitchToWorker(w);
        for (size_t i = 0; i < fds.size(); i++) reader(w, fds[i], (int) i + 1, rounds, c, false).detach();
    }
    std::string summary(const Ctx& c, int n)
    {
        std::string s;
        for (int i = 1; i <= n; i++) s += c.g[i].threw ? "x" : c.g[i].err ? "e" : "r";
        return s;
    }
    // n operations in flight at once, any completion order, growing slot pool
    void concurrent(int n, int rounds, size_t slots, bool order, size_t cq = 0, bool probe = true)
    {
        Ctx c;
        {
            watch(c);
            fk::env().order = fk::env().partial = order;
            fk::env().cq_entries = cq;
            kh::WT wt(0, kh::small(16, slots));
            wt.ready();
            std::vector<int> fds;
            for (int i = 1; i <= n; i++) fds.push_back(mkfd(i));
            launch(wt.w, fds, rounds, c).detach();
            c.ev.await(n);
            if (probe)
            {
                auto probe_task = [](io::Worker& w) -> Task<uint64_t>
                {
                    co_await io::SwitchToWorker(w);
                    co_return w.get_stats().active_coroutines;
                };
                auto act = SyncWait(probe_task(wt.w));
                MC_CHECK(act == 0, "%lu operation slots still in use after everything completed", (unsigned long) act);
            }
            wt.stop();
            for (int f: fds) close(f);
        }
        for (int i = 1; i <= n; i++)
        {
            MC_CHECK(c.g[i].n == rounds, "task %d was resumed %d times for %d operations", i, c.g[i].n, rounds);
            MC_CHECK(!c.g[i].threw && !c.g[i].err && c.g[i].res == i, "task %d did not get its result", i);
        }
        MC_CHECK((int) c.submitted.size() == n * rounds, "%zu operations reached the kernel, %d were issued", c.submitted.size(), n * rounds);
        kh::check_fds("concurrent");
        mc::outcome(summary(c, n));
    }
    // more operations than slots: the surplus is told, the rest completes, nothing stale is submitted
    void exhausted(int n, size_t slots, size_t max_slots, size_t depth, bool order, bool again = true)
    {
        Ctx c;
        int served = 0, refused = 0, later = 0;
        Got first[16];
        {
            watch(c);
            fk::env().order = order;
            auto cfg = kh::small(depth, slots);
            cfg.max_op_slots = max_slots;
            kh::WT wt(0, cfg);
            wt.ready();
            std::vector<int> fds;
            for (int i = 1; i <= n; i++) fds.push_back(mkfd(i));
            launch(wt.w, fds, 1, c).detach();
            c.ev.await(n);
            // and afterwards the worker still serves everybody, as many at once as before
            if (again) for (int k = 1; k <= n; k++) first[k] = c.g[k], c.g[k] = {};
            if (again)
            {
                launch(wt.w, fds, 1, c).detach();
                c.ev.await(2 * n);
                for (int k = 1; k <= n; k++)
                {
                    MC_CHECK(c.g[k].n == 1, "task %d was resumed %d times for one operation", k, c.g[k].n);
                    if (!c.g[k].threw && !c.g[k].err) later++;
                }
                for (int k = 1; k <= n; k++) c.g[k] = first[k];
            }
            Ctx c2;
            reader(wt.w, fds[0], 1, 2, c2, true).detach();
            c2.ev.await(1);
            auto idle = [](io::Worker& w) -> Task<uint64_t>
            {
                co_await io::SwitchToWorker(w);
                co_return w.get_stats().active_coroutines;
            };
            const auto used = SyncWait(idle(wt.w));
            MC_CHECK(used == 0, "%lu operation slots still in use after everything completed", (unsigned long) used);
            MC_CHECK(c2.g[1].n == 2 && c2.g[1].res == 1 && !c2.g[1].threw, "the worker no longer serves operations after exhaustion");
            wt.stop();
            for (int f: fds) close(f);
        }
        std::map<int, int> per;
        for (int f: c.submitted) per[f]++;
        for (int i = 1; i <= n; i++)
        {
            MC_CHECK(c.g[i].n == 1, "task %d was resumed %d times for one operation", i, c.g[i].n);
            const bool ref = c.g[i].threw || c.g[i].err;
            (ref ? refused : served)++;
            if (!ref) MC_CHECK(c.g[i].res == i, "task %d got result %d", i, c.g[i].res);
        }
        MC_CHECK((int) c.submitted.size() == served + later + 2, "%zu operations reached the kernel but %d callers were served", c.submitted.size(), served + later + 2);
        const size_t room = std::min(max_slots, depth);
        MC_CHECK(served >= (int) std::min((size_t) n, room - (depth < max_slots ? 1 : 0)), "only %d of %d operations served with room for %zu", served, n, room);
        if (again) MC_CHECK(later == served, "%d operations served at first, %d when the same is done again", served, later);
        kh::check_fds("exhausted");
        mc::outcome(summary(c, n));
    }
    // hundreds of operations in flight at once, released together or one by one from either end
    struct Mob
    {
        std::vector<int> n, res;
        int bad = 0;  // worker thread only
        std::atomic<int> running{0};
        kh::Event ev;
    };
    DetachedTask mobster(io::Worker& w, int fd, int k, int rounds, Mob& m)
    {
        for (int r = 0; r < rounds; r++)
        {
            char b[1024];
            auto x = co_await w.async_read(fd, std::span<char>(b, sizeof b));
            m.n[(size_t) k]++;
            if (!x || *x != k || b[0] != (char) k || b[k - 1] != (char) k) { if (!m.bad) mc::log("k %d: %s %d", k, x ? "value" : "error", x ? *x : x.error().value); m.bad++; }
        }
        m.ev.hit();
    }
    DetachedTask gather(io::Worker& w, const std::vector<int>& fds, int rounds, Mob& m)
    {
        co_await io::SwitchToWorker(w);
        for (size_t i = 0; i < fds.size(); i++) mobster(w, fds[i], (int) i + 1, rounds, m).detach();
        m.running = 1;
        m.running.notify_all();
    }
    void mob(int n)
    {
        const int release = mc::choose_free(3, "released"), slots = mc::choose_free(3, "slots"), rounds = 1 + mc::choose_free(2, "rounds");
        Mob m;
        m.n.resize((size_t) n + 1);
        std::atomic<int> low{0}, high{n + 1};  // descriptors up to low and from high on have data
        {
            kh::WT wt(0, kh::small(512, slots == 0 ? 1 : slots == 1 ? 256 : 1024));
            wt.ready();
            std::vector<int> fds;
            for (int k = 1; k <= n; k++)
                fds.push_back(fk::make_fd([k, &low, &high](const fk::Op& o, int& res) {
                    if (k > low && k < high) return false;
                    std::memset((void*) o.addr, k, (size_t) k);
                    res = k;
                    return true;
                }));
            gather(wt.w, fds, rounds, m).detach();
            m.running.wait(0);
            if (release == 0) low = n, fk::kick();
            else
                for (int i = 1; i <= n; i++)
                {
                    if (release == 1) low = i;
                    else high = n + 1 - i;
                    fk::kick();
                }
            m.ev.await(n);
            auto idle = [](io::Worker& w) -> Task<uint64_t>
            {
                co_await io::SwitchToWorker(w);
                co_return w.get_stats().active_coroutines;
            };
            const auto used = SyncWait(idle(wt.w));
            MC_CHECK(used == 0, "%lu operation slots still in use after everything completed", (unsigned long) used);
            wt.stop();
            for (int f: fds) close(f);
        }
        for (int k = 1; k <= n; k++) MC_CHECK(m.n[(size_t) k] == rounds, "task %d of %d was resumed %d times for %d operations", k, n, m.n[(size_t) k], rounds);
        MC_CHECK(m.bad == 0, "%d of %d operations in flight got the result of another", m.bad, n);
        kh::check_fds("mob");
        mc::outcome(std::to_string(release) + std::to_string(slots));
    }
    // slots are reused while completions of the same batch are still being delivered
    void cross_posts()
    {
        Ctx c;
        {
            watch(c);
            fk::env().order = fk::env().partial = true;
            kh::WT wt(0, kh::small(16, 2));
            wt.ready();
            int f1 = mkfd(1), f2 = mkfd(2), f3 = mkfd(3);
            std::thread t([&] { reader(wt.w, f3, 3, 1, c, true).detach(); });
            reader(wt.w, f1, 1, 2, c, true).detach();
            reader(wt.w, f2, 2, 1, c, true).detach();
            c.ev.await(3);
            t.join();
            wt.stop();
            close(f1);
            close(f2);
            close(f3);
        }
        MC_CHECK(c.g[1].n == 2 && c.g[2].n == 1 && c.g[3].n == 1, "resumed %d/%d/%d times", c.g[1].n, c.g[2].n, c.g[3].n);
        mc::outcome(summary(c, 3));
        kh::check_fds("cross posts");
    }
    // operations of every kind answered by the kernel with success or with any of a few errors
    struct Args
    {
        uint64_t off;
        size_t len;
        off_t size;
        int events, flags, open_flags;
        mode_t mode;
        std::chrono::nanoseconds sleep;
    };
    const Args kArgs[5] = {{5, 8, 77, 1, 4, O_RDWR, 0640, std::chrono::nanoseconds(1500000000)},
                           {(7ull << 32) + 5, 5, (9ll << 32) + 1, POLLOUT | POLLRDHUP, 0x4040, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0604, std::chrono::nanoseconds(999999999)},
                           {0, 1, 0, 0, 0, O_RDONLY, 0, std::chrono::hours(24 * 365) + std::chrono::nanoseconds(7)},
                           {1, 65536, 1, POLLIN, 0, O_RDWR, 0777, std::chrono::nanoseconds(1)},
                           {~0ull >> 1, (1 << 24) + 3, (off_t) (~0ull >> 1), POLLIN, 0, O_RDWR, 07777, std::chrono::hours(24 * 365 * 200)}};
    DetachedTask every_op(io::Worker& w, int fd, int kind, const Args& a, io_uring_sqe& exp, int& got, bool& okv, int& val, kh::Event& ev)
    {
        co_await io::SwitchToWorker(w);
        static char small_buf[8];
        char* buf = a.len > 8 ? (char*) 0x600000000000 : small_buf;  // nobody touches it
        iovec iv[2] = {{buf, 3}, {buf + 3, 5}};
        sockaddr_storage ss{};
        socklen_t sl = sizeof ss;
        msghdr mh{};
        mh.msg_iov = iv;
        mh.msg_iovlen = 1;
        const std::span<char> rb(buf, a.len);
        const std::span<const char> wb(buf, a.len);
        // the request the kernel has to see
        switch (kind)
        {
            case 0: io_uring_prep_read(&exp, fd, buf, (unsigned) a.len, ~0ull); break;
            case 1: io_uring_prep_read(&exp, fd, buf, (unsigned) a.len, a.off); break;
            case 2: io_uring_prep_write(&exp, fd, buf, (unsigned) a.len, ~0ull); break;
            case 3: io_uring_prep_write(&exp, fd, buf, (unsigned) a.len, a.off); break;
            case 4: io_uring_prep_readv(&exp, fd, iv, 2, a.off); break;
            case 5: io_uring_prep_writev(&exp, fd, iv, 2, a.off); break;
            case 6: io_uring_prep_accept(&exp, fd, (sockaddr*) &ss, &sl, 0); break;
            case 7: io_uring_prep_connect(&exp, fd, (sockaddr*) &ss, sizeof(sockaddr_in)); break;
            case 8: io_uring_prep_fsync(&exp, fd, 0); break;
            case 9: io_uring_prep_fsync(&exp, fd, IORING_FSYNC_DATASYNC); break;
            case 10: io_uring_prep_fallocate(&exp, fd, 1, 0, a.size); break;
            case 11: exp.opcode = 55; exp.fd = fd; exp.off = (uint64_t) a.size; break;
            case 12: io_uring_prep_poll_add(&exp, fd, (unsigned) a.events); break;
            case 13: io_uring_prep_sendmsg(&exp, fd, &mh, (unsigned) a.flags); break;
            case 14: io_uring_prep_openat(&exp, AT_FDCWD, "", a.open_flags, a.mode); break;
            case 15: io_uring_prep_unlinkat(&exp, AT_FDCWD, "", a.flags); break;
            case 16: io_uring_prep_close(&exp, fd); break;
            case 18: io_uring_prep_readv(&exp, fd, iv, 2, ~0ull); break;
            case 19: io_uring_prep_writev(&exp, fd, iv, 2, ~0ull); break;
        }
        auto take = [&](auto r)
        {
            okv = r.has_value();
            if (!r) val = r.error().value;
            if constexpr (!std::is_void_v<typename decltype(r)::value_type>)
                if (r) val = *r;
        };
        switch (kind)
        {
            case 0: take(co_await w.async_read(fd, rb)); break;
            case 1: take(co_await w.async_read_at(fd, rb, a.off)); break;
            case 2: take(co_await w.async_write(fd, wb)); break;
            case 3: take(co_await w.async_write_at(fd, wb, a.off)); break;
            case 4: take(co_await w.async_readv(fd, iv, 2, a.off)); break;
            case 5: take(co_await w.async_writev(fd, iv, 2, a.off)); break;
            case 6: take(co_await w.async_accept(fd, (sockaddr*) &ss, &sl)); break;
            case 7: take(co_await w.async_connect(fd, (sockaddr*) &ss, sizeof(sockaddr_in))); break;
            case 8: take(co_await w.async_fsync(fd)); break;
            case 9: take(co_await w.async_fdatasync(fd)); break;
            case 10: take(co_await w.async_fallocate(fd, 1, a.size)); break;
            case 11: take(co_await w.async_ftruncate(fd, a.size)); break;
            case 12: take(co_await w.async_poll(fd, a.events)); break;
            case 13: take(co_await w.async_sendmsg(fd, &mh, a.flags)); break;
            case 14: take(co_await w.async_openat("/x/y", a.open_flags, a.mode)); break;
            case 15: take(co_await w.async_unlink_at(AT_FDCWD, "/x/z", a.flags)); break;
            case 16: take(co_await w.async_close(fd)); break;
            case 17: take(co_await w.async_sleep(a.sleep)); break;
            case 18: take(co_await w.async_readv(fd, iv, 2, (uint64_t) -1)); break;
            case 19: take(co_await w.async_writev(fd, iv, 2, (uint64_t) -1)); break;
        }
        got++;
        ev.hit();
    }
    struct Want
    {
        int op;
        const char* name;
        bool value;  // carries the kernel's result
    };
    const Want kOps[20] = {{IORING_OP_READ, "read", true}, {IORING_OP_READ, "read_at", true}, {IORING_OP_WRITE, "write", true}, {IORING_OP_WRITE, "write_at", true}, {IORING_OP_READV, "readv", true},
                           {IORING_OP_WRITEV, "writev", true}, {IORING_OP_ACCEPT, "accept", true}, {IORING_OP_CONNECT, "connect", false}, {IORING_OP_FSYNC, "fsync", false}, {IORING_OP_FSYNC, "fdatasync", false},
                           {IORING_OP_FALLOCATE, "fallocate", false}, {55, "ftruncate", false}, {IORING_OP_POLL_ADD, "poll", false}, {IORING_OP_SENDMSG, "sendmsg", false}, {IORING_OP_OPENAT, "openat", true},
                           {IORING_OP_UNLINKAT, "unlink_at", false}, {IORING_OP_CLOSE, "close", false}, {IORING_OP_TIMEOUT, "sleep", false},
                           {IORING_OP_READV, "readv", true}, {IORING_OP_WRITEV, "writev", true}};
    void all_ops()
    {
        const int kind = mc::choose_free(20, "operation");
        const Args& args = kArgs[mc::choose_free(5, "arguments")];
        io_uring_sqe exp{};
        const int results[] = {0, 5, -EIO, -ENOSPC, -EBADF, -ECANCELED, -EINTR, -ETIME};
        const int res = results[mc::choose_free(8, "kernel-result")];
        const Want& want = kOps[kind];
        int got = 0, val = 0, seen = 0;
        bool okv = false;
        io::WorkerStats st;
        {
            kh::WT wt;
            wt.ready();
            auto h = [&](const fk::Op& o, int& r)
            {
                seen++;
                MC_CHECK(o.opcode == want.op, "%s issued kernel operation %s", want.name, fk::opname(o.opcode));
                MC_CHECK(o.fd == exp.fd, "%s: descriptor %d instead of %d", want.name, o.fd, exp.fd);
                MC_CHECK(o.off == exp.off, "%s: offset %llx instead of %llx", want.name, (unsigned long long) o.off, (unsigned long long) exp.off);
                MC_CHECK(o.len == exp.len, "%s: length %u instead of %u", want.name, o.len, exp.len);
                if (kind == 14 || kind == 15)
                    MC_CHECK(o.path == (kind == 14 ? "/x/y" : "/x/z"), "%s: path '%s'", want.name, o.path.c_str());
                else
                    MC_CHECK(o.addr == exp.addr, "%s: wrong memory", want.name);
                if (kind != 6) MC_CHECK(o.opflags == (uint32_t) exp.rw_flags, "%s: flags %x instead of %x", want.name, o.opflags, (uint32_t) exp.rw_flags);
                r = res;
                return true;
            };
            fk::env().all = h;
            int fd = fk::make_fd(h);
            if (kind == 17)
            {
                fk::env().on_submit = [&](const fk::Op& o)
                {
                    if (o.opcode == IORING_OP_TIMEOUT)
                    {
                        seen++;
                        MC_CHECK(o.deadline - mc::now_ns() == (uint64_t) args.sleep.count(), "sleep deadline is %llu ns away", (unsigned long long) (o.deadline - mc::now_ns()));
                    }
                };
            }
            kh::Event ev;
            every_op(wt.w, fd, kind, args, exp, got, okv, val, ev).detach();
            ev.await(1);
            auto probe = [](io::Worker& w) -> Task<io::WorkerStats>
            {
                co_await io::SwitchToWorker(w);
                co_return w.get_stats();
            };
            st = SyncWait(probe(wt.w));
            wt.stop();
            if (fk::is_open(fd)) close(fd);
        }
        MC_CHECK(got == 1 && seen == 1, "%s: resumed %d times for %d kernel operations", want.name, got, seen);
        if (kind == 17)
            MC_CHECK(okv, "an expired sleep is an error");
        else if (kind == 16 && res > 0)
            ;  // close never returns a positive number
        else
        {
            MC_CHECK(okv == (res >= 0), "%s: kernel answered %d, caller sees %s", want.name, res, okv ? "success" : "an error");
            if (res < 0) MC_CHECK(val == -res, "%s: kernel error %d reported as %d", want.name, -res, val);
            if (res >= 0 && want.value) MC_CHECK(val == res, "%s: kernel result %d reported as %d", want.name, res, val);
            const uint64_t n = res >= 0 ? 1 : 0, by = res >= 0 ? (uint64_t) res : 0;
            const bool rd = kind == 0 || kind == 1 || kind == 4 || kind == 18, wr = kind == 2 || kind == 3 || kind == 5 || kind == 13 || kind == 19;
            MC_CHECK(st.read_ops_total == (rd ? n : 0) && st.bytes_read_total == (rd ? by : 0), "%s: read counters %lu/%lu", want.name, st.read_ops_total, st.bytes_read_total);
            MC_CHECK(st.write_ops_total == (wr ? n : 0) && st.bytes_written_total == (wr ? by : 0), "%s: write counters %lu/%lu", want.name, st.write_ops_total, st.bytes_written_total);
            MC_CHECK(st.connections_accepted_total == (kind == 6 ? n : 0), "accept counter");
            MC_CHECK(st.connect_ops_total == (kind == 7 ? n : 0), "connect counter");
            MC_CHECK(st.open_ops_total == (kind == 14 ? n : 0), "open counter");
        }
        kh::check_fds(want.name);
        mc::outcome(std::string(want.name) + (okv ? "+" : "-"));
    }
}
SCENARIO(in_flight_3) { concurrent(3, 2, 4, true); }
SCENARIO(in_flight_4_grow) { concurrent(4, 2, 2, true); }
SCENARIO(grow_from_one) { concurrent(3, 1, 1, false); }
SCENARIO(grow_from_zero) { concurrent(2, 1, 0, false); }
SCENARIO(tiny_cq) { concurrent(4, 2, 4, false, 2); }
SCENARIO(slots_exhausted) { exhausted(4, 2, 2, 16, true); }
SCENARIO(slots_exhausted_grow) { exhausted(5, 2, 3, 16, false); }
SCENARIO(sq_full) { exhausted(6, 8, 16, 4, true); }
SCENARIO(sq_full_few_slots) { exhausted(6, 4, 5, 4, false); }
SCENARIO(reuse_with_posts) { cross_posts(); }
SCENARIO(every_operation) { all_ops(); }
SCENARIO(mob_300, {.horizon = 10000000}) { mob(300); }
