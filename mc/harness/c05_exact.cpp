// C05: exact transfers move precisely the requested bytes, in order, at the right offsets, under every
// sequence of short transfers, end-of-file and errors the kernel may answer with.
#include "kioh.h"
#include "scratch.h"
#include <poll.h>
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    enum Mode { READ, READ_AT, WRITE, WRITE_AT };
    uint64_t OFF0 = 1000;  // where positioned transfers begin
    constexpr uint64_t FAR = (5ull << 32) - 2;
    char pattern(uint64_t pos) { return (char) ('A' + pos % 23); }

    struct Script
    {
        Mode m;
        size_t total;
        size_t done = 0;
        int failed = 0;  // first non-positive answer (as errno, or -1 for EOF)
        bool ended = false;
        size_t calls = 0;
        std::string sink;
        std::string hist;
        const char* base = nullptr;  // memory that is not to be touched
        bool handle(const fk::Op& o, int& res)
        {
            const bool rd = m == READ || m == READ_AT;
            const bool at = m == READ_AT || m == WRITE_AT;
            calls++;
            MC_CHECK(!ended, "the kernel was asked again after answering %s", hist.c_str());
            MC_CHECK(o.opcode == (rd ? IORING_OP_READ : IORING_OP_WRITE), "unexpected %s", fk::opname(o.opcode));
            MC_CHECK(o.len >= 1 && o.len <= total - done, "asked for %u bytes with %zu left", o.len, total - done);
            MC_CHECK(o.off == (at ? OFF0 + done : ~0ull), "offset %lld with %zu bytes done", (long long) o.off, done);
            const size_t left = o.len;
            // answers: 1..left bytes (some of them only when they are many), end of file, two errors
            std::vector<int> amounts;
            if (total <= 16)
                for (size_t i = left; i >= 1; i--) amounts.push_back((int) i);
            else
            {
                amounts.push_back((int) std::min<size_t>(left, 0x7ffff000));
                if (calls < 3)
                    for (size_t i: {left / 2, size_t(1)})
                        if (i && (int) i < amounts[0]) amounts.push_back((int) i);
            }
            const int k = mc::choose_free((int) amounts.size() + 3, "transfer");
            if (k < (int) amounts.size())
            {
                const int n = amounts[(size_t) k];  // default: everything
                if (base)
                    MC_CHECK((const char*) o.addr == base + done, "byte %zu of the request is not where it belongs", done);
                else
                    for (int i = 0; i < n; i++)
                    {
                        if (rd)
                            ((char*) o.addr)[i] = pattern(OFF0 + done + (uint64_t) i);
                        else
                            sink += ((const char*) o.addr)[i];
                    }
                done += (size_t) n;
                if (done == total) ended = true;
                res = n;
            }
            else
            {
                ended = true;
                const int e = k - (int) amounts.size();
                res = e == 0 ? 0 : e == 1 ? -EIO : -ECONNRESET;
                failed = e == 0 ? -1 : -res;
            }
            hist += std::to_string(res) + " ";
            return true;
        }
    };

    Task<Result<void>> run(io::Worker& w, Mode m, int fd, std::span<char> b)
    {
        co_await io::SwitchToWorker(w);
        switch (m)
        {
            case READ: co_return co_await w.async_read_exact(fd, b);
            case READ_AT: co_return co_await w.async_read_exact_at(fd, b, OFF0);
            case WRITE: co_return co_await w.async_write_exact(fd, b);
            default: co_return co_await w.async_write_exact_at(fd, b, OFF0);
        }
    }
    Task<io::WorkerStats> stats(io::Worker& w)
    {
        co_await io::SwitchToWorker(w);
        co_return w.get_stats();
    }
    void exact(size_t total, uint64_t from = 1000)
    {
        OFF0 = from;
        Script s;
        s.m = (Mode) mc::choose_free(4, "operation");
        s.total = total;
        std::string buf(total + 4, '.');
        const bool rd = s.m == READ || s.m == READ_AT;
        if (!rd)
            for (size_t i = 0; i < total; i++) buf[2 + i] = pattern(OFF0 + i);
        Result<void> r;
        io::WorkerStats st;
        {
            kh::WT wt;
            wt.ready();
            int fd = fk::make_fd([&](const fk::Op& o, int& res) { return s.handle(o, res); });
            r = SyncWait(run(wt.w, s.m, fd, std::span<char>(buf.data() + 2, total)));
            st = SyncWait(stats(wt.w));
            wt.stop();
            close(fd);
        }
        const std::string expect = [&]
        {
            std::string e(total + 4, '.');
            for (size_t i = 0; i < (rd ? s.done : total); i++) e[2 + i] = pattern(OFF0 + i);
            return e;
        }();
        if (total <= 16) MC_CHECK(buf == expect, "buffer after [%s] is %s, expected %s", s.hist.c_str(), buf.c_str(), expect.c_str());
        MC_CHECK(buf == expect, "the buffer of %zu bytes is wrong after [%s]", total, s.hist.c_str());
        if (!rd)
            for (size_t i = 0; i < s.done; i++) MC_CHECK(i < s.sink.size() && s.sink[i] == pattern(OFF0 + i), "byte %zu written wrong after [%s]", i, s.hist.c_str());
        MC_CHECK(r.has_value() == (s.done == total), "reported %s after [%s]", r ? "success" : "failure", s.hist.c_str());
        if (s.failed > 0) MC_CHECK(r.error().value == s.failed, "error %d reported as %d", s.failed, r.error().value);
        if (s.failed < 0) MC_CHECK(r.error().value == kIoEof, "end of file reported as %d", r.error().value);
        MC_CHECK((rd ? st.bytes_read_total : st.bytes_written_total) == s.done, "byte counter is off");
        MC_CHECK((rd ? st.bytes_written_total : st.bytes_read_total) == 0, "wrong byte counter");
        const uint64_t okops = s.calls - (s.failed > 0 ? 1 : 0);
        MC_CHECK((rd ? st.read_ops_total : st.write_ops_total) == okops, "operation counter %lu after [%s]", (unsigned long) (rd ? st.read_ops_total : st.write_ops_total), s.hist.c_str());
        kh::check_fds("exact");
        mc::outcome(std::to_string(s.m) + ":" + s.hist);
    }

    // more than the kernel can count in one operation, in memory that nobody touches
    void huge()
    {
        OFF0 = 1000;
        const size_t totals[] = {1ull << 32, (1ull << 32) + 5, 1ull << 31, (1ull << 31) + 1, 3ull << 30, 1ull << 33};
        Script s;
        s.m = (Mode) mc::choose_free(4, "operation");
        s.total = totals[mc::choose_free(6, "bytes")];
        s.base = (const char*) 0x600000000000;  // an address only
        Result<void> r;
        {
            kh::WT wt;
            wt.ready();
            int fd = fk::make_fd([&](const fk::Op& o, int& res) { return s.handle(o, res); });
            r = SyncWait(run(wt.w, s.m, fd, std::span<char>((char*) s.base, s.total)));
            wt.stop();
            close(fd);
        }
        MC_CHECK(r.has_value() == (s.done == s.total), "%zu bytes: reported %s after [%s]", s.total, r ? "success" : "failure", s.hist.c_str());
        MC_CHECK(r || s.ended, "%zu bytes: gave up (%d) although nothing failed: [%s]", s.total, r.error().value, s.hist.c_str());
        kh::check_fds("huge");
        mc::outcome(std::to_string(s.m) + ":" + std::to_string(s.total >> 20) + ":" + s.hist.substr(0, 12));
    }

    // sendfile: source -> pipe -> destination, any short splice, EOF or error at any point
    Task<Result<void>> send(io::Worker& w, int out, int in, off_t off, size_t n)
    {
        co_await io::SwitchToWorker(w);
        co_return co_await w.async_sendfile(out, in, off, n);
    }
    void sendfile(size_t total, size_t unit, bool pipe_fails, int busy = 0, uint64_t from = 77)
    {
        // busy: how often the (non-blocking) destination may have no room at the moment
        // unit: granularity of short transfers, so that more than one 64 KiB chunk stays enumerable
        const uint64_t off0 = from;
        std::vector<std::pair<uint64_t, size_t>> in_pipe;  // (source position, length)
        std::vector<std::pair<uint64_t, size_t>> delivered;
        int err = 0;
        bool ended = false;
        int busy_seen = 0;
        std::string hist;
        uint64_t src = off0, got = 0;
        int in = -1, out = -1;
        io::WorkerStats st;
        Result<void> r;
        {
            kh::WT wt;
            wt.ready();
            auto amount = [&](size_t want, int& res)
            {
                const size_t steps = std::min<size_t>((want + unit - 1) / unit, 2);
                const int k = mc::choose_free((int) steps + 2, "splice");
                if (k < (int) steps)
                {
                    res = k == 0 ? (int) want : (int) unit;
                    return true;
                }
                ended = true;
                if (k == (int) steps)
                    res = 0, err = -1;
                else
                    res = -EIO, err = EIO;
                return false;
            };
            auto h = [&](const fk::Op& o, int& res)
            {
                if (busy_seen && o.opcode == IORING_OP_POLL_ADD && o.fd == out)
                {
                    MC_CHECK(o.sqe.poll32_events & POLLOUT, "waiting for the wrong event of a destination without room");
                    res = POLLOUT;
                    if (mc::choose_free(2, "poll"))
                    {
                        res = -ENOMEM;
                        ended = true;
                        err = ENOMEM;
                    }
                    hist += "p" + std::to_string(res) + " ";
                    return true;
                }
                MC_CHECK(o.opcode == IORING_OP_SPLICE, "sendfile issued %s", fk::opname(o.opcode));
                MC_CHECK(!ended, "splice after [%s]", hist.c_str());
                const int from = o.sqe.splice_fd_in;
                if (from == in)
                {
                    MC_CHECK(o.sqe.splice_off_in == src, "source offset %lld, expected %lld", (long long) o.sqe.splice_off_in, (long long) src);
                    MC_CHECK(o.len > 0 && o.len <= total - (src - off0), "asked for %u bytes of the source with %zu left", o.len, (size_t) (total - (src - off0)));
                    size_t piped = 0;
                    for (auto& p: in_pipe) piped += p.second;
                    MC_CHECK(piped + o.len <= 65536, "filling the pipe beyond its capacity would block forever");
                    if (amount(o.len, res))
                    {
                        in_pipe.push_back({src, (size_t) res});
                        src += (uint64_t) res;
                    }
                    hist += "i" + std::to_string(res) + " ";
                }
                else
                {
                    MC_CHECK(o.fd == out, "splice to an unknown descriptor");
                    size_t piped = 0;
                    for (auto& p: in_pipe) piped += p.second;
                    MC_CHECK(piped > 0, "reading from an empty pipe would block forever");
                    MC_CHECK(o.len <= piped || true, "-");
                    const size_t can = std::min<size_t>(o.len, piped);
                    if (busy_seen < busy && mc::choose_free(2, "no room"))
                    {
                        busy_seen++;
                        res = -EAGAIN;
                        hist += "b ";
                        return true;
                    }
                    if (amount(can, res))
                    {
                        size_t n = (size_t) res;
                        got += n;
                        while (n)
                        {
                            auto& p = in_pipe.front();
                            const size_t k = std::min(n, p.second);
                            delivered.push_back({p.first, k});
                            p.first += k;
                            p.second -= k;
                            n -= k;
                            if (!p.second) in_pipe.erase(in_pipe.begin());
                        }
                    }
                    hist += "o" + std::to_string(res) + " ";
                }
                return true;
            };
            in = fk::make_fd(h, "source");
            out = fk::make_fd(h, "destination");
            fk::env().all = h;
            if (pipe_fails)
                fk::env().syscall_fault = [](const char* what) { errno = EMFILE; return std::string_view(what) == "pipe"; };
            r = SyncWait(send(wt.w, out, in, (off_t) off0, total));
            st = SyncWait(stats(wt.w));
            wt.stop();
            close(in);
            close(out);
        }
        if (pipe_fails)
        {
            MC_CHECK(!r && r.error().value == EMFILE, "a failing pipe() is not reported");
            kh::check_fds("sendfile");
            mc::outcome("pipe");
            return;
        }
        uint64_t pos = off0;
        for (auto& d: delivered)
        {
            MC_CHECK(d.first == pos, "source bytes delivered out of order after [%s]", hist.c_str());
            pos += d.second;
        }
        MC_CHECK(r.has_value() == (got == total), "sendfile reported %s with %lu of %zu bytes delivered after [%s]", r ? "success" : "failure", (unsigned long) got, total, hist.c_str());
        MC_CHECK(r || ended, "sendfile gave up (%d) although nothing failed: [%s]", r.error().value, hist.c_str());
        if (r) MC_CHECK(src == off0 + total && in_pipe.empty(), "bytes were read from the source but not delivered");
        if (err > 0) MC_CHECK(r.error().value == err, "error %d reported as %d", err, r.error().value);
        if (r) MC_CHECK(st.bytes_written_total == total && st.write_ops_total == 1, "sendfile counters %lu/%lu", (unsigned long) st.bytes_written_total, (unsigned long) st.write_ops_total);
        MC_CHECK(st.bytes_written_total <= got, "more bytes counted (%lu) than delivered (%lu)", (unsigned long) st.bytes_written_total, (unsigned long) got);
        kh::check_fds("sendfile");
        mc::outcome(hist);
    }
    // a regular file written at its position, on a file system that runs full
    void file(size_t total, bool append)
    {
        const std::string before = "0123", path = sc::fresh() + "/f";
        sc::spill(path, before);
        const size_t start = append ? before.size() : (size_t) mc::choose_free(2, "position") * 3;
        std::string data, hist;
        for (size_t i = 0; i < total; i++) data += pattern(i);
        Result<void> r;
        int err = 0;
        size_t left = total;
        {
            kh::WT wt;
            wt.ready();
            fk::env().short_moves = append || mc::choose_free(2, "position moves");
            fk::set_file_observer(sc::dir(), [](const fk::FileEv&) {});
            int fd = ::open(path.c_str(), O_RDWR | (append ? O_APPEND : 0));
            if (!append) ::lseek(fd, (off_t) start, SEEK_SET);
            fk::set_file_fault([&](const char* what, const std::string&) -> int {
                if (std::string_view(what) != "write") return 0;
                const int k = mc::choose_free((int) left + 2, "write");
                if (k == 0) { left = 0; hist += "all "; return 0; }
                if (k < (int) left) { left -= (size_t) k; hist += std::to_string(k) + " "; return k; }
                err = k == (int) left ? EFBIG : ENOSPC;
                hist += "failed";
                return -err;
            });
            r = SyncWait(run(wt.w, WRITE, fd, std::span<char>(data)));
            fk::set_file_fault(nullptr);
            fk::set_file_observer("", nullptr);
            wt.stop();
            ::close(fd);
        }
        std::string want = before;
        const size_t done = total - left;
        if (want.size() < start + done) want.resize(start + done);
        want.replace(start, done, data.substr(0, done));
        const std::string got = sc::slurp(path);
        MC_CHECK(r.has_value() == (left == 0 && !err), "reported %s after [%s]", r ? "success" : "failure", hist.c_str());
        if (err) MC_CHECK(r.error().value == err, "error %d reported as %d", err, r.error().value);
        MC_CHECK(got == want, "after [%s] at %zu the file holds '%s' instead of '%s'", hist.c_str(), start, got.c_str(), want.c_str());
        kh::check_fds("file");
        mc::outcome(hist);
    }
    // two transfers at once on one worker do not mix
    void interleaved()
    {
        Script a, b;
        a.m = READ;
        b.m = WRITE_AT;
        a.total = b.total = 2;
        std::string ba(2, '.'), bb;
        for (size_t i = 0; i < 2; i++) bb += pattern(OFF0 + i);
        Result<void> ra, rb;
        {
            kh::WT wt;
            wt.ready();
            fk::env().order = fk::env().partial = true;
            int fa = fk::make_fd([&](const fk::Op& o, int& res) { return a.handle(o, res); });
            int fb = fk::make_fd([&](const fk::Op& o, int& res) { return b.handle(o, res); });
            std::thread t([&] { rb = SyncWait(run(wt.w, WRITE_AT, fb, std::span<char>(bb.data(), 2))); });
            ra = SyncWait(run(wt.w, READ, fa, std::span<char>(ba.data(), 2)));
            t.join();
            wt.stop();
            close(fa);
            close(fb);
        }
        MC_CHECK(ra.has_value() == (a.done == 2) && rb.has_value() == (b.done == 2), "results mixed up");
        for (size_t i = 0; i < a.done; i++) MC_CHECK(ba[i] == pattern(OFF0 + i), "data mixed up");
        for (size_t i = 0; i < b.done; i++) MC_CHECK(b.sink[i] == pattern(OFF0 + i), "data mixed up");
        mc::outcome(a.hist + "|" + b.hist);
        kh::check_fds("interleaved");
    }
}
SCENARIO(exact_0) { exact(0); }
SCENARIO(exact_1) { exact(1); }
SCENARIO(exact_4) { exact(4); }
SCENARIO(exact_7) { exact(7); }
SCENARIO(exact_far) { exact(4, FAR); }
SCENARIO(exact_long, {.horizon = 100000000}) { static const size_t n[] = {65536, 70001}; exact(n[mc::choose_free(2, "bytes")], mc::choose_free(2, "where") ? FAR : 1000); }
SCENARIO(exact_huge) { huge(); }
SCENARIO(sendfile_far) { sendfile(4, 1, false, 0, FAR); }
SCENARIO(sendfile_small) { sendfile(4, 1, false); }
SCENARIO(sendfile_chunks) { sendfile(65536 + 10, 40000, false); }
SCENARIO(sendfile_zero) { sendfile(0, 1, false); }
SCENARIO(sendfile_busy) { sendfile(3, 1, false, 2); }
SCENARIO(sendfile_no_pipe) { sendfile(4, 1, true); }
SCENARIO(two_transfers) { interleaved(); }
SCENARIO(file_4) { file(4, false); }
SCENARIO(file_6) { file(6, false); }
SCENARIO(file_append_4) { file(4, true); }
