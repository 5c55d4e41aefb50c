// C30: error values keep the code they came from, never look like success, and every operation of a
// worker reports every failure of the kernel as that failure and every success as a success.
#include "kioh.h"
#include <cstring>
#include <poll.h>
#include <set>
#include <sys/uio.h>
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    // the documented classification, restated
    ErrorCategory expected_category(int e)
    {
        using enum ErrorCategory;
        if (e == 0) return Success;
        if (e >= 1000 && e <= 1999) return Uring;
        if (e >= 2000 && e <= 2999) return Serialization;
        if (e >= 3000 && e <= 3999) return Application;
        if (e >= 4000 && e <= 4999) return Tls;
        static const std::set<int> net{EAGAIN, ECONNABORTED, ECONNRESET, ECONNREFUSED, EPIPE, EFAULT, EINVAL, ENETDOWN, ENETUNREACH, ENETRESET, EINPROGRESS, EISCONN, ENOTCONN, ENOTSOCK, EDESTADDRREQ, EMSGSIZE, EPROTONOSUPPORT, EADDRINUSE, EADDRNOTAVAIL, ETIMEDOUT, EHOSTUNREACH, EHOSTDOWN};
        static const std::set<int> file{ENOENT, EACCES, EEXIST, EISDIR, ENOTDIR, ENAMETOOLONG, EROFS, EBADF, EIO, ENOSPC, ESPIPE, EFBIG, ENOTEMPTY, EXDEV};
        static const std::set<int> sys{ENOMEM, EMFILE, ENFILE, EDEADLK, ENOLCK, ENOSYS, ECANCELED, EOWNERDEAD, ENOTRECOVERABLE};
        static const std::set<int> dev{ENODEV, ENXIO, EBUSY};
        if (net.count(e)) return Network;
        if (file.count(e)) return File;
        if (sys.count(e)) return SystemResource;
        if (dev.count(e)) return Device;
        return Unknown;
    }
    const int custom_codes[] = {kIouringSqFull, kIouringCqFull, kIouringSqeTooEarly, kIouringCancelled, kIoDeserialization, kIoDataCorrupted, kIoEof, kIoNeedMoreData, kAppEmptyBuffer, kAppUnknown, kAppInvalidArg, kTlsHandshakeFailed, kTlsContextCreationFailed, kTlsKtlsEnableFailed, kTlsCertificateLoadFailed, kTlsPrivateKeyLoadFailed, kTlsVerificationFailed, kTlsNotConnected, kTlsAlreadyConnected, kTlsUnsupportedCipher, kTlsWantRead, kTlsWantWrite, kTlsShutdownFailed};

    enum OpKind { ACCEPT, ACCEPT_ADDR, READ, READ_AT, READ_EXACT, READ_EXACT_AT, OPENAT, WRITE, WRITE_AT, WRITE_EXACT, WRITE_EXACT_AT, READV, WRITEV, CONNECT, FALLOCATE, CLOSE, FSYNC, FDATASYNC, UNLINK, FTRUNCATE, POLL, SENDFILE_IN, SENDFILE_OUT, SENDMSG, NOPS };
    const char* op_names[] = {"accept", "accept with address", "read", "read_at", "read_exact", "read_exact_at", "openat", "write", "write_at", "write_exact", "write_exact_at", "readv", "writev", "connect", "fallocate", "close", "fsync", "fdatasync", "unlink", "ftruncate", "poll", "sendfile input", "sendfile output", "sendmsg"};

    struct Outcome
    {
        bool ok;
        int value;   // result, or error code
        ErrorCategory cat = ErrorCategory::Success;
    };
    template<class R>
    Outcome of(const R& r)
    {
        if (!r) return {false, r.error().value, r.error().category};
        if constexpr (std::is_void_v<typename R::value_type>) return {true, 0};
        else return {true, (int) *r};
    }
    Task<Outcome> perform(io::Worker& w, OpKind k, int fd)
    {
        char buf[8] = {};
        iovec iov{buf, sizeof buf};
        msghdr mh{};
        mh.msg_iov = &iov;
        mh.msg_iovlen = 1;
        sockaddr_storage ss{};
        socklen_t sl = sizeof ss;
        std::span<char> b(buf, 8);
        switch (k)
        {
            case ACCEPT: co_return of(co_await w.async_accept(fd, nullptr, nullptr));
            case ACCEPT_ADDR: co_return of(co_await w.async_accept(fd, (sockaddr*) &ss, &sl));
            case READ: co_return of(co_await w.async_read(fd, b));
            case READ_AT: co_return of(co_await w.async_read_at(fd, b, 4));
            case READ_EXACT: co_return of(co_await w.async_read_exact(fd, b));
            case READ_EXACT_AT: co_return of(co_await w.async_read_exact_at(fd, b, 4));
            case OPENAT: co_return of(co_await w.async_openat("/nonexistent/dir/file", O_RDONLY, 0));
            case WRITE: co_return of(co_await w.async_write(fd, b));
            case WRITE_AT: co_return of(co_await w.async_write_at(fd, b, 4));
            case WRITE_EXACT: co_return of(co_await w.async_write_exact(fd, b));
            case WRITE_EXACT_AT: co_return of(co_await w.async_write_exact_at(fd, b, 4));
            case READV: co_return of(co_await w.async_readv(fd, &iov, 1, 0));
            case WRITEV: co_return of(co_await w.async_writev(fd, &iov, 1, 0));
            case CONNECT: co_return of(co_await w.async_connect(fd, (sockaddr*) &ss, sl));
            case FALLOCATE: co_return of(co_await w.async_fallocate(fd, 0, 100));
            case CLOSE: co_return of(co_await w.async_close(fd));
            case FSYNC: co_return of(co_await w.async_fsync(fd));
            case FDATASYNC: co_return of(co_await w.async_fdatasync(fd));
            case UNLINK: co_return of(co_await w.async_unlink_at(fd, "x", 0));
            case FTRUNCATE: co_return of(co_await w.async_ftruncate(fd, 0));
            case POLL: co_return of(co_await w.async_poll(fd, POLLIN));
            case SENDFILE_IN:
            case SENDFILE_OUT: co_return of(co_await w.async_sendfile(fd, fd, 0, 8));
            case SENDMSG: co_return of(co_await w.async_sendmsg(fd, &mh, 0));
            default: co_return Outcome{false, -1};
        }
    }
    // only reached when every answer so far was fine
    Task<Result<int>> leaf(int code)
    {
        if (code) co_return std::unexpected(Error::from_errno(code));
        co_return 41;
    }
    Task<Result<void>> leaf_void(int code)
    {
        if (code) co_return std::unexpected(Error{ErrorCategory::Application, code});
        co_return {};
    }
    Task<Result<std::unique_ptr<int>>> move_only(int a, int b, int* steps)
    {
        int x = KIO_TRY(co_await leaf(a));
        ++*steps;
        KIO_TRY(co_await leaf_void(b));
        ++*steps;
        auto p = std::make_unique<int>(x + KIO_TRY(co_await leaf(0)));
        co_return p;
    }
    Task<Result<int>> nested(int a, int b, int* steps)
    {
        auto p = KIO_TRY(co_await move_only(a, b, steps));
        ++*steps;
        co_return *p;
    }
}  // namespace

SCENARIO(mapping, {.race_check = false})
{
    (void) expected_category(1);
    std::set<std::string> cats;
    for (int c = 0; c <= (int) ErrorCategory::Unknown; c++)
    {
        auto s = std::string(CategoryToString((ErrorCategory) c));
        for (int v: {0, 1, -1}) MC_CHECK(Error::custom((ErrorCategory) c, v).is_success() == (c == (int) ErrorCategory::Success), "code %d of category %s %s success", v, s.c_str(), Error::custom((ErrorCategory) c, v).is_success() ? "is" : "is not");
        MC_CHECK(!s.empty() && cats.insert(s).second, "category %d has no name of its own: %s", c, s.c_str());
    }
    for (int e = -10; e <= 6000; e++)
    {
        mc::Trial t("code");
        Error x = Error::from_errno(e);
        MC_CHECK(x.value == e, "code %d became %d", e, x.value);
        MC_CHECK(x.is_success() == (e == 0), "code %d %s success", e, x.is_success() ? "is" : "is not");
        MC_CHECK(x.category == expected_category(e), "code %d is put in category %s", e, std::string(CategoryToString(x.category)).c_str());
        auto msg = ErrorValueToString(e);
        MC_CHECK(!msg.empty(), "code %d has no message", e);
        if (e > 0 && e < 134) MC_CHECK(msg == strerror(e), "code %d is described as \"%s\"", e, msg.c_str());
        auto f = std::format("{}", x);
        MC_CHECK(f == std::string(CategoryToString(x.category)) + ": " + msg + " (" + std::to_string(e) + ")", "code %d prints as %s", e, f.c_str());
        MC_CHECK(x == Error::from_errno(e) && !(x == Error::from_errno(e + 1)) && !(x == Error::custom(ErrorCategory::Application, e) && e / 1000 != 3), "code %d compares wrongly", e);
        mc::count_states(1);
    }
    std::set<std::string> msgs;
    for (int c: custom_codes)
    {
        auto m = ErrorValueToString(c);
        MC_CHECK(m != "Unknown code", "code %d has no message", c);
        MC_CHECK(msgs.insert(m).second, "code %d shares its message \"%s\" with another", c, m.c_str());
        for (int k = 1; k <= (int) ErrorCategory::Unknown; k++)
        {
            Error x = Error::custom((ErrorCategory) k, c);
            MC_CHECK(x.value == c && (int) x.category == k && !x.is_success(), "custom error %d/%d is not kept", k, c);
        }
    }
    Error none;
    MC_CHECK(none.is_success() && none.value == 0, "a default error is not a success");
    mc::outcome("ok");
}
// every operation, every error code
SCENARIO(operations)
{
    auto k = (OpKind) mc::choose_free(NOPS, "operation");
    int group = mc::choose_free(4, "codes");
    auto wtp = std::make_unique<kh::WT>();
    auto& wt = *wtp;
    wt.ready();
    int answer = 0, splices = 0;
    fk::env().all = [&](const fk::Op& o, int& res) {
        res = answer;
        if (o.opcode == IORING_OP_SPLICE)
        {
            splices++;
            if (k == SENDFILE_OUT && splices == 1 && answer <= 0) res = 8;
            if (answer > 0) res = 8;
        }
        return true;
    };
    auto open_one = [&] { return fk::make_fd([&](const fk::Op& o, int& res) { return fk::env().all(o, res); }); };
    int fd = open_one();
    auto all = [&]() -> Task<void> {
        co_await io::SwitchToWorker(wt.w);
        for (int e = 1 + group * 40; e <= 40 + group * 40; e++)
        {
            answer = -e;
            splices = 0;
            if (!fk::is_open(fd)) fd = open_one();
            auto r = co_await perform(wt.w, k, fd);
            MC_CHECK(!r.ok, "%s reported success (%d) although the kernel answered -%d", op_names[k], r.value, e);
            MC_CHECK(r.value == e && r.cat == expected_category(e), "%s turned error %d into %d", op_names[k], e, r.value);
            mc::count_states(1);
        }
        if (k == CLOSE) co_return;
        // and the results that are none
        for (int n: {0, 1, 7, 8})
        {
            answer = n;
            splices = 0;
            bool exact = k == READ_EXACT || k == READ_EXACT_AT || k == WRITE_EXACT || k == WRITE_EXACT_AT;
            bool send = k == SENDFILE_IN || k == SENDFILE_OUT;
            bool plain = k == UNLINK || k == CONNECT || k == FALLOCATE || k == FSYNC || k == FDATASYNC || k == FTRUNCATE || k == SENDMSG;
            if (exact && (n == 1 || n == 7)) continue;
            if (plain && k != SENDMSG && n != 0) continue;
            auto r = co_await perform(wt.w, k, fd);
            if ((exact || send) && n == 0)
            {
                MC_CHECK(!r.ok, "%s reported success after an end of file", op_names[k]);
                continue;
            }
            MC_CHECK(r.ok, "%s reported error %d although the kernel answered %d", op_names[k], r.value, n);
            if (!exact && !send && !plain && k != POLL) MC_CHECK(r.value == n, "%s reported %d instead of %d", op_names[k], r.value, n);
        }
    };
    SyncWait(all());
    wtp.reset();
    if (fk::is_open(fd)) close(fd);
    kh::check_fds(op_names[k]);
    mc::outcome(op_names[k]);
}
// the pipe that sendfile needs
SCENARIO(pipe_failure)
{
    auto wtp = std::make_unique<kh::WT>();
    auto& wt = *wtp;
    wt.ready();
    int fd = fk::make_fd();
    static const int codes[] = {EMFILE, ENFILE, EFAULT};
    int code = codes[mc::choose_free(3, "code")];
    fk::env().syscall_fault = [&](const char* what) {
        if (strcmp(what, "pipe") != 0) return false;
        errno = code;
        return true;
    };
    auto run = [&]() -> Task<Outcome> {
        co_await io::SwitchToWorker(wt.w);
        co_return of(co_await wt.w.async_sendfile(fd, fd, 0, 8));
    };
    auto r = SyncWait(run());
    MC_CHECK(!r.ok && r.value == code, "sendfile without a pipe: %s %d", r.ok ? "success" : "error", r.value);
    wtp.reset();
    close(fd);
    kh::check_fds("sendfile");
    mc::outcome("ok");
}
// errors travel through KIO_TRY unchanged and stop the coroutine; values come out whole
SCENARIO(propagation)
{
    static const int codes[] = {0, 1, EIO, ECANCELED, kIoEof, kTlsWantRead};
    int a = codes[mc::choose_free(6, "first")], b = codes[mc::choose_free(6, "second")];
    int steps = 0;
    auto r = SyncWait(nested(a, b, &steps));
    if (a)
        MC_CHECK(!r && r.error() == Error::from_errno(a) && steps == 0, "error %d came out as %s %d after %d steps", a, r ? "value" : "error", r ? *r : r.error().value, steps);
    else if (b)
        MC_CHECK(!r && r.error() == (Error{ErrorCategory::Application, b}) && steps == 1, "error %d came out as %s %d after %d steps", b, r ? "value" : "error", r ? *r : r.error().value, steps);
    else
        MC_CHECK(r && *r == 82 && steps == 3, "the value got lost");
    mc::outcome(a ? "first" : b ? "second" : "value");
}
