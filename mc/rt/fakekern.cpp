// See fakekern.h.  Compiled WITHOUT instrumentation.
#include "fakekern.h"
#include "mcrt.h"

#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <netinet/in.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <unistd.h>

#ifndef IORING_OP_FTRUNCATE_NR
#define IORING_OP_FTRUNCATE_NR 55
#endif

using namespace fk;

namespace
{
    constexpr int VBASE = 1000;
    constexpr int MAXV = 512;
    enum Kind
    {
        K_FREE,
        K_EVENT,
        K_RING,
        K_PIPE_R,
        K_PIPE_W,
        K_OTHER
    };
    struct VFd
    {
        Kind kind = K_FREE;
        bool ever = false;
        bool nonblock = false;
        uint64_t count = 0;      // eventfd counter
        int peer = -1;           // pipe
        std::string data;        // pipe contents (in the write end's peer = read end)
        Handler h;
        std::string what;
        Sock sock;
    };
    struct Ring
    {
        int fd;
        unsigned sq_entries, cq_entries;
        unsigned flags;
        int owner;
        std::vector<Op> pending;
        std::vector<std::pair<uint64_t, int>> overflow;
        void* mem = nullptr;
        io_uring* r = nullptr;
        bool dead = false;
    };
    struct FileFd
    {
        std::string path;
        uint64_t pos = 0;
        bool append = false;
        bool writable = false;
    };
    struct State
    {
        VFd v[MAXV];
        char keys[MAXV];  // wait keys
        std::vector<Ring*> rings;
        Env env;
        Closes cl;
        uint64_t seq = 0;
        std::map<int, FileFd> files;
        std::string obs_dir;
        std::function<void(const FileEv&)> obs;
        std::function<int(const char*, const std::string&)> ffault;
        int real_base = -1;
        std::map<int, int> realopen;
    };
    State* K;
    char ring_key_base[64];

    long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
    {
        long r;
        register long r10 asm("r10") = d;
        register long r8 asm("r8") = e;
        register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    long ret(long r)
    {
        if (r < 0)
        {
            errno = (int) -r;
            return -1;
        }
        return r;
    }
    bool act() { return K && mc::rt::active(); }
    // the last slot is descriptor 0, in executions that ask for it
    int slot(int fd) { return fd == 0 ? MAXV - 1 : fd - VBASE; }
    bool is_v(int fd) { return (fd >= VBASE && fd < VBASE + MAXV - 1) || (fd == 0 && K->v[MAXV - 1].ever); }
    VFd* vfd(int fd)
    {
        if (!is_v(fd)) return nullptr;
        VFd* v = &K->v[slot(fd)];
        return v->kind == K_FREE ? nullptr : v;
    }
    int alloc_v(Kind k, const char* what)
    {
        for (int n = 0; n < MAXV; n++)
        {
            int i = K->env.low_fd ? (n + MAXV - 1) % MAXV : n;
            if (i == MAXV - 1 && !K->env.low_fd) break;
            if (K->v[i].kind == K_FREE)
            {
                K->v[i] = VFd{};
                K->v[i].kind = k;
                K->v[i].ever = true;
                K->v[i].what = what;
                return i == MAXV - 1 ? 0 : VBASE + i;
            }
        }
        return -EMFILE;
    }
    const void* ring_key(const Ring* r) { return &ring_key_base[(r->fd - VBASE) % 64]; }
    // A harness handler may be a scheduling point: a wakeup that lands while the kernel looks at
    // the pending operations must not be lost.
    uint64_t kicks = 0;
    void kick_all()
    {
        kicks++;
        for (auto* r: K->rings)
            if (!r->dead) mc::rt::wake_all(ring_key(r));
    }
    // Kernel code runs inside rt::Guard (its own state lives outside the execution's heap); the
    // harness callbacks and the choices run outside of it.
    template<class F, class... A>
    auto out(const F& f, A&&... a)
    {
        F c = f;
        mc::rt::Unguard u;
        return c(std::forward<A>(a)...);
    }
    int pick(int n, const char* label)
    {
        mc::rt::Unguard u;
        return mc::choose(n, label);
    }
    void pt(const char* what, const void* key)
    {
        mc::rt::Unguard u;
        mc::rt::point(what, key);
    }
    template<class T>
    void forget(T& f)
    {
        new ((void*) &f) T();  // callbacks may live in the finished execution's heap: drop, do not destroy
    }
    // descriptor 0 stays taken: nothing of ours may get it
    void close_real(int fd)
    {
        if (fd == 0)
        {
            long n = sys(SYS_openat, AT_FDCWD, (long) "/dev/null", O_RDWR | O_CLOEXEC, 0);
            if (n > 0)
            {
                sys(SYS_dup3, n, 0, 0);
                sys(SYS_close, n);
                return;
            }
        }
        sys(SYS_close, fd);
    }
    bool injected(const char* what)
    {
        if (K->env.syscall_fault) return out(K->env.syscall_fault, what);
        return false;
    }

    void reset()
    {
        for (auto& v: K->v)
            if (v.kind != K_FREE || v.ever)
            {
                forget(v.h);
                v = VFd{};
            }
        for (auto* r: K->rings)
        {
            free(r->mem);
            delete r;
        }
        K->rings.clear();
        forget(K->env);
        K->cl = Closes{};
        K->seq = 0;
        K->files.clear();
        forget(K->obs);
        forget(K->ffault);
        K->obs_dir.clear();
        if (K->real_base < 0)
        {
            K->real_base = (int) sys(SYS_fcntl, 0, F_DUPFD, 64);
            if (K->real_base >= 0) sys(SYS_close, K->real_base);
        }
        if (!K->realopen.empty())
        {
            for (auto& [fd, n]: K->realopen) close_real(fd);
            K->realopen.clear();
        }
    }
    struct Init
    {
        Init() { K = new State; }
    } init_;
    struct Reg
    {
        bool done = false;
    };
    bool reg_done = false;
}  // namespace

namespace fk
{
    // called from a harness-independent place: the first use in setup registers the reset hook
    __attribute__((constructor)) static void noop() {}
    Env& env() { return K->env; }
    Closes& closes() { return K->cl; }
    int make_fd(Handler h, const char* what)
    {
        mc::rt::Guard g;
        int fd = alloc_v(K_OTHER, what);
        if (fd >= 0) K->v[slot(fd)].h = std::move(h);
        return fd;
    }
    void set_fd_handler(int fd, Handler h)
    {
        mc::rt::Guard g;
        if (auto* v = vfd(fd)) v->h = std::move(h);
    }
    bool is_open(int fd) { return vfd(fd) != nullptr || K->realopen.count(fd); }
    const Sock& sock(int fd)
    {
        static const Sock none;
        auto* v = vfd(fd);
        if (v) v->sock.nonblock = v->nonblock;
        return v ? v->sock : none;
    }
    int open_count()
    {
        int n = 0;
        for (auto& v: K->v)
            if (v.kind != K_FREE) n++;
        return n + (int) K->realopen.size();
    }
    std::vector<std::string> open_fds()
    {
        std::vector<std::string> r;
        for (int i = 0; i < MAXV; i++)
            if (K->v[i].kind != K_FREE) r.push_back(std::to_string(i == MAXV - 1 ? 0 : VBASE + i) + ":" + K->v[i].what);
        for (auto& [fd, n]: K->realopen) r.push_back(std::to_string(fd) + ":file " + (K->files.count(fd) ? K->files[fd].path : ""));
        return r;
    }
    void kick() { kick_all(); }
    uint64_t submitted() { return K->seq; }
    int pending_ops()
    {
        int n = 0;
        for (auto* r: K->rings)
            if (!r->dead) n += (int) r->pending.size();
        return n;
    }
    int pending_of(int opcode)
    {
        int n = 0;
        for (auto* r: K->rings)
            if (!r->dead)
                for (auto& o: r->pending)
                    if (o.opcode == opcode) n++;
        return n;
    }
    const char* opname(int o)
    {
        switch (o)
        {
            case IORING_OP_READ: return "read";
            case IORING_OP_WRITE: return "write";
            case IORING_OP_READV: return "readv";
            case IORING_OP_WRITEV: return "writev";
            case IORING_OP_ACCEPT: return "accept";
            case IORING_OP_CONNECT: return "connect";
            case IORING_OP_TIMEOUT: return "timeout";
            case IORING_OP_TIMEOUT_REMOVE: return "timeout-remove";
            case IORING_OP_OPENAT: return "openat";
            case IORING_OP_CLOSE: return "close";
            case IORING_OP_FSYNC: return "fsync";
            case IORING_OP_FALLOCATE: return "fallocate";
            case IORING_OP_POLL_ADD: return "poll";
            case IORING_OP_SPLICE: return "splice";
            case IORING_OP_SENDMSG: return "sendmsg";
            case IORING_OP_UNLINKAT: return "unlinkat";
            case IORING_OP_FTRUNCATE_NR: return "ftruncate";
            default: return "op";
        }
    }
    void set_file_observer(const std::string& dir, std::function<void(const FileEv&)> f)
    {
        mc::rt::Guard g;
        K->obs_dir = dir;
        K->obs = std::move(f);
    }
    void set_file_fault(std::function<int(const char*, const std::string&)> f)
    {
        mc::rt::Guard g;
        K->ffault = std::move(f);
    }
    std::string fd_path(int fd)
    {
        auto it = K->files.find(fd);
        return it == K->files.end() ? std::string() : it->second.path;
    }
}  // namespace fk

namespace
{
    // ------------------------------------------------------------ files
    bool observed(const std::string& p) { return !K->obs_dir.empty() && p.compare(0, K->obs_dir.size(), K->obs_dir) == 0; }
    void emit(FileEv ev)
    {
        if (K->obs && observed(ev.path))
        out(K->obs, ev);
    }
    int ffault(const char* what, const std::string& path)
    {
        if (K->ffault && observed(path))
        return out(K->ffault, what, path);
        return 0;
    }
    std::string abspath(const char* p)
    {
        if (p[0] == '/') return p;
        char b[PATH_MAX];
        if (sys(SYS_getcwd, (long) b, sizeof b) < 0) return p;
        return std::string(b) + "/" + p;
    }
    int do_open(int dfd, const char* path, int flags, int mode)
    {
        std::string ap = abspath(path);
        int flt = ffault("open", ap);
        if (flt < 0) return flt;
        struct stat st;
        bool existed = sys(SYS_newfstatat, AT_FDCWD, (long) ap.c_str(), (long) &st, 0) >= 0;
        long fd = sys(SYS_openat, dfd, (long) path, flags | O_CLOEXEC, mode);
        if (fd >= 0)
        {
            // keep file descriptors in a high range so that they never collide with ours
            // (or get 0, while that is free, in executions that ask for it)
            long nf = -1;
            if (K->env.low_fd && fd != 0 && !K->realopen.count(0) && observed(ap)) nf = sys(SYS_dup3, fd, 0, O_CLOEXEC);
            if (nf < 0) nf = sys(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 64);
            sys(SYS_close, fd);
            fd = nf;
            K->realopen[(int) fd] = 1;
            FileFd f;
            f.path = ap;
            f.append = flags & O_APPEND;
            f.writable = (flags & O_ACCMODE) != O_RDONLY;
            K->files[(int) fd] = f;
            if (!existed && (flags & O_CREAT))
                emit({.kind = FileEv::CREATE, .path = ap});
            else if (existed && (flags & O_TRUNC) && f.writable)
                emit({.kind = FileEv::TRUNC, .path = ap, .len = 0});
        }
        return (int) fd;
    }
    long file_write(int fd, const char* buf, size_t len, uint64_t off, bool positional)
    {
        auto it = K->files.find(fd);
        std::string path = it == K->files.end() ? "" : it->second.path;
        size_t n = len;
        if (it != K->files.end())
        {
            int flt = ffault("write", path);
            if (flt < 0) return flt;
            if (flt > 0 && (size_t) flt < n) n = (size_t) flt;
        }
        uint64_t at = off;
        if (it != K->files.end() && (it->second.append || !positional))
        {
            if (it->second.append)
            {
                struct stat st;
                sys(SYS_fstat, fd, (long) &st);
                at = (uint64_t) st.st_size;
            }
            else
                at = (uint64_t) sys(SYS_lseek, fd, 0, SEEK_CUR);
        }
        // Cut short by the file system (no space left): io_uring retries the rest in a worker, which fails, and then
        // reports the short count without moving the file position (seen with Linux 6.18 and RLIMIT_FSIZE)
        const bool cut = n < len && !positional && !it->second.append && !K->env.short_moves;
        long r = positional || cut ? sys(SYS_pwrite64, fd, (long) buf, (long) n, (long) at) : sys(SYS_write, fd, (long) buf, (long) n);
        if (r > 0 && it != K->files.end()) emit({.kind = FileEv::WRITE, .path = path, .off = at, .len = (uint64_t) r, .data = std::string(buf, (size_t) r)});
        return r;
    }
    long file_read(int fd, char* buf, size_t len, uint64_t off, bool positional)
    {
        auto it = K->files.find(fd);
        size_t n = len;
        if (it != K->files.end())
        {
            int flt = ffault("read", it->second.path);
            if (flt < 0) return flt;
            if (flt > 0 && (size_t) flt < n) n = (size_t) flt;
        }
        return positional ? sys(SYS_pread64, fd, (long) buf, (long) n, (long) off) : sys(SYS_read, fd, (long) buf, (long) n);
    }
    long file_sync(int fd, bool data)
    {
        auto it = K->files.find(fd);
        std::string path = it == K->files.end() ? "" : it->second.path;
        int flt = ffault("fsync", path);
        if (flt < 0) return flt;
        if (it == K->files.end() && sys(SYS_fcntl, fd, F_GETFD) < 0) return -EBADF;
        emit({.kind = FileEv::SYNC, .path = path, .datasync = data});
        return 0;
    }
    long file_trunc(int fd, uint64_t len)
    {
        auto it = K->files.find(fd);
        std::string path = it == K->files.end() ? "" : it->second.path;
        int flt = ffault("ftruncate", path);
        if (flt < 0) return flt;
        long r = sys(SYS_ftruncate, fd, (long) len);
        if (r >= 0) emit({.kind = FileEv::TRUNC, .path = path, .len = len});
        return r;
    }
    long file_unlink(int dfd, const char* p, int fl)
    {
        std::string ap = abspath(p);
        int flt = ffault("unlink", ap);
        if (flt < 0) return flt;
        long r = sys(SYS_unlinkat, dfd, (long) p, fl);
        if (r >= 0) emit({.kind = FileEv::UNLINK, .path = ap});
        return r;
    }

    long do_close(int fd)
    {
        K->cl.list.push_back(fd);
        if (is_v(fd))
        {
            VFd* v = &K->v[slot(fd)];
            if (v->kind == K_FREE)
            {
                if (v->ever)
                    K->cl.dup++;
                else
                    K->cl.foreign++;
                return -EBADF;
            }
            if (v->kind == K_PIPE_R || v->kind == K_PIPE_W)
                if (auto* p = vfd(v->peer)) p->peer = -1;
            v->kind = K_FREE;
            v->h = nullptr;
            kick_all();
            return 0;
        }
        if (K->realopen.count(fd))
        {
            auto it = K->files.find(fd);
            int flt = it == K->files.end() ? 0 : ffault("close", it->second.path);
            K->realopen.erase(fd);
            K->files.erase(fd);
            close_real(fd);
            return flt < 0 ? flt : 0;  // the descriptor is gone even if closing it reports an error
        }
        if (fd < 0) return -EBADF;
        if (fd >= 64)
        {
            K->cl.dup++;
            return -EBADF;
        }
        // a descriptor the program under test never obtained (0..63): do not really close it
        K->cl.foreign++;
        return 0;
    }

    // ------------------------------------------------------------ io_uring
    Ring* ring_of(io_uring* r)
    {
        for (auto* x: K->rings)
            if (!x->dead && x->r == r) return x;
        return nullptr;
    }
    bool ring_alive(Ring* r)
    {
        for (auto* x: K->rings)
            if (x == r) return !x->dead;
        return false;
    }
    unsigned cq_count(Ring* r) { return *r->r->cq.ktail - *r->r->cq.khead; }
    void post_cqe(Ring* r, uint64_t ud, int res)
    {
        io_uring_cq& cq = r->r->cq;
        if (cq_count(r) >= r->cq_entries)
        {
            r->overflow.push_back({ud, res});
            return;
        }
        io_uring_cqe* c = &cq.cqes[*cq.ktail & (r->cq_entries - 1)];
        c->user_data = ud;
        c->res = res;
        c->flags = 0;
        __atomic_store_n(cq.ktail, *cq.ktail + 1, __ATOMIC_RELEASE);
    }
    void flush_overflow(Ring* r)
    {
        while (!r->overflow.empty() && cq_count(r) < r->cq_entries)
        {
            auto o = r->overflow.front();
            r->overflow.erase(r->overflow.begin());
            post_cqe(r, o.first, o.second);
        }
    }
    int pipe_read(VFd* v, char* b, size_t n, int& res)
    {
        if (v->data.empty())
        {
            if (v->peer < 0)
            {
                res = 0;
                return 1;
            }
            if (v->nonblock)
            {
                res = -EAGAIN;
                return 1;
            }
            return 0;
        }
        size_t k = n < v->data.size() ? n : v->data.size();
        memcpy(b, v->data.data(), k);
        v->data.erase(0, k);
        res = (int) k;
        return 1;
    }

    // try to complete; returns true with res
    bool attempt(Ring* r, Op& o, int& res)
    {
        (void) r;
        switch (o.opcode)
        {
            case IORING_OP_NOP: res = 0; return true;
            case IORING_OP_TIMEOUT:
                if (mc::now_ns() >= o.deadline)
                {
                    res = -ETIME;
                    return true;
                }
                return false;
            case IORING_OP_TIMEOUT_REMOVE:
            case IORING_OP_ASYNC_CANCEL:
                for (size_t i = 0; i < r->pending.size(); i++)
                    if (r->pending[i].seq != o.seq && r->pending[i].user_data == o.addr && (o.opcode == IORING_OP_ASYNC_CANCEL || r->pending[i].opcode == IORING_OP_TIMEOUT))
                    {
                        r->pending[i].cancelled = true;
                        res = 0;
                        return true;
                    }
                res = -ENOENT;
                return true;
            default: break;
        }
        if (o.opcode == IORING_OP_OPENAT)
        {
            if (K->env.all)
            return out(K->env.all, o, res);
            res = do_open(o.fd, o.path.c_str(), (int) o.opflags, (int) o.len);
            return true;
        }
        if (o.opcode == IORING_OP_UNLINKAT)
        {
            if (K->env.all)
            return out(K->env.all, o, res);
            res = (int) file_unlink(o.fd, o.path.c_str(), (int) o.opflags);
            return true;
        }
        VFd* v = vfd(o.fd);
        if (o.opcode == IORING_OP_CLOSE)
        {
            if (v && v->h)
            {
                int hr = 1;
                if (out(v->h, o, hr) && hr <= 0)
                {
                    do_close(o.fd);  // the descriptor is gone whatever the result
                    res = hr;
                    return true;
                }
            }
            res = (int) do_close(o.fd);
            return true;
        }
        if (v && v->h)
        return out(v->h, o, res);
        if (o.opcode == IORING_OP_SPLICE)
        {
            // splice: o.fd is the output, splice_fd_in the input
            VFd* vi = vfd(o.sqe.splice_fd_in);
            if (vi && vi->h)
            return out(vi->h, o, res);
            if (K->env.all)
            return out(K->env.all, o, res);
            res = -EBADF;
            return true;
        }
        if (v && v->kind == K_EVENT)
        {
            if (o.opcode == IORING_OP_READ)
            {
                if (o.len < 8)
                {
                    res = -EINVAL;
                    return true;
                }
                if (!v->count) return false;
                mc::rt::check_access((void*) o.addr, 8, true, "eventfd read");
                memcpy((void*) o.addr, &v->count, 8);
                v->count = 0;
                mc::rt::hb_acquire(&K->keys[slot(o.fd)]);
                res = 8;
                return true;
            }
            if (o.opcode == IORING_OP_POLL_ADD)
            {
                if (!v->count) return false;
                res = POLLIN;
                return true;
            }
        }
        if (v && v->kind == K_PIPE_R && o.opcode == IORING_OP_READ) return pipe_read(v, (char*) o.addr, o.len, res);
        if (!v && K->realopen.count(o.fd))
        {
            switch (o.opcode)
            {
                case IORING_OP_READ:
                    mc::rt::check_access((void*) o.addr, o.len, true, "file read");
                    res = (int) file_read(o.fd, (char*) o.addr, o.len, o.off, o.off != (uint64_t) -1);
                    return true;
                case IORING_OP_WRITE:
                    mc::rt::check_access((void*) o.addr, o.len, false, "file write");
                    res = (int) file_write(o.fd, (const char*) o.addr, o.len, o.off, o.off != (uint64_t) -1);
                    return true;
                case IORING_OP_WRITEV:
                {
                    const iovec* iv = (const iovec*) o.addr;
                    std::string all;
                    for (unsigned i = 0; i < o.len; i++)
                    {
                        mc::rt::check_access(iv[i].iov_base, iv[i].iov_len, false, "file writev");
                        all.append((const char*) iv[i].iov_base, iv[i].iov_len);
                    }
                    res = (int) file_write(o.fd, all.data(), all.size(), o.off, o.off != (uint64_t) -1);
                    return true;
                }
                case IORING_OP_READV:
                {
                    const iovec* iv = (const iovec*) o.addr;
                    size_t tot = 0;
                    for (unsigned i = 0; i < o.len; i++) tot += iv[i].iov_len;
                    std::string b(tot, 0);
                    long rr = file_read(o.fd, b.data(), tot, o.off, o.off != (uint64_t) -1);
                    size_t p = 0;
                    for (unsigned i = 0; i < o.len && rr > 0 && p < (size_t) rr; i++)
                    {
                        size_t k = iv[i].iov_len < (size_t) rr - p ? iv[i].iov_len : (size_t) rr - p;
                        mc::rt::check_access(iv[i].iov_base, k, true, "file readv");
                        memcpy(iv[i].iov_base, b.data() + p, k);
                        p += k;
                    }
                    res = (int) rr;
                    return true;
                }
                case IORING_OP_FSYNC: res = (int) file_sync(o.fd, o.opflags & IORING_FSYNC_DATASYNC); return true;
                case IORING_OP_FALLOCATE:
                {
                    int flt = ffault("fallocate", K->files[o.fd].path);
                    if (flt < 0)
                    {
                        res = flt;
                        return true;
                    }
                    // addr = length, len = mode
                    res = (int) sys(SYS_fallocate, o.fd, o.len, (long) o.off, (long) o.addr);
                    if (res == -EOPNOTSUPP) res = 0;
                    if (res >= 0) emit({.kind = FileEv::ALLOC, .path = K->files[o.fd].path, .off = o.off, .len = (uint64_t) o.addr});
                    return true;
                }
                case IORING_OP_FTRUNCATE_NR: res = (int) file_trunc(o.fd, o.off); return true;
                default: break;
            }
        }
        if (K->env.all)
        return out(K->env.all, o, res);
        res = -EBADF;
        return true;
    }

    int do_submit(Ring* r)
    {
        io_uring_sq& sq = r->r->sq;
        if ((r->flags & IORING_SETUP_SINGLE_ISSUER) && r->owner != mc::self()) return -EEXIST;
        int n = 0;
        while (sq.sqe_head != sq.sqe_tail)
        {
            io_uring_sqe* e = &sq.sqes[sq.sqe_head & (r->sq_entries - 1)];
            Op o;
            o.ring = r->fd;
            o.opcode = e->opcode;
            o.fd = e->fd;
            o.addr = e->addr;
            o.len = e->len;
            o.off = e->off;
            o.user_data = e->user_data;
            o.opflags = e->rw_flags;
            o.seq = ++K->seq;
            o.sqe = *e;
            o.deadline = ~0ull;
            if (o.opcode == IORING_OP_TIMEOUT)
            {
                mc::rt::check_access((void*) o.addr, sizeof(__kernel_timespec), false, "timeout specification");
                auto* ts = (__kernel_timespec*) o.addr;
                if (ts->tv_sec < 0 || ts->tv_nsec < 0)
                {
                    sq.sqe_head++;
                    n++;
                    post_cqe(r, o.user_data, -EINVAL);
                    continue;
                }
                uint64_t d = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec;
                o.deadline = (o.opflags & IORING_TIMEOUT_ABS) ? d : mc::now_ns() + d;
            }
            if (o.opcode == IORING_OP_OPENAT || o.opcode == IORING_OP_UNLINKAT)
            {
                mc::rt::check_access((void*) o.addr, 1, false, "path name");
                o.path = (const char*) o.addr;
            }
            sq.sqe_head++;
            n++;
            if (mc::replaying()) mc::log("kernel: accepts #%llu %s fd=%d len=%u off=%lld ud=%llx", (unsigned long long) o.seq, opname(o.opcode), o.fd, o.len, (long long) o.off, (unsigned long long) o.user_data);
            if (K->env.on_submit)
            out(K->env.on_submit, o);
            if (K->env.slow && o.opcode != IORING_OP_TIMEOUT && !is_v(o.fd)) o.slow = pick(2, "slow") == 1;
            r->pending.push_back(o);
        }
        *sq.khead = sq.sqe_head;
        *sq.ktail = sq.sqe_head;
        return n;
    }
    uint64_t min_deadline(Ring* r)
    {
        uint64_t d = ~0ull;
        for (auto& o: r->pending)
            if (o.opcode == IORING_OP_TIMEOUT && o.deadline < d) d = o.deadline;
        return d;
    }
    // complete ready operations; returns how many CQEs were produced
    int deliver(Ring* r)
    {
        int made = 0;
        flush_overflow(r);
        std::vector<uint64_t> cand;
        for (auto& o: r->pending) cand.push_back(o.seq);
        bool release = true;
        if (K->env.slow)
        {
            bool slow = false, other = false;
            for (auto& o: r->pending)
                if (o.slow && !o.cancelled)
                    slow = true;
                else if (o.cancelled || (o.opcode != IORING_OP_TIMEOUT && !is_v(o.fd)))
                    other = true;
            if (slow && other) release = pick(2, "slow-ends") == 1;
        }
        // expired timers go in deadline order
        while (!cand.empty())
        {
            // drop the ones that are certainly not ready, so that choices are meaningful
            std::vector<uint64_t> c2;
            for (auto s: cand)
                for (auto& o: r->pending)
                    if (o.seq == s)
                    {
                        bool no = false;
                        if (!o.cancelled)
                        {
                            if (o.opcode == IORING_OP_TIMEOUT && mc::now_ns() < o.deadline) no = true;
                            if (o.slow && !release) no = true;
                            VFd* v = vfd(o.fd);
                            if (v && v->kind == K_EVENT && o.opcode == IORING_OP_READ && !v->count && o.len >= 8) no = true;
                        }
                        if (!no) c2.push_back(s);
                    }
            cand.swap(c2);
            if (cand.empty()) break;
            int pk = 0;
            if (K->env.order && cand.size() > 1) pk = pick((int) cand.size(), "completion-order");
            uint64_t s = cand[(size_t) pk];
            cand.erase(cand.begin() + pk);
            for (size_t i = 0; i < r->pending.size(); i++)
            {
                if (r->pending[i].seq != s) continue;
                int res = 0;
                Op o = r->pending[i];
                bool ok;
                if (o.cancelled)
                {
                    res = -ECANCELED;
                    ok = true;
                }
                else
                    ok = attempt(r, o, res);
                if (!ring_alive(r)) return made;
                if (ok)
                {
                    for (size_t k = 0; k < r->pending.size(); k++)
                        if (r->pending[k].seq == s)
                        {
                            r->pending.erase(r->pending.begin() + (long) k);
                            break;
                        }
                    if (mc::replaying()) mc::log("kernel: completes #%llu %s res=%d", (unsigned long long) s, opname(o.opcode), res);
                    post_cqe(r, o.user_data, res);
                    made++;
                    if (K->env.on_complete)
                    out(K->env.on_complete, o, res);
                    if (K->env.partial && !cand.empty() && pick(2, "deliver-later") == 1) return made;
                }
                break;
            }
        }
        return made;
    }
    int enter(io_uring* ring, unsigned want)
    {
        Ring* r = ring_of(ring);
        if (!r) return -EBADF;
        if (injected("io_uring_enter")) return -errno;
        int n = do_submit(r);
        if (n < 0) return n;
        if (!want)
        {
            return n;
        }
        // the kernel is entered: a scheduling point
        pt("io_uring_enter", ring_key(r));
        bool first = true;
        for (;;)
        {
            if (K->env.timers_early)
            {
                uint64_t d = min_deadline(r);
                if (d != ~0ull && d > mc::now_ns() && first && pick(2, "timer-early") == 1) mc::advance_ns(d - mc::now_ns());
            }
            first = false;
            uint64_t seen = kicks;
            deliver(r);
            if (!ring_alive(r)) return -EBADF;
            if (cq_count(r) >= want) break;
            if (K->env.submit_eintr > 0 && pick(2, "wait-eintr") == 1)
            {
                K->env.submit_eintr--;
                return n ? n : -EINTR;
            }
            if (seen != kicks) continue;
            mc::rt::block(ring_key(r), min_deadline(r), "io_uring wait");
            if (!ring_alive(r)) return -EBADF;
        }
        return n;
    }
}  // namespace

extern "C"
{
    int io_uring_queue_init_params(unsigned entries, struct io_uring* ring, struct io_uring_params* p)
    {
        if (!act()) return -ENOSYS;
        mc::rt::Guard guard;
        memset((void*) ring, 0, sizeof *ring);  // as the real library does, even when it then fails
        if (K->env.init_error) return -K->env.init_error;
        if (injected("io_uring_queue_init")) return -errno;
        if (entries == 0 || entries > 32768) return -EINVAL;
        unsigned e = 1;
        while (e < entries) e <<= 1;
        Ring* r;
        {
            mc::rt::Guard g;
            int fd = alloc_v(K_RING, "io_uring");
            if (fd < 0) return fd;
            r = new Ring;
            r->fd = fd;
            r->sq_entries = e;
            r->cq_entries = K->env.cq_entries ? (unsigned) K->env.cq_entries : e * 2;
            r->flags = p->flags;
            r->owner = mc::self();
            size_t sz = 64 * 8 + sizeof(io_uring_sqe) * e + sizeof(io_uring_cqe) * r->cq_entries;
            r->mem = calloc(1, sz);
            r->r = ring;
            K->rings.push_back(r);
        }
        memset((void*) ring, 0, sizeof *ring);
        char* m = (char*) r->mem;
        unsigned* u = (unsigned*) m;
        ring->sq.khead = u;
        ring->sq.ktail = u + 16;
        ring->sq.kring_mask = u + 32;
        ring->sq.kring_entries = u + 33;
        ring->sq.kflags = u + 34;
        ring->sq.kdropped = u + 35;
        ring->sq.sqes = (io_uring_sqe*) (m + 512);
        ring->sq.ring_mask = e - 1;
        ring->sq.ring_entries = e;
        *ring->sq.kring_mask = e - 1;
        *ring->sq.kring_entries = e;
        ring->cq.khead = u + 48;
        ring->cq.ktail = u + 64;
        ring->cq.kring_mask = u + 80;
        ring->cq.kring_entries = u + 81;
        ring->cq.kflags = u + 82;
        ring->cq.koverflow = u + 83;
        ring->cq.cqes = (io_uring_cqe*) (m + 512 + sizeof(io_uring_sqe) * e);
        ring->cq.ring_mask = r->cq_entries - 1;
        ring->cq.ring_entries = r->cq_entries;
        *ring->cq.kring_mask = r->cq_entries - 1;
        *ring->cq.kring_entries = r->cq_entries;
        ring->flags = p->flags;
        ring->ring_fd = ring->enter_ring_fd = r->fd;
        p->sq_entries = e;
        p->cq_entries = r->cq_entries;
        p->features = IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_EXT_ARG;
        return 0;
    }
    int io_uring_queue_init(unsigned entries, struct io_uring* ring, unsigned flags)
    {
        io_uring_params p{};
        p.flags = flags;
        return io_uring_queue_init_params(entries, ring, &p);
    }
    void io_uring_queue_exit(struct io_uring* ring)
    {
        if (!act()) return;
        mc::rt::Guard g;
        Ring* r = ring_of(ring);
        if (r)
        {
            r->dead = true;
            r->pending.clear();
        }
        // the library closes whatever descriptor number the structure carries
        do_close(ring->ring_fd);
    }
    int io_uring_submit(struct io_uring* ring)
    {
        if (!act()) return -ENOSYS;
        mc::rt::Guard guard;
        return enter(ring, 0);
    }
    int io_uring_submit_and_wait(struct io_uring* ring, unsigned n)
    {
        if (!act()) return -ENOSYS;
        mc::rt::Guard guard;
        return enter(ring, n);
    }
    int io_uring_submit_and_get_events(struct io_uring* ring)
    {
        if (!act()) return -ENOSYS;
        mc::rt::Guard guard;
        int n = enter(ring, 0);
        if (Ring* r = ring_of(ring)) deliver(r);
        return n;
    }
    int io_uring_get_events(struct io_uring* ring)
    {
        if (!act()) return -ENOSYS;
        mc::rt::Guard guard;
        if (Ring* r = ring_of(ring)) deliver(r);
        return 0;
    }
    int io_uring_submit_and_wait_timeout(struct io_uring* ring, struct io_uring_cqe** cqe, unsigned n, struct __kernel_timespec* ts, sigset_t*)
    {
        if (!act()) return -ENOSYS;
        mc::rt::Guard guard;
        Ring* r = ring_of(ring);
        if (!r) return -EBADF;
        int k = do_submit(r);
        if (k < 0) return k;
        pt("io_uring_enter", ring_key(r));
        uint64_t dl = ts ? mc::now_ns() + (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec : ~0ull;
        for (;;)
        {
            uint64_t seen = kicks;
            deliver(r);
            if (cq_count(r) >= n) break;
            uint64_t d = min_deadline(r);
            if (mc::now_ns() >= dl)
            {
                if (cqe) *cqe = nullptr;
                return k ? k : -ETIME;
            }
            if (seen != kicks) continue;
            mc::rt::block(ring_key(r), d < dl ? d : dl, "io_uring wait");
        }
        if (cqe) *cqe = &ring->cq.cqes[*ring->cq.khead & (r->cq_entries - 1)];
        return k;
    }
    int __io_uring_get_cqe(struct io_uring* ring, struct io_uring_cqe** cqe, unsigned, unsigned wait_nr, sigset_t*)
    {
        if (!act()) return -ENOSYS;
        mc::rt::Guard guard;
        Ring* r = ring_of(ring);
        if (!r) return -EBADF;
        int n = enter(ring, wait_nr);
        if (n < 0) return n;
        if (!wait_nr) deliver(r);
        if (cq_count(r) == 0)
        {
            *cqe = nullptr;
            return -EAGAIN;
        }
        *cqe = &ring->cq.cqes[*ring->cq.khead & (r->cq_entries - 1)];
        return 0;
    }
    int io_uring_wait_cqe_timeout(struct io_uring* ring, struct io_uring_cqe** cqe, struct __kernel_timespec* ts) { return io_uring_submit_and_wait_timeout(ring, cqe, 1, ts, nullptr) < 0 ? -ETIME : 0; }
    unsigned io_uring_peek_batch_cqe(struct io_uring* ring, struct io_uring_cqe** cqes, unsigned count)
    {
        if (!act()) return 0;
        mc::rt::Guard guard;
        Ring* r = ring_of(ring);
        if (!r) return 0;
        if (!cq_count(r)) deliver(r);
        unsigned n = 0;
        for (; n < count && n < cq_count(r); n++) cqes[n] = &ring->cq.cqes[(*ring->cq.khead + n) & (r->cq_entries - 1)];
        return n;
    }
    int io_uring_register_iowq_aff(struct io_uring*, size_t, const cpu_set_t*) { return 0; }
    int io_uring_register_iowq_max_workers(struct io_uring*, unsigned*) { return 0; }
    int io_uring_register_ring_fd(struct io_uring*) { return 1; }
    int io_uring_unregister_ring_fd(struct io_uring*) { return 1; }
    int io_uring_register_files(struct io_uring*, const int*, unsigned) { return -EINVAL; }

    // ------------------------------------------------------------ system calls
    int eventfd(unsigned init, int flags) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_eventfd2, init, flags));
        mc::rt::Guard g;
        if (injected("eventfd")) return -1;
        int fd = alloc_v(K_EVENT, "eventfd");
        if (fd < 0) return (int) ret(fd);
        K->v[slot(fd)].count = init;
        K->v[slot(fd)].nonblock = flags & EFD_NONBLOCK;
        return fd;
    }
    ssize_t write(int fd, const void* b, size_t n)
    {
        if (!act() || (!is_v(fd) && !K->files.count(fd))) return ret(sys(SYS_write, fd, (long) b, (long) n));
        if (!is_v(fd))
        {
            mc::rt::Guard g;
            return ret(file_write(fd, (const char*) b, n, 0, false));
        }
        VFd* v = vfd(fd);
        if (v && v->kind == K_EVENT)
        {
            pt("eventfd-write", &K->keys[slot(fd)]);
            v = vfd(fd);
            if (!v) return ret(-EBADF);
            if (n < 8) return ret(-EINVAL);
            uint64_t x;
            memcpy(&x, b, 8);
            if (v->count + x < v->count || v->count + x == ~0ull) return ret(-EAGAIN);
            v->count += x;
            mc::rt::hb_release(&K->keys[slot(fd)]);
            mc::rt::wake_all(&K->keys[slot(fd)]);
            kick_all();
            return 8;
        }
        mc::rt::Guard g;
        if (!v)
        {
            return ret(-EBADF);
        }
        if (v->kind == K_PIPE_W)
        {
            if (v->peer < 0) return ret(-EPIPE);
            K->v[slot(v->peer)].data.append((const char*) b, n);
            kick_all();
            return (ssize_t) n;
        }
        return ret(-EINVAL);
    }
    ssize_t read(int fd, void* b, size_t n)
    {
        if (!act() || (!is_v(fd) && !K->files.count(fd))) return ret(sys(SYS_read, fd, (long) b, (long) n));
        if (!is_v(fd))
        {
            mc::rt::Guard g;
            return ret(file_read(fd, (char*) b, n, 0, false));
        }
        VFd* v = vfd(fd);
        if (v && v->kind == K_EVENT)
        {
            pt("eventfd-read", &K->keys[slot(fd)]);
            if (injected("eventfd_read")) return -1;
            for (;;)
            {
                v = vfd(fd);
                if (!v || v->kind != K_EVENT) return ret(-EBADF);
                if (n < 8) return ret(-EINVAL);
                if (v->count) break;
                if (v->nonblock) return ret(-EAGAIN);
                mc::rt::block(&K->keys[slot(fd)], ~0ull, "eventfd read");
            }
            memcpy(b, &v->count, 8);
            v->count = 0;
            mc::rt::hb_acquire(&K->keys[slot(fd)]);
            return 8;
        }
        mc::rt::Guard g;
        if (!v) return ret(-EBADF);
        if (v->kind == K_PIPE_R)
        {
            int res = 0;
            if (!pipe_read(v, (char*) b, n, res)) return ret(-EAGAIN);
            return ret(res);
        }
        return ret(-EINVAL);
    }
    int close(int fd)
    {
        if (!act()) return (int) ret(sys(SYS_close, fd));
        mc::rt::Guard g;
        if (mc::replaying()) mc::log("close(%d)", fd);
        return (int) ret(do_close(fd));
    }
    int pipe2(int* p, int fl) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_pipe2, (long) p, fl));
        mc::rt::Guard g;
        if (injected("pipe")) return -1;
        int a = alloc_v(K_PIPE_R, "pipe-r");
        if (a < 0) return (int) ret(a);
        int b = alloc_v(K_PIPE_W, "pipe-w");
        if (b < 0)
        {
            K->v[slot(a)].kind = K_FREE;
            return (int) ret(b);
        }
        K->v[slot(a)].peer = b;
        K->v[slot(b)].peer = a;
        K->v[slot(a)].nonblock = K->v[slot(b)].nonblock = fl & O_NONBLOCK;
        p[0] = a;
        p[1] = b;
        return 0;
    }
    int pipe(int* p) noexcept
    {
        return pipe2(p, 0);
    }
    int fcntl(int fd, int cmd, ...)
    {
        va_list ap;
        va_start(ap, cmd);
        long a = va_arg(ap, long);
        va_end(ap);
        if (!act() || !is_v(fd)) return (int) ret(sys(SYS_fcntl, fd, cmd, a));
        mc::rt::Guard g;
        VFd* v = vfd(fd);
        if (!v) return (int) ret(-EBADF);
        if (injected("fcntl")) return -1;
        if (cmd == F_SETFL)
        {
            v->nonblock = a & O_NONBLOCK;
            return 0;
        }
        if (cmd == F_GETFL) return v->nonblock ? O_NONBLOCK : 0;
        return 0;
    }
    int fcntl64(int fd, int cmd, ...)
    {
        va_list ap;
        va_start(ap, cmd);
        long a = va_arg(ap, long);
        va_end(ap);
        return fcntl(fd, cmd, a);
    }
    int socket(int d, int t, int p) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_socket, d, t, p));
        mc::rt::Guard g;
        if (injected("socket")) return -1;
        int fd = alloc_v(K_OTHER, "socket");
        if (fd >= 0)
        {
            auto& v = K->v[slot(fd)];
            v.nonblock = t & SOCK_NONBLOCK;
            v.sock.family = d;
            v.sock.type = t & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
            v.sock.cloexec = t & SOCK_CLOEXEC;
        }
        return (int) ret(fd);
    }
    int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept
    {
        if (!act() || !is_v(fd)) return (int) ret(sys(SYS_bind, fd, (long) a, l));
        mc::rt::Guard g;
        if (!vfd(fd)) return (int) ret(-EBADF);
        if (injected("bind")) return -1;
        auto& so = vfd(fd)->sock;
        if (so.family)
        {
            size_t need = so.family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
            if (l < need || !so.bound.empty()) return (int) ret(-EINVAL);
            if (a->sa_family != so.family) return (int) ret(-EAFNOSUPPORT);
        }
        so.bound.assign((const char*) a, l);
        return 0;
    }
    int listen(int fd, int n) noexcept
    {
        if (!act() || !is_v(fd)) return (int) ret(sys(SYS_listen, fd, n));
        mc::rt::Guard g;
        if (!vfd(fd)) return (int) ret(-EBADF);
        if (injected("listen")) return -1;
        vfd(fd)->sock.backlog = n;
        return 0;
    }
    int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept
    {
        if (!act() || !is_v(fd)) return (int) ret(sys(SYS_setsockopt, fd, l, o, (long) v, n));
        mc::rt::Guard g;
        if (!vfd(fd)) return (int) ret(-EBADF);
        if (injected("setsockopt")) return -1;
        vfd(fd)->sock.options[{l, o}] = n >= 4 ? *(const int*) v : -1;
        return 0;
    }
    int getsockopt(int fd, int l, int o, void* v, socklen_t* n) noexcept
    {
        if (!act() || !is_v(fd)) return (int) ret(sys(SYS_getsockopt, fd, l, o, (long) v, (long) n));
        if (n && v && *n >= 4) *(int*) v = 0;
        return 0;
    }
    int shutdown(int fd, int how) noexcept
    {
        if (!act() || !is_v(fd)) return (int) ret(sys(SYS_shutdown, fd, how));
        return vfd(fd) ? 0 : (int) ret(-EBADF);
    }
    // files
    int openat(int d, const char* p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        int m = va_arg(ap, int);
        va_end(ap);
        if (!act()) return (int) ret(sys(SYS_openat, d, (long) p, fl, m));
        mc::rt::Guard g;
        return (int) ret(do_open(d, p, fl, m));
    }
    int open(const char* p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        int m = va_arg(ap, int);
        va_end(ap);
        return openat(AT_FDCWD, p, fl, m);
    }
    int open64(const char* p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        int m = va_arg(ap, int);
        va_end(ap);
        return openat(AT_FDCWD, p, fl, m);
    }
    int openat64(int d, const char* p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        int m = va_arg(ap, int);
        va_end(ap);
        return openat(d, p, fl, m);
    }
    ssize_t pread(int fd, void* b, size_t n, off_t o)
    {
        if (!act()) return ret(sys(SYS_pread64, fd, (long) b, (long) n, o));
        mc::rt::Guard g;
        return ret(file_read(fd, (char*) b, n, (uint64_t) o, true));
    }
    ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
    {
        if (!act()) return ret(sys(SYS_pwrite64, fd, (long) b, (long) n, o));
        mc::rt::Guard g;
        return ret(file_write(fd, (const char*) b, n, (uint64_t) o, true));
    }
    ssize_t writev(int fd, const struct iovec* iv, int n)
    {
        if (!act() || !K->files.count(fd)) return ret(sys(SYS_writev, fd, (long) iv, n));
        mc::rt::Guard g;
        std::string all;
        for (int i = 0; i < n; i++) all.append((const char*) iv[i].iov_base, iv[i].iov_len);
        return ret(file_write(fd, all.data(), all.size(), 0, false));
    }
    int fsync(int fd)
    {
        if (!act()) return (int) ret(sys(SYS_fsync, fd));
        mc::rt::Guard g;
        return (int) ret(file_sync(fd, false));
    }
    int fdatasync(int fd)
    {
        if (!act()) return (int) ret(sys(SYS_fdatasync, fd));
        mc::rt::Guard g;
        return (int) ret(file_sync(fd, true));
    }
    int ftruncate(int fd, off_t n) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_ftruncate, fd, n));
        mc::rt::Guard g;
        return (int) ret(file_trunc(fd, (uint64_t) n));
    }
    int unlink(const char* p) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_unlinkat, AT_FDCWD, (long) p, 0));
        mc::rt::Guard g;
        return (int) ret(file_unlink(AT_FDCWD, p, 0));
    }
    int unlinkat(int d, const char* p, int fl) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_unlinkat, d, (long) p, fl));
        mc::rt::Guard g;
        return (int) ret(file_unlink(d, p, fl));
    }
    int remove(const char* p) noexcept
    {
        if (unlink(p) == 0) return 0;
        if (errno == EISDIR || errno == EPERM) return unlinkat(AT_FDCWD, p, AT_REMOVEDIR);
        return -1;
    }
    int rename(const char* a, const char* b) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_renameat2, AT_FDCWD, (long) a, AT_FDCWD, (long) b, 0));
        mc::rt::Guard g;
        std::string pa = abspath(a), pb = abspath(b);
        int flt = ffault("rename", pa);
        if (flt < 0) return (int) ret(flt);
        long r = sys(SYS_renameat2, AT_FDCWD, (long) a, AT_FDCWD, (long) b, 0);
        if (r >= 0) emit({.kind = FileEv::RENAME, .path = pa, .path2 = pb});
        return (int) ret(r);
    }
    int mkdir(const char* p, mode_t m) noexcept
    {
        if (!act()) return (int) ret(sys(SYS_mkdirat, AT_FDCWD, (long) p, m));
        mc::rt::Guard g;
        long r = sys(SYS_mkdirat, AT_FDCWD, (long) p, m);
        if (r >= 0) emit({.kind = FileEv::MKDIR, .path = abspath(p)});
        return (int) ret(r);
    }
    // std::ofstream opens through fopen: route it to our descriptors
    FILE* fopen64(const char* p, const char* mode)
    {
        static FILE* (*real)(const char*, const char*) = (FILE * (*) (const char*, const char*) ) dlsym(RTLD_NEXT, "fopen64");
        if (!act() || K->obs_dir.empty() || !observed(abspath(p))) return real(p, mode);
        mc::rt::Guard g;
        int fl = 0;
        bool plus = strchr(mode, '+');
        switch (mode[0])
        {
            case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
            case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
            default: fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        }
        int fd = do_open(AT_FDCWD, p, fl, 0666);
        if (fd < 0)
        {
            errno = -fd;
            return nullptr;
        }
        FILE* f = fdopen(fd, mode);
        return f;
    }
    FILE* fopen(const char* p, const char* mode)
    {
        return fopen64(p, mode);
    }
    int fclose(FILE* f)
    {
        static int (*real)(FILE*) = (int (*)(FILE*)) dlsym(RTLD_NEXT, "fclose");
        if (act())
        {
            mc::rt::Guard g;
            int fd = fileno(f);
            if (K->realopen.count(fd))
            {
                K->realopen.erase(fd);
                K->files.erase(fd);
            }
        }
        return real(f);
    }
}

// registers the per-execution reset; called by the runtime before exploration starts
namespace mc::rt
{
    void fakekern_register()
    {
        if (!reg_done)
        {
            reg_done = true;
            on_reset(&reset);
            thread_fault = [] { return injected("pthread_create"); };
        }
    }
}
