// C19: handles on one file do their I/O on one worker, own their descriptor, and move exactly the
// bytes asked for.  Files are real files in a private scratch directory.
#include "kioh.h"
#include "kio/fs/fs.h"
#include "scratch.h"
#include <cerrno>
#include <cstring>
#include <deque>
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    // which ring (= worker) the operations on a descriptor were given to
    struct Rings
    {
        std::map<int, int> last;  // fd -> ring
        int bad = 0;
        Rings()
        {
            last.clear();
            fk::env().on_submit = [this](const fk::Op& o) {
                if (o.opcode == IORING_OP_READ || o.opcode == IORING_OP_WRITE)
                    if (!fk::fd_path(o.fd).empty()) last[o.fd] = o.ring;
            };
        }
        ~Rings() { fk::env().on_submit = {}; }
    };
    int ring_for(File& f, Rings& r)
    {
        char b[1];
        auto n = SyncWait(f.async_read(b, 0));
        MC_CHECK(n.has_value(), "reading an open file failed: %d", n.error().value);
        int at;
        {
            mc::rt::Guard g;
            at = r.last.count(f.fd()) ? r.last[f.fd()] : -1;
        }
        MC_CHECK(at >= 0, "no read reached the kernel");
        return at;
    }
    void enter(const std::string& d)
    {
        if (::chdir(d.c_str()) != 0) mc::fail("harness: chdir %s", d.c_str());
    }
    // a directory with ways to reach the same names
    void tree(const std::string& d)
    {
        ::mkdir((d + "/d").c_str(), 0755);
        ::mkdir((d + "/d/sub").c_str(), 0755);
        (void) !::symlink("d", (d + "/l").c_str());
        (void) !::symlink("../..", (d + "/d/sub/up").c_str());
    }
    // every spelling names dir/d/<name>
    const char* spell[] = {"d/@", "./d/@", "d//@", "d/./@", "d/sub/../@", "$/d/@", "$//d/../d/@", "l/@", "d/sub/up/d/@", "$/l/./@", "alias", "$/d/alias2", "d/sub/../../chain"};
    constexpr int nspell = sizeof spell / sizeof *spell;
    std::string spelled(int i, const std::string& d, const std::string& name)
    {
        std::string r;
        for (const char* p = spell[i]; *p; p++)
            if (*p == '@')
                r += name;
            else if (*p == '$')
                r += d;
            else
                r += *p;
        return r;
    }
    void links(const std::string& d, const std::string& name)
    {
        for (auto* l: {"/alias", "/chain", "/d/alias2"}) ::unlink((d + l).c_str());
        (void) !::symlink(("d/" + name).c_str(), (d + "/alias").c_str());
        (void) !::symlink((d + "/d/" + name).c_str(), (d + "/d/alias2").c_str());
        (void) !::symlink("d/alias2", (d + "/chain").c_str());
    }

    enum RaiiOp { OPEN0, OPEN1, MOVE01, MOVE10, SELF0, TEMP0, CLOSE0, CLOSE1, DROP0, NRAII };
}  // namespace

// all pairs of spellings, whether the file existed before or is created by the first one
SCENARIO(same_worker, {.race_check = false, .switch_cost = true})
{
    int first = mc::choose_free(nspell, "first spelling");
    size_t n = 2 + (size_t) mc::choose_free(2, "workers");
    bool existed = mc::choose_free(2, "existed");
    auto d = sc::fresh();
    enter(d);
    tree(d);
    Rings r;
    {
        FileManager fm(n, kh::small());
        std::vector<bool> used(64);
        for (int second = 0; second < nspell; second++)
            for (int k = 0; k < 4; k++)
            {
                std::string name = "file" + std::to_string(second * 4 + k);
                links(d, name);
                if (existed) sc::spill(d + "/d/" + name, "xyz");
                auto a = SyncWait(fm.async_open(spelled(first, d, name), O_RDWR | O_CREAT, 0644));
                MC_CHECK(a.has_value(), "opening %s failed: %d", spelled(first, d, name).c_str(), a.error().value);
                auto b = SyncWait(fm.async_open(spelled(second, d, name), O_RDWR, 0));
                MC_CHECK(b.has_value(), "opening %s failed: %d", spelled(second, d, name).c_str(), b.error().value);
                int ra = ring_for(*a, r), rb = ring_for(*b, r);
                MC_CHECK(ra == rb, "%s (%s) and %s are one file but run on different workers", spell[first], existed ? "existing" : "created by this open", spell[second]);
                auto c = SyncWait(fm.async_open(spelled(first, d, name), O_RDWR, 0));
                MC_CHECK(c.has_value() && ring_for(*c, r) == ra, "opening %s again moved the file to another worker", spell[first]);
                mc::count_states(1);
                used[(size_t) ra & 63] = true;
            }
        int cnt = 0;
        for (bool u: used) cnt += u;
        MC_CHECK(cnt == (int) n, "only %d of %zu workers ever serve a file", cnt, n);
    }
    enter("/");
    kh::check_fds("same worker");
    mc::outcome("ok");
}
// file and directory names that only look alike are different files, served by their own descriptor
SCENARIO(flags_and_errors, {.race_check = false, .switch_cost = true})
{
    auto d = sc::fresh();
    tree(d);
    {
        FileManager fm(2, kh::small());
        struct
        {
            const char* path;
            int flags;
            int err;
        } t[] = {{"/d/no", O_RDONLY, ENOENT}, {"/nodir/f", O_RDWR | O_CREAT, ENOENT}, {"/d", O_RDWR, EISDIR}, {"/d/f", O_RDWR | O_CREAT | O_EXCL, 0}, {"/d/f", O_RDWR | O_CREAT | O_EXCL, EEXIST}, {"/d/f/g", O_RDONLY, ENOTDIR}, {"/nodir/../d/f", O_RDONLY, ENOENT}, {"/d/f", O_RDONLY, 0}, {"/d/f", O_WRONLY | O_TRUNC, 0}, {"", O_RDONLY, -1}};
        for (auto& x: t)
        {
            bool empty = x.err == -1;
            auto f = SyncWait(fm.async_open(empty ? std::filesystem::path() : std::filesystem::path(d + x.path), x.flags, 0640));
            int want = empty ? ENOENT : x.err;
            MC_CHECK(f.has_value() == (want == 0), "open %s flags %x: %s", x.path, x.flags, f.has_value() ? "succeeded" : "failed");
            if (!f)
                MC_CHECK(f.error().value == want, "open %s flags %x: error %d instead of %d", x.path, x.flags, f.error().value, want);
            else
                MC_CHECK(fk::fd_path(f->fd()) == d + x.path, "open %s opened %s", x.path, fk::fd_path(f->fd()).c_str());
        }
        struct stat st;
        mode_t um = ::umask(022);
        ::umask(um);
        MC_CHECK(::stat((d + "/d/f").c_str(), &st) == 0 && (st.st_mode & 0777) == (0640 & ~um), "the file was created with mode %o", st.st_mode & 0777);
        // a loop of links
        (void) !::symlink("loop", (d + "/loop").c_str());
        auto f = SyncWait(fm.async_open(d + "/loop", O_RDWR | O_CREAT, 0644));
        MC_CHECK(!f && f.error().value == ELOOP, "opening a loop of links gave %d", f ? 0 : f.error().value);
        // every error of the system call
        fk::set_file_observer(d, {});
        static int inject;
        fk::set_file_fault([](const char* what, const std::string&) { return strcmp(what, "open") ? 0 : -inject; });
        for (int e: {EACCES, EMFILE, ENFILE, ENOSPC, EROFS, EINTR, EIO, ENXIO, ETXTBSY, EOVERFLOW})
        {
            inject = e;
            auto g = SyncWait(fm.async_open(d + "/d/f", O_RDWR, 0));
            MC_CHECK(!g && g.error().value == e, "open failing with %d was reported as %d", e, g ? 0 : g.error().value);
        }
        fk::set_file_fault({});
        fk::set_file_observer("", {});
    }
    kh::check_fds("flags and errors");
    mc::outcome("ok");
}

// all histories of two handles
SCENARIO(handle_owner, {.race_check = false, .switch_cost = true})
{
    static constexpr int N = 6;
    int first = mc::choose_free(NRAII, "first"), second = mc::choose_free(NRAII, "second");
    auto d = sc::fresh();
    sc::spill(d + "/f", "0123456789");
    {
        io::IOPool pool(1, kh::small());
        for (int rest = 0; rest < NRAII * NRAII * NRAII * NRAII; rest++)
        {
            mc::Trial t("history");
            int seq[N] = {first, second, rest % NRAII, rest / NRAII % NRAII, rest / NRAII / NRAII % NRAII, rest / NRAII / NRAII / NRAII};
            int before = fk::open_count();
            {
                std::optional<File> o[2];
                int own[2] = {-1, -1};
                int opened = 0;
                std::deque<int> gone;
                for (int op: seq)
                {
                    mc::count_states(1);
                    switch (op)
                    {
                        case OPEN0:
                        case OPEN1:
                        {
                            int i = op == OPEN1;
                            int fd = ::open((d + "/f").c_str(), O_RDWR);
                            opened++;
                            if (o[i])
                                *o[i] = File(fd, pool, 0);
                            else
                                o[i].emplace(fd, pool, 0);
                            if (own[i] >= 0) gone.push_back(own[i]);
                            own[i] = fd;
                            break;
                        }
                        case MOVE01:
                        case MOVE10:
                        {
                            int x = op == MOVE01, s = 1 - x;
                            if (!o[x] || !o[s]) break;
                            *o[x] = std::move(*o[s]);
                            if (own[x] >= 0) gone.push_back(own[x]);
                            own[x] = own[s];
                            own[s] = -1;
                            break;
                        }
                        case SELF0:
                            if (o[0])
                            {
                                auto& r = *o[0];
                                *o[0] = std::move(r);
                            }
                            break;
                        case TEMP0:
                            if (o[0])
                            {
                                File x(std::move(*o[0]));
                                MC_CHECK(o[0]->fd() == -1 && x.fd() == own[0], "a moved handle still owns its descriptor");
                                if (own[0] >= 0) gone.push_back(own[0]);
                                own[0] = -1;
                            }
                            break;
                        case CLOSE0:
                        case CLOSE1:
                        {
                            int i = op == CLOSE1;
                            if (!o[i]) break;
                            o[i]->close();
                            if (own[i] >= 0) gone.push_back(own[i]);
                            own[i] = -1;
                            break;
                        }
                        default:
                            o[0].reset();
                            if (own[0] >= 0) gone.push_back(own[0]);
                            own[0] = -1;
                            break;
                    }
                    for (int i = 0; i < 2; i++)
                        if (o[i]) MC_CHECK(o[i]->fd() == own[i], "handle %d has descriptor %d instead of %d", i, o[i]->fd(), own[i]);
                    MC_CHECK(fk::open_count() - before == opened - (int) gone.size(), "%d descriptors open instead of %d", fk::open_count() - before, opened - (int) gone.size());
                }
            }
            MC_CHECK(fk::open_count() == before && fk::closes().dup == 0 && fk::closes().foreign == 0, "descriptors leaked or closed twice");
        }
    }
    kh::check_fds("handles");
    mc::outcome("ok");
}

// reads and writes at every place, with short answers and errors
SCENARIO(bytes, {.race_check = false, .switch_cost = true})
{
    auto d = sc::fresh();
    sc::spill(d + "/f", "0123456789");
    static int shorten, fail_with;
    shorten = mc::choose_free(4, "short");  // 0: whole
    fail_with = 0;
    fk::set_file_observer(d, {});
    {
        FileManager fm(2, kh::small());
        auto f = SyncWait(fm.async_open(d + "/f", O_RDWR, 0));
        MC_CHECK(f.has_value(), "open failed");
        fk::set_file_fault([](const char* what, const std::string&) { return strcmp(what, "read") && strcmp(what, "write") ? 0 : fail_with ? -fail_with : shorten; });
        std::string model = "0123456789";
        for (size_t off = 0; off <= 12; off++)
            for (size_t len = 0; len <= 5; len++)
            {
                char b[8];
                memset(b, '~', sizeof b);
                auto n = SyncWait(f->async_read(std::span<char>(b, len), off));
                size_t avail = off < model.size() ? std::min(len, model.size() - off) : 0;
                if (shorten && avail > (size_t) shorten) avail = (size_t) shorten;
                MC_CHECK(n.has_value() && *n == avail, "read of %zu at %zu returned %zd instead of %zu", len, off, n ? (ssize_t) *n : -n.error().value, avail);
                MC_CHECK(avail == 0 || model.compare(off, avail, b, avail) == 0, "read of %zu at %zu delivered other bytes", len, off);
                for (size_t i = len; i < sizeof b; i++) MC_CHECK(b[i] == '~', "read of %zu at %zu touched byte %zu", len, off, i);
                char w[6] = {'a', 'b', 'c', 'd', 'e', 'f'};
                for (auto& c: w) c = (char) (c + (char) (off % 3) * 6);
                auto m = SyncWait(f->async_write(std::span<const char>(w, len), off));
                size_t put = shorten && len > (size_t) shorten ? (size_t) shorten : len;
                MC_CHECK(m.has_value() && *m == put, "write of %zu at %zu returned %zd instead of %zu", len, off, m ? (ssize_t) *m : -m.error().value, put);
                if (put && model.size() < off + put) model.resize(off + put);
                model.replace(off, put, std::string(w, put));
                mc::count_states(1);
            }
        for (int e: {EIO, EBADF, ENOSPC, EFBIG, EINTR, EAGAIN})
        {
            fail_with = e;
            char b[4] = {};
            auto n = SyncWait(f->async_read(b, 0));
            MC_CHECK(!n && n.error().value == e, "read failing with %d was reported as %d", e, n ? 0 : n.error().value);
            auto m = SyncWait(f->async_write(b, 0));
            MC_CHECK(!m && m.error().value == e, "write failing with %d was reported as %d", e, m ? 0 : m.error().value);
        }
        fail_with = 0;
        // far offsets are passed on unchanged
        fk::set_file_fault({});
        static uint64_t seen;
        fk::env().on_submit = [](const fk::Op& o) {
            if (o.opcode == IORING_OP_READ && !fk::fd_path(o.fd).empty()) seen = o.off;
        };
        for (uint64_t off: {uint64_t{1} << 31, uint64_t{1} << 32, (uint64_t{1} << 40) + 7})
        {
            char b[4];
            auto n = SyncWait(f->async_read(b, off));
            MC_CHECK(n.has_value() && *n == 0 && seen == off, "a read at %llu went to %llu", (unsigned long long) off, (unsigned long long) seen);
        }
        fk::env().on_submit = {};
        f->close();
        char b[4];
        auto n = SyncWait(f->async_read(b, 0));
        MC_CHECK(!n && n.error().value == EBADF, "reading a closed handle did not fail with EBADF");
        fk::set_file_observer("", {});
        MC_CHECK(sc::slurp(d + "/f") == model, "the file does not contain what was written");
    }
    kh::check_fds("bytes");
    mc::outcome("ok");
}

// a handle that is moved into another keeps its own worker, whichever manager it came from
SCENARIO(two_managers, {.switch_cost = true})
{
    auto d = sc::fresh();
    Rings r;
    {
        FileManager a(1, kh::small()), b(2, kh::small());
        for (int k = 0; k < 4; k++)
        {
            std::string p = d + "/f" + std::to_string(k);
            sc::spill(p, "abc");
            auto fa = SyncWait(a.async_open(d + "/f0", O_RDWR, 0));
            auto fb = SyncWait(b.async_open(p, O_RDWR, 0));
            auto fc = SyncWait(b.async_open(p, O_RDWR, 0));
            MC_CHECK(fa && fb && fc, "open failed");
            int want = ring_for(*fc, r);
            *fa = std::move(*fb);
            MC_CHECK(ring_for(*fa, r) == want, "a handle moved over one of another manager runs on a different worker");
        }
    }
    kh::check_fds("two managers");
    mc::outcome("ok");
}

// two threads open and use the same file at the same time
SCENARIO(two_threads, {.switch_cost = true})
{
    auto d = sc::fresh();
    sc::spill(d + "/f", "........");
    Rings r;
    {
        FileManager fm(2, kh::small());
        int ring[2] = {-1, -1};
        auto body = [&](int i) {
            auto f = SyncWait(fm.async_open(i ? d + "/./f" : d + "/f", O_RDWR, 0));
            MC_CHECK(f.has_value(), "open failed");
            char c[2] = {(char) ('a' + i), (char) ('A' + i)};
            auto n = SyncWait(f->async_write(c, (uint64_t) i * 2));
            MC_CHECK(n.has_value() && *n == 2, "write failed");
            char b[2] = {};
            auto m = SyncWait(f->async_read(b, (uint64_t) i * 2));
            MC_CHECK(m.has_value() && *m == 2 && b[0] == c[0] && b[1] == c[1], "thread %d read something it did not write", i);
            mc::rt::Guard g;
            ring[i] = r.last[f->fd()];
        };
        std::thread t([&] { body(1); });
        body(0);
        t.join();
        MC_CHECK(ring[0] == ring[1], "one file on two workers");
    }
    MC_CHECK(sc::slurp(d + "/f") == "aAbB....", "the file holds %s", sc::slurp(d + "/f").c_str());
    kh::check_fds("two threads");
    mc::outcome("ok");
}
