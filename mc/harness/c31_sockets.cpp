// C31: owned descriptors are closed exactly once, socket helpers deliver what was asked or an error,
// and whichever system call fails nothing stays open.
#include "kioh.h"
#include "kio/net/net.h"
#include "kio/net/socket.h"
#include <cstring>
#include <deque>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
using namespace kio;
using namespace kio::net;
static kh::AutoSilence as_;

namespace
{
    // scripted name service
    struct Dns
    {
        int rc = EAI_NONAME;
        int family = AF_INET;
        int live = 0;
        std::string asked;
    };
    Dns* dns = nullptr;
    struct Answer
    {
        addrinfo ai[2];
        sockaddr_storage ss[2];
    };
}  // namespace
extern "C" int getaddrinfo(const char* node, const char* service, const addrinfo*, addrinfo** res)
{
    if (!dns) return EAI_FAIL;
    dns->asked = node;
    *res = (addrinfo*) 0x10;  // undefined on failure
    if (dns->rc) return dns->rc;
    auto* a = new Answer{};
    uint16_t port = htons((uint16_t) (service ? atoi(service) : 0));
    for (int i = 0; i < 2; i++)
    {
        a->ai[i].ai_family = dns->family;
        a->ai[i].ai_addr = (sockaddr*) &a->ss[i];
        if (dns->family == AF_INET)
        {
            auto* s = (sockaddr_in*) &a->ss[i];
            s->sin_family = AF_INET;
            s->sin_port = port;
            s->sin_addr.s_addr = htonl(0x0a000001u + (unsigned) i);
            a->ai[i].ai_addrlen = sizeof *s;
        }
        else
        {
            auto* s = (sockaddr_in6*) &a->ss[i];
            s->sin6_family = AF_INET6;
            s->sin6_port = port;
            s->sin6_addr.s6_addr[15] = (uint8_t) (7 + i);
            a->ai[i].ai_addrlen = sizeof *s;
        }
    }
    a->ai[0].ai_next = &a->ai[1];
    dns->live++;
    *res = a->ai;
    return 0;
}
extern "C" void freeaddrinfo(addrinfo* p) noexcept
{
    MC_CHECK(dns && dns->live == 1, "freeaddrinfo without an answer to free");
    dns->live--;
    delete (Answer*) (void*) p;
}

namespace
{
    struct Host
    {
        const char* text;
        int family;      // 0: a name
        const char* ip;  // canonical
    };
    const Host hosts[] = {{"127.0.0.1", AF_INET, "127.0.0.1"}, {"0.0.0.0", AF_INET, "0.0.0.0"}, {"255.255.255.255", AF_INET, "255.255.255.255"}, {"::1", AF_INET6, "::1"}, {"fe80::1:2", AF_INET6, "fe80::1:2"}, {"::ffff:1.2.3.4", AF_INET6, "::ffff:1.2.3.4"}, {"localhost", 0, ""}, {"1.2.3", 0, ""}, {"256.1.1.1", 0, ""}, {"", 0, ""}};
    constexpr int nhosts = sizeof hosts / sizeof *hosts;

    void check_addr(const SocketAddress& in, int family, const std::string& ip, uint16_t port, const char* what)
    {
        MC_CHECK(in.addrlen == (family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "%s: address of length %u", what, in.addrlen);
        MC_CHECK(in.family == family && in.as_sockaddr()->sa_family == family, "%s: family %d/%d", what, in.family, in.as_sockaddr()->sa_family);
        SocketAddress a = in;
        MC_CHECK(a.populate_from_storage(), "%s: the address cannot be read back", what);
        MC_CHECK(a.ip == ip && a.port == port && a.family == family, "%s: resolved to %s port %u", what, a.ip.c_str(), a.port);
    }

    // every op on two owners
    enum Ow { NEW0, NEW1, MOVE01, MOVE10, SELF0, TEMP0, RELEASE0, DROP0, DROP1, CLEAR1, NOW };
}  // namespace

// all histories of two owners
SCENARIO(socket_owner, {.race_check = false})
{
    static constexpr int N = 5;
    fk::env().low_fd = mc::choose_free(2, "descriptor 0 is free");
    int first = mc::choose_free(NOW, "first"), second = mc::choose_free(NOW, "second");
    int seq[N] = {first, second};
    for (int rest = 0; rest < NOW * NOW * NOW; rest++)
    {
        mc::Trial t("history");
        seq[2] = rest % NOW, seq[3] = rest / NOW % NOW, seq[4] = rest / NOW / NOW;
        {
            std::optional<Socket> o[2];
            o[0].emplace();
            o[1].emplace();
            int own[2] = {-1, -1};
            std::vector<int> released, gone;
            auto put = [&](int i, int fd) {
                if (own[i] >= 0) gone.push_back(own[i]);
                own[i] = fd;
            };
            for (int op: seq)
            {
                switch (op)
                {
                    case NEW0:
                    case NEW1:
                    {
                        int i = op == NEW1, fd = fk::make_fd();
                        o[i].emplace(fd);
                        put(i, fd);
                        break;
                    }
                    case MOVE01:
                    case MOVE10:
                    {
                        int d = op == MOVE01, s = 1 - d;
                        if (!o[d] || !o[s]) break;
                        *o[d] = std::move(*o[s]);
                        put(d, own[s]);
                        own[s] = -1;
                        break;
                    }
                    case SELF0:
                        if (o[0])
                        {
                            auto& r = *o[0];
                            *o[0] = std::move(r);
                        }
                        break;
                    case TEMP0:
                        if (o[0])
                        {
                            Socket x(std::move(*o[0]));
                            MC_CHECK(!o[0]->is_valid() && x.get() == own[0], "a moved socket still owns its descriptor");
                            *o[0] = std::move(x);
                        }
                        break;
                    case RELEASE0:
                        if (o[0])
                        {
                            int fd = o[0]->release();
                            MC_CHECK(fd == own[0], "release returned %d instead of %d", fd, own[0]);
                            if (fd >= 0) released.push_back(fd);
                            own[0] = -1;
                        }
                        break;
                    case DROP0:
                        o[0].reset();
                        put(0, -1);
                        break;
                    case DROP1:
                        o[1].reset();
                        put(1, -1);
                        break;
                    case CLEAR1:
                        o[1].emplace();
                        put(1, -1);
                        break;
                }
                for (int i = 0; i < 2; i++)
                {
                    if (!o[i]) continue;
                    MC_CHECK(o[i]->get() == own[i] && o[i]->is_valid() == (own[i] >= 0) && (bool) *o[i] == (own[i] >= 0), "a socket reports descriptor %d instead of %d", o[i]->get(), own[i]);
                    if (own[i] >= 0) MC_CHECK(fk::is_open(own[i]), "an owned descriptor was closed");
                }
                for (int fd: released) MC_CHECK(fk::is_open(fd), "a released descriptor was closed");
                int expect = (own[0] >= 0) + (own[1] >= 0) + (int) released.size();
                MC_CHECK(fk::open_count() == expect, "%d descriptors are open, %d are owned", fk::open_count(), expect);
            }
            o[0].reset();
            o[1].reset();
            for (int fd: released)
            {
                MC_CHECK(fk::is_open(fd), "a released descriptor was closed");
                close(fd);
            }
        }
        kh::check_fds("sockets");
        mc::count_states(N);
    }
    mc::outcome("ok");
}
SCENARIO(fd_guard, {.race_check = false})
{
    for (int plan = 0; plan < 16; plan++)
    {
        mc::Trial t("plan");
        fk::env().low_fd = plan & 8;
        {
            int fd = (plan & 7) == 7 ? -1 : fk::make_fd();
            std::optional<FDGuard> a, b, c;
            a.emplace(fd);
            MC_CHECK(a->get() == fd, "guard lost its descriptor");
            if (plan & 1)
            {
                b.emplace(std::move(*a));
                MC_CHECK(b->get() == fd && a->get() < 0, "a moved guard still owns its descriptor");
                if (plan & 2)
                {
                    c.emplace(std::move(*b));
                    MC_CHECK(c->get() == fd && b->get() < 0, "a moved guard still owns its descriptor");
                }
            }
            if (plan & 4) a.reset();
            if (fd >= 0) MC_CHECK(fk::is_open(fd) == ((plan & 1) || !(plan & 4)), "the descriptor is %s", fk::is_open(fd) ? "still open" : "closed");
        }
        kh::check_fds("guards");
    }
    mc::outcome("ok");
}
SCENARIO(resolve, {.race_check = false})
{
    auto& h = hosts[mc::choose_free(nhosts, "host")];
    for (int rc: {0, EAI_NONAME, EAI_AGAIN, EAI_SYSTEM})
        for (int fam: {AF_INET, AF_INET6})
            for (uint16_t port: {0, 1, 443, 65535})
            {
                mc::Trial t("host");
                Dns d{.rc = rc, .family = fam};
                dns = &d;
                // the name is part of a longer text
                auto buf = std::make_unique<char[]>(strlen(h.text) + 4);
                memcpy(buf.get(), h.text, strlen(h.text));
                memcpy(buf.get() + strlen(h.text), "1.9", 4);
                std::string_view name(buf.get(), strlen(h.text));
                auto r = resolve_address(name, port);
                if (h.family)
                {
                    MC_CHECK(r.has_value(), "%s is not understood", h.text);
                    check_addr(*r, h.family, h.ip, port, h.text);
                    MC_CHECK(d.asked.empty(), "%s was looked up", h.text);
                }
                else if (rc)
                    MC_CHECK(!r && !r.error().is_success(), "a failed lookup of \"%s\" gave an address", h.text);
                else
                {
                    MC_CHECK(r.has_value(), "%s was looked up but gave nothing", h.text);
                    MC_CHECK(d.asked == h.text, "looked up \"%s\" for \"%s\"", d.asked.c_str(), h.text);
                    check_addr(*r, fam, fam == AF_INET ? "10.0.0.1" : "::7", port, h.text);
                }
                MC_CHECK(d.live == 0, "a name service answer was not freed");
                dns = nullptr;
                mc::count_states(1);
            }
    mc::outcome(h.text);
}
SCENARIO(read_back, {.race_check = false})
{
    for (int fam: {0, AF_INET, AF_INET6, AF_UNIX})
        for (bool empty: {false, true})
        {
            mc::Trial t("family");
            SocketAddress a;
            a.ip = "before";
            a.addr.ss_family = (sa_family_t) fam;
            a.addrlen = empty ? 0 : sizeof a.addr;
            if (fam == AF_INET) ((sockaddr_in*) &a.addr)->sin_port = htons(0x1234);
            if (fam == AF_INET6) ((sockaddr_in6*) &a.addr)->sin6_port = htons(0x4321);
            bool ok = a.populate_from_storage();
            MC_CHECK(ok == (!empty && (fam == AF_INET || fam == AF_INET6)), "family %d: %d", fam, ok);
            if (ok) MC_CHECK(a.family == fam && a.port == (fam == AF_INET ? 0x1234 : 0x4321) && a.ip == (fam == AF_INET ? "0.0.0.0" : "::"), "family %d reads back as %s %u", fam, a.ip.c_str(), a.port);
        }
    mc::outcome("ok");
}
// every system call of every helper fails in turn, with every error
namespace
{
    struct Fault
    {
        int at;
        int code;
        int n = 0;
        std::string failed;
        void arm()
        {
            fk::env().syscall_fault = [this](const char* what) {
                if (n++ != at) return false;
                failed = what;
                errno = code;
                return true;
            };
        }
    };
    const int codes[] = {EMFILE, EADDRINUSE, EACCES, EINVAL, ENOBUFS, EADDRNOTAVAIL};
}  // namespace
SCENARIO(server_socket, {.race_check = false})
{
    auto& h = hosts[mc::choose_free(nhosts, "host")];
    for (int at = 0; at < 12; at++)
        for (int code: codes)
            for (int rc: {0, EAI_NONAME})
                for (int backlog: {1, 128})
                {
                    mc::Trial t("fault");
                    Fault f{at, code};
                    fk::env().low_fd = backlog == 1;
                    Dns d{.rc = rc, .family = at % 2 ? AF_INET : AF_INET6};
                    dns = &d;
                    f.arm();
                    auto r = create_tcp_server_socket(h.text, 8080, backlog);
                    fk::env().syscall_fault = {};
                    if (!h.family && rc)
                        MC_CHECK(!r && fk::open_count() == 0, "a server socket for an unknown host");
                    else if (!f.failed.empty())
                    {
                        MC_CHECK(!r, "a server socket although %s failed", f.failed.c_str());
                        MC_CHECK(r.error().value == code, "%s failed with %d but %d was reported", f.failed.c_str(), code, r.error().value);
                        MC_CHECK(fk::open_count() == 0, "the socket stays open after %s failed", f.failed.c_str());
                    }
                    else
                    {
                        MC_CHECK(r.has_value(), "no server socket: error %d", r ? 0 : r.error().value);
                        MC_CHECK(fk::open_count() == 1 && fk::is_open(*r), "not exactly the returned socket is open");
                        auto& s = fk::sock(*r);
                        int fam = h.family ? h.family : d.family;
                        MC_CHECK(s.family == fam && s.type == SOCK_STREAM, "socket of family %d type %d", s.family, s.type);
                        MC_CHECK(s.nonblock, "the socket blocks");
                        MC_CHECK(s.backlog == backlog, "listens with backlog %d instead of %d", s.backlog, backlog);
                        auto opt = [&](int o) { return s.options.count({SOL_SOCKET, o}) && s.options.at({SOL_SOCKET, o}) == 1; };
                        MC_CHECK(opt(SO_REUSEADDR) && opt(SO_REUSEPORT), "the address is not reusable");
                        SocketAddress a;
                        memcpy(&a.addr, s.bound.data(), s.bound.size());
                        a.addrlen = (socklen_t) s.bound.size();
                        a.family = a.addr.ss_family;
                        check_addr(a, fam, h.family ? h.ip : fam == AF_INET ? "10.0.0.1" : "::7", 8080, h.text);
                        close(*r);
                    }
                    MC_CHECK(d.live == 0, "a name service answer was not freed");
                    dns = nullptr;
                    kh::check_fds("server socket");
                    mc::count_states(1);
                }
    mc::outcome(h.text);
}
SCENARIO(client_socket, {.race_check = false})
{
    for (int fam: {AF_INET, AF_INET6})
        for (int at = 0; at < 6; at++)
            for (int code: codes)
            {
                mc::Trial t("fault");
                fk::env().low_fd = at >= 3;
                Fault f{at % 3, code};
                f.arm();
                auto r = create_tcp_fd(fam);
                MC_CHECK(r.has_value() == f.failed.empty(), "a socket although %s failed", f.failed.c_str());
                if (!r) MC_CHECK(r.error().value == code, "error %d reported as %d", code, r.error().value);
                else
                {
                    auto& s = fk::sock(*r);
                    MC_CHECK(s.family == fam && s.type == SOCK_STREAM && s.nonblock && s.cloexec, "socket of family %d type %d nonblocking %d close-on-exec %d", s.family, s.type, s.nonblock, s.cloexec);
                    if (at % 3 == 2)
                    {
                        fk::env().syscall_fault = {};
                        MC_CHECK(set_tcp_fd_options(*r).has_value(), "options are refused");
                        auto& o = fk::sock(*r).options;
                        MC_CHECK((o.count({IPPROTO_TCP, TCP_NODELAY}) && o.at({IPPROTO_TCP, TCP_NODELAY}) == 1 && o.count({SOL_SOCKET, SO_KEEPALIVE}) && o.at({SOL_SOCKET, SO_KEEPALIVE}) == 1), "the options are not set");
                    }
                    MC_CHECK(fk::open_count() == 1, "not exactly one descriptor is open");
                    close(*r);
                }
                fk::env().syscall_fault = {};
                kh::check_fds("client socket");
            }
    mc::outcome("ok");
}
// accepting through the owned-socket overload: the peer's address is the peer's
SCENARIO(accept_peer)
{
    int fam = mc::choose_free(2, "family") ? AF_INET6 : AF_INET;
    int err = mc::choose_free(3, "error");
    {
        kh::WT wt;
        wt.ready();
        Socket ls(fk::make_fd([&](const fk::Op& o, int& res) {
            if (o.opcode != IORING_OP_ACCEPT)
            {
                res = -EINVAL;
                return true;
            }
            if (err)
            {
                res = err == 1 ? -ECONNABORTED : -EMFILE;
                return true;
            }
            sockaddr_storage ss{};
            socklen_t n;
            if (fam == AF_INET)
            {
                auto* s = (sockaddr_in*) &ss;
                *s = {.sin_family = AF_INET, .sin_port = htons(777), .sin_addr = {htonl(0x01020304)}, .sin_zero = {}};
                n = sizeof *s;
            }
            else
            {
                auto* s = (sockaddr_in6*) &ss;
                s->sin6_family = AF_INET6;
                s->sin6_port = htons(777);
                s->sin6_addr.s6_addr[0] = 0xfe;
                n = sizeof *s;
            }
            auto* len = (socklen_t*) o.sqe.addr2;
            if (o.addr && len)
            {
                memcpy((void*) o.addr, &ss, std::min<size_t>(*len, n));
                *len = n;
            }
            res = fk::make_fd();
            return true;
        }));
        auto run = [&]() -> Task<void> {
            co_await io::SwitchToWorker(wt.w);
            SocketAddress peer;
            auto r = co_await wt.w.async_accept(ls, peer);
            MC_CHECK(r.has_value() == !err, "accept reported %s", r ? "success" : "an error");
            if (!r) co_return;
            Socket c(*r);
            MC_CHECK(peer.populate_from_storage(), "the peer's address is unknown");
            MC_CHECK(peer.port == 777 && peer.family == fam && peer.ip == (fam == AF_INET ? "1.2.3.4" : "fe00::"), "the peer is reported as %s port %u", peer.ip.c_str(), peer.port);
        };
        SyncWait(run());
    }
    kh::check_fds("accept");
    mc::outcome(err ? "error" : "peer");
}
