// C21: a TLS stream reports a secured connection only when it has one, never moves application data
// over an unsecured one, and releases sessions and descriptors once, whatever the TLS library, the
// kernel and the peer answer.
#include "kioh.h"
#include "fake_ssl.h"
#include "kio/tls/context.h"
#include "kio/tls/listener.h"
#include "kio/tls/stream.h"
#include <netinet/in.h>
#include <unistd.h>
using namespace kio;
using namespace kio::tls;
using net::Socket;
static kh::AutoSilence as_;

namespace
{
    TlsConfig config()
    {
        TlsConfig c;
        c.cert_path = "/cert";
        c.key_path = "/key";
        return c;
    }
    struct World
    {
        fssl::Use lib;
        std::optional<TlsContext> ctx;
        std::optional<kh::WT> wt;
        explicit World(bool server = true)
        {
            auto r = server ? TlsContext::make_server(config()) : TlsContext::make_client({});
            MC_CHECK(r.has_value(), "a valid TLS context was refused: %d", r ? 0 : r.error().value);
            ctx.emplace(std::move(*r));
            lib.calls = 0;
            wt.emplace();
            wt->ready();
        }
        io::Worker& w() { return wt->w; }
        void end(const char* what)
        {
            wt.reset();
            ctx.reset();
            fssl::checks_at_end();
            kh::check_fds(what);
        }
    };
    bool secured(const ssl_st* x) { return x->done && x->tx && x->rx; }

    void judge(const Result<void>& r, const TlsStream& s, const ssl_st* x, const char* which)
    {
        if (r)
        {
            MC_CHECK(x->done, "%s reports success although the handshake did not complete", which);
            MC_CHECK(x->tx && x->rx, "%s reports success although kernel TLS is off (send %d, receive %d)", which, x->tx, x->rx);
        }
        else
            MC_CHECK(!secured(x), "%s reports failure (%d) of a connection that is secured", which, r.error().value);
        MC_CHECK(!s.is_ktls_active() || (x->tx && x->rx && x->done), "is_ktls_active() without kernel TLS");
        MC_CHECK(!s.is_handshake_done() || x->done, "is_handshake_done() without a handshake");
        if (r) MC_CHECK(s.is_ktls_active() && s.is_handshake_done(), "a secured stream does not know it");
    }
    // every way a handshake can go
    void handshakes(TlsRole role, bool with_host, int max_wants)
    {
        World W(role == TlsRole::Server);
        W.lib.max_wants = max_wants;
        fssl::Wire wire;
        std::string how;
        auto run = [&]() -> Task<void> {
            co_await io::SwitchToWorker(W.w());
            int fd = fk::make_fd(fssl::socket_handler(&wire));
            TlsStream s(W.w(), Socket(fd), *W.ctx, role);
            ssl_st* x = W.lib.all.back();
            MC_CHECK(x->fd == fd && s.fd() == fd, "the session works on descriptor %d instead of %d", x->fd, fd);
            W.lib.calls = 0;
            W.lib.fail_call = with_host ? mc::choose_free(3, "host name call fails") - 1 : -1;
            std::string host = "example.org";
            auto r = co_await s.async_handshake(with_host ? host.c_str() : "");
            bool call_failed = !W.lib.failed.empty();
            if (r || !call_failed) judge(r, s, x, "the handshake");
            if (r && with_host && role == TlsRole::Client) MC_CHECK(x->host == host && x->sni == host, "a client handshake succeeded without checking the server against its name (%s)", W.lib.failed.c_str());
            if (x->steps || x->done || x->fatal) MC_CHECK(x->role == (role == TlsRole::Client ? 1 : 2), "the session plays the wrong role");
            if (!r)
            {
                int e = r.error().value;
                how = call_failed ? "call" : std::to_string(e);
                if (x->done) MC_CHECK(call_failed || e == kTlsKtlsEnableFailed, "missing kernel TLS is reported as %d", e);
                if (x->fatal && x->last_err == SSL_ERROR_SSL) MC_CHECK(e == kTlsHandshakeFailed, "a protocol failure is reported as %d", e);
                if (x->fatal && x->last_err == SSL_ERROR_SYSCALL) MC_CHECK(e != 0, "a connection failure is reported as code 0");
                if (!x->fatal && !x->done && !call_failed) MC_CHECK(e == ENOMEM, "a failing poll is reported as %d", e);
            }
            else
                how = "ok";
            W.lib.fail_call = -1;
            bool was_done = x->done, was_fatal = x->fatal;
            auto r2 = co_await s.async_handshake(with_host ? host.c_str() : "");
            if (was_done && !call_failed) MC_CHECK(r2.has_value() == r.has_value(), "asked again, the same handshake is reported as %s", r2 ? "a success" : "a failure");
            if (was_fatal) MC_CHECK(!r2, "a failed handshake is reported as a success when asked again");
            judge(r2, s, x, "the second handshake call");
            if (!secured(x))
            {
                char b[4] = {};
                auto n = co_await s.async_read(b);
                MC_CHECK(!n, "a read from an unsecured stream returned %d", n.value_or(0));
                auto m = co_await s.async_write(b);
                MC_CHECK(!m, "a write to an unsecured stream returned %d", m.value_or(0));
            }
        };
        SyncWait(run());
        W.end("handshake");
        mc::outcome(how);
    }

    enum LifeOp { MOVE, READ, WRITE, WRITEX, SENDF, SHUT, CLOSE, AGAIN, NLIFE };
    void lifetimes(int n)
    {
        World W;
        fssl::Wire wire;
        wire.in = "abc";
        // how the connection starts: not at all, well, without kernel TLS in a direction, failed
        int start = mc::choose_free(5, "start");
        W.lib.script = start == 4 ? std::vector<int>{fssl::PROTO} : std::vector<int>{fssl::DONE};
        W.lib.ktls = start == 2 ? 1 : start == 3 ? 2 : 0;
        W.lib.scripted_ok = true;
        wire.chunk = mc::choose_free(2, "short I/O");
        auto run = [&]() -> Task<void> {
            co_await io::SwitchToWorker(W.w());
            int fd = fk::make_fd(fssl::socket_handler(&wire));
            int file = fk::make_fd([](const fk::Op& o, int& res) {
                res = o.opcode == IORING_OP_SPLICE ? (int) o.len : -EINVAL;
                return true;
            });
            std::deque<TlsStream> all;
            all.emplace_back(W.w(), Socket(fd), *W.ctx, TlsRole::Server);
            ssl_st* x = W.lib.all.back();
            net::SocketAddress peer;
            peer.ip = "9.8.7.6";
            peer.port = 77;
            all.back().set_peer_addr(std::move(peer));
            if (start) (void) co_await all.back().async_handshake();
            if (secured(x)) x->pending = "pq";
            std::string expect_in = secured(x) ? "pqabc" : "abc", expect_out;
            bool open = true;
            for (int i = 0; i < n; i++)
            {
                auto& s = all.back();
                bool ok = secured(x) && open;
                mc::count_states(1);
                switch (mc::choose_free(NLIFE, "operation"))
                {
                    case MOVE:
                    {
                        TlsStream t(std::move(s));
                        MC_CHECK(s.fd() == -1 && !s.is_handshake_done() && !s.is_ktls_active(), "a moved-from stream still claims a connection");
                        char b[2] = {};
                        auto r = co_await s.async_read(b);
                        MC_CHECK(!r, "a moved-from stream delivers data");
                        auto q = co_await s.async_write(b);
                        MC_CHECK(!q, "a moved-from stream accepts data");
                        all.emplace_back(std::move(t));
                        break;
                    }
                    case READ:
                    {
                        char b[2] = {};
                        size_t pending_before = x->pending.size();
                        auto r = co_await s.async_read(b);
                        bool buffered = secured(x) && pending_before > 0;  // what the library had decrypted already may be delivered late
                        MC_CHECK(ok || !r || buffered, "reading a stream that is %s returned %d", open ? "not secured" : "closed", r.value_or(0));
                        if (!ok && r)
                        {
                            MC_CHECK(expect_in.compare(0, (size_t) *r, b, (size_t) *r) == 0, "a read delivered other bytes");
                            expect_in.erase(0, (size_t) *r);
                        }
                        if (ok)
                        {
                            MC_CHECK(r && (*r > 0 || expect_in.empty()), "reading a secured stream failed");
                            MC_CHECK(expect_in.compare(0, (size_t) *r, b, (size_t) *r) == 0, "a read delivered other bytes");
                            expect_in.erase(0, (size_t) *r);
                        }
                        break;
                    }
                    case WRITE:
                    {
                        auto r = co_await s.async_write(std::span<const char>("wx", 2));
                        MC_CHECK(ok == r.has_value(), "writing to a stream that is %s %s", ok ? "secured" : "not secured or closed", r ? "succeeded" : "failed");
                        if (r) expect_out += std::string("wx").substr(0, (size_t) *r);
                        break;
                    }
                    case WRITEX:
                    {
                        auto r = co_await s.async_write_exact(std::span<const char>("XYZ", 3));
                        MC_CHECK(ok == r.has_value(), "writing exactly to a stream that is %s %s", ok ? "secured" : "not secured or closed", r ? "succeeded" : "failed");
                        if (r) expect_out += "XYZ";
                        break;
                    }
                    case SENDF:
                    {
                        auto r = co_await s.async_sendfile(file, 0, 2);
                        MC_CHECK(ok == r.has_value(), "sending a file over a stream that is %s %s", ok ? "secured" : "not secured or closed", r ? "succeeded" : "failed");
                        if (r) expect_out += "FF";
                        break;
                    }
                    case SHUT: (void) co_await s.async_shutdown(); break;
                    case CLOSE:
                        (void) co_await s.async_close();
                        open = false;
                        MC_CHECK(!fk::is_open(fd), "a closed stream keeps its descriptor open");
                        break;
                    default:
                        if (open) judge(co_await s.async_handshake(), s, x, "the handshake");
                        break;
                }
                MC_CHECK(fk::is_open(fd) == open, "the descriptor was closed behind the stream's back");
                MC_CHECK(all.back().peer_ip() == "9.8.7.6" && all.back().peer_port() == 77, "the stream forgot its peer");
                MC_CHECK(wire.out == expect_out, "the wire carries %s instead of %s", wire.out.c_str(), expect_out.c_str());
                if (secured(x) && !x->pending.empty() && expect_in.empty()) mc::fail("harness");
            }
            all.clear();
            MC_CHECK(!fk::is_open(fd), "a destroyed stream keeps its descriptor open");
            ::close(file);
        };
        SyncWait(run());
        W.end("lifetime");
        mc::outcome("ok");
    }

    // two connections on one worker do not disturb each other
    DetachedTask one(World& W, fssl::Wire* wire, kh::Event* done, std::string* how, bool close_it)
    {
        co_await io::SwitchToWorker(W.w());
        {
            int fd = fk::make_fd(fssl::socket_handler(wire));
            TlsStream s(W.w(), Socket(fd), *W.ctx, TlsRole::Server);
            ssl_st* x = W.lib.all.back();
            auto r = co_await s.async_handshake();
            judge(r, s, x, "the handshake");
            if (!r) MC_CHECK(x->fatal, "a handshake failed with %d although nothing failed on its connection", r.error().value);
            if (close_it) (void) co_await s.async_close();
            *how += r ? "+" : "-";
        }
        done->hit();
    }
    void two_streams(bool after)
    {
        World W;
        W.lib.max_wants = 1;
        W.lib.ktls = 0;
        W.lib.poll_errors = false;
        fssl::Wire wire;
        std::string how;
        kh::Event done;
        one(W, &wire, &done, &how, true).detach();
        if (after) done.await(1);
        one(W, &wire, &done, &how, false).detach();
        done.await(2);
        W.end("two streams");
        mc::outcome(how);
    }
    // the worker is asked to stop in the middle of it
    void stopped()
    {
        World W;
        W.lib.max_wants = 2;
        W.lib.ktls = 0;
        W.lib.poll_errors = false;
        fssl::Wire wire;
        std::atomic<int> result{0};
        {
            struct Go
            {
                static DetachedTask run(World& W, fssl::Wire* wire, std::atomic<int>* result)
                {
                    co_await io::SwitchToWorker(W.w());
                    TlsStream s(W.w(), Socket(fk::make_fd(fssl::socket_handler(wire))), *W.ctx, TlsRole::Server);
                    ssl_st* x = W.lib.all.back();
                    auto r = co_await s.async_handshake();
                    judge(r, s, x, "the handshake");
                    result->store(r ? 1 : 2);
                }
            };
            Go::run(W, &wire, &result).detach();
            W.wt->stop();
        }
        int r = result.load();
        if (r)
            W.end("stopped");
        else
            W.wt.reset();  // the handshake stays suspended in the worker that ended
        mc::outcome(r == 0 ? "cut off" : r == 1 ? "secured" : "failed");
        if (!r)
        {
            // its session and context are out of reach: leave them
            new std::optional<TlsContext>(std::move(W.ctx));
        }
    }
    void constructions()
    {
        World W;
        int which = mc::choose_free(3, "failing call");
        fssl::Wire wire;
        bool threw = false;
        auto run = [&]() -> Task<void> {
            co_await io::SwitchToWorker(W.w());
            int fd = fk::make_fd(fssl::socket_handler(&wire));
            W.lib.calls = 0;
            W.lib.fail_call = which - 1;
            try
            {
                TlsStream s(W.w(), Socket(fd), *W.ctx, TlsRole::Client);
                MC_CHECK(fk::is_open(fd), "the stream closed its descriptor");
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            W.lib.fail_call = -1;
            MC_CHECK(!fk::is_open(fd), "the descriptor outlives the stream");
        };
        SyncWait(run());
        MC_CHECK(threw == (which != 0), "a stream without a session was created");
        W.end("construction");
        mc::outcome(threw ? "refused" : "created");
    }
    void contexts()
    {
        fssl::Use lib;
        bool server = mc::choose_free(2, "server");
        TlsConfig c;
        int given = mc::choose_free(4, "certificate and key");
        if (given & 1) c.cert_path = "/cert";
        if (given & 2) c.key_path = "/key";
        int ca = mc::choose_free(4, "trust");
        if (ca & 1) c.ca_cert_path = "/ca";
        if (ca & 2) c.ca_dir_path = "/cad";
        int ver = mc::choose_free(3, "version");
        if (ver) c.min_version = ver == 1 ? TlsVersion::TLS_1_2 : TlsVersion::TLS_1_3;
        c.verify_mode = mc::choose_free(2, "verify") ? SSL_VERIFY_PEER : SSL_VERIFY_NONE;
        int ciphers = mc::choose_free(4, "ciphers");
        if (ciphers & 1) c.cipher_suites = "A";
        if (ciphers & 2) c.ciphersuites_tls13 = "B";
        int alpn = mc::choose_free(4, "alpn");
        if (alpn == 1) c.alpn_protocols = {"h2", "http/1.1"};
        if (alpn == 2) c.alpn_protocols = {"h2", ""};
        if (alpn == 3) c.alpn_protocols = {std::string(258, 'x')};
        lib.fail_call = mc::choose_free(10, "failing call") - 1;
        {
            auto r = server ? TlsContext::make_server(c) : TlsContext::make_client(c);
            if (!lib.failed.empty()) MC_CHECK(!r, "a TLS context was created although %s failed", lib.failed.c_str());
            if (server && given != 3) MC_CHECK(!r, "a server context without certificate and key was created");
            if (alpn >= 2) MC_CHECK(!r, "a TLS context was created although its protocol list is invalid");
            if (lib.failed.empty() && (!server || given == 3) && alpn < 2) MC_CHECK(r.has_value(), "a valid TLS context was refused: %d", r ? 0 : r.error().value);
            if (r)
            {
                auto* x = r->get();
                MC_CHECK(x && lib.live_ctx.count(x), "a TLS context without content");
                MC_CHECK(x->ktls, "kernel TLS was not asked for");
                MC_CHECK(!server || !x->tickets, "session tickets are on although kernel TLS cannot take them");
                MC_CHECK(x->verify == c.verify_mode, "the peer is verified with mode %d instead of %d", x->verify, c.verify_mode);
                MC_CHECK(x->alpn == (alpn == 1), "the protocol list was not passed on");
                MC_CHECK(x->min_version == (ver == 2 ? TLS1_3_VERSION : TLS1_2_VERSION), "the oldest accepted version is 0x%lx", x->min_version);
                auto passed = [&](const char* call, bool want, const std::string& text) {
                    auto it = x->asked.find(call);
                    MC_CHECK((it != x->asked.end()) == want && (!want || it->second == text), "%s was %s \"%s\"", call, it == x->asked.end() ? "not called with" : "called with", it == x->asked.end() ? text.c_str() : it->second.c_str());
                };
                passed("SSL_CTX_use_certificate_chain_file", given & 1, "/cert");
                passed("SSL_CTX_use_PrivateKey_file", given & 2, "/key");
                passed("SSL_CTX_check_private_key", given & 2, "");
                passed("SSL_CTX_load_verify_locations", ca != 0, std::string(ca & 1 ? "/ca" : "-") + " " + (ca & 2 ? "/cad" : "-"));
                if (!server && c.verify_mode != SSL_VERIFY_NONE) passed("SSL_CTX_set_default_verify_paths", ca == 0, "");
                passed("SSL_CTX_set_cipher_list", ciphers & 1, "A");
                passed("SSL_CTX_set_ciphersuites", ciphers & 2, "B");
                if (alpn == 1) passed("SSL_CTX_set_alpn_protos", true, "\x02h2\x08http/1.1");
                // moving it moves the ownership
                TlsContext a(std::move(*r));
                MC_CHECK(!r->get() && a.get() == x, "a moved context is owned twice");
                auto& same = a;
                a = std::move(same);
                MC_CHECK(a.get() == x && lib.live_ctx.count(x), "a context did not survive assigning it to itself");
                auto q = TlsContext::make_client({});
                if (q)
                {
                    auto* y = q->get();
                    a = std::move(*q);
                    MC_CHECK(a.get() == y && !lib.live_ctx.count(x), "the replaced context was not freed");
                }
            }
            else
                MC_CHECK(lib.live_ctx.empty(), "a refused context was not freed");
        }
        fssl::checks_at_end();
        mc::outcome(lib.failed.empty() ? "created" : lib.failed);
    }

    // listener: binding, then accepting one connection
    void listeners()
    {
        World W;
        W.lib.max_wants = 1;
        W.lib.poll_errors = false;
        static const char* names[] = {"socket", "setsockopt", "bind", "listen"};
        static std::atomic<int> at, left;
        int which = mc::choose_free(6, "failing call");  // one of these, none, an address that is none
        at = which;
        int v6 = mc::choose_free(2, "family");
        left = 0;
        fk::env().syscall_fault = [](const char* what) {
            int w = at.load(std::memory_order_relaxed);
            if (w >= 4 || strcmp(what, names[w]) || left.fetch_add(1, std::memory_order_relaxed)) return false;
            errno = EACCES;
            return true;
        };
        fssl::Wire wire;
        int accept_err = mc::choose_free(2, "accept") ? ECONNABORTED : 0;
        fk::env().all = [&](const fk::Op& o, int& res) {
            if (o.opcode != IORING_OP_ACCEPT)
            {
                res = -EINVAL;
                return true;
            }
            res = -accept_err;
            if (accept_err) return true;
            if (o.addr && o.sqe.addr2)
            {
                auto* len = (socklen_t*) o.sqe.addr2;
                sockaddr_storage ss{};
                socklen_t n;
                if (!v6)
                {
                    auto* s = (sockaddr_in*) &ss;
                    *s = {.sin_family = AF_INET, .sin_port = htons(777), .sin_addr = {htonl(0x01020304)}, .sin_zero = {}};
                    n = sizeof *s;
                }
                else
                {
                    auto* s = (sockaddr_in6*) &ss;
                    s->sin6_family = AF_INET6;
                    s->sin6_port = htons(777);
                    s->sin6_addr.s6_addr[0] = 0xfe;
                    n = sizeof *s;
                }
                memcpy((void*) o.addr, &ss, std::min<size_t>(*len, n));
                *len = n;
            }
            res = fk::make_fd(fssl::socket_handler(&wire));
            return true;
        };
        bool handed = false;
        auto run = [&]() -> Task<void> {
            co_await io::SwitchToWorker(W.w());
            ListenerConfig c;
            c.port = 4433;
            c.bind_address = v6 ? "::1" : "127.0.0.1";
            c.backlog = 9;
            if (which == 5) c.bind_address = v6 ? "::1::2" : "no address";
            auto l = TlsListener::bind(W.w(), c, *W.ctx);
            // a port that cannot be shared is only an optimisation lost
            if (which < 4 && which != 1) MC_CHECK(!l, "a listener was created although %s failed", names[which]);
            if (which == 5) MC_CHECK(!l, "a listener was created for the address %s", c.bind_address.c_str());
            if (which == 4) MC_CHECK(l.has_value(), "listening on %s failed: %d", c.bind_address.c_str(), l ? 0 : l.error().value);
            if (!l) co_return;
            auto s = co_await l->accept();
            if (accept_err)
            {
                MC_CHECK(!s && s.error().value == accept_err, "a failed accept was reported as %d", s ? 0 : s.error().value);
                co_return;
            }
            MC_CHECK(!W.lib.all.empty(), "accepted without a session");
            ssl_st* x = W.lib.all.back();
            MC_CHECK(s.has_value() == secured(x), "accept reports %s", s ? "a secured connection that is not one" : "failure of a secured connection");
            if (s)
            {
                handed = true;
                MC_CHECK(s->is_ktls_active() && fk::is_open(s->fd()) && s->fd() == x->fd, "the accepted stream is not the connection");
                MC_CHECK(s->peer_port() == 777 && s->peer_ip() == (v6 ? "fe00::" : "1.2.3.4"), "the peer is reported as %s port %u", s->peer_ip().c_str(), s->peer_port());
                (void) co_await s->async_write(std::span<const char>("hi", 2));
                MC_CHECK(wire.out == "hi", "nothing was written");
            }
            else
                MC_CHECK(!fk::is_open(x->fd), "a refused connection stays open");
        };
        SyncWait(run());
        W.end("listener");
        mc::outcome(handed ? "stream" : "none");
    }
    void connectors()
    {
        World W(false);
        W.lib.max_wants = 1;
        W.lib.poll_errors = false;
        static std::atomic<int> at;
        int which = mc::choose_free(4, "failing call");  // socket, connect, none, an address that is none
        at = which;
        fk::env().syscall_fault = [](const char* what) {
            if (at.load(std::memory_order_relaxed) != 0 || strcmp(what, "socket")) return false;
            errno = EMFILE;
            return true;
        };
        fssl::Wire wire;
        auto h = fssl::socket_handler(&wire);
        bool connected = false;
        fk::env().all = [&](const fk::Op& o, int& res) {
            if (o.opcode == IORING_OP_CONNECT)
            {
                res = which == 1 ? -ECONNREFUSED : 0;
                connected = which != 1;
                return true;
            }
            return h(o, res);
        };
        bool handed = false;
        auto run = [&]() -> Task<void> {
            co_await io::SwitchToWorker(W.w());
            TlsConnector c(W.w(), *W.ctx);
            std::string host = which == 3 ? "no address" : "127.0.0.1";
            auto s = co_await c.connect(host, 4433);
            if (which == 3)
            {
                MC_CHECK(!s && !connected && W.lib.all.empty(), "a connection to %s was attempted", host.c_str());
                co_return;
            }
            if (which < 2)
            {
                MC_CHECK(!s && s.error().value == (which ? ECONNREFUSED : EMFILE), "a failed connect was reported as %d", s ? 0 : s.error().value);
                MC_CHECK(W.lib.all.empty() || !W.lib.all.back()->done, "a handshake over a connection that was refused");
                co_return;
            }
            MC_CHECK(!W.lib.all.empty(), "connected without a session");
            ssl_st* x = W.lib.all.back();
            MC_CHECK(s.has_value() == secured(x), "connect reports %s", s ? "a secured connection that is not one" : "failure of a secured connection");
            if (s)
            {
                handed = true;
                MC_CHECK(connected && x->role == 1 && x->host == host, "the server was not checked against its name");
                auto r = co_await s->async_write(std::span<const char>("hi", 2));
                MC_CHECK(r && wire.out == "hi", "nothing was written");
            }
            else
                MC_CHECK(!fk::is_open(x->fd), "a failed connection stays open");
        };
        SyncWait(run());
        W.end("connector");
        mc::outcome(handed ? "stream" : "none");
    }
}  // namespace

SCENARIO(server_handshake, {.race_check = false, .switch_cost = true}) { handshakes(TlsRole::Server, false, 2); }
SCENARIO(client_handshake, {.race_check = false, .switch_cost = true}) { handshakes(TlsRole::Client, true, 2); }
SCENARIO(client_handshake_anonymous, {.race_check = false, .switch_cost = true}) { handshakes(TlsRole::Client, false, 1); }
SCENARIO(server_handshake_deep, {.race_check = false, .switch_cost = true}) { handshakes(TlsRole::Server, false, 3); }
SCENARIO(lifetimes_2, {.race_check = false, .switch_cost = true}) { lifetimes(2); }
SCENARIO(lifetimes_3, {.race_check = false, .switch_cost = true}) { lifetimes(3); }
SCENARIO(lifetimes_4, {.race_check = false, .switch_cost = true}) { lifetimes(4); }
SCENARIO(streams_together, {.switch_cost = true}) { two_streams(false); }
SCENARIO(streams_in_turn, {.switch_cost = true}) { two_streams(true); }
SCENARIO(stop_in_handshake) { stopped(); }
SCENARIO(construction, {.race_check = false, .switch_cost = true}) { constructions(); }
SCENARIO(context, {.race_check = false}) { contexts(); }
SCENARIO(listener, {.race_check = false, .switch_cost = true}) { listeners(); }
SCENARIO(connector, {.race_check = false, .switch_cost = true}) { connectors(); }
