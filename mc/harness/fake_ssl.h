// A scripted TLS library behind the OpenSSL interface: every call that could go several ways asks
// the explorer.  It checks how it is used (live sessions, open non-blocking descriptors, waiting
// before retrying) and records what the connection really is.
#pragma once
#include <cerrno>
#include <cstring>
#include <deque>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "fakekern.h"
#include "mcrt.h"

#undef SSL_set_mode
#undef SSL_set_tlsext_host_name

struct ssl_st
{
    int id;
    int fd = -1;
    int role = 0;      // 1 client, 2 server (by the function used)
    int steps = 0;     // would-block answers so far
    bool done = false, fatal = false;
    bool tx = false, rx = false;
    int want = 0;      // POLLIN / POLLOUT to wait for before the next call
    bool waited = true;
    int last_ret = 0, last_err = 0;
    std::string sni, host;
    int shutdown = 0;
    int shutdown_calls = 0;
    std::string pending;
};
struct ssl_ctx_st
{
    int id;
    bool ktls = false, tickets = true;
    int verify = -1;
    bool alpn = false;
    long min_version = 0;
    std::map<std::string, std::string> asked;  // call -> its text arguments
};
struct ssl_method_st
{
    int role;
};
struct bio_st
{
    int dummy;
};

namespace fssl
{
    struct Lib
    {
        std::vector<unsigned long> errors;  // the thread's error queue
        std::set<ssl_st*> live;
        std::set<ssl_ctx_st*> live_ctx;
        std::vector<ssl_st*> all;  // sessions stay readable after they are freed
        int ids = 0;
        int max_wants = 2;
        bool scripted_ok = false;       // handshakes succeed at once
        bool shutdown_ok = false;
        int shutdown_first = -1;        // forced outcome of the next SSL_shutdown
        int ktls = -1;                  // -1: choose
        int fail_call = -1;             // index of the fallible context/session call to fail
        int calls = 0;
        std::string failed;
        bool poll_errors = true;
        bool choose_pending = false;
        std::vector<int> script;        // forced outcomes of handshake steps, taken first
        size_t script_at = 0;
        std::map<int, ssl_st*> by_fd;
    };
    inline Lib* L = nullptr;
    inline void* tag(ssl_st* s, int which) { return (char*) s + which; }
    // a call that can fail in a way the caller has to notice
    inline bool fails(const char* what)
    {
        if (L->calls++ != L->fail_call) return false;
        L->failed = what;
        L->errors.push_back(0x0A000041);
        return true;
    }
    inline ssl_st* chk(const SSL* s, const char* what)
    {
        MC_CHECK(s != nullptr, "%s without a session", what);
        MC_CHECK(L->live.count((ssl_st*) s), "%s on a session that was freed", what);
        return (ssl_st*) s;
    }
    inline ssl_ctx_st* chkc(const SSL_CTX* s, const char* what)
    {
        MC_CHECK(s && L->live_ctx.count((ssl_ctx_st*) s), "%s on a context that was freed", what);
        return (ssl_ctx_st*) s;
    }
    inline void io(ssl_st* s, const char* what)
    {
        MC_CHECK(fk::is_open(s->fd), "%s does I/O on a descriptor that is not open any more", what);
        MC_CHECK(fk::sock(s->fd).nonblock, "%s would block the worker: the descriptor is in blocking mode", what);
        MC_CHECK(s->waited, "%s called again without waiting for the descriptor to be ready", what);
    }
    enum Step { DONE, WANT_R, WANT_W, EOF_, SYS, SYS_EOF, PROTO, ODD, NSTEP };
    inline int finish(ssl_st* s, int ret, int err, int e = 0)
    {
        s->last_ret = ret;
        s->last_err = err;
        if (err == SSL_ERROR_SSL) L->errors.push_back(0x0A000086);
        errno = e;
        return ret;
    }
    inline int block(ssl_st* s, int ev)
    {
        s->steps++;
        s->want = ev;
        s->waited = false;
        return finish(s, -1, ev == POLLIN ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE, EAGAIN);
    }
    inline int handshake(SSL* p, int role, const char* what)
    {
        auto* s = chk(p, what);
        if (role) s->role = role;
        if (s->done) return finish(s, 1, SSL_ERROR_NONE);
        if (s->fatal) return finish(s, -1, SSL_ERROR_SSL);
        io(s, what);
        // would-block answers are bounded
        int k;
        if (L->script_at < L->script.size())
            k = L->script[L->script_at++];
        else if (L->scripted_ok)
            k = DONE;
        else if (s->steps < L->max_wants)
            k = mc::choose_free(NSTEP, "handshake step");
        else
        {
            k = mc::choose_free(NSTEP - 2, "handshake step");
            if (k) k += 2;
        }
        switch (k)
        {
            case DONE:
            {
                int m = L->ktls >= 0 ? L->ktls : mc::choose_free(4, "kernel TLS");
                s->done = true;
                s->tx = !(m & 1);
                s->rx = !(m & 2);
                return finish(s, 1, SSL_ERROR_NONE);
            }
            case WANT_R: return block(s, POLLIN);
            case WANT_W: return block(s, POLLOUT);
            case EOF_: s->fatal = true; return finish(s, 0, SSL_ERROR_ZERO_RETURN);
            case SYS: s->fatal = true; return finish(s, -1, SSL_ERROR_SYSCALL, ECONNRESET);
            case SYS_EOF: s->fatal = true; return finish(s, -1, SSL_ERROR_SYSCALL, 0);
            case PROTO: s->fatal = true; return finish(s, -1, SSL_ERROR_SSL);
            default: s->fatal = true; return finish(s, -1, SSL_ERROR_WANT_ASYNC);
        }
    }
    // the handler of a connection's descriptor; data passes only over a secured connection
    struct Wire
    {
        std::string in, out;
        int chunk = 0;
    };
    inline fk::Handler socket_handler(Wire* w)
    {
        return [w](const fk::Op& o, int& res) {
            auto it = L->by_fd.find(o.fd);
            ssl_st* s = it == L->by_fd.end() ? nullptr : it->second;
            bool secured = s && s->done && s->tx && s->rx;
            switch (o.opcode)
            {
                case IORING_OP_POLL_ADD:
                {
                    int ev = (int) (o.sqe.poll32_events & 0xffff);
                    if (s && !s->waited)
                    {
                        MC_CHECK(ev & s->want, "the session wants %s but %x is polled for", s->want == POLLIN ? "to read" : "to write", ev);
                        s->waited = true;
                    }
                    int k = L->poll_errors ? mc::choose_free(3, "poll") : 0;
                    res = k == 0 ? ev : k == 1 ? -ENOMEM : (POLLERR | POLLHUP);
                    return true;
                }
                case IORING_OP_READ:
                case IORING_OP_RECV:
                    MC_CHECK(secured, "application data is read from a connection that is not secured");
                    res = (int) std::min<size_t>(o.len, w->in.size());
                    if (w->chunk && res > w->chunk) res = w->chunk;
                    memcpy((void*) o.addr, w->in.data(), (size_t) res);
                    w->in.erase(0, (size_t) res);
                    return true;
                case IORING_OP_WRITE:
                case IORING_OP_SEND:
                    MC_CHECK(secured, "application data is written to a connection that is not secured");
                    res = (int) o.len;
                    if (w->chunk && res > w->chunk) res = w->chunk;
                    w->out.append((const char*) o.addr, (size_t) res);
                    return true;
                case IORING_OP_SPLICE:
                    if (o.sqe.splice_fd_in == o.fd) break;
                    MC_CHECK(secured, "a file is sent over a connection that is not secured");
                    res = (int) o.len;
                    w->out.append((size_t) res, 'F');
                    return true;
                case IORING_OP_CLOSE: res = 0; return true;
                case IORING_OP_CONNECT: res = 0; return true;
                default: break;
            }
            res = -EINVAL;
            return true;
        };
    }
    inline void checks_at_end()
    {
        MC_CHECK(L->live.empty(), "%zu TLS sessions were never freed", L->live.size());
        MC_CHECK(L->live_ctx.empty(), "%zu TLS contexts were never freed", L->live_ctx.size());
        for (auto* s: L->all) delete s;
        L->all.clear();
    }
    // a library for the duration of a scenario
    struct Use : Lib
    {
        Use() { L = this; }
        ~Use() { L = nullptr; }
    };
}  // namespace fssl

extern "C"
{
    using fssl::L;
    int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
    int OPENSSL_init_crypto(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
    const char* OpenSSL_version(int) { return "scripted"; }
    static ssl_method_st fssl_srv{2}, fssl_cli{1}, fssl_any{0};
    const SSL_METHOD* TLS_server_method(void) { return &fssl_srv; }
    const SSL_METHOD* TLS_client_method(void) { return &fssl_cli; }
    const SSL_METHOD* TLS_method(void) { return &fssl_any; }
    SSL_CTX* SSL_CTX_new(const SSL_METHOD*)
    {
        if (fssl::fails("SSL_CTX_new")) return nullptr;
        auto* c = new ssl_ctx_st{L->ids++};
        L->live_ctx.insert(c);
        return c;
    }
    void SSL_CTX_free(SSL_CTX* c)
    {
        if (!c) return;
        MC_CHECK(L->live_ctx.erase(c) == 1, "a TLS context was freed twice");
        MC_CHECK(L->live.empty(), "a TLS context was freed before its sessions");
        delete c;
    }
    long SSL_CTX_ctrl(SSL_CTX* c, int cmd, long larg, void*)
    {
        auto* x = fssl::chkc(c, "SSL_CTX_ctrl");
        if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION)
        {
            if (fssl::fails("SSL_CTX_set_min_proto_version")) return 0;
            x->min_version = larg;
        }
        return 1;
    }
    uint64_t SSL_CTX_set_options(SSL_CTX* c, uint64_t o)
    {
        if (o & SSL_OP_ENABLE_KTLS) fssl::chkc(c, "SSL_CTX_set_options")->ktls = true;
        return o;
    }
    int SSL_CTX_set_num_tickets(SSL_CTX* c, size_t n)
    {
        fssl::chkc(c, "SSL_CTX_set_num_tickets")->tickets = n != 0;
        return 1;
    }
#define FSSL_FALLIBLE(name, args, text)                              \
    int name args                                                    \
    {                                                                \
        auto* x = fssl::chkc(c, #name);                              \
        if (fssl::fails(#name)) return 0;                            \
        x->asked[#name] = text;                                      \
        return 1;                                                    \
    }
#define FSSL_TXT(p) std::string((p) ? (p) : "-")
    FSSL_FALLIBLE(SSL_CTX_use_certificate_chain_file, (SSL_CTX * c, const char* a), FSSL_TXT(a))
    FSSL_FALLIBLE(SSL_CTX_use_PrivateKey_file, (SSL_CTX * c, const char* a, int), FSSL_TXT(a))
    FSSL_FALLIBLE(SSL_CTX_check_private_key, (const SSL_CTX* c), "")
    FSSL_FALLIBLE(SSL_CTX_load_verify_locations, (SSL_CTX * c, const char* a, const char* b), FSSL_TXT(a) + " " + FSSL_TXT(b))
    FSSL_FALLIBLE(SSL_CTX_set_cipher_list, (SSL_CTX * c, const char* a), FSSL_TXT(a))
    FSSL_FALLIBLE(SSL_CTX_set_ciphersuites, (SSL_CTX * c, const char* a), FSSL_TXT(a))
    int SSL_CTX_set_default_verify_paths(SSL_CTX* c)
    {
        fssl::chkc(c, "verify paths")->asked["SSL_CTX_set_default_verify_paths"] = "";
        return 1;
    }
    int SSL_CTX_set_alpn_protos(SSL_CTX* c, const unsigned char* p, unsigned n)
    {
        auto* x = fssl::chkc(c, "SSL_CTX_set_alpn_protos");
        if (fssl::fails("SSL_CTX_set_alpn_protos")) return 1;  // 0 means success here
        for (unsigned i = 0; i < n;)
        {
            unsigned l = p[i];
            if (l == 0 || i + 1 + l > n) return 1;
            i += 1 + l;
        }
        x->alpn = n > 0;
        x->asked["SSL_CTX_set_alpn_protos"] = std::string((const char*) p, n);
        return 0;
    }
    void SSL_CTX_set_verify(SSL_CTX* c, int mode, SSL_verify_cb) { fssl::chkc(c, "SSL_CTX_set_verify")->verify = mode; }

    SSL* SSL_new(SSL_CTX* c)
    {
        fssl::chkc(c, "SSL_new");
        if (fssl::fails("SSL_new")) return nullptr;
        auto* s = new ssl_st{L->ids++};
        L->live.insert(s);
        L->all.push_back(s);
        return s;
    }
    void SSL_free(SSL* s)
    {
        if (!s) return;
        MC_CHECK(L->live.erase(s) == 1, "a TLS session was freed twice");
    }
    int SSL_set_fd(SSL* p, int fd)
    {
        auto* s = fssl::chk(p, "SSL_set_fd");
        if (fssl::fails("SSL_set_fd")) return 0;
        s->fd = fd;
        L->by_fd[fd] = s;
        return 1;
    }
    int SSL_get_fd(const SSL* s) { return fssl::chk(s, "SSL_get_fd")->fd; }
    long SSL_ctrl(SSL* p, int cmd, long, void* arg)
    {
        auto* s = fssl::chk(p, "SSL_ctrl");
        if (cmd == SSL_CTRL_SET_TLSEXT_HOSTNAME)
        {
            if (fssl::fails("SSL_set_tlsext_host_name")) return 0;
            s->sni = (const char*) arg;
        }
        return 1;
    }
    int SSL_set1_host(SSL* p, const char* h)
    {
        auto* s = fssl::chk(p, "SSL_set1_host");
        if (fssl::fails("SSL_set1_host")) return 0;
        s->host = h;
        return 1;
    }
    int SSL_connect(SSL* s) { return fssl::handshake(s, 1, "SSL_connect"); }
    int SSL_accept(SSL* s) { return fssl::handshake(s, 2, "SSL_accept"); }
    void SSL_set_connect_state(SSL* s) { fssl::chk(s, "SSL_set_connect_state")->role = 1; }
    void SSL_set_accept_state(SSL* s) { fssl::chk(s, "SSL_set_accept_state")->role = 2; }
    int SSL_do_handshake(SSL* s) { return fssl::handshake(s, 0, "SSL_do_handshake"); }
    int SSL_is_init_finished(const SSL* s) { return fssl::chk(s, "SSL_is_init_finished")->done; }
    int SSL_get_error(const SSL* p, int ret)
    {
        auto* s = fssl::chk(p, "SSL_get_error");
        if (ret > 0) return SSL_ERROR_NONE;
        if (!L->errors.empty()) return SSL_ERROR_SSL;  // whoever left it there
        return s->last_err;
    }
    BIO* SSL_get_rbio(const SSL* s) { return (BIO*) fssl::tag(fssl::chk(s, "SSL_get_rbio"), 1); }
    BIO* SSL_get_wbio(const SSL* s) { return (BIO*) fssl::tag(fssl::chk(s, "SSL_get_wbio"), 2); }
    long BIO_ctrl(BIO* b, int cmd, long, void*)
    {
        auto u = (uintptr_t) b;
        auto* s = fssl::chk((SSL*) (u & ~(uintptr_t) 7), "BIO_ctrl");
        if (cmd == BIO_CTRL_GET_KTLS_SEND) return (u & 7) == 2 && s->tx;
        if (cmd == BIO_CTRL_GET_KTLS_RECV) return (u & 7) == 1 && s->rx;
        return 0;
    }
    int SSL_pending(const SSL* p)
    {
        auto* s = fssl::chk(p, "SSL_pending");
        return (int) s->pending.size();
    }
    int SSL_has_pending(const SSL* p) { return SSL_pending(p) > 0; }
    int SSL_read(SSL* p, void* b, int n)
    {
        auto* s = fssl::chk(p, "SSL_read");
        MC_CHECK(s->done && s->tx && s->rx, "application data is read through a session that is not secured");
        int k = std::min(n, (int) s->pending.size());
        if (k <= 0) return fssl::finish(s, -1, SSL_ERROR_WANT_READ, EAGAIN);
        memcpy(b, s->pending.data(), (size_t) k);
        s->pending.erase(0, (size_t) k);
        return k;
    }
    int SSL_shutdown(SSL* p)
    {
        auto* s = fssl::chk(p, "SSL_shutdown");
        MC_CHECK(s->done, "SSL_shutdown before the handshake is done");
        if (s->shutdown == 3) return fssl::finish(s, 1, 0);
        fssl::io(s, "SSL_shutdown");
        s->shutdown |= SSL_SENT_SHUTDOWN;
        int k = L->shutdown_first >= 0 ? std::exchange(L->shutdown_first, -1) : L->shutdown_ok ? 0 : s->shutdown_calls++ < 2 ? mc::choose_free(7, "shutdown") : mc::choose_free(2, "shutdown");
        switch (k)
        {
            case 0: s->shutdown = 3; return fssl::finish(s, 1, 0);
            case 1: return fssl::finish(s, -1, SSL_ERROR_SSL);
            case 2: return fssl::finish(s, 0, SSL_ERROR_SYSCALL);  // close_notify sent, none received yet
            case 3: s->want = POLLIN; s->waited = false; return fssl::finish(s, -1, SSL_ERROR_WANT_READ, EAGAIN);
            case 4: s->want = POLLOUT; s->waited = false; return fssl::finish(s, -1, SSL_ERROR_WANT_WRITE, EAGAIN);
            case 5: return fssl::finish(s, -1, SSL_ERROR_SYSCALL, EPIPE);
            default: return fssl::finish(s, -1, SSL_ERROR_ZERO_RETURN);
        }
    }
    void SSL_set_shutdown(SSL* s, int m) { fssl::chk(s, "SSL_set_shutdown")->shutdown = m; }
    int SSL_get_shutdown(const SSL* s) { return fssl::chk(s, "SSL_get_shutdown")->shutdown; }
    const char* SSL_get_version(const SSL* s) { return fssl::chk(s, "SSL_get_version") ? "TLSv1.3" : ""; }
    const SSL_CIPHER* SSL_get_current_cipher(const SSL* s) { return (const SSL_CIPHER*) fssl::chk(s, "SSL_get_current_cipher"); }
    const char* SSL_CIPHER_get_name(const SSL_CIPHER*) { return "scripted"; }
    long SSL_get_verify_result(const SSL* s) { return fssl::chk(s, "SSL_get_verify_result") ? X509_V_OK : 1; }
    unsigned long ERR_get_error(void)
    {
        if (L->errors.empty()) return 0;
        auto e = L->errors.front();
        L->errors.erase(L->errors.begin());
        return e;
    }
    unsigned long ERR_peek_error(void) { return L->errors.empty() ? 0 : L->errors.front(); }
    unsigned long ERR_peek_last_error(void) { return L->errors.empty() ? 0 : L->errors.back(); }
    void ERR_clear_error(void) { L->errors.clear(); }
    void ERR_error_string_n(unsigned long, char* b, size_t n)
    {
        if (n) b[0] = 0;
    }
}
